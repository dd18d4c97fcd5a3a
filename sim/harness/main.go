// Command harness is the simulation worker: it runs seeds, replays and minimises cases.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"time"

	fmt "github.com/amarin/query/zz_verif/simfmt"
	"github.com/amarin/query/zz_verif/simrt"
)

// Replay is a replay file.
type Replay struct {
	Case
	Text    string   `json:"violation"`
	Trace   []string `json:"trace"`
	Prefix  []uint64 `json:"run_seeds_before,omitempty"`  // seeds run in the same process before
	Prefix2 []uint64 `json:"run_seeds_before2,omitempty"` // C10: those of the other process
	Cross   bool     `json:"cross_process,omitempty"`
	Crash   string   `json:"crash,omitempty"`
	Minim   bool     `json:"minimised"`
	Runs    int      `json:"minimiser_runs,omitempty"`
}

// Stats is what a worker reports.
type Stats struct {
	Runs      int               `json:"runs"`
	NonTriv   int               `json:"nontrivial"`
	Steps     int64             `json:"steps"`
	Switches  int64             `json:"switches"`
	Intra     int64             `json:"intra"`
	SimTime   int64             `json:"sim_ns"`
	Faults    map[string]int    `json:"faults"`
	Strats    map[string]int    `json:"strategies"`
	Ops       map[string]int    `json:"ops"`
	Callbacks int64             `json:"callbacks"`
	Checks    int64             `json:"checks"`
	Sites     []uint32          `json:"sites"`
	Digests   map[uint64]string `json:"digests,omitempty"`
	Samples   [][]string        `json:"samples,omitempty"`
	Wall      float64           `json:"wall_s"`
	NextSeed  uint64            `json:"next_seed"`
	Violation *Replay           `json:"violation,omitempty"`
	Overflow  int               `json:"overflow"`

	Unrepeated int       `json:"race_reports_not_repeated"`
	Fresh      []*Replay `json:"races_to_repeat,omitempty"` // ... in a fresh process, where nothing is warmed up
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	debug.SetGCPercent(-1) // memory is collected between runs only, see collect
	debug.SetMemoryLimit(1500 << 20)
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	from := fs.Uint64("from", 1, "first seed")
	n := fs.Int("n", 1, "number of seeds")
	rev := fs.Bool("reverse", false, "run the seeds in reverse order")
	out := fs.String("out", "", "result file")
	status := fs.String("status", "", "status file")
	hashes := fs.String("hashes", "", "file receiving the interleaving hashes")
	file := fs.String("file", "", "replay file")
	wall := fs.Float64("wall", 0, "wall clock limit in seconds")
	procs := fs.Int("procs", 1, "GOMAXPROCS")
	digests := fs.Bool("digests", false, "report a digest per seed")
	samples := fs.Int("samples", 0, "number of cases to write out")
	fresh := fs.Bool("fresh", false, "execute every candidate in a process of its own")
	strat := fs.String("strategy", "", "force a scheduling strategy")
	_ = fs.Parse(os.Args[2:])
	runtime.GOMAXPROCS(*procs)
	debug.SetMaxStack(64 << 20)
	switch os.Args[1] {
	case "run":
		seeds := make([]uint64, *n)
		for i := range seeds {
			seeds[i] = *from + uint64(i)
			if *rev {
				seeds[i] = *from + uint64(*n-1-i)
			}
		}
		st := runSeeds(*prop, seeds, *status, *hashes, *wall, *digests, *samples, *strat)
		writeJSON(*out, st)
	case "case": // print the case of a seed
		cs := caseOf(*prop, *from)
		writeJSON(*out, &Replay{Case: *cs, Trace: trace(cs)})
	case "replay":
		rp := readReplay(*file)
		for _, s := range rp.Prefix {
			execute(caseOf(rp.Prop, s))
		}
		o := execute(&rp.Case)
		res := map[string]any{"digest": o.digest}
		if o.viol != nil {
			res["violation"] = o.viol.Text
			res["schedule"] = o.schedule
		}
		if rp.Cross {
			var ts [][]string
			for _, s := range o.world.slots {
				ts = append(ts, s.texts())
			}
			res["texts"] = ts
		}
		writeJSON(*out, res)
	case "min":
		rp := readReplay(*file)
		m := &minimiser{best: &rp.Case, until: time.Now().Add(time.Duration(*wall * float64(time.Second)))}
		if *fresh {
			m.fresh = *out + ".case"
		}
		if m.viol, _ = m.exec(&rp.Case); m.viol == nil {
			fmt.Fprintln(os.Stderr, "the case does not fail")
			os.Exit(4)
		}
		size := len(rp.Case.Ops)
		m.minimise()
		if len(m.best.Ops) >= size && size > 8 && !*fresh { // what this process did before may hide the failure
			m.fresh = *out + ".case"
			m.until = time.Now().Add(time.Duration(*wall * float64(time.Second)))
			m.minimise()
		}
		writeJSON(*out, &Replay{Case: *m.best, Text: m.viol.Text, Trace: trace(m.best), Minim: true, Runs: m.runs})
	case "info":
		var names []string
		for _, d := range opList {
			names = append(names, d.Name)
		}
		sort.Strings(names)
		writeJSON(*out, map[string]any{"ops": names, "race": simrt.RaceEnabled})
	default:
		os.Exit(3)
	}
}

func readReplay(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rp := &Replay{}
	if err = json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return rp
}

func writeJSON(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil && file == "" {
		_, err = os.Stdout.Write(append(b, '\n'))
	} else if err == nil {
		err = os.WriteFile(file, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

var heap = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// collect frees memory between runs. Nothing is freed while one proceeds, so that addresses are not reused within a run: the
// race detector took accesses of an ended caller for accesses to what another one allocated at the same address.
func collect() {
	metrics.Read(heap)
	if heap[0].Value.Uint64() > 128<<20 {
		runtime.GC()
	}
}

func runSeeds(prop string, seeds []uint64, status, hashes string, wall float64, digests bool, samples int, strat string) *Stats {
	st := &Stats{Faults: map[string]int{}, Strats: map[string]int{}, Ops: map[string]int{}}
	if digests {
		st.Digests = map[uint64]string{}
	}
	var sf *os.File
	if status != "" {
		sf, _ = os.Create(status)
	}
	var hw io.Writer
	if hashes != "" {
		f, err := os.OpenFile(hashes, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err == nil {
			defer f.Close()
			hw = f
		}
	}
	start := time.Now()
	var hbuf []byte
	for i, seed := range seeds {
		if wall > 0 && time.Since(start).Seconds() > wall {
			break
		}
		if sf != nil {
			var b [16]byte
			binary.LittleEndian.PutUint64(b[:], seed)
			binary.LittleEndian.PutUint64(b[8:], uint64(i))
			_, _ = sf.WriteAt(b[:], 0)
		}
		cs := caseOf(prop, seed)
		if strat != "" {
			cs.Strategy = simrt.Strategy{Kind: strat, P: 0.1, D: 3, Len: 1000}
		}
		o := execute(cs)
		for i := 0; i < 4 && simrt.RaceEnabled && o.viol != nil; i++ { // a race must show again in the same execution
			c2 := *cs
			if o2 := execute(&c2); o2.viol != nil {
				break
			} else if i == 3 {
				st.Unrepeated++
				if len(st.Fresh) < 3 {
					rp := replayOf(cs, o)
					st.Fresh = append(st.Fresh, rp)
				}
				o.viol = nil
			}
		}
		collect()
		st.Runs++
		st.NextSeed = seed + 1
		st.Steps += int64(o.stats.Steps)
		st.Switches += int64(o.stats.Switches)
		st.Intra += int64(o.stats.Intra)
		st.SimTime += o.stats.SimTime
		st.Callbacks += int64(o.stats.Callback)
		st.Checks += int64(o.stats.Checks)
		st.Strats[cs.Strategy.Kind]++
		for k, v := range o.stats.Faults {
			st.Faults[k] += v
		}
		for _, op := range cs.Ops {
			st.Ops[op.K]++
		}
		if o.world.sched != nil && o.world.sched.Overflow() {
			st.Overflow++
		}
		if o.stats.Intra > 0 || len(o.stats.Faults) > 0 {
			st.NonTriv++
			hbuf = binary.LittleEndian.AppendUint64(hbuf, o.stats.Hash^seedMix(prop, seed))
		}
		if digests {
			st.Digests[seed] = o.digest
			if o.digest == "" {
				st.Digests[seed] = fmt.Sprintf("%016x/%d", o.stats.Hash, o.stats.Steps) + verdict(o)
			}
		}
		if len(st.Samples) < samples && o.stats.Intra > 0 && len(cs.Ops) < 45 {
			c2 := *cs
			c2.Schedule = o.schedule
			st.Samples = append(st.Samples, trace(&c2))
		}
		if o.viol != nil {
			rp := replayOf(cs, o)
			rp.Prefix = append([]uint64(nil), seeds[:i]...)
			st.Violation = rp
			break
		}
	}
	if hw != nil {
		_, _ = hw.Write(hbuf)
	}
	last := 0
	for i, h := range simrt.Hits {
		if h > 0 {
			last = i + 1
		}
	}
	st.Sites = append([]uint32(nil), simrt.Hits[:last]...)
	st.Wall = time.Since(start).Seconds()
	return st
}

// replayOf makes the replay of a failed execution.
func replayOf(cs *Case, o *outcome) *Replay {
	rp := &Replay{Case: *cs, Text: o.viol.Text}
	rp.Schedule = o.schedule
	rp.Strategy = simrt.Strategy{Kind: "replay"}
	if len(o.schedule) == 0 {
		rp.Strategy = cs.Strategy
	}
	if o.world.sched != nil && o.world.sched.Overflow() {
		rp.Strategy = cs.Strategy
		rp.Schedule = nil
	}
	return rp
}

func verdict(o *outcome) string {
	if o.viol != nil {
		return "!"
	}
	return ""
}

// seedMix makes executions of different programs different.
func seedMix(prop string, seed uint64) uint64 { return simrt.NewRng(seed, prop).U64() }
