// Command driver builds the simulation worker from the current tree of the repository, runs seeds on all cores, confirms and
// minimises what it finds, and writes the evidence.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	repo   = "/repo"
	verif  = "/verif"
	work   string
	prop   string
	tier   = "quick"
	seed   = 1
	start  = time.Now()
	worker string // the worker binary
	race   bool
)

// budget of one check.
type budget struct {
	Seeds int     // number of seeds
	Wall  float64 // seconds after which no new block is started
	Block int
}

func budgetOf(prop, tier string) budget {
	b := map[string]budget{
		"C01": {90000, 65, 250}, "C02": {70000, 65, 250}, "C03": {70000, 65, 250}, "C04": {100000, 65, 250}, "C05": {90000, 65, 250},
		"C06": {24000, 75, 150}, "C07": {90000, 65, 250}, "C08": {70000, 65, 250}, "C09": {100000, 65, 250}, "C10": {40000, 65, 200}, "C14": {70000, 60, 250}, "C16": {70000, 60, 250}, "C17": {8000, 60, 25}, "C18": {70000, 60, 250}, "C19": {70000, 60, 250},
	}[prop]
	if b.Seeds == 0 {
		fatal(2, "unknown property %s", prop)
	}
	if tier == "thorough" {
		b.Seeds *= 25
		b.Wall = 660
	}
	return b
}

func fatal(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if work != "" {
		_ = os.RemoveAll(work)
	}
}

func main() {
	replay := flag.String("replay", "", "replay a file")
	keep := flag.Bool("keep", false, "keep the work directory")
	nseeds := flag.Int("seeds", 0, "number of seeds (default: by tier)")
	wallF := flag.Float64("wall", 0, "wall limit")
	flag.StringVar(&repo, "repo", repo, "repository")
	flag.StringVar(&verif, "verif", verif, "framework")
	flag.Parse()
	if flag.NArg() > 0 {
		prop = flag.Arg(0)
	}
	if flag.NArg() > 1 {
		tier = flag.Arg(1)
	} else if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var rp *Replay
	if *replay != "" {
		rp = readReplay(*replay)
		prop = rp.Prop
	}
	race = prop == "C06"
	b := budgetOf(prop, tier)
	if *nseeds > 0 {
		b.Seeds = *nseeds
	}
	if *wallF > 0 {
		b.Wall = *wallF
	}
	if err := os.MkdirAll(filepath.Join(verif, ".work"), 0o755); err != nil {
		fatal(2, "%v", err)
	}
	var err error
	work, err = os.MkdirTemp(filepath.Join(verif, ".work"), prop+".")
	if err != nil {
		fatal(2, "%v", err)
	}
	if !*keep {
		defer cleanup()
	} else {
		defer fmt.Println("work directory:", work)
	}
	bld, err := build()
	if err != nil {
		fatal(2, "build: %v", err)
	}
	if rp != nil {
		code := doReplay(rp, *replay)
		if !*keep {
			cleanup()
		}
		os.Exit(code)
	}
	code := check(b, bld)
	if !*keep {
		cleanup()
	}
	os.Exit(code)
}

// Build describes how the worker was made.
type Build struct {
	Variant string
	Sites   []Site
	Notes   []string
	Wall    float64
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOWORK", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GO111MODULE", "GOOS", "GOARCH", "GOEXPERIMENT", "GORACE", "GOMAXPROCS", "GODEBUG", "GOGC", "GOMEMLIMIT":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	cgo := "0"
	if race {
		cgo = "1"
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED="+cgo)
}

// build makes the worker from the repository's current tree.
func build() (*Build, error) {
	t0 := time.Now()
	var last string
	for i, v := range variants {
		dst := filepath.Join(work, "m"+strconv.Itoa(i))
		sites, notes, err := instrument(repo, dst, v)
		if err != nil {
			return nil, err
		}
		for _, f := range []string{"go.mod", "go.sum"} {
			if data, err := os.ReadFile(filepath.Join(repo, f)); err == nil {
				if err = os.WriteFile(filepath.Join(dst, f), data, 0o644); err != nil {
					return nil, err
				}
			} else if f == "go.mod" {
				return nil, err
			}
		}
		for _, d := range []string{"simrt", "simsync", "simtime", "simrand", "simrand2", "simcrand", "simfmt", "simtouch", "simcall", "simuser", "harness"} {
			if err := copyDir(filepath.Join(verif, "sim", d), filepath.Join(dst, "zz_verif", d)); err != nil {
				return nil, err
			}
		}
		worker = filepath.Join(work, "worker")
		args := []string{"build", "-trimpath", "-o", worker}
		if race {
			// the simulator and the harness are invisible to the race detector: only accesses of the package and of
			// the standard library under it count, and the synchronisation the package performs itself
			args = append(args, "-race")
			for _, d := range []string{"simrt", "simsync", "simtime", "simrand", "simrand2", "simcrand", "simfmt", "harness"} {
				args = append(args, "-gcflags=github.com/amarin/query/zz_verif/"+d+"=-race=false -l")
			}
			if ov := fmtOverlay(dst); ov != "" {
				args = append(args, "-overlay", ov)
			}
		}
		cmd := exec.Command("go", append(args, "./zz_verif/harness")...)
		cmd.Dir = dst
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err == nil {
			if i > 0 {
				fmt.Printf("NOTE: the code is instrumented with the variant %q only: %s\n", v.Name, last)
			}
			return &Build{Variant: v.Name, Sites: sites, Notes: notes, Wall: time.Since(t0).Seconds()}, nil
		}
		last = strings.TrimSpace(string(out))
		if len(last) > 1500 {
			last = last[:1500]
		}
		fmt.Printf("NOTE: variant %q does not build: %s\n", v.Name, last)
	}
	return nil, errors.New("no variant builds: " + last)
}

// fmtOverlay makes a copy of package fmt without its cache of printers: with the cache, goroutines that never synchronise
// would look synchronised by (or racing on) a printer they happen to reuse.
func fmtOverlay(dst string) string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return ""
	}
	file := filepath.Join(strings.TrimSpace(string(out)), "src", "fmt", "print.go")
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	text := string(b)
	get, put := "ppFree.Get().(*pp)", "ppFree.Put(p)"
	if strings.Count(text, get) != 1 || strings.Count(text, put) != 1 {
		fmt.Println("NOTE: package fmt is not as expected; its printer cache stays")
		return ""
	}
	text = strings.Replace(strings.Replace(text, get, "new(pp)", 1), put, "", 1)
	mod := filepath.Join(dst, "fmt_print.go.txt")
	if os.WriteFile(mod, []byte(text), 0o644) != nil {
		return ""
	}
	ov := filepath.Join(dst, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{file: mod}})
	if os.WriteFile(ov, j, 0o644) != nil {
		return ""
	}
	return ov
}

func copyDir(src, dst string) error {
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	if err = os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	for _, e := range es {
		data, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		if err = os.WriteFile(filepath.Join(dst, e.Name()), data, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Replay is a replay file; the case itself is opaque to the driver.
type Replay struct {
	Prop    string
	Text    string
	Cross   bool
	Crash   string
	Prefix  []uint64
	Prefix2 []uint64
	raw     map[string]json.RawMessage
	fresh   bool // to be minimised in fresh processes
}

func parseReplay(b []byte) (*Replay, error) {
	r := &Replay{raw: map[string]json.RawMessage{}}
	if err := json.Unmarshal(b, &r.raw); err != nil {
		return nil, err
	}
	get := func(k string, v any) { _ = json.Unmarshal(r.raw[k], v) }
	get("property", &r.Prop)
	get("violation", &r.Text)
	get("cross_process", &r.Cross)
	get("crash", &r.Crash)
	get("run_seeds_before", &r.Prefix)
	get("run_seeds_before2", &r.Prefix2)
	return r, nil
}

func readReplay(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	r, err := parseReplay(b)
	if err != nil {
		fatal(2, "%s: %v", file, err)
	}
	return r
}

func (r *Replay) set(k string, v any) {
	b, _ := json.Marshal(v)
	r.raw[k] = b
}

func (r *Replay) write(file string) {
	// keep a readable order of the members
	order := []string{"property", "violation", "race_report", "crash", "trace", "seed", "sched_seed", "strategy", "minimised", "minimiser_runs", "faults", "ops", "schedule"}
	seen := map[string]bool{}
	var keys []string
	for _, k := range order {
		if _, ok := r.raw[k]; ok {
			keys = append(keys, k)
			seen[k] = true
		}
	}
	var rest []string
	for k := range r.raw {
		if !seen[k] {
			rest = append(rest, k)
		}
	}
	sort.Strings(rest)
	keys = append(keys, rest...)
	var b bytes.Buffer
	b.WriteString("{\n")
	for i, k := range keys {
		var v bytes.Buffer
		pre := " "
		if k == "ops" || k == "schedule" || k == "faults" {
			var list []json.RawMessage
			if json.Unmarshal(r.raw[k], &list) == nil {
				v.WriteString("[")
				for j, x := range list {
					if j > 0 {
						v.WriteString(",")
					}
					v.WriteString("\n  ")
					_ = json.Compact(&v, x)
				}
				v.WriteString("\n ]")
			}
		}
		if v.Len() == 0 {
			if json.Indent(&v, r.raw[k], " ", " ") != nil {
				v.Write(r.raw[k])
			}
		}
		fmt.Fprintf(&b, "%s%q: %s", pre, k, v.String())
		if i < len(keys)-1 {
			b.WriteString(",")
		}
		b.WriteString("\n")
	}
	b.WriteString("}\n")
	if err := os.WriteFile(file, b.Bytes(), 0o644); err != nil {
		fatal(2, "%v", err)
	}
}

// result of a worker process.
type procResult struct {
	exit   int
	stderr string
	killed bool
	wall   float64
}

func runProc(limit time.Duration, status string, args ...string) procResult {
	t0 := time.Now()
	cmd := exec.Command(worker, args...)
	var se tail
	cmd.Stderr = &se
	cmd.Stdout = &se
	cmd.Env = append(goEnv(), "VERIF_RACE_LOG="+filepath.Join(work, "race"), "GORACE=log_path="+filepath.Join(work, "race")+" halt_on_error=0 exitcode=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0", "GOTRACEBACK=single")
	if slices.Contains(args, "-procs") && args[slices.Index(args, "-procs")+1] == "4" { // the other process lives elsewhere
		cmd.Env = append(cmd.Env, "TZ=Asia/Kolkata", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "USER=somebody", "HOSTNAME=elsewhere", "DEBUG=1")
	}
	if err := cmd.Start(); err != nil {
		return procResult{exit: -1, stderr: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	deadline := time.After(limit)
	tick := time.NewTicker(5 * time.Second)
	defer tick.Stop()
	last, since := "", time.Now()
	for {
		select {
		case err := <-done:
			r := procResult{stderr: se.String(), wall: time.Since(t0).Seconds()}
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				r.exit = ee.ExitCode()
				if r.exit < 0 {
					r.exit = 200
				}
			} else if err != nil {
				r.exit = -1
			}
			return r
		case <-tick.C:
			if status == "" {
				continue
			}
			if b, err := os.ReadFile(status); err == nil && string(b) != last {
				last, since = string(b), time.Now()
			}
			if time.Since(since) > 60*time.Second {
				_ = cmd.Process.Kill()
				<-done
				return procResult{exit: 201, killed: true, stderr: se.String(), wall: time.Since(t0).Seconds()}
			}
		case <-deadline:
			_ = cmd.Process.Kill()
			<-done
			return procResult{exit: 201, killed: true, stderr: se.String(), wall: time.Since(t0).Seconds()}
		}
	}
}

// tail keeps the beginning and counts the rest.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 200000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// Stats is what a worker reports.
type Stats struct {
	Runs      int               `json:"runs"`
	NonTriv   int               `json:"nontrivial"`
	Steps     int64             `json:"steps"`
	Switches  int64             `json:"switches"`
	Intra     int64             `json:"intra"`
	SimTime   int64             `json:"sim_ns"`
	Faults    map[string]int    `json:"faults"`
	Strats    map[string]int    `json:"strategies"`
	Ops       map[string]int    `json:"ops"`
	Callbacks int64             `json:"callbacks"`
	Checks    int64             `json:"checks"`
	Sites     []uint32          `json:"sites"`
	Digests   map[string]string `json:"digests"`
	Samples   [][]string        `json:"samples"`
	Wall      float64           `json:"wall_s"`
	Violation json.RawMessage   `json:"violation"`
	Overflow  int               `json:"overflow"`

	Unrepeated int               `json:"race_reports_not_repeated"`
	Fresh      []json.RawMessage `json:"races_to_repeat"`
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Unrepeated += o.Unrepeated
	s.NonTriv += o.NonTriv
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Intra += o.Intra
	s.SimTime += o.SimTime
	s.Callbacks += o.Callbacks
	s.Checks += o.Checks
	s.Overflow += o.Overflow
	s.Wall += o.Wall
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Strats {
		s.Strats[k] += v
	}
	for k, v := range o.Ops {
		s.Ops[k] += v
	}
	for i, n := range o.Sites {
		for len(s.Sites) <= i {
			s.Sites = append(s.Sites, 0)
		}
		if s.Sites[i] > 1<<30 {
			continue
		}
		s.Sites[i] += n
	}
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

type found struct {
	block int
	rp    *Replay
	crash *crash
}

type crash struct {
	seed   uint64
	index  int
	from   uint64
	stderr string
	killed bool
	exit   int
}

func readStats(file string) (*Stats, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	s := &Stats{}
	return s, json.Unmarshal(b, s)
}

// check explores and reports.
func check(b budget, bld *Build) int {
	total := &Stats{Faults: map[string]int{}, Strats: map[string]int{}, Ops: map[string]int{}}
	t0 := time.Now()
	first := uint64(seed)*10000000 + 1
	nblocks := (b.Seeds + b.Block - 1) / b.Block
	var mu sync.Mutex
	var hits []found
	next := 0
	compared, differing := 0, 0
	procs := runtime.NumCPU()
	if procs > 8 {
		procs = 8
	}
	explored := 0.0 // seconds
	explore := func() {
		t1, before := time.Now(), explored
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					stop := i >= nblocks || len(hits) > 0 || before+time.Since(t1).Seconds() > b.Wall
					mu.Unlock()
					if stop {
						return
					}
					from := first + uint64(i*b.Block)
					cross := prop == "C10" || i == 0
					st, fd := runBlock(i, from, b.Block, cross)
					var st2 *Stats
					if fd == nil && cross {
						st2, fd = runBlockAgain(i, from, b.Block)
					}
					mu.Lock()
					if st != nil {
						total.add(st)
					}
					if fd != nil {
						hits = append(hits, *fd)
					} else if st2 != nil {
						for k, v := range st.Digests {
							w, ok := st2.Digests[k]
							if !ok {
								continue
							}
							compared++
							if v == w {
								continue
							}
							differing++
							if prop == "C10" && len(hits) == 0 {
								hits = append(hits, found{block: i, rp: crossReplay(from, b.Block, k)})
							}
						}
					}
					mu.Unlock()
				}
			}(p)
		}
		wg.Wait()
		explored += time.Since(t1).Seconds()
	}
	code := 0
	nviol := 0
	unconfirmed := 0
	known := knownFindings()
	for code == 0 {
		explore()
		if len(hits) == 0 {
			break
		}
		sort.Slice(hits, func(i, j int) bool { return hits[i].block < hits[j].block })
		for _, h := range hits {
			if file, text := confirm(h); file != "" {
				fmt.Println(text)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
				code = 1
				nviol++
				break
			}
		}
		if code != 0 {
			break
		}
		for _, h := range hits {
			if h.rp != nil {
				h.rp.write(filepath.Join(verif, "replays", fmt.Sprintf("unconfirmed.%s.%d.json", prop, unconfirmed)))
			}
			unconfirmed++
		}
		hits = nil
		fmt.Println("NOTE: something failed during exploration but could not be reproduced; exploration goes on")
		if time.Since(t0).Seconds() > b.Wall+200 {
			break
		}
	}
	if code == 0 && total.Runs == 0 {
		fmt.Println("ERROR: nothing could be explored; no verdict")
		code = 3
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	writeEvidence(b, bld, total, explored, compared, differing, nviol, unconfirmed)
	if code == 0 {
		fmt.Printf("%s held: %d simulated runs, %d with switches inside calls or injected faults, %d checks, %.1f s\n", prop, total.Runs, total.NonTriv, total.Checks, time.Since(start).Seconds())
	}
	return code
}

var freshTried int32

// freshRace limits how many unrepeated reports are looked into.
func freshRace() bool { return atomic.AddInt32(&freshTried, 1) <= 60 }

func knownFindings() []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			r = append(r, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return r
}

func runBlock(i int, from uint64, n int, digests bool) (*Stats, *found) {
	out := filepath.Join(work, fmt.Sprintf("b%d.json", i))
	status := filepath.Join(work, fmt.Sprintf("b%d.status", i))
	args := []string{"run", "-prop", prop, "-from", fmt.Sprint(from), "-n", fmt.Sprint(n), "-out", out, "-status", status,
		"-hashes", filepath.Join(work, fmt.Sprintf("b%d.hashes", i))}
	if digests {
		args = append(args, "-digests")
	}
	if i%16 == 3 || i == 0 {
		args = append(args, "-samples", "1")
	}
	defer os.Remove(out)
	defer os.Remove(status)
	r := runProc(600*time.Second, status, args...)
	if r.exit != 0 {
		c := &crash{from: from, stderr: r.stderr, killed: r.killed, exit: r.exit}
		if sb, err := os.ReadFile(status); err == nil && len(sb) >= 16 {
			c.seed, c.index = binary.LittleEndian.Uint64(sb), int(binary.LittleEndian.Uint64(sb[8:]))
		}
		return nil, &found{block: i, crash: c}
	}
	st, err := readStats(out)
	if err != nil {
		return nil, &found{block: i, crash: &crash{from: from, stderr: err.Error(), exit: -1}}
	}
	for _, raw := range st.Fresh { // does it happen in a process where nothing happened before?
		rp, err := parseReplay(raw)
		if err != nil || !freshRace() {
			break
		}
		f := filepath.Join(work, fmt.Sprintf("b%d.fresh.json", i))
		rp.write(f)
		again := runReplay(rp, f) != "" && runReplay(rp, f) != ""
		os.Remove(f)
		if again {
			rp.fresh = true
			return st, &found{block: i, rp: rp}
		}
	}
	if len(st.Violation) > 0 && string(st.Violation) != "null" {
		rp, err := parseReplay(st.Violation)
		if err != nil {
			return st, &found{block: i, crash: &crash{from: from, stderr: err.Error(), exit: -1}}
		}
		return st, &found{block: i, rp: rp}
	}
	return st, nil
}

// runBlockAgain runs the same seeds in another process, in the reverse order, with more processors.
func runBlockAgain(i int, from uint64, n int) (*Stats, *found) {
	out := filepath.Join(work, fmt.Sprintf("b%d.again.json", i))
	defer os.Remove(out)
	status := filepath.Join(work, fmt.Sprintf("b%d.again.status", i))
	defer os.Remove(status)
	r := runProc(600*time.Second, status, "run", "-prop", prop, "-from", fmt.Sprint(from), "-n", fmt.Sprint(n), "-out", out, "-digests", "-reverse", "-procs", "4", "-status", status)
	if r.exit != 0 {
		return nil, nil
	}
	st, err := readStats(out)
	if err != nil {
		return nil, nil
	}
	return st, nil
}

func crossReplay(from uint64, n int, key string) *Replay {
	sd, _ := strconv.ParseUint(key, 10, 64)
	rp := caseReplay(sd)
	if rp == nil {
		return nil
	}
	var before, after []uint64
	for s := from; s < sd; s++ {
		before = append(before, s)
	}
	for s := from + uint64(n) - 1; s > sd; s-- {
		after = append(after, s)
	}
	rp.set("cross_process", true)
	rp.set("run_seeds_before", before)
	rp.set("run_seeds_before2", after)
	rp.Cross, rp.Prefix, rp.Prefix2 = true, before, after
	return rp
}

func caseReplay(sd uint64) *Replay {
	out := filepath.Join(work, fmt.Sprintf("case%d.json", sd))
	r := runProc(60*time.Second, "", "case", "-prop", prop, "-from", fmt.Sprint(sd), "-out", out)
	if r.exit != 0 {
		return nil
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	rp, err := parseReplay(b)
	if err != nil {
		return nil
	}
	return rp
}

// runReplay executes a replay file once in a fresh process and tells what is wrong.
func runReplay(rp *Replay, file string) string {
	out := file + ".result"
	defer os.Remove(out)
	if rp.Cross {
		return runCross(rp)
	}
	r := runProc(180*time.Second, "", "replay", "-file", file, "-out", out)
	if r.killed {
		return "a call does not finish"
	}
	if r.exit != 0 {
		if f := crashText(r.stderr); f != "" {
			return f
		}
		return ""
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return ""
	}
	var res struct{ Violation string }
	if json.Unmarshal(b, &res) != nil {
		return ""
	}
	return res.Violation
}

func runCross(rp *Replay) string {
	texts := func(prefix []uint64, procs string) ([][]string, bool) {
		f := filepath.Join(work, "cross.json")
		c := *rp
		c.raw = map[string]json.RawMessage{}
		for k, v := range rp.raw {
			c.raw[k] = v
		}
		c.set("run_seeds_before", prefix)
		c.write(f)
		out := f + ".result"
		defer os.Remove(out)
		defer os.Remove(f)
		r := runProc(180*time.Second, "", "replay", "-file", f, "-out", out, "-procs", procs)
		if r.exit != 0 {
			return nil, false
		}
		b, err := os.ReadFile(out)
		var res struct{ Texts [][]string }
		if err != nil || json.Unmarshal(b, &res) != nil {
			return nil, false
		}
		return res.Texts, true
	}
	a, ok1 := texts(rp.Prefix, "1")
	b, ok2 := texts(rp.Prefix2, "4")
	if !ok1 || !ok2 {
		return ""
	}
	for i := range a {
		for j := range a[i] {
			if i < len(b) && j < len(b[i]) && a[i][j] != b[i][j] {
				return fmt.Sprintf("the same derivation gives another statement in another process\n  in one process: %s\n  in the other:   %s", a[i][j], b[i][j])
			}
		}
	}
	return ""
}

var frame = regexp.MustCompile(`github\.com/amarin/query\.`)

// crashText recognises a crash of the package in a worker's output.
func crashText(se string) string {
	i := strings.Index(se, "fatal error:")
	if j := strings.Index(se, "panic:"); i < 0 || j >= 0 && j < i {
		if j >= 0 {
			i = j
		}
	}
	if i < 0 || !frame.MatchString(se) {
		return ""
	}
	line := se[i:]
	if k := strings.IndexByte(line, '\n'); k >= 0 {
		line = line[:k]
	}
	return "the process crashes: " + line
}

// confirm reproduces a failure in fresh processes, minimised if possible.
func confirm(h found) (file, text string) {
	_ = os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	name := filepath.Join(verif, "replays", prop+".json")
	tmp := filepath.Join(work, "confirm.json")
	accept := func(rp *Replay) bool {
		rp.write(tmp)
		t1 := runReplay(rp, tmp)
		if t1 == "" {
			return false
		}
		if t2 := runReplay(rp, tmp); t2 == "" || !race && t1 != t2 {
			fmt.Printf("NOTE: a replay did not repeat exactly\n")
			if t2 == "" {
				return false
			}
		}
		text = t1
		rp.set("violation", t1)
		rp.write(name)
		return true
	}
	if h.crash != nil {
		c := h.crash
		fmt.Printf("NOTE: a worker ended with exit code %d at seed %d:\n%s\n", c.exit, c.seed, head(c.stderr, 1500))
		rp := caseReplay(c.seed)
		if rp == nil {
			return "", ""
		}
		rp.set("crash", head(c.stderr, 3000))
		if accept(rp) {
			return name, text
		}
		var before []uint64
		for i := 0; i < c.index; i++ {
			before = append(before, c.from+uint64(i))
		}
		rp.set("run_seeds_before", before)
		if accept(rp) {
			return name, text
		}
		return "", ""
	}
	if h.rp == nil {
		return "", ""
	}
	prefix := h.rp.Prefix
	if !h.rp.Cross {
		delete(h.rp.raw, "run_seeds_before")
		h.rp.Prefix = nil
	}
	h.rp.write(tmp)
	if !h.rp.Cross {
		out := filepath.Join(work, "min.json")
		lim := 20.0
		if race {
			lim = 40
		}
		r := runProc(120*time.Second, "", "min", "-file", tmp, "-out", out, "-wall", fmt.Sprint(lim), fmt.Sprintf("-fresh=%v", h.rp.fresh))
		if r.exit == 0 {
			if b, err := os.ReadFile(out); err == nil {
				if m, err := parseReplay(b); err == nil && accept(m) {
					return name, text
				}
			}
		}
	}
	if accept(h.rp) {
		return name, text
	}
	if !h.rp.Cross && len(prefix) > 0 {
		// the failure depends on what the process did before
		for n := 1; ; n *= 4 {
			if n > len(prefix) {
				n = len(prefix)
			}
			p := prefix[len(prefix)-n:]
			h.rp.set("run_seeds_before", p)
			if accept(h.rp) {
				return name, text
			}
			if n == len(prefix) {
				break
			}
		}
	}
	return "", ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func doReplay(rp *Replay, file string) int {
	abs, err := filepath.Abs(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	tmp := filepath.Join(work, "replay.json")
	rp.write(tmp)
	if t := runReplay(rp, tmp); t != "" {
		fmt.Println(t)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, abs)
		return 1
	}
	fmt.Printf("%s: the replay does not fail on the current tree\n", prop)
	return 0
}
