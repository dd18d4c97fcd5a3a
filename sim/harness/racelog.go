package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/amarin/query/zz_verif/simrt"
)

var (
	raceSeen   int   // reports counted so far
	raceOffset int64 // part of the log read so far
	raceOther  int   // reports that are not about the package
)

// newRace returns the first new race report that is about the package.
func newRace() string {
	n := simrt.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	b, err := os.ReadFile(os.Getenv("VERIF_RACE_LOG") + "." + strconv.Itoa(os.Getpid()))
	if err != nil || int64(len(b)) < raceOffset {
		return "data race (report unreadable)"
	}
	part := string(b[raceOffset:])
	raceOffset = int64(len(b))
	t := raceText(part)
	if t == "" {
		raceOther++
		if d := os.Getenv("VERIF_RACE_OTHER"); d != "" {
			_ = os.WriteFile(d, []byte(part), 0o644)
		}
	}
	return t
}

// raceText returns the first race report that is about the package: one of the two accesses is made by the package, or by
// the standard library on its behalf, and neither by the simulator.
func raceText(se string) string {
	for _, part := range strings.Split(se, "==================") {
		if !strings.Contains(part, "DATA RACE") {
			continue
		}
		pkg, sim, n := false, false, 0
		for _, stack := range strings.Split(part, "\n\n") {
			if strings.HasPrefix(strings.TrimSpace(stack), "Goroutine ") || n == 2 {
				continue
			}
			n++
			for _, l := range strings.Split(stack, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/amarin/query.") {
					pkg = true
					break
				}
				if strings.HasPrefix(l, "github.com/amarin/query/zz_verif/simtouch.") || strings.HasPrefix(l, "github.com/amarin/query/zz_verif/simuser.") {
					break
				}
				if strings.HasPrefix(l, "github.com/amarin/query/zz_verif/simfmt") {
					continue // stands for package fmt
				}
				if strings.HasPrefix(l, "github.com/amarin/query/zz_verif/") || strings.HasPrefix(l, "main.") {
					sim = true
					break
				}
			}
		}
		if pkg && !sim {
			return strings.TrimSpace(part)
		}
	}
	return ""
}
