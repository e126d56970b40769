package main

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/simrt"
)

// races turns what the race detector wrote during a run into violations.
type raceLog struct {
	errs int
	pos  int64
}

var rlog raceLog

const maxReport = 1 << 20

const (
	byHarness = iota
	byCallers
	byCode
)

func (l *raceLog) collect(r *kit.Run) {
	n := simrt.RaceErrors()
	if n == l.errs {
		return
	}
	l.errs = n
	f, err := os.Open(fmt.Sprintf("%s.%d", os.Getenv("SIMRACELOG"), os.Getpid()))
	if err != nil {
		panic("simworker: no race log: " + err.Error())
	}
	defer f.Close()
	end, _ := f.Seek(0, io.SeekEnd)
	size := end - l.pos
	if size > maxReport {
		size = maxReport
	}
	b := make([]byte, size)
	_, err = f.ReadAt(b, l.pos)
	if err != nil && err != io.EOF {
		panic("simworker: reading the race log: " + err.Error())
	}
	l.pos = end
	seen := map[string]bool{}
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE") {
		if !strings.Contains(rep, "\n====") {
			continue // cut off by the size limit
		}
		fns, text, by := parse(rep)
		if len(fns) == 0 {
			continue
		}
		if by == byHarness {
			if r.E.Aborted {
				// what a run that was cut leaves behind is not the code's
				continue
			}
			r.E.Aborted, r.E.Reason = true, "panic in task harness: race outside of the code: "+rep
			continue
		}
		sig := "race:" + strings.Join(fns, "|")
		if seen[sig] {
			continue
		}
		seen[sig] = true
		r.Fail("C20", sig, "two calls on a shared component access the same memory without synchronisation:\n%s", text)
	}
}

// parse extracts the accesses of one report: for each the innermost function
// of the code under test. by tells who made the accesses: the code, two callers
// using what the code handed to each of them, or nobody we know.
func parse(rep string) (fns []string, text string, by int) {
	var cur []string
	in := false
	var lines []string
	flush := func() {
		if !in {
			return
		}
		name := ""
		for _, f := range cur {
			if code(f) {
				name = f
				by = byCode
				break
			}
			if strings.HasPrefix(f, "zntr.io/solid/zz_verif/race.(*agent).") {
				name = "caller of " + cur[0]
				if by == byHarness {
					by = byCallers
				}
				break
			}
		}
		if name == "" && len(cur) > 0 {
			name = "outside " + cur[0]
		}
		if name == "" {
			name = "unknown"
		}
		fns = append(fns, name)
		in, cur = false, nil
	}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at "), strings.HasPrefix(t, "Write at "), strings.HasPrefix(t, "Previous read at "), strings.HasPrefix(t, "Previous write at "), strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "Previous atomic"):
			flush()
			in = true
			w, _, _ := strings.Cut(t, " at ")
			lines = append(lines, "  "+strings.ToLower(w)+":")
		case strings.HasPrefix(t, "Goroutine "), strings.HasPrefix(t, "===="), t == "":
			flush()
		case in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      "):
			fn := t
			if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			cur = append(cur, fn)
			if !strings.Contains(fn, "/zz_verif/") && len(lines) < 40 {
				lines = append(lines, "    "+fn)
			}
		}
	}
	flush()
	sort.Strings(fns)
	return fns, strings.Join(lines, "\n"), by
}

// code tells whether a function belongs to the code under test.
func code(fn string) bool {
	if strings.Contains(fn, "/zz_verif/") {
		return false
	}
	for _, p := range []string{"zntr.io/solid/", "github.com/dchest/uniuri", "github.com/patrickmn/go-cache", "github.com/gofrs/uuid"} {
		if strings.HasPrefix(fn, p) {
			return true
		}
	}
	return false
}
