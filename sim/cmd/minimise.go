//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/npillmayer/uax/verifsim/simrt"
)

// cmdMinimise shrinks the choices of a failing run while the same class of violation
// persists: cut off the tail, delete blocks, set to zero, lower.
func cmdMinimise(in, out string, secs float64) {
	r := readReplay(in)
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	tries := 0
	fails := func(c [3][]uint32) (outcome, bool) {
		tries++
		t := *r
		t.BySeed = false
		t.Workload, t.Faults, t.Schedule = c[0], c[1], c[2]
		o := t.exec(false)
		return o, o.viol != nil && o.viol.Class == r.Class
	}
	cur := [3][]uint32{r.Workload, r.Faults, r.Schedule}
	o, ok := fails(cur)
	if !ok {
		r.Minimised = "no: not reproducible in a new process"
		write(r, out)
		os.Exit(4)
	}
	cur = o.choices
	over := func() bool { return time.Now().After(deadline) }
	try := func(k int, cand []uint32) bool {
		c := cur
		c[k] = cand
		o, ok := fails(c)
		if ok {
			if weight(o.choices) > weight(cur) || (weight(o.choices) == weight(cur) && sum(o.choices) >= sum(cur)) {
				return false
			}
			cur = o.choices
		}
		return ok
	}
	for round := 0; round < 20 && !over(); round++ {
		before, beforeSum := weight(cur), sum(cur)
		for _, k := range []int{2, 1, 0} {
			// everything off
			if len(cur[k]) > 0 {
				try(k, nil)
			}
			// tails
			for n := len(cur[k]) / 2; n > 0 && !over(); n /= 2 {
				for len(cur[k]) > n && try(k, cp(cur[k][:len(cur[k])-n])) && !over() {
				}
			}
			// blocks
			for n := len(cur[k]) / 2; n > 0 && !over(); n /= 2 {
				for i := 0; i+n <= len(cur[k]) && !over(); {
					c := append(cp(cur[k][:i]), cur[k][i+n:]...)
					if !try(k, c) {
						i += n
					}
				}
			}
			// zero blocks
			for n := len(cur[k]) / 2; n > 0 && !over(); n /= 2 {
				for i := 0; i+n <= len(cur[k]) && !over(); i += n {
					nz := false
					for _, x := range cur[k][i : i+n] {
						nz = nz || x != 0
					}
					if nz {
						c := cp(cur[k])
						for j := i; j < i+n; j++ {
							c[j] = 0
						}
						try(k, c)
					}
				}
			}
			// lower
			for i := 0; i < len(cur[k]) && !over(); i++ {
				for i < len(cur[k]) && cur[k][i] > 0 && !over() {
					x := cur[k][i]
					c := cp(cur[k])
					c[i] = x / 2
					if try(k, c) {
						continue
					}
					c = cp(cur[k])
					c[i] = x - 1
					if !try(k, c) {
						break
					}
				}
			}
		}
		if weight(cur) == before && sum(cur) == beforeSum {
			break
		}
	}
	t := *r
	t.BySeed = false
	t.Workload, t.Faults, t.Schedule = cur[0], cur[1], cur[2]
	t.Minimised = fmt.Sprintf("%d→%d choices in %d trials", len(r.Workload)+len(r.Faults)+len(r.Schedule), weight(cur), tries)
	o = t.exec(true)
	if o.viol == nil || o.viol.Class != r.Class {
		r.Minimised = "no: minimised run is not stable"
		write(r, out)
		os.Exit(4)
	}
	t.Message, t.Strategy = o.viol.Msg, o.res.Strategy
	t.Detail = splitLines(o.viol.Detail)
	if o.ctx.sample != "" {
		t.Detail = append(splitLines(o.ctx.sample), t.Detail...)
	}
	t.Fired = firedMap(&o.ctx.faults)
	t.Trace = o.res.Trace
	if len(t.Trace) > 400 {
		t.Trace = t.Trace[len(t.Trace)-400:]
	}
	nameSites(t.Trace)
	write(&t, out)
	os.Exit(0)
}

func cp(a []uint32) []uint32 { return append([]uint32{}, a...) }

func weight(c [3][]uint32) int { return len(c[0]) + len(c[1]) + len(c[2]) }

func sum(c [3][]uint32) (n uint64) {
	for _, x := range c {
		for _, y := range x {
			n += uint64(y)
		}
	}
	return n
}

func write(r *replayFile, out string) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		die("%v", err)
	}
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func loadSites(file string) []siteInfo {
	var s []siteInfo
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &s)
	}
	return s
}

// nameSites adds source positions to a trace.
func nameSites(tr []simrt.TraceEvent) {
	s := loadSites(os.Getenv("SIM_SITES"))
	for i := range tr {
		if k := int(tr[i].Site); k > 0 && k <= len(s) {
			tr[i].At = fmt.Sprintf("%s:%d %s", s[k-1].File, s[k-1].Line, s[k-1].Func)
		}
	}
}
