//go:build go1.21

// Command cmd is the simulator: it runs the scenarios of the properties against the
// instrumented library. It is compiled into the module by means of an overlay.
//
//	check   master: starts workers, collects, minimises, writes evidence
//	worker  executes runs of a property until a deadline
//	one     executes a single run
//	replay  replays a replay file
//	minimise  minimises a replay file
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/npillmayer/uax/verifsim/simrt"
)

var stdout = os.Stdout // os.Stdout is taken away from the code under test

// outcome of a single run.
type outcome struct {
	viol    *simrt.Violation
	res     simrt.Result
	ctx     *Ctx
	id      uint64 // identifies workload, faults and interleaving
	digest  uint64
	choices [3][]uint32
}

func runSeed(base uint64, prop string, idx uint64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return simrt.Mix(simrt.Mix(base) ^ h.Sum64() ^ simrt.Mix(idx*2+1))
}

func hashChoices(h uint64, r []uint32) uint64 {
	for _, x := range r {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return simrt.Mix(h)
}

// execute performs one simulated run.
func execute(p *property, v *variant, g, f, s *simrt.Stream, seed uint64, trace, sample bool) outcome {
	max := p.maxSteps
	if max == 0 {
		max = 60e6
		if strings.HasPrefix(v.name, "large") {
			max = 1e9
		}
	}
	return executeFunc(p, v.run, max, g, f, s, seed, trace, sample)
}

func executeFunc(p *property, run func(*Ctx), max int64, g, f, s *simrt.Stream, seed uint64, trace, sample bool) outcome {
	c := &Ctx{G: g, F: f, sched: s, seed: seed, want: sample, race: simrt.RaceEnabled}
	races := simrt.RaceErrors()
	res := simrt.Run(simrt.Config{Sched: s, MaxSteps: max, Reset: resetAll, Trace: trace}, func() {
		setTracing(c, p.id == "P09")
		run(c)
	})
	o := outcome{viol: res.Viol, res: res, ctx: c}
	if n := simrt.RaceErrors() - races; n > 0 && (o.viol == nil || o.viol.Class != "race") {
		o.viol = &simrt.Violation{Class: "race", Msg: "data race"}
	}
	o.choices = [3][]uint32{g.Recorded(), f.Recorded(), s.Recorded()}
	o.id = hashChoices(hashChoices(res.Hash, o.choices[0]), o.choices[1])
	o.digest = simrt.Mix(c.digest ^ uint64(res.Steps) ^ uint64(res.VTime)<<20 ^ res.Hash)
	return o
}

func executeIdx(p *property, base, idx uint64, sample bool) (outcome, *variant) {
	seed := runSeed(base, p.id, idx)
	v := p.pickVariant(seed, simrt.RaceEnabled)
	g, f, s := simrt.NewStream(simrt.Mix(seed+1)), simrt.NewStream(simrt.Mix(seed+2)), simrt.NewStream(simrt.Mix(seed+3))
	return execute(p, v, g, f, s, seed, false, sample), v
}

// replayFile is a failing run, completely described.
type replayFile struct {
	Property  string             `json:"property"`
	Variant   string             `json:"variant"`
	VerifSeed uint64             `json:"verif_seed"`
	Run       uint64             `json:"run"`
	Race      bool               `json:"race_build"`
	Class     string             `json:"violation_class"`
	Message   string             `json:"violation"`
	Detail    []string           `json:"detail,omitempty"`
	BySeed    bool               `json:"by_seed,omitempty"`
	Stride    uint64             `json:"after_runs_with_stride,omitempty"` // to be replayed after the runs of its worker
	Workload  []uint32           `json:"workload_choices"`
	Faults    []uint32           `json:"fault_choices"`
	Schedule  []uint32           `json:"schedule_choices"`
	Strategy  string             `json:"strategy,omitempty"`
	Minimised string             `json:"minimised,omitempty"`
	Fired     map[string]int64   `json:"faults_fired,omitempty"`
	Trace     []simrt.TraceEvent `json:"trace,omitempty"`
}

func (r *replayFile) streams() (g, f, s *simrt.Stream, seed uint64) {
	seed = runSeed(r.VerifSeed, r.Property, r.Run)
	if r.BySeed {
		return simrt.NewStream(simrt.Mix(seed + 1)), simrt.NewStream(simrt.Mix(seed + 2)), simrt.NewStream(simrt.Mix(seed + 3)), seed
	}
	return simrt.ReplayStream(r.Workload), simrt.ReplayStream(r.Faults), simrt.ReplayStream(r.Schedule), seed
}

func (r *replayFile) exec(trace bool) outcome {
	p := registry[r.Property]
	v := p.variant(r.Variant)
	g, f, s, seed := r.streams()
	return execute(p, v, g, f, s, seed, trace, true)
}

// warmUp lets the memoized class tables be made once, outside of any run. (Making them
// in a run would flood the history of the race detector, which then stays silent.)
func warmUp() {
	resetAll()
	setup()
	resetAll()
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("missing command")
	}
	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("SIM_PROFILE"); f != "" && os.Args[1] == "worker" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // parts of the library print to stdout
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "VERIF_SEED")
	start := fs.Uint64("start", 0, "first run")
	stride := fs.Uint64("stride", 1, "distance of runs")
	count := fs.Uint64("count", 1<<62, "number of runs")
	secs := fs.Float64("secs", 10, "time budget")
	out := fs.String("out", "", "output file")
	in := fs.String("in", "", "input file")
	tier := fs.String("tier", "quick", "tier")
	raceBin := fs.String("racebin", "", "binary built with -race")
	verif := fs.String("verif", "/verif", "directory of the framework")
	sites := fs.String("sites", "", "sites.json")
	workers := fs.Int("workers", 8, "number of workers")
	fs.Parse(os.Args[2:])
	p := registry[*prop]
	if p == nil && *in == "" {
		die("unknown property %q", *prop)
	}
	if os.Args[1] != "check" {
		warmUp()
	}
	switch os.Args[1] {
	case "worker":
		worker(p, *seed, *start, *stride, *count, *secs, *out)
	case "one":
		o, v := executeIdx(p, *seed, *start, true)
		fmt.Fprintf(stdout, "variant %s strategy %s steps %d switches %d id %x digest %x\n%s\n", v.name, o.res.Strategy, o.res.Steps, o.res.Switches, o.id, o.digest, o.ctx.sample)
		if o.viol != nil {
			fmt.Fprintf(stdout, "%s: %s\n%s\n", o.viol.Class, o.viol.Msg, o.viol.Detail)
			os.Exit(1)
		}
	case "replay":
		cmdReplay(*in)
	case "minimise":
		cmdMinimise(*in, *out, *secs)
	case "known":
		cmdKnown(p, *out)
	case "check":
		master(p, *seed, *tier, *secs, *raceBin, *verif, *sites, *workers)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func readReplay(in string) *replayFile {
	b, err := os.ReadFile(in)
	if err != nil {
		die("%v", err)
	}
	r := &replayFile{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%v", err)
	}
	if p := registry[r.Property]; p == nil || p.variant(r.Variant) == nil {
		die("replay file of an unknown property or variant")
	}
	return r
}

// cmdReplay replays a file. Exit code 1: it fails as recorded. 3: it fails otherwise. 0: no failure.
func cmdReplay(in string) {
	r := readReplay(in)
	if r.Race && !simrt.RaceEnabled {
		die("replay file needs the race detector build")
	}
	if r.Stride > 0 {
		p := registry[r.Property]
		for idx, k := r.Run%r.Stride, 0; idx < r.Run; idx, k = idx+r.Stride, k+1 {
			o, v := executeIdx(p, r.VerifSeed, idx, false)
			if k%61 == 7 {
				repeat1(p, v, r.VerifSeed, idx, &o)
			}
		}
	}
	o := r.exec(true)
	for _, e := range o.res.Trace {
		if e.Msg != "" {
			fmt.Fprintf(stdout, "step %-8d %-12s %s\n", e.Step, e.From, e.Msg)
		}
	}
	if o.ctx.sample != "" {
		fmt.Fprintf(stdout, "%s\n", o.ctx.sample)
	}
	fmt.Fprintf(stdout, "property %s, variant %s: %d steps, %d context switches, run id %x\n", r.Property, r.Variant, o.res.Steps, o.res.Switches, o.id)
	if o.viol == nil {
		fmt.Fprintln(stdout, "no violation")
		return
	}
	fmt.Fprintf(stdout, "violation: %s: %s\n%s\n", o.viol.Class, o.viol.Msg, o.viol.Detail)
	if o.viol.Class == r.Class {
		os.Exit(1)
	}
	os.Exit(3)
}

// workerReport is what a worker tells the master.
type workerReport struct {
	Runs      uint64
	Steps     int64
	VTime     int64
	Switches  int64
	Spawned   int64
	Evals     int64
	Nontriv   int64
	Faults    [nFaults]int64
	FaultRuns [nFaults]int64
	Probes    [nProbes]int64
	Variants  map[string]int64
	Strats    map[string]int64
	IDs       []uint64
	Sites     []uint32
	Samples   []string
	Repeats   int64
	Mismatch  string
	Viol      *replayFile
	ExecSecs  float64
}

func mkReplay(p *property, v *variant, base, idx uint64, o *outcome) *replayFile {
	r := &replayFile{Property: p.id, Variant: v.name, VerifSeed: base, Run: idx, Race: simrt.RaceEnabled,
		Class: o.viol.Class, Message: o.viol.Msg, Workload: o.choices[0], Faults: o.choices[1],
		Schedule: o.choices[2], Strategy: o.res.Strategy}
	r.Detail = splitLines(o.viol.Detail)
	r.Fired = firedMap(&o.ctx.faults)
	return r
}

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return l
}

func firedMap(f *[nFaults]int64) map[string]int64 {
	m := map[string]int64{}
	for k, n := range f {
		if n > 0 {
			m[faultNames[k]] = n
		}
	}
	return m
}

// repeat1 executes a run once more, and once from its recorded choices.
func repeat1(p *property, v *variant, base, idx uint64, o *outcome) string {
	o2, _ := executeIdx(p, base, idx, false)
	o3 := execute(p, v, simrt.ReplayStream(o.choices[0]), simrt.ReplayStream(o.choices[1]), simrt.ReplayStream(o.choices[2]), runSeed(base, p.id, idx), false, false)
	if o2.id != o.id || o2.digest != o.digest {
		return fmt.Sprintf("run %d is not repeatable", idx)
	}
	if o3.ctx.digest != o.ctx.digest || o3.viol != nil {
		return fmt.Sprintf("run %d is not replayable from its choices", idx)
	}
	return ""
}

func worker(p *property, base, start, stride, count uint64, secs float64, out string) {
	rep := &workerReport{Variants: map[string]int64{}, Strats: map[string]int64{}}
	prog, err := os.Create(out + ".progress")
	if err != nil {
		die("%v", err)
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(secs * float64(time.Second)))
	ids := map[uint64]struct{}{}
	var buf [24]byte
	for k := uint64(0); k < count; k++ {
		idx := start + k*stride
		for i, x := 23, idx; i >= 0; i-- {
			buf[i] = byte('0' + x%10)
			x /= 10
		}
		prog.WriteAt(buf[:], 0)
		sample := k < 3 || (k&(k-1)) == 0 && k < 1<<12
		o, v := executeIdx(p, base, idx, sample)
		rep.Runs++
		rep.Steps += o.res.Steps
		rep.VTime += o.res.VTime
		rep.Switches += o.res.Switches
		rep.Spawned += int64(o.res.Spawned)
		rep.Evals += o.ctx.evals
		rep.Variants[v.name]++
		rep.Strats[o.res.Strategy]++
		nf := int64(0)
		for i, n := range o.ctx.faults {
			rep.Faults[i] += n
			nf += n
			if n > 0 {
				rep.FaultRuns[i]++
			}
		}
		for i, n := range o.ctx.probes {
			if n > 0 {
				rep.Probes[i]++
			}
		}
		if _, dup := ids[o.id]; !dup && o.ctx.evals > 0 && (nf > 0 || o.res.Switches > 0 || len(o.choices[0]) > 1) {
			ids[o.id] = struct{}{}
			rep.Nontriv++
		}
		if sample && o.ctx.sample != "" {
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d (%s, %s): %s", idx, v.name, o.res.Strategy, o.ctx.sample))
		}
		if o.viol != nil {
			rep.Viol = mkReplay(p, v, base, idx, &o)
			break
		}
		if k%61 == 7 { // determinism: once more, and once from recorded choices
			rep.Repeats++
			if m := repeat1(p, v, base, idx, &o); m != "" {
				rep.Mismatch = m
			}
		}
		if time.Now().After(deadline) {
			break
		}
	}
	rep.ExecSecs = time.Since(t0).Seconds()
	for id := range ids {
		rep.IDs = append(rep.IDs, id)
	}
	sort.Slice(rep.IDs, func(i, j int) bool { return rep.IDs[i] < rep.IDs[j] })
	for i, x := range simrt.Seen {
		if x != 0 {
			rep.Sites = append(rep.Sites, uint32(i))
		}
	}
	b, err := json.Marshal(rep)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(out+".tmp", out); err != nil {
		die("%v", err)
	}
	if simrt.RaceEnabled {
		os.Exit(0) // exit code of the race detector is of no interest
	}
}

// cmdKnown runs the inputs of known findings and prints the ids of those which still fail.
func cmdKnown(p *property, id string) {
	for _, k := range p.known {
		if id != "" && k.id != id {
			continue
		}
		o := executeFunc(p, k.run, 60e6, simrt.ReplayStream(nil), simrt.ReplayStream(nil), simrt.ReplayStream(nil), 0, false, false)
		if o.viol != nil {
			fmt.Fprintf(stdout, "%s %s: %s\n", k.id, o.viol.Class, strings.ReplaceAll(o.viol.Msg, "\n", " "))
		}
	}
}
