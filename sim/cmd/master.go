//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type proc struct {
	cmd    *exec.Cmd
	out    string
	race   bool
	done   chan error
	err    error
	exited bool
	stderr bytes.Buffer
	last   string
	lastT  time.Time
}

func env(tmp string, sites string) []string {
	e := []string{}
	for _, x := range os.Environ() {
		if !strings.HasPrefix(x, "GO") {
			e = append(e, x)
		}
	}
	return append(e, "GOMAXPROCS=1", "GOMEMLIMIT=2GiB", "SIM_SITES="+sites,
		"GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=7 log_path="+filepath.Join(tmp, "race"))
}

func run(tmp, sites, bin string, limit time.Duration, args ...string) (int, string, string) {
	cmd := exec.Command(bin, args...)
	cmd.Env = env(tmp, sites)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	return cmd.ProcessState.ExitCode(), so.String(), se.String()
}

func master(p *property, seed uint64, tier string, secs float64, raceBin, verif, sites string, workers int) {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	tmp, err := os.MkdirTemp("", "uaxsim")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	fatal := func(format string, args ...interface{}) {
		os.RemoveAll(tmp)
		die(format, args...)
	}
	outDir := filepath.Join(verif, "out")
	os.MkdirAll(outDir, 0o755)
	// known findings
	listed := readFindings(filepath.Join(verif, "known_findings.txt"), p.id)
	var broken []string
	if len(p.known) > 0 {
		for _, k := range p.known {
			code, so, se := run(tmp, sites, self, 100*time.Second, "known", "-prop", p.id, "-out", k.id)
			if code != 0 && code != 2 {
				so = k.id + " crash: " + firstLine(se)
			} else if code == 2 {
				fatal("known findings: %s", se)
			}
			if so = strings.TrimSpace(so); so != "" {
				if what, ok := listed[k.id]; ok {
					fmt.Fprintf(stdout, "KNOWN-FINDING: property=%s %s\n", p.id, what)
				} else {
					broken = append(broken, so)
				}
			}
		}
	}
	var procs []*proc
	nrace := 0
	if p.hasRace() && raceBin != "" {
		nrace = workers / 2
	}
	for w := 0; w < workers; w++ {
		pr := &proc{out: filepath.Join(tmp, fmt.Sprintf("w%d.json", w)), done: make(chan error, 1), lastT: time.Now()}
		bin := self
		if w < nrace {
			bin, pr.race = raceBin, true
		}
		pr.cmd = exec.Command(bin, "worker", "-prop", p.id, "-seed", fmt.Sprint(seed), "-start", fmt.Sprint(w),
			"-stride", fmt.Sprint(workers), "-secs", fmt.Sprint(secs), "-out", pr.out)
		pr.cmd.Env = env(tmp, sites)
		pr.cmd.Stderr = &pr.stderr
		if err := pr.cmd.Start(); err != nil {
			fatal("%v", err)
		}
		go func() { pr.done <- pr.cmd.Wait() }()
		procs = append(procs, pr)
	}
	killAll := func() {
		for _, pr := range procs {
			if !pr.exited {
				pr.cmd.Process.Kill()
			}
		}
	}
	var viol *replayFile
	var crash *proc
	running := len(procs)
	var grace time.Time
	for running > 0 {
		time.Sleep(50 * time.Millisecond)
		for _, pr := range procs {
			if pr.exited {
				continue
			}
			select {
			case pr.err = <-pr.done:
				pr.exited = true
				running--
				if rep := pr.report(); rep == nil {
					if grace.IsZero() && crash == nil {
						crash = pr
					}
				} else if rep.Viol != nil && (viol == nil || simpler(rep.Viol, viol)) {
					viol = rep.Viol
				}
				if (viol != nil || crash != nil) && grace.IsZero() {
					grace = time.Now().Add(1500 * time.Millisecond)
				}
			default:
				b, _ := os.ReadFile(pr.out + ".progress")
				if string(b) != pr.last {
					pr.last, pr.lastT = string(b), time.Now()
				} else if time.Since(pr.lastT) > 120*time.Second {
					killAll()
					fatal("run %s of a worker makes no progress (outside of the simulation)", pr.last)
				}
			}
		}
		if !grace.IsZero() && time.Now().After(grace) && running > 0 {
			for _, pr := range procs {
				if !pr.exited {
					pr.cmd.Process.Kill()
					<-pr.done
					pr.exited = true
					running--
				}
			}
		}
	}
	tot := merge(procs)
	exit := 0
	var replayPath string
	if viol == nil && crash != nil {
		// does the process die again from the same run?
		idx := strings.TrimLeft(crash.progress(), "0")
		if idx == "" {
			idx = "0"
		}
		bin := self
		if crash.race {
			bin = raceBin
		}
		_, _, se := run(tmp, sites, bin, 120*time.Second, "one", "-prop", p.id, "-seed", fmt.Sprint(seed), "-start", idx)
		if !strings.Contains(se, "fatal error") && !strings.Contains(se, "panic:") && !strings.Contains(se, "SIGSEGV") {
			fatal("a worker died at run %s, which is not reproducible: %v\n%s", idx, crash.err, tail(crash.stderr.String()))
		}
		var n uint64
		fmt.Sscan(idx, &n)
		v := p.pickVariant(runSeed(seed, p.id, n), crash.race)
		viol = &replayFile{Property: p.id, Variant: v.name, VerifSeed: seed, Run: n, Race: crash.race, Class: "crash",
			Message: firstLine(se), Detail: splitLines(se), BySeed: true}
		replayPath = filepath.Join(outDir, fmt.Sprintf("%s-%d-%d.json", p.id, seed, n))
		write(viol, replayPath)
	} else if viol != nil {
		replayPath = filepath.Join(outDir, fmt.Sprintf("%s-%d-%d.json", p.id, seed, viol.Run))
		raw := filepath.Join(tmp, "viol.json")
		write(viol, raw)
		bin := self
		if viol.Race {
			bin = raceBin
		}
		msecs := 20.0
		if tier == "thorough" {
			msecs = 60
		}
		code, _, se := run(tmp, sites, bin, 150*time.Second, "minimise", "-in", raw, "-out", replayPath, "-secs", fmt.Sprint(msecs))
		if code != 0 {
			fmt.Fprintf(os.Stderr, "minimisation failed (%d): %s\n", code, firstLine(se))
			write(viol, replayPath)
		}
		ok := false
		for k := 0; k < 5 && !ok; k++ {
			code, _, _ = run(tmp, sites, bin, time.Duration(60+2*secs)*time.Second, "replay", "-in", replayPath)
			ok = code == 1
			if !ok && k == 0 {
				write(viol, replayPath) // as it was found
			} else if !ok && k == 1 { // depends on earlier runs of the process?
				viol.Stride = uint64(workers)
				write(viol, replayPath)
			}
		}
		if !ok {
			fatal("violation %s: %s of run %d is not reproducible (see %s)", viol.Class, viol.Message, viol.Run, replayPath)
		}
		if races, _ := filepath.Glob(filepath.Join(tmp, "race.*")); viol.Class == "race" && len(races) > 0 {
			r := readReplay(replayPath)
			if b, err := os.ReadFile(races[len(races)-1]); err == nil {
				r.Detail = splitLines(string(b))
				write(r, replayPath)
			}
		}
		viol = readReplay(replayPath)
	}
	if viol == nil && len(broken) > 0 {
		replayPath = filepath.Join(outDir, p.id+"-known.txt")
		os.WriteFile(replayPath, []byte(strings.Join(broken, "\n")+"\n"), 0o644)
		fmt.Fprintf(stdout, "%s\n", strings.Join(broken, "\n"))
		exit = 1
	}
	if viol != nil {
		exit = 1
	}
	if exit == 0 {
		if tot.Mismatch != "" {
			fatal("%s", tot.Mismatch)
		}
		// the same runs in a new process must be the same runs
		for _, pr := range procs {
			if m := pr.crossCheck(p, seed, tmp, sites, self, raceBin); m != "" {
				fatal("%s", m)
			}
			if tier == "quick" {
				break
			}
		}
	}
	writeEvidence(p, tot, seed, tier, verif, sites, time.Since(t0).Seconds(), exit, workers, nrace)
	fmt.Fprintf(stdout, "%s: %d runs, %d distinct, %.1f virtual s, %d steps, %d context switches, %d oracle evaluations, faults %v\n",
		p.id, tot.Runs, len(tot.IDs), float64(tot.VTime)/1e6, tot.Steps, tot.Switches, tot.Evals, firedMap(&tot.Faults))
	if exit == 1 {
		if viol != nil {
			fmt.Fprintf(stdout, "%s: %s (variant %s, run %d, minimised %s)\n", viol.Class, viol.Message, viol.Variant, viol.Run, viol.Minimised)
		}
		fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", p.id, replayPath)
	}
	os.RemoveAll(tmp)
	os.Exit(exit)
}

func simpler(a, b *replayFile) bool {
	if (a.Class == "race") != (b.Class == "race") {
		return b.Class == "race"
	}
	return len(a.Workload)+len(a.Faults)+len(a.Schedule) < len(b.Workload)+len(b.Faults)+len(b.Schedule)
}

func (pr *proc) report() *workerReport {
	b, err := os.ReadFile(pr.out)
	if err != nil {
		return nil
	}
	rep := &workerReport{}
	if json.Unmarshal(b, rep) != nil {
		return nil
	}
	return rep
}

func (pr *proc) progress() string {
	b, _ := os.ReadFile(pr.out + ".progress")
	return string(b)
}

// crossCheck re-executes the first runs of a worker in a new process.
func (pr *proc) crossCheck(p *property, seed uint64, tmp, sites, self, raceBin string) string {
	rep := pr.report()
	if rep == nil {
		return ""
	}
	bin := self
	if pr.race {
		bin = raceBin
	}
	n := rep.Runs
	if n > 40 {
		n = 40
	}
	args := pr.cmd.Args[1:]
	sub := func(out string) *workerReport {
		a := append([]string{}, args...)
		a = append(a, "-count", fmt.Sprint(n), "-out", out, "-secs", "60")
		code, _, se := run(tmp, sites, bin, 120*time.Second, a...)
		if code != 0 {
			fmt.Fprintln(os.Stderr, se)
			return nil
		}
		x := &proc{out: out}
		return x.report()
	}
	a := sub(filepath.Join(tmp, "cross1.json"))
	if a == nil {
		return "re-execution in a new process failed"
	}
	known := map[uint64]bool{}
	for _, id := range rep.IDs {
		known[id] = true
	}
	for _, id := range a.IDs {
		if !known[id] {
			return "runs differ between processes"
		}
	}
	if a.Viol != nil {
		return "a run failed in a new process only"
	}
	return ""
}

func merge(procs []*proc) *workerReport {
	t := &workerReport{Variants: map[string]int64{}, Strats: map[string]int64{}}
	ids := map[uint64]bool{}
	sites := map[uint32]bool{}
	for _, pr := range procs {
		rep := pr.report()
		if rep == nil {
			continue
		}
		t.Runs += rep.Runs
		t.Steps += rep.Steps
		t.VTime += rep.VTime
		t.Switches += rep.Switches
		t.Spawned += rep.Spawned
		t.Evals += rep.Evals
		t.Repeats += rep.Repeats
		t.ExecSecs += rep.ExecSecs
		for i, n := range rep.Faults {
			t.Faults[i] += n
			t.FaultRuns[i] += rep.FaultRuns[i]
		}
		for i, n := range rep.Probes {
			t.Probes[i] += n
		}
		for k, n := range rep.Variants {
			t.Variants[k] += n
		}
		for k, n := range rep.Strats {
			t.Strats[k] += n
		}
		for _, id := range rep.IDs {
			ids[id] = true
		}
		for _, s := range rep.Sites {
			sites[s] = true
		}
		if len(t.Samples) < 12 {
			t.Samples = append(t.Samples, rep.Samples...)
			if len(t.Samples) > 12 {
				t.Samples = t.Samples[:12]
			}
		}
		if rep.Mismatch != "" {
			t.Mismatch = rep.Mismatch
		}
	}
	for id := range ids {
		t.IDs = append(t.IDs, id)
	}
	for s := range sites {
		t.Sites = append(t.Sites, s)
	}
	return t
}

func writeEvidence(p *property, t *workerReport, seed uint64, tier, verif, sitesFile string, wall float64, exit, workers, nrace int) {
	faults := map[string]interface{}{}
	for k := range faultNames {
		if t.Faults[k] > 0 {
			faults[faultNames[k]] = map[string]int64{"fired": t.Faults[k], "runs": t.FaultRuns[k]}
		}
	}
	probes := map[string]int64{}
	for i, n := range p.probes {
		probes[n] = t.Probes[i]
	}
	all := loadSites(sitesFile)
	if f := os.Getenv("SIM_REACHED"); f != "" { // list of statements reached, for improving the workloads
		out, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		for _, id := range t.Sites {
			fmt.Fprintln(out, id)
		}
		out.Close()
	}
	type ratio struct{ Reached, Total int }
	perFile := map[string]*ratio{}
	for _, s := range all {
		if perFile[s.File] == nil {
			perFile[s.File] = &ratio{}
		}
		perFile[s.File].Total++
	}
	for _, s := range t.Sites {
		if s > 0 && int(s) <= len(all) {
			perFile[all[s-1].File].Reached++
		}
	}
	reached := map[string]string{}
	for f, r := range perFile {
		if r.Reached > 0 {
			reached[f] = fmt.Sprintf("%d/%d", r.Reached, r.Total)
		}
	}
	perHour := func(n float64) int64 {
		if wall <= 0 {
			return 0
		}
		return int64(n / wall * 3600)
	}
	avg := func(a int64) float64 {
		if t.Runs == 0 {
			return 0
		}
		return float64(a*10/int64(t.Runs)) / 10
	}
	cov := map[string]interface{}{
		"evaluations":                     t.Runs,
		"distinct_nontrivial":             len(t.IDs),
		"rule":                            p.rule + " A run counts as distinct by the hash of its workload choices, fault choices and sequence of context switches (who was preempted where), and as non-trivial if its oracle was evaluated and it had more than one workload choice, or a fault fired, or goroutines were switched.",
		"samples":                         t.Samples,
		"simulated_runs":                  t.Runs,
		"runs_per_hour":                   perHour(float64(t.Runs)),
		"seeds_per_hour":                  perHour(float64(t.Runs)),
		"oracle_evaluations":              t.Evals,
		"simulated_time_s":                float64(t.VTime) / 1e6,
		"simulated_steps":                 t.Steps,
		"context_switches":                t.Switches,
		"context_switches_per_run":        avg(t.Switches),
		"simulated_goroutines":            t.Spawned,
		"faults":                          faults,
		"runs_by_variant":                 t.Variants,
		"runs_by_scheduling_strategy":     t.Strats,
		"probes_runs":                     probes,
		"preemption_points_reached":       reached,
		"runs_repeated_for_determinism":   t.Repeats,
		"workers":                         workers,
		"workers_with_race_detector":      nrace,
		"worker_seconds":                  t.ExecSecs,
		"components_real":                 p.real,
		"components_stubbed_or_simulated": p.stubs,
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.assume, "wall_s": wall, "violations": exit,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.id+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

// readFindings reads the listed findings of a property: lines
// "known: property=<id> finding=<name> <what fails>".
func readFindings(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "finding=") {
			m[strings.TrimPrefix(f[2], "finding=")] = strings.TrimPrefix(f[2], "finding=") + ": " + f[3]
		}
	}
	return m
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[len(s)-4000:]
	}
	return s
}

var _ = sort.Ints
