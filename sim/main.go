package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	simhook "github.com/PlatONnetwork/tecdsa/simhook"
)

// Scenario is one workload with its oracles. Of several for one property, run i uses i mod total
// weight.
type Scenario struct {
	Name   string
	Weight int
	Run    func(w *World)
}

type Property struct {
	ID       string
	Scens    []Scenario
	Quick    int // runs
	Thorough int
	Rule     string
	Real     string
	Stub     string
	Assume   []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func runSeed(base uint64, i int) uint64 { return splitmix(splitmix(base) + uint64(i)) }

func (p *Property) scen(i int) *Scenario {
	total := 0
	for k := range p.Scens {
		total += p.Scens[k].Weight
	}
	r := i % total
	for k := range p.Scens {
		if r < p.Scens[k].Weight {
			return &p.Scens[k]
		}
		r -= p.Scens[k].Weight
	}
	return nil
}

func (p *Property) byName(name string) *Scenario {
	for k := range p.Scens {
		if p.Scens[k].Name == name {
			return &p.Scens[k]
		}
	}
	return nil
}

// execute performs one run.
func execute(w *World, s *Scenario) (simErr string) {
	hkReset()
	defer func() {
		hkReset()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopRun:
			case simBug:
				simErr = "simulator: " + x.msg + "\n" + string(debug.Stack())
			case hangSignal:
				w.unguarded("the library hangs", "more steps than the bound allows")
			default:
				if at := libraryFrame(string(debug.Stack())); at != "" {
					w.unguarded("the library panics", fmt.Sprintf("%v at %s", r, at))
					return
				}
				simErr = fmt.Sprintf("simulator: panic %v\n%s", r, debug.Stack())
			}
		}
	}()
	s.Run(w)
	return ""
}

// unguarded records a failure of a library call that nothing in the run expects to fail.
func (w *World) unguarded(class, msg string) {
	defer func() { recover() }()
	w.evals++
	w.Fail(w.Prop, class, "%s", msg)
}

// libraryFrame gives the function that panicked when it is one of the library's.
func libraryFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			last = i
		}
	}
	if last < 0 {
		return ""
	}
	for _, l := range lines[last+1:] {
		if strings.HasPrefix(l, "main.") {
			return ""
		}
		if k := strings.Index(l, "github.com/PlatONnetwork/tecdsa/"); k == 0 && !strings.HasPrefix(l, "github.com/PlatONnetwork/tecdsa/simhook") {
			if p := strings.LastIndex(l, "("); p > 0 {
				l = l[:p]
			}
			return l
		}
	}
	return ""
}

// Replay file.
type Replay struct {
	Property string            `json:"property"`
	Class    string            `json:"class"`
	Message  string            `json:"message"`
	Scenario string            `json:"scenario"`
	Seed     string            `json:"seed"`
	Draws    map[string]uint64 `json:"decisions"`
	Prelude  []PreRun          `json:"prelude,omitempty"`
	Hash     string            `json:"event_hash"`
	Note     string            `json:"note"`
	Full     bool              `json:"full_draws,omitempty"` // decisions come from the seed, not from the map
	Trace    []string          `json:"trace,omitempty"`
	Solo     string            `json:"solo,omitempty"`
}

type PreRun struct {
	Scenario string `json:"scenario"`
	Seed     string `json:"seed"`
}

type outcome struct {
	Viol    *Viol             `json:"viol"`
	Err     string            `json:"err"`
	Blocked []string          `json:"blocked"`
	Draws   map[string]uint64 `json:"draws"`
	Hash    string            `json:"hash"`
	Trace   []string          `json:"trace"`
	Solo    string            `json:"solo,omitempty"`
}

// replayInProcess performs a replay file in this process.
func replayInProcess(r *Replay, trace bool) outcome {
	p := properties[r.Property]
	for _, pre := range r.Prelude {
		sd, _ := strconv.ParseUint(pre.Seed, 10, 64)
		execute(NewWorld(r.Property, pre.Scenario, sd, nil, false), p.byName(pre.Scenario))
	}
	sd, _ := strconv.ParseUint(r.Seed, 10, 64)
	w := NewWorld(r.Property, r.Scenario, sd, r.Draws, !r.Full)
	w.verbose = trace
	w.solo = r.Solo
	e := execute(w, p.byName(r.Scenario))
	return outcome{w.viol, e, w.blocked, w.rec, fmt.Sprintf("%x", w.hash[:]), w.trace, w.soloOut}
}

// replayFresh performs a replay in a fresh process.
func replayFresh(r *Replay, trace bool) outcome {
	b, _ := json.Marshal(r)
	args := []string{"one"}
	if trace {
		args = append(args, "-trace")
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return outcome{Err: err.Error()}
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var o outcome
		if err == nil {
			if e := json.Unmarshal(out.Bytes(), &o); e != nil {
				o.Err = "bad answer of the child: " + e.Error()
			}
			return o
		}
		if f := fatalClass(errb.String()); f != "" {
			return outcome{Viol: &Viol{r.Property, "fatal: " + f, "the process died: " + f}, Draws: r.Draws}
		}
		return outcome{Err: "child died: " + err.Error() + "\n" + tail(errb.String(), 2000)}
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		return outcome{Err: "child did not finish within 120 s"}
	}
}

// fatalClass recognises how the Go runtime ends a process whose code cannot go on.
func fatalClass(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.Contains(l, "stack exceeds") {
			return "stack overflow"
		}
		if strings.HasPrefix(l, "fatal error: ") {
			m := strings.TrimPrefix(l, "fatal error: ")
			if strings.Contains(m, "out of memory") || strings.Contains(m, "concurrent map") || strings.Contains(m, "stack overflow") || strings.Contains(m, "unlock of unlocked") || strings.Contains(m, "all goroutines are asleep") {
				return m
			}
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// workerStats is what a worker reports at its end.
type workerStats struct {
	Runs    int            `json:"runs"`
	Evals   int            `json:"evals"`
	Calls   int            `json:"calls"`
	Events  int            `json:"events"`
	SimUs   int64          `json:"sim_us"`
	Faults  map[string]int `json:"faults"`
	Probes  map[string]int `json:"probes"`
	Other   map[string]int `json:"other"`
	Scens   map[string]int `json:"scens"`
	Hashes  []string       `json:"hashes"` // of runs that were non-trivial
	States  []uint64       `json:"states"`
	Cov     []int          `json:"cov"`
	Samples []sample       `json:"samples"`
	Blocked map[string]int `json:"blocked"`
	Steps   int64          `json:"steps"`
	Cut     bool           `json:"cut"`
	AllHash string         `json:"all_hash"`
}

type sample struct {
	Run       int      `json:"run"`
	Seed      string   `json:"seed"`
	Scenario  string   `json:"scenario"`
	Decisions int      `json:"decisions_not_default"`
	Events    []string `json:"events"`
}

func worker(args map[string]string) {
	debug.SetMaxStack(256 << 20)
	p := properties[args["prop"]]
	base, _ := strconv.ParseUint(args["seed"], 10, 64)
	start, _ := strconv.Atoi(args["start"])
	stride, _ := strconv.Atoi(args["stride"])
	count, _ := strconv.Atoi(args["count"])
	limit, _ := strconv.ParseFloat(args["limit"], 64)
	out := bufio.NewWriter(os.Stdout)
	st := workerStats{Faults: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}, Scens: map[string]int{}, Blocked: map[string]int{}}
	t0 := time.Now()
	states := map[uint64]struct{}{}
	dump := args["dump"] != ""
	for i := start; i < count; i += stride {
		if time.Since(t0).Seconds() > limit {
			st.Cut = true
			break
		}
		s := p.scen(i)
		seed := runSeed(base, i)
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		w := NewWorld(p.ID, s.Name, seed, nil, false)
		want := len(st.Samples) < 1 && start < 3 && i/stride == start
		w.verbose = want
		e := execute(w, s)
		if e != "" {
			b, _ := json.Marshal(map[string]interface{}{"run": i, "err": e})
			fmt.Fprintf(out, "E %s\n", b)
			out.Flush()
			os.Exit(0)
		}
		if dump {
			fmt.Fprintf(out, "H %d %x\n", i, w.hash)
		}
		st.Runs++
		st.Evals += w.evals
		st.Calls += w.calls
		st.Events += w.nEv
		st.SimUs += w.now
		st.Scens[s.Name]++
		for k, v := range w.faults {
			st.Faults[k] += v
		}
		for k, v := range w.probes {
			st.Probes[k] += v
		}
		for k, v := range w.other {
			st.Other[k] += v
		}
		for _, b := range w.blocked {
			st.Blocked[b]++
		}
		for k := range w.states {
			if len(states) < 40000 {
				states[k] = struct{}{}
			}
		}
		if w.evals > 0 && len(w.rec) > 0 {
			st.Hashes = append(st.Hashes, fmt.Sprintf("%x", w.hash[:8]))
		}
		if want {
			ev := w.trace
			if len(ev) > 40 {
				ev = append(append([]string{}, ev[:40]...), fmt.Sprintf("... %d more", len(w.trace)-40))
			}
			st.Samples = append(st.Samples, sample{i, fmt.Sprint(seed), s.Name, len(w.rec), ev})
		}
		if w.viol != nil {
			b, _ := json.Marshal(map[string]interface{}{"run": i, "viol": w.viol, "draws": w.rec, "hash": fmt.Sprintf("%x", w.hash[:])})
			fmt.Fprintf(out, "V %s\n", b)
			out.Flush()
			break
		}
	}
	for k := range states {
		st.States = append(st.States, k)
	}
	for i, c := range simhook.Cov {
		if c != 0 {
			st.Cov = append(st.Cov, i)
		}
	}
	st.Steps = simhook.N
	b, _ := json.Marshal(st)
	fmt.Fprintf(out, "R %s\n", b)
	out.Flush()
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim check|worker|one|replay|list ...")
	}
	coldStart()
	args := map[string]string{}
	var rest []string
	for i := 2; i < len(os.Args); i++ {
		if strings.HasPrefix(os.Args[i], "-") {
			k := strings.TrimLeft(os.Args[i], "-")
			if k == "trace" || k == "dump" {
				args[k] = "1"
			} else if i+1 < len(os.Args) {
				args[k] = os.Args[i+1]
				i++
			}
		} else {
			rest = append(rest, os.Args[i])
		}
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			p := properties[id]
			fmt.Println(id, p.Quick, p.Thorough, len(p.Scens))
		}
	case "worker":
		worker(args)
	case "one":
		debug.SetMaxStack(256 << 20)
		var r Replay
		if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
			die("%v", err)
		}
		json.NewEncoder(os.Stdout).Encode(replayInProcess(&r, args["trace"] != ""))
	case "replay":
		replayCmd(rest[0])
	case "run": // one run with its trace, for people
		p := properties[args["prop"]]
		base, _ := strconv.ParseUint(args["seed"], 10, 64)
		i, _ := strconv.Atoi(args["run"])
		s := p.scen(i)
		w := NewWorld(p.ID, s.Name, runSeed(base, i), nil, false)
		w.verbose = true
		e := execute(w, s)
		for _, l := range w.trace {
			fmt.Println(l)
		}
		fmt.Println("scenario", s.Name, "viol", w.viol, "blocked", w.blocked, "err", e, "other", w.other, "faults", w.faults, "probes", w.probes)
	case "check":
		check(args)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func replayCmd(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	if properties[r.Property] == nil || properties[r.Property].byName(r.Scenario) == nil {
		die("unknown property or scenario in %s", path)
	}
	o := replayFresh(&r, true)
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	if o.Err != "" {
		die("%s", o.Err)
	}
	if o.Viol != nil && o.Viol.Class == r.Class {
		fmt.Printf("reproduced: %s: %s\n", o.Viol.Class, o.Viol.Msg)
		if o.Hash != r.Hash && r.Hash != "" {
			fmt.Println("note: the event log differs from the recorded one (the code under test differs)")
		} else {
			fmt.Println("the event log is identical to the recorded one")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		os.Exit(1)
	}
	fmt.Println("not reproduced on this tree")
}

type finding struct{ prop, class string }

func knownFindings(dir string) []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=P01 class="..." text
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f finding
		if i := strings.Index(l, "property="); i >= 0 {
			f.prop = strings.Fields(l[i+9:])[0]
		}
		if i := strings.Index(l, `class="`); i >= 0 {
			f.class = strings.SplitN(l[i+7:], `"`, 2)[0]
		}
		out = append(out, f)
	}
	return out
}

func check(args map[string]string) {
	p := properties[args["prop"]]
	if p == nil {
		die("unknown property %q", args["prop"])
	}
	tier := args["tier"]
	dir := args["dir"]
	base, err := strconv.ParseUint(args["seed"], 10, 64)
	if err != nil {
		die("seed: %v", err)
	}
	count := p.Quick
	limit := 150.0
	if tier == "thorough" {
		count = p.Thorough
		limit = 3000
	}
	if s := args["runs"]; s != "" {
		count, _ = strconv.Atoi(s)
	}
	if s := args["limit"]; s != "" {
		limit, _ = strconv.ParseFloat(s, 64)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := args["workers"]; s != "" {
		nw, _ = strconv.Atoi(s)
	}
	t0 := time.Now()
	fmt.Printf("%s %s: VERIF_SEED=%d, %d runs on %d workers\n", p.ID, tier, base, count, nw)

	type found struct {
		run   int
		viol  *Viol
		draws map[string]uint64
		hash  string
		w     int
	}
	var mu sync.Mutex
	var finds []found
	var errs []string
	var all []workerStats
	known := knownFindings(dir)
	dumpf := map[int]string{}
	var procs []*exec.Cmd
	stop := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		k := k
		wa := []string{"worker", "-prop", p.ID, "-seed", fmt.Sprint(base), "-start", fmt.Sprint(k), "-stride", fmt.Sprint(nw), "-count", fmt.Sprint(count), "-limit", fmt.Sprint(limit)}
		if args["dump"] != "" {
			wa = append(wa, "-dump")
		}
		cmd := exec.Command(os.Args[0], wa...)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		procs = append(procs, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewReaderSize(pipe, 1<<20)
			last, ended := -1, false
			lastT := time.Now()
			var lt sync.Mutex
			quit := make(chan bool)
			go func() { // a run that blocks for real is trouble of the check, not a finding
				for {
					select {
					case <-quit:
						return
					case <-time.After(2 * time.Second):
						lt.Lock()
						late := time.Since(lastT) > 200*time.Second
						lt.Unlock()
						if late {
							cmd.Process.Kill()
							return
						}
					}
				}
			}()
			for {
				l, err := sc.ReadString('\n')
				if err != nil {
					break
				}
				lt.Lock()
				lastT = time.Now()
				lt.Unlock()
				l = strings.TrimSuffix(l, "\n")
				if len(l) < 2 {
					continue
				}
				switch l[0] {
				case 'S':
					last, _ = strconv.Atoi(l[2:])
				case 'H':
					mu.Lock()
					f := strings.Fields(l)
					i, _ := strconv.Atoi(f[1])
					dumpf[i] = f[2]
					mu.Unlock()
				case 'V':
					var v struct {
						Run   int               `json:"run"`
						Viol  *Viol             `json:"viol"`
						Draws map[string]uint64 `json:"draws"`
						Hash  string            `json:"hash"`
					}
					json.Unmarshal([]byte(l[2:]), &v)
					mu.Lock()
					finds = append(finds, found{v.Run, v.Viol, v.Draws, v.Hash, k})
					if !stop {
						stop = true
						for j, c := range procs {
							if j != k && c.Process != nil {
								c.Process.Kill()
							}
						}
					}
					mu.Unlock()
				case 'E':
					var v struct {
						Run int    `json:"run"`
						Err string `json:"err"`
					}
					json.Unmarshal([]byte(l[2:]), &v)
					mu.Lock()
					errs = append(errs, fmt.Sprintf("run %d: %s", v.Run, v.Err))
					mu.Unlock()
					ended = true
				case 'R':
					var s workerStats
					if json.Unmarshal([]byte(l[2:]), &s) == nil {
						mu.Lock()
						all = append(all, s)
						mu.Unlock()
						ended = true
					}
				}
			}
			close(quit)
			cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !ended && !stop {
				if f := fatalClass(errb.String()); f != "" && last >= 0 {
					finds = append(finds, found{last, &Viol{p.ID, "fatal: " + f, "the process died: " + f}, nil, "", k})
				} else {
					errs = append(errs, fmt.Sprintf("worker %d died in run %d: %s", k, last, tail(errb.String(), 3000)))
				}
			}
		}()
	}
	wg.Wait()
	runWall := time.Since(t0).Seconds()
	if args["dump"] != "" {
		var ks []int
		for k := range dumpf {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			fmt.Println("H", k, dumpf[k])
		}
	}

	// a violation: confirm, minimise, confirm the minimised one
	violations := 0
	var blockedTotal map[string]int
	if len(finds) > 0 {
		sort.Slice(finds, func(i, j int) bool { return finds[i].run < finds[j].run })
		f := finds[0]
		isKnown := false
		for _, kf := range known {
			if kf.prop == p.ID && kf.class == f.viol.Class {
				isKnown = true
			}
		}
		if isKnown {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.viol.Msg)
		} else {
			violations = 1
			s := p.scen(f.run)
			r := &Replay{Property: p.ID, Class: f.viol.Class, Message: f.viol.Msg, Scenario: s.Name, Seed: fmt.Sprint(runSeed(base, f.run)), Draws: f.draws, Full: f.draws == nil}
			r = minimise(p, r, f.run, f.w, nw, base)
			if r == nil {
				die("violation %q of run %d did not reproduce in a fresh process: %s", f.viol.Class, f.run, f.viol.Msg)
			}
			os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
			path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID, base, f.run))
			b, _ := json.MarshalIndent(r, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				die("%v", err)
			}
			fmt.Printf("run %d, scenario %s: %s\n", f.run, s.Name, r.Message)
			fmt.Printf("decisions that differ from the simplest run: %d; first lines of the trace:\n", len(r.Draws))
			for i, l := range r.Trace {
				if i >= 60 {
					fmt.Printf("  ... %d more in the replay file\n", len(r.Trace)-i)
					break
				}
				fmt.Println("  " + l)
			}
			writeEvidence(p, tier, base, dir, all, t0, runWall, violations, nw)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			os.Exit(1)
		}
	}
	if len(errs) > 0 {
		die("%s", strings.Join(errs, "\n"))
	}
	blockedTotal = map[string]int{}
	runs := 0
	for _, s := range all {
		runs += s.Runs
		for k, v := range s.Blocked {
			blockedTotal[k] += v
		}
	}
	writeEvidence(p, tier, base, dir, all, t0, runWall, violations, nw)
	if len(blockedTotal) > 0 {
		die("the honest preparation of runs failed, so the property was not decided: %v", blockedTotal)
	}
	if runs == 0 {
		die("no runs")
	}
	fmt.Printf("%s: held in %d runs, %.1f s\n", p.ID, runs, time.Since(t0).Seconds())
}

// minimise shrinks the decisions while the same class of violation appears in a fresh process.
func minimise(p *Property, r *Replay, run, wk, nw int, base uint64) *Replay {
	same := func(c *Replay) (outcome, bool) {
		o := replayFresh(c, false)
		return o, o.Viol != nil && o.Viol.Class == r.Class
	}
	deadline := time.Now().Add(75 * time.Second)
	o, ok := same(r)
	if !ok {
		// state left behind by earlier runs of the process: find how many are needed
		if o.Err != "" {
			fmt.Fprintln(os.Stderr, "fresh replay:", o.Err)
		}
		var pre []PreRun
		for i := wk; i < run; i += nw {
			pre = append(pre, PreRun{p.scen(i).Name, fmt.Sprint(runSeed(base, i))})
		}
		for k := 1; ; k *= 2 {
			if k > len(pre) {
				k = len(pre)
			}
			c := *r
			c.Prelude = pre[len(pre)-k:]
			c.Full = true
			if o2, ok2 := same(&c); ok2 {
				r, o, ok = &c, o2, true
				break
			}
			if k >= len(pre) {
				return nil
			}
		}
		_ = ok
		return finish(r)
	}
	if r.Full {
		if o.Draws == nil { // the process died: decisions are not known
			return finish(r)
		}
		r.Draws, r.Full = o.Draws, false
	}
	cur := r
	try := func(sets []map[string]uint64) int { // parallel; index of the first that still fails
		type res struct {
			i  int
			ok bool
			o  outcome
		}
		ch := make(chan res, len(sets))
		sem := make(chan bool, 8)
		for i, m := range sets {
			i, m := i, m
			go func() {
				sem <- true
				c := *cur
				c.Draws = m
				o, ok := same(&c)
				<-sem
				ch <- res{i, ok, o}
			}()
		}
		best := -1
		bo := map[int]outcome{}
		for range sets {
			x := <-ch
			if x.ok && (best < 0 || x.i < best) {
				best = x.i
			}
			bo[x.i] = x.o
		}
		if best >= 0 {
			c := *cur
			c.Draws = bo[best].Draws
			if c.Draws == nil {
				c.Draws = sets[best]
			}
			c.Message = bo[best].Viol.Msg
			cur = &c
		}
		return best
	}
	keysOf := func(m map[string]uint64) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	try([]map[string]uint64{{}})
	for n := 2; time.Now().Before(deadline); {
		ks := keysOf(cur.Draws)
		if len(ks) == 0 {
			break
		}
		if n > len(ks) {
			n = len(ks)
		}
		var sets []map[string]uint64
		for i := 0; i < n; i++ {
			lo, hi := i*len(ks)/n, (i+1)*len(ks)/n
			m := map[string]uint64{}
			for j, k := range ks {
				if j < lo || j >= hi {
					m[k] = cur.Draws[k]
				}
			}
			sets = append(sets, m)
		}
		if len(sets) > 16 && n < len(ks) {
			// bounded width keeps the time in hand
			_ = sets
		}
		if try(sets) >= 0 {
			if n > 2 {
				n--
			}
			continue
		}
		if n >= len(ks) {
			break
		}
		n *= 2
	}
	// smaller values
	for _, k := range keysOf(cur.Draws) {
		if time.Now().After(deadline) {
			break
		}
		for v := cur.Draws[k]; v > 1; {
			m := map[string]uint64{}
			for k2, v2 := range cur.Draws {
				m[k2] = v2
			}
			m[k] = v / 2
			if try([]map[string]uint64{m}) < 0 {
				break
			}
			if cur.Draws[k] >= v {
				break
			}
			v = cur.Draws[k]
		}
	}
	return finish(cur)
}

func finish(r *Replay) *Replay {
	c := *r
	o := replayFresh(&c, true)
	if o.Viol == nil || o.Viol.Class != r.Class {
		return nil
	}
	c.Hash = o.Hash
	c.Trace = o.Trace
	if o.Viol.Msg != "" {
		c.Message = o.Viol.Msg
	}
	c.Note = "replay with: /verif/check replay FILE. Decisions not listed are 0 (the simplest choice); bytes come from the seed."
	return &c
}

func writeEvidence(p *Property, tier string, base uint64, dir string, all []workerStats, t0 time.Time, runWall float64, violations, nw int) {
	tot := workerStats{Faults: map[string]int{}, Probes: map[string]int{}, Other: map[string]int{}, Scens: map[string]int{}}
	hashes := map[string]bool{}
	states := map[uint64]bool{}
	cov := map[int]bool{}
	cut := false
	for _, s := range all {
		tot.Runs += s.Runs
		tot.Evals += s.Evals
		tot.Calls += s.Calls
		tot.Events += s.Events
		tot.SimUs += s.SimUs
		tot.Steps += s.Steps
		cut = cut || s.Cut
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Probes {
			tot.Probes[k] += v
		}
		for k, v := range s.Other {
			tot.Other[k] += v
		}
		for k, v := range s.Scens {
			tot.Scens[k] += v
		}
		for _, h := range s.Hashes {
			hashes[h] = true
		}
		for _, h := range s.States {
			states[h] = true
		}
		for _, c := range s.Cov {
			cov[c] = true
		}
		tot.Samples = append(tot.Samples, s.Samples...)
	}
	perFile := map[string][2]int{}
	for i, s := range simhook.Sites {
		f := strings.SplitN(s, ":", 2)[0]
		x := perFile[f]
		x[1]++
		if cov[i] {
			x[0]++
		}
		perFile[f] = x
	}
	covOut := map[string]string{}
	for f, x := range perFile {
		if x[0] > 0 {
			covOut[f] = fmt.Sprintf("%d of %d statements", x[0], x[1])
		}
	}
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	if tot.Samples == nil {
		tot.Samples = []sample{}
	}
	perHour := 0.0
	if runWall > 0 {
		perHour = float64(tot.Runs) / runWall * 3600
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     base,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":                      tot.Runs,
			"distinct_nontrivial":              len(hashes),
			"rule":                             "A case is one simulated run: one seed, one execution. It is non-trivial when at least one decision (fault, Byzantine action, size, order, interleaving) differed from the simplest run and at least one oracle was evaluated; two are distinct when their event logs differ. " + p.Rule,
			"samples":                          tot.Samples,
			"simulated_runs_and_seeds_per_h":   int(perHour),
			"oracle_evaluations":               tot.Evals,
			"library_calls":                    tot.Calls,
			"events":                           tot.Events,
			"simulated_time_s":                 float64(tot.SimUs) / 1e6,
			"faults_injected":                  tot.Faults,
			"rare_conditions_reached":          tot.Probes,
			"runs_per_scenario":                tot.Scens,
			"distinct_abstract_states":         len(states),
			"statements_executed":              tot.Steps,
			"statement_coverage":               covOut,
			"real_code":                        "all of /repo's packages except testutils, and their dependencies (kryptology field and point arithmetic, cbor, btree, chacha20). " + p.Real,
			"stubs":                            "network, clock, disk, crashes, scheduler, the ledger that agrees on sets of dealings, Byzantine nodes. " + p.Stub,
			"workers":                          nw,
			"stopped_by_time_limit":            cut,
			"observations_of_other_properties": tot.Other,
		},
		"assumptions": append([]string{"secp256k1 discrete logarithms and the hash functions are hard; a sampled search, not a proof"}, p.Assume...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), b, 0o644); err != nil {
		die("evidence: %v", err)
	}
}
