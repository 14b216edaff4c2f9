package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

func main() {
	var (
		propID  = flag.String("prop", "", "property")
		mode    = flag.String("mode", "work", "work, replay, det or show")
		seed    = flag.Uint64("seed", 1, "base seed")
		worker  = flag.Int("worker", 0, "number of this worker")
		workers = flag.Int("workers", 1, "how many workers there are")
		secs    = flag.Float64("seconds", 10, "how long to search")
		maxRuns = flag.Int("max", 1<<30, "at most this many runs")
		from    = flag.Int("from", 0, "first run")
		file    = flag.String("file", "", "replay file")
		outF    = flag.String("out", "", "where the report goes")
		prof    = flag.String("cpuprofile", "", "write a profile")
		shr     = flag.Float64("shrink", 25, "seconds to spend on making a failure smaller")
	)
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	if simrt.RaceBuild {
		// see collect
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2500 << 20)
	}
	debug.SetMaxStack(512 << 20)
	simrt.SnapshotGlobals()
	switch *mode {
	case "work":
		watchdog(60 * time.Second)
		work(*propID, *seed, *worker, *workers, *from, *secs, *maxRuns, *outF, *shr)
	case "replay":
		watchdog(60 * time.Second)
		replay(*file)
	case "det":
		watchdog(150 * time.Second)
		for i := *from; i < *from+*maxRuns; i++ {
			p := newPlan(*propID, runSeed(*seed, *propID, i))
			x, vs := runPlan(p, &counters{})
			fmt.Printf("%s %d %016x\n", *propID, i, digest(p, x, vs))
		}
	case "dry":
		// what becomes of generated paths, for tuning the generators
		debugDry = func(ps *PathSpec, d *DocSpec, o *out) {
			if o.kind == "ok" {
				fmt.Println("ok", o.rec.ncaps > 0, o.rec.calls > dryCalls || o.rec.ncaps > dryCaps)
			} else {
				fmt.Printf("%s %q %s %s\n", o.outcome()+" "+o.err, ps.Text, d.Model, d.Root.json())
			}
		}
		for i := *from; i < *from+*maxRuns; i++ {
			newPlan(*propID, runSeed(*seed, *propID, i))
		}
	case "show":
		p := newPlan(*propID, runSeed(*seed, *propID, *from))
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
		x, vs := runPlan(p, &counters{})
		for _, o := range x.outs() {
			fmt.Println(o.what(), "->", o.outcome(), o.results())
		}
		if x.res != nil {
			fmt.Println("steps", x.res.Steps, "switches", x.res.Switches, "races", x.races)
		}
		for _, v := range vs {
			fmt.Println("VIOLATED", v.Class, v.Msg)
		}
	}
}

func runSeed(seed uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return simrt.Mix(seed, h.Sum64(), uint64(i))
}

// collect collects garbage between runs. In a race build nothing is collected
// during a run: what the harness allocates (it is not instrumented) is not
// made known to the race detector as new, so that in memory which another
// task had written to before it was collected, a read would seem to race.
func collect() {
	if !simrt.RaceBuild {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 150<<20 {
		runtime.GC()
	}
}

var runStart time.Time

func watchdog(limit time.Duration) {
	runStart = time.Now()
	go func() {
		last, since := uint64(0), time.Now()
		for {
			time.Sleep(2 * time.Second)
			if p := simrt.Progress(); p != last {
				last, since = p, time.Now()
			}
			if time.Since(since) > limit {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "simcheck: nothing has moved for %v\n%s\n", limit, buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
}

// digest is a number that two runs share if they did the same.
func digest(p *Plan, x *exec, vs []viol) uint64 {
	h := fnv.New64a()
	b, _ := json.Marshal(p)
	h.Write(b)
	for _, r := range []*simrt.Result{x.res, x.res2} {
		if r != nil {
			fmt.Fprint(h, r.Hash, r.Steps, r.Switches, r.Segs, r.Deadlock, r.Stalls, r.Blocks)
		}
	}
	for _, o := range x.outs() {
		fmt.Fprint(h, o.outcome(), o.results())
		if o.rec != nil {
			fmt.Fprint(h, o.rec.calls, o.rec.ncaps)
		}
	}
	for _, v := range vs {
		if v.Class != "race" {
			fmt.Fprint(h, v)
		}
	}
	return h.Sum64()
}

type report struct {
	Prop       string         `json:"prop"`
	Worker     int            `json:"worker"`
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Distinct   []uint64       `json:"distinct"`
	Schedules  []uint64       `json:"schedules"`
	Steps      uint64         `json:"steps"`
	Switches   uint64         `json:"switches"`
	Counts     map[string]int `json:"counts"`
	Sites      []int          `json:"sites"`
	SwSites    int            `json:"switch_sites"`
	Samples    []any          `json:"samples"`
	Wall       float64        `json:"wall"`
	Found      *Replay        `json:"found,omitempty"`
	Race       bool           `json:"race"`
}

// Replay is what a replay file holds.
type Replay struct {
	Property   string   `json:"property"`
	Class      string   `json:"class"`
	Violation  []viol   `json:"violation"`
	Seed       uint64   `json:"verif_seed"`
	Run        int      `json:"run"`
	Plan       *Plan    `json:"plan"`
	Original   *Plan    `json:"original,omitempty"`
	Sequence   []int    `json:"sequence,omitempty"` // runs to make before, in the same process
	Trace      []string `json:"trace,omitempty"`
	RaceText   string   `json:"race,omitempty"`
	ShrinkRuns int      `json:"shrink_runs"`
	Digest     string   `json:"digest"`
}

// runFile notes which run is being made, for the case that the process does
// not survive it.
func runFile(outF string) func(int) {
	f, err := os.Create(outF + ".run")
	if err != nil {
		return func(int) {}
	}
	return func(i int) { f.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0) }
}

var slowRuns = os.Getenv("SIM_SLOW") != ""

func work(prop string, seed uint64, worker, workers, from int, secs float64, max int, outF string, shr float64) {
	start := time.Now()
	deadline := start.Add(time.Duration(secs * float64(time.Second)))
	r := &report{Prop: prop, Worker: worker, Race: simrt.RaceBuild}
	var cnt, all counters
	distinct, schedules := map[uint64]bool{}, map[uint64]bool{}
	c := map[string]int{}
	at := runFile(outF)
	for i := from + worker; r.Runs < max && (time.Now().Before(deadline) || r.Runs == 0); i += workers {
		at(i)
		p := newPlan(prop, runSeed(seed, prop, i))
		cnt = counters{}
		t := time.Now()
		x, vs := runPlan(p, &cnt)
		if d := time.Since(t); slowRuns && d > 2*time.Second {
			println("run", i, "took", int(d.Seconds()), "s")
		}
		r.Runs++
		all.add(&cnt)
		nt := tally(p, x, c)
		if nt {
			r.Nontrivial++
			if len(distinct) < 400000 {
				distinct[digest(p, x, nil)] = true
			}
		}
		for _, q := range []*simrt.Result{x.res, x.res2} {
			if q == nil {
				continue
			}
			r.Steps += uint64(q.Steps)
			r.Switches += uint64(q.Switches)
			c["blocked_on_lock"] += q.Blocks
			c["spawned_by_library"] += q.Spawned
			if q.Switches > 0 && len(schedules) < 400000 {
				schedules[q.Hash] = true
			}
		}
		if len(r.Samples) < 2 && nt {
			r.Samples = append(r.Samples, sample(p, x, i))
		}
		if len(vs) > 0 {
			r.Found = found(prop, seed, i, worker, workers, from, p, x, vs, shr)
			break
		}
	}
	for k := range distinct {
		r.Distinct = append(r.Distinct, k)
	}
	for k := range schedules {
		r.Schedules = append(r.Schedules, k)
	}
	c["panics_injected"] = all.panics
	c["goexits_injected"] = all.goexits
	c["stalls_injected"] = all.stalls
	c["pauses_injected"] = all.pauses
	c["nested_calls_injected"] = all.nested
	c["document_changes_injected"] = all.muts
	c["growth_injected"] = all.grown
	c["overwrites_injected"] = all.scribbles
	c["time_jumps_injected"] = all.slow
	c["wrong_answers_injected"] = all.lies
	c["heap_measured"] = all.measured
	c["absent_answers"] = all.absent
	c["matches"] = all.caps
	c["operations"] = all.ops
	c["parses"] = all.parses
	r.Counts = c
	for i, n := range simrt.Hits {
		if n > 0 {
			r.Sites = append(r.Sites, i)
		}
	}
	for _, n := range simrt.SwitchAt {
		if n > 0 {
			r.SwSites++
		}
	}
	r.Wall = time.Since(start).Seconds()
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(outF, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func (a *counters) add(b *counters) {
	a.panics += b.panics
	a.goexits += b.goexits
	a.stalls += b.stalls
	a.pauses += b.pauses
	a.nested += b.nested
	a.muts += b.muts
	a.grown += b.grown
	a.scribbles += b.scribbles
	a.slow += b.slow
	a.lies += b.lies
	a.measured += b.measured
	a.absent += b.absent
	a.calls += b.calls
	a.caps += b.caps
	a.ops += b.ops
	a.parses += b.parses
}

// tally tells if a run was worth something for its property.
func tally(p *Plan, x *exec, c map[string]int) bool {
	caps, aborted, midAbort, live, rec := 0, 0, 0, 0, 0
	for _, o := range x.outs() {
		if o.rec != nil {
			rec++
			caps += o.rec.ncaps + len(o.res)
			if o.abort {
				aborted++
				if o.rec.ncaps > 0 {
					midAbort++
				}
			}
			if o.rec.t1 > o.rec.t0 {
				live++
			}
		}
	}
	c["searches"] += rec
	c["searches_aborted"] += aborted
	c["searches_aborted_after_a_match"] += midAbort
	c["searches_of_a_changing_document"] += live
	if len(p.Tasks) > 1 {
		c["runs_with_several_callers"]++
	}
	sw := 0
	if x.res != nil {
		sw = x.res.Switches
	}
	broken := 0
	for _, d := range p.Docs {
		broken += len(d.Broken)
	}
	c["broken_nodes"] += broken
	if sw > 0 {
		c["runs_with_interleaving"]++
	}
	switch p.Prop {
	case "C01", "C14":
		return sw > 0 && caps > 0
	case "C02":
		return sw > 0 || len(p.Tasks) == 1 && len(p.Tasks[0]) > 1
	case "C03":
		n := 0
		p.eachOp(func(o *Op) {
			if o.K == "build" {
				n++
			}
		})
		return n > 0
	case "C04", "C05":
		return aborted > 0
	case "C06":
		return x.cnt.nested > 0
	case "C08", "C13":
		return live > 0
	case "C09":
		return x.cnt.absent > 0 || live > 0
	case "C11":
		return x.cnt.grown > 0
	case "C18":
		for _, ts := range x.tasks {
			if len(ts.made) > 1 {
				return true
			}
		}
		return false
	case "C28":
		return broken > 0 && caps > 0
	case "C29":
		return x.cnt.measured > 0
	case "C27":
		return x.cnt.lies > 0
	case "C19":
		return x.cnt.slow > 0
	case "C16":
		return rec > 0
	case "C15":
		return x.cnt.muts > 0 || len(p.Docs) > 1
	}
	return caps > 0
}

func sample(p *Plan, x *exec, i int) any {
	m := map[string]any{"run": i}
	var l []string
	for _, o := range x.outs() {
		s := o.what() + " -> " + o.outcome()
		if o.rec != nil {
			s += fmt.Sprintf(", %d matches, %d model calls", o.rec.ncaps+len(o.res), o.rec.calls)
		}
		for _, h := range o.op.Hooks {
			s += fmt.Sprintf("; %s at %s %d", h.Do, h.On, h.N)
		}
		l = append(l, s)
		if len(l) >= 10 {
			break
		}
	}
	m["operations"] = l
	if len(p.Docs) > 0 {
		d := p.Docs[0]
		m["document"] = trunc(d.Root.json(), 300)
		m["model"] = d.Model + " " + d.Handle + " " + d.Order
	}
	if x.res != nil {
		m["steps"], m["switches"] = x.res.Steps, x.res.Switches
		m["schedule"] = trunc(fmt.Sprint(x.res.Segs), 200)
		m["mode"] = p.Mode
	}
	return m
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			b, _ := os.ReadFile(filepath.Clean(strings.TrimPrefix(f, "log_path=")) + "." + fmt.Sprint(os.Getpid()))
			return string(b)
		}
	}
	return ""
}

func found(prop string, seed uint64, i, worker, workers, from int, p *Plan, x *exec, vs []viol, shr float64) *Replay {
	before := len(raceLog())
	f := &Replay{Property: prop, Class: vs[0].Class, Violation: vs, Seed: seed, Run: i, Original: p.clone()}
	small, n := shrink(p, vs[0].Class, time.Duration(shr*float64(time.Second)))
	f.ShrinkRuns = n
	logLen := len(raceLog())
	y, ws := runPlan(small, &counters{})
	if !hasClass(ws, vs[0].Class) {
		small = p
		y, ws = runPlan(small, &counters{})
	}
	if len(ws) > 0 {
		f.Violation = ws
	}
	f.Plan = small
	f.Trace = trace(y)
	f.Digest = fmt.Sprintf("%016x", digest(small, y, ws))
	if t := raceLog(); len(t) > logLen {
		f.RaceText = trunc(t[logLen:], 6000)
	} else if before > 0 {
		f.RaceText = trunc(t, 6000)
	}
	for k := from + worker; k < i; k += workers {
		f.Sequence = append(f.Sequence, k)
	}
	return f
}

// trace writes a run out.
func trace(x *exec) []string {
	var l []string
	for _, o := range x.outs() {
		s := o.what() + " -> " + o.outcome()
		if r := o.results(); o.rec != nil {
			s += " " + trunc(fmt.Sprint(r), 400)
		}
		for _, h := range o.op.Hooks {
			s += fmt.Sprintf("; %s at %s %d", h.Do, h.On, h.N)
		}
		l = append(l, s)
	}
	for _, ts := range x.tasks {
		for _, v := range ts.viols {
			l = append(l, v.Class+": "+v.Msg)
		}
	}
	if x.res != nil {
		l = append(l, fmt.Sprintf("schedule: %v (%d steps)", trunc(fmt.Sprint(x.res.Segs), 2000), x.res.Steps))
	}
	return l
}

// replay runs a replay file; it exits with 1 if the violation is there.
func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f Replay
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, i := range f.Sequence {
		runPlan(newPlan(f.Property, runSeed(f.Seed, f.Property, i)), &counters{})
	}
	if f.Plan == nil {
		// the run itself killed the process that made it
		f.Plan = newPlan(f.Property, runSeed(f.Seed, f.Property, f.Run))
	}
	x, vs := runPlan(f.Plan, &counters{})
	for _, t := range trace(x) {
		fmt.Println(t)
	}
	fmt.Printf("digest %016x\n", digest(f.Plan, x, vs))
	for _, v := range vs {
		fmt.Println("VIOLATED", v.Class, v.Msg)
	}
	if t := raceLog(); t != "" {
		fmt.Println(t)
	}
	if hasClass(vs, f.Class) || f.Class == "crash" && len(vs) > 0 {
		os.Exit(1)
	}
}
