package main

import (
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
)

// A property: how its runs are made, and how a finished run is judged.
type prop struct {
	gen     func(g *gen)
	check   func(x *exec) []viol
	classes []string // prefixes of what is reported during the run that break it
	steps   int
	keep    bool // documents are remembered as each search found them
}

var props map[string]*prop

func init() {
	base := checkBaseline
	props = map[string]*prop{
		"C01": {gen: genC01, check: base},
		"C02": {gen: genC02, check: checkC02, steps: 40000000},
		"C03": {gen: genC03, check: base},
		"C04": {gen: genC04, check: checkC04, classes: []string{"fault:"}},
		"C05": {gen: genC05, check: base},
		"C06": {gen: genC06, check: base},
		"C07": {gen: genC07, check: checkC07, classes: []string{"chain:"}},
		"C08": {gen: genC08, check: checkC08, classes: []string{"chain:", "absent:reported"}},
		"C09": {gen: genC09, check: checkC09, classes: []string{"absent:"}},
		"C10": {gen: genC10, check: checkC10, classes: []string{"contract:", "absent:passed"}},
		"C11": {gen: genC11, check: checkC11},
		"C12": {gen: genC12, check: checkC12},
		"C13": {gen: genC13, check: checkC13},
		"C14": {gen: genC14, check: base},
		"C15": {gen: genC15, check: base, keep: true},
		"C16": {gen: genC16, check: checkC16},
		"C17": {gen: genC17, check: checkC17},
		"C18": {gen: genC18, check: checkC18},
		"C19": {gen: genC19, check: base, keep: true},
		"C27": {gen: genC27, check: checkC27},
		"C29": {gen: genC29, check: checkC29, steps: 1 << 60},
		"C28": {gen: genC28, check: checkC28},
		"C30": {gen: genC30, check: checkC30},
	}
}

// judge lists what is wrong with a finished run.
func judge(p *Plan, x *exec) []viol {
	d := props[p.Prop]
	var vs []viol
	for _, res := range []*simrt.Result{x.res, x.res2} {
		if res == nil {
			continue
		}
		if res.Deadlock != "" {
			vs = append(vs, viol{"deadlock", res.Deadlock})
		}
		if res.StallBlocked != "" && p.Prop == "C14" {
			vs = append(vs, viol{"stalled", res.StallBlocked})
		}
		if res.StepLimit {
			vs = append(vs, viol{"unbounded", "the callers were not done after " + itoa(res.Steps) + " steps"})
		}
		for _, e := range res.Escaped {
			vs = append(vs, viol{"escaped", e})
		}
	}
	if x.callLimit != "" {
		vs = append(vs, viol{"unbounded", x.callLimit})
	}
	if x.races > 0 {
		vs = append(vs, viol{"race", itoa(x.races) + " data races"})
	}
	for _, ts := range x.tasks {
		for _, v := range ts.viols {
			for _, c := range d.classes {
				if strings.HasPrefix(v.Class, c) {
					vs = append(vs, v)
					break
				}
			}
		}
	}
	if len(vs) > 0 {
		return vs
	}
	return d.check(x)
}

// Generation.

type gen struct {
	r   *simrt.RNG
	p   *Plan
	cnt counters // of the dry runs: thrown away
	dry map[[2]int]*out
}

func newPlan(prop string, seed uint64) *Plan {
	var p *Plan
	for try := uint64(0); ; try++ {
		p = &Plan{Prop: prop, Seed: simrt.Mix(seed, try, 1)}
		g := &gen{r: simrt.NewRNG(p.Seed), p: p, dry: map[[2]int]*out{}}
		if !g.made(prop) && try < 50 {
			continue
		}
		passTime(p, prop == "C19")
		if prop != "C02" && prop != "C29" {
			w := g.work(p.Post)
			for _, t := range p.Tasks {
				w += g.work(t)
			}
			if w > maxWork {
				p.Tasks, p.Post = nil, nil
			}
		}
		if len(p.Tasks) > 0 || try > 20 {
			break
		}
	}
	return p
}

// made makes a plan, unless making it takes too much.
func (g *gen) made(prop string) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(refOverflow); !is {
				panic(p)
			}
		}
	}()
	props[prop].gen(g)
	return true
}

// How long simulated time passes at once.
var delays = []time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond, time.Second, 6 * time.Second, 61 * time.Second,
	11 * time.Minute, 61 * time.Minute, 25 * time.Hour, 40 * 24 * time.Hour}

// passTime makes some models and callbacks slow, and lets some callers come
// back later.
func passTime(p *Plan, always bool) {
	r := simrt.NewRNG(simrt.Mix(p.Seed, 404))
	if !always && !r.P(0.12) {
		return
	}
	slow, late := r.P(0.7), r.P(0.7)
	for i, l := range p.Tasks {
		var ret []*Op
		for _, o := range l {
			if slow && r.P(0.4) && (o.K == "search" || o.K == "find" || o.K == "pfind") {
				h := &Hook{On: "call", N: r.In(1, 25), Do: "clock", Val: r.N(len(delays))}
				if r.P(0.3) {
					h.Every = r.In(1, 10)
				}
				if o.K == "search" && r.P(0.3) {
					h.On, h.N = "cap", r.In(1, 3)
				}
				o.Hooks = append(o.Hooks, h)
			}
			ret = append(ret, o)
			if late && r.P(0.4) {
				ret = append(ret, &Op{K: "clock", To: r.N(len(delays))})
			}
		}
		p.Tasks[i] = ret
	}
}

// maxWork bounds the steps a plan should take, a tenth of the step limit.
const maxWork = 400000

// work guesses how many steps operations take. Searches inside searches
// multiply.
func (g *gen) work(ops []*Op) int {
	n := 0
	for _, o := range ops {
		if o.Times > 1 {
			c := *o
			c.Times = 0
			n += o.Times * g.work([]*Op{&c})
			continue
		}
		switch {
		case o.K == "search" || o.K == "find":
			if o.P >= len(g.p.Paths) {
				n += 20000
				break
			}
			d := g.dryRun(o.P, o.D)
			n += d.steps
			if d.rec == nil {
				break
			}
			for _, h := range o.Hooks {
				if h.Do != "ops" {
					continue
				}
				all := d.rec.calls
				if h.On == "cap" {
					all = d.rec.ncaps
				}
				if all < h.N {
					continue
				}
				times := 1
				if h.Every > 0 {
					times += (all - h.N) / h.Every
				}
				n += times * g.work(h.Ops)
			}
		case o.K == "parse" || o.K == "pfind":
			n += 5000
		default:
			n += 100
		}
		if n > 100*maxWork {
			break
		}
	}
	return n
}

type docOpt struct {
	max              int
	ints, weird      bool
	mapp             float64 // chance that the model is MapModel
	orders           []string
	ghosts, vanish   bool
	static, noUncMod bool
	exact            bool // a reference must know what filters make of the values
	small            bool // never a big document
}

var handles = []string{"ptr", "ptr", "fresh", "id", "int", "unc", "str", "raw", "bool"}

func (g *gen) doc(o docOpt) int {
	r := g.r
	if o.max == 0 {
		o.max = r.In(4, 22)
	}
	if o.orders == nil {
		o.orders = []string{"stable", "perm", "shuf"}
	}
	d := &DocSpec{Model: "sim", OSeed: r.U64() >> 12, Ints: o.ints}
	d.Root = genDoc(r, o.max, o.ints, o.weird, !o.exact, r.P(0.3))
	if !o.small && r.P(0.03) {
		d.Root = bigDoc(r, o.ints)
	}
	if !o.exact && r.P(0.06) {
		oddValues(r, d.Root)
	}
	if r.P(o.mapp) {
		d.Model = "map"
	} else {
		d.Handle = r.Pick(handles)
		d.Order = r.Pick(o.orders)
		d.Absent = r.Pick([]string{"nil", "junk"})
		d.UncMod = r.P(0.2)
		d.Spare = r.P(0.3)
		if o.ghosts {
			for _, k := range []string{"a", "b", "n0", "gone", "c", "s0"} {
				if r.P(0.3) {
					d.Ghosts = append(d.Ghosts, k)
				}
			}
		}
		if o.vanish {
			d.Vanish = r.In(5, 40)
		}
	}
	g.p.Docs = append(g.p.Docs, d)
	return len(g.p.Docs) - 1
}

type pathOpt struct {
	filters, live, weird bool
	raw                  float64
	maxRec               int
}

var rawTexts = []string{
	"$", "@", "$.*", "$[*]", "$..", "$..*", "$..[*]", "$.a", "$['a']", `$["a"]`, "$.a.b", "$['a']['b']", "$[0]", "$[-1]", "$[-4]",
	"$[1:3]", "$[:2]", "$[1:]", "$[:]", "$[::2]", "$[1::2]", "$[-2:]", "$[:-1]", "$[0:3:1]", "$[0:4:2]", "$[3:0:-1]", "$[::-1]", "$[0:3:0]",
	"$[0,1]", "$['a','b']", "$['a','b','n0']", "$[0,-1,5]", "$[0,1:3]", "$[*,0]", "$..a", "$..[0]", "$..['a']", "$..[1:2]", "$..[?(@.n0)]", "$..a..b", "$..*..a", "$.a..*",
	"$..n0", "$.*.*", "$.*[0]", "$[*].a", "$.a[*]", "$.a[0].b", "$.a[-1:]", "/", "/a", "/a/b", "/a/0", "/*", "/*/a", `/"a"/'b'`, "/a/*/n0",
	"$[?(@)]", "$[?(@.a)]", "$[?(!@.a)]", "$[?(@.n0==1)]", "$[?(@.n0!=1)]", "$[?(@.n0>1)]", "$[?(@.n0>=1 && @.n1<3)]", "$[?(@.n0==1 || @.s0=='x')]",
	"$[?(@.n0+@.n1==3)]", "$[?(@.n0*2>@.n1)]", "$[?(@.n0-1<@.n1)]", "$[?(@.n0/2==1)]", "$[?(@.n0%2==0)]", "$[?(@.n0**2>3)]", "$[?(-@.n0<0)]",
	"$[?(@.s0=='x')]", `$[?(@.s0=="hello")]`, "$[?(@.f0==true)]", "$[?(@.f0)]", "$[?(@.z==null)]", "$[?(@.n0 in [1,2])]", "$[?(@.s0 in ['x','y'])]",
	"$[?(@.a.length()>1)]", "$[?(length(@)>2)]", "$[?(length(@.a)==0)]", "$[?(@.n0==$.n0)]", "$[?($.n0>1)]", "$[?(@.n0==$.a.n0)]", "$[?(@.a[0]==1)]", "$[?(@.*)]", "$[?(@..a)]",
	"$[?(@[0]==1)]", "$[?(@==1)]", "$[?(@>1)]", "$[?(@=='x')]", "$[?(@.a[?(@.n0>1)])]", "$..[?(@.n0>1)].n0", "$[?(@.n0===1)]", "$[?(@.n0!==1)]", "$[?(@['n0']>0)]",
	"$[?((@.n0>0) && !(@.n1==2))]", "$..[?(@.a.length()>=1)]", "$.a[?(@.n0<=$.n1)]", "$[?(1)]", "$[?(0)]", "$[?(true)]", "$['*']", "$['$']", "$[ 0 ]", "$ . a", "$.a [ 1 : 2 ]",
	"$[?(@.n0>=0x1)]", "$[?(@.n0 < 0b11)]", "$[?(@.n0==1.5)]", "$[?(@.n0<1e1)]", "$['\\'']", "$['k 1']", "$['ключ']", "$.ключ", "$..['x-y']", "$[?(@.foo())]", "$[?(foo(@))]", "$[?(@.a+1)]",
}

// path generates a shared path for document d.
func (g *gen) path(d int, o pathOpt) int {
	r := g.r
	s := &PathSpec{}
	if r.P(o.raw) {
		if r.P(0.4) {
			s.Text = r.Pick(rawTexts)
		} else {
			s.Text = (&wildGen{r: r, doc: g.p.Docs[d].Root}).text()
		}
	} else {
		pg := &pathGen{r: r, filters: o.filters, live: o.live, doc: g.p.Docs[d].Root, maxRec: o.maxRec, weird: o.weird, ints: g.p.Docs[d].Ints}
		s.AST = pg.gen()
		s.Text = pathText(s.AST, r)
	}
	g.p.Paths = append(g.p.Paths, s)
	return len(g.p.Paths) - 1
}

// limit is higher for big documents.
func (g *gen) limit(d, n int) int {
	switch k := g.p.Docs[d].Root.size(); {
	case k > 1000:
		return 12 * n
	case k > 60:
		return 4 * n
	}
	return n
}

const (
	dryCalls = 1500
	dryCaps  = 150
)

// dryRun is what path p does to document d when nothing interferes.
func (g *gen) dryRun(p, d int) *out {
	k := [2]int{p, d}
	if o := g.dry[k]; o != nil {
		return o
	}
	x := newExec(g.p, &g.cnt)
	need := make([]bool, len(g.p.Paths))
	x.needs(p, need)
	simrt.RestoreGlobals("lib.")
	x.setup(need)
	if x.perr[p] != "" {
		o := &out{kind: "path", err: x.perr[p], op: &Op{K: "search"}}
		g.dry[k] = o
		if debugDry != nil {
			debugDry(g.p.Paths[p], g.p.Docs[d], o)
		}
		return o
	}
	o := runOne(x, &Op{K: "search", P: p, D: d}, 400000)
	g.dry[k] = o
	return o
}

var debugDry func(*PathSpec, *DocSpec, *out)

// runOne runs a single operation alone.
func runOne(x *exec, op *Op, steps int) *out {
	pl := *x.plan
	pl.Tasks = [][]*Op{{op}}
	pl.Post = nil
	pl.Mode, pl.Segs, pl.HaveSegs, pl.Antlr = simrt.Mode{Kind: "seq"}, nil, false, false
	x.plan = &pl
	x.noHooks = true
	x.run(steps)
	o := x.tasks[0].outs[0]
	o.steps = x.res.Steps
	return o
}

// usable tells if a path on a document is neither endless nor pointless to
// run many times.
func (g *gen) usable(p, d int) bool {
	o := g.dryRun(p, d)
	if debugDry != nil && o.kind != "path" {
		debugDry(g.p.Paths[p], g.p.Docs[d], o)
	}
	switch o.kind {
	case "path":
		return false
	case "goexit":
		// Without end. The documents of C11 are small; elsewhere the path may
		// just be a lot of work.
		return g.p.Prop == "C11" && g.p.Paths[p].AST != nil
	}
	// what panics or fails alone is for the oracles to judge
	return o.rec.calls <= g.limit(d, dryCalls) && o.rec.ncaps <= g.limit(d, dryCaps)
}

// pathFor adds a path that does something on d, if it can find one.
func (g *gen) pathFor(d int, o pathOpt, wantCaps bool) int {
	for i := 0; i < 12; i++ {
		p := g.path(d, o)
		if !g.promising(p, d, wantCaps && i <= 8) {
			g.dropPath()
			continue
		}
		if g.usable(p, d) && (!wantCaps || i > 8 || g.dryRun(p, d).rec.ncaps > 0) {
			return p
		}
		g.dropPath()
	}
	g.p.Paths = append(g.p.Paths, &PathSpec{Text: "$.*", AST: []Elem{{Sel: Sel{K: "root"}}, {Sel: Sel{K: "wild"}}}})
	return len(g.p.Paths) - 1
}

// promising is a cheap guess of what usable will say: it asks the reference.
func (g *gen) promising(p, d int, wantCaps bool) bool {
	a := g.p.Paths[p].AST
	if a == nil {
		return true
	}
	l, ok := refSearch(g.p.Docs[d].Root, a, nil, nil)
	return ok && len(l) <= g.limit(d, dryCaps) && (!wantCaps || len(l) > 0)
}

func (g *gen) dropPath() {
	n := len(g.p.Paths) - 1
	g.p.Paths = g.p.Paths[:n]
	for k := range g.dry {
		if k[0] == n {
			delete(g.dry, k)
		}
	}
}

func (g *gen) mode(total int) {
	r := g.r
	m := simrt.Mode{}
	switch r.N(10) {
	case 0, 1, 2, 3:
		m.Kind, m.Mean = "geo", []int{1, 2, 3, 5, 8, 15, 40, 150}[r.N(8)]
	case 4, 5:
		m.Kind, m.Mean = "call", []int{1, 2, 4, 10}[r.N(4)]
	case 6, 7:
		m.Kind, m.Mean = "bias", []int{20, 100, 400}[r.N(3)]
		m.Bias, m.Mod = r.U64()>>12, []int{5, 20, 60}[r.N(3)]
	default:
		m.Kind = "pct"
		for i, n := 0, r.In(1, 5); i < n; i++ {
			m.Pts = append(m.Pts, r.N(total+1))
		}
		sort.Ints(m.Pts)
	}
	g.p.Mode = m
}

// pct modes need an estimate of how long the run is.
func (g *gen) estimate() int {
	n := 0
	g.p.eachOp(func(o *Op) {
		k := 20
		switch o.K {
		case "search", "find":
			if o.P < len(g.p.Paths) {
				k += g.dryRun(o.P, o.D).rec.calls * 8
			}
		case "parse", "pfind":
			k = 300
		case "fresh":
			k = 100
		}
		n += k * max(1, o.Times)
	})
	return n
}

// many is how often an operation can be repeated that takes so many steps.
func (g *gen) many(steps int) int {
	return min(g.r.Pick2([]int{12, 40, 70, 110, 140, 270, 520, 1030, 2060})+g.r.N(8), 150000/(steps+50)+2)
}

func (g *gen) repeated(o *Op) *Op {
	o.Times = g.many(g.dryRun(o.P, o.D).steps)
	return o
}

func (g *gen) searchOp(p, d int) *Op {
	k := "search"
	if g.r.P(0.3) {
		k = "find"
	}
	return &Op{K: k, P: p, D: d}
}

// C01: callers that share paths and documents.
func genC01(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{mapp: 0.3, ints: r.P(0.3), weird: r.P(0.2), ghosts: r.P(0.1)})
		for j, n := 0, r.In(1, 2); j < n; j++ {
			p := g.pathFor(d, pathOpt{filters: r.P(0.7), raw: 0.35, maxRec: 2, weird: true}, r.P(0.9))
			pairs = append(pairs, [2]int{p, d})
			for e := 0; e < nd && e < len(g.p.Docs); e++ {
				if e != d && r.P(0.3) && g.usable(p, e) {
					pairs = append(pairs, [2]int{p, e})
				}
			}
		}
	}
	nt := r.In(2, 4)
	crowd := r.P(0.03)
	if crowd {
		if nt = r.In(5, 40); r.P(0.1) {
			nt = r.In(60, 300)
		}
	}
	focus := r.P(0.4)
	for t := 0; t < nt; t++ {
		var ops []*Op
		n := r.In(1, 4)
		if crowd {
			n = 1
		}
		for i := 0; i < n; i++ {
			q := pairs[r.N(len(pairs))]
			if focus {
				q = pairs[0]
			}
			o := g.searchOp(q[0], q[1])
			if r.P(0.01) {
				o = g.repeated(o)
			}
			if r.P(0.05) {
				o = &Op{K: "pfind", D: q[1], Text: g.p.Paths[q[0]].Text}
			}
			ops = append(ops, o)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.p.MapOrder = r.N(3)
	g.mode(g.estimate())
}

// antlrBuild tells if the parser runtime can be interleaved.
func antlrBuild() bool {
	for _, n := range simrt.GlobalNames() {
		if strings.HasPrefix(n, "antlr.") {
			return true
		}
	}
	return false
}

// C02: texts parsed by several callers, from a cold or a warm start.
func genC02(g *gen) {
	r := g.r
	d := g.doc(docOpt{mapp: 1, ints: r.P(0.3), weird: r.P(0.5), small: true})
	// Most runs are short ones that start warm; cold ones and those in which
	// the parser runtime is interleaved take much longer.
	light := r.P(0.7)
	g.p.Cold = !light && r.P(0.5)
	g.p.Antlr = !light && r.P(0.8) && antlrBuild()
	var texts []string
	n := r.In(1, 4)
	if g.p.Cold {
		n = r.In(1, 2)
	}
	for i := 0; i < n; i++ {
		t := ""
		if r.P(0.25) {
			t = r.Pick(rawTexts)
		} else if r.P(0.35) {
			t = (&wildGen{r: r, doc: g.p.Docs[d].Root}).text()
		} else {
			pg := &pathGen{r: r, filters: true, doc: g.p.Docs[d].Root, maxRec: 2, weird: r.P(0.3), ints: g.p.Docs[d].Ints}
			t = pathText(pg.gen(), r)
		}
		texts = append(texts, t)
		switch r.N(6) {
		case 0, 1:
			texts = append(texts, mangle(t, r))
		case 2, 3:
			texts = append(texts, twin(t, r))
			if r.P(0.3) {
				texts = append(texts, twin(t, r))
			}
		}
	}
	var parts []string
	join := func() *Op {
		if len(parts) > 0 && r.P(0.5) {
			return &Op{K: "join", Parts: twinParts(parts, r)}
		}
		parts = nil
		for i, n := 0, r.N(4); i < n; i++ {
			parts = append(parts, r.Pick(quoteTexts))
		}
		return &Op{K: "join", Parts: parts}
	}
	quoted := ""
	op := func() *Op {
		switch r.N(12) {
		case 0:
			if quoted == "" || r.P(0.5) {
				quoted = r.Pick(quoteTexts)
				return &Op{K: "quote", Text: quoted}
			}
			return &Op{K: "quote", Text: twin(quoted, r)}
		case 1:
			return join()
		}
		return &Op{K: "parse", Text: r.Pick(texts)}
	}
	nt := r.In(2, 3)
	per := 2
	if r.P(0.02) {
		// a long history
		g.p.Antlr, g.p.Cold = false, false
		nt, per = r.In(1, 2), 6
		o := &Op{K: "parse", Text: r.Pick([]string{"$.k%d", "$[%d]", "$..k%d", "$['k %d']", "$.a[?(@.b==%d)]", "/k%d", "$.k%d.", "$[", "$.a%d[0:%d]"}), Times: g.r.Pick2([]int{12, 40, 70, 140, 270})}
		if !simrt.RaceBuild && r.P(0.15) {
			if o.Times = 520; !strings.Contains(o.Text, "?") && r.P(0.5) {
				o.Times = 1030
			}
		}
		if r.P(0.3) {
			o = &Op{K: "quote", Text: r.Pick([]string{"k%d", "k %d", "%d", "a"}), Times: g.many(100)}
		}
		g.p.Tasks = append(g.p.Tasks, []*Op{o})
		if nt == 1 {
			g.p.Tasks = nil
			defer func() { g.p.Tasks[0] = append([]*Op{o}, g.p.Tasks[0]...) }()
		}
	} else if r.P(0.02) {
		nt, per = r.In(4, 12), 1
		g.p.Antlr = false
	} else if light && r.P(0.6) || r.P(0.2) {
		nt, per = 1, 8 // a history
		if g.p.Antlr = false; g.p.Cold {
			per = 5
		}
	}
	for _, t := range texts {
		if len(t) > 150 {
			// millions of steps in the parser's runtime
			g.p.Antlr = false
		}
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, per); i < n; i++ {
			ops = append(ops, op())
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	if len(g.p.Tasks) > 1 && r.P(0.5) {
		// some again when all is done
		var done []*Op
		for _, l := range g.p.Tasks {
			for _, o := range l {
				if o.K == "parse" && o.Times == 0 {
					done = append(done, o)
				}
			}
		}
		for i, n := 0, r.In(1, 3); i < n && len(done) > 0; i++ {
			g.p.Post = append(g.p.Post, &Op{K: "parse", Text: done[r.N(len(done))].Text})
		}
	}
	total := 1500
	if g.p.Antlr {
		total = 60000
		if g.p.Cold {
			total = 500000
		}
	}
	g.mode(total)
	if g.p.Antlr && !g.p.Cold {
		for _, t := range texts {
			if r.P(0.5) {
				g.p.Warm = append(g.p.Warm, t)
			}
		}
		if r.P(0.5) {
			g.p.Warm = append(g.p.Warm, r.Pick(rawTexts))
		}
	}
	if g.p.Antlr {
		// thousands of switches per parse teach nothing new
		m := &g.p.Mode
		switch m.Kind {
		case "geo", "call":
			m.Mean = []int{30, 200, 1000, 5000}[r.N(4)]
		case "bias":
			m.Mean, m.Mod = 5000, 300
		}
	}
}

var quoteTexts = []string{"", "a", "key1", "1a", "a b", "it's", `say "x"`, `both ' and "`, "ключ", "a-b", "a.b", "_x", "$", "0", "x\\y", "日本"}

func mangle(t string, r *simrt.RNG) string {
	b := []rune(t)
	for i, n := 0, r.In(1, 2); i < n; i++ {
		junk := []rune(`.[]()'"@$*?:,!=<>&|/\ a1-`)
		if len(b) == 0 {
			b = append(b, junk[r.N(len(junk))])
			continue
		}
		at := r.N(len(b))
		switch r.N(4) {
		case 0:
			b = append(b[:at:at], b[at+1:]...)
		case 1:
			b = append(b[:at:at], append([]rune{junk[r.N(len(junk))]}, b[at:]...)...)
		case 2:
			b = b[:at]
		case 3:
			b = append([]rune(nil), b...)
			b[at] = junk[r.N(len(junk))]
		}
	}
	return string(b)
}

// twin is a text that differs little from t, in ways that are easily taken
// for none: the space in it, the case of a letter, the order of two, the end
// of a long text.
func twin(t string, r *simrt.RNG) string {
	b := []rune(t)
	var in, word, quotes, digits []int
	var q rune
	for i, c := range b {
		switch {
		case q != 0 && c == q:
			q = 0
			in = append(in, i) // a place to insert at
		case q != 0:
			in = append(in, i)
		case c == '\'' || c == '"':
			q = c
			quotes = append(quotes, i)
		case c >= '0' && c <= '9':
			digits = append(digits, i)
		}
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			word = append(word, i)
		}
	}
	ins := func(at int, s string) string {
		return string(b[:at]) + s + string(b[at:])
	}
	for try := 0; try < 8; try++ {
		switch r.N(11) {
		case 0, 1:
			if len(in) > 0 {
				return ins(in[r.N(len(in))], r.Pick([]string{" ", "  ", "\t", " ", "_", "0"}))
			}
		case 2:
			for _, i := range in {
				if b[i] == ' ' && r.P(0.7) {
					if r.P(0.5) {
						return ins(i, " ")
					}
					return string(b[:i]) + r.Pick([]string{"", "\t", "_", "  "}) + string(b[i+1:])
				}
			}
		case 3:
			if len(word) > 0 {
				b[word[r.N(len(word))]] ^= 32
				return string(b)
			}
		case 4:
			if len(word) > 0 {
				// the same in its lower bits, or when folded
				b[word[r.N(len(word))]] += r.PickRune([]rune{0x100, 0x400, 0x10000, 0xfee0})
				return string(b)
			}
		case 5:
			if len(word) > 1 {
				i, j := word[r.N(len(word))], word[r.N(len(word))]
				if b[i] != b[j] {
					b[i], b[j] = b[j], b[i]
					return string(b)
				}
			}
		case 6:
			if len(digits) > 0 {
				return ins(digits[r.N(len(digits))], r.Pick([]string{"1", "0", "-", " "}))
			}
		case 7:
			return t + r.Pick([]string{" ", "\n", ".a", "x", "[0]", "..", ".*"})
		case 8:
			for i, c := range b {
				if c == '.' && r.P(0.5) {
					return ins(i, r.Pick([]string{".", " ", ".*"}))
				}
			}
		case 9:
			if len(in) > 0 {
				return ins(in[r.N(len(in))], strings.Repeat(r.Pick([]string{"a", "k ", "ю"}), r.In(10, 70)))
			}
		case 10:
			if len(quotes) > 0 {
				i := quotes[r.N(len(quotes))]
				return string(b[:i]) + strings.Map(func(c rune) rune {
					switch c {
					case '"':
						return '\''
					case '\'':
						return '"'
					}
					return c
				}, string(b[i:]))
			}
		}
	}
	return t + "1"
}

// twinParts are keys that look like the given ones when they are run together.
func twinParts(p []string, r *simrt.RNG) []string {
	p = append([]string(nil), p...)
	switch r.N(5) {
	case 0:
		if len(p) > 1 {
			i := r.N(len(p) - 1)
			p[i] += r.Pick([]string{"", ".", ",", "/", " ", "\x00"}) + p[i+1]
			p = append(p[:i+1], p[i+2:]...)
		}
	case 1:
		for i, k := range p {
			if len(k) > 1 {
				n := append(append([]string(nil), p[:i]...), k[:1], k[1:])
				return append(n, p[i+1:]...)
			}
		}
	case 2:
		if len(p) > 1 {
			i := r.N(len(p) - 1)
			p[i], p[i+1] = p[i+1], p[i]
		}
	case 3:
		p = append(p, "")
	case 4:
		if len(p) > 0 {
			i := r.N(len(p))
			p[i] = twin(p[i], r)
		}
	}
	return p
}

// otherCall is a call that is no search of a path the plan has.
func (g *gen) otherCall(q [2]int) *Op {
	r := g.r
	text := g.p.Paths[q[0]].Text
	switch r.N(8) {
	case 0:
		return &Op{K: "parse", Text: text}
	case 1:
		return &Op{K: "pfind", D: q[1], Text: text}
	case 2:
		t := twin(text, r)
		g.p.Paths = append(g.p.Paths, &PathSpec{Text: t})
		ok := g.usable(len(g.p.Paths)-1, q[1])
		g.dropPath()
		if ok {
			return &Op{K: "pfind", D: q[1], Text: t}
		}
		return &Op{K: "parse", Text: t}
	case 3:
		return &Op{K: "build", To: 0, Spec: &PathSpec{Op: r.Pick([]string{"rdesc", "append"}), Args: []int{q[0]}}}
	case 4:
		if r.P(0.5) {
			return &Op{K: "join", Parts: []string{r.Pick(quoteTexts), r.Pick(quoteTexts)}}
		}
		return &Op{K: "quote", Text: r.Pick(quoteTexts)}
	case 5:
		return &Op{K: "parse", Text: twin(text, r)}
	case 6:
		return &Op{K: "parse", Text: mangle(r.Pick(rawTexts), r)}
	}
	// something nobody has come across
	return &Op{K: "parse", Text: strings.ReplaceAll(r.Pick([]string{"$.k%d", "$[?(@.k%d==$.k%d)]", "$['k%d'][%d]", "$..k%d[%d:]", "/k%d", "$.k%d.", "$[%d,'k%d']"}), "%d", itoa(r.In(100, 999999)))}
}

// C03: callers that compose paths from shared ones.
func genC03(g *gen) {
	r := g.r
	if r.P(0.05) {
		genLong(g)
		return
	}
	d := g.doc(docOpt{mapp: 0.15, ints: r.P(0.3)})
	doc := g.p.Docs[d].Root
	pg := &pathGen{r: r, filters: true, doc: doc, maxRec: 1}
	suffix := func() *PathSpec {
		// what can follow another path
		switch r.N(7) {
		case 0:
			return &PathSpec{Op: "idx", Ix: r.N(3)}
		case 1:
			return &PathSpec{Op: "wild"}
		case 2:
			es := append([]Elem{{Sel: Sel{K: "cur"}}}, pg.relPath(nil, 2)...)
			return &PathSpec{Text: pathText(es, r), AST: es}
		}
		return &PathSpec{Op: "key", Key: pg.key(doc)}
	}
	bases := []int{}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		if r.P(0.75) {
			p := g.pathFor(d, pathOpt{filters: true, raw: 0.1, maxRec: 1}, true)
			bases = append(bases, p)
		} else {
			g.p.Paths = append(g.p.Paths, &PathSpec{Op: r.Pick([]string{"root", "root", "cur"})})
			bases = append(bases, len(g.p.Paths)-1)
		}
	}
	suf := []int{}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		g.p.Paths = append(g.p.Paths, suffix())
		suf = append(suf, len(g.p.Paths)-1)
	}
	if r.P(0.5) {
		b := bases[r.N(len(bases))]
		s := &PathSpec{Op: "rdesc", Args: []int{b}}
		if r.P(0.6) {
			s = &PathSpec{Op: "append", Args: []int{b, suf[r.N(len(suf))]}}
		}
		g.p.Paths = append(g.p.Paths, s)
		bases = append(bases, len(g.p.Paths)-1)
	}
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []*Op
		var locals []int
		any := func() int {
			if len(locals) > 0 && r.P(0.5) {
				return locals[r.N(len(locals))]
			}
			return bases[r.N(len(bases))]
		}
		tail := func() int {
			if len(locals) > 0 && r.P(0.15) {
				return locals[r.N(len(locals))]
			}
			if r.P(0.1) {
				return bases[r.N(len(bases))]
			}
			return suf[r.N(len(suf))]
		}
		for i, n := 0, r.In(2, 6); i < n; i++ {
			switch r.N(10) {
			case 0, 1, 2, 3:
				s := &PathSpec{Op: "append", Args: []int{any()}}
				for k := r.In(0, 2); k >= 0; k-- {
					s.Args = append(s.Args, tail())
				}
				if len(s.Args) > 3 {
					s.Args = s.Args[:3]
				}
				ops = append(ops, &Op{K: "build", To: len(locals), Spec: s})
				locals = append(locals, 1000+len(locals))
			case 4, 5:
				ops = append(ops, &Op{K: "build", To: len(locals), Spec: &PathSpec{Op: "rdesc", Args: []int{any()}}})
				locals = append(locals, 1000+len(locals))
			case 6:
				s := suffix()
				ops = append(ops, &Op{K: "build", To: len(locals), Spec: s})
				locals = append(locals, 1000+len(locals))
			default:
				ops = append(ops, g.searchOp(any(), d))
			}
		}
		for _, l := range locals {
			if r.P(0.7) {
				ops = append(ops, g.searchOp(l, d))
			}
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	for i := range g.p.Paths {
		g.p.Post = append(g.p.Post, &Op{K: "search", P: i, D: d})
	}
	g.p.MapOrder = r.N(2)
	g.mode(600)
	if !g.composable() {
		g.p.Tasks = nil
	}
}

// genLong builds long paths element by element, with several paths that go on
// from the same one.
func genLong(g *gen) {
	r := g.r
	n := r.In(5, 70)
	d := &DocSpec{Model: "sim", Handle: "ptr", Order: "stable", Absent: "nil"}
	leaf := &DNode{Kind: 'o'}
	var keys []string
	for i := 0; i < n; i++ {
		if r.P(0.3) {
			leaf = &DNode{Kind: 'a', Kids: []*DNode{leaf, {Kind: 'v', Val: 1.0}}}
			keys = append(keys, "")
			continue
		}
		u := &DNode{Kind: 'o'}
		k := r.Pick(plainKeys)
		u.setKey(k, leaf)
		u.setKey("n0", &DNode{Kind: 'v', Val: float64(i)})
		leaf = u
		keys = append(keys, k)
	}
	d.Root = leaf
	g.p.Docs = append(g.p.Docs, d)
	g.p.Paths = append(g.p.Paths, &PathSpec{Op: "root"}, &PathSpec{Op: "key", Key: "n0"}, &PathSpec{Op: "wild"}, &PathSpec{Op: "idx", Ix: 1}, &PathSpec{Op: "cur"})
	parts := map[string]int{}
	part := func(i int) int {
		k := keys[n-1-i]
		if _, ok := parts[k]; !ok {
			s := &PathSpec{Op: "key", Key: k}
			if k == "" {
				s = &PathSpec{Op: "idx"}
			}
			g.p.Paths = append(g.p.Paths, s)
			parts[k] = len(g.p.Paths) - 1
		}
		return parts[k]
	}
	for i := range keys {
		part(i)
	}
	for t, nt := 0, r.In(1, 2); t < nt; t++ {
		var ops []*Op
		at, locals := 0, 0 // the path so far, paths made
		build := func(args ...int) int {
			ops = append(ops, &Op{K: "build", To: locals, Spec: &PathSpec{Op: "append", Args: args}})
			locals++
			return 1000 + locals - 1
		}
		var check []int
		for i := 0; i < n; {
			k := min(r.In(1, 3), n-i)
			args := []int{at}
			for j := 0; j < k; j++ {
				args = append(args, part(i+j))
			}
			i += k
			if r.P(0.3) {
				check = append(check, build(append(append([]int(nil), args...), 1+r.N(3))...))
			}
			next := build(args...)
			if r.P(0.3) {
				check = append(check, build(append(append([]int(nil), args...), 1+r.N(3))...))
			}
			if at >= 1000 && r.P(0.2) {
				check = append(check, at)
			}
			at = next
		}
		check = append(check, at)
		for i := 0; i < 12 && len(check) > 0; i++ {
			ops = append(ops, &Op{K: "find", P: check[r.N(len(check))], D: 0})
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(2000)
}

// composable tells if no composed path of the plan is too much work.
func (g *gen) composable() bool {
	x := newExec(g.p, &g.cnt)
	x.setup(nil)
	for _, ts := range g.p.Tasks {
		s := &taskState{x: x}
		for _, o := range ts {
			if o.K == "build" {
				for len(s.ltree) <= o.To {
					s.ltree = append(s.ltree, nil)
				}
				s.ltree[o.To] = x.newTree(s, o.Spec)
			}
			if o.K == "search" || o.K == "find" {
				t := x.tree(s, o.P)
				b := baseline(g.p, t, o, g.p.Docs[o.D].Root, false, 60000, &g.cnt)
				if b.kind == "" || b.rec.calls > dryCalls || b.rec.ncaps > dryCaps {
					return false
				}
			}
		}
	}
	for _, o := range g.p.Post {
		b := baseline(g.p, x.tree(x.idle, o.P), o, g.p.Docs[o.D].Root, false, 60000, &g.cnt)
		if b.kind == "" || b.rec.calls > dryCalls || b.rec.ncaps > dryCaps {
			return false
		}
	}
	return true
}

// place puts a fault somewhere into a search.
func (g *gen) place(o *out, do string, val int) *Hook {
	r := g.r
	h := &Hook{On: "call", Do: do, Val: val}
	if o.rec.ncaps > 0 && r.P(0.4) {
		h.On = "cap"
		h.N = 1 + r.N(o.rec.ncaps)
	} else {
		h.N = 1 + r.N(o.rec.calls)
	}
	if o.rec.calls == 0 {
		if o.rec.ncaps == 0 {
			return nil
		}
		h.On, h.N = "cap", 1+r.N(o.rec.ncaps)
	}
	return h
}

func (g *gen) pathsFor(d, n int, o pathOpt) []int {
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, g.pathFor(d, o, g.r.P(0.9)))
	}
	return l
}

// C04: the model or the callback panics or exits the goroutine.
func genC04(g *gen) {
	r := g.r
	d := g.doc(docOpt{mapp: 0.1, ints: r.P(0.3), ghosts: r.P(0.1)})
	ps := g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.8), raw: 0.35, maxRec: 2})
	nt := r.In(1, 2)
	for t := 0; t < nt; t++ {
		var ops []*Op
		n := r.In(1, 3)
		for i := 0; i < n; i++ {
			p := ps[r.N(len(ps))]
			op := g.searchOp(p, d)
			if r.P(0.06) {
				op = &Op{K: "pfind", D: d, Text: g.p.Paths[p].Text}
			}
			do := "panic"
			if i == n-1 && r.P(0.2) {
				do = "goexit"
			}
			if h := g.place(g.dryRun(p, d), do, r.N(nThrow)); h != nil {
				if h.On == "cap" && op.K != "search" {
					op.K = "search"
					op.P = p
				}
				op.Hooks = append(op.Hooks, h)
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

// C05: searches after aborted ones.
func genC05(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{mapp: 0.1, ints: r.P(0.3)})
		for _, p := range g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.8), raw: 0.3, maxRec: 2}) {
			pairs = append(pairs, [2]int{p, d})
		}
	}
	faulty := func(goexit bool) *Op {
		q := pairs[r.N(len(pairs))]
		op := g.searchOp(q[0], q[1])
		do := "panic"
		if goexit {
			do = "goexit"
		}
		if h := g.place(g.dryRun(q[0], q[1]), do, r.N(nThrow)); h != nil {
			if h.On == "cap" {
				op.K = "search"
			}
			op.Hooks = append(op.Hooks, h)
		}
		return op
	}
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(2, 5); i < n; i++ {
			switch {
			case r.P(0.45):
				o := faulty(false)
				if r.P(0.015) {
					o = g.repeated(o)
				}
				ops = append(ops, o)
			case r.P(0.12):
				ops = append(ops, &Op{K: "parse", Text: mangle(r.Pick(rawTexts), r)})
			case r.P(0.1):
				ops = append(ops, g.otherCall(pairs[r.N(len(pairs))]))
			case r.P(0.3):
				// aborted inside another search, whose caller carries on
				q := pairs[r.N(len(pairs))]
				op := &Op{K: "search", P: q[0], D: q[1]}
				if h := g.place(g.dryRun(q[0], q[1]), "ops", 0); h != nil {
					h.Ops = []*Op{faulty(false)}
					if r.P(0.4) {
						q := pairs[r.N(len(pairs))]
						h.Ops = append(h.Ops, g.searchOp(q[0], q[1]))
					}
					op.Hooks = append(op.Hooks, h)
				}
				ops = append(ops, op)
			default:
				q := pairs[r.N(len(pairs))]
				ops = append(ops, g.searchOp(q[0], q[1]))
			}
		}
		if r.P(0.12) {
			ops = append(ops, faulty(true))
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	for _, q := range pairs {
		g.p.Post = append(g.p.Post, &Op{K: "search", P: q[0], D: q[1]})
		if r.P(0.3) {
			g.p.Post = append(g.p.Post, &Op{K: "pfind", D: q[1], Text: g.p.Paths[q[0]].Text})
		}
	}
	g.mode(g.estimate())
}

// C06: the callback and the model call the library.
func genC06(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{small: r.P(0.8), max: r.In(4, 14), mapp: 0.15, ints: r.P(0.3)})
		for _, p := range g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.8), raw: 0.3, maxRec: 2}) {
			pairs = append(pairs, [2]int{p, d})
		}
	}
	var op func(depth int) *Op
	op = func(depth int) *Op {
		q := pairs[r.N(len(pairs))]
		if depth > 0 && r.P(0.2) {
			return g.otherCall(q)
		}
		o := g.searchOp(q[0], q[1])
		if depth < 2 {
			for i, n := 0, r.In(0, 2-depth); i < n || depth == 0 && i == 0; i++ {
				h := g.place(g.dryRun(q[0], q[1]), "ops", 0)
				if h == nil {
					break
				}
				if h.On == "cap" {
					o.K = "search"
				}
				if r.P(0.15) {
					h.Every = r.In(1, 6)
				}
				for j, m := 0, r.In(1, 2); j < m; j++ {
					h.Ops = append(h.Ops, op(depth+1))
				}
				o.Hooks = append(o.Hooks, h)
			}
		}
		return o
	}
	for t, nt := 0, r.In(1, 2); t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 2); i < n; i++ {
			if r.P(0.03) {
				// many, one inside the other
				q := pairs[r.N(len(pairs))]
				in := g.searchOp(q[0], q[1])
				n := r.In(4, 40)
				if r.P(0.08) {
					n = r.In(60, 270)
				}
				for j := 0; j < n; j++ {
					if r.P(0.2) {
						q = pairs[r.N(len(pairs))]
					}
					h := g.place(g.dryRun(q[0], q[1]), "ops", 0)
					if h == nil {
						continue
					}
					h.Ops = []*Op{in}
					in = g.searchOp(q[0], q[1])
					if h.On == "cap" {
						in.K = "search"
					}
					in.Hooks = []*Hook{h}
				}
				ops = append(ops, in)
				continue
			}
			ops = append(ops, op(0))
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	for _, q := range pairs {
		if r.P(0.5) {
			g.p.Post = append(g.p.Post, &Op{K: "search", P: q[0], D: q[1]})
		}
	}
	g.mode(g.estimate())
}

// C07: what is reported, judged by a reference.
func genC07(g *gen) {
	r := g.r
	if r.P(0.3) {
		genSame(g, false)
		return
	}
	ints := r.P(0.4)
	d := g.doc(docOpt{max: r.In(4, 30), mapp: 0.3, ints: ints, weird: r.P(0.3), exact: true})
	var ops []*Op
	for i, n := 0, r.In(2, 5); i < n; i++ {
		p := g.path(d, pathOpt{filters: r.P(0.6), maxRec: 2, weird: true})
		if _, ok := refSearch(g.p.Docs[d].Root, g.p.Paths[p].AST, nil, nil); !ok {
			g.dropPath()
			continue
		}
		ops = append(ops, &Op{K: "search", P: p, D: d})
		if r.P(0.25) {
			ops = append(ops, &Op{K: "find", P: p, D: d})
		}
	}
	if len(ops) > 0 {
		g.p.Tasks = [][]*Op{ops}
	}
	g.p.MapOrder = r.N(3)
	g.p.Mode = simrt.Mode{Kind: "seq"}
}

func (g *gen) subtree() *DNode {
	r := g.r
	dg := &docGen{r: r, budget: r.In(1, 5), nulls: r.P(0.1)}
	return dg.node(r.In(0, 2))
}

// mut changes document d while or before it is searched.
func (g *gen) mut(d int, shape string) *Mut {
	r := g.r
	root := g.p.Docs[d].Root
	m := &Mut{D: d, V: g.subtree()}
	m.Key = r.Pick([]string{"a", "b", "c", "d", "n0", "n1", "s0", "fresh"})
	m.Ix = r.N(4)
	switch r.N(12) {
	case 0, 1, 2:
		m.K = "set"
	case 3, 4, 5:
		m.K = "del"
	case 6, 7:
		m.K = "push"
	case 8, 9:
		m.K = "pop"
	default:
		m.K = "rep"
	}
	if shape == "objects" && (m.K == "push" || m.K == "pop") {
		m.K = "set"
	}
	if r.P(0.5) {
		m.T = -1 - r.N(3)
		return m
	}
	// a container that exists at the start, and a member it has
	var cs []*DNode
	ids := map[*DNode]int{}
	next := 0
	var walk func(n *DNode)
	walk = func(n *DNode) {
		ids[n] = next
		next++
		if n.Kind != 'v' {
			cs = append(cs, n)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(root)
	if len(cs) == 0 {
		m.T = 0
		return m
	}
	n := cs[r.N(len(cs))]
	m.T = ids[n]
	if r.P(0.1) {
		m.T = next + r.N(6) // one that is added later
	}
	if n.Kind == 'o' {
		if m.K == "push" || m.K == "pop" || m.K == "rep" {
			m.K = r.Pick([]string{"set", "del"})
		}
		if len(n.Keys) > 0 && r.P(0.8) {
			m.Key = n.Keys[r.N(len(n.Keys))]
		}
	} else {
		if m.K == "set" || m.K == "del" {
			m.K = r.Pick([]string{"push", "pop", "rep"})
		}
		if shape == "objects" {
			m.K = "rep"
		}
	}
	return m
}

func (g *gen) muts(d int, shape string) []*Mut {
	var l []*Mut
	for i, n := 0, g.r.In(1, 3); i < n; i++ {
		l = append(l, g.mut(d, shape))
	}
	return l
}

// liveRun makes searches during which the document changes.
func genLive(g *gen, po pathOpt, do docOpt) {
	r := g.r
	d := g.doc(do)
	ps := g.pathsFor(d, r.In(1, 2), po)
	nt := 1
	if r.P(0.4) {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 3); i < n; i++ {
			p := ps[r.N(len(ps))]
			op := &Op{K: "search", P: p, D: d}
			for j, k := 0, r.In(0, 3); j < k; j++ {
				if h := g.place(g.dryRun(p, d), "mut", 0); h != nil {
					h.Muts = g.muts(d, "")
					op.Hooks = append(op.Hooks, h)
				}
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	if r.P(0.5) {
		var ops []*Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			m := g.muts(d, "")
			for _, x := range m {
				if x.T < 0 {
					x.T = 0
				}
			}
			ops = append(ops, &Op{K: "mut", Muts: m})
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

func genC08(g *gen) {
	r := g.r
	genLive(g, pathOpt{filters: r.P(0.5), raw: 0.1, maxRec: 2}, docOpt{ints: r.P(0.3), ghosts: r.P(0.2)})
}

// genSame presents one document through several models. What is found must
// be the same: the paths need not be ones the reference knows.
func genSame(g *gen, ghosts bool) {
	r := g.r
	g.p.Kind = "same"
	a := g.doc(docOpt{orders: []string{"stable", "perm"}, ints: r.P(0.5), weird: r.P(0.5)})
	da := g.p.Docs[a]
	n := r.In(1, 2)
	for i := 0; i < n; i++ {
		b := *da
		b.Root = da.Root.clone()
		b.Handle = r.Pick(handles)
		b.UncMod, b.Spare, b.Absent = r.P(0.2), r.P(0.3), r.Pick([]string{"nil", "junk"})
		switch {
		case ghosts:
			b.Ghosts = []string{r.Pick([]string{"a", "b", "n0", "gone", "c", "s0"}), r.Pick([]string{"gone", "zz", "d", "0"})}
		case r.P(0.3):
			b.Model = "map"
		case r.P(0.3):
			b.Order, b.OSeed = r.Pick([]string{"stable", "perm", "shuf"}), r.U64()>>12
		}
		g.p.Docs = append(g.p.Docs, &b)
	}
	var ops []*Op
	for i, k := 0, r.In(1, 4); i < k; i++ {
		p := g.pathFor(a, pathOpt{filters: true, raw: 0.8, maxRec: 2, weird: true}, r.P(0.9))
		for d := range g.p.Docs {
			ops = append(ops, &Op{K: "search", P: p, D: d})
			if r.P(0.1) {
				ops = append(ops, &Op{K: "find", P: p, D: d})
			}
		}
	}
	g.p.Tasks = [][]*Op{ops}
	g.p.MapOrder = r.N(3)
	g.p.Mode = simrt.Mode{Kind: "seq"}
}

// checkSame compares what was found through different models.
func checkSame(x *exec) []viol {
	var vs []viol
	first := map[int]*out{}
	for _, o := range x.outs() {
		if o.op.K != "search" && o.op.K != "find" || o.kind == "goexit" {
			continue
		}
		if o.kind != "ok" {
			vs = append(vs, viol{"outcome", o.what() + ": " + o.outcome()})
			continue
		}
		f := first[o.op.P]
		if f == nil {
			first[o.op.P] = o
			continue
		}
		var got, want []string
		want = append(want, f.results()...)
		da, db := x.docs[f.op.D].spec, x.docs[o.op.D].spec
		if f.op.K != "search" {
			continue
		}
		if o.op.K == "find" {
			if x.docs[o.op.D].isMap {
				continue
			}
			for i := range want {
				want[i] = want[i][strings.LastIndexByte(want[i], '#'):]
			}
		}
		got = append(got, o.results()...)
		if db.Model == "map" || da.Order != db.Order || da.OSeed != db.OSeed || db.Order == "shuf" {
			sort.Strings(got)
			sort.Strings(want)
		}
		if t := diff(got, want); t != "" {
			vs = append(vs, viol{"result", o.what() + " (" + db.Model + " " + db.Handle + "): " + strings.ReplaceAll(t, "alone", "in document "+itoa(f.op.D)+", the same through another model,")})
		}
	}
	return vs
}

// C09: listed members that are not there, lookups that fail.
func genC09(g *gen) {
	r := g.r
	if r.P(0.2) {
		genSame(g, true)
		return
	}
	if r.P(0.35) {
		genLive(g, pathOpt{filters: r.P(0.5), raw: 0.1, maxRec: 2}, docOpt{ints: r.P(0.3), ghosts: r.P(0.7), vanish: r.P(0.5)})
		g.p.Kind = "live"
		return
	}
	d := g.doc(docOpt{max: r.In(4, 30), mapp: 0.12, ints: r.P(0.4), weird: r.P(0.2), ghosts: r.P(0.8), vanish: r.P(0.5), exact: true})
	var ops []*Op
	for i, n := 0, r.In(2, 5); i < n; i++ {
		p := g.path(d, pathOpt{filters: r.P(0.6), maxRec: 2, weird: true})
		if _, ok := refSearch(g.p.Docs[d].Root, g.p.Paths[p].AST, nil, nil); !ok {
			g.dropPath()
			continue
		}
		ops = append(ops, &Op{K: "search", P: p, D: d})
		if r.P(0.15) {
			ops = append(ops, &Op{K: "find", P: p, D: d})
		}
	}
	if len(ops) > 0 {
		g.p.Tasks = [][]*Op{ops}
	}
	g.p.Mode = simrt.Mode{Kind: "seq"}
}

// C10: how the library uses the model.
func genC10(g *gen) {
	r := g.r
	po := pathOpt{filters: r.P(0.8), raw: 0.4, maxRec: 2, weird: true}
	do := docOpt{ints: r.P(0.4), weird: r.P(0.3), ghosts: r.P(0.2), vanish: r.P(0.1)}
	if r.P(0.4) {
		genLive(g, po, do)
		return
	}
	nt := r.In(1, 3)
	var ds []int
	var pairs [][2]int
	for i, n := 0, r.In(1, 2); i < n; i++ {
		d := g.doc(do)
		ds = append(ds, d)
		for _, p := range g.pathsFor(d, r.In(1, 3), po) {
			pairs = append(pairs, [2]int{p, d})
			if d > 0 && g.usable(p, 0) {
				pairs = append(pairs, [2]int{p, 0})
			}
		}
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			q := pairs[r.N(len(pairs))]
			op := g.searchOp(q[0], q[1])
			if r.P(0.1) {
				op = &Op{K: "pfind", D: q[1], Text: g.p.Paths[q[0]].Text}
			} else if r.P(0.15) {
				if h := g.place(g.dryRun(q[0], q[1]), "panic", r.N(nThrow)); h != nil {
					op.K = "search"
					op.Hooks = append(op.Hooks, h)
				}
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

// C11: a document that grows while it is searched.
func genC11(g *gen) {
	r := g.r
	d := g.doc(docOpt{small: true, max: r.In(3, 10), orders: []string{"stable", "perm", "shuf"}, mapp: 0.15})
	filters := r.P(0.25)
	p := g.pathFor(d, pathOpt{live: true, maxRec: 1, filters: filters}, true)
	dr := g.dryRun(p, d)
	if dr.kind == "ok" && (dr.rec.ncaps > 12 || dr.rec.calls > 150 || dr.rec.ncaps == 0) {
		return
	}
	op := &Op{K: "search", P: p, D: d}
	h := &Hook{On: "cap", N: 1, Every: 1, Do: "grow"}
	if r.P(0.3) {
		h.Val = r.N(2)
	}
	if !filters && r.P(0.35) && g.p.Docs[d].Model == "sim" {
		// With a filter, other containers than the one being enumerated would
		// grow, one as often as the filter looks at it.
		h.On, h.Every = "call", r.In(3, 6)
		h.Val = 0
	}
	op.Hooks = []*Hook{h}
	g.p.Tasks = [][]*Op{{op}}
	if r.P(0.3) {
		// another caller makes the document grow
		h.On, h.N, h.Every = "cap", 1, 1
		g.p.Tasks = append(g.p.Tasks, []*Op{{K: "search", P: p, D: d, Hooks: []*Hook{{On: "cap", N: 1, Every: 1, Do: "grow"}}}})
	}
	g.p.Mode = simrt.Mode{Kind: "call", Mean: 3}
}

// C12: callers keep and overwrite what they were given.
func genC12(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		o := docOpt{mapp: 0.2, ints: r.P(0.3)}
		if r.P(0.3) {
			o.max = r.In(20, 60)
		}
		d := g.doc(o)
		for _, p := range g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.6), raw: 0.2, maxRec: 2}) {
			pairs = append(pairs, [2]int{p, d})
		}
		if r.P(0.35) {
			// one that finds much
			g.p.Paths = append(g.p.Paths, &PathSpec{Text: r.Pick([]string{"$..", "$[*]", "$.*", "$..*", "$..[*]", "$.*.*"})})
			if p := len(g.p.Paths) - 1; g.usable(p, d) {
				pairs = append(pairs, [2]int{p, d})
			} else {
				g.dropPath()
			}
		}
	}
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			q := pairs[r.N(len(pairs))]
			op := g.searchOp(q[0], q[1])
			dr := g.dryRun(q[0], q[1])
			if r.P(0.6) && dr.rec.ncaps > 0 {
				op.K = "search"
				h := &Hook{On: "cap", N: 1 + r.N(dr.rec.ncaps), Do: "scribble", Val: r.N(1 << 14)}
				if r.P(0.4) {
					h.Every = r.In(1, 3)
				}
				op.Hooks = append(op.Hooks, h)
			}
			if r.P(0.15) {
				if h := g.place(dr, "ops", 0); h != nil {
					q := pairs[r.N(len(pairs))]
					h.Ops = append(h.Ops, g.searchOp(q[0], q[1]))
					if h.On == "cap" {
						op.K = "search"
					}
					op.Hooks = append(op.Hooks, h)
				}
			}
			if r.P(0.08) {
				if h := g.place(dr, "panic", r.N(nThrow)); h != nil {
					op.K = "search"
					op.Hooks = append(op.Hooks, h)
				}
			}
			if op.K == "find" && r.P(0.6) {
				op.After = 1 + r.N(15)
			}
			if r.P(0.01) && len(op.Hooks) == 0 {
				g.repeated(op)
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

func genC13(g *gen) {
	r := g.r
	genLive(g, pathOpt{live: true, maxRec: 2}, docOpt{max: r.In(5, 24), ghosts: r.P(0.1)})
}

// C14: one caller is held up inside a search.
func genC14(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{mapp: 0.1, ints: r.P(0.3)})
		for _, p := range g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.8), raw: 0.3, maxRec: 2}) {
			pairs = append(pairs, [2]int{p, d})
		}
	}
	stalled := func() []*Op {
		q := pairs[r.N(len(pairs))]
		op := g.searchOp(q[0], q[1])
		if r.P(0.1) {
			op = &Op{K: "pfind", D: q[1], Text: g.p.Paths[q[0]].Text}
		}
		if h := g.place(g.dryRun(q[0], q[1]), "stall", 0); h != nil {
			if h.On == "cap" {
				op = &Op{K: "search", P: q[0], D: q[1]}
			}
			op.Hooks = append(op.Hooks, h)
		}
		ops := []*Op{op}
		if r.P(0.2) {
			ops = append([]*Op{g.searchOp(q[0], q[1])}, ops...)
		}
		return ops
	}
	n := r.In(1, 2)
	if r.P(0.04) {
		n = r.Pick2([]int{4, 8, 16, 32, 64, 100}) + r.N(3)
	}
	for t := 0; t < n; t++ {
		g.p.Tasks = append(g.p.Tasks, stalled())
	}
	for t, n := 0, r.In(1, 2); t < n; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			q := pairs[r.N(len(pairs))]
			switch {
			case r.P(0.3):
				ops = append(ops, g.otherCall(q))
			default:
				ops = append(ops, g.searchOp(q[0], q[1]))
			}
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

// C15: documents change between searches; paths are used on many documents.
func genC15(g *gen) {
	r := g.r
	nt := 1
	if r.P(0.3) {
		nt = 2
	}
	nd := r.In(1, 2)
	var ps []int
	var own [][]int
	handle := r.Pick(handles)
	mapp := []float64{0, 1, 0.4}[r.N(3)]
	for t := 0; t < nt; t++ {
		var l []int
		for i := 0; i < nd; i++ {
			d := g.doc(docOpt{mapp: mapp, ints: r.P(0.3)})
			if g.p.Docs[d].Model == "sim" && r.P(0.6) {
				g.p.Docs[d].Handle = handle
			}
			if d > 0 && r.P(0.5) {
				// like the first, but not the same
				g.p.Docs[d].Root = g.p.Docs[0].Root.clone()
				if n := g.p.Docs[d].Root; len(n.Kids) > 0 {
					i := r.N(len(n.Kids))
					n.Kids[i] = g.subtree()
				}
			}
			l = append(l, d)
			for _, p := range g.pathsFor(d, r.In(1, 2), pathOpt{filters: r.P(0.7), raw: 0.25, maxRec: 2}) {
				ps = append(ps, p)
			}
		}
		own = append(own, l)
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(3, 8); i < n; i++ {
			d := own[t][r.N(len(own[t]))]
			p := ps[r.N(len(ps))]
			if r.P(0.4) && len(ops) > 0 {
				m := g.muts(d, "")
				for _, x := range m {
					if x.T < 0 {
						x.T = 0
					}
				}
				ops = append(ops, &Op{K: "mut", Muts: m})
				if r.P(0.7) {
					continue
				}
			}
			if !g.usable(p, d) {
				continue
			}
			o := g.searchOp(p, d)
			if r.P(0.01) {
				g.repeated(o)
			}
			ops = append(ops, o)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.p.MapOrder = r.N(2)
	g.mode(g.estimate())
}

// Judging.

// baseline is what an operation comes to when it is alone, on a document of
// its own, with a path of its own, in a process that has done nothing else.
func baseline(p *Plan, t *tree, op *Op, root *DNode, adopt bool, steps int, cnt *counters) *out {
	simrt.RestoreGlobals("lib.")
	pl := &Plan{Prop: p.Prop, Seed: p.Seed, MapOrder: p.MapOrder}
	x := newExec(pl, cnt)
	for i, d := range p.Docs {
		switch {
		case i == op.D && adopt:
			x.docs = append(x.docs, adoptDoc(x, i, d, root))
		case i == op.D:
			x.docs = append(x.docs, newSimDoc(x, i, d))
		default:
			x.docs = append(x.docs, nil)
		}
	}
	b := *op
	b.Hooks, b.P = nil, 0
	x.trees = []*tree{t}
	x.paths = []gojsonpath.Path{{}}
	if t != nil && op.K != "pfind" {
		x.paths[0], _ = t.fresh()
	}
	return runOne(x, &b, steps)
}

func (o *out) results() []string {
	switch o.op.K {
	case "search":
		if o.rec.doc == nil {
			return o.res
		}
		var l []string
		for _, c := range o.rec.caps {
			l = append(l, c.text)
		}
		if o.rec.doc.isMap {
			sort.Strings(l)
		}
		return l
	case "find", "pfind":
		return o.res
	case "quote", "join", "fresh":
		return []string{o.text}
	}
	return nil
}

func (o *out) outcome() string {
	switch o.kind {
	case "err":
		return "error " + o.err
	case "panic":
		return "panic " + panicText(o.pv)
	}
	return o.kind
}

func (o *out) what() string {
	s := "task " + itoa(o.ts.id) + ", "
	if o.depth > 0 {
		s += "inside another search, "
	}
	switch o.op.K {
	case "search", "find":
		return s + o.op.K + " " + o.tree.String() + " in document " + itoa(o.op.D)
	case "pfind":
		return s + "ParseAndFind " + o.op.Text + " in document " + itoa(o.op.D)
	case "parse":
		return s + "Parse " + o.op.Text
	}
	return s + o.op.K + " " + o.op.Text
}

func diff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "result " + itoa(i) + " is " + a[i] + ", alone there are only " + itoa(len(b))
		}
		if a[i] != b[i] {
			return "result " + itoa(i) + " is " + a[i] + ", alone it is " + b[i]
		}
	}
	if len(b) > len(a) {
		return "there are " + itoa(len(a)) + " results, alone the next is " + b[len(a)]
	}
	return ""
}

func (x *exec) outs() []*out {
	var l []*out
	for _, ts := range x.tasks {
		l = append(l, ts.outs...)
	}
	return l
}

// compare compares an outcome with what it is alone.
func compare(x *exec, o *out, cache map[string]*out) *viol {
	switch o.op.K {
	case "mut", "build":
		if o.kind == "panic" {
			b, err := o.tree.fresh()
			_ = b
			if err != "panic: "+panicText(o.pv) {
				return &viol{"result", o.what() + ": " + o.outcome()}
			}
		}
		return nil
	case "parse":
		return compareParse(x, o, cache, false)
	}
	key := ""
	if o.op.K == "pfind" {
		key = "T" + o.op.Text
	} else if o.tree != nil {
		key = o.op.K + o.tree.String()
	} else {
		key = o.op.K + o.op.Text
		for _, p := range o.op.Parts {
			key += "\x00" + strconv.Quote(p)
		}
	}
	key += "\x00" + itoa(o.op.D)
	b := cache[key]
	if b == nil || x.keepDocs {
		root := (*DNode)(nil)
		if o.rec != nil {
			root = o.doc
		}
		b = baseline(x.plan, o.tree, o.op, root, o.doc != nil, 3000000, x.cnt)
		cache[key] = b
	}
	if b.kind == "" {
		return nil
	}
	if o.outcome() != b.outcome() {
		return &viol{"result", o.what() + ": " + o.outcome() + ", alone: " + b.outcome()}
	}
	if d := diff(o.results(), b.results()); d != "" {
		return &viol{"result", o.what() + ": " + d}
	}
	return nil
}

func checkBaseline(x *exec) []viol {
	var vs []viol
	cache := map[string]*out{}
	for _, o := range x.outs() {
		if o.abort || o.kind == "goexit" {
			continue
		}
		if v := compare(x, o, cache); v != nil {
			vs = append(vs, *v)
		}
	}
	return vs
}

// mirror is a document that has a member for every word in the texts of the
// plan, so that paths that name different keys find different things.
func (x *exec) mirror() gojsonpath.DocModel {
	if x.mirrored == nil {
		words := map[string]bool{}
		x.plan.eachOp(func(o *Op) {
			if o.K != "parse" && o.K != "pfind" || len(words) > 40 {
				return
			}
			var q rune
			w := ""
			flush := func() {
				if len(words) <= 40 && len(w) < 200 {
					words[w] = true
				}
				w = ""
			}
			for _, c := range o.Text {
				switch {
				case q != 0 && c == q:
					flush()
					q = 0
				case q != 0:
					w += string(c)
				case c == '\'' || c == '"':
					flush()
					q = c
				case unicode.IsLetter(c) || unicode.IsDigit(c) || c == '_' || c == '-':
					w += string(c)
				default:
					flush()
				}
			}
			flush()
		})
		if len(words) == 0 {
			return nil
		}
		var l []string
		for w := range words {
			l = append(l, w)
		}
		sort.Strings(l)
		m := map[string]any{}
		var a []any
		for i, w := range l {
			in := map[string]any{"len": float64(i)}
			for j, v := range l {
				in[v] = "m" + itoa(i) + "." + itoa(j)
			}
			m[w] = in
			a = append(a, w)
		}
		m["all"] = a
		x.mirrored = &gojsonpath.MapModel{Doc: m}
	}
	return x.mirrored
}

// behave is what a path does to the documents of the plan.
func behave(x *exec, p gojsonpath.Path) (l []string) {
	for i := 0; i <= len(x.plan.Docs); i++ {
		var m gojsonpath.DocModel
		if i < len(x.plan.Docs) {
			d := *x.plan.Docs[i]
			d.Model = "map"
			m = newSimDoc(x, i, &d).model()
		} else if m = x.mirror(); m == nil {
			break
		}
		l = append(l, func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = "panic " + panicText(r)
				}
			}()
			res, err := gojsonpath.Find(m, p)
			if err != nil {
				return "error " + err.Error()
			}
			var t []string
			for _, v := range res {
				t = append(t, canonStr(v))
			}
			sort.Strings(t)
			return strings.Join(t, " ")
		}())
	}
	return l
}

type parsed struct {
	outcome string
	does    []string
}

var parseCache = map[string]*out{}

// compareParse compares what Parse came to with what it is alone.
func compareParse(x *exec, o *out, cache map[string]*out, cold bool) *viol {
	key := "P" + o.op.Text
	b := cache[key]
	if b == nil {
		simrt.RestoreGlobals("lib.")
		if cold {
			simrt.RestoreGlobals("parser.")
			simrt.RestoreGlobals("antlr.")
		}
		pl := &Plan{Prop: x.plan.Prop, Seed: x.plan.Seed}
		y := newExec(pl, x.cnt)
		b = runOne(y, &Op{K: "parse", Text: o.op.Text}, 40000000)
		if b.kind == "ok" {
			b.res = behave(x, b.path)
		}
		cache[key] = b
	}
	if o.outcome() != b.outcome() {
		return &viol{"result", o.what() + ": " + o.outcome() + ", alone: " + b.outcome()}
	}
	if o.kind == "ok" {
		if d := diff(behave(x, o.path), b.res); d != "" {
			return &viol{"result", o.what() + ": what the path finds differs: " + d}
		}
	}
	return nil
}

func checkC02(x *exec) []viol {
	var vs []viol
	cache := map[string]*out{}
	cold := simrt.NewRNG(x.plan.Seed).P(0.1)
	for _, o := range x.outs() {
		var v *viol
		if o.op.K == "parse" {
			v = compareParse(x, o, cache, cold)
		} else {
			v = compare(x, o, cache)
		}
		if v != nil {
			vs = append(vs, *v)
		}
	}
	return vs
}

func sameThrown(got, want any) bool {
	if w, ok := want.(runErr); ok {
		e, ok := got.(runtime.Error)
		return ok && strings.Contains(e.Error(), string(w))
	}
	switch got.(type) {
	case *thrown, *thrownList, *wrapped, error, string, int, bool, thrownVal:
		return got == want
	}
	return false
}

func checkC04(x *exec) []viol {
	var vs []viol
	cache := map[string]*out{}
	for _, o := range x.outs() {
		if !o.abort {
			if o.kind == "goexit" {
				continue
			}
			if v := compare(x, o, cache); v != nil {
				vs = append(vs, *v)
			}
			continue
		}
		switch o.kind {
		case "panic":
			if !sameThrown(o.pv, o.want) {
				vs = append(vs, viol{"panic", o.what() + ": " + thrownText(o.want) + " was thrown, the caller got " + thrownText(o.pv)})
			}
		case "goexit":
			if o.wantKind == "panic" {
				vs = append(vs, viol{"panic", o.what() + ": the panic became an exit"})
			}
		default:
			vs = append(vs, viol{"panic", o.what() + ": the model or the callback panicked or exited, but the call returned normally (" + o.outcome() + ")"})
		}
		if o.kind == "panic" && o.wantKind == "goexit" {
			vs = append(vs, viol{"panic", o.what() + ": the exit became a panic"})
		}
		if o.op.K == "search" && !o.rec.doc.isMap {
			b := baseline(x.plan, o.tree, o.op, nil, false, 3000000, x.cnt)
			got, want := o.results(), b.results()
			if len(got) > len(want) {
				vs = append(vs, viol{"prefix", o.what() + ": more matches than without the fault"})
			} else if d := diff(got, want[:len(got)]); d != "" {
				vs = append(vs, viol{"prefix", o.what() + ": what was delivered before the fault differs: " + d})
			}
		}
	}
	return vs
}

func thrownText(v any) string {
	return typeName(v) + " " + panicText(v)
}

func refOf(x *exec, o *out) ([]*chain, bool) {
	d := x.docs[o.op.D]
	var phantom func(*DNode, string) bool
	if d.spec.Vanish > 0 && !d.isMap {
		phantom = func(n *DNode, k string) bool { c := n.key(k); return c == nil || d.vanished(c) }
	}
	order := func(n *DNode) []int { return d.keyOrder(n, 0) }
	return refSearch(d.root, o.tree.ast(), phantom, order)
}

// checkRef compares results with the reference.
func checkRef(x *exec, ordered bool) []viol {
	var vs []viol
	for _, o := range x.outs() {
		if o.op.K != "search" && o.op.K != "find" || o.kind == "goexit" {
			continue
		}
		if o.kind != "ok" {
			vs = append(vs, viol{"outcome", o.what() + ": " + o.outcome()})
			continue
		}
		ref, ok := refOf(x, o)
		if !ok {
			continue
		}
		var want []string
		for _, c := range ref {
			switch {
			case o.op.K == "search":
				want = append(want, c.String()+"#"+itoa(c.n.ID))
			case x.docs[o.op.D].isMap:
				want = append(want, canonStr(c.n.raw))
			default:
				want = append(want, "#"+itoa(c.n.ID))
			}
		}
		got := append([]string(nil), o.results()...)
		d := x.docs[o.op.D]
		if d.isMap || d.spec.Order == "shuf" || !ordered {
			sort.Strings(got)
			sort.Strings(want)
		}
		if t := diff(got, want); t != "" {
			vs = append(vs, viol{"result", o.what() + ": " + strings.ReplaceAll(t, "alone", "by the reference")})
		}
	}
	return vs
}

func checkC07(x *exec) []viol {
	if x.plan.Kind == "same" {
		return checkSame(x)
	}
	return checkRef(x, true)
}

func checkC08(x *exec) []viol {
	var vs []viol
	for _, o := range x.outs() {
		if o.rec == nil || o.op.K != "search" {
			continue
		}
		a := o.tree.ast()
		if a == nil {
			continue
		}
		for _, c := range o.rec.caps {
			if c.chain != nil && ways(c.chain, a, true) == 0 {
				vs = append(vs, viol{"pattern", o.what() + " reported " + c.text + ", which it does not address"})
				break
			}
		}
	}
	return vs
}

func checkC09(x *exec) []viol {
	if x.plan.Kind == "live" {
		return nil
	}
	if x.plan.Kind == "same" {
		return checkSame(x)
	}
	return checkRef(x, false)
}

func checkC10(x *exec) []viol {
	var vs []viol
	for _, ts := range x.tasks {
		for _, r := range ts.recs {
			for _, k := range r.keys {
				for i := range k.want {
					if k.got[i] != k.want[i] {
						vs = append(vs, viol{"keys", "a slice of keys the model had returned was overwritten: " + k.want[i] + " became " + k.got[i]})
						break
					}
				}
			}
		}
	}
	return vs
}

func checkC11(x *exec) []viol { return nil }

func sameAny(a, b any) bool {
	switch p := a.(type) {
	case hUnc:
		q, ok := b.(hUnc)
		return ok && p.n == q.n
	case map[string]any:
		q, ok := b.(map[string]any)
		return ok && reflect.ValueOf(p).Pointer() == reflect.ValueOf(q).Pointer()
	case []any:
		q, ok := b.([]any)
		return ok && len(p) == len(q) && (len(p) == 0 || &p[0] == &q[0])
	}
	switch b.(type) {
	case hUnc, map[string]any, []any:
		return false
	}
	return sameVal(a, b)
}

func checkC12(x *exec) []viol {
	var vs []viol
	for _, o := range x.outs() {
		if len(o.ret) != len(o.snap) {
			vs = append(vs, viol{"kept", o.what() + ": the result changed its length"})
		}
		for i := range o.ret {
			if !sameAny(o.ret[i], o.snap[i]) {
				vs = append(vs, viol{"kept", o.what() + ": element " + itoa(i) + " of a result changed after Find had returned it"})
				break
			}
		}
		for i := range o.ext {
			if !sameAny(o.ext[i], o.extSnap[i]) {
				vs = append(vs, viol{"kept", o.what() + ": the caller appended to the result; element " + itoa(i) + " of what it made changed"})
				break
			}
		}
		if o.rec == nil {
			continue
		}
		for k, c := range o.rec.caps {
			if !samePaths(c.path.P, c.segs) {
				vs = append(vs, viol{"kept", o.what() + ": match " + itoa(k) + " (" + c.text + ") changed after it had been reported"})
				break
			}
			if !samePaths(c.ext.P, c.extSegs) {
				vs = append(vs, viol{"kept", o.what() + ": a path the caller had made of match " + itoa(k) + " (" + c.text + ") changed"})
				break
			}
		}
	}
	if len(vs) > 0 {
		return vs
	}
	return checkBaseline(x)
}

func samePaths(p, q []gojsonpath.Segment) bool {
	if len(p) != len(q) {
		return false
	}
	for i, a := range p {
		b := q[i]
		if a.Type != b.Type || a.Name != b.Name || a.Index != b.Index || !sameAny(a.Node, b.Node) {
			return false
		}
	}
	return true
}

func checkC13(x *exec) []viol {
	var vs []viol
	for _, o := range x.outs() {
		if o.op.K != "search" {
			continue
		}
		if o.kind != "ok" {
			if o.kind == "panic" || o.kind == "err" {
				vs = append(vs, viol{"outcome", o.what() + ": " + o.outcome()})
			}
			continue
		}
		a := o.tree.ast()
		if a == nil {
			continue
		}
		seen := map[*DNode]int{}
		for _, c := range o.rec.caps {
			if c.chain == nil {
				continue
			}
			seen[c.last]++
			if seen[c.last] == 1 {
				continue
			}
			if n := ways(c.chain, a, true); seen[c.last] > n {
				vs = append(vs, viol{"repeated", o.what() + " reported " + c.text + " " + itoa(seen[c.last]) + " times; it is addressed in " + itoa(n) + " ways"})
				break
			}
		}
		d := x.docs[o.op.D]
		for _, n := range d.nodes {
			if n == nil || n.born > o.rec.t0 || n.died <= o.rec.t1 {
				continue
			}
			c := chainOf(n)
			if c == nil {
				continue
			}
			if w := ways(c, a, true); w != seen[n] {
				vs = append(vs, viol{"missed", o.what() + " reported " + c.String() + " " + itoa(seen[n]) + " times; it was there all the time and is addressed in " + itoa(w) + " ways"})
				break
			}
		}
	}
	return vs
}

func chainOf(n *DNode) *chain {
	if n.parent == nil {
		return &chain{n: n, len: 1}
	}
	return chainOf(n.parent).child(n, n.name, n.ix)
}
