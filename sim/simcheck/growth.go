package main

import (
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

// C29: calls do not add up. The callers of a plan make their calls again and
// again, each time with another document and other texts, and the live heap is
// measured between.

func genC29(g *gen) {
	r := g.r
	d := g.doc(docOpt{max: r.In(3, 16), ints: r.P(0.3), small: true, orders: []string{"stable"}})
	var ps []int
	for i, n := 0, r.In(1, 3); i < n; i++ {
		if r.P(0.3) {
			g.p.Paths = append(g.p.Paths, &PathSpec{Text: r.Pick(growPaths)})
			if p := len(g.p.Paths) - 1; g.usable(p, d) {
				ps = append(ps, p)
				continue
			}
			g.dropPath()
		}
		ps = append(ps, g.pathFor(d, pathOpt{filters: r.P(0.5), raw: 0.3, maxRec: 2, weird: r.P(0.3)}, r.P(0.8)))
	}
	cost := 0
	nt := 1
	if r.P(0.3) {
		nt = r.In(2, 3)
	}
	parses := r.P(0.35)
	var call func(deep bool) *Op
	call = func(deep bool) *Op {
		p := ps[r.N(len(ps))]
		o := &Op{P: p, D: d}
		dry := g.dryRun(p, d)
		k := r.N(10)
		if parses && r.P(0.6) && len(g.p.Paths[p].Text) < 100 { // the cost of parsing is superlinear
			k = 10 + r.N(4)
		}
		switch {
		case k < 4:
			o.K = "search"
		case k < 6:
			o.K = "find"
		case k < 7:
			o.K = "build"
			o.Text = r.Pick([]string{"k%d", "a", "x'%d", ""})
			o.After = r.N(16)
		case k < 8:
			o.K = "derive"
			o.Text = r.Pick([]string{"k%d", "a", "long key %d"})
		case k < 9:
			o.K, o.Text = "quote", r.Pick([]string{"k%d", "it's %d", "\"%d\"", "\n%d", "é%d", "\"it's\" %d", "\\%d"})
		case k < 10:
			o.K, o.Text = "join", r.Pick([]string{"k%d", "it's %d", "$.a%d", "\"it's\" %d"})
		case k < 12:
			o.K, o.Text = "parse", growText(r, g.p.Paths[p].Text)
			cost += parseCost(o.Text)
		default:
			o.K, o.Text = "pfind", growText(r, g.p.Paths[p].Text)
			cost += parseCost(o.Text)
		}
		cost += 10
		switch o.K {
		case "search", "find", "pfind", "build", "derive":
			cost += dry.rec.calls
			o.To = r.N(4) // the document: new each time, mostly
			if r.P(0.5) {
				h := &Hook{On: "call", N: 1 + r.N(dry.rec.calls+1), Do: "panic", Val: r.N(nThrow), Every: r.In(1, 3)}
				if (o.K == "search" || o.K == "derive") && dry.rec.ncaps > 0 && r.P(0.6) {
					h.On, h.N = "cap", 1+r.N(dry.rec.ncaps)
					if deep && r.P(0.5) {
						h.Do, h.Ops = "ops", []*Op{call(false)}
					}
				}
				o.Hooks = append(o.Hooks, h)
			}
		}
		return o
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			was := cost
			if o := call(true); cost < 900 || t+i == 0 {
				ops = append(ops, o)
				continue
			}
			cost = was
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.p.Rounds = min(max(100000/(cost+1), 100), 500)
	g.p.Mode = simrt.Mode{Kind: "seq"}
	if nt > 1 && r.P(0.7) {
		g.p.Mode = simrt.Mode{Kind: "geo", Mean: []int{40, 150, 600}[r.N(3)]}
	}
}

// parseCost is about how many microseconds it takes to parse a text.
func parseCost(t string) int {
	return 400 + 12*len(t) + 1200*strings.Count(t, "?")
}

var growDebug = os.Getenv("SIM_GROWTH") != ""

// What depends on values that differ from call to call.
var growPaths = []string{"$[?(@=='x')]", "$..[?(@=='x')]", "$..[?(3<@)]", "$..[?(@*1==3)]", "$..[?(@>=7)]", "$..[?(@!='y')]", "$..[?(@===3)]",
	"$..[?(@ in ['x',3])]", "$..[?(@.s0=='x')]", "$..[?(@.n0+1>@.s0)]", "$..[?(-@<0)]", "$..[?(@%2==0)]", "$..[?(@==@.a)]", "$..[?(length(@)>1)]",
	"$..[?(@.length()>1)]", "$..[?(!@)]", "$..[?(@ && $.a)]", "$..*", "$[*]", "$..['a','b']", "$..[0,1]", "$..[-1:]", "$.a.b.c"}

// growText makes texts of one that differ in something.
func growText(r *simrt.RNG, t string) string {
	if strings.HasPrefix(t, "/") {
		t = "$.a"
	}
	if r.P(0.15) {
		return t
	}
	return t + r.Pick([]string{".k%d", "[%d]", "['k%d']", "..k%d", "[?(@.a==%d)]", "[?(@.s0=='x%d')]", "[%d:]", "[0,%d]", "['a',\"b%d\"]",
		// and some that are no paths
		"[%d", ".k%d[?(", " k%d ]", "[?(@.a==%d]", "['k%d]", "..%d..", "[?(length(@.a,%d))]", "[?(@.x%d)]()", "[%d.%d.%d]", "[?(nofunc(%d))]", "%%%d"})
}

// growth runs a plan's callers over and over, until it is clear that memory
// does not grow, or that it does not stop growing.
func (x *exec) growth(steps int) {
	p := x.plan
	w := &growWorld{x: x}
	for _, d := range p.Docs {
		w.same = append(w.same, w.document(d.Root, 0))
	}
	type size struct{ objects, bytes uint64 }
	measure := func() size {
		simsync.DrainPools()
		for i := 0; i < 400 && runtime.NumGoroutine() > x.threads; i++ {
			time.Sleep(50 * time.Microsecond)
		}
		runtime.GC()
		time.Sleep(time.Millisecond)
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return size{m.Mallocs - m.Frees, m.HeapAlloc}
	}
	total := &simrt.Result{}
	from := 0
	rounds := func(n int) bool {
		var users []any
		var fns []func()
		for t, ops := range p.Tasks {
			ts := &taskState{x: x, id: t}
			users = append(users, ts)
			ops := ops
			a := from
			fns = append(fns, func() {
				for i := a; i < n; i++ {
					for _, o := range ops {
						w.call(o, i*8+ts.id, 0)
					}
				}
			})
		}
		res := simrt.Run(simrt.Config{Seed: simrt.Mix(p.Seed, uint64(n)), Mode: p.Mode, MaxSteps: steps, MapOrder: p.MapOrder, Carry: from > 0}, users, fns)
		simrt.Forget() // it is on the heap, too
		from = n
		total.Steps += res.Steps
		total.Switches += res.Switches
		total.Hash = simrt.Mix(total.Hash, res.Hash)
		total.Leaked += res.Leaked
		total.Spawned += res.Spawned
		total.Blocks += res.Blocks
		total.Deadlock, total.StepLimit, total.Escaped = res.Deadlock, res.StepLimit, res.Escaped
		return res.Deadlock == "" && !res.StepLimit
	}
	x.res = total
	n := max(p.Rounds, 1)
	if !rounds(n) {
		return
	}
	last := measure()
	more := func(a, b size, n int) (bool, bool) {
		return b.objects > a.objects+uint64(n/16)+32, b.bytes > a.bytes+uint64(2*n)+2048
	}
	objs, bytes := true, true
	sizes := []size{last}
	for i := 0; ; i++ {
		if !rounds(2 * n) {
			return
		}
		s := measure()
		o, b := more(last, s, n)
		if growDebug {
			println(n, s.objects, s.bytes)
		}
		x.cnt.measured++
		last = s
		sizes = append(sizes, s)
		n *= 2
		if i == 0 && n < 1200 && (o || b) {
			continue // still warming up
		}
		objs, bytes = objs && o, bytes && b
		if !objs && !bytes {
			return
		}
		if n >= 8000 && i >= 4 {
			break
		}
	}
	// Each pair of windows has four times the rounds of the one before; tables
	// that fill up slowly do not keep up with that.
	l := sizes[len(sizes)-5:]
	objs = objs && l[4].objects-l[2].objects >= 2*(l[2].objects-l[0].objects)
	bytes = bytes && l[4].bytes-l[2].bytes >= 2*(l[2].bytes-l[0].bytes)
	if !objs && !bytes {
		return
	}
	what := "what the library keeps of calls that are over grows without end: "
	if objs {
		what += "the number of live objects"
	} else {
		what += "the live heap"
	}
	x.held = append(x.held, viol{"grows", what + " still grew after " + itoa(n/2) + " rounds"})
}

// growWorld is what the calls of a growth run share.
type growWorld struct {
	x    *exec
	same []any
}

// document makes a document that is like the template, but has other values.
func (w *growWorld) document(n *DNode, i int) any {
	switch n.Kind {
	case 'o':
		m := make(map[string]any, len(n.Kids)+1)
		for j, k := range n.Keys {
			m[k] = w.document(n.Kids[j], i)
		}
		if i > 0 {
			m["k"+itoa(i)] = float64(i)
		}
		return m
	case 'a':
		a := make([]any, len(n.Kids))
		for j := range n.Kids {
			a[j] = w.document(n.Kids[j], i)
		}
		return a
	}
	switch v := n.Val.(type) {
	case float64:
		if i/8%2 != 0 {
			return v + float64(i)
		}
	case string:
		switch i / 8 % 6 {
		case 1, 2:
			return v + itoa(i)
		case 3:
			return itoa(i)
		case 4:
			return itoa(i) + ".5"
		}
	}
	return n.Val
}

// growModel presents a document, until it panics.
type growModel struct {
	doc   any
	fresh bool // a new handle for every answer
	left  int
	val   int
	x     *exec
}

type growNode struct{ v any }

func (m *growModel) enter() {
	simrt.YM(1)
	if m.left--; m.left == 0 {
		m.x.cnt.panics++
		throw(throwable(m.val))
	}
}

func (m *growModel) in(v any) any {
	if m.fresh {
		return &growNode{v}
	}
	if a, ok := v.([]any); ok {
		return &a // comparable
	}
	if a, ok := v.(map[string]any); ok {
		return &a
	}
	return v
}

func (m *growModel) out(v any) any {
	switch n := v.(type) {
	case *growNode:
		return n.v
	case *[]any:
		return *n
	case *map[string]any:
		return *n
	}
	return v
}

func (m *growModel) Root() any {
	m.enter()
	return m.in(m.doc)
}

func (m *growModel) Type(v any) gojsonpath.NodeType {
	m.enter()
	switch m.out(v).(type) {
	case map[string]any:
		return gojsonpath.ObjectNode
	case []any:
		return gojsonpath.ArrayNode
	}
	return gojsonpath.ValueNode
}

func (m *growModel) Len(v any) int {
	m.enter()
	switch n := m.out(v).(type) {
	case map[string]any:
		return len(n)
	case []any:
		return len(n)
	}
	return 0
}

func (m *growModel) Key(v any, k string) (any, bool) {
	m.enter()
	n, _ := m.out(v).(map[string]any)
	c, ok := n[k]
	if !ok {
		return nil, false
	}
	return m.in(c), true
}

func (m *growModel) Keys(v any) []string {
	m.enter()
	n, _ := m.out(v).(map[string]any)
	l := make([]string, 0, len(n))
	for k := range n {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

func (m *growModel) Elem(v any, i int) any {
	m.enter()
	n, _ := m.out(v).([]any)
	if i < 0 || i >= len(n) {
		return nil
	}
	return m.in(n[i])
}

func (m *growModel) Value(v any) any {
	m.enter()
	return m.out(v)
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// call makes a call, keeping nothing of it.
func (w *growWorld) call(o *Op, i, depth int) {
	x := w.x
	x.cnt.ops++
	if o.K == "clock" {
		if i/8%64 == 0 {
			simrt.Advance(delays[o.To%len(delays)])
		}
		return
	}
	defer func() { recover() }()
	num := func(t string) string { return strings.ReplaceAll(t, "%d", itoa(i)) }
	var cap *Hook
	m := &growModel{x: x, fresh: o.To == 1}
	for _, h := range o.Hooks {
		switch {
		case h.Do == "clock":
			if i/8%64 == 0 {
				simrt.Advance(delays[h.Val%len(delays)])
			}
		case h.Every > 1 && i/8%h.Every != 0:
		case h.On == "call":
			m.left, m.val = h.N, h.Val
		default:
			cap = h
		}
	}
	model := func() gojsonpath.DocModel {
		if o.To == 0 {
			m.doc = w.same[o.D]
		} else {
			m.doc = w.document(x.plan.Docs[o.D].Root, i)
		}
		if o.To == 3 && m.left == 0 {
			return gojsonpath.MapModel{Doc: m.doc}
		}
		return m
	}
	simrt.YM(20)
	switch o.K {
	case "search", "derive":
		n := 0
		gojsonpath.Search(model(), x.paths[o.P], func(dp gojsonpath.DocPath) {
			n++
			x.cnt.caps++
			if o.K == "derive" {
				q := dp.Key(num(o.Text), i, gojsonpath.ValueNode)
				q = q.Index(i, i, gojsonpath.ArrayNode)
				_ = q.Pop().Push(q.Last())
				_ = q.Len()
			}
			if cap == nil || n != cap.N {
				return
			}
			if cap.Do == "panic" {
				x.cnt.panics++
				throw(throwable(cap.Val))
			}
			if depth < 3 {
				x.cnt.nested++
				for _, q := range cap.Ops {
					w.call(q, i, depth+1)
				}
			}
		})
	case "find":
		gojsonpath.Find(model(), x.paths[o.P])
	case "pfind":
		x.cnt.parses++
		gojsonpath.ParseAndFind(model(), num(o.Text))
	case "parse":
		x.cnt.parses++
		gojsonpath.Parse(num(o.Text))
	case "build":
		p := x.paths[o.P]
		if o.After&1 != 0 {
			p = gojsonpath.RecursiveDescent(p)
		}
		if o.After&2 != 0 {
			p = gojsonpath.Append(p, gojsonpath.KeySelectorPath(num(o.Text)))
		}
		if o.After&4 != 0 {
			p = gojsonpath.Append(gojsonpath.SelectRootPath, gojsonpath.WildcardPath, gojsonpath.IndexSelectorPath(i%4), p)
		}
		if o.After&8 != 0 || o.After == 0 {
			gojsonpath.Find(model(), p)
		}
	case "quote":
		gojsonpath.MakeKeyString(num(o.Text))
	case "join":
		gojsonpath.Join(num(o.Text), "a", num(o.Text))
	default:
		panic("op " + o.K)
	}
	simrt.YM(21)
}

func checkC29(x *exec) []viol { return x.held }
