package main

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

// C16: calls that are over keep nothing alive and leave nothing running.

func genC16(g *gen) {
	r := g.r
	// what it costs to look for what is alive does not depend on how much was
	// done before
	for i, n := 0, r.In(2, 7); i < n; i++ {
		switch r.N(8) {
		case 0:
			genC01(g)
		case 1:
			genC04(g)
		case 2, 3:
			genC05(g)
		case 4:
			genC06(g)
		case 5:
			genC08(g)
		case 6:
			genC12(g)
		case 7:
			genC15(g)
		}
		if len(g.p.Tasks) > 24 {
			break
		}
	}
	g.mode(g.estimate())
}

// free lets go of the documents of a finished run, and of all that refers to
// them, and notes what is nevertheless still alive: then the library holds it.
// Compiled paths stay in use.
func (x *exec) free() {
	type watch struct {
		what  string
		alive func() bool
	}
	var ws []watch
	for _, d := range x.docs {
		name := "document " + itoa(d.ix)
		p := weak.Make(d)
		ws = append(ws, watch{name + " (its model, or a node of it)", func() bool { return p.Value() != nil }})
		if d.isMap {
			for _, n := range d.nodes {
				n := n.ID
				if q, ok := rawPointer(d.nodes[n].raw); ok {
					ws = append(ws, watch{"node " + itoa(n) + " of " + name, func() bool { return q.Value() != nil }})
				}
			}
		}
	}
	for _, ts := range x.tasks {
		for i, r := range ts.recs {
			if q := r.canary; q != (weak.Pointer[canary]{}) {
				ws = append(ws, watch{"the callback of search " + itoa(i) + " of task " + itoa(ts.id), func() bool { return q.Value() != nil }})
			}
		}
	}
	for _, ts := range x.tasks {
		for _, o := range ts.outs {
			if o.op.K == "search" {
				o.res = o.results()
			}
		}
		for _, r := range ts.recs {
			r.doc, r.caps, r.keys, r.looks, r.issued, r.now = nil, nil, nil, nil, nil, nil
		}
		for _, o := range ts.outs {
			o.nodes, o.ret, o.snap, o.ext, o.extSnap, o.doc, o.want, o.pv = nil, nil, nil, nil, nil, nil, nil, nil
		}
		ts.stack = nil
	}
	x.docs, x.mirrored = nil, nil
	simsync.DrainPools()
	// the goroutines of the run are past their last step, some are not gone yet
	for i := 0; i < 200 && runtime.NumGoroutine() > x.threads; i++ {
		time.Sleep(50 * time.Microsecond)
	}
	for try := 0; try < 3; try++ {
		runtime.GC()
		n := 0
		for _, w := range ws {
			if w.alive() {
				n++
			}
		}
		if n == 0 {
			break
		}
		if try == 2 {
			for _, w := range ws {
				if w.alive() && len(x.held) < 5 {
					x.held = append(x.held, viol{"held", w.what + " is still referred to when all searches are over"})
				}
			}
		}
	}
	runtime.KeepAlive(x)
}

// rawPointer watches a map or an array of a document.
func rawPointer(v any) (w weak.Pointer[byte], ok bool) {
	switch a := v.(type) {
	case map[string]any:
		return weak.Make((*byte)(reflect.ValueOf(a).UnsafePointer())), true
	case []any:
		if len(a) > 0 {
			return weak.Make((*byte)(unsafe.Pointer(&a[0]))), true
		}
	}
	return
}

func checkC16(x *exec) []viol {
	vs := x.held
	for _, res := range []*simrt.Result{x.res, x.res2} {
		if res != nil && res.Leaked > 0 {
			vs = append(vs, viol{"goroutine", itoa(res.Leaked) + " goroutines of the library are left when all callers are done"})
		}
	}
	return vs
}

// C17: matches are delivered as they are found.

func genC17(g *gen) {
	r := g.r
	d := g.doc(docOpt{max: r.In(6, 30), ints: r.P(0.4), weird: r.P(0.2), orders: []string{"stable", "perm"}, ghosts: r.P(0.1), exact: true})
	var ps []int
	for i, n := 0, r.In(1, 3); i < n; i++ {
		ps = append(ps, g.pathFor(d, pathOpt{maxRec: 2, weird: true}, true))
	}
	for t, nt := 0, r.In(1, 2); t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			p := ps[r.N(len(ps))]
			op := &Op{K: "search", P: p, D: d}
			if r.P(0.5) {
				if h := g.place(g.dryRun(p, d), r.Pick([]string{"panic", "panic", "stall", "pause", "ops"}), r.N(nThrow)); h != nil {
					if h.Do == "ops" {
						q := ps[r.N(len(ps))]
						h.Ops = []*Op{{K: "search", P: q, D: d}}
						if k := g.place(g.dryRun(q, d), "panic", r.N(nThrow)); k != nil && r.P(0.5) {
							h.Ops[0].Hooks = []*Hook{k}
						}
					}
					op.Hooks = append(op.Hooks, h)
				}
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

func checkC17(x *exec) []viol {
	var vs []viol
	for _, o := range x.outs() {
		r := o.rec
		if r == nil || o.op.K != "search" || o.tree.ast() == nil || hasFilter(o.tree.ast()) {
			continue
		}
		d := r.doc
		ghosts := func(n *DNode, k string) bool { return n.key(k) == nil }
		order := func(n *DNode) []int { return d.keyOrder(n, 0) }
		looks := map[int]int{}
		ref, ok := refSearchLooks(d.root, o.tree.ast(), ghosts, order, looks)
		if !ok {
			continue
		}
		same := r.ncaps <= len(ref) && len(r.caps) == r.ncaps
		for i := 0; same && i < len(r.caps); i++ {
			same = r.caps[i].text == ref[i].String()+"#"+itoa(ref[i].n.ID)
		}
		if !same {
			continue // other matches, or another order: not what this is about
		}
		for _, l := range r.looks {
			if l.caps >= len(ref) {
				break
			}
			next := ref[l.caps]
			if first, ok := looks[l.n.ID]; ok && first > l.caps && l.n != next.n {
				vs = append(vs, viol{"late", o.what() + ": match " + itoa(l.caps+1) + ", " + next.String() + ", had not been delivered when the search looked into " + chainOf(l.n).String()})
				break
			}
		}
	}
	return vs
}

// C18: document paths are values.

func genC18(g *gen) {
	r := g.r
	d := g.doc(docOpt{mapp: 0.5, weird: r.P(0.1)})
	var ps []int
	for i, n := 0, r.In(1, 2); i < n; i++ {
		ps = append(ps, g.pathFor(d, pathOpt{filters: r.P(0.3), raw: 0.1, maxRec: 2}, true))
	}
	g.p.Board = append(g.p.Board, [2]int{ps[0], d})
	if len(ps) > 1 && r.P(0.3) {
		g.p.Board = append(g.p.Board, [2]int{ps[1], d})
	}
	focus := r.N(20)
	for t, nt := 0, r.In(1, 3); t < nt; t++ {
		var ops []*Op
		made := 0
		derive := func(here bool) *Op {
			o := &Op{K: "derive", P: focus}
			switch {
			case here && r.P(0.7):
				o.P = -1
			case made > 0 && r.P(0.6):
				o.P = 1000 + made - 1 - min(r.N(3), r.N(made))
			case r.P(0.3):
				o.P = r.N(20)
			}
			n := r.In(1, 3)
			if r.P(0.05) {
				n = r.In(4, 140)
			}
			for i := 0; i < n; i++ {
				o.Text += r.Pick([]string{"k", "k", "i", "p", "-"})
			}
			made++
			return o
		}
		for i, n := 0, r.In(2, 8); i < n; i++ {
			if r.P(0.25) {
				p := ps[r.N(len(ps))]
				op := &Op{K: "search", P: p, D: d}
				if c := g.dryRun(p, d).rec.ncaps; c > 0 {
					h := &Hook{On: "cap", N: 1 + r.N(c), Do: "ops"}
					if r.P(0.5) {
						h.N, h.Every = 1, r.In(1, 2)
					}
					was := made
					for j, m := 0, r.In(1, 3); j < m; j++ {
						h.Ops = append(h.Ops, derive(true))
					}
					if h.Every > 0 {
						made = was + len(h.Ops)
					}
					op.Hooks = append(op.Hooks, h)
				}
				ops = append(ops, op)
				continue
			}
			ops = append(ops, derive(false))
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

func checkC18(x *exec) []viol {
	var vs []viol
	bad := func(kind, who string, d *derived) {
		if len(vs) < 5 && !samePaths(d.path.P, d.want) {
			vs = append(vs, viol{kind, who + d.how + " is " + segsText(d.path.P) + ", it should be " + segsText(d.want)})
		}
	}
	for _, d := range x.board {
		bad("delivered", "", d)
	}
	for _, ts := range x.tasks {
		for _, d := range ts.made {
			bad("derived", "task "+itoa(ts.id)+", ", d)
		}
		for _, r := range ts.recs {
			for _, c := range r.caps {
				bad("delivered", "task "+itoa(ts.id)+", ", &derived{c.path, c.segs, "the match " + c.text})
			}
		}
	}
	return vs
}

func segsText(p []gojsonpath.Segment) string {
	s := "$"
	for i := 1; i < len(p); i++ {
		if p[i].Name != "" {
			s += "." + p[i].Name
		} else {
			s += "[" + itoa(p[i].Index) + "]"
		}
	}
	return s
}

// C19: time changes nothing.

func genC19(g *gen) {
	switch g.r.N(8) {
	case 0, 1:
		genC01(g)
	case 2:
		genC03(g)
	case 3:
		genC05(g)
	case 4:
		genC06(g)
	default:
		genC15(g)
	}
	if g.p.Mode.Kind == "" {
		g.mode(g.estimate())
	}
}
