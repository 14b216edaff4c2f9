package main

import (
	"sort"
	"strings"

	"verif.local/sim/simrt"
)

// C28: the parts of a document that a path does not lead into may be broken.

// brokenPart is what the model of a document throws whose part cannot be read.
type brokenPart struct{ n *DNode }

func (b brokenPart) Error() string { return chainOf(b.n).String() + " cannot be read" }

// touched ends a call of the model that concerns a broken node.
func (d *simDoc) touched(r *rec, m int, n *DNode) {
	if n == nil || r == nil || d.broken == nil || m == mRoot || m == mType || !d.broken[n.ID] {
		return
	}
	r.out.touched = methodName[m] + " of " + chainOf(n).String()
	if k := int(simrt.Mix(d.spec.OSeed, uint64(n.ID), 7) % (2 * nThrow)); k < nThrow {
		throw(throwable(k))
	}
	panic(brokenPart{n})
}

func (d *simDoc) setBroken() {
	if len(d.spec.Broken) > 0 {
		d.broken = map[int]bool{}
		for _, id := range d.spec.Broken {
			d.broken[id] = true
		}
	}
}

// reach adds to e the nodes a search may look into, and those whose values it
// may ask for. It goes by the path's steps, the filters' paths included, and
// does not rely on what is left out because the result is known already.
func reach(root *DNode, p []Elem, e map[int]bool) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refOverflow); !is {
				panic(r)
			}
			ok = false
		}
	}()
	rc := &chain{n: root, len: 1}
	ev := &refEval{root: rc, budget: 60000, wide: true, emit: func(*chain) {}}
	ev.looked = func(n *DNode) { e[n.ID] = true }
	if ev.selects(p[0].Sel, rc) {
		ev.walk(rc, p)
	}
	return true
}

func genC28(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{max: r.In(8, 40), ints: r.P(0.4), weird: r.P(0.2), orders: []string{"stable", "perm", "shuf"}, exact: true})
		root := g.p.Docs[d].Root.clone()
		var all []*DNode
		next := 0
		root.number(&next, &all)
		e := map[int]bool{}
		for k, n := 0, r.In(1, 3); k < n; k++ {
			o := pathOpt{filters: r.P(0.5), weird: true}
			if r.P(0.15) {
				o.maxRec = 1
			}
			p := 0
			if r.P(0.15) {
				p = g.barren(d)
			} else {
				p = g.pathFor(d, o, r.P(0.8))
			}
			if reach(root, g.p.Paths[p].AST, e) {
				pairs = append(pairs, [2]int{p, d})
			}
		}
		share := []float64{1, 1, 0.7, 0.3}[r.N(4)]
		for _, n := range all {
			if !e[n.ID] && r.P(share) {
				g.p.Docs[d].Broken = append(g.p.Docs[d].Broken, n.ID)
			}
		}
	}
	if len(pairs) == 0 {
		return
	}
	for t, nt := 0, r.In(1, 2); t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			q := pairs[r.N(len(pairs))]
			op := g.searchOp(q[0], q[1])
			if m := g.mutApart(q[1]); m != nil && r.P(0.3) {
				if h := g.place(g.dryRun(q[0], q[1]), "mut", 0); h != nil {
					op.K = "search"
					h.Muts = []*Mut{m}
					if r.P(0.5) {
						h.Every = 1
					}
					op.Hooks = append(op.Hooks, h)
				}
			}
			ops = append(ops, op)
			if m := g.mutApart(q[1]); m != nil && r.P(0.1) {
				ops = append(ops, &Op{K: "mut", D: q[1], Muts: []*Mut{m}})
			}
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.mode(g.estimate())
}

// barren adds a path with a filter that refers to the root and that few nodes,
// or none, are ever put to.
func (g *gen) barren(d int) int {
	r := g.r
	root := g.p.Docs[d].Root
	pg := &pathGen{r: r, filters: true, doc: root, ints: g.p.Docs[d].Ints}
	a := []Elem{{Sel: Sel{K: "root"}}}
	n := root
	for i, k := 0, r.In(0, 2); i < k; i++ {
		s := pg.plainSel(n)
		a = append(a, Elem{Sel: s})
		n = step(n, s, r)
	}
	if r.P(0.5) {
		a = append(a, Elem{Sel: Sel{K: "key", Key: r.Pick([]string{"missing", "n0", "s0", "zz"})}})
		n = nil
	}
	op := func(top bool) *Operand {
		if top {
			return &Operand{K: "path", Root: true, P: pg.relPath(root, 3)}
		}
		return &Operand{K: "path", P: pg.relPath(n, 2)}
	}
	x := &Expr{K: "cmp", Op: r.Pick([]string{"==", "!="}), L: op(r.P(0.2)), R: op(r.P(0.8))}
	switch r.N(6) {
	case 0:
		x = &Expr{K: "among", L: x.L, R: op(true)}
	case 1:
		x = &Expr{K: "exists", L: op(true)}
	case 2:
		x = &Expr{K: r.Pick([]string{"and", "or"}), X: x, Y: pg.cmp(n)}
	}
	f := Sel{K: "filter", F: x}
	if r.P(0.2) {
		f = Sel{K: "union", U: []Sel{pg.plainSel(n), f}}
	}
	a = append(a, Elem{Sel: f})
	for r.P(0.3) {
		a = append(a, Elem{Sel: pg.plainSel(nil)})
	}
	g.p.Paths = append(g.p.Paths, &PathSpec{AST: a, Text: pathText(a, r)})
	p := len(g.p.Paths) - 1
	if !g.usable(p, d) {
		g.dropPath()
		return g.pathFor(d, pathOpt{}, true)
	}
	return p
}

// mutApart changes something in a broken part of a document.
func (g *gen) mutApart(d int) *Mut {
	r := g.r
	s := g.p.Docs[d]
	var all []*DNode
	next := 0
	s.Root.clone().number(&next, &all)
	var c []*DNode
	for _, id := range s.Broken {
		if n := all[id]; n.Kind != 'v' {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return nil
	}
	n := c[r.N(len(c))]
	m := &Mut{D: d, T: n.ID, V: g.subtree()}
	if n.Kind == 'a' {
		m.K = r.Pick([]string{"push", "del", "rep"})
		m.Ix = r.N(len(n.Kids) + 1)
	} else {
		m.K = r.Pick([]string{"set", "del", "set"})
		m.Key = r.Pick([]string{"a", "b", "n0", "s0", "new"})
		if len(n.Keys) > 0 && r.P(0.6) {
			m.Key = n.Keys[r.N(len(n.Keys))]
		}
	}
	return m
}

// apart tells if a plan changes its documents in broken parts only.
func apart(p *Plan) bool {
	ok := true
	docs := map[int][]*DNode{}
	check := func(ms []*Mut) {
		for _, m := range ms {
			if docs[m.D] == nil {
				var all []*DNode
				next := 0
				p.Docs[m.D].Root.clone().number(&next, &all)
				docs[m.D] = all
			}
			if m.T < 0 || m.T >= len(docs[m.D]) {
				ok = false
				continue
			}
			in := false
			for n := docs[m.D][m.T]; n != nil; n = n.parent {
				for _, id := range p.Docs[m.D].Broken {
					in = in || id == n.ID
				}
			}
			ok = ok && in
		}
	}
	p.eachOp(func(o *Op) {
		check(o.Muts)
		for _, h := range o.Hooks {
			check(h.Muts)
		}
	})
	return ok
}

func checkC28(x *exec) []viol {
	if !apart(x.plan) {
		return nil
	}
	var vs []viol
	for _, o := range x.outs() {
		if o.op.K != "search" && o.op.K != "find" || o.tree.ast() == nil {
			continue
		}
		d := x.docs[o.op.D]
		root := d.spec.Root.clone()
		var all []*DNode
		next := 0
		root.number(&next, &all)
		e := map[int]bool{}
		ok := reach(root, o.tree.ast(), e)
		for _, id := range d.spec.Broken {
			ok = ok && !e[id]
		}
		if !ok {
			continue
		}
		if o.touched != "" {
			vs = append(vs, viol{"touched", o.what() + " called " + o.touched + ", where the path does not lead"})
			continue
		}
		if o.kind != "ok" {
			vs = append(vs, viol{"outcome", o.what() + ": " + o.outcome()})
			continue
		}
		ref, ok := refSearch(root, o.tree.ast(), nil, func(n *DNode) []int { return d.keyOrder(n, 0) })
		if !ok {
			continue
		}
		var want []string
		for _, c := range ref {
			if o.op.K == "search" {
				want = append(want, c.String()+"#"+itoa(c.n.ID))
			} else {
				want = append(want, "#"+itoa(c.n.ID))
			}
		}
		got := append([]string(nil), o.results()...)
		if d.spec.Order == "shuf" {
			sort.Strings(got)
			sort.Strings(want)
		}
		if t := diff(got, want); t != "" {
			vs = append(vs, viol{"result", o.what() + ": " + strings.ReplaceAll(t, "alone", "if nothing were broken")})
		}
	}
	return vs
}
