package main

import (
	"runtime"
	"time"

	gojsonpath "github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
)

// runPlan runs a plan from the state of a fresh process and judges it.
func runPlan(p *Plan, cnt *counters) (*exec, []viol) {
	collect()
	simrt.SetMapSeed(p.Seed, p.MapOrder)
	simrt.RestoreGlobals("lib.")
	if p.Cold || p.Antlr {
		// What the parser has learnt so far is of use to later runs that do
		// not look into it.
		keep := simrt.SaveGlobals("parser.", "antlr.")
		defer keep()
		simrt.RestoreGlobals("parser.")
		simrt.RestoreGlobals("antlr.")
		for _, t := range p.Warm {
			func() {
				defer func() { recover() }()
				gojsonpath.Parse(t)
			}()
		}
		simrt.RestoreGlobals("lib.")
		simrt.SetMapSeed(p.Seed, p.MapOrder)
	}
	x := newExec(p, cnt)
	x.keepDocs = props[p.Prop].keep
	x.wantLooks = p.Prop == "C17"
	x.wantFree = p.Prop == "C16"
	x.setup(nil)
	steps := props[p.Prop].steps
	if steps == 0 {
		steps = 4000000
	}
	x.pin()
	x.threads = runtime.NumGoroutine()
	if p.Rounds > 0 {
		x.growth(steps)
	} else {
		x.run(steps)
	}
	if x.wantFree {
		x.free()
	}
	return x, judge(p, x)
}

type shrinker struct {
	class    string
	deadline time.Time
	runs     int
	cnt      counters
}

func (s *shrinker) fails(p *Plan) bool {
	if time.Now().After(s.deadline) {
		return false
	}
	s.runs++
	_, vs := runPlan(p, &s.cnt)
	return hasClass(vs, s.class)
}

func hasClass(vs []viol, class string) bool {
	for _, v := range vs {
		if v.Class == class {
			return true
		}
	}
	return false
}

// shrink makes a failing plan smaller, as long as it fails the same way.
func shrink(p *Plan, class string, d time.Duration) (*Plan, int) {
	s := &shrinker{class: class, deadline: time.Now().Add(d)}
	best := p.clone()
	// the schedule, written out
	x, vs := runPlan(best, &s.cnt)
	if hasClass(vs, class) && x.res != nil && p.Rounds == 0 {
		c := best.clone()
		c.Segs, c.HaveSegs = x.res.Segs, true
		if s.fails(c) {
			best = c
		}
	}
	for progress := true; progress && time.Now().Before(s.deadline); {
		progress = false
		for i := 0; ; i++ {
			c := candidate(best, i)
			if c == nil {
				break
			}
			if s.fails(c) {
				best, progress = c, true
				i--
				continue
			}
			if time.Now().After(s.deadline) {
				break
			}
		}
	}
	return best, s.runs
}

// candidate is the i-th way to make a plan smaller, nil if there are no more.
func candidate(p *Plan, want int) *Plan {
	n := 0
	var ret *Plan
	// try calls f on a copy if this is the wanted candidate
	try := func(f func(c *Plan)) {
		if n == want && ret == nil {
			ret = p.clone()
			f(ret)
		}
		n++
	}
	for t := range p.Tasks {
		t := t
		if len(p.Tasks) > 1 {
			try(func(c *Plan) {
				c.Tasks = append(c.Tasks[:t], c.Tasks[t+1:]...)
				var segs []simrt.Seg
				for _, g := range c.Segs {
					if g.T == t {
						continue
					}
					if g.T > t {
						g.T--
					}
					segs = append(segs, g)
				}
				c.Segs = segs
			})
		}
	}
	if len(p.Post) > 0 {
		try(func(c *Plan) { c.Post = nil })
	}
	if len(p.Board) > 1 {
		for i := range p.Board {
			try(func(c *Plan) { c.Board = append(c.Board[:i], c.Board[i+1:]...) })
		}
	}
	// halves of the schedule, then single pieces
	if p.HaveSegs {
		for size := len(p.Segs) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(p.Segs); at += size {
				at, size := at, size
				try(func(c *Plan) { c.Segs = append(c.Segs[:at], c.Segs[at+size:]...) })
			}
			if size > 8 && len(p.Segs) > 400 {
				size = size / 2
			}
		}
	}
	// lists of operations
	var lists func(get func(*Plan) *[]*Op, depth int)
	lists = func(get func(*Plan) *[]*Op, depth int) {
		l := *get(p)
		for i := range l {
			i := i
			if depth > 0 || len(l) > 1 {
				try(func(c *Plan) { q := get(c); *q = append((*q)[:i], (*q)[i+1:]...) })
			}
			if k := l[i]; k.K == "derive" && len(k.Text) > 1 {
				for j := range k.Text {
					try(func(c *Plan) { q := (*get(c))[i]; q.Text = q.Text[:j] + q.Text[j+1:] })
				}
			}
			if k := l[i].Times; k > 1 {
				try(func(c *Plan) { (*get(c))[i].Times = 1 })
				try(func(c *Plan) { (*get(c))[i].Times = k / 2 })
				try(func(c *Plan) { (*get(c))[i].Times = k - k/8 - 1 })
				if k < 40 {
					try(func(c *Plan) { (*get(c))[i].Times = k - 1 })
				}
			}
			for j := range l[i].Hooks {
				j := j
				try(func(c *Plan) {
					o := (*get(c))[i]
					o.Hooks = append(o.Hooks[:j], o.Hooks[j+1:]...)
				})
				h := l[i].Hooks[j]
				if h.Every > 0 && h.Do != "grow" {
					try(func(c *Plan) { (*get(c))[i].Hooks[j].Every = 0 })
				}
				for k := range h.Muts {
					k := k
					try(func(c *Plan) {
						q := (*get(c))[i].Hooks[j]
						q.Muts = append(q.Muts[:k], q.Muts[k+1:]...)
					})
				}
				if len(h.Ops) > 0 {
					lists(func(q *Plan) *[]*Op { return &(*get(q))[i].Hooks[j].Ops }, depth+1)
				}
			}
			for k := range l[i].Muts {
				k := k
				try(func(c *Plan) { q := (*get(c))[i]; q.Muts = append(q.Muts[:k], q.Muts[k+1:]...) })
			}
		}
	}
	for t := range p.Tasks {
		t := t
		lists(func(q *Plan) *[]*Op { return &q.Tasks[t] }, 0)
	}
	if len(p.Post) > 0 {
		lists(func(q *Plan) *[]*Op { return &q.Post }, 1)
	}
	// paths that nothing needs, and smaller paths
	used := make([]bool, len(p.Paths))
	var mark func(i int)
	mark = func(i int) {
		if i < 0 || i >= len(used) || used[i] {
			return
		}
		used[i] = true
		for _, a := range p.Paths[i].Args {
			mark(a)
		}
	}
	p.eachOp(func(o *Op) {
		if o.K == "search" || o.K == "find" {
			mark(o.P)
		}
		if o.Spec != nil {
			for _, a := range o.Spec.Args {
				mark(a)
			}
		}
	})
	for _, b := range p.Board {
		mark(b[0])
	}
	for i, s := range p.Paths {
		i := i
		if !used[i] && (s.Op != "root") {
			try(func(c *Plan) { c.Paths[i] = &PathSpec{Op: "root"} })
		}
		if !used[i] || len(s.AST) == 0 || s.Op != "" {
			continue
		}
		for _, a := range smallerAST(s.AST) {
			a := a
			try(func(c *Plan) {
				c.Paths[i] = &PathSpec{AST: a, Text: pathText(a, simrt.NewRNG(1))}
			})
		}
	}
	for i, d := range p.Docs {
		i := i
		if d.Handle != "ptr" && d.Model == "sim" {
			try(func(c *Plan) { c.Docs[i].Handle = "ptr" })
		}
		if d.Order != "stable" && d.Model == "sim" {
			try(func(c *Plan) { c.Docs[i].Order = "stable" })
		}
		if len(d.Ghosts) > 0 {
			try(func(c *Plan) { c.Docs[i].Ghosts = c.Docs[i].Ghosts[1:] })
		}
		if d.Vanish > 0 {
			try(func(c *Plan) { c.Docs[i].Vanish = 0 })
		}
		for k := range d.Broken {
			k := k
			try(func(c *Plan) {
				if b := c.Docs[i].Broken; k < len(b) {
					c.Docs[i].Broken = append(b[:k], b[k+1:]...)
				}
			})
		}
		if d.UncMod {
			try(func(c *Plan) { c.Docs[i].UncMod = false })
		}
		if d.Spare {
			try(func(c *Plan) { c.Docs[i].Spare = false })
		}
		// subtrees
		var walk func(path []int, m *DNode)
		walk = func(path []int, m *DNode) {
			for k := range m.Kids {
				at := append(append([]int(nil), path...), k)
				try(func(c *Plan) {
					q := c.Docs[i].Root
					for _, s := range at[:len(at)-1] {
						q = q.Kids[s]
					}
					k := at[len(at)-1]
					q.Kids = append(q.Kids[:k], q.Kids[k+1:]...)
					if q.Kind == 'o' {
						q.Keys = append(q.Keys[:k], q.Keys[k+1:]...)
					}
				})
				walk(at, m.Kids[k])
			}
		}
		walk(nil, d.Root)
	}
	if p.Cold {
		try(func(c *Plan) { c.Cold = false })
	}
	if len(p.Warm) > 0 {
		try(func(c *Plan) { c.Warm = nil })
	}
	if p.Antlr {
		try(func(c *Plan) { c.Antlr = false })
	}
	if p.MapOrder != 0 {
		try(func(c *Plan) { c.MapOrder = 0 })
	}
	return ret
}

func cloneAST(p []Elem) []Elem {
	q := &Plan{Paths: []*PathSpec{{AST: p}}}
	return q.clone().Paths[0].AST
}

// smallerAST lists smaller paths.
func smallerAST(p []Elem) [][]Elem {
	var l [][]Elem
	for i := 1; i < len(p); i++ {
		c := cloneAST(p)
		l = append(l, append(c[:i], c[i+1:]...))
	}
	for i := range p {
		if p[i].Rec {
			c := cloneAST(p)
			c[i].Rec = false
			l = append(l, c)
		}
		if u := p[i].Sel.U; len(u) > 0 {
			for k := range u {
				c := cloneAST(p)
				if len(u) == 2 {
					c[i].Sel = c[i].Sel.U[1-k]
				} else {
					c[i].Sel.U = append(c[i].Sel.U[:k], c[i].Sel.U[k+1:]...)
				}
				l = append(l, c)
			}
		}
		if f := p[i].Sel.F; f != nil && (f.X != nil || f.Y != nil) {
			c := cloneAST(p)
			c[i].Sel.F = c[i].Sel.F.X
			l = append(l, c)
			if f.Y != nil {
				c := cloneAST(p)
				c[i].Sel.F = c[i].Sel.F.Y
				l = append(l, c)
			}
		}
		if k := p[i].Sel.K; i > 0 && (k == "filter" || k == "union" || k == "slice") {
			c := cloneAST(p)
			c[i].Sel = Sel{K: "wild"}
			l = append(l, c)
		}
	}
	return l
}
