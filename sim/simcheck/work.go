package main

// C30: what goes on around a search does not make it more work.

func genC30(g *gen) {
	r := g.r
	switch k := r.N(20); {
	case k < 9:
		genC01(g)
	case k < 14:
		genC05(g)
	case k < 18:
		genC06(g)
	default:
		genC14(g)
	}
	for _, d := range g.p.Docs {
		if d.Order == "shuf" {
			d.Order = "perm" // filters may stop at another member
		}
		d.Vanish = 0
	}
	if r.P(0.15) {
		// often before
		t := r.N(len(g.p.Tasks))
		var at []int
		for i, o := range g.p.Tasks[t] {
			if (o.K == "search" || o.K == "find") && o.Times == 0 && len(o.Hooks) < 2 {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[r.N(len(at))]
			o := *g.p.Tasks[t][i]
			if r.P(0.5) && i+1 < len(g.p.Tasks[t]) {
				g.p.Tasks[t] = append(g.p.Tasks[t], g.p.Tasks[t][i])
			}
			g.p.Tasks[t][i] = g.repeated(&o)
		}
	}
	if r.P(0.15) {
		// after many with other paths
		t := r.N(len(g.p.Tasks))
		o := &Op{K: "fresh", Text: r.Pick([]string{"k%d", "a%d", "k"}), To: r.N(2), Times: r.Pick2([]int{40, 140, 270, 1030, 2060, 4200, 9000}) + r.N(8)}
		g.p.Tasks[t] = append([]*Op{o}, g.p.Tasks[t]...)
	}
	// and searched once more when all are done
	for i := range g.p.Paths {
		for d := range g.p.Docs {
			if r.P(0.3) && g.usable(i, d) {
				g.p.Post = append(g.p.Post, &Op{K: "search", P: i, D: d})
			}
		}
	}
}

func checkC30(x *exec) []viol {
	var vs []viol
	cache := map[string]*out{}
	for _, o := range x.outs() {
		if o.rec == nil || o.op.K != "search" && o.op.K != "find" || o.kind == "" || o.kind == "goexit" {
			continue
		}
		key := o.op.K + o.tree.String() + "\x00" + itoa(o.op.D)
		b := cache[key]
		if b == nil {
			b = baseline(x.plan, o.tree, o.op, nil, false, 3000000, x.cnt)
			cache[key] = b
		}
		if b.kind == "" || b.kind == "goexit" || b.rec == nil {
			continue
		}
		if !o.rec.doc.isMap && o.rec.calls > b.rec.calls {
			vs = append(vs, viol{"calls", o.what() + " called the model " + itoa(o.rec.calls) + " times, alone it takes " + itoa(b.rec.calls)})
		}
		if o.steps > workFactor*b.steps+workMore {
			vs = append(vs, viol{"steps", o.what() + " took " + itoa(o.steps) + " steps, alone it takes " + itoa(b.steps)})
		}
	}
	return vs
}

// What is allowed for: tables that are looked up in, locks that are tried
// again.
const workFactor, workMore = 8, 3000
