package main

import (
	"errors"
	"math"
	"strings"
	"time"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
)

// A document that does not keep to its contract: types that are none, or are
// others from one call to the next, lengths that are wrong, keys listed twice
// or not at all, members from elsewhere, nodes of any Go type.

// maxLies is how many wrong answers a search gets.
const maxLies = 6

// hLie is a node nobody has heard of. It has some depth, so that searches end.
type hLie struct {
	kind  gojsonpath.NodeType
	depth int
	l     []int // not comparable
}

// newLie makes a node, mostly of that kind.
func newLie(r *simrt.RNG, depth int) any {
	if r.P(0.3) {
		return oddAnswer(r)
	}
	if depth <= 0 {
		return hLie{kind: gojsonpath.ValueNode}
	}
	h := hLie{kind: gojsonpath.NodeType(r.N(4)), depth: depth}
	if r.P(0.5) {
		return &h
	}
	return h
}

func asLie(h any) (hLie, bool) {
	switch x := h.(type) {
	case hLie:
		return x, true
	case *hLie:
		if x != nil {
			return *x, true
		}
	}
	return hLie{}, false
}

type badString struct{ l []int }

func (badString) String() string { panic("no name") }
func (badString) Error() string  { panic("no message") }

type nilString struct{ s string }

func (n *nilString) String() string { return n.s }

// oddAnswer is a value no document should have.
func oddAnswer(r *simrt.RNG) any {
	if r.P(0.3) {
		// nothing odd, but for its being here
		switch r.N(9) {
		case 0, 1:
			return 0
		case 2:
			return 0.0
		case 3:
			return -1
		case 4:
			return ""
		case 5:
			return int64(0)
		case 6:
			return "0"
		case 7:
			return false
		}
		return []any{0, 0.0}
	}
	switch r.N(22) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return -math.MaxFloat64
	case 3:
		return math.MinInt64
	case 4:
		return badString{}
	case 5:
		return (*nilString)(nil)
	case 6:
		return []any{}
	case 7:
		return []any{nil, 1, "x", []any{true}}
	case 8:
		return map[string]any{"a": 1}
	case 9:
		return func() {}
	case 10:
		return struct{}{}
	case 11:
		return errors.New("bad sector")
	case 12:
		return time.Second
	case 13:
		return uint8(1)
	case 14:
		return "\xff\xfe"
	case 15:
		return strings.Repeat("9", 400)
	case 16:
		return "1e999"
	case 17:
		return []byte("x")
	case 18:
		return error(nil)
	case 19:
		return [2]func(){}
	case 20:
		return complex(1, 2)
	}
	return nil
}

// lies tells if this call is to be answered with a lie, and what to make it of.
func (r *rec) lies(n *DNode, ok bool) *simrt.RNG {
	if r == nil || !r.lied {
		return nil
	}
	if r.lie != 0 {
		g := simrt.NewRNG(r.lie)
		r.lie = 0
		return g
	}
	if n == nil || !ok {
		// the truth would be no answer
		return simrt.NewRNG(simrt.Mix(uint64(r.calls), 77))
	}
	return nil
}

func (d *simDoc) lieRoot(g *simrt.RNG) any { return d.lieNode(g, d.root) }

// lieNode answers with a node that is not asked for.
func (d *simDoc) lieNode(g *simrt.RNG, n *DNode) any {
	switch g.N(6) {
	case 0:
		return nil
	case 1:
		// another node of the document, which may be one on the way here
		return d.handle(d.nodes[g.N(len(d.nodes))])
	case 2:
		return d.junk
	case 3:
		if len(d.x.docs) > 1 {
			o := d.x.docs[g.N(len(d.x.docs))]
			if !o.isMap {
				return o.handle(o.root)
			}
		}
	}
	return newLie(g, 2)
}

func (d *simDoc) lieType(g *simrt.RNG, h any, n *DNode) gojsonpath.NodeType {
	if l, ok := asLie(h); ok {
		return l.kind
	}
	if n == nil {
		return gojsonpath.ValueNode
	}
	switch g.N(5) {
	case 0:
		return -1
	case 1:
		return 3
	case 2:
		return gojsonpath.NodeType(math.MaxInt)
	}
	return (nodeType(n) + gojsonpath.NodeType(1+g.N(2))) % 3
}

func (d *simDoc) lieLen(g *simrt.RNG, n *DNode) int {
	k := 0
	if n != nil {
		k = len(n.Kids)
	}
	switch g.N(5) {
	case 0, 1:
		return k + 1 + g.N(3)
	case 2:
		return max(0, k-1)
	case 3:
		return 0
	}
	return g.N(4)
}

func (d *simDoc) lieKeys(g *simrt.RNG, n *DNode) []string {
	var l []string
	if n != nil {
		l = append(l, n.Keys...)
	}
	switch g.N(5) {
	case 0:
		return nil
	case 1:
		return append(l, l...)
	case 2:
		return append(l, "", "\xff", "a", "a")
	case 3:
		return l[:len(l)/2]
	}
	return []string{"a", "n0", "1"}
}

func (d *simDoc) lieMember(g *simrt.RNG, h any, n *DNode) any {
	if l, ok := asLie(h); ok {
		return newLie(g, l.depth-1)
	}
	if n == nil {
		return oddAnswer(g)
	}
	return d.lieNode(g, n)
}

func (d *simDoc) lieKey(g *simrt.RNG, h any, n *DNode) (any, bool) {
	return d.lieMember(g, h, n), g.P(0.7)
}

// C27: documents that lie.

func genC27(g *gen) {
	r := g.r
	nd := r.In(1, 2)
	var pairs [][2]int
	for i := 0; i < nd; i++ {
		d := g.doc(docOpt{ints: r.P(0.3), weird: r.P(0.2), ghosts: r.P(0.2), vanish: r.P(0.1)})
		for _, p := range g.pathsFor(d, r.In(1, 3), pathOpt{filters: r.P(0.8), raw: 0.3, maxRec: 2, weird: true}) {
			pairs = append(pairs, [2]int{p, d})
		}
	}
	lying := func(op *Op) *Op {
		o := g.dryRun(op.P, op.D)
		for i, n := 0, r.In(1, 3); i < n; i++ {
			h := &Hook{On: "call", Do: "lie", N: 1 + r.N(o.rec.calls+1), Val: r.N(1 << 30)}
			if r.P(0.3) {
				h.Every = r.In(1, 8)
			}
			op.Hooks = append(op.Hooks, h)
		}
		return op
	}
	for t, nt := 0, r.In(1, 2); t < nt; t++ {
		var ops []*Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			q := pairs[r.N(len(pairs))]
			op := g.searchOp(q[0], q[1])
			if r.P(0.7) {
				op = lying(op)
			}
			if r.P(0.1) {
				if h := g.place(g.dryRun(q[0], q[1]), "ops", 0); h != nil {
					q := pairs[r.N(len(pairs))]
					in := g.searchOp(q[0], q[1])
					if r.P(0.5) {
						in = lying(in)
					}
					h.Ops = []*Op{in}
					op.K = "search"
					op.Hooks = append(op.Hooks, h)
				}
			}
			ops = append(ops, op)
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	for _, q := range pairs {
		g.p.Post = append(g.p.Post, &Op{K: "search", P: q[0], D: q[1]})
	}
	g.mode(g.estimate())
}

func checkC27(x *exec) []viol {
	var vs []viol
	for _, o := range x.outs() {
		if o.rec == nil || o.op.K == "pfind" {
			continue
		}
		switch o.kind {
		case "panic":
			if _, ours := o.pv.(harnessStop); !ours {
				vs = append(vs, viol{"panic", o.what() + " ended with a panic: " + panicText(o.pv)})
			}
		case "goexit":
			vs = append(vs, viol{"panic", o.what() + " ended the goroutine"})
		}
	}
	if len(vs) > 0 {
		return vs
	}
	return checkBaseline(x)
}
