package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif.local/sim/simrt"
)

// Elem is one step of a path. If Rec, what follows is looked for at any depth
// below the nodes this step selects.
type Elem struct {
	Sel Sel  `json:"s"`
	Rec bool `json:"r,omitempty"`
}

// Sel selects nodes among the children of a node.
type Sel struct {
	K   string `json:"k"` // root cur key idx wild slice union filter
	Key string `json:"key,omitempty"`
	I   int    `json:"i,omitempty"`
	A   *int   `json:"a,omitempty"`
	B   *int   `json:"b,omitempty"`
	C   *int   `json:"c,omitempty"`
	U   []Sel  `json:"u,omitempty"`
	F   *Expr  `json:"f,omitempty"`
}

// Expr is a filter.
type Expr struct {
	K  string   `json:"k"` // exists not and or cmp in among
	Op string   `json:"op,omitempty"`
	X  *Expr    `json:"x,omitempty"`
	Y  *Expr    `json:"y,omitempty"`
	L  *Operand `json:"l,omitempty"`
	R  *Operand `json:"rr,omitempty"`
	In []any    `json:"in,omitempty"`
}

// Operand of a comparison.
type Operand struct {
	K    string `json:"k"` // path len lit arith
	Root bool   `json:"root,omitempty"`
	P    []Elem `json:"p,omitempty"` // what follows @ or $
	Rec0 bool   `json:"rec0,omitempty"`
	Fn   bool   `json:"fn,omitempty"` // length(x), not x.length()
	V    any    `json:"v,omitempty"`
	Op   string `json:"op,omitempty"`
	N    int    `json:"n,omitempty"`
}

// Reference evaluation. phantom tells keys that are listed but not there.

type refEval struct {
	root    *chain
	phantom func(n *DNode, key string) bool
	order   func(n *DNode) []int // the order in which keys are listed, or nil
	emit    func(*chain)
	budget  int
	looked  func(n *DNode)
	wide    bool // leave nothing out
}

type refOverflow struct{}

func (e *refEval) children(c *chain) []*chain {
	n := c.n
	if e.looked != nil {
		e.looked(n)
	}
	ret := make([]*chain, 0, len(n.Kids))
	switch n.Kind {
	case 'o':
		ix := func(i int) int { return i }
		if e.order != nil {
			if o := e.order(n); o != nil {
				ix = func(i int) int { return o[i] }
			}
		}
		for i := range n.Kids {
			j := ix(i)
			if e.phantom != nil && e.phantom(n, n.Keys[j]) {
				continue
			}
			ret = append(ret, c.child(n.Kids[j], n.Keys[j], 0))
		}
	case 'a':
		for i, k := range n.Kids {
			ret = append(ret, c.child(k, "", i))
		}
	}
	return ret
}

func (e *refEval) walk(c *chain, p []Elem) {
	e.budget--
	if e.budget < 0 {
		panic(refOverflow{})
	}
	if len(p) == 1 && !p[0].Rec {
		e.emit(c)
		return
	}
	for _, k := range e.children(c) {
		e.below(k, p[1:], p[0].Rec)
	}
}

func (e *refEval) below(k *chain, rest []Elem, rec bool) {
	if len(rest) == 0 {
		e.emit(k)
	} else if e.selects(rest[0].Sel, k) {
		e.walk(k, rest)
	}
	if rec {
		for _, kk := range e.children(k) {
			e.below(kk, rest, true)
		}
	}
}

func (e *refEval) selects(s Sel, c *chain) bool {
	switch s.K {
	case "root":
		return c.up == nil
	case "cur", "wild":
		return true
	case "union":
		found := false
		for _, u := range s.U {
			if e.selects(u, c) {
				found = true
				if !e.wide {
					break
				}
			}
		}
		return found
	case "filter":
		return e.truth(s.F, c)
	}
	if c.up == nil {
		return false
	}
	switch s.K {
	case "key":
		return c.up.n.Kind == 'o' && c.name == s.Key
	case "idx":
		if c.up.n.Kind != 'a' {
			return false
		}
		i := s.I
		if i < 0 {
			i += len(c.up.n.Kids)
		}
		return c.ix == i
	case "slice":
		return c.up.n.Kind == 'a' && inSlice(s, c.ix, len(c.up.n.Kids))
	}
	panic("selector " + s.K)
}

func inSlice(s Sel, ix, n int) bool {
	from, to, step := 0, n, 1
	bound := func(p *int, d int) int {
		if p == nil {
			return d
		}
		x := *p
		if x < 0 {
			if x < -n {
				return 0
			}
			x += n
		}
		if x > n {
			x = n
		}
		return x
	}
	from, to = bound(s.A, 0), bound(s.B, n)
	if s.C != nil {
		step = *s.C
	}
	if step <= 0 {
		return false
	}
	return ix >= from && ix < to && (ix-from)%step == 0
}

func (e *refEval) results(o *Operand, c *chain) []*chain {
	var ret []*chain
	start := c
	if o.Root {
		start = e.root
	}
	sub := &refEval{root: e.root, phantom: e.phantom, order: e.order, budget: e.budget, looked: e.looked, wide: e.wide}
	sub.emit = func(m *chain) {
		ret = append(ret, m)
		if e.wide {
			e.looked(m.n)
		}
	}
	p := append([]Elem{{Sel: Sel{K: "cur"}, Rec: o.Rec0}}, o.P...)
	sub.walk(start, p)
	e.budget = sub.budget
	return ret
}

// value of an operand: nil, float64, string, bool or *DNode (a container).
func (e *refEval) value(o *Operand, c *chain) any {
	switch o.K {
	case "lit":
		if f, ok := o.V.(int); ok {
			return float64(f)
		}
		return o.V
	case "len":
		r := e.results(o, c)
		if len(r) == 1 && r[0].n.Kind == 'a' {
			return float64(len(r[0].n.Kids))
		}
		if len(r) > 1 {
			return float64(len(r))
		}
		return 0.0
	case "arith":
		r := e.results(o, c)
		if len(r) != 1 || r[0].n.Kind != 'v' {
			return nil
		}
		f, ok := r[0].n.Val.(float64)
		if !ok {
			return nil
		}
		switch o.Op {
		case "+":
			return f + float64(o.N)
		case "-":
			return f - float64(o.N)
		case "*":
			return f * float64(o.N)
		case "%":
			return math.Mod(f, float64(o.N))
		case "**":
			return math.Pow(f, float64(o.N))
		}
		panic("arith")
	}
	r := e.results(o, c)
	if len(r) != 1 {
		return nothing{}
	}
	if r[0].n.Kind != 'v' {
		return r[0].n
	}
	return r[0].n.Val
}

// nothing is the value of a path that finds no node, or several.
type nothing struct{}

func (e *refEval) truth(x *Expr, c *chain) bool {
	switch x.K {
	case "and":
		if e.wide {
			l, r := e.truth(x.X, c), e.truth(x.Y, c)
			return l && r
		}
		return e.truth(x.X, c) && e.truth(x.Y, c)
	case "or":
		if e.wide {
			l, r := e.truth(x.X, c), e.truth(x.Y, c)
			return l || r
		}
		return e.truth(x.X, c) || e.truth(x.Y, c)
	case "not":
		return !e.truth(x.X, c)
	case "exists":
		r := e.results(x.L, c)
		if len(r) != 1 {
			return len(r) > 0
		}
		switch v := r[0].n.Val.(type) {
		case bool:
			return v
		case float64:
			return v != 0
		case string:
			return v != ""
		}
		return true
	case "in":
		v := e.value(x.L, c)
		for _, y := range x.In {
			if i, ok := y.(int); ok {
				y = float64(i)
			}
			if scalar(v) && v == y {
				return true
			}
		}
		return false
	case "among":
		l := e.value(x.L, c)
		for _, n := range e.results(x.R, c) {
			if n.n.Kind == 'v' && scalar(l) && n.n.Val == l {
				return true
			}
		}
		return false
	case "cmp":
		l, r := e.value(x.L, c), e.value(x.R, c)
		eq := scalar(l) && scalar(r) && l == r
		switch x.Op {
		case "==", "===":
			return eq
		case "!=", "!==":
			return !eq
		}
		lf, ok1 := l.(float64)
		rf, ok2 := r.(float64)
		if ok1 && ok2 {
			switch x.Op {
			case "<":
				return lf < rf
			case "<=":
				return lf <= rf
			case ">":
				return lf > rf
			case ">=":
				return lf >= rf
			}
		}
		ls, ok1 := l.(string)
		rs, ok2 := r.(string)
		if ok1 && ok2 {
			switch x.Op {
			case "<":
				return ls < rs
			case "<=":
				return ls <= rs
			case ">":
				return ls > rs
			case ">=":
				return ls >= rs
			}
		}
		if x.L.K == "lit" {
			if _, no := r.(nothing); ok1 && !ok2 && !no && !isNode(r) {
				// strings and other values: not what this is about
				panic(refOverflow{})
			}
		}
		return false
	}
	panic("expr " + x.K)
}

func isNode(v any) bool {
	_, ok := v.(*DNode)
	return ok
}

func scalar(v any) bool {
	switch v.(type) {
	case float64, string, bool:
		return true
	}
	return false
}

// refSearch returns the chains a path selects, in order; ok is false if the
// search is too big to be worth comparing.
func refSearch(root *DNode, p []Elem, phantom func(*DNode, string) bool, order func(*DNode) []int) (ret []*chain, ok bool) {
	return refSearchLooks(root, p, phantom, order, nil)
}

// refSearchLooks is refSearch; looks is told how many matches there were when
// the search first looked into each container.
func refSearchLooks(root *DNode, p []Elem, phantom func(*DNode, string) bool, order func(*DNode) []int, looks map[int]int) (ret []*chain, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refOverflow); !is {
				panic(r)
			}
			ok = false
		}
	}()
	if len(p) == 0 {
		return nil, true
	}
	rc := &chain{n: root, len: 1}
	e := &refEval{root: rc, phantom: phantom, order: order, budget: 60000}
	if looks != nil {
		e.looked = func(n *DNode) {
			if _, ok := looks[n.ID]; !ok {
				looks[n.ID] = len(ret)
			}
		}
	}
	e.emit = func(c *chain) {
		if len(ret) > 4000 {
			panic(refOverflow{})
		}
		ret = append(ret, c)
	}
	if e.selects(p[0].Sel, rc) {
		e.walk(rc, p)
	}
	return ret, true
}

// ways counts in how many ways a filter-free path can select the node at the
// end of a chain, judging by the names and indexes on it alone; what cannot
// be judged so counts as a match.
func ways(c *chain, p []Elem, lenient bool) int {
	cs := make([]*chain, 0, c.len)
	for x := c; x != nil; x = x.up {
		cs = append([]*chain{x}, cs...)
	}
	var sel func(s Sel, i int) bool
	sel = func(s Sel, i int) bool {
		switch s.K {
		case "root":
			return i == 0
		case "cur", "wild":
			return true
		case "union":
			for _, u := range s.U {
				if sel(u, i) {
					return true
				}
			}
			return false
		case "key":
			return i > 0 && cs[i-1].n.Kind == 'o' && cs[i].name == s.Key
		case "idx":
			return i > 0 && cs[i-1].n.Kind == 'a' && (cs[i].ix == s.I || s.I < 0 && lenient)
		case "slice":
			if i == 0 || cs[i-1].n.Kind != 'a' {
				return false
			}
			if s.A != nil && *s.A < 0 || s.B != nil && *s.B < 0 {
				return lenient
			}
			return inSlice(s, cs[i].ix, 1<<60)
		case "filter":
			return lenient
		}
		panic("ways: " + s.K)
	}
	var count func(i, j int) int // chain element i was selected by path element j
	count = func(i, j int) int {
		if i == len(cs)-1 && j == len(p)-1 && !p[j].Rec {
			return 1
		}
		if j == len(p)-1 {
			if p[j].Rec && i < len(cs)-1 {
				return 1
			}
			return 0
		}
		n := 0
		if !p[j].Rec {
			if i+1 < len(cs) && sel(p[j+1].Sel, i+1) {
				n += count(i+1, j+1)
			}
			return n
		}
		for k := i + 1; k < len(cs); k++ {
			if sel(p[j+1].Sel, k) {
				n += count(k, j+1)
			}
		}
		return n
	}
	if !sel(p[0].Sel, 0) {
		return 0
	}
	return count(0, 0)
}

// Text of a path.

func quoteKey(k string, r *simrt.RNG) string {
	q := "'"
	if strings.Contains(k, "'") || (r.P(0.5) && !strings.Contains(k, `"`)) {
		q = `"`
	}
	return q + k + q
}

func plainIdent(k string) bool {
	if k == "" || k == "in" || k == "true" || k == "false" || k == "null" {
		return false
	}
	for i, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func itoa(i int) string { return strconv.Itoa(i) }

func sp(r *simrt.RNG) string {
	if r.P(0.1) {
		return " "
	}
	return ""
}

func (s Sel) inner(r *simrt.RNG) string {
	switch s.K {
	case "key":
		return quoteKey(s.Key, r)
	case "idx":
		return itoa(s.I)
	case "wild":
		return "*"
	case "slice":
		o := func(p *int) string {
			if p == nil {
				return ""
			}
			return itoa(*p)
		}
		t := o(s.A) + ":" + o(s.B)
		if s.C != nil {
			t += ":" + o(s.C)
		}
		return t
	case "union":
		var l []string
		for _, u := range s.U {
			l = append(l, u.inner(r))
		}
		return strings.Join(l, ","+sp(r))
	case "filter":
		return "?(" + s.F.text(r) + ")"
	}
	panic("inner " + s.K)
}

func elemsText(b *strings.Builder, es []Elem, rec bool, r *simrt.RNG) {
	for _, e := range es {
		s := e.Sel
		switch {
		case s.K == "key" && plainIdent(s.Key) && r.P(0.7):
			if rec {
				b.WriteString("..")
			} else {
				b.WriteString(".")
			}
			b.WriteString(s.Key)
		case s.K == "wild" && r.P(0.5):
			if rec {
				b.WriteString("..*")
			} else {
				b.WriteString(".*")
			}
		default:
			if rec {
				b.WriteString("..")
			}
			b.WriteString("[" + sp(r) + s.inner(r) + sp(r) + "]")
		}
		rec = e.Rec
	}
	if rec {
		b.WriteString("..")
	}
}

func (o *Operand) text(r *simrt.RNG) string {
	var b strings.Builder
	switch o.K {
	case "lit":
		return litText(o.V, r)
	case "arith":
		return o.path(r) + " " + o.Op + " " + itoa(o.N)
	case "len":
		if o.Fn || len(o.P) == 0 && r.P(0.5) {
			return "length(" + o.path(r) + ")"
		}
		return o.path(r) + ".length()"
	}
	b.WriteString(o.path(r))
	return b.String()
}

func litText(v any, r *simrt.RNG) string {
	switch x := v.(type) {
	case string:
		return "'" + x + "'"
	case float64:
		if x == float64(int(x)) {
			return litText(int(x), r)
		}
		return strconv.FormatFloat(x, 'f', -1, 64)
	case int:
		if x >= 0 && r.P(0.1) {
			return fmt.Sprintf("0x%x", x)
		}
		return itoa(x)
	case bool:
		return fmt.Sprint(x)
	}
	panic("lit")
}

func (o *Operand) path(r *simrt.RNG) string {
	var b strings.Builder
	if o.Root {
		b.WriteString("$")
	} else {
		b.WriteString("@")
	}
	elemsText(&b, o.P, o.Rec0, r)
	return b.String()
}

func (x *Expr) text(r *simrt.RNG) string {
	switch x.K {
	case "and", "or":
		op := " && "
		if x.K == "or" {
			op = " || "
		}
		if r.P(0.2) {
			op = strings.TrimSpace(op)
		}
		return x.X.operandText(x, true, r) + op + x.Y.operandText(x, false, r)
	case "not":
		return "!(" + x.X.text(r) + ")"
	case "exists":
		return x.L.text(r)
	case "cmp":
		s := " "
		if r.P(0.4) && x.L.K != "arith" {
			s = ""
		}
		return x.L.text(r) + s + x.Op + s + x.R.text(r)
	case "in":
		var l []string
		for _, v := range x.In {
			l = append(l, litText(v, r))
		}
		return x.L.text(r) + " in [" + strings.Join(l, ",") + "]"
	case "among":
		return x.L.text(r) + " in " + x.R.text(r)
	}
	panic("expr")
}

// operandText is how x is written as an operand of and or or.
func (x *Expr) operandText(of *Expr, left bool, r *simrt.RNG) string {
	var need bool
	switch x.K {
	case "or":
		need = of.K == "and" || !left
	case "and":
		need = of.K == "and" && !left
	}
	if need || r.P(0.6) {
		return "(" + x.text(r) + ")"
	}
	return x.text(r)
}

// pathText renders a path that starts with the root or current selector.
func pathText(p []Elem, r *simrt.RNG) string {
	if simple, ok := simpleText(p, r); ok && r.P(0.2) {
		return simple
	}
	var b strings.Builder
	if p[0].Sel.K == "cur" {
		b.WriteString("@")
	} else {
		b.WriteString("$")
	}
	elemsText(&b, p[1:], p[0].Rec, r)
	return b.String()
}

func simpleText(p []Elem, r *simrt.RNG) (string, bool) {
	if p[0].Sel.K != "root" || p[0].Rec || len(p) < 2 {
		return "", false
	}
	s := ""
	for _, e := range p[1:] {
		if e.Rec {
			return "", false
		}
		switch e.Sel.K {
		case "key":
			if plainIdent(e.Sel.Key) {
				s += "/" + e.Sel.Key
			} else {
				s += "/" + quoteKey(e.Sel.Key, r)
			}
		case "idx":
			if e.Sel.I < 0 {
				return "", false
			}
			s += "/" + itoa(e.Sel.I)
		case "wild":
			s += "/*"
		default:
			return "", false
		}
	}
	return s, true
}

// Generation of paths.

type pathGen struct {
	r       *simrt.RNG
	filters bool
	live    bool // only what can be judged while the document changes
	doc     *DNode
	maxRec  int
	weird   bool
	ints    bool
	nest    int
	big     bool
}

func ip(i int) *int { return &i }

func isNumber(k string) bool {
	_, err := strconv.Atoi(k)
	return err == nil
}

func (g *pathGen) key(n *DNode) string {
	if n != nil && n.Kind == 'o' && len(n.Keys) > 0 && g.r.P(0.85) {
		// a path may take a number for an index
		if k := n.Keys[g.r.N(len(n.Keys))]; !isNumber(k) {
			if g.weird && g.r.P(0.05) {
				if near := nearKey(g.r, k); near != "" && !isNumber(near) {
					return near
				}
			}
			return k
		}
	}
	if g.weird && g.r.P(0.1) {
		return g.r.Pick(weirdKeys)
	}
	return g.r.Pick([]string{"a", "b", "c", "d", "n0", "s0", "missing"})
}

// sel generates a selector for the children of n (which may be nil).
func (g *pathGen) sel(n *DNode, inUnion bool) Sel {
	r := g.r
	if n != nil && r.P(0.9) {
		switch n.Kind {
		case 'o':
			x := r.N(20)
			switch {
			case x < 11:
				return Sel{K: "key", Key: g.key(n)}
			case x < 15 && !inUnion:
				return Sel{K: "wild"}
			case x < 17 && !inUnion:
				return g.union(n)
			case g.filters:
				return Sel{K: "filter", F: g.expr(n, 2)}
			}
			return Sel{K: "key", Key: g.key(n)}
		case 'a':
			x := r.N(20)
			switch {
			case x < 6:
				return Sel{K: "idx", I: g.index(len(n.Kids))}
			case x < 10:
				return g.slice(len(n.Kids))
			case x < 14 && !inUnion:
				return Sel{K: "wild"}
			case x < 16 && !inUnion:
				return g.union(n)
			case g.filters:
				return Sel{K: "filter", F: g.expr(n, 2)}
			}
			return Sel{K: "idx", I: g.index(len(n.Kids))}
		}
	}
	switch r.N(5) {
	case 0:
		return Sel{K: "idx", I: g.index(3)}
	case 1:
		return g.slice(3)
	case 2:
		if !inUnion {
			return Sel{K: "wild"}
		}
	}
	return Sel{K: "key", Key: g.key(n)}
}

func (g *pathGen) index(n int) int {
	if g.live || g.r.P(0.7) {
		return g.r.N(n + 1)
	}
	return -g.r.In(1, n+2)
}

func (g *pathGen) slice(n int) Sel {
	b := func() *int {
		switch {
		case g.r.P(0.3):
			return nil
		case g.r.P(0.04):
			return ip(113667776004)
		case g.live || g.r.P(0.65):
			return ip(g.r.N(n + 2))
		}
		return ip(-g.r.In(1, n+2))
	}
	s := Sel{K: "slice", A: b(), B: b()}
	if g.r.P(0.4) {
		s.C = ip(g.r.In(1, 3))
		if g.r.P(0.06) {
			s.C = ip(9223372036854775807)
		}
	}
	return s
}

func (g *pathGen) union(n *DNode) Sel {
	s := Sel{K: "union"}
	k := g.r.In(2, 3)
	if g.r.P(0.04) {
		k = []int{8, 9, 17, 33, 64, 65, 70}[g.r.N(7)]
	}
	for i := 0; i < k; i++ {
		s.U = append(s.U, g.sel(n, true))
	}
	return s
}

func (g *pathGen) relPath(n *DNode, max int) []Elem {
	var p []Elem
	for i, k := 0, g.r.In(1, max); i < k; i++ {
		if i == k-1 && k > 1 && g.r.P(0.1) {
			p = append(p, Elem{Sel: Sel{K: "wild"}})
			break
		}
		s := g.plainSel(n)
		if n != nil && n.Kind == 'a' && g.r.P(0.08) {
			s = g.slice(len(n.Kids))
		} else if n != nil && n.Kind == 'o' && g.r.P(0.04) {
			s = Sel{K: "union", U: []Sel{s, g.plainSel(n)}}
		}
		p = append(p, Elem{Sel: s})
		n = step(n, s, g.r)
	}
	return p
}

func (g *pathGen) plainSel(n *DNode) Sel {
	if n != nil && n.Kind == 'a' {
		return Sel{K: "idx", I: g.index(len(n.Kids))}
	}
	return Sel{K: "key", Key: g.key(n)}
}

// step picks a node that s selects below n, to make paths that lead somewhere.
func step(n *DNode, s Sel, r *simrt.RNG) (ret *DNode) {
	if n == nil || len(n.Kids) == 0 {
		return nil
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(refOverflow); !ok {
				panic(p)
			}
			ret = n.Kids[0]
		}
	}()
	var c []*DNode
	cc := &chain{n: n, len: 1}
	e := &refEval{root: cc, budget: 2000, emit: func(*chain) {}}
	for _, k := range e.children(cc) {
		e.budget = 2000
		if s.K == "filter" || e.selects(s, k) {
			c = append(c, k.n)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[r.N(len(c))]
}

func (g *pathGen) operand(n *DNode) *Operand {
	o := &Operand{K: "path", P: g.relPath(n, 2)}
	if g.r.P(0.2) && g.doc != nil {
		o.Root = true
		o.P = g.relPath(g.doc, 3)
	} else if g.r.P(0.1) {
		o.Rec0 = true
		o.P = o.P[:1]
		if o.P[0].Sel.K != "key" {
			o.P[0].Sel = Sel{K: "key", Key: g.key(nil)}
		}
	} else if g.nest == 0 && g.filters && g.r.P(0.08) {
		g.nest++
		o.P = []Elem{o.P[0], {Sel: Sel{K: "filter", F: g.cmp(nil)}}}
		g.nest--
	}
	return o
}

func (g *pathGen) cmp(n *DNode) *Expr {
	r := g.r
	pre := []Elem{}
	if n != nil && r.P(0.2) {
		s := g.plainSel(n)
		pre = append(pre, Elem{Sel: s})
	}
	rel := func(k string) *Operand {
		return &Operand{K: "path", P: append(append([]Elem(nil), pre...), Elem{Sel: Sel{K: "key", Key: k}})}
	}
	num := func() *Operand { return &Operand{K: "lit", V: float64(r.N(5) - 1)} }
	switch r.N(12) {
	case 9:
		// any nodes, and a string
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!=", "<", ">", "<=", ">="}), L: &Operand{K: "lit", V: r.Pick([]string{"x", "y", "hello", "[", "[{", "{0", "a"})}, R: g.operand(n)}
	case 10:
		x := &Expr{K: "among", L: g.operand(n), R: g.operand(g.doc)}
		x.R.Root = true
		if r.P(0.4) {
			x.L = &Operand{K: "lit", V: r.Pick([]string{"x", "y", "hello"})}
		}
		return x
	case 11:
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!="}), L: g.operand(n), R: g.operand(n)}
	case 0, 1, 2:
		x := Expr{K: "cmp", Op: r.Pick([]string{"==", "!=", "<", "<=", ">", ">=", "===", "!=="}), L: rel(r.Pick([]string{"n0", "n1"})), R: num()}
		return x.fix(g)
	case 3:
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!=", "<", ">"}), L: rel("s0"), R: &Operand{K: "lit", V: r.Pick([]string{"x", "y", "hello", "m"})}}
	case 4:
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!="}), L: rel("f0"), R: &Operand{K: "lit", V: r.P(0.5)}}
	case 5:
		o := g.operand(n)
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!="}), L: o, R: num()}
	case 6:
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!=", "<", ">="}), L: rel("n0"), R: &Operand{K: "path", Root: r.P(0.5), P: []Elem{{Sel: Sel{K: "key", Key: "n1"}}}}}
	case 7:
		o := g.operand(n)
		o.Rec0 = false
		for i := range o.P {
			if k := o.P[i].Sel.K; k != "key" && k != "idx" {
				o.P[i].Sel = Sel{K: "key", Key: g.key(nil)}
			}
		}
		o.K = "len"
		o.Fn = r.P(0.5)
		if r.P(0.4) {
			o.P, o.Root, o.Fn = nil, false, true
		}
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", ">", "<=", "!="}), L: o, R: &Operand{K: "lit", V: float64(r.N(4))}}
	}
	o := rel(r.Pick([]string{"n0", "n1"}))
	o.K, o.Op, o.N = "arith", r.Pick([]string{"+", "-", "*", "%", "**"}), r.In(1, 3)
	return &Expr{K: "cmp", Op: r.Pick([]string{"==", ">", ">="}), L: o, R: num()}
}

// fix keeps === to values whose Go type the model does not vary.
func (x Expr) fix(g *pathGen) *Expr {
	if x.Op == "===" || x.Op == "!==" {
		if x.L != nil {
			x.L.P[len(x.L.P)-1].Sel.Key = "s0"
			x.R = &Operand{K: "lit", V: g.r.Pick([]string{"x", "y", "hello"})}
		}
	}
	return &x
}

func (g *pathGen) expr(n *DNode, depth int) *Expr {
	r := g.r
	if depth == 2 && g.nest == 0 && r.P(0.03) {
		// a long one
		x := g.expr(n, 0)
		for i, l := 0, r.In(3, 20); i < l; i++ {
			x = &Expr{K: r.Pick([]string{"and", "or", "or"}), X: x, Y: g.expr(n, 0)}
		}
		return x
	}
	var kid *DNode
	if n != nil && len(n.Kids) > 0 {
		kid = n.Kids[r.N(len(n.Kids))]
	}
	if depth > 0 {
		switch r.N(10) {
		case 0:
			return &Expr{K: "and", X: g.expr(n, depth-1), Y: g.expr(n, depth-1)}
		case 1:
			return &Expr{K: "or", X: g.expr(n, depth-1), Y: g.expr(n, depth-1)}
		case 2:
			return &Expr{K: "not", X: g.expr(n, depth-1)}
		}
	}
	switch r.N(8) {
	case 0, 1:
		return &Expr{K: "exists", L: g.operand(kid)}
	case 2:
		return &Expr{K: "cmp", Op: r.Pick([]string{"==", "!="}), L: &Operand{K: "path"}, R: &Operand{K: "lit", V: g.r.Pick([]string{"x", "hello"})}}
	case 3:
		o := &Operand{K: "path", P: g.relPath(kid, 1)}
		if r.P(0.3) {
			o.P = nil
		}
		if r.P(0.5) {
			return &Expr{K: "in", L: o, In: []any{"x", "zz"}}
		}
		return &Expr{K: "in", L: o, In: []any{0.0, 2.0, 3.0}}
	}
	return g.cmp(kid)
}

// gen generates a path that starts at the root.
func (g *pathGen) gen() []Elem {
	r := g.r
	first := Sel{K: "root"}
	if r.P(0.05) {
		first = Sel{K: "cur"}
	}
	p := []Elem{{Sel: first}}
	n := g.doc
	recs := 0
	steps := r.In(1, 4)
	if h := g.doc.height(); h > 8 && r.P(0.5) {
		// a long way down
		steps = r.In(5, h+1)
		for i := r.N(steps); i > 0 && n != nil; i-- {
			s := g.plainSel(n)
			switch r.N(12) {
			case 0:
				s = Sel{K: "wild"}
			case 1:
				if n.Kind == 'a' {
					s = g.slice(len(n.Kids))
				}
			case 2:
				s = Sel{K: "union", U: []Sel{s, g.plainSel(n)}}
			}
			m := step(n, s, r)
			if m == nil {
				continue
			}
			p = append(p, Elem{Sel: s})
			n = m
		}
		steps = r.N(4)
	}
	for i, k := 0, steps; i < k; i++ {
		if recs < g.maxRec && r.P(0.25) {
			recs++
			p[len(p)-1].Rec = true
			// go on from some node further down
			for n != nil && len(n.Kids) > 0 && r.P(0.5) {
				n = n.Kids[r.N(len(n.Kids))]
			}
		}
		s := g.sel(n, false)
		p = append(p, Elem{Sel: s})
		n = step(n, s, r)
		if n != nil && n.Kind == 'v' && r.P(0.8) {
			break
		}
	}
	if recs < g.maxRec && r.P(0.06) {
		p[len(p)-1].Rec = true
	}
	return p
}

func (s Sel) hasFilter() bool {
	if s.K == "filter" {
		return true
	}
	for _, u := range s.U {
		if u.hasFilter() {
			return true
		}
	}
	return false
}

func hasFilter(p []Elem) bool {
	for _, e := range p {
		if e.Sel.hasFilter() {
			return true
		}
	}
	return false
}
