package main

import (
	"strings"

	"verif.local/sim/simrt"
)

// wildGen writes path texts from the whole grammar, for properties that need
// no reference: what such a text means is what it means to a lone caller.
type wildGen struct {
	r   *simrt.RNG
	doc *DNode
	// how deep expressions nest
	depth int
}

var oddKeys = []string{"", "0", "1", "-1", "k 1", "ключ", "x-y", "length", "in", "null", "true", "*", "$", "@", "a.b"}

func (w *wildGen) key(n *DNode) string {
	if n != nil && n.Kind == 'o' && len(n.Keys) > 0 && w.r.P(0.8) {
		return n.Keys[w.r.N(len(n.Keys))]
	}
	if w.r.P(0.2) {
		return w.r.Pick(oddKeys)
	}
	return w.r.Pick([]string{"a", "b", "c", "d", "n0", "n1", "s0", "f0", "z", "missing"})
}

func (w *wildGen) quoted(k string) string {
	var b strings.Builder
	q := w.r.Pick([]string{"'", `"`})
	b.WriteString(q)
	for _, c := range k {
		s := string(c)
		switch {
		case s == q:
			b.WriteString(`\` + q)
		case c == 'x' && w.r.P(0.3):
			b.WriteString(`\x78`)
		case c == 'a' && w.r.P(0.1):
			b.WriteString(`\u0061`)
		default:
			b.WriteString(s)
		}
	}
	b.WriteString(q)
	return b.String()
}

func (w *wildGen) num() string {
	r := w.r
	switch r.N(12) {
	case 0:
		return r.Pick([]string{"0x0", "0x1", "0X2", "0b1", "0b10", "0o2", "1e0", "2.5", "0.5", "1.0", "15e-1"})
	case 1:
		return "-" + itoa(r.In(1, 4))
	}
	return itoa(r.N(5))
}

// intText is an index or a bound of a slice.
func (w *wildGen) intText(n int) string {
	r := w.r
	switch r.N(14) {
	case 0:
		return "-" + itoa(n+r.In(1, 3))
	case 1, 2, 3:
		return "-" + itoa(r.In(1, n+1))
	case 4:
		return itoa(n + r.In(1, 4))
	case 5:
		return r.Pick([]string{"1+1", "2-1", "1*1", "0x1", "3-1", "9223372036854775807", "99999999999"})
	}
	return itoa(r.N(n + 1))
}

func (w *wildGen) slice(n int) string {
	r := w.r
	b := func() string {
		if r.P(0.3) {
			return ""
		}
		return w.intText(n)
	}
	s := b() + ":" + b()
	if r.P(0.5) {
		step := r.Pick([]string{"1", "2", "3", "-1", "-1", "-2", "0", "", "9223372036854775807", "-9223372036854775807"})
		if strings.HasPrefix(step, "-") && r.P(0.7) {
			// from the end, or from beyond it
			s = itoa(n+r.N(5)-1) + ":" + r.Pick([]string{"0", "0", "1", "-1", ""})
		}
		s += ":" + step
	}
	return s
}

// member is what can stand in brackets.
func (w *wildGen) member(n *DNode) string {
	r := w.r
	l := 3
	if n != nil {
		l = len(n.Kids)
	}
	arr := n != nil && n.Kind == 'a'
	switch x := r.N(20); {
	case x < 2:
		return "*"
	case x < 5 && w.depth > 0:
		return "?(" + w.expr(n) + ")"
	case x < 9 && arr || x == 9:
		return w.slice(l)
	case arr && x < 18:
		return w.intText(l)
	}
	return w.quoted(w.key(n))
}

// path writes a path for nodes below n.
func (w *wildGen) path(n *DNode, head string, max int) string {
	r := w.r
	var b strings.Builder
	b.WriteString(head)
	recs := 0
	for i, k := 0, r.In(0, max); i < k; i++ {
		rec := recs < 2 && r.P(0.2)
		if rec {
			recs++
		}
		switch {
		case rec && r.P(0.1):
			b.WriteString("..")
		case rec && r.P(0.4):
			b.WriteString(".." + r.Pick([]string{"*", "a", "b", "n0", "s0", "c"}))
		case r.P(0.3):
			if rec {
				b.WriteString(".")
			}
			k := w.key(n)
			if plainIdent(k) {
				b.WriteString("." + k)
			} else {
				b.WriteString(".*")
			}
		default:
			if rec {
				b.WriteString("..")
			}
			b.WriteString("[" + w.member(n))
			for r.P(0.2) {
				b.WriteString("," + sp(r) + w.member(n))
			}
			b.WriteString("]")
		}
		if n != nil {
			if len(n.Kids) == 0 {
				n = nil
			} else {
				n = n.Kids[r.N(len(n.Kids))]
			}
		}
		if rec {
			n = nil
		}
	}
	return b.String()
}

func (w *wildGen) operand(n *DNode) string {
	r := w.r
	var kid *DNode
	if n != nil && len(n.Kids) > 0 {
		kid = n.Kids[r.N(len(n.Kids))]
	}
	w.depth--
	defer func() { w.depth++ }()
	switch r.N(16) {
	case 0, 1, 2, 3, 4, 5:
		return w.path(kid, "@", 2)
	case 6:
		return w.path(w.doc, "$", 2)
	case 7, 8:
		return w.num()
	case 9:
		return w.quoted(r.Pick([]string{"x", "y", "hello", "", "1", "2"}))
	case 10:
		return r.Pick([]string{"true", "false", "null"})
	case 11:
		return r.Pick([]string{"length", "length", "size"}) + "(" + w.path(kid, "@", 1) + ")"
	case 12:
		return w.path(kid, "@", 1) + ".length()"
	case 13:
		if w.depth > 0 {
			return "(" + w.expr(n) + ")"
		}
		return "@"
	case 14:
		return "[" + w.num() + ", " + r.Pick([]string{"'x'", "@.n0", "2", "$.n0"}) + "]"
	}
	return w.path(kid, "@", 1)
}

func (w *wildGen) expr(n *DNode) string {
	r := w.r
	if w.depth <= 0 {
		return w.path(nil, "@", 1)
	}
	bin := func(ops ...string) string {
		return w.operand(n) + " " + r.Pick(ops) + " " + w.operand(n)
	}
	w.depth--
	defer func() { w.depth++ }()
	switch r.N(14) {
	case 0:
		return w.operand(n)
	case 1:
		return "!" + w.operand(n)
	case 2:
		return w.expr(n) + " && " + w.expr(n)
	case 3:
		return w.expr(n) + " || " + w.expr(n)
	case 4:
		return "!(" + w.expr(n) + ")"
	case 5, 6:
		return bin("+", "-", "*", "/", "%", "**") + " " + r.Pick([]string{"==", "<", ">", "!=", ">="}) + " " + w.operand(n)
	case 7:
		return w.operand(n) + " in " + r.Pick([]string{"[1,2,'x']", "[0]", "@.a", "['hello', 3, true]", "$.a"})
	case 8:
		return "-" + w.operand(n) + " < 1"
	}
	return bin("==", "!=", "===", "!==", "<", "<=", ">", ">=")
}

// sum is an operator between values of the document, and not just of literals.
func (w *wildGen) sum() string {
	r := w.r
	part := func() string {
		s := r.Pick([]string{"@", "@", "@.n0", "@.n1", "@." + r.Pick([]string{"a", "b", "c", "s0", "f0"}), "$.n0", "$.a", "$[0]", "1", "0", "2.5", "@.length()", "@[0]"})
		if r.P(0.2) {
			s = r.Pick([]string{"-", "+", "!"}) + s
		}
		return s
	}
	s := part() + " " + r.Pick([]string{"+", "-", "*", "/", "/", "%", "%", "**"}) + " " + part()
	switch r.N(6) {
	case 0:
		return s
	case 1:
		return s + " in [0, 1, @]"
	}
	return s + " " + r.Pick([]string{"==", "!=", "<", ">", "<=", ">=", "===", "!=="}) + " " + part()
}

// text is a whole path.
func (w *wildGen) text() string {
	w.depth = w.r.In(1, 3)
	if w.r.P(0.1) {
		return w.r.Pick([]string{"$..", "$", "$.a", "$..*", "$.*"}) + "[?(" + w.sum() + ")]"
	}
	head := "$"
	if w.r.P(0.05) {
		head = "@"
	}
	return w.path(w.doc, head, 4)
}
