package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// DNode is a node of a simulated document: the reference copy of it.
type DNode struct {
	ID   int
	Kind byte // o, a, v
	Keys []string
	Kids []*DNode
	Val  any

	raw any // what MapModel sees

	parent *DNode
	name   string
	ix     int
	born   int      // when it became part of the document, by the document's clock
	died   int      // when it stopped being part of it
	tomb   []*DNode // elements it has lost, from the present end on
	h      *hPtr
}

const never = 1 << 60

type jnode struct {
	O []jpair  `json:"o,omitempty"`
	A []*DNode `json:"a,omitempty"`
	K string   `json:"k"`
	V any      `json:"v,omitempty"`
}

type jpair struct {
	K string `json:"k"`
	N *DNode `json:"n"`
}

func (n *DNode) MarshalJSON() ([]byte, error) {
	j := jnode{K: string(n.Kind)}
	switch n.Kind {
	case 'o':
		for i, k := range n.Keys {
			j.O = append(j.O, jpair{k, n.Kids[i]})
		}
	case 'a':
		j.A = n.Kids
	default:
		j.V = n.Val
	}
	return json.Marshal(j)
}

func (n *DNode) UnmarshalJSON(b []byte) error {
	var j jnode
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	n.Kind = j.K[0]
	n.Val = j.V
	for _, p := range j.O {
		n.Keys = append(n.Keys, p.K)
		n.Kids = append(n.Kids, p.N)
	}
	n.Kids = append(n.Kids, j.A...)
	return nil
}

func (n *DNode) clone() *DNode {
	c := &DNode{Kind: n.Kind, Val: n.Val, Keys: append([]string(nil), n.Keys...), ID: n.ID}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

// height is how many nodes there are on the longest way down.
func (n *DNode) height() int {
	h := 0
	for _, k := range n.Kids {
		if x := k.height(); x > h {
			h = x
		}
	}
	return h + 1
}

func (n *DNode) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

// number gives nodes their ids, in preorder.
func (n *DNode) number(next *int, all *[]*DNode) {
	n.ID = *next
	*next++
	n.died = never
	*all = append(*all, n)
	for i, k := range n.Kids {
		k.parent = n
		if n.Kind == 'o' {
			k.name = n.Keys[i]
		} else {
			k.ix = i
		}
		k.number(next, all)
	}
}

func (n *DNode) key(k string) *DNode {
	for i, x := range n.Keys {
		if x == k {
			return n.Kids[i]
		}
	}
	return nil
}

func (n *DNode) setKey(k string, c *DNode) {
	for i, x := range n.Keys {
		if x == k {
			n.Kids[i] = c
			return
		}
	}
	n.Keys = append(append([]string(nil), n.Keys...), k)
	n.Kids = append(append([]*DNode(nil), n.Kids...), c)
}

func (n *DNode) delKey(k string) bool {
	for i, x := range n.Keys {
		if x == k {
			n.Keys = append(append([]string(nil), n.Keys[:i]...), n.Keys[i+1:]...)
			n.Kids = append(append([]*DNode(nil), n.Kids[:i]...), n.Kids[i+1:]...)
			return true
		}
	}
	return false
}

// rawValue builds, or brings up to date, the map[string]any form. Maps stay
// the same maps, as they would in a program that updates its document.
func (n *DNode) rawValue(ints bool) any {
	switch n.Kind {
	case 'o':
		m, _ := n.raw.(map[string]any)
		if m == nil {
			m = make(map[string]any)
		}
		for k := range m {
			if n.key(k) == nil {
				delete(m, k)
			}
		}
		for i, k := range n.Keys {
			m[k] = n.Kids[i].rawValue(ints)
		}
		n.raw = m
	case 'a':
		a, _ := n.raw.([]any)
		if a == nil || len(a) != len(n.Kids) {
			a = make([]any, len(n.Kids))
		}
		for i, k := range n.Kids {
			a[i] = k.rawValue(ints)
		}
		n.raw = a
	default:
		n.raw = n.value(ints)
	}
	return n.raw
}

// value is the value of a value node as a model returns it.
func (n *DNode) value(ints bool) any {
	switch x := n.Val.(type) {
	case float64:
		if ints && x == float64(int(x)) {
			return int(x)
		}
	case string:
		if len(x) > 1 && x[0] == oddMark {
			return oddValue(x[1:])
		}
	}
	return n.Val
}

// Values of types JSON does not have. Plans name them.
const oddMark = 1

var oddNames = []string{"i64", "i32", "u8", "f32", "num", "str", "ints", "strs", "struct", "dur", "err", "inf"}

type (
	oddNum    int
	oddStr    string
	oddStruct struct{ A, B int }
)

func oddValue(s string) any {
	switch s {
	case "i64":
		return int64(3)
	case "i32":
		return int32(-1)
	case "u8":
		return uint8(2)
	case "f32":
		return float32(1.5)
	case "num":
		return oddNum(2)
	case "str":
		return oddStr("x")
	case "ints":
		return []int{1, 2}
	case "strs":
		return []string{"x"}
	case "struct":
		return oddStruct{1, 2}
	case "dur":
		return 2 * time.Second
	case "err":
		return thrownVal{4}
	}
	return math.Inf(1)
}

// oddValues replaces some values by such.
func oddValues(r *simrt.RNG, n *DNode) {
	if n.Kind == 'v' && r.P(0.25) {
		n.Val = string(rune(oddMark)) + r.Pick(oddNames)
	}
	for _, k := range n.Kids {
		oddValues(r, k)
	}
}

// canonical JSON of a node.
func (n *DNode) json() string {
	b, _ := json.Marshal(n.clone().rawValue(false))
	return string(b)
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	return string(b)
}

// Document generation.

type docGen struct {
	r      *simrt.RNG
	budget int
	ints   bool // whole numbers only
	weird  bool
	number bool // keys that look like indexes
	nulls  bool
}

var plainKeys = []string{"a", "b", "c", "d"}
var weirdKeys = []string{"k 1", "ключ", "x-y", "q'q", `d"d`, "length", "in", "root$"}

// keys that differ in their last letter, or in how long they are
var longKeys = func() (l []string) {
	for _, n := range []int{15, 31, 63, 64, 127, 255, 300} {
		p := strings.Repeat("k", n)
		l = append(l, p+"a", p+"b", p)
	}
	return
}()

// keys that look like indexes
var numberKeys = []string{"0", "1", "2", "-1"}

func (g *docGen) keyName() string {
	x := g.r.N(20)
	switch {
	case x < 9:
		return g.r.Pick(plainKeys)
	case x < 13:
		return g.r.Pick([]string{"n0", "n1"})
	case x < 15:
		return "s0"
	case x < 16:
		return "f0"
	case x < 17 && g.nulls:
		return "z"
	case x < 19 && g.weird:
		if g.number && g.r.P(0.2) {
			return g.r.Pick(numberKeys)
		}
		if g.r.P(0.3) {
			return g.r.Pick(longKeys[g.r.N(len(longKeys)/3)*3:][:3])
		}
		return g.r.Pick(weirdKeys)
	}
	return g.r.Pick(plainKeys)
}

// nearKey is a key that is almost k: another letter somewhere, one more or
// less, letters in the other case, written with a combining mark.
func nearKey(r *simrt.RNG, k string) string {
	l := []rune(k)
	i := r.N(len(l))
	switch r.N(11) {
	case 0:
		return k + r.Pick([]string{"a", "_", " ", "0", "s"})
	case 1:
		return r.Pick([]string{"a", "_", " ", "a.b"}) + k
	case 2:
		if len(l) > 1 {
			return string(l[:len(l)-1])
		}
	case 3:
		if u := strings.ToUpper(k); u != k {
			return u
		}
		return strings.ToLower(k)
	case 4:
		if len(l) > 1 {
			j := r.N(len(l) - 1)
			l[j], l[j+1] = l[j+1], l[j]
			return string(l)
		}
	case 5:
		return string(l[:i]) + r.Pick([]string{"\u00e9", "e\u0301", "\u200b", "ß", "ss"}) + string(l[i:])
	}
	l[i] = rune("abcdxyAB_"[r.N(9)])
	return string(l)
}

func (g *docGen) nearKey(k string) string {
	n := nearKey(g.r, k)
	if n == "z" || n == "" || isNumber(n) {
		return k
	}
	return n
}

func (g *docGen) num() any {
	if g.r.P(0.05) {
		return float64(g.r.N(2)) * -3
	}
	if !g.ints && g.r.P(0.2) {
		return float64(g.r.N(4)) + 0.5
	}
	return float64(g.r.N(5))
}

func (g *docGen) str() any {
	if g.r.P(0.1) {
		return g.r.Pick([]string{"0", "1", "2", "true", "false", "null"})
	}
	return g.r.Pick([]string{"", "x", "y", "hello", "zz"})
}

func (g *docGen) scalar() *DNode {
	switch g.r.N(6) {
	case 0, 1, 2:
		return &DNode{Kind: 'v', Val: g.num()}
	case 3, 4:
		return &DNode{Kind: 'v', Val: g.str()}
	}
	return &DNode{Kind: 'v', Val: g.r.P(0.5)}
}

func (g *docGen) valueFor(k string, depth int) *DNode {
	if k == "z" {
		g.budget--
		return &DNode{Kind: 'v', Val: nil}
	}
	if (k[0] == 'n' || k[0] == 's' || k[0] == 'f') && g.r.P(0.85) {
		g.budget--
		switch k[0] {
		case 'n':
			return &DNode{Kind: 'v', Val: g.num()}
		case 's':
			return &DNode{Kind: 'v', Val: g.str()}
		}
		return &DNode{Kind: 'v', Val: g.r.P(0.5)}
	}
	if k[0] == 'n' || k[0] == 's' || k[0] == 'f' {
		return g.container(depth)
	}
	return g.node(depth)
}

func (g *docGen) container(depth int) *DNode {
	g.budget--
	n := g.r.In(0, 4)
	if g.r.P(0.1) {
		n = 0
	}
	if depth <= 0 {
		n = 0
	}
	if g.r.P(0.55) {
		d := &DNode{Kind: 'o'}
		for i := 0; i < n && g.budget > 0; i++ {
			k := g.keyName()
			if g.weird && len(d.Keys) > 0 && g.r.P(0.25) {
				k = g.nearKey(g.r.Pick(d.Keys))
			}
			if d.key(k) == nil {
				d.Keys = append(d.Keys, k)
				d.Kids = append(d.Kids, g.valueFor(k, depth-1))
			}
		}
		return d
	}
	d := &DNode{Kind: 'a'}
	for i := 0; i < n && g.budget > 0; i++ {
		d.Kids = append(d.Kids, g.node(depth-1))
	}
	return d
}

func (g *docGen) node(depth int) *DNode {
	if depth <= 0 || g.r.P(0.35) {
		g.budget--
		return g.scalar()
	}
	return g.container(depth)
}

func genDoc(r *simrt.RNG, max int, ints, weird, number, nulls bool) *DNode {
	g := &docGen{r: r, budget: max, ints: ints, weird: weird, number: number, nulls: nulls}
	if r.P(0.03) {
		return g.scalar()
	}
	d := &DNode{}
	for i := 0; i < 4; i++ {
		d = g.container(r.In(2, 5))
		if d.size() >= 3 {
			break
		}
	}
	// a repeated shape makes wildcards and filters select several nodes
	if r.P(0.5) && len(d.Kids) > 0 {
		t := d.Kids[r.N(len(d.Kids))]
		if t.size() < max/3 {
			for i, n := 0, r.In(1, 2); i < n; i++ {
				c := t.clone()
				if len(c.Kids) > 0 && r.P(0.5) {
					c.Kids[r.N(len(c.Kids))] = g.scalarLike(c, r)
				}
				if d.Kind == 'a' {
					d.Kids = append(d.Kids, c)
				} else {
					for _, k := range plainKeys {
						if d.key(k) == nil {
							d.setKey(k, c)
							break
						}
					}
				}
			}
		}
	}
	return d
}

// bigDoc is a deep document, or a wide one.
func bigDoc(r *simrt.RNG, ints bool) *DNode {
	g := &docGen{r: r, budget: 1 << 30, ints: ints}
	if r.P(0.5) {
		d := g.container(2)
		for i, n := 0, []int{20, 40, 64, 100, 127, 128, 129, 140, 200, 260, 300, 520, 1030}[r.N(13)]+r.N(3); i < n; i++ {
			if r.P(0.5) {
				u := &DNode{Kind: 'a', Kids: []*DNode{d}}
				for r.P(0.1) {
					u.Kids = append(u.Kids, g.scalar())
				}
				d = u
				continue
			}
			u := &DNode{Kind: 'o'}
			u.setKey(r.Pick(plainKeys), d)
			for r.P(0.1) {
				k := r.Pick([]string{"n0", "n1", "s0"})
				u.setKey(k, g.valueFor2(k))
			}
			d = u
		}
		return d
	}
	// wide
	d := &DNode{Kind: 'a'}
	n := []int{9, 13, 17, 20, 33, 40, 65, 100, 128, 129, 150, 257, 300, 513, 1025, 2050, 4100}[r.N(17)]
	proto := g.container(2)
	if r.P(0.5) {
		for i := 0; i < n; i++ {
			c := g.scalar()
			if r.P(0.3) {
				c = proto.clone()
			}
			d.Kids = append(d.Kids, c)
		}
	} else {
		d.Kind = 'o'
		for i := 0; i < n; i++ {
			c := g.scalar()
			if r.P(0.3) {
				c = proto.clone()
			}
			d.Keys = append(d.Keys, "w"+strconv.Itoa(i))
			d.Kids = append(d.Kids, c)
		}
	}
	if r.P(0.5) {
		u := &DNode{Kind: 'o'}
		u.setKey("a", d)
		u.setKey("b", proto.clone())
		d = u
	}
	return d
}

func (g *docGen) valueFor2(k string) *DNode {
	if k[0] == 's' {
		return &DNode{Kind: 'v', Val: g.str()}
	}
	return &DNode{Kind: 'v', Val: g.num()}
}

// scalarLike keeps to the types that keys n*, s* and f* promise.
func (g *docGen) scalarLike(p *DNode, r *simrt.RNG) *DNode {
	if p.Kind == 'a' {
		return g.scalar()
	}
	return &DNode{Kind: 'o'}
}

// chain is a root-to-node path of the reference copy.
type chain struct {
	n    *DNode
	up   *chain
	name string
	ix   int
	len  int
}

func (c *chain) child(n *DNode, name string, ix int) *chain {
	return &chain{n: n, up: c, name: name, ix: ix, len: c.len + 1}
}

func (c *chain) String() string { return string(c.text(nil)) }

func (c *chain) text(b []byte) []byte {
	if c.up == nil {
		return append(b, '$')
	}
	b = c.up.text(b)
	if c.up.n.Kind == 'o' {
		return strconv.AppendQuote(append(b, '.'), c.name)
	}
	return append(strconv.AppendInt(append(b, '['), int64(c.ix), 10), ']')
}

func (n *DNode) String() string { return fmt.Sprintf("%c%d", n.Kind, n.ID) }
