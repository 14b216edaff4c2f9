package main

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
	"weak"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
)

// What the nodes of a simulated document look like to the library.
type hPtr struct {
	n *DNode
	d *simDoc
}
type hID int
type hUnc struct {
	n   *DNode
	d   *simDoc
	pad []int
}

// hJunk is what a failing lookup returns beside false.
type hJunk struct{ d *simDoc }

// simDoc is a document under the simulator: a gojsonpath.DocModel that checks
// how it is used and at which the plan injects faults.
type simDoc struct {
	ix    int
	spec  *DocSpec
	root  *DNode
	nodes []*DNode
	clock int
	junk  *hJunk
	x     *exec
	isMap bool

	broken map[int]bool // nodes that cannot be read
}

// adoptDoc presents a document whose nodes keep their ids.
func adoptDoc(x *exec, ix int, spec *DocSpec, root *DNode) *simDoc {
	d := &simDoc{ix: ix, spec: spec, root: root.clone(), x: x}
	var walk func(n *DNode)
	walk = func(n *DNode) {
		for len(d.nodes) <= n.ID {
			d.nodes = append(d.nodes, nil)
		}
		d.nodes[n.ID] = n
		n.died = never
		for i, k := range n.Kids {
			k.parent = n
			if n.Kind == 'o' {
				k.name = n.Keys[i]
			} else {
				k.ix = i
			}
			walk(k)
		}
	}
	walk(d.root)
	d.junk = &hJunk{d}
	d.isMap = spec.Model == "map"
	if d.isMap {
		d.root.rawValue(spec.Ints)
	}
	return d
}

// uncDoc is a model whose values cannot be compared.
type uncDoc struct {
	*simDoc
	pad []int
}

func newSimDoc(x *exec, ix int, spec *DocSpec) *simDoc {
	d := &simDoc{ix: ix, spec: spec, root: spec.Root.clone(), x: x}
	next := 0
	d.root.number(&next, &d.nodes)
	d.setBroken()
	d.junk = &hJunk{d}
	d.isMap = spec.Model == "map"
	if d.isMap {
		d.root.rawValue(spec.Ints)
	}
	return d
}

// model is what a caller passes to the library.
func (d *simDoc) model() gojsonpath.DocModel {
	if d.isMap {
		return gojsonpath.MapModel{Doc: d.root.raw}
	}
	if d.spec.UncMod {
		return uncDoc{simDoc: d}
	}
	return d
}

func (d *simDoc) handle(n *DNode) any {
	switch d.spec.Handle {
	case "fresh":
		return &hPtr{n, d}
	case "id":
		return hID(n.ID)
	case "int":
		return n.ID
	case "unc":
		return hUnc{n: n, d: d}
	case "str":
		if n == d.root {
			return ""
		}
		return itoa(n.ID)
	case "bool":
		// the root is false
		if n == d.root {
			return false
		}
	case "raw":
		return d.decoy(n)
	}
	if n.h == nil {
		n.h = &hPtr{n, d}
	}
	return n.h
}

// node is the inverse of handle: nil if h is no handle of this document.
func (d *simDoc) node(h any) *DNode {
	switch x := h.(type) {
	case *hPtr:
		if x != nil && x.d == d {
			return x.n
		}
	case hID:
		if d.spec.Handle == "id" && int(x) >= 0 && int(x) < len(d.nodes) {
			return d.nodes[x]
		}
	case int:
		if d.spec.Handle == "int" && x >= 0 && x < len(d.nodes) {
			return d.nodes[x]
		}
	case hUnc:
		if x.d == d {
			return x.n
		}
	case string:
		if d.spec.Handle == "str" {
			if x == "" {
				return d.root
			}
			if i, err := strconv.Atoi(x); err == nil && i > 0 && i < len(d.nodes) {
				return d.nodes[i]
			}
		}
	case bool:
		if d.spec.Handle == "bool" && !x {
			return d.root
		}
	case []any:
		if len(x) > 0 {
			if p, ok := x[len(x)-1].(*hPtr); ok && p.d == d {
				return p.n
			}
		}
	case map[string]any:
		if p, ok := x[decoyKey].(*hPtr); ok && p.d == d {
			return p.n
		}
	}
	return nil
}

const decoyKey = "the node itself"

// decoy looks like a node of a MapModel, of another kind and with other
// members than this node has.
func (d *simDoc) decoy(n *DNode) any {
	self := &hPtr{n, d}
	if n.Kind != 'a' && !simrt.RaceBuild {
		return map[string]any{"a": 1, "n0": self, "s0": "x", decoyKey: self}
	}
	return []any{1, "x", self}
}

func (d *simDoc) absent() any {
	if d.spec.Absent == "junk" {
		return d.junk
	}
	return nil
}

func (d *simDoc) ghost(n *DNode, key string) bool {
	for _, g := range d.spec.Ghosts {
		if g == key && n.key(key) == nil {
			return true
		}
	}
	return false
}

// vanished tells if the lookup of a member says it is absent though it is
// listed.
func (d *simDoc) vanished(n *DNode) bool {
	return d.spec.Vanish > 0 && int(simrt.Mix(d.spec.OSeed, 99, uint64(n.ID))%100) < d.spec.Vanish
}

// keyOrder is the order in which the members of n are listed.
func (d *simDoc) keyOrder(n *DNode, salt uint64) []int {
	switch d.spec.Order {
	case "perm":
		return simrt.NewRNG(simrt.Mix(d.spec.OSeed, uint64(n.ID))).Perm(len(n.Keys))
	case "shuf":
		return simrt.NewRNG(simrt.Mix(d.spec.OSeed, uint64(n.ID), salt)).Perm(len(n.Keys))
	}
	p := make([]int, len(n.Keys))
	for i := range p {
		p[i] = i
	}
	return p
}

const (
	mRoot = iota
	mType
	mLen
	mKey
	mKeys
	mElem
	mValue
)

var methodName = []string{"Root", "Type", "Len", "Key", "Keys", "Elem", "Value"}

// rec is what is known about one search while it runs and afterwards.
type rec struct {
	op       *Op
	out      *out
	ts       *taskState
	doc      *simDoc
	depth    int
	calls    int
	caps     []*capRec
	ncaps    int
	issued   []bool
	rootOut  bool
	lens     []int
	keys     []*keysRet
	t0, t1   int
	faulted  bool
	faultCap int
	done     bool
	grown    int
	afterN   int
	looks    []look // if the property needs them
	seen     map[int]bool
	now      *capRec // the match being delivered
	lied     bool    // the document has answered wrongly
	lie      uint64  // this call is to be
	nlies    int
	canary   weak.Pointer[canary]
}

// A look is the first time a search asked for members of a node.
type look struct {
	n    *DNode
	caps int // matches delivered by then
}

// canary is something only the callback of one search refers to.
type canary struct {
	self *canary
	_    [4]int
}

type keysRet struct {
	got  []string
	want []string
}

type capRec struct {
	text  string
	chain *chain
	last  *DNode
	segs  []gojsonpath.Segment
	path  gojsonpath.DocPath
	// a longer path the caller made of it, and what it was
	ext     gojsonpath.DocPath
	extSegs []gojsonpath.Segment
}

func (r *rec) setIssued(n *DNode) {
	for len(r.issued) <= n.ID {
		r.issued = append(r.issued, false)
	}
	r.issued[n.ID] = true
}

func (r *rec) wasIssued(n *DNode) bool { return n.ID < len(r.issued) && r.issued[n.ID] }

// enter is what every method of the model begins with.
func (d *simDoc) enter(m int, h any) (*rec, *DNode) {
	t := simrt.Cur()
	var ts *taskState
	if t == nil {
		ts = d.x.idle
	} else {
		ts = t.User.(*taskState)
	}
	var r *rec
	if len(ts.stack) > 0 {
		r = ts.stack[len(ts.stack)-1]
	}
	if t != nil && t.Child {
		ts.viol("contract:goroutine", "the model's "+methodName[m]+" was called on a goroutine that is not the caller's")
	}
	if r == nil {
		ts.viol("contract:outside", "the model's "+methodName[m]+" was called after the search had returned")
		simrt.YM(uint32(10 + m))
		return nil, d.node(h)
	}
	if r.doc != d {
		ts.viol("contract:otherdoc", "a search of document "+itoa(r.doc.ix)+" called "+methodName[m]+" of document "+itoa(d.ix))
		return r, d.node(h)
	}
	if r.faulted {
		r.afterN++
		if r.afterN == 1 {
			ts.viol("fault:call", "the model's "+methodName[m]+" was called after the model or the callback had panicked or exited")
		}
	}
	var n *DNode
	if m != mRoot {
		n = d.node(h)
		if r.lied {
			// what is wrong from here on is nobody's fault
		} else if n == nil {
			if _, ok := h.(*hJunk); ok || h == nil {
				ts.viol("absent:passed", methodName[m]+" was called with what the model had returned for an absent member")
			} else {
				ts.viol("contract:foreign", methodName[m]+" was called with something that is no node of the document: "+typeName(h))
			}
			panic(harnessStop{})
		}
		if !r.lied && !r.wasIssued(n) {
			ts.viol("contract:unissued", methodName[m]+" was called with a node the model had not handed out during this search")
		}
	}
	if d.x.wantLooks && n != nil && (m == mKey || m == mKeys || m == mElem) && !r.seen[n.ID] {
		if r.seen == nil {
			r.seen = map[int]bool{}
		}
		r.seen[n.ID] = true
		r.looks = append(r.looks, look{n, r.ncaps})
	}
	r.calls++
	if r.calls > maxCalls && ts.x.callLimit == "" {
		ts.x.callLimit = "the search made more than " + itoa(maxCalls) + " calls of the model"
		simrt.Abort()
	}
	d.x.fire(ts, r, "call", r.calls, n, nil)
	simrt.YM(uint32(10 + m))
	d.touched(r, m, n)
	return r, n
}

const maxCalls = 60000

// harnessStop ends a search whose use of the model cannot be answered.
type harnessStop struct{}

func typeName(h any) string {
	if h == nil {
		return "nil"
	}
	return reflect.TypeOf(h).String()
}

func (d *simDoc) Root() any {
	r, _ := d.enter(mRoot, nil)
	if g := r.lies(d.root, true); g != nil {
		return d.lieRoot(g)
	}
	if r != nil {
		r.setIssued(d.root)
	}
	return d.handle(d.root)
}

func (d *simDoc) Type(h any) gojsonpath.NodeType {
	r, n := d.enter(mType, h)
	if g := r.lies(n, true); g != nil {
		return d.lieType(g, h, n)
	}
	return nodeType(n)
}

func nodeType(n *DNode) gojsonpath.NodeType {
	switch {
	case n == nil:
		return gojsonpath.ValueNode
	case n.Kind == 'o':
		return gojsonpath.ObjectNode
	case n.Kind == 'a':
		return gojsonpath.ArrayNode
	}
	return gojsonpath.ValueNode
}

func (d *simDoc) bad(m int, n *DNode) {
	ts := d.x.ts()
	k := map[byte]string{'o': "an object", 'a': "an array", 'v': "a value"}[n.Kind]
	ts.viol("contract:"+methodName[m], methodName[m]+" was called on "+k+" node")
}

func (d *simDoc) Len(h any) int {
	r, n := d.enter(mLen, h)
	if g := r.lies(n, n != nil && n.Kind != 'v'); g != nil {
		return d.lieLen(g, n)
	}
	if n == nil {
		return 0
	}
	if n.Kind == 'v' {
		d.bad(mLen, n)
		return 1
	}
	if r != nil {
		for len(r.lens) <= n.ID {
			r.lens = append(r.lens, -1)
		}
		if len(n.Kids) > r.lens[n.ID] {
			r.lens[n.ID] = len(n.Kids)
		}
	}
	return len(n.Kids)
}

func (d *simDoc) Key(h any, key string) (any, bool) {
	r, n := d.enter(mKey, h)
	if g := r.lies(n, n != nil && n.Kind == 'o'); g != nil {
		return d.lieKey(g, h, n)
	}
	if n == nil {
		return nil, false
	}
	if n.Kind != 'o' {
		d.bad(mKey, n)
		return d.absent(), false
	}
	c := n.key(key)
	if c == nil || d.vanished(c) {
		d.x.cnt.absent++
		return d.absent(), false
	}
	if r != nil {
		r.setIssued(c)
	}
	return d.handle(c), true
}

func (d *simDoc) Keys(h any) []string {
	r, n := d.enter(mKeys, h)
	if g := r.lies(n, n != nil && n.Kind == 'o'); g != nil {
		return d.lieKeys(g, n)
	}
	if n == nil {
		return nil
	}
	if n.Kind != 'o' {
		d.bad(mKeys, n)
		return nil
	}
	var salt uint64
	if r != nil {
		salt = uint64(r.calls)
	}
	spare := 0
	if d.spec.Spare {
		spare = 3
	}
	ks := make([]string, 0, len(n.Keys)+len(d.spec.Ghosts)+spare)
	for _, i := range d.keyOrder(n, salt) {
		ks = append(ks, n.Keys[i])
	}
	for i, g := range d.spec.Ghosts {
		if n.key(g) == nil {
			// at a place that depends on the node
			at := int(simrt.Mix(d.spec.OSeed, uint64(n.ID), uint64(i), 5) % uint64(len(ks)+1))
			ks = append(ks, "")
			copy(ks[at+1:], ks[at:])
			ks[at] = g
		}
	}
	if r != nil && len(r.keys) < 4000 {
		full := ks[:cap(ks)]
		r.keys = append(r.keys, &keysRet{got: full, want: append([]string(nil), full...)})
	}
	return ks
}

func (d *simDoc) Elem(h any, i int) any {
	r, n := d.enter(mElem, h)
	if g := r.lies(n, n != nil && n.Kind == 'a' && i >= 0 && i < len(n.Kids)); g != nil {
		return d.lieMember(g, h, n)
	}
	if n == nil {
		return nil
	}
	if n.Kind != 'a' {
		d.bad(mElem, n)
		return d.absent()
	}
	if r != nil {
		if n.ID >= len(r.lens) || r.lens[n.ID] < 0 {
			if i < 0 || i >= len(n.Kids) {
				d.x.ts().viol("contract:index", "Elem was asked for element "+itoa(i)+" of an array of "+itoa(len(n.Kids)))
				return d.absent()
			}
		} else if i < 0 || i >= r.lens[n.ID] {
			d.x.ts().viol("contract:index", "Elem was asked for element "+itoa(i)+" of an array whose length had been reported as "+itoa(r.lens[n.ID]))
			return d.absent()
		}
	}
	if i < 0 || i >= len(n.Kids)+len(n.tomb) {
		return d.absent()
	}
	var c *DNode
	if i < len(n.Kids) {
		c = n.Kids[i]
	} else {
		// The array has become shorter since its length was reported.
		// This one answers with what was there
		c = n.tomb[i-len(n.Kids)]
	}
	if r != nil {
		r.setIssued(c)
	}
	return d.handle(c)
}

func (d *simDoc) Value(h any) any {
	r, n := d.enter(mValue, h)
	if g := r.lies(n, n != nil && n.Kind == 'v'); g != nil {
		return oddAnswer(g)
	}
	if n == nil {
		return nil
	}
	if n.Kind != 'v' {
		d.bad(mValue, n)
		return nil
	}
	return n.value(d.spec.Ints)
}

// apply changes the document.
func (d *simDoc) apply(m *Mut, at *DNode) bool {
	n := at
	if m.T >= 0 {
		if m.T >= len(d.nodes) {
			return false
		}
		n = d.nodes[m.T]
	} else {
		for i := -1; i > m.T && n != nil; i-- {
			n = n.parent
		}
	}
	if n == nil || n.Kind == 'v' {
		return false
	}
	d.clock++
	add := func(v *DNode) *DNode {
		c := v.clone()
		next := len(d.nodes)
		c.number(&next, &d.nodes)
		c.parent = n
		c.born = d.clock
		for _, x := range d.nodes[c.ID:] {
			x.born = d.clock
		}
		return c
	}
	done := false
	switch {
	case m.K == "set" && n.Kind == 'o':
		if old := n.key(m.Key); old != nil {
			old.kill(d.clock)
		}
		c := add(m.V)
		c.name = m.Key
		n.setKey(m.Key, c)
		done = true
	case m.K == "del" && n.Kind == 'o':
		if old := n.key(m.Key); old != nil {
			old.kill(d.clock)
			n.delKey(m.Key)
			done = true
		}
	case m.K == "push" && n.Kind == 'a':
		c := add(m.V)
		c.ix = len(n.Kids)
		n.Kids = append(append([]*DNode(nil), n.Kids...), c)
		if len(n.tomb) > 0 {
			n.tomb = n.tomb[1:]
		}
		done = true
	case m.K == "pop" && n.Kind == 'a' && len(n.Kids) > 0:
		// the last elements go
		i := len(n.Kids) - 1 - m.Ix%len(n.Kids)
		for _, k := range n.Kids[i:] {
			k.kill(d.clock)
		}
		n.tomb = append(append([]*DNode(nil), n.Kids[i:]...), n.tomb...)
		n.Kids = append([]*DNode(nil), n.Kids[:i]...)
		done = true
	case m.K == "rep" && n.Kind == 'a' && len(n.Kids) > 0:
		i := m.Ix % len(n.Kids)
		n.Kids[i].kill(d.clock)
		c := add(m.V)
		c.ix = i
		k := append([]*DNode(nil), n.Kids...)
		k[i] = c
		n.Kids = k
		done = true
	}
	if done && n.died != never {
		for _, k := range n.Kids {
			k.kill(d.clock)
		}
	}
	if done && d.isMap {
		d.root.rawValue(d.spec.Ints)
	}
	return done
}

func (n *DNode) kill(at int) {
	if n.died == never {
		n.died = at
	}
	for _, k := range n.Kids {
		k.kill(at)
	}
}

// canon writes a value in a form that is the same for equal values. It is
// used inside runs, where fmt and encoding/json are not: their pools order
// what the code under test does not.
func canon(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case string:
		b.WriteString(strconv.Quote(x))
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case int:
		b.WriteString(strconv.Itoa(x))
	case float64:
		b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canon(b, x[k])
		}
		b.WriteByte('}')
	case *hJunk:
		b.WriteString("<absent>")
	default:
		b.WriteString("<" + typeName(v) + ">")
		switch r := reflect.ValueOf(v); r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b.WriteString(strconv.FormatInt(r.Int(), 10))
		case reflect.Uint, reflect.Uint8:
			b.WriteString(strconv.FormatUint(r.Uint(), 10))
		case reflect.Float32:
			b.WriteString(strconv.FormatFloat(r.Float(), 'g', -1, 32))
		case reflect.String:
			b.WriteString(r.String())
		}
	}
}

func canonStr(v any) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

// sameRaw tells if v is the very value a node of a map document holds.
func sameRaw(v any, n *DNode) bool {
	switch n.Kind {
	case 'o':
		m, ok := v.(map[string]any)
		return ok && reflect.ValueOf(m).Pointer() == reflect.ValueOf(n.raw).Pointer()
	case 'a':
		a, ok := v.([]any)
		b := n.raw.([]any)
		return ok && len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
	}
	switch v.(type) {
	case map[string]any, []any:
		return false
	}
	return sameVal(v, n.raw)
}

// sameVal compares values, some of which == cannot compare.
func sameVal(a, b any) bool {
	switch a.(type) {
	case nil, string, bool, int, float64, *hPtr, hID:
		return a == b
	}
	if b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}
