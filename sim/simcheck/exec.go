package main

import (
	"context"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"weak"

	"github.com/bserdar/gojsonpath"
	"verif.local/sim/simrt"
)

type viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// counters of what was injected, per worker.
type counters struct {
	panics, goexits, stalls, pauses, nested, muts, grown, scribbles, slow, lies, measured int
	absent, calls, caps, ops, parses                                                      int
}

// exec is one world: documents and paths built from a plan, and what happened
// to them.
type exec struct {
	plan      *Plan
	docs      []*simDoc
	paths     []gojsonpath.Path
	perr      []string // why a path could not be made
	trees     []*tree
	keepDocs  bool
	tasks     []*taskState
	idle      *taskState
	cnt       *counters
	callLimit string
	res       *simrt.Result
	res2      *simrt.Result
	races     int
	noHooks   bool
	mirrored  gojsonpath.DocModel
	wantLooks bool
	wantFree  bool
	threads   int // goroutines there were before the run
	board     []*derived
	held      []viol // what was still referred to when nobody needed it
}

// taskState is what one simulated caller owns.
type taskState struct {
	ltree []*tree
	x     *exec
	id    int
	stack []*rec
	recs  []*rec
	local []gojsonpath.Path
	outs  []*out
	viols []viol
	made  []*derived
	inner int // steps of calls within the present one
}

// derived is a document path made from another, and what it should be.
type derived struct {
	path gojsonpath.DocPath
	want []gojsonpath.Segment
	how  string
}

// pin collects what some searches deliver, before the callers start.
func (x *exec) pin() {
	for _, b := range x.plan.Board {
		d := x.docs[b[1]]
		func() {
			defer func() { recover() }()
			n := 0
			gojsonpath.Search(d.model(), x.paths[b[0]], func(dp gojsonpath.DocPath) {
				if n++; n <= 20 {
					x.board = append(x.board, &derived{path: dp, want: append([]gojsonpath.Segment(nil), dp.P...), how: "match " + itoa(n)})
				}
			})
		}()
	}
}

// derive makes a document path from another one.
func (x *exec) derive(ts *taskState, op *Op) {
	var from *derived
	switch {
	case op.P < 0:
		if len(ts.stack) > 0 {
			if c := ts.stack[len(ts.stack)-1].now; c != nil {
				from = &derived{path: c.path, want: c.segs, how: "the match " + c.text}
			}
		}
	case op.P >= 1000:
		if op.P-1000 < len(ts.made) {
			from = ts.made[op.P-1000]
		}
	}
	if from == nil && len(x.board) > 0 {
		from = x.board[max(op.P, 0)%len(x.board)]
	}
	if from == nil || len(from.want) == 0 {
		return
	}
	p := from.path
	want := make([]gojsonpath.Segment, len(from.want), len(from.want)+len(op.Text))
	for i, s := range from.want {
		want[i] = s
	}
	how := from.how
	for i, c := range op.Text {
		name := "n" + itoa(ts.id) + "_" + itoa(len(ts.made)) + "_" + itoa(i)
		s := gojsonpath.Segment{Node: name, Type: gojsonpath.ObjectNode}
		switch c {
		case 'k':
			s.Name = name
			p = p.Key(name, name, s.Type)
			how += ".Key(" + name + ")"
		case 'i':
			s.Index = 10*len(ts.made) + i
			s.Type = gojsonpath.ArrayNode
			p = p.Index(s.Index, name, s.Type)
			how += ".Index(" + itoa(s.Index) + ")"
		case 'p':
			s.Name = name
			s.Type = gojsonpath.ValueNode
			p = p.Push(s)
			how += ".Push(" + name + ")"
		case '-':
			if len(want) < 2 {
				continue
			}
			p = p.Pop()
			want = want[:len(want)-1]
			how += ".Pop()"
			continue
		}
		want = append(want, s)
	}
	ts.made = append(ts.made, &derived{p, want, how})
}

// tree is how a path was made.
type tree struct {
	spec *PathSpec
	args []*tree
}

// fresh makes the path again, sharing nothing.
func (t *tree) fresh() (gojsonpath.Path, string) {
	return buildPath(t.spec, func(j int) gojsonpath.Path {
		for i, a := range t.spec.Args {
			if a == j {
				p, _ := t.args[i].fresh()
				return p
			}
		}
		return gojsonpath.Path{}
	})
}

// ast is what the path means, nil if that is not known.
func (t *tree) ast() []Elem {
	s := t.spec
	one := func(k Sel) []Elem { return []Elem{{Sel: k}} }
	switch s.Op {
	case "", "parse":
		return s.AST
	case "append":
		var l []Elem
		for _, a := range t.args {
			x := a.ast()
			if x == nil {
				return nil
			}
			l = append(l, x...)
		}
		return l
	case "rdesc":
		x := append([]Elem(nil), t.args[0].ast()...)
		if len(x) > 0 {
			x[len(x)-1].Rec = true
		}
		return x
	case "key":
		return one(Sel{K: "key", Key: s.Key})
	case "idx":
		return one(Sel{K: "idx", I: s.Ix})
	}
	return one(Sel{K: s.Op})
}

func (t *tree) String() string {
	s := t.spec
	switch s.Op {
	case "", "parse":
		return "Parse(" + strconv.Quote(s.Text) + ")"
	case "append":
		var l []string
		for _, a := range t.args {
			l = append(l, a.String())
		}
		return "Append(" + strings.Join(l, ", ") + ")"
	case "rdesc":
		return "RecursiveDescent(" + t.args[0].String() + ")"
	case "key":
		return "KeySelectorPath(" + strconv.Quote(s.Key) + ")"
	case "idx":
		return "IndexSelectorPath(" + itoa(s.Ix) + ")"
	}
	return map[string]string{"root": "SelectRootPath", "cur": "SelectCurrentPath", "wild": "WildcardPath"}[s.Op]
}

// out is what one call of the library came to.
type out struct {
	op       *Op
	ts       *taskState
	depth    int
	kind     string // ok err panic goexit, "" if it never ended
	err      string
	pv       any
	want     any // the value injected
	res      []string
	nodes    []any
	ret      []any // Find's result as returned
	snap     []any
	ext      []any // made by the caller of what Find returned
	extSnap  []any
	path     gojsonpath.Path
	text     string
	rec      *rec
	abort    bool // a fault was injected into it
	tree     *tree
	wantKind string
	touched  string // a node that cannot be read, if it tried
	steps    int
	doc      *DNode // the document as it was, if the property needs it
}

func (ts *taskState) viol(class, msg string) {
	if len(ts.viols) < 20 {
		ts.viols = append(ts.viols, viol{class, "task " + itoa(ts.id) + ": " + msg})
	}
}

func (x *exec) ts() *taskState {
	if t := simrt.Cur(); t != nil {
		return t.User.(*taskState)
	}
	return x.idle
}

func newExec(p *Plan, cnt *counters) *exec {
	x := &exec{plan: p, cnt: cnt}
	x.idle = &taskState{x: x, id: -1}
	for i, d := range p.Docs {
		x.docs = append(x.docs, newSimDoc(x, i, d))
	}
	return x
}

// setup makes the shared paths; only those in need, if need is not nil.
func (x *exec) setup(need []bool) {
	x.paths = make([]gojsonpath.Path, len(x.plan.Paths))
	x.perr = make([]string, len(x.plan.Paths))
	x.trees = make([]*tree, len(x.plan.Paths))
	for i, s := range x.plan.Paths {
		if need != nil && !need[i] {
			continue
		}
		x.trees[i] = x.newTree(x.idle, s)
		x.paths[i], x.perr[i] = buildPath(s, func(j int) gojsonpath.Path { return x.paths[j] })
	}
}

func (x *exec) needs(p int, m []bool) {
	if p < 0 || p >= len(m) || m[p] {
		return
	}
	m[p] = true
	for _, a := range x.plan.Paths[p].Args {
		x.needs(a, m)
	}
}

func buildPath(s *PathSpec, arg func(int) gojsonpath.Path) (p gojsonpath.Path, err string) {
	defer func() {
		if r := recover(); r != nil {
			err = "panic: " + panicText(r)
		}
	}()
	switch s.Op {
	case "", "parse":
		var e error
		p, e = gojsonpath.Parse(s.Text)
		if e != nil {
			return p, e.Error()
		}
	case "append":
		var l []gojsonpath.Path
		for _, a := range s.Args {
			l = append(l, arg(a))
		}
		p = gojsonpath.Append(l...)
	case "rdesc":
		p = gojsonpath.RecursiveDescent(arg(s.Args[0]))
	case "key":
		p = gojsonpath.KeySelectorPath(s.Key)
	case "idx":
		p = gojsonpath.IndexSelectorPath(s.Ix)
	case "root":
		p = gojsonpath.SelectRootPath
	case "cur":
		p = gojsonpath.SelectCurrentPath
	case "wild":
		p = gojsonpath.WildcardPath
	default:
		panic("build " + s.Op)
	}
	return p, ""
}

func panicText(r any) string {
	switch x := r.(type) {
	case *thrown:
		if x == nil {
			return "nil"
		}
		return x.Error()
	case error:
		return x.Error()
	case string:
		return x
	case runErr:
		return "run-time error: " + string(x)
	case harnessStop:
		return "the model was misused"
	}
	return canonStr(r)
}

// run runs the tasks of the plan, then what the plan does afterwards.
func (x *exec) run(maxSteps int) {
	p := x.plan
	var users []any
	var fns []func()
	for i, ops := range p.Tasks {
		ts := &taskState{x: x, id: i}
		x.tasks = append(x.tasks, ts)
		users = append(users, ts)
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				x.do(ts, o)
			}
		})
	}
	races := simrt.RaceErrors()
	if len(fns) > 0 {
		x.res = simrt.Run(simrt.Config{
			Seed: p.Seed, Mode: p.Mode, Replay: p.Segs, HaveSegs: p.HaveSegs,
			MaxSteps: maxSteps, Antlr: p.Antlr, MapOrder: p.MapOrder,
		}, users, fns)
	}
	if len(p.Post) > 0 && (x.res == nil || x.res.Deadlock == "" && !x.res.StepLimit && x.callLimit == "") {
		ts := &taskState{x: x, id: len(p.Tasks)}
		x.tasks = append(x.tasks, ts)
		x.res2 = simrt.Run(simrt.Config{Seed: p.Seed + 1, Mode: simrt.Mode{Kind: "seq"}, MaxSteps: maxSteps, MapOrder: p.MapOrder},
			[]any{ts}, []func(){func() {
				for _, o := range p.Post {
					x.do(ts, o)
				}
			}})
	}
	x.races = simrt.RaceErrors() - races
}

func (x *exec) newTree(ts *taskState, s *PathSpec) *tree {
	t := &tree{spec: s}
	for _, a := range s.Args {
		t.args = append(t.args, x.tree(ts, a))
	}
	return t
}

func (x *exec) tree(ts *taskState, i int) *tree {
	if i < 1000 {
		return x.trees[i]
	}
	if i-1000 < len(ts.ltree) && ts.ltree[i-1000] != nil {
		return ts.ltree[i-1000]
	}
	return &tree{spec: &PathSpec{Op: "append"}}
}

func (x *exec) path(ts *taskState, i int) gojsonpath.Path {
	if i >= 1000 {
		if i-1000 < len(ts.local) {
			return ts.local[i-1000]
		}
		return gojsonpath.Path{}
	}
	return x.paths[i]
}

// do performs an operation, as often as it says.
func (x *exec) do(ts *taskState, op *Op) {
	if op.K == "clock" {
		x.cnt.slow++
		simrt.Advance(delays[op.To%len(delays)])
		return
	}
	if op.Times <= 1 {
		x.do1(ts, op)
		return
	}
	last := ""
	for i := 0; i < op.Times; i++ {
		q := op
		if strings.Contains(op.Text, "%d") {
			c := *op
			c.Text = strings.ReplaceAll(op.Text, "%d", itoa(i))
			q = &c
		}
		n, m := len(ts.outs), len(ts.recs)
		x.do1(ts, q)
		o := ts.outs[n]
		now := o.outcome() + "\x00" + strings.Join(o.results(), "\x00")
		// only what is new is kept, and a few
		if i >= 3 && i < op.Times-1 && now == last && len(ts.outs) == n+1 && len(ts.stack) == 0 {
			ts.outs, ts.recs = ts.outs[:n], ts.recs[:m]
		}
		last = now
	}
}

func (x *exec) do1(ts *taskState, op *Op) {
	x.cnt.ops++
	o := &out{op: op, ts: ts, depth: len(ts.stack)}
	ts.outs = append(ts.outs, o)
	depth := len(ts.stack)
	var r *rec
	simrt.YM(20)
	began, outer := simrt.OwnSteps(), ts.inner
	ts.inner = 0
	func() {
		defer func() {
			all := simrt.OwnSteps() - began
			o.steps = all - ts.inner
			ts.inner = outer + all
			if r != nil {
				r.done = true
				r.t1 = r.doc.clock
			}
			ts.stack = ts.stack[:depth]
			if o.kind != "" {
				return
			}
			if p := recover(); p != nil {
				o.kind, o.pv = "panic", p
			} else {
				o.kind = "goexit"
			}
		}()
		begin := func() *rec {
			d := x.docs[op.D]
			r = &rec{op: op, out: o, ts: ts, doc: d, depth: depth, t0: d.clock}
			o.rec = r
			if op.K != "pfind" {
				o.tree = x.tree(ts, op.P)
			} else {
				o.tree = &tree{spec: &PathSpec{Text: op.Text}}
			}
			if x.keepDocs {
				o.doc = d.root.clone()
			}
			ts.recs = append(ts.recs, r)
			ts.stack = append(ts.stack, r)
			return r
		}
		fin := func(err error) {
			o.kind = "ok"
			if err != nil {
				o.kind, o.err = "err", err.Error()
			}
		}
		switch op.K {
		case "search":
			r := begin()
			m, p := r.doc.model(), x.path(ts, op.P)
			var cn *canary
			if x.wantFree {
				cn = &canary{}
				cn.self = cn
				r.canary = weak.Make(cn)
			}
			fin(gojsonpath.Search(m, p, func(dp gojsonpath.DocPath) {
				x.captured(r, dp)
				runtime.KeepAlive(cn)
			}))
		case "find":
			r := begin()
			m, p := r.doc.model(), x.path(ts, op.P)
			res, err := gojsonpath.Find(m, p)
			o.found(r, res)
			if op.After != 0 {
				x.cnt.scribbles++
				o.after(op.After)
			}
			fin(err)
		case "pfind":
			r := begin()
			m := r.doc.model()
			res, err := gojsonpath.ParseAndFind(m, op.Text)
			o.found(r, res)
			if op.After != 0 {
				x.cnt.scribbles++
				o.after(op.After)
			}
			fin(err)
		case "parse":
			x.cnt.parses++
			p, err := gojsonpath.Parse(op.Text)
			o.path = p
			fin(err)
		case "build":
			p, err := buildPath(op.Spec, func(j int) gojsonpath.Path { return x.path(ts, j) })
			t := x.newTree(ts, op.Spec)
			for len(ts.local) <= op.To {
				ts.local = append(ts.local, gojsonpath.Path{})
				ts.ltree = append(ts.ltree, nil)
			}
			ts.ltree[op.To] = t
			o.tree = t
			ts.local[op.To] = p
			o.kind = "ok"
			if err != "" {
				o.kind, o.err = "err", err
			}
		case "quote":
			o.text = gojsonpath.MakeKeyString(op.Text)
			o.kind = "ok"
		case "fresh":
			// a path composed for this search only
			p := gojsonpath.Append(gojsonpath.SelectRootPath, gojsonpath.KeySelectorPath(op.Text))
			if op.To == 1 {
				p = gojsonpath.RecursiveDescent(p)
			}
			res, err := gojsonpath.Find(gojsonpath.MapModel{Doc: freshDoc}, p)
			o.text = itoa(len(res))
			fin(err)
		case "join":
			o.text = gojsonpath.Join(op.Parts...)
			o.kind = "ok"
		case "derive":
			x.derive(ts, op)
			o.kind = "ok"
		case "mut":
			for _, m := range op.Muts {
				if x.docs[m.D].apply(m, x.docs[m.D].root) {
					x.cnt.muts++
				}
			}
			o.kind = "ok"
		default:
			panic("op " + op.K)
		}
	}()
	simrt.YM(21)
}

// freshDoc is searched with paths that are used once.
var freshDoc any = map[string]any{"k1": map[string]any{"k2": 1}, "k7": []any{1, 2}}

// found notes what Find returned, and what it looked like then.
func (o *out) found(r *rec, res []any) {
	o.ret = res
	o.snap = append([]any(nil), res...)
	o.res = make([]string, 0, len(res))
	for _, v := range res {
		o.res = append(o.res, r.doc.nodeText(v))
	}
	if r.doc.isMap {
		sort.Strings(o.res)
	}
}

// nodeText names a node found.
func (d *simDoc) nodeText(v any) string {
	if d.isMap {
		return canonStr(v)
	}
	if n := d.node(v); n != nil {
		return "#" + itoa(n.ID)
	}
	return canonStr(v)
}

// captured is the callback of every search.
func (x *exec) captured(r *rec, dp gojsonpath.DocPath) {
	ts := r.ts
	if t := simrt.Cur(); t != nil && t.Child {
		ts.viol("contract:goroutine", "the callback was called on a goroutine that is not the caller's")
	}
	if r.done {
		ts.viol("contract:late", "the callback was called after the search had returned")
	}
	if r.faulted {
		ts.viol("fault:capture", "a match was delivered after the model or the callback had panicked or exited")
	}
	if len(ts.stack) == 0 || ts.stack[len(ts.stack)-1] != r {
		ts.viol("contract:crossed", "a match was delivered to the callback of another search")
	}
	x.cnt.caps++
	r.ncaps++
	if r.ncaps > 100000 && x.callLimit == "" {
		x.callLimit = "the search reported more than 100000 matches"
		simrt.Abort()
	}
	c := &capRec{path: dp, segs: append([]gojsonpath.Segment(nil), dp.P...)}
	c.chain, c.text = x.resolve(r, dp)
	if c.chain != nil {
		c.last = c.chain.n
	}
	if r.ncaps <= 5000 {
		r.caps = append(r.caps, c)
	}
	var n *DNode
	if c.chain != nil {
		n = c.chain.n
	}
	r.now = c
	x.fire(ts, r, "cap", r.ncaps, n, c)
	r.now = nil
	simrt.YM(17)
}

// resolve finds the nodes a reported path names, and checks that they are a
// chain that starts at the root.
func (x *exec) resolve(r *rec, dp gojsonpath.DocPath) (*chain, string) {
	ts, d := r.ts, r.doc
	var b strings.Builder
	bad := func(why string) {
		ts.viol("chain:"+why, "a reported path is no path of the document: "+why+" at "+b.String())
	}
	if len(dp.P) == 0 {
		b.WriteString("(empty)")
		bad("it is empty")
		return nil, b.String()
	}
	var c *chain
	var prev *DNode
	good := true
	for i, s := range dp.P {
		var n *DNode
		if i == 0 {
			b.WriteByte('$')
			n = d.root
			if !d.isMap {
				n = d.node(s.Node)
				if n != d.root {
					bad("it does not start at the root")
					good = false
				}
			}
			if s.Name != "" || s.Index != 0 {
				bad("its first element has a name or an index")
			}
		} else {
			if prev != nil && prev.Kind == 'a' {
				b.WriteString("[" + itoa(s.Index) + "]")
			} else {
				b.WriteString("." + strconv.Quote(s.Name))
			}
			if d.isMap {
				if prev != nil {
					switch prev.Kind {
					case 'o':
						n = prev.key(s.Name)
					case 'a':
						if s.Index >= 0 && s.Index < len(prev.Kids) {
							n = prev.Kids[s.Index]
						}
					}
				}
				if n == nil || !sameRaw(s.Node, n) {
					bad("a node is not the member its name or index says")
					good = false
				}
			} else {
				n = d.node(s.Node)
				if n == nil {
					if _, ok := s.Node.(*hJunk); ok || s.Node == nil {
						ts.viol("absent:reported", "an absent member was reported, at "+b.String())
					} else {
						bad("a node is no node of the document")
					}
					good = false
				} else {
					if !r.wasIssued(n) {
						bad("a node was not handed out by the model during this search")
					}
					if n.parent == nil || n.parent != prev {
						bad("a node is no member of the node before it")
						good = false
					} else if prev.Kind == 'o' && (n.name != s.Name || s.Index != 0) || prev.Kind == 'a' && (n.ix != s.Index || s.Name != "") {
						bad("a name or an index is not the one the node was looked up by")
						good = false
					}
				}
			}
		}
		if n == nil {
			return nil, b.String() + "?"
		}
		if s.Type != nodeType(n) {
			bad("a node's type is not the one the model reports")
		}
		if c == nil {
			c = &chain{n: n, len: 1}
		} else {
			c = c.child(n, s.Name, s.Index)
		}
		prev = n
	}
	b.WriteString("#" + itoa(prev.ID))
	if !good {
		return nil, b.String() + "?"
	}
	return c, b.String()
}

// Values that are thrown.
type thrown struct{ N int }

func (t *thrown) Error() string { return "thrown " + itoa(t.N) }

const nThrow = 24

// throwable is a value to throw, or what stands for an error of the run time.
func throwable(k int) any {
	switch n := k % nThrow; n {
	case 0:
		return &thrown{k}
	case 1:
		return "a string"
	case 2:
		return thrownVal{k}
	case 3:
		return k
	case 4:
		return indexErr
	case 5:
		return mapErr
	case 6:
		return derefErr
	case 7:
		return nilErr
	case 8:
		return divideErr
	case 9:
		return castErr
	default:
		if n -= 10; n < len(thrownErrs) {
			return thrownErrs[n]
		}
	}
	return &thrown{k}
}

// runErr stands for an error of the run time, and what is in its text.
type runErr string

const (
	indexErr  runErr = "index out of range [5] with length 2"
	mapErr    runErr = "nil map"
	derefErr  runErr = "nil pointer dereference"
	nilErr    runErr = "panic called with nil"
	divideErr runErr = "divide by zero"
	castErr   runErr = "interface conversion"
)

// Values that a library may know, or trip over.
var thrownErrs = []any{gojsonpath.ErrInvalidAST, gojsonpath.ErrNoCurrentElement, gojsonpath.ErrInvalidExpression("x"), gojsonpath.ErrSyntax("x"),
	io.EOF, context.Canceled, &wrapped{gojsonpath.ErrInvalidAST}, false, (*thrown)(nil), &wrapped{context.DeadlineExceeded}, &thrownList{[]int{1}}, 0}

type thrownList struct{ l []int }

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

func throw(v any) {
	switch v {
	case indexErr:
		two[five] = 0
	case mapErr:
		nilMap["a"] = 1
	case derefErr:
		nilThrown.N++
	case nilErr:
		panic(nil)
	case divideErr:
		five /= len(nilMap)
	case castErr:
		_ = any(five).(string)
	}
	panic(v)
}

var two = []int{1, 2}

type thrownVal struct{ N int }

var nilMap map[string]int
var nilThrown *thrown
var five = 5

// fire makes happen what the plan wants to happen here.
func (x *exec) fire(ts *taskState, r *rec, on string, n int, node *DNode, c *capRec) {
	if x.noHooks {
		return
	}
	for _, h := range r.op.Hooks {
		if h.On != on || !(h.N == n || h.Every > 0 && n >= h.N && (n-h.N)%h.Every == 0) {
			continue
		}
		switch h.Do {
		case "panic":
			if r.faulted {
				continue
			}
			x.cnt.panics++
			r.faulted, r.out.abort, r.faultCap = true, true, r.ncaps
			r.out.want = throwable(h.Val)
			r.out.wantKind = "panic"
			throw(r.out.want)
		case "goexit":
			if r.faulted {
				continue
			}
			x.cnt.goexits++
			for _, q := range ts.stack {
				q.faulted, q.out.abort, q.faultCap, q.out.wantKind = true, true, q.ncaps, "goexit"
			}
			runtime.Goexit()
		case "lie":
			if r.nlies < maxLies {
				x.cnt.lies++
				r.nlies++
				r.lied, r.out.abort = true, true
				r.lie = simrt.Mix(uint64(h.Val), uint64(r.calls)) | 1
			}
		case "clock":
			x.cnt.slow++
			simrt.Advance(delays[h.Val%len(delays)])
		case "stall":
			x.cnt.stalls++
			simrt.Stall()
		case "pause":
			x.cnt.pauses++
			simrt.Pause()
		case "ops":
			if len(ts.stack) > 330 {
				continue
			}
			x.cnt.nested++
			for _, o := range h.Ops {
				x.do(ts, o)
			}
		case "mut":
			for _, m := range h.Muts {
				d := x.docs[m.D]
				at := node
				if d != r.doc {
					at = d.root
				}
				if d.apply(m, at) {
					x.cnt.muts++
				}
			}
		case "grow":
			if node == nil {
				continue
			}
			g := node
			if on == "cap" {
				g = node.parent
			}
			for k := 0; k < h.Val && g != nil; k++ {
				g = g.parent
			}
			if g == nil {
				continue
			}
			r.grown++
			m := &Mut{K: "push", D: r.doc.ix, T: g.ID, V: &DNode{Kind: 'v', Val: 7.0}}
			if g.Kind == 'o' {
				m.K, m.Key = "set", "g"+itoa(r.grown)+"_"+itoa(ts.id)
			}
			if r.doc.apply(m, g) {
				x.cnt.grown++
			}
		case "scribble":
			x.cnt.scribbles++
			x.scribble(ts, r, c, h.Val)
		default:
			panic("hook " + h.Do)
		}
	}
}

// after is what a caller does to what Find has returned.
func (o *out) after(k int) {
	if k&2 != 0 {
		for i := range o.ret {
			o.ret[i] = "scribbled"
			o.snap[i] = "scribbled"
		}
	}
	full := o.ret[:cap(o.ret)]
	if k&4 != 0 {
		for i := len(o.ret); i < len(full); i++ {
			full[i] = "scribbled"
		}
	}
	switch {
	case k&8 != 0 && len(o.ret) > 0:
		n := len(o.ret) / 2
		o.snap[n] = "kept"
		o.ret[n] = "kept"
		o.ext = append(o.ret[:n], "kept")
	case k&1 != 0:
		o.ext = append(o.ret, "kept", "kept too")
	}
	o.extSnap = append([]any(nil), o.ext...)
}

// scribble overwrites what the library has handed out.
func (x *exec) scribble(ts *taskState, r *rec, c *capRec, k int) {
	if k&64 != 0 && len(r.caps) > 0 {
		// an earlier match
		c = r.caps[(k>>8)%len(r.caps)]
	}
	if k&128 != 0 && k&64 != 0 {
		// a match of an earlier search
		q := ts.recs[(k>>10)%len(ts.recs)]
		if len(q.caps) > 0 {
			c = q.caps[(k>>8)%len(q.caps)]
		}
	}
	if c != nil && c.ext.P == nil && k&32 != 0 && len(c.path.P) > 0 {
		// keep a longer path
		c.ext = c.path.Key("kept", "kept", gojsonpath.ObjectNode)
		if k&1 != 0 {
			c.ext = c.ext.Index(7, "kept", gojsonpath.ValueNode)
		}
		c.extSegs = append([]gojsonpath.Segment(nil), c.ext.P...)
		k &^= 15
	}
	if c != nil && c.ext.P == nil {
		P := c.path.P
		junk := gojsonpath.Segment{Node: "scribbled", Name: "scribbled", Index: 99, Type: gojsonpath.ArrayNode}
		if k&1 != 0 {
			for i := range P {
				P[i] = junk
			}
		}
		if k&2 != 0 {
			q := c.path.Key("scribbled", "scribbled", gojsonpath.ObjectNode)
			q = q.Index(99, "scribbled", gojsonpath.ArrayNode)
			q = q.Push(junk)
			q = q.Pop()
			_ = q
		}
		if k&4 != 0 && len(P) > 0 {
			q := c.path.Pop().Push(junk)
			_ = q
		}
		if k&8 != 0 {
			full := P[:cap(P)]
			for i := len(P); i < len(full); i++ {
				full[i] = junk
			}
		}
		c.segs = append(c.segs[:0:0], P...)
	}
	if k&16 != 0 {
		for _, o := range ts.outs {
			if o.ext != nil {
				continue
			}
			for i := range o.ret {
				o.ret[i] = "scribbled"
				o.snap[i] = "scribbled"
			}
			full := o.ret[:cap(o.ret)]
			for i := len(o.ret); i < len(full); i++ {
				full[i] = "scribbled"
			}
		}
	}
}
