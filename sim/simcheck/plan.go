package main

import (
	"encoding/json"

	"verif.local/sim/simrt"
)

// A Plan is everything that decides a run: what one seed expands to, and
// what a replay file holds.
type Plan struct {
	Prop     string      `json:"prop"`
	Seed     uint64      `json:"seed"`
	Kind     string      `json:"kind,omitempty"`
	Docs     []*DocSpec  `json:"docs,omitempty"`
	Paths    []*PathSpec `json:"paths,omitempty"`
	Tasks    [][]*Op     `json:"tasks,omitempty"`
	Post     []*Op       `json:"post,omitempty"`
	Mode     simrt.Mode  `json:"mode"`
	Segs     []simrt.Seg `json:"segs,omitempty"`
	HaveSegs bool        `json:"have_segs,omitempty"`
	Antlr    bool        `json:"antlr,omitempty"`
	Cold     bool        `json:"cold,omitempty"`
	Warm     []string    `json:"warm,omitempty"` // texts that were parsed before
	MapOrder int         `json:"map_order,omitempty"`
	Rounds   int         `json:"rounds,omitempty"` // C29: how often the callers do what they do before memory is measured first
	Board    [][2]int    `json:"board,omitempty"`  // path and document: what these searches deliver is shared by all callers
}

// DocSpec is a document and the model that presents it.
type DocSpec struct {
	Root   *DNode   `json:"root"`
	Model  string   `json:"model"`            // sim: simulated model; map: the library's MapModel
	Handle string   `json:"handle,omitempty"` // ptr fresh id int unc str raw bool: what the model's nodes look like
	Order  string   `json:"order,omitempty"`  // stable perm shuf: the order keys are listed in
	OSeed  uint64   `json:"oseed,omitempty"`
	Absent string   `json:"absent,omitempty"` // nil junk: what a failing lookup returns beside false
	Ghosts []string `json:"ghosts,omitempty"` // keys every object lists but does not have
	Ints   bool     `json:"ints,omitempty"`   // whole numbers are Go ints
	UncMod bool     `json:"uncmod,omitempty"` // the model itself is not comparable
	Spare  bool     `json:"spare,omitempty"`  // listed key slices have spare capacity
	Broken []int    `json:"broken,omitempty"` // ids of nodes that cannot be read
	Vanish int      `json:"vanish,omitempty"` // lookups answer "absent" with this chance, in percent, decided per node
}

// PathSpec is a compiled path: parsed from text or composed from others.
type PathSpec struct {
	Text string `json:"text,omitempty"`
	AST  []Elem `json:"ast,omitempty"`
	Op   string `json:"op,omitempty"` // append rdesc key idx root cur wild
	Args []int  `json:"args,omitempty"`
	Key  string `json:"key,omitempty"`
	Ix   int    `json:"ix,omitempty"`
}

// Op is one call of a simulated caller.
type Op struct {
	K     string    `json:"k"` // search find pfind parse build quote join fresh mut derive clock
	P     int       `json:"p"` // path; >=1000: made by this task
	D     int       `json:"d"`
	To    int       `json:"to,omitempty"`
	Spec  *PathSpec `json:"spec,omitempty"`
	Text  string    `json:"text,omitempty"`
	Parts []string  `json:"parts,omitempty"`
	Hooks []*Hook   `json:"hooks,omitempty"`
	Muts  []*Mut    `json:"muts,omitempty"`
	After int       `json:"after,omitempty"` // what the caller does to what Find returned: 1 appends, 2 overwrites, 4 overwrites the free part, 8 shortens and appends
	Times int       `json:"times,omitempty"` // made so often; "%d" in Text is the number
}

// Hook makes something happen inside a search: at its N-th call of the model
// or at its N-th match.
type Hook struct {
	On    string `json:"on"` // call cap
	N     int    `json:"n"`
	Every int    `json:"every,omitempty"` // and at every Every-th from then on
	Do    string `json:"do"`              // panic goexit stall pause ops mut grow scribble clock
	Val   int    `json:"val,omitempty"`
	Ops   []*Op  `json:"ops,omitempty"`
	Muts  []*Mut `json:"muts,omitempty"`
}

// Mut changes a document.
type Mut struct {
	K   string `json:"k"` // set del push rep
	D   int    `json:"d"`
	T   int    `json:"t"` // node id; -1: node of the present model call or match; -2 and below: its ancestors
	Key string `json:"key,omitempty"`
	Ix  int    `json:"ix,omitempty"`
	V   *DNode `json:"v,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	c := &Plan{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func (p *Plan) eachOp(f func(*Op)) {
	var rec func([]*Op)
	rec = func(l []*Op) {
		for _, o := range l {
			f(o)
			for _, h := range o.Hooks {
				rec(h.Ops)
			}
		}
	}
	for _, t := range p.Tasks {
		rec(t)
	}
	rec(p.Post)
}
