package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

type (
	// Nil is the nil pointer, slice, map, func, chan or interface.
	Nil struct{}
	// Bool is a condition.
	Bool struct{ C Cond }
	// Int is any integer.
	Int struct{ L Lin }
	// Str is a constant string.
	Str struct{ S string }
	// Sym is an unknown value; metadata lives in Interp.
	Sym struct{ ID int }
	// Ptr addresses an object, an element of an array object, or a field below either.
	Ptr struct {
		O      int
		IsElem bool
		Idx    Lin
		Path   []int
	}
	// Slice is a window on an array object.
	Slice struct {
		Arr           int
		Off, Len, Cap Lin
	}
	// ArrVal is an array value stored in place.
	ArrVal struct{ O int }
	// Iface is an interface value with a known dynamic type.
	Iface struct {
		T types.Type
		V Val
	}
	// Func is a function value.
	Func struct {
		Fn   *ssa.Function
		Bind []Val
		B    *ssa.Builtin
	}
	// Tuple is a multi-value.
	Tuple struct{ V []Val }
	// Struct is a struct value; nil entries are not yet initialised input fields.
	Struct struct{ F []Val }
	// MapVal is a reference to an abstract map object.
	MapVal struct{ O int }
)

// Cond is a boolean condition.
type Cond interface{}

type (
	CConst struct{ V bool }
	CAtom  struct{ ID int }
	CLe    struct{ L Lin } // L <= 0
	CEq    struct{ L Lin } // L == 0
	COrd   struct {
		A, B int
		M    uint8
	}
	CNil struct{ ID int } // symbol is nil
	CNot struct{ C Cond }
	CAnd struct{ A, B Cond }
)

func True() Bool  { return Bool{CConst{true}} }
func False() Bool { return Bool{CConst{false}} }

// SymInfo describes a symbol.
type SymInfo struct {
	T    types.Type
	Name string
	Op   string // for applications
	Args []Val
	Tag  interface{}
}

// Obj is a heap object; treated as immutable, replaced on update.
type Obj struct {
	ID    int
	T     types.Type // element type for arrays
	Fresh bool       // allocated during the analysed operation
	Dirty bool       // stored to since creation/materialisation
	From  int        // symbol it was materialised from (or -1)
	V     Val        // value, for non-arrays
	Arr   *Arr       // for arrays
	Name  string
	Tag   interface{}
}

// Arr is the content of an array object.
type Arr struct {
	Cells []Cell
	Def   int // what unknown cells hold
	Len   Lin // length of the array
}

type Cell struct {
	Idx Lin
	V   Val
}

const (
	DefSym  = iota // an unknown but fixed value per index (unmodified input)
	DefZero        // the zero value
	DefTop         // anything
)

// Step is one branch decision.
type Step struct {
	Pos  token.Pos
	Desc string
}

// Event is something a driver recorded.
type Event struct {
	Kind string
	Args []Val
	Pos  token.Pos
}

// Frame is an activation record.
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	defers  []deferred
	panicV  Val
	inPanic bool
	callPos token.Pos
	loops   map[*ssa.BasicBlock]*loopInfo // shared between clones (per activation)
	lineage map[*ssa.BasicBlock]int       // which loop entry a state descends from
	at      ssa.Instruction               // call in progress
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}

type loopInfo struct {
	heads  []*loopHead
	total  int
	groups int
}

type loopHead struct {
	st    *State
	joins int
	group int
}

// State is an abstract state.
type State struct {
	in     *Interp
	heap   map[int]*Obj
	bind   map[int]Val
	nonnil map[int]bool
	bools  map[int]bool
	cons   []Lin
	neq    []Lin
	ord    *Order
	frames []*Frame
	Ghost  map[string]Val
	Trace  []Step
	Events []Event
	flexI  map[int]bool // integer atoms introduced by the join that produced this state
	flexS  map[int]bool
	World  interface{} // what a driver knows; never changed in place, states with different ones are not joined
}

func (st *State) Clone() *State {
	n := &State{in: st.in, cons: st.cons[:len(st.cons):len(st.cons)], neq: st.neq[:len(st.neq):len(st.neq)], ord: st.ord.clone(),
		Trace: st.Trace[:len(st.Trace):len(st.Trace)], Events: st.Events[:len(st.Events):len(st.Events)], flexI: st.flexI, flexS: st.flexS, World: st.World}
	n.heap = make(map[int]*Obj, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.bind = make(map[int]Val, len(st.bind))
	for k, v := range st.bind {
		n.bind[k] = v
	}
	n.nonnil = make(map[int]bool, len(st.nonnil))
	for k, v := range st.nonnil {
		n.nonnil[k] = v
	}
	n.bools = make(map[int]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.Ghost = make(map[string]Val, len(st.Ghost))
	for k, v := range st.Ghost {
		n.Ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// In returns the interpreter.
func (st *State) In() *Interp { return st.in }

// Resolve follows symbol bindings.
func (st *State) Resolve(v Val) Val {
	for {
		s, ok := v.(Sym)
		if !ok {
			return v
		}
		b, ok := st.bind[s.ID]
		if !ok {
			return v
		}
		v = b
	}
}

// Bind sets a symbol's value.
func (st *State) Bind(s Sym, v Val) { st.bind[s.ID] = v }

// Unbind forgets a symbol's value.
func (st *State) Unbind(s Sym) { delete(st.bind, s.ID) }

// Locals rewrites the values of the running function's variables.
func (st *State) Locals(f func(v ssa.Value, x Val) Val) {
	fr := st.top()
	for _, k := range orderedKeys(fr) {
		fr.env[k] = f(k, fr.env[k])
	}
}

// Prune drops the values that the calling functions do not use any more.
func (st *State) Prune() {
	for i, fr := range st.frames[:len(st.frames)-1] {
		if fr.at == nil || fr.fn.Recover != nil {
			continue
		}
		live := map[ssa.Value]bool{}
		b := fr.at.Block()
		after := false
		var ops []*ssa.Value
		for _, x := range b.Instrs {
			if after {
				for _, o := range x.Operands(ops[:0]) {
					live[*o] = true
				}
			}
			after = after || x == fr.at
		}
		fi := st.in.flow(fr.fn)
		for _, s := range b.Succs {
			for v := range fi.liveIn[s] {
				live[v] = true
			}
			for _, x := range s.Instrs {
				if p, ok := x.(*ssa.Phi); ok {
					for _, e := range p.Edges {
						live[e] = true
					}
				}
			}
		}
		n := *fr
		n.env = map[ssa.Value]Val{}
		for k, v := range fr.env {
			if live[k] {
				n.env[k] = v
			}
		}
		st.frames[i] = &n
	}
}

// Obj looks an object up.
func (st *State) Obj(id int) *Obj { return st.heap[id] }

// SetObj replaces an object.
func (st *State) SetObj(o *Obj) { st.heap[o.ID] = o }

// NewObj allocates an object.
func (st *State) NewObj(T types.Type, v Val, fresh bool, name string) *Obj {
	o := &Obj{ID: st.in.nextID(), T: T, V: v, Fresh: fresh, From: -1, Name: name}
	st.heap[o.ID] = o
	return o
}

// NewArr allocates an array object.
func (st *State) NewArr(elem types.Type, length Lin, def int, fresh bool, name string) *Obj {
	o := &Obj{ID: st.in.nextID(), T: elem, Fresh: fresh, From: -1, Name: name, Arr: &Arr{Def: def, Len: length}}
	for _, p := range st.in.Probes {
		if st.in.ProbeElem != nil && !st.in.ProbeElem(elem) || st.in.pure(o) {
			break
		}
		var v Val
		if def == DefZero {
			v = st.in.Zero(st, elem)
		} else {
			v = st.in.Fresh(st, elem, name+"[probe]")
		}
		o.Arr.Cells = append(o.Arr.Cells, Cell{p, v})
	}
	st.heap[o.ID] = o
	return o
}

// Sort renders a value for reports.
func (st *State) Show(v Val) string {
	v = st.Resolve(v)
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Nil:
		return "nil"
	case Bool:
		return st.showCond(v.C)
	case Int:
		return st.showLin(v.L)
	case Str:
		return fmt.Sprintf("%q", v.S)
	case Sym:
		return st.in.symName(v.ID)
	case Ptr:
		n := fmt.Sprintf("&o%d", v.O)
		if o := st.heap[v.O]; o != nil && o.Name != "" {
			n = "&" + o.Name
		}
		if v.IsElem {
			n += "[" + st.showLin(v.Idx) + "]"
		}
		for _, p := range v.Path {
			n += fmt.Sprintf(".%d", p)
		}
		return n
	case Slice:
		return fmt.Sprintf("slice(o%d off=%s len=%s cap=%s)", v.Arr, st.showLin(v.Off), st.showLin(v.Len), st.showLin(v.Cap))
	case Iface:
		return fmt.Sprintf("%s(%s)", types.TypeString(v.T, func(p *types.Package) string { return p.Name() }), st.Show(v.V))
	case Func:
		if v.Fn != nil {
			return "func " + v.Fn.Name()
		}
		return "func"
	case Tuple:
		var s []string
		for _, x := range v.V {
			s = append(s, st.Show(x))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case Struct:
		var s []string
		for _, x := range v.F {
			s = append(s, st.Show(x))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func (st *State) showLin(l Lin) string {
	var b strings.Builder
	for _, t := range l.T {
		n := st.in.symName(t.A)
		switch {
		case t.K == 1:
			if b.Len() > 0 {
				b.WriteString("+")
			}
			b.WriteString(n)
		case t.K == -1:
			b.WriteString("-" + n)
		default:
			if b.Len() > 0 && t.K > 0 {
				b.WriteString("+")
			}
			fmt.Fprintf(&b, "%d*%s", t.K, n)
		}
	}
	if l.C != 0 || b.Len() == 0 {
		if l.C >= 0 && b.Len() > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", l.C)
	}
	return b.String()
}

func (st *State) showCond(c Cond) string {
	switch c := c.(type) {
	case CConst:
		return fmt.Sprint(c.V)
	case CAtom:
		return st.in.symName(c.ID)
	case CLe:
		return st.showLin(c.L) + " <= 0"
	case CEq:
		return st.showLin(c.L) + " == 0"
	case COrd:
		m := ""
		if c.M&LT != 0 {
			m += "<"
		}
		if c.M&EQ != 0 {
			m += "="
		}
		if c.M&GT != 0 {
			m += ">"
		}
		return st.in.symName(c.A) + " " + m + " " + st.in.symName(c.B)
	case CNil:
		return st.in.symName(c.ID) + " is nil"
	case CNot:
		return "not(" + st.showCond(c.C) + ")"
	case CAnd:
		return st.showCond(c.A) + " and " + st.showCond(c.B)
	}
	return "?"
}

// Facts renders the numeric and ordering facts for debugging.
func (st *State) Facts() string {
	var s []string
	for _, c := range st.cons {
		s = append(s, st.showLin(c)+"<=0")
	}
	for k, m := range st.ord.rel {
		if m != ANY {
			s = append(s, st.showCond(COrd{k[0], k[1], m}))
		}
	}
	for b, v := range st.bools {
		s = append(s, fmt.Sprintf("%s=%v", st.in.symName(b), v))
	}
	return strings.Join(s, "; ")
}
