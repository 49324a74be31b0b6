package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// hashClient walks a hash table with each of its iterators.
const hashClient = `package zzdriver

import "github.com/timtadh/data-structures/types"

func Visit(key types.Hashable, value interface{}) {}
func Seen(key types.Hashable)                      {}
func Over()                                        {}

func WalkKV(it types.KVIterator) {
	for k, v, next := it(); next != nil; k, v, next = next() {
		Visit(k, v)
	}
	Over()
}

func WalkK(it types.KIterator) {
	for k, next := it(); next != nil; k, next = next() {
		Seen(k)
	}
	Over()
}
`

func init() {
	registerClient("C08", "Abstract interpretation of every operation of the chained hash table on a table of arbitrary length with chains of arbitrary length, followed through the eyes of one arbitrary key x: where it is, what value it has, how often it is stored. Recursive chain functions and the re-insertion during growth are used by contract and verified against it; the count of stored entries is kept by every write of a chain.", hashClient, func(c *Ctx) {
		c.R.Rule("lookup", "afterwards the arbitrary key x is found exactly if it should be, with its last value, and is stored once")
		c.R.Rule("bucket", "the bucket of a key is inside the table and depends on nothing but its hash value and the number of buckets")
		c.R.Rule("size", "afterwards the recorded size is the number of stored entries")
		c.R.Rule("answer", "the operation returns the value removed or found, errors exactly when the key is absent, and does not crash")
		c.R.Rule("chain", "the chain function changes the chain as its contract says, at every position")
		c.R.Rule("iteration", "iterating shows x exactly once if it is stored, with its value, and otherwise not")
		c.hashOps()
		c.R.Floor("operations", 20)
	})
}

// htab is an arbitrary chained hash table seen by one key.
type htab struct {
	c                  *Ctx
	in                 *ai.Interp
	H, E               *types.Named
	tf, sf, kf, vf, nf int
	self               ai.Val
	T0                 int
	n                  ai.Lin
	x, xs, k, ks       ai.Sym
	v0, v1, w0         ai.Sym
	same               bool // k is equal to x
	pos                map[string]map[int]ai.Lin
	key                string
	fn                 *ssa.Function
	ok                 bool
	base               int  // numbers made later may be forgotten when nothing mentions them
	cut                bool // a node may be missing from a chain
	growing            bool // growth itself is being looked at
	raw                bool // the bucket choice itself is being looked at
}

func (h *htab) bad(rule string, st *ai.State, f string, args ...interface{}) {
	h.ok = false
	h.c.R.Fail(rule, h.key, h.c.P.Pos(h.fn.Pos()), fmt.Sprintf(f, args...), h.c.Path(st)...)
}

func onlyField(s *types.Struct, what string, is func(types.Type) bool) int {
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if at >= 0 {
				panic(ai.Undecided{Msg: "more than one field holds the " + what})
			}
			at = i
		}
	}
	if at < 0 {
		panic(ai.Undecided{Msg: "no field holds the " + what})
	}
	return at
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isEmptyIface(T types.Type) bool {
	i, ok := T.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (c *Ctx) newHtab(key string, fn *ssa.Function) *htab {
	h := &htab{c: c, in: c.Interp(), H: c.P.Named("hashtable", "Hash"), key: key, fn: fn, ok: true}
	hs := h.H.Underlying().(*types.Struct)
	h.tf = onlyField(hs, "buckets", func(T types.Type) bool {
		s, ok := T.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		p, ok := s.Elem().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		if ok {
			h.E = n
		}
		return ok
	})
	h.sf = onlyField(hs, "size", isInt)
	es := h.E.Underlying().(*types.Struct)
	h.kf = onlyField(es, "key", func(T types.Type) bool { return types.Identical(T, c.hashable()) })
	h.vf = onlyField(es, "value", isEmptyIface)
	h.nf = onlyField(es, "link", func(T types.Type) bool { return types.Identical(T, types.NewPointer(h.E)) })

	in := h.in
	in.Tail = true
	in.NoSettle = true
	in.MoreJoins, in.MaxHeads = 20, 300
	in.Indexed = map[string]bool{}
	in.Rigid = map[int]bool{}
	h.pos = map[string]map[int]ai.Lin{}
	in.Pure = func(o *ai.Obj) bool { return h.isChain(o) }
	mk := func(T types.Type, name string) ai.Sym {
		s := in.NewSym(T, name)
		in.Rigid[s.ID] = true
		return s
	}
	any := es.Field(h.vf).Type()
	h.x, h.xs, h.k, h.ks = mk(c.hashable(), "x"), mk(c.hashable(), "stored x"), mk(c.hashable(), "k"), mk(c.hashable(), "stored k")
	h.v0, h.v1, h.w0 = mk(any, "value of x"), mk(any, "new value"), mk(any, "value of k")
	in.H.NewIndexed = func(st *ai.State, s ai.Sym) { h.item(st, s) }
	in.H.InitCell = h.initCell
	in.H.PtrEq = h.ptrEq
	in.H.Norm = func(st *ai.State, v ai.Val) ai.Val {
		if p, ok := v.(ai.Ptr); ok && h.node(st, p) && st.Eval(h.inside(st, p)) == ai.F {
			return ai.Nil{}
		}
		return v
	}
	in.H.Deref = func(st *ai.State, p ai.Ptr, pos token.Pos) ([]ai.R, bool) {
		if !h.node(st, p) {
			return nil, false
		}
		var out []ai.R
		y, no := st.Branch(h.inside(st, p))
		if y != nil {
			out = append(out, ai.R{St: y, V: p})
		}
		if no != nil {
			out = append(out, ai.R{St: no, Panic: &ai.PanicInfo{Kind: "nil", Pos: pos, Msg: "nil dereference beyond the end of a chain"}})
		}
		return out, true
	}
	in.H.OnCell = h.onCell
	in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		o := st.Obj(p.O)
		if o == nil || p.IsElem || !types.Identical(o.T, h.E) || len(p.Path) != 1 || p.Path[0] != h.nf || !h.linked(st, p.O) {
			return
		}
		h.account(st, st.FieldOf(p.O, h.nf), v)
	}
	in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if o := st.Obj(p.O); o != nil && p.IsElem && o.Name == "!scratch" {
			st.Ghost["home"] = ai.Int{L: p.Idx}
		}
	}
	in.H.OnInstr = h.onInstr
	// buckets merely looked at need not be remembered from one round of a loop to the next
	in.H.Fold = func(st *ai.State) {
		o := st.Obj(h.T0)
		if o == nil || o.Arr == nil || o.Name != "!table" {
			return
		}
		n, a := *o, *o.Arr
		a.Cells = nil
		for _, c := range o.Arr.Cells {
			p, ok := c.V.(ai.Ptr)
			if !ok || !h.node(st, p) || st.Obj(p.O).Name != "!o" {
				a.Cells = append(a.Cells, c)
			}
		}
		if len(a.Cells) < len(o.Arr.Cells) {
			n.Arr = &a
			st.SetObj(&n)
		}
		if h.base > 0 {
			st.Collect(h.base)
			if h.cut {
				st.Ghost["sides"] = ai.Str{S: h.sides(st)}
			}
		}
	}
	in.H.Call = h.call
	return h
}

// sides tells on which side of the tracked keys the pointers in use are; rounds of a loop on different sides stay apart.
func (h *htab) sides(st *ai.State) string {
	var out []string
	see := func(where string, v ai.Val) {
		p, ok := v.(ai.Ptr)
		if !ok || !h.node(st, p) {
			return
		}
		name := st.Obj(p.O).Name
		s := where + name
		for _, k := range []ai.Sym{h.x, h.k} {
			at, ok := h.pos[name][k.ID]
			if !ok {
				continue
			}
			switch {
			case st.Le(p.Idx.AddK(1), at):
				s += "<"
			case st.Le(at.AddK(1), p.Idx):
				s += ">"
			case st.EqLin(at, p.Idx):
				s += "="
			default:
				s += "?"
			}
		}
		out = append(out, s)
	}
	st.Locals(func(n ssa.Value, v ai.Val) ai.Val {
		see(n.Name(), v)
		return v
	})
	for _, id := range st.Objects() {
		if o := st.Obj(id); o.Arr == nil && o.V != nil {
			see("", st.Resolve(o.V))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (h *htab) isChain(o *ai.Obj) bool {
	return o != nil && o.Arr != nil && strings.HasPrefix(o.Name, "!") && types.Identical(o.T, h.E)
}

// node: p is the address of a node of an arbitrary chain (or beyond its end, standing for nil).
func (h *htab) node(st *ai.State, p ai.Ptr) bool {
	return p.IsElem && len(p.Path) == 0 && h.isChain(st.Obj(p.O))
}

func (h *htab) inside(st *ai.State, p ai.Ptr) ai.Cond {
	return ai.CAnd{A: ai.CLe{L: p.Idx.Neg()}, B: ai.CLe{L: p.Idx.AddK(1).Sub(st.Obj(p.O).Arr.Len)}}
}

func (h *htab) ptrEq(st *ai.State, a, b ai.Val) (ai.Cond, bool) {
	x, ok1 := a.(ai.Ptr)
	y, ok2 := b.(ai.Ptr)
	_, n1 := a.(ai.Nil)
	_, n2 := b.(ai.Nil)
	ok1 = ok1 && h.node(st, x)
	ok2 = ok2 && h.node(st, y)
	switch {
	case ok1 && n2:
		return ai.CNot{C: h.inside(st, x)}, true
	case ok2 && n1:
		return ai.CNot{C: h.inside(st, y)}, true
	case ok1 && ok2:
		nil2 := ai.CAnd{A: ai.CNot{C: h.inside(st, x)}, B: ai.CNot{C: h.inside(st, y)}}
		if x.O != y.O {
			return nil2, true
		}
		return ai.CNot{C: ai.CAnd{A: ai.CNot{C: ai.CEq{L: x.Idx.Sub(y.Idx)}}, B: ai.CNot{C: nil2}}}, true
	}
	return nil, false
}

// item: any key of a chain other than the tracked ones differs from them.
func (h *htab) item(st *ai.State, s ai.Sym) {
	i := h.in.Info(s.ID)
	if i == nil || !strings.HasPrefix(i.Op, "key!") {
		return
	}
	st.NonNil(s)
	for _, t := range []ai.Sym{h.x, h.xs, h.k, h.ks} {
		st.SetOrd(s.ID, t.ID, ai.LT|ai.GT)
	}
}

func (h *htab) initCell(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
	switch {
	case h.isChain(o) && o.Arr.Def == ai.DefSym:
		es := h.E.Underlying().(*types.Struct)
		f := make([]ai.Val, es.NumFields())
		for i := range f {
			switch i {
			case h.kf:
				h.in.Indexed["key"+o.Name] = true
				k := h.in.App(st, "key"+o.Name, h.c.hashable(), ai.Int{L: idx}).(ai.Sym)
				h.item(st, k)
				f[i] = k
			case h.vf:
				h.in.Indexed["val"+o.Name] = true
				f[i] = h.in.App(st, "val"+o.Name, es.Field(i).Type(), ai.Int{L: idx})
			case h.nf:
				f[i] = ai.Ptr{O: o.ID, IsElem: true, Idx: idx.AddK(1)}
			}
		}
		return ai.Struct{F: f}, true
	case o.Name == "!table":
		l := h.in.NewAtom("len")
		st.AddLe(l.Neg())
		return h.chain(st, "!o", l), true
	case o.Name == "!grown" && st.Ghost["count"] == nil:
		return ai.Nil{}, true
	case o.Name == "!grown":
		panic(ai.Undecided{Msg: "a bucket of a table being filled is read directly"})
	}
	return nil, false
}

func (h *htab) chain(st *ai.State, name string, l ai.Lin) ai.Val {
	return ai.Ptr{O: st.NewArr(h.E, l, ai.DefSym, false, name).ID, IsElem: true, Idx: ai.K(0)}
}

// ---- accounting

// linked: the node is reachable from the table.
func (h *htab) linked(st *ai.State, obj int) bool {
	seen := map[int]bool{}
	var visit func(v ai.Val) bool
	visit = func(v ai.Val) bool {
		p, ok := st.Resolve(v).(ai.Ptr)
		if !ok {
			return false
		}
		if p.O == obj {
			return true
		}
		o := st.Obj(p.O)
		if o == nil || seen[p.O] {
			return false
		}
		seen[p.O] = true
		if o.Arr != nil {
			for _, c := range o.Arr.Cells {
				if s, ok := c.V.(ai.Struct); ok && h.isChain(o) && s.F[h.nf] != nil && visit(s.F[h.nf]) {
					return true
				}
			}
			return false
		}
		if types.Identical(o.T, h.E) {
			return visit(st.FieldOf(p.O, h.nf))
		}
		return false
	}
	s, ok := h.table(st)
	if !ok {
		return false
	}
	for _, c := range st.Obj(s.Arr).Arr.Cells {
		if visit(c.V) {
			return true
		}
	}
	return false
}

func (h *htab) table(st *ai.State) (ai.Slice, bool) {
	p, ok := st.Resolve(h.self).(ai.Ptr)
	if !ok {
		return ai.Slice{}, false
	}
	s, ok := st.Resolve(st.FieldOf(p.O, h.tf)).(ai.Slice)
	return s, ok
}

// measure: how many nodes, and how often x, from a chain pointer on.
func (h *htab) measure(st *ai.State, v ai.Val) (n ai.Lin, mult int, at *ai.Ptr) {
	n = ai.K(0)
	for d := 0; d < 50; d++ {
		switch p := st.Resolve(v).(type) {
		case ai.Nil:
			return
		case ai.Ptr:
			if h.node(st, p) {
				if st.Eval(h.inside(st, p)) == ai.F {
					return
				}
				return n.Add(st.Obj(p.O).Arr.Len.Sub(p.Idx)), mult, &p
			}
			o := st.Obj(p.O)
			if o != nil && o.Arr == nil && len(p.Path) == 0 && types.Identical(o.T, h.E) {
				n = n.AddK(1)
				switch k, ok := st.Resolve(st.FieldOf(p.O, h.kf)).(ai.Sym); {
				case ok && st.Possible(k.ID, h.x.ID) == ai.EQ:
					mult++
				case ok && st.Possible(k.ID, h.x.ID)&ai.EQ == 0:
				default:
					panic(ai.Undecided{Msg: "a node whose key may or may not be the key followed"})
				}
				v = st.FieldOf(p.O, h.nf)
				continue
			}
		}
		panic(ai.Undecided{Msg: "the length of a chain is not known: " + st.Show(v)})
	}
	panic(ai.Undecided{Msg: "a chain of new nodes is too long"})
}

func (h *htab) account(st *ai.State, old, new ai.Val) {
	if sameVal(st, old, new) {
		return
	}
	a, m, p := h.measure(st, old)
	b, k, q := h.measure(st, new)
	d := k - m
	// x within the arbitrary parts
	in := func(p *ai.Ptr) ai.Cond {
		if p == nil {
			return ai.CConst{V: false}
		}
		x, ok := h.pos[st.Obj(p.O).Name][h.x.ID]
		if !ok {
			return ai.CConst{V: false}
		}
		return ai.CLe{L: p.Idx.Sub(x)}
	}
	val := func(c ai.Cond) int {
		switch st.Eval(c) {
		case ai.T:
			return 1
		case ai.F:
			return 0
		}
		panic(ai.Undecided{Msg: "it is not known whether x is in a chain being replaced"})
	}
	if p != nil && q != nil && p.O == q.O {
		switch {
		case st.EqLin(p.Idx, q.Idx):
		case st.Le(p.Idx, q.Idx):
			d -= val(ai.CAnd{A: in(p), B: ai.CNot{C: in(q)}})
		default:
			d += val(ai.CAnd{A: in(q), B: ai.CNot{C: in(p)}})
		}
	} else {
		d += val(in(q)) - val(in(p))
	}
	if os := st.Ghost["count"]; os != nil {
		st.Ghost["count"] = ai.Int{L: intv(os).Add(b.Sub(a))}
		st.Ghost["mult"] = ai.Int{L: intv(st.Ghost["mult"]).AddK(int64(d))}
	}
}

func (h *htab) onCell(st *ai.State, o *ai.Obj, idx ai.Lin, old, new ai.Val) {
	if st.Ghost["count"] == nil {
		return
	}
	switch {
	case h.isChain(o):
		a, ok1 := old.(ai.Struct)
		b, ok2 := new.(ai.Struct)
		if ok1 && ok2 {
			if !sameVal(st, a.F[h.kf], b.F[h.kf]) {
				x, y := st.Resolve(a.F[h.kf]).(ai.Sym), st.Resolve(b.F[h.kf]).(ai.Sym)
				if st.Possible(x.ID, y.ID) != ai.EQ {
					panic(ai.Undecided{Msg: "the key of a stored node is replaced"})
				}
			}
			h.account(st, a.F[h.nf], b.F[h.nf])
		}
	default:
		if s, ok := h.table(st); ok && s.Arr == o.ID {
			h.account(st, old, new)
		}
	}
}

// onInstr: negating a hash value as such overflows for the smallest one; a new table starts empty.
func (h *htab) onInstr(st *ai.State, i ssa.Instruction) {
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.SUB {
		if v, ok := h.in.Val(st, u.X).(ai.Int); ok && !v.L.IsConst() {
			if !st.Le(h.n.Scale(4).Neg(), v.L) && !h.bounded(st, v.L) {
				h.bad("answer", st, "negates a value that may be the smallest integer (%s)", h.c.P.Pos(u.Pos()))
			}
		}
	}
	if s, ok := i.(*ssa.Store); ok {
		f, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || f.Field != h.tf {
			return
		}
		if p, ok := f.X.Type().Underlying().(*types.Pointer); !ok || !types.Identical(p.Elem(), h.H) {
			return
		}
		if me, ok := st.Resolve(h.self).(ai.Ptr); !ok || !sameVal(st, h.in.Val(st, f.X), me) {
			return
		}
		n, ok := st.Resolve(h.in.Val(st, s.Val)).(ai.Slice)
		old, _ := h.table(st)
		if !ok || st.Ghost["count"] == nil || n.Arr == old.Arr {
			return
		}
		// what the new table holds already
		o := st.Obj(n.Arr)
		if o.Arr.Def != ai.DefZero || st.Eval(ai.CEq{L: n.Len.Sub(o.Arr.Len)}) != ai.T {
			panic(ai.Undecided{Msg: "the table is replaced by something other than a new table"})
		}
		st.Ghost["count"], st.Ghost["mult"] = ai.Int{L: ai.K(0)}, ai.Int{L: ai.K(0)}
		for _, c := range o.Arr.Cells {
			h.account(st, ai.Nil{}, c.V)
		}
	}
}

func (h *htab) bounded(st *ai.State, l ai.Lin) bool {
	s, ok := h.table(st)
	if ok && st.Le(s.Len.Neg(), l) {
		return true
	}
	for _, id := range st.Objects() {
		if o := st.Obj(id); o.Name == "!scratch" && st.Le(o.Arr.Len.Neg(), l) {
			return true
		}
	}
	return st.Le(ai.K(-1<<40), l)
}

// ---- calls

// which of the tracked keys v is.
func (h *htab) tracked(st *ai.State, v ai.Val) (ai.Sym, bool) {
	s, ok := st.Resolve(v).(ai.Sym)
	if !ok {
		return s, false
	}
	if st.Possible(s.ID, h.x.ID) == ai.EQ || s.ID == h.x.ID {
		return h.x, true
	}
	if st.Possible(s.ID, h.k.ID) == ai.EQ || s.ID == h.k.ID {
		return h.k, true
	}
	return s, false
}

func (h *htab) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Method != nil && ci.Method.Name() == "Hash" {
		s, _ := h.tracked(st, ci.Recv)
		return []ai.Outcome{{St: st, Rets: []ai.Val{h.in.App(st, "hash", types.Typ[types.Int], s)}}}, true
	}
	if ci.Fn == nil {
		return h.c.errorsHook(st, ci)
	}
	if !h.raw && h.choice(ci.Fn) {
		s, _ := h.tracked(st, ci.Args[1])
		p, ok := st.Resolve(ci.Args[0]).(ai.Ptr)
		if !ok {
			return nil, false
		}
		t, ok := st.Resolve(st.FieldOf(p.O, h.tf)).(ai.Slice)
		if !ok {
			return nil, false
		}
		v := h.in.App(st, "bucket", types.Typ[types.Int], s, ai.Int{L: t.Len}).(ai.Int)
		st.AddLe(v.L.Neg())
		st.AddLe(v.L.AddK(1).Sub(t.Len))
		return []ai.Outcome{{St: st, Rets: []ai.Val{v}}}, true
	}
	if h.onChain(ci.Fn) != "" && st.OnStack(ci.Fn) > 0 {
		return h.apply(st, ci), true
	}
	if h.putLike(ci.Fn) && st.Ghost["count"] != nil {
		if s, ok := h.table(st); ok && s.Arr != h.T0 && sameVal(st, ci.Args[0], h.self) {
			return h.insert(st, ci), true
		}
	}
	if !h.growing && st.Ghost["count"] != nil && h.growLike(ci.Fn) && sameVal(st, ci.Args[0], h.self) {
		return h.grow(st, ci), true
	}
	return h.c.errorsHook(st, ci)
}

// onChain recognises a recursive chain function by its signature.
func (h *htab) onChain(fn *ssa.Function) string {
	sig := fn.Signature
	ptr := types.NewPointer(h.E)
	if len(fn.Params) < 2 || !types.Identical(fn.Params[0].Type(), ptr) || !types.Identical(fn.Params[1].Type(), h.c.hashable()) {
		return ""
	}
	r := sig.Results()
	node := func(i int) bool { return types.Identical(r.At(i).Type(), ptr) }
	flag := func(i int) bool { return types.Identical(r.At(i).Type(), types.Typ[types.Bool]) }
	switch {
	case len(fn.Params) == 3 && isEmptyIface(fn.Params[2].Type()) && r.Len() == 2 && node(0) && flag(1):
		return "put"
	case len(fn.Params) == 2 && r.Len() == 1 && node(0):
		return "remove"
	case len(fn.Params) == 2 && r.Len() == 2 && flag(0) && isEmptyIface(r.At(1).Type()):
		return "get"
	}
	return ""
}

func (h *htab) putLike(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && len(fn.Params) == 3 && types.Identical(fn.Params[0].Type(), types.NewPointer(h.H)) &&
		types.Identical(fn.Params[1].Type(), h.c.hashable()) && isEmptyIface(fn.Params[2].Type())
}

// choice recognises a function that only chooses the bucket of a key.
func (h *htab) choice(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return fn.Signature.Recv() != nil && len(fn.Params) == 2 && types.Identical(fn.Params[0].Type(), types.NewPointer(h.H)) &&
		types.Identical(fn.Params[1].Type(), h.c.hashable()) && r.Len() == 1 && types.Identical(r.At(0).Type(), types.Typ[types.Int])
}

// chooses verifies that a bucket choice is within the table and rests on the hash value and the table length alone.
func (h *htab) chooses() {
	st := h.pre(false, "")[0]
	h.raw = true
	me := h.self.(ai.Ptr).O
	load := h.in.H.OnLoad
	h.in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if p.O == me && !(len(p.Path) == 1 && p.Path[0] == h.tf) || p.O == h.T0 {
			h.bad("bucket", st, "rests on more than the hash value and the number of buckets (%s)", h.c.P.Pos(pos))
		}
		load(st, p, v, pos)
	}
	for _, o := range h.in.CallFunc(st, nil, h.fn, []ai.Val{h.self, h.x}, nil, h.fn.Pos()) {
		if o.Panic != nil {
			h.bad("bucket", o.St, "may crash: %s", o.Panic.Msg)
			continue
		}
		v := intv(o.Rets[0])
		if !o.St.Le(ai.K(0), v) || !o.St.Le(v.AddK(1), h.n) {
			h.bad("bucket", o.St, "may choose bucket %s, outside the table", o.St.Show(o.Rets[0]))
		}
	}
}

func (h *htab) newNode(st *ai.State, k, v ai.Val) ai.Val {
	f := make([]ai.Val, h.E.Underlying().(*types.Struct).NumFields())
	f[h.kf], f[h.vf], f[h.nf] = k, v, ai.Nil{}
	return ai.Ptr{O: st.NewObj(h.E, ai.Struct{F: f}, true, "new node").ID}
}

func (h *htab) setNode(st *ai.State, arr int, i ai.Lin, f int, v ai.Val) []*ai.State {
	var out []*ai.State
	for _, r := range h.in.ReadCell(st, arr, i) {
		s := ai.Struct{F: append([]ai.Val(nil), r.V.(ai.Struct).F...)}
		s.F[f] = v
		out = append(out, h.in.WriteCell(r.St, arr, i, s)...)
	}
	return out
}

// apply uses the contract of a chain function.
func (h *htab) apply(st *ai.State, ci *ai.CallInfo) (out []ai.Outcome) {
	kind := h.onChain(ci.Fn)
	un := func(s string) { panic(ai.Undecided{Msg: s, Pos: ci.Pos}) }
	k, ok := h.tracked(st, ci.Args[1])
	if !ok {
		un("a chain function is called with an unknown key")
	}
	p, isPtr := st.Resolve(ci.Args[0]).(ai.Ptr)
	_, isNil := st.Resolve(ci.Args[0]).(ai.Nil)
	if !isNil && (!isPtr || !h.node(st, p)) {
		un("a chain function is called on " + st.Show(ci.Args[0]))
	}
	ret := func(s *ai.State, vs ...ai.Val) { out = append(out, ai.Outcome{St: s, Rets: vs}) }
	bool_ := func(b bool) ai.Val { return ai.Bool{C: ai.CConst{V: b}} }
	end := func(s *ai.State) {
		switch kind {
		case "put":
			ret(s, h.newNode(s, ci.Args[1], ci.Args[2]), bool_(true))
		case "get":
			ret(s, bool_(false), ai.Nil{})
		default:
			out = append(out, ai.Outcome{St: s, Panic: &ai.PanicInfo{Kind: "panic", Pos: ci.Pos, Msg: "the key to remove is not in the chain"}})
		}
	}
	if isNil {
		end(st)
		return
	}
	l := st.Obj(p.O).Arr.Len
	pos, present := h.pos[st.Obj(p.O).Name][k.ID]
	if present && !st.Le(p.Idx, pos) {
		un("a chain function is called beyond the key it looks for")
	}
	in, no := st.Branch(h.inside(st, p))
	if no != nil {
		end(no)
	}
	if in == nil {
		return
	}
	switch {
	case kind == "put" && present:
		for _, s := range h.setNode(in, p.O, pos, h.vf, ci.Args[2]) {
			ret(s, p, bool_(false))
		}
	case kind == "put":
		nn := h.newNode(in, ci.Args[1], ci.Args[2])
		for _, s := range h.setNode(in, p.O, l.AddK(-1), h.nf, nn) {
			ret(s, p, bool_(true))
		}
	case kind == "get" && present:
		for _, r := range h.in.ReadCell(in, p.O, pos) {
			ret(r.St, bool_(true), r.V.(ai.Struct).F[h.vf])
		}
	case kind == "remove" && present:
		after := ai.Ptr{O: p.O, IsElem: true, Idx: pos.AddK(1)}
		here, later := in.Branch(ai.CEq{L: p.Idx.Sub(pos)})
		if here != nil {
			ret(here, after)
		}
		if later != nil {
			for _, s := range h.setNode(later, p.O, pos.AddK(-1), h.nf, after) {
				ret(s, p)
			}
		}
	default:
		end(in)
	}
	return
}

// insert uses the contract of Put on a table other than the original one.
func (h *htab) insert(st *ai.State, ci *ai.CallInfo) (out []ai.Outcome) {
	for _, r := range h.status(st) {
		st := r.st
		h.consistent(st, r.has != "no")
		if k, ok := st.Resolve(ci.Args[1]).(ai.Sym); !ok || st.Possible(k.ID, h.x.ID)&ai.EQ != 0 && st.Possible(k.ID, h.x.ID) != ai.EQ {
			panic(ai.Undecided{Msg: "a key is put back that may or may not be the key followed", Pos: ci.Pos})
		} else if st.Possible(k.ID, h.x.ID) == ai.EQ {
			switch {
			case sameVal(st, ci.Args[2], h.v0):
				r.has = "old"
			case sameVal(st, ci.Args[2], h.v1):
				r.has = "new"
			default:
				r.has = "other"
			}
		}
		out = append(out, h.grown(st, ci, r.has))
	}
	return
}

// grow uses the contract of a method that only moves the entries to another table.
func (h *htab) grow(st *ai.State, ci *ai.CallInfo) (out []ai.Outcome) {
	for _, r := range h.status(st) {
		h.consistent(r.st, r.has != "no")
		out = append(out, h.grown(r.st, ci, r.has))
	}
	return
}

// grown: an arbitrary table about which only x is known.
func (h *htab) grown(st *ai.State, ci *ai.CallInfo, has string) ai.Outcome {
	me := st.Resolve(h.self).(ai.Ptr).O
	m, c := h.in.NewAtom("buckets"), h.in.NewAtom("count")
	st.AddLe(ai.K(1).Sub(m))
	st.AddLe(c.Neg())
	a := st.NewArr(types.NewPointer(h.E), m, ai.DefSym, true, "!grown")
	st.SetField(me, []int{h.tf}, ai.Slice{Arr: a.ID, Off: ai.K(0), Len: m, Cap: m})
	st.SetField(me, []int{h.sf}, ai.Int{L: c})
	st.Ghost["grown"] = ai.Str{S: has}
	st.Ghost["count"] = ai.Int{L: c}
	st.Ghost["mult"] = ai.Int{L: ai.K(map[bool]int64{true: 0, false: 1}[has == "no"])}
	o := ai.Outcome{St: st}
	for i := 0; i < ci.Sig.Results().Len(); i++ {
		T := ci.Sig.Results().At(i).Type()
		if types.Identical(T, types.Universe.Lookup("error").Type()) {
			o.Rets = append(o.Rets, ai.Nil{})
		} else {
			o.Rets = append(o.Rets, h.in.Fresh(st, T, "result"))
		}
	}
	return o
}

// growLike recognises a method that replaces the table and is given nothing to store.
func (h *htab) growLike(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || len(fn.Params) != 1 || !types.Identical(fn.Params[0].Type(), types.NewPointer(h.H)) {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() > 1 || r.Len() == 1 && !types.Identical(r.At(0).Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if f, ok := s.Addr.(*ssa.FieldAddr); ok && f.X == fn.Params[0] && f.Field == h.tf {
					return true
				}
			}
		}
	}
	return false
}

type hstatus struct {
	st  *ai.State
	has string
}

// status: what the table says about x now.
func (h *htab) status(st *ai.State) (out []hstatus) {
	if g, ok := st.Ghost["grown"].(ai.Str); ok && g.S != "-" {
		if s, ok := h.table(st); ok && st.Obj(s.Arr).Name == "!grown" {
			return []hstatus{{st, g.S}}
		}
	}
	for _, o := range h.c.callM(h.in, st.Clone(), types.NewPointer(h.H), h.self, "Get", h.x) {
		if o.Panic != nil {
			panic(ai.Undecided{Msg: "looking up a key during growth may crash"})
		}
		s := hstatus{o.St, "other"}
		switch {
		case isNil(o.St, o.Rets[1]) == ai.F:
			s.has = "no"
		case sameVal(o.St, o.Rets[0], h.v0):
			s.has = "old"
		case sameVal(o.St, o.Rets[0], h.v1):
			s.has = "new"
		}
		out = append(out, s)
	}
	return
}

func (h *htab) consistent(st *ai.State, has bool) {
	me := st.Resolve(h.self).(ai.Ptr).O
	size := intv(st.Resolve(st.FieldOf(me, h.sf)))
	if !st.EqLin(size, intv(st.Ghost["count"])) {
		h.bad("size", st, "the recorded size is %s while %s entries are stored", st.Show(ai.Int{L: size}), st.Show(st.Ghost["count"]))
	}
	w := int64(0)
	if has {
		w = 1
	}
	if !st.EqLin(intv(st.Ghost["mult"]), ai.K(w)) {
		h.bad("lookup", st, "x is stored %s times, expected %d", st.Show(st.Ghost["mult"]), w)
	}
}

// home: the bucket index the table itself uses to look up a key among n buckets.
func (h *htab) home(st *ai.State, n ai.Lin, key ai.Val) (out []ai.R) {
	for _, o := range h.in.CallFunc(h.scratch(st, n), nil, h.c.P.M("hashtable", "Hash", "Has"), []ai.Val{st.Ghost["scratch"], key}, nil, h.fn.Pos()) {
		if o.Panic != nil {
			h.bad("answer", o.St, "looking up a key in an empty table may crash: %s", o.Panic.Msg)
			continue
		}
		i, ok := o.St.Ghost["home"].(ai.Int)
		if !ok {
			panic(ai.Undecided{Msg: "looking up a key reads no bucket"})
		}
		delete(o.St.Ghost, "home")
		delete(o.St.Ghost, "scratch")
		out = append(out, ai.R{St: o.St, V: i})
	}
	return
}

func (h *htab) scratch(st *ai.State, n ai.Lin) *ai.State {
	a := st.NewArr(types.NewPointer(h.E), n, ai.DefZero, true, "!scratch")
	v := h.in.Zero(st, h.H).(ai.Struct)
	o := st.NewObj(h.H, v, true, "scratch table")
	st.SetField(o.ID, []int{h.tf}, ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: n})
	st.Ghost["scratch"] = ai.Ptr{O: o.ID}
	return st
}

func (h *htab) protect(i ai.Lin) {
	for _, j := range h.in.Protect {
		if i.Equal(j) {
			return
		}
	}
	h.in.Protect = append(h.in.Protect, i)
}

// fill makes a chain of arbitrary length holding the given keys at arbitrary places.
func (h *htab) fill(st *ai.State, name string, l ai.Lin, keys []ai.Sym) (out []ai.R) {
	st.AddLe(l.Neg())
	p := h.chain(st, name, l).(ai.Ptr)
	if h.pos[name] == nil {
		h.pos[name] = map[int]ai.Lin{}
	}
	for _, k := range keys {
		at, had := h.pos[name][k.ID]
		if !had {
			at = h.in.NewAtom("position of " + h.in.Info(k.ID).Name)
			h.pos[name][k.ID] = at
		}
		st.AddLe(at.Neg())
		st.AddLe(at.AddK(1).Sub(l))
		h.protect(at)
		st.Ghost["p"+name+h.in.Info(k.ID).Name] = ai.Int{L: at}
	}
	states := []*ai.State{st}
	if len(keys) == 2 {
		a, b := h.pos[name][keys[0].ID], h.pos[name][keys[1].ID]
		o := st.Clone()
		st.AddLe(a.AddK(1).Sub(b))
		o.AddLe(b.AddK(1).Sub(a))
		states = append(states, o)
	}
	for _, s := range states {
		for _, k := range keys {
			sk, sv := h.xs, h.v0
			if k.ID == h.k.ID {
				sk, sv = h.ks, h.w0
			}
			at := h.pos[name][k.ID]
			r := h.in.ReadCell(s, p.O, at)[0]
			c := ai.Struct{F: append([]ai.Val(nil), r.V.(ai.Struct).F...)}
			c.F[h.kf], c.F[h.vf] = sk, sv
			s = h.in.WriteCell(r.St, p.O, at, c)[0]
		}
		out = append(out, ai.R{St: s, V: p})
	}
	return
}

// pre makes the arbitrary tables to start from. xIn: x is stored; k: "same" as x, "in", "out", or "" for none.
func (h *htab) pre(xIn bool, k string) (out []*ai.State) {
	in := h.in
	defer func() { h.base = in.Mark(); in.Base = h.base }()
	st := in.NewState()
	h.n = in.NewAtom("buckets")
	st.AddLe(ai.K(1).Sub(h.n))
	size := in.NewAtom("size")
	h.same = k == "same"
	eq := func(a, b ai.Sym, m uint8) { st.SetOrd(a.ID, b.ID, m) }
	for _, s := range []ai.Sym{h.x, h.xs, h.k, h.ks} {
		st.NonNil(s)
	}
	eq(h.x, h.xs, ai.EQ)
	eq(h.k, h.ks, ai.EQ)
	if h.same {
		eq(h.x, h.k, ai.EQ)
	} else {
		eq(h.x, h.k, ai.LT|ai.GT)
	}
	for i, s := range []ai.Sym{h.x, h.xs, h.k, h.ks, h.v0, h.v1, h.w0} {
		st.Ghost[fmt.Sprintf("sym%d", i)] = s
	}
	st.Ghost["grown"] = ai.Str{S: "-"}
	st.Ghost["sides"] = ai.Str{}
	T := st.NewArr(types.NewPointer(h.E), h.n, ai.DefSym, false, "!table")
	h.T0 = T.ID
	o := st.NewObj(h.H, in.Fresh(st, h.H, "table"), false, "table")
	h.self = ai.Ptr{O: o.ID}
	st.Ghost["self"] = h.self
	st.SetField(o.ID, []int{h.tf}, ai.Slice{Arr: T.ID, Off: ai.K(0), Len: h.n, Cap: h.n})
	st.SetField(o.ID, []int{h.sf}, ai.Int{L: size})
	lx, lk := in.NewAtom("length"), in.NewAtom("length")
	put := func(s *ai.State, at ai.Lin, v ai.Val) *ai.State {
		h.protect(at)
		return in.WriteCell(s, T.ID, at, v)[0]
	}
	done := func(s *ai.State) {
		s.Ghost["count"] = ai.Int{L: size}
		m := int64(0)
		if xIn {
			m = 1
		}
		s.Ghost["mult"] = ai.Int{L: ai.K(m)}
		s.AddLe(lx.Sub(size))
		s.Ghost["lx"] = ai.Int{L: lx}
		out = append(out, s)
	}
	var xk []ai.Sym
	if xIn {
		xk = append(xk, h.x)
	}
	for _, a := range h.home(st, h.n, h.x) {
		hx := intv(a.V)
		a.St.Ghost["hx"] = a.V
		if k == "same" || k == "" {
			for _, f := range h.fill(a.St, "!x", lx, xk) {
				done(put(f.St, hx, f.V))
			}
			continue
		}
		for _, b := range h.home(a.St, h.n, h.k) {
			hk := intv(b.V)
			b.St.Ghost["hk"] = b.V
			one, two := b.St.Branch(ai.CEq{L: hx.Sub(hk)})
			if one != nil {
				keys := xk
				if k == "in" {
					keys = append(append([]ai.Sym(nil), xk...), h.k)
				}
				for _, f := range h.fill(one, "!x", lx, keys) {
					done(put(f.St, hx, f.V))
				}
			}
			if two != nil {
				var keys []ai.Sym
				if k == "in" {
					keys = []ai.Sym{h.k}
				}
				for _, f := range h.fill(two, "!y", lx, xk) {
					for _, g := range h.fill(f.St, "!k", lk, keys) {
						s := put(put(g.St, hx, f.V), hk, g.V)
						s.AddLe(lx.Add(lk).Sub(size))
						s.Ghost["lk"] = ai.Int{L: lk}
						done(s)
					}
				}
			}
		}
	}
	return
}

// settle gives a grown table a concrete bucket for x, so that looking it up can be followed.
func (h *htab) settle(st *ai.State) (out []*ai.State) {
	s, ok := h.table(st)
	if !ok || st.Obj(s.Arr).Name != "!grown" {
		return []*ai.State{st}
	}
	has := st.Ghost["grown"].(ai.Str).S
	count := st.Ghost["count"]
	delete(st.Ghost, "count")
	for _, r := range h.home(st, s.Len, h.x) {
		l := h.in.NewAtom("length")
		var keys []ai.Sym
		if has != "no" {
			keys = append(keys, h.x)
		}
		for _, f := range h.fill(r.St, "!g", l, keys) {
			q := h.in.WriteCell(f.St, s.Arr, intv(r.V), f.V)[0]
			if has != "no" && has != "old" {
				v := ai.Val(h.v1)
				if has != "new" {
					v = h.in.NewSym(h.E.Underlying().(*types.Struct).Field(h.vf).Type(), "some value")
				}
				q = h.setNode(q, f.V.(ai.Ptr).O, h.pos["!g"][h.x.ID], h.vf, v)[0]
			}
			q.Ghost["count"] = count
			out = append(out, q)
		}
	}
	return
}

// holds: afterwards x is found with value want, or not found when want is nil.
func (h *htab) holds(st *ai.State, want ai.Val) {
	h.consistent(st, want != nil)
	T := types.NewPointer(h.H)
	for _, q := range h.settle(st) {
		for _, o := range h.c.callM(h.in, q.Clone(), T, h.self, "Get", h.x) {
			switch {
			case o.Panic != nil:
				h.bad("lookup", o.St, "Get may crash afterwards: %s", o.Panic.Msg)
			case want == nil && isNil(o.St, o.Rets[1]) != ai.F:
				h.bad("lookup", o.St, "Get may find x afterwards although it is not stored")
			case want != nil && isNil(o.St, o.Rets[1]) != ai.T:
				h.bad("lookup", o.St, "Get may not find x afterwards although it is stored")
			case want != nil && !sameVal(o.St, o.Rets[0], want):
				h.bad("lookup", o.St, "Get returns %s afterwards, expected %s", o.St.Show(o.Rets[0]), o.St.Show(want))
			}
		}
		for _, o := range h.c.callM(h.in, q.Clone(), T, h.self, "Has", h.x) {
			if o.Panic != nil {
				h.bad("lookup", o.St, "Has may crash afterwards: %s", o.Panic.Msg)
			} else if got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C); got == ai.U || (got == ai.T) != (want != nil) {
				h.bad("lookup", o.St, "Has may not answer %v afterwards", want != nil)
			}
		}
		for _, o := range h.c.callM(h.in, q.Clone(), T, h.self, "Size") {
			if o.Panic != nil || !o.St.EqLin(intv(o.Rets[0]), intv(q.Ghost["count"])) {
				h.bad("size", o.St, "Size is not the number of stored entries afterwards")
			}
		}
	}
}

func (c *Ctx) hashOps() {
	var parts []func(c *Ctx)
	op := func(fn *ssa.Function, name, rule, what string, f func(h *htab)) {
		key := name + what
		if fn == nil {
			c.R.Fail("anchor", key, "", "anchor not found in the tree")
			return
		}
		if o := os.Getenv("DSV_ONLY"); o != "" && !strings.Contains(key, o) || c.only != nil && !c.only(key) {
			return
		}
		parts = append(parts, func(c *Ctx) {
			c.R.Count("operations", 1)
			c.Guard(rule, key, fn.Pos(), func() {
				h := c.newHtab(key, fn)
				defer c.Done(h.in)
				f(h)
				if h.ok {
					c.R.OK(rule, key, c.P.Pos(fn.Pos()))
				}
			})
		})
	}
	m := func(n string) *ssa.Function { return c.P.M("hashtable", "Hash", n) }
	run := func(h *htab, st *ai.State, fn *ssa.Function, args ...ai.Val) (out []ai.Outcome) {
		for _, o := range h.in.CallFunc(st, nil, fn, append([]ai.Val{h.self}, args...), nil, fn.Pos()) {
			if o.Panic != nil {
				h.bad("answer", o.St, "may crash: %s (%s)", o.Panic.Msg, h.c.P.Pos(o.Panic.Pos))
				continue
			}
			out = append(out, o)
		}
		return
	}
	before := func(h *htab, xIn bool) ai.Val {
		if xIn {
			return h.v0
		}
		return nil
	}
	proto := c.newHtab("", m("Put"))
	// every way of inserting, Put itself included
	puts := map[string]*ssa.Function{"Put": m("Put")}
	for i := 0; i < proto.H.NumMethods(); i++ {
		if f := c.P.M("hashtable", "Hash", proto.H.Method(i).Name()); f != nil && proto.putLike(f) {
			puts[f.Name()] = f
		}
	}
	for _, xIn := range []bool{true, false} {
		for _, k := range []string{"same", "in", "out"} {
			xIn, k := xIn, k
			what := fmt.Sprintf(", x stored: %v, key given: %s", xIn, map[string]string{"same": "x", "in": "another, stored", "out": "another, not stored"}[k])
			for n, fn := range puts {
				n, fn := n, fn
				op(fn, "hashtable.Hash."+n, "lookup", what, func(h *htab) {
					h.cut = k == "in"
					for _, st := range h.pre(xIn, k) {
						for _, o := range run(h, st, fn, h.k, h.v1) {
							for _, r := range o.Rets {
								if types.IsInterface(fn.Signature.Results().At(0).Type()) && isNil(o.St, r) != ai.T {
									h.bad("answer", o.St, "may report an error")
								}
							}
							if k == "same" {
								h.holds(o.St, h.v1)
							} else {
								h.holds(o.St, before(h, xIn))
							}
						}
					}
				})
			}
			op(m("Remove"), "hashtable.Hash.Remove", "lookup", what, func(h *htab) {
				present := k == "in" || k == "same" && xIn
				h.cut = true
				for _, st := range h.pre(xIn, k) {
					for _, o := range run(h, st, m("Remove"), h.k) {
						want := ai.Val(h.w0)
						if k == "same" {
							want = h.v0
						}
						switch {
						case present && isNil(o.St, o.Rets[1]) != ai.T:
							h.bad("answer", o.St, "may report an error although the key is stored")
						case !present && isNil(o.St, o.Rets[1]) != ai.F:
							h.bad("answer", o.St, "may not report that the key is absent")
						case present && !sameVal(o.St, o.Rets[0], want):
							h.bad("answer", o.St, "returns %s, not the value removed", o.St.Show(o.Rets[0]))
						}
						if k == "same" {
							h.holds(o.St, nil)
						} else {
							h.holds(o.St, before(h, xIn))
						}
					}
				}
			})
		}
	}
	for _, xIn := range []bool{true, false} {
		xIn := xIn
		what := fmt.Sprintf(", x stored: %v", xIn)
		op(m("Get"), "hashtable.Hash.Get", "lookup", what, func(h *htab) {
			for _, st := range h.pre(xIn, "") {
				h.holds(st, before(h, xIn))
			}
		})
		for i := 0; i < proto.H.NumMethods(); i++ {
			fn := m(proto.H.Method(i).Name())
			if fn == nil || !proto.growLike(fn) {
				continue
			}
			op(fn, c.P.FuncName(fn), "lookup", what, func(h *htab) {
				h.growing = true
				for _, st := range h.pre(xIn, "") {
					for _, o := range run(h, st, fn) {
						for _, r := range o.Rets {
							if isNil(o.St, r) != ai.T {
								h.bad("answer", o.St, "may report an error")
							}
						}
						h.holds(o.St, before(h, xIn))
					}
				}
			})
		}
		for _, it := range []string{"Iterate", "Keys"} {
			it := it
			op(m(it), "hashtable.Hash."+it, "iteration", what, func(h *htab) {
				drv := h.c.client(map[string]string{"Iterate": "WalkKV", "Keys": "WalkK"}[it])
				base := h.in.H.Call
				h.in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
					if ci.Fn == nil || ci.Fn.Pkg != h.c.P.Driver {
						return base(q, ci)
					}
					n := q.Ghost["seen"].(ai.Str).S
					switch ci.Fn.Name() {
					case "Visit", "Seen":
						s, ok := q.Resolve(ci.Args[0]).(ai.Sym)
						if !ok || q.Possible(s.ID, h.x.ID)&ai.EQ != 0 && q.Possible(s.ID, h.x.ID) != ai.EQ {
							h.bad("iteration", q, "shows %s, which is not a stored key", q.Show(ci.Args[0]))
						} else if q.Possible(s.ID, h.x.ID) == ai.EQ {
							if n != "0" || !xIn {
								h.bad("iteration", q, "may show a key more often than it is stored")
							}
							if len(ci.Args) > 1 && !sameVal(q, ci.Args[1], h.v0) {
								h.bad("iteration", q, "shows x with %s, not its value", q.Show(ci.Args[1]))
							}
							q.Ghost["seen"] = ai.Str{S: "1"}
						} else if len(ci.Args) > 1 {
							h.pairs(q, s, ci.Args[1])
						}
						return []ai.Outcome{{St: q}}, true
					case "Over":
						if xIn && n != "1" {
							h.bad("iteration", q, "may end without having shown x")
						}
						return []ai.Outcome{{St: q}}, true
					}
					return nil, false
				}
				for _, st := range h.pre(xIn, "") {
					st.Ghost["seen"] = ai.Str{S: "0"}
					for _, o := range run(h, st, m(it)) {
						for _, d := range h.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
							if d.Panic != nil {
								h.bad("iteration", d.St, "may crash: %s", d.Panic.Msg)
							}
						}
					}
				}
			})
		}
	}
	for _, fn := range c.P.Funcs {
		fn := fn
		if proto.choice(fn) {
			op(fn, c.P.FuncName(fn), "bucket", "", func(h *htab) { h.chooses() })
		}
		kind := proto.onChain(fn)
		if kind == "" || !recursive(fn) {
			continue
		}
		for _, present := range []bool{true, false} {
			present := present
			op(fn, c.P.FuncName(fn), "chain", fmt.Sprintf(", key in the chain: %v", present), func(h *htab) { h.contract(kind, present) })
		}
	}
	op(c.P.Func("hashtable", "NewHashTable"), "hashtable.NewHashTable", "lookup", "", func(h *htab) {
		st := h.pre(false, "")[0]
		n := h.in.NewAtom("asked")
		for _, o := range h.in.CallFunc(st, nil, h.fn, []ai.Val{ai.Int{L: n}}, nil, h.fn.Pos()) {
			if o.Panic != nil {
				h.bad("answer", o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			h.self = o.Rets[0]
			s, ok := h.table(o.St)
			if !ok || !o.St.Le(ai.K(1), s.Len) {
				h.bad("answer", o.St, "may make a table without buckets")
				continue
			}
			o.St.Ghost["count"] = ai.Int{L: ai.K(0)}
			o.St.Ghost["mult"] = ai.Int{L: ai.K(0)}
			h.holds(o.St, nil)
		}
	})
	c.Parallel(parts...)
}

// pairs: a key shown by the iteration comes with the value of the same node.
func (h *htab) pairs(st *ai.State, k ai.Sym, v ai.Val) {
	s, ok := st.Resolve(v).(ai.Sym)
	a := h.in.Info(k.ID)
	if ok && a != nil && strings.HasPrefix(a.Op, "key!") {
		b := h.in.Info(s.ID)
		if b != nil && b.Op == "val"+a.Op[3:] && len(a.Args) == 1 && len(b.Args) == 1 && st.EqLin(intv(a.Args[0]), intv(b.Args[0])) {
			return
		}
	}
	h.bad("iteration", st, "shows a key with %s, not its value", st.Show(v))
}

func recursive(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// contract verifies a recursive chain function at an arbitrary position of an arbitrary chain.
func (h *htab) contract(kind string, present bool) {
	st := h.pre(false, "same")[0]
	delete(st.Ghost, "count")
	l := h.in.NewAtom("length")
	var keys []ai.Sym
	if present {
		keys = []ai.Sym{h.x}
	}
	f := h.fill(st, "!x", l, keys)[0]
	st = f.St
	N := f.V.(ai.Ptr).O
	st.Ghost["N"] = ai.Ptr{O: N}
	idx, p := h.in.NewAtom("start"), h.in.NewAtom("any position")
	st.AddLe(idx.Neg())
	st.AddLe(idx.Sub(l))
	st.AddLe(p.Neg())
	st.AddLe(p.AddK(1).Sub(l))
	at := h.pos["!x"][h.x.ID]
	if present {
		st.AddLe(idx.Sub(at))
	}
	for n, v := range map[string]ai.Lin{"idx": idx, "p": p, "l": l} {
		st.Ghost[n] = ai.Int{L: v}
	}
	h.protect(p)
	ptr := func(i ai.Lin) ai.Ptr { return ai.Ptr{O: N, IsElem: true, Idx: i} }
	args := []ai.Val{ptr(idx), h.k}
	if kind == "put" {
		args = append(args, h.v1)
	}
	fresh := func(q *ai.State, v ai.Val) bool {
		p, ok := q.Resolve(v).(ai.Ptr)
		if !ok || p.IsElem || len(p.Path) > 0 {
			return false
		}
		o := q.Obj(p.O)
		return o != nil && o.Arr == nil && o.Fresh && types.Identical(o.T, h.E) && sameVal(q, q.FieldOf(p.O, h.kf), h.k) &&
			sameVal(q, q.FieldOf(p.O, h.vf), h.v1) && isNil(q, q.FieldOf(p.O, h.nf)) == ai.T
	}
	// same pointer, possibly both nil
	alike := func(q *ai.State, a, b ai.Val) bool {
		if sameVal(q, a, b) {
			return true
		}
		x, ok1 := q.Resolve(a).(ai.Sym)
		y, ok2 := q.Resolve(b).(ai.Sym)
		if !ok1 || !ok2 {
			return false
		}
		i, j := h.in.Info(x.ID), h.in.Info(y.ID)
		return i.Op == j.Op && len(i.Args) == 1 && len(j.Args) == 1 && q.EqLin(intv(i.Args[0]), intv(j.Args[0]))
	}
	same := func(q *ai.State, v ai.Val, w ai.Ptr) bool {
		if sameVal(q, v, w) {
			return true
		}
		c, ok := h.ptrEq(q, q.Resolve(v), w)
		return ok && q.Eval(c) == ai.T
	}
	is := func(q *ai.State, v ai.Val, want bool) bool {
		got := q.Eval(q.Resolve(v).(ai.Bool).C)
		return got != ai.U && (got == ai.T) == want
	}
	for _, o := range h.in.CallFunc(st, nil, h.fn, args, nil, h.fn.Pos()) {
		for k, q := range branch(o.St, h.inside(o.St, ptr(idx))) {
			if q == nil {
				continue
			}
			in := k == 0
			if o.Panic != nil {
				if kind != "remove" || present {
					h.bad("chain", q, "may crash: %s", o.Panic.Msg)
				}
				continue
			}
			if kind == "remove" && !present {
				h.bad("chain", q, "may not refuse to remove a key that is not in the chain")
				continue
			}
			// the result
			switch {
			case kind == "get":
				if !is(q, o.Rets[0], present) {
					h.bad("chain", q, "may not report %v", present)
				}
				if present && !sameVal(q, o.Rets[1], h.v0) {
					h.bad("chain", q, "returns %s, not the value stored", q.Show(o.Rets[1]))
				}
			case kind == "put" && !in:
				if !fresh(q, o.Rets[0]) || !is(q, o.Rets[1], true) {
					h.bad("chain", q, "at the end of the chain it does not return a new node with the key and value given")
				}
			case kind == "put":
				if !same(q, o.Rets[0], ptr(idx)) {
					h.bad("chain", q, "returns %s, not the chain it was given", q.Show(o.Rets[0]))
				}
				if !is(q, o.Rets[1], !present) {
					h.bad("chain", q, "may not report whether an entry was added")
				}
			case kind == "remove":
				for k, r := range branch(q, ai.CEq{L: idx.Sub(at)}) {
					if r == nil {
						continue
					}
					want := idx
					if k == 0 {
						want = at.AddK(1)
					}
					if !same(r, o.Rets[0], ptr(want)) {
						h.bad("chain", r, "returns %s as the remaining chain", r.Show(o.Rets[0]))
					}
				}
			}
			// any node of the chain
			for _, c := range h.in.ReadCell(q, N, p) {
				key, val, next := c.V.(ai.Struct).F[h.kf], c.V.(ai.Struct).F[h.vf], c.V.(ai.Struct).F[h.nf]
				h.each(c.St, p, at, present, func(r *ai.State, here, justBefore bool) {
					wantK, wantV := ai.Val(h.xs), ai.Val(h.v0)
					if !here {
						v, _ := h.initCell(r, r.Obj(N), p)
						wantK, wantV = v.(ai.Struct).F[h.kf], v.(ai.Struct).F[h.vf]
					}
					if here && kind == "put" {
						wantV = h.v1
					}
					if !alike(r, key, wantK) {
						h.bad("chain", r, "changes a stored key")
					}
					if !alike(r, val, wantV) {
						h.bad("chain", r, "leaves %s as the value of a node, expected %s", r.Show(val), r.Show(wantV))
					}
					for k, e := range branch(r, ai.CEq{L: p.AddK(1).Sub(l)}) {
						if e == nil {
							continue
						}
						switch {
						case kind == "put" && !present && in && k == 0:
							if !fresh(e, next) {
								h.bad("chain", e, "links %s, not a new node, at the end", e.Show(next))
							}
						case kind == "remove" && justBefore && e.Eval(ai.CLe{L: idx.Sub(p)}) == ai.T:
							if !same(e, next, ptr(at.AddK(1))) {
								h.bad("chain", e, "does not take out the node with the key")
							}
						case kind == "remove" && justBefore:
						case !same(e, next, ptr(p.AddK(1))):
							h.bad("chain", e, "links a node to %s", e.Show(next))
						}
					}
				})
			}
		}
	}
}

// each splits on where p lies relative to the key's position.
func (h *htab) each(st *ai.State, p, at ai.Lin, present bool, f func(st *ai.State, here, justBefore bool)) {
	if !present {
		f(st, false, false)
		return
	}
	a, rest := st.Branch(ai.CEq{L: p.Sub(at)})
	if a != nil {
		f(a, true, false)
	}
	if rest == nil {
		return
	}
	b, c := rest.Branch(ai.CEq{L: p.AddK(1).Sub(at)})
	if b != nil {
		f(b, false, true)
	}
	if c != nil {
		f(c, false, false)
	}
}
