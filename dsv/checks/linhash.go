package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	registerClient("C09", "Abstract interpretation of every operation of the linear hash table on a table of any size, followed through the eyes of one arbitrary key x with an arbitrary hash. Masks and powers of two are multiples of an unknown power p, residues of a hash by them are related exactly. The trees in the buckets are used by their contract (C06), each described only by whether it holds x.", hashClient, func(c *Ctx) {
		c.R.Rule("lookup", "afterwards x is found exactly if it should be, with its last value, in the one bucket where it is looked up and in no other")
		c.R.Rule("shape", "afterwards the number of buckets is the recorded one and lies between the two powers of two of the level")
		c.R.Rule("size", "the recorded size changes by one exactly when a key is added or removed")
		c.R.Rule("answer", "the operation returns the value removed or found, errors exactly when the key is absent, and does not crash")
		c.R.Rule("iteration", "iterating shows x exactly once if it is stored, with its value, and otherwise not")
		c.R.Assume("the trees in the buckets keep their contract (C06) and their iteration shows each entry once (C22)")
		c.linhashOps()
		c.R.Floor("operations", 12)
	})
}

// linhash is an arbitrary linear hash table seen by one key.
type linhash struct {
	c              *Ctx
	in             *ai.Interp
	L, N           *types.Named
	tf, nf, rf, lf int // buckets, their number, size, level
	self           ai.Val
	T              int
	p              ai.Lin // 2^(level-1)
	level, n, r    ai.Lin
	x, xs, k       ai.Sym
	v0, v1         ai.Sym
	t0, t1, tO     ai.Sym // trees that hold x with the first, the new, some other value
	key            string
	fn             *ssa.Function
	ok             bool
}

func (h *linhash) bad(rule string, st *ai.State, f string, args ...interface{}) {
	h.ok = false
	h.c.R.Fail(rule, h.key, h.c.P.Pos(h.fn.Pos()), fmt.Sprintf(f, args...), h.c.Path(st)...)
}

func (c *Ctx) newLinhash(key string, fn *ssa.Function) *linhash {
	h := &linhash{c: c, in: c.Interp(), L: c.P.Named("hashtable", "LinearHash"), N: c.P.Named("tree/avl", "AvlNode"), key: key, fn: fn, ok: true}
	in := h.in
	in.MaxHeads, in.MoreJoins = 300, 20
	in.NoSettle = true
	in.Counts, in.Sides = true, true
	in.Rigid = map[int]bool{}
	mk := func(T types.Type, name string) ai.Sym {
		s := in.NewSym(T, name)
		in.Rigid[s.ID] = true
		return s
	}
	any := types.NewInterfaceType(nil, nil)
	h.x, h.xs, h.k = mk(c.hashable(), "x"), mk(c.hashable(), "stored x"), mk(c.hashable(), "k")
	h.v0, h.v1 = mk(any, "value of x"), mk(any, "new value")
	T := types.NewPointer(h.N)
	h.t0, h.t1, h.tO = mk(T, "tree with x"), mk(T, "tree with x renewed"), mk(T, "tree with x and some value")
	h.fields()
	in.H.BinOp = h.binop
	in.H.Call = h.call
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if o.Name == "!table" {
			return h.without(st), true
		}
		return nil, false
	}
	in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if s, ok := h.table(st); ok && p.IsElem && p.O == s.Arr && st.Ghost["home"] != nil {
			st.Ghost["home"] = ai.Int{L: p.Idx.Sub(s.Off)}
		}
	}
	in.H.TypeAssert = func(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
		if types.IsInterface(T) && types.Implements(c.hashable(), T.Underlying().(*types.Interface)) {
			return []ai.TA{{St: st, V: s, OK: true}}, true
		}
		return nil, false
	}
	return h
}

// fields tells the fields apart by what a new table puts into them.
func (h *linhash) fields() {
	s := h.L.Underlying().(*types.Struct)
	h.tf = onlyField(s, "buckets", func(T types.Type) bool { _, ok := T.Underlying().(*types.Slice); return ok })
	h.nf, h.rf, h.lf = -1, -1, -1
	mk := h.c.P.Func("hashtable", "NewLinearHash")
	if mk == nil {
		panic(ai.Undecided{Msg: "NewLinearHash not found"})
	}
	in := h.c.Interp()
	for _, o := range in.CallFunc(in.NewState(), nil, mk, nil, nil, mk.Pos()) {
		p, ok := o.St.Resolve(o.Rets[0]).(ai.Ptr)
		if o.Panic != nil || !ok {
			panic(ai.Undecided{Msg: "the making of a table is not understood"})
		}
		t, ok := o.St.Resolve(o.St.FieldOf(p.O, h.tf)).(ai.Slice)
		if !ok || !t.Len.IsConst() {
			panic(ai.Undecided{Msg: "the number of buckets of a new table is not known"})
		}
		for i := 0; i < s.NumFields(); i++ {
			v, ok := o.St.Resolve(o.St.FieldOf(p.O, i)).(ai.Int)
			if !ok || !v.L.IsConst() {
				continue
			}
			switch {
			case v.L.C == t.Len.C:
				h.nf = i
			case v.L.C == 0:
				h.rf = i
			case v.L.C > 0 && v.L.C < 40 && (t.Len.C == 1<<uint(v.L.C) || t.Len.C == 1<<uint(v.L.C-1)):
				h.lf = i
			}
		}
	}
	if h.nf < 0 || h.rf < 0 || h.lf < 0 {
		panic(ai.Undecided{Msg: "a new table does not record its number of buckets, its size 0 and a fitting level"})
	}
}

func (h *linhash) table(st *ai.State) (ai.Slice, bool) {
	p, ok := st.Resolve(h.self).(ai.Ptr)
	if !ok {
		return ai.Slice{}, false
	}
	s, ok := st.Resolve(st.FieldOf(p.O, h.tf)).(ai.Slice)
	return s, ok
}

// without makes a tree that does not hold x, possibly empty.
func (h *linhash) without(st *ai.State) ai.Sym {
	s := h.in.NewSym(types.NewPointer(h.N), "tree")
	h.in.Info(s.ID).Tag = "tree"
	return s
}

// holding: the value a tree holds for x, nil if it does not hold x.
func (h *linhash) holding(st *ai.State, t ai.Val, pos token.Pos) ai.Val {
	switch y := st.Resolve(t).(type) {
	case ai.Nil:
		return nil
	case ai.Sym:
		switch y.ID {
		case h.t0.ID:
			return h.v0
		case h.t1.ID:
			return h.v1
		case h.tO.ID:
			return ai.Str{S: "some other value"}
		}
		if i := h.in.Info(y.ID); i != nil && i.Tag == "tree" {
			return nil
		}
	}
	panic(ai.Undecided{Msg: "unknown tree " + st.Show(t), Pos: pos})
}

func (h *linhash) isTree(st *ai.State, t ai.Val) bool {
	switch y := st.Resolve(t).(type) {
	case ai.Nil:
		return true
	case ai.Sym:
		i := h.in.Info(y.ID)
		return i != nil && (i.Tag == "tree" || y.ID == h.t0.ID || y.ID == h.t1.ID || y.ID == h.tO.ID)
	}
	return false
}

func (h *linhash) with(st *ai.State, v ai.Val) ai.Sym {
	switch {
	case sameVal(st, v, h.v0):
		return h.t0
	case sameVal(st, v, h.v1):
		return h.t1
	}
	return h.tO
}

// ---- arithmetic on powers of two and residues

// power: l is the power p times a power of two.
func (h *linhash) power(l ai.Lin) (int64, bool) {
	for k := int64(1); k <= 4; k *= 2 {
		if l.Equal(h.p.Scale(k)) {
			return k, true
		}
	}
	return 0, false
}

func (h *linhash) binop(st *ai.State, x *ssa.BinOp, a, b ai.Val) ([]ai.R, bool) {
	i, ok1 := a.(ai.Int)
	j, ok2 := b.(ai.Int)
	if !ok1 || !ok2 || len(h.p.T) == 0 {
		return nil, false
	}
	one := func(st *ai.State, l ai.Lin) ai.R { return ai.R{St: st, V: ai.Int{L: l}} }
	// below m, or from m to 2m
	halves := func(l, m ai.Lin, lo, hi ai.Lin) ([]ai.R, bool) {
		if !st.Le(l.Neg(), ai.K(0)) || !st.Le(l.AddK(1), m.Scale(2)) {
			return nil, false
		}
		var out []ai.R
		y, n := st.Branch(ai.CLe{L: l.AddK(1).Sub(m)})
		if y != nil {
			out = append(out, one(y, lo))
		}
		if n != nil {
			out = append(out, one(n, hi))
		}
		return out, true
	}
	switch x.Op {
	case token.SHL:
		d := j.L.Sub(h.level)
		if i.L.IsConst() && i.L.C == 1 && d.IsConst() && d.C >= -1 && d.C <= 1 {
			return []ai.R{one(st, h.p.Scale(1<<uint(d.C+1)))}, true
		}
	case token.AND:
		for k := 0; k < 2; k++ {
			if _, ok := h.power(j.L.AddK(1)); ok {
				return h.mod(st, i.L, j.L.AddK(1), false)
			}
			if _, ok := h.power(j.L); ok {
				return halves(i.L, j.L, ai.K(0), j.L)
			}
			i, j = j, i
		}
	case token.AND_NOT:
		if _, ok := h.power(j.L); ok {
			return halves(i.L, j.L, i.L, i.L.Sub(j.L))
		}
	case token.REM:
		if _, ok := h.power(j.L); ok {
			return h.mod(st, i.L, j.L, true)
		}
	case token.XOR:
		for k := 0; k < 2; k++ {
			if _, ok := h.power(j.L); ok {
				return halves(i.L, j.L, i.L.Add(j.L), i.L.Sub(j.L))
			}
			i, j = j, i
		}
	case token.OR:
		for k := 0; k < 2; k++ {
			if _, ok := h.power(j.L); ok {
				return halves(i.L, j.L, i.L.Add(j.L), i.L)
			}
			i, j = j, i
		}
	}
	return nil, false
}

// mod: l modulo m, a known power. With sign the result has the sign of l, as the remainder operator has it.
func (h *linhash) mod(st *ai.State, l, m ai.Lin, sign bool) (out []ai.R, ok bool) {
	k, _ := h.power(m)
	one := func(st *ai.State, l ai.Lin) {
		if st != nil {
			out = append(out, ai.R{St: st, V: ai.Int{L: l}})
		}
	}
	if len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 {
		i := h.in.Info(l.T[0].A)
		if i != nil && i.Op == "conv" && len(i.Args) == 1 {
			// the same bits as an unsigned word
			b, ok := i.T.Underlying().(*types.Basic)
			v, isI := i.Args[0].(ai.Int)
			if ok && (b.Kind() == types.Uint || b.Kind() == types.Uint64) && isI && len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 {
				i, sign = h.in.Info(v.L.T[0].A), false
			}
		}
		if i != nil && i.Op == "hash" {
			r := intv(h.in.App(st, "residue", types.Typ[types.Int], i.Args[0]))
			st.AddLe(r.Neg())
			st.AddLe(r.AddK(1).Sub(h.p.Scale(2)))
			switch k {
			case 1:
				a, b := st.Branch(ai.CLe{L: r.AddK(1).Sub(h.p)})
				one(a, r)
				one(b, r.Sub(h.p))
			case 2:
				one(st, r)
			case 4:
				t := intv(h.in.App(st, "next bit", types.Typ[types.Int], i.Args[0]))
				st.AddLe(t.Neg())
				st.AddLe(t.AddK(-1))
				a, b := st.Branch(ai.CLe{L: t})
				one(a, r)
				one(b, r.Add(h.p.Scale(2)))
			}
			if sign {
				n := len(out)
				for i := 0; i < n; i++ {
					q := out[i].St.Clone()
					v := intv(out[i].V)
					if p, z := q.Branch(ai.CLe{L: v}); p != nil || z != nil {
						one(z, v.Sub(m))
					}
				}
			}
			return out, true
		}
	}
	if !st.Le(l.Neg(), ai.K(0)) || !st.Le(l, m.Scale(2)) {
		return nil, false
	}
	low, rest := st.Branch(ai.CLe{L: l.AddK(1).Sub(m)})
	one(low, l)
	if rest != nil {
		mid, top := rest.Branch(ai.CLe{L: l.AddK(1).Sub(m.Scale(2))})
		one(mid, l.Sub(m))
		one(top, l.Sub(m.Scale(2)))
	}
	return out, true
}

// ---- calls

func (h *linhash) isX(st *ai.State, k ai.Val) (yes, no *ai.State) {
	s, ok := st.Resolve(k).(ai.Sym)
	if !ok {
		panic(ai.Undecided{Msg: "unknown key " + st.Show(k)})
	}
	if s.ID == h.x.ID {
		return st, nil
	}
	return st.Branch(ai.COrd{A: s.ID, B: h.x.ID, M: ai.EQ})
}

func (h *linhash) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Method != nil && ci.Method.Name() == "Hash" {
		s, ok := st.Resolve(ci.Recv).(ai.Sym)
		if ok && (s.ID == h.x.ID || st.Possible(s.ID, h.x.ID) == ai.EQ) {
			s = h.x
		}
		return []ai.Outcome{{St: st, Rets: []ai.Val{h.in.App(st, "hash", types.Typ[types.Int], s)}}}, true
	}
	if f, ok := ci.FnVal.(ai.Sym); ok {
		if g, ok := st.Resolve(st.Ghost["it"]).(ai.Sym); ok && g.ID == f.ID {
			return h.step(st, f), true
		}
		if i := h.in.Info(f.ID); i != nil && i.Tag == "iterator" {
			panic(ai.Undecided{Msg: "two iterations at once", Pos: ci.Pos})
		}
		return nil, false
	}
	if ci.Fn == nil || ci.Fn.Signature.Recv() == nil || !types.Identical(ci.Fn.Signature.Recv().Type(), types.NewPointer(h.N)) {
		return h.c.errorsHook(st, ci)
	}
	t := ci.Args[0]
	if !h.isTree(st, t) {
		panic(ai.Undecided{Msg: "unknown tree " + st.Show(t), Pos: ci.Pos})
	}
	v := h.holding(st, t, ci.Pos)
	var out []ai.Outcome
	ret := func(st *ai.State, r ...ai.Val) { out = append(out, ai.Outcome{St: st, Rets: r}) }
	flag := func(b bool) ai.Val { return ai.Bool{C: ai.CConst{V: b}} }
	fail := func(st *ai.State) ai.Val { return h.in.NewErr(st, errType(), "absent") }
	any := types.NewInterfaceType(nil, nil)
	var yes, no *ai.State
	if len(ci.Args) > 1 {
		yes, no = h.isX(st, ci.Args[1])
	}
	// what a tree becomes when something happens to another key
	same := func(st *ai.State, nonNil bool) ai.Val {
		if v != nil {
			return st.Resolve(t)
		}
		s := h.without(st)
		if nonNil {
			st.NonNil(s)
		}
		return s
	}
	switch ci.Fn.Name() {
	case "Put":
		if yes != nil {
			ret(yes, h.with(yes, ci.Args[2]), flag(v != nil))
		}
		if no != nil {
			if isNil(no, t) != ai.T {
				q := no.Clone()
				ret(q, same(q, true), flag(true))
			}
			ret(no, same(no, true), flag(false))
		}
	case "Has":
		if yes != nil {
			ret(yes, flag(v != nil))
		}
		if no != nil {
			ret(no, h.in.NewBool("has another"))
		}
	case "Get":
		if yes != nil && v != nil {
			ret(yes, v, ai.Nil{})
		} else if yes != nil {
			ret(yes, ai.Nil{}, fail(yes))
		}
		if no != nil {
			q := no.Clone()
			ret(q, h.in.NewSym(any, "another value"), ai.Nil{})
			ret(no, ai.Nil{}, fail(no))
		}
	case "Remove":
		if yes != nil && v != nil {
			ret(yes, h.without(yes), v, ai.Nil{})
		} else if yes != nil {
			ret(yes, yes.Resolve(t), ai.Nil{}, fail(yes))
		}
		if no != nil {
			q := no.Clone()
			ret(q, same(q, false), h.in.NewSym(any, "another value"), ai.Nil{})
			ret(no, no.Resolve(t), ai.Nil{}, fail(no))
		}
	case "Iterate":
		s := h.in.NewSym(ci.Sig.Results().At(0).Type(), "iterator")
		h.in.Info(s.ID).Tag = "iterator"
		st.NonNil(s)
		st.Ghost["it"] = s
		ph := "rest"
		switch {
		case v == nil:
		case sameVal(st, v, h.v0):
			ph = "old"
		case sameVal(st, v, h.v1):
			ph = "new"
		default:
			ph = "other"
		}
		st.Ghost["ph"] = ai.Str{S: ph}
		ret(st, s)
	default:
		panic(ai.Undecided{Msg: "unmodelled tree operation " + ci.Fn.Name(), Pos: ci.Pos})
	}
	return out, true
}

// step: the iteration of a tree shows x, another entry, or ends.
func (h *linhash) step(st *ai.State, it ai.Sym) (out []ai.Outcome) {
	ph := str(st, "ph")
	any := types.NewInterfaceType(nil, nil)
	if ph != "rest" {
		q := st.Clone()
		q.Ghost["ph"] = ai.Str{S: "rest"}
		v := map[string]ai.Val{"old": h.v0, "new": h.v1}[ph]
		if v == nil {
			v = h.in.NewSym(any, "some other value")
		}
		out = append(out, ai.Outcome{St: q, Rets: []ai.Val{h.xs, v, it}})
	} else {
		q := st.Clone()
		q.Ghost["it"] = ai.Nil{}
		q.Ghost["ph"] = ai.Str{S: "none"}
		out = append(out, ai.Outcome{St: q, Rets: []ai.Val{ai.Nil{}, ai.Nil{}, ai.Nil{}}})
	}
	k := h.in.NewSym(h.c.hashable(), "another key")
	st.NonNil(k)
	st.SetOrd(k.ID, h.x.ID, ai.LT|ai.GT)
	v := h.in.NewSym(any, "its value")
	h.in.Info(v.ID).Tag = "value"
	st.Ghost["pair"] = ai.Tuple{V: []ai.Val{k, v}}
	return append(out, ai.Outcome{St: st, Rets: []ai.Val{k, v, it}})
}

// ---- states

// pre makes the arbitrary tables to start from; same: the key given is x.
func (h *linhash) pre(xIn, same bool) (out []*ai.State) {
	in := h.in
	defer func() {
		in.Base = in.Mark()
		base := in.Base
		in.H.Fold = func(st *ai.State) { st.Collect(base) }
	}()
	st := in.NewState()
	h.p, h.level, h.n, h.r = in.NewAtom("p"), in.NewAtom("level"), in.NewAtom("buckets"), in.NewAtom("size")
	st.AddLe(ai.K(1).Sub(h.p))
	st.AddLe(ai.K(1).Sub(h.level))
	st.AddLe(h.p.Sub(h.n))
	st.AddLe(h.n.Sub(h.p.Scale(2)))
	st.AddLe(h.r.Neg())
	if xIn {
		st.AddLe(ai.K(1).Sub(h.r))
	}
	for _, s := range []ai.Sym{h.x, h.xs, h.k, h.t0, h.t1, h.tO} {
		st.NonNil(s)
	}
	st.SetOrd(h.x.ID, h.xs.ID, ai.EQ)
	m := uint8(ai.LT | ai.GT)
	if same {
		m = ai.EQ
	}
	st.SetOrd(h.x.ID, h.k.ID, m)
	for i, s := range []ai.Sym{h.x, h.xs, h.k, h.v0, h.v1, h.t0, h.t1, h.tO} {
		st.Ghost[fmt.Sprintf("sym%d", i)] = s
	}
	st.Ghost["it"], st.Ghost["ph"], st.Ghost["pair"] = ai.Nil{}, ai.Str{S: "none"}, ai.Nil{}
	// there is room: append puts the new bucket behind the others, wherever they are stored
	c := in.NewAtom("capacity")
	st.AddLe(h.n.AddK(2).Sub(c))
	T := st.NewArr(types.NewPointer(h.N), c, ai.DefSym, false, "!table")
	h.T = T.ID
	o := st.NewObj(h.L, in.Fresh(st, h.L, "table"), false, "table")
	h.self = ai.Ptr{O: o.ID}
	st.Ghost["self"] = h.self
	st.SetField(o.ID, []int{h.tf}, ai.Slice{Arr: T.ID, Off: ai.K(0), Len: h.n, Cap: c})
	st.SetField(o.ID, []int{h.nf}, ai.Int{L: h.n})
	st.SetField(o.ID, []int{h.rf}, ai.Int{L: h.r})
	st.SetField(o.ID, []int{h.lf}, ai.Int{L: h.level})
	for i, l := range []ai.Lin{h.p, h.level, h.n, h.r} {
		st.Ghost[fmt.Sprintf("int%d", i)] = ai.Int{L: l}
	}
	st.Ghost["residue"] = in.App(st, "residue", types.Typ[types.Int], h.x)
	st.Ghost["bit"] = in.App(st, "next bit", types.Typ[types.Int], h.x)
	for _, b := range h.home(st) {
		// a name of its own, so that positions can be compared with it
		i := in.NewAtom("home")
		b.St.AddLe(i.Sub(intv(b.V)))
		b.St.AddLe(intv(b.V).Sub(i))
		in.Protect = append(in.Protect, i)
		v := ai.Val(h.without(b.St))
		if xIn {
			v = h.t0
		}
		b.St.Ghost["hx"] = ai.Int{L: i}
		out = append(out, in.WriteCell(b.St, T.ID, i, v)...)
	}
	return
}

// home: the bucket in which x is looked up.
func (h *linhash) home(st *ai.State) (out []ai.R) {
	st.Ghost["home"] = ai.Nil{}
	for _, o := range h.c.callM(h.in, st, types.NewPointer(h.L), h.self, "Has", h.x) {
		if o.Panic != nil {
			h.bad("answer", o.St, "Has may crash: %s", o.Panic.Msg)
			continue
		}
		i, ok := o.St.Ghost["home"].(ai.Int)
		if !ok {
			panic(ai.Undecided{Msg: "looking up a key reads no bucket"})
		}
		delete(o.St.Ghost, "home")
		out = append(out, ai.R{St: o.St, V: i})
	}
	return
}

// holds: afterwards x is found with value want, or not found when want is nil, and the table is sound.
func (h *linhash) holds(st *ai.State, want ai.Val) {
	T := types.NewPointer(h.L)
	me := st.Resolve(h.self).(ai.Ptr).O
	t, ok := h.table(st)
	n, level := intv(st.Resolve(st.FieldOf(me, h.nf))), intv(st.Resolve(st.FieldOf(me, h.lf)))
	d := level.Sub(h.level)
	if !ok || !st.EqLin(t.Len, n) {
		h.bad("shape", st, "the recorded number of buckets is not their number afterwards")
		return
	}
	if !d.IsConst() || d.C < 0 || d.C > 1 {
		h.bad("shape", st, "the level changes by more than one")
		return
	}
	if p := h.p.Scale(1 << uint(d.C)); !st.Le(p, n) || !st.Le(n, p.Scale(2)) {
		h.bad("shape", st, "the number of buckets does not lie between the powers of two of the level afterwards")
	}
	for _, o := range h.c.callM(h.in, st.Clone(), T, h.self, "Get", h.x) {
		switch {
		case o.Panic != nil:
			h.bad("lookup", o.St, "Get may crash afterwards: %s", o.Panic.Msg)
		case want == nil && isNil(o.St, o.Rets[1]) != ai.F:
			h.bad("lookup", o.St, "Get may find x afterwards although it is not stored")
		case want != nil && isNil(o.St, o.Rets[1]) != ai.T:
			h.bad("lookup", o.St, "Get may not find x afterwards although it is stored")
		case want != nil && !sameVal(o.St, o.Rets[0], want):
			h.bad("lookup", o.St, "Get returns %s afterwards, expected %s", o.St.Show(o.Rets[0]), o.St.Show(want))
		}
	}
	q := st.Clone()
	q.Ghost["home"] = ai.Nil{}
	for _, o := range h.c.callM(h.in, q, T, h.self, "Has", h.x) {
		if o.Panic != nil {
			h.bad("lookup", o.St, "Has may crash afterwards: %s", o.Panic.Msg)
			continue
		}
		if got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C); got == ai.U || (got == ai.T) != (want != nil) {
			h.bad("lookup", o.St, "Has may not answer %v afterwards", want != nil)
		}
		at, ok := o.St.Ghost["home"].(ai.Int)
		if !ok {
			panic(ai.Undecided{Msg: "looking up a key reads no bucket"})
		}
		// any other bucket
		j := h.in.NewAtom("other bucket")
		o.St.AddLe(j.Neg())
		o.St.AddLe(j.AddK(1).Sub(t.Len))
		for k, s := range []ai.Lin{j.AddK(1).Sub(at.L), at.L.AddK(1).Sub(j)} {
			e := o.St.Clone()
			if e.Assume(ai.CLe{L: s}, true) {
				for _, r := range h.in.ReadCell(e, t.Arr, t.Off.Add(j)) {
					if h.holding(r.St, r.V, h.fn.Pos()) != nil {
						h.bad("lookup", r.St, "x may also be in a bucket (%s) where it is not looked up", []string{"below", "above"}[k])
					}
				}
			}
		}
	}
}

func (c *Ctx) linhashOps() {
	var parts []func(c *Ctx)
	op := func(fn *ssa.Function, name, rule, what string, f func(h *linhash)) {
		key := name + what
		if fn == nil {
			c.R.Fail("anchor", key, "", "anchor not found in the tree")
			return
		}
		if o := os.Getenv("DSV_ONLY"); o != "" && !strings.Contains(key, o) || c.only != nil && !c.only(key) {
			return
		}
		parts = append(parts, func(c *Ctx) {
			c.R.Count("operations", 1)
			c.Guard(rule, key, fn.Pos(), func() {
				h := c.newLinhash(key, fn)
				defer c.Done(h.in)
				f(h)
				if h.ok {
					c.R.OK(rule, key, c.P.Pos(fn.Pos()))
				}
			})
		})
	}
	m := func(n string) *ssa.Function { return c.P.M("hashtable", "LinearHash", n) }
	run := func(h *linhash, st *ai.State, fn *ssa.Function, args ...ai.Val) (out []ai.Outcome) {
		for _, o := range h.in.CallFunc(st, nil, fn, append([]ai.Val{h.self}, args...), nil, fn.Pos()) {
			if o.Panic != nil {
				h.bad("answer", o.St, "may crash: %s (%s)", o.Panic.Msg, h.c.P.Pos(o.Panic.Pos))
				continue
			}
			out = append(out, o)
		}
		return
	}
	before := func(h *linhash, xIn bool) ai.Val {
		if xIn {
			return h.v0
		}
		return nil
	}
	size := func(h *linhash, o ai.Outcome, d int64) {
		for _, s := range h.c.callM(h.in, o.St.Clone(), types.NewPointer(h.L), h.self, "Size") {
			if s.Panic != nil || !s.St.EqLin(intv(s.Rets[0]), h.r.AddK(d)) {
				h.bad("size", s.St, "Size does not change by %d", d)
			}
		}
	}
	for _, xIn := range []bool{true, false} {
		for _, same := range []bool{true, false} {
			xIn, same := xIn, same
			what := fmt.Sprintf(", x stored: %v, key given: %s", xIn, map[bool]string{true: "x", false: "another"}[same])
			op(m("Put"), "hashtable.LinearHash.Put", "lookup", what, func(h *linhash) {
				for _, st := range h.pre(xIn, same) {
					for _, o := range run(h, st, m("Put"), h.k, h.v1) {
						if isNil(o.St, o.Rets[0]) != ai.T {
							h.bad("answer", o.St, "may report an error")
						}
						if !same {
							h.holds(o.St, before(h, xIn))
							continue
						}
						h.holds(o.St, h.v1)
						size(h, o, map[bool]int64{true: 0, false: 1}[xIn])
					}
				}
			})
			op(m("Remove"), "hashtable.LinearHash.Remove", "lookup", what, func(h *linhash) {
				for _, st := range h.pre(xIn, same) {
					for _, o := range run(h, st, m("Remove"), h.k) {
						if !same {
							h.holds(o.St, before(h, xIn))
							continue
						}
						switch {
						case xIn && isNil(o.St, o.Rets[1]) != ai.T:
							h.bad("answer", o.St, "may report an error although the key is stored")
						case !xIn && isNil(o.St, o.Rets[1]) != ai.F:
							h.bad("answer", o.St, "may not report that the key is absent")
						case xIn && !sameVal(o.St, o.Rets[0], h.v0):
							h.bad("answer", o.St, "returns %s, not the value removed", o.St.Show(o.Rets[0]))
						}
						h.holds(o.St, nil)
						size(h, o, map[bool]int64{true: -1, false: 0}[xIn])
					}
				}
			})
		}
		xIn := xIn
		what := fmt.Sprintf(", x stored: %v", xIn)
		op(m("Get"), "hashtable.LinearHash.Get", "lookup", what, func(h *linhash) {
			for _, st := range h.pre(xIn, false) {
				h.holds(st, before(h, xIn))
			}
		})
		for _, it := range []string{"Iterate", "Keys"} {
			it := it
			op(m(it), "hashtable.LinearHash."+it, "iteration", what, func(h *linhash) { h.iterates(it, xIn, m(it), run) })
		}
	}
	op(c.P.Func("hashtable", "NewLinearHash"), "hashtable.NewLinearHash", "shape", "", func(h *linhash) {
		in := h.c.Interp()
		for _, o := range in.CallFunc(in.NewState(), nil, h.fn, nil, nil, h.fn.Pos()) {
			p := o.St.Resolve(o.Rets[0]).(ai.Ptr)
			get := func(i int) int64 { return o.St.Resolve(o.St.FieldOf(p.O, i)).(ai.Int).L.C }
			t := o.St.Resolve(o.St.FieldOf(p.O, h.tf)).(ai.Slice)
			n, l := get(h.nf), get(h.lf)
			if t.Len.C != n || l < 1 || n < 1<<uint(l-1) || n > 1<<uint(l) {
				h.bad("shape", o.St, "the number of buckets does not lie between the powers of two of the level")
			}
			for _, r := range in.ReadCell(o.St, t.Arr, in.NewAtom("any")) {
				if isNil(r.St, r.V) != ai.T {
					h.bad("shape", r.St, "a bucket of a new table is not empty")
				}
			}
		}
	})
	c.Parallel(parts...)
}

func (h *linhash) iterates(it string, xIn bool, fn *ssa.Function, run func(h *linhash, st *ai.State, fn *ssa.Function, args ...ai.Val) []ai.Outcome) {
	drv := h.c.client(map[string]string{"Iterate": "WalkKV", "Keys": "WalkK"}[it])
	base := h.in.H.Call
	h.in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Fn == nil || ci.Fn.Pkg != h.c.P.Driver {
			return base(q, ci)
		}
		n := str(q, "seen")
		switch ci.Fn.Name() {
		case "Visit", "Seen":
			s, ok := q.Resolve(ci.Args[0]).(ai.Sym)
			if !ok || q.Possible(s.ID, h.x.ID)&ai.EQ != 0 && q.Possible(s.ID, h.x.ID) != ai.EQ {
				h.bad("iteration", q, "shows %s, which is not a stored key", q.Show(ci.Args[0]))
			} else if q.Possible(s.ID, h.x.ID) == ai.EQ {
				if n != "0" || !xIn {
					h.bad("iteration", q, "may show a key more often than it is stored")
				}
				if len(ci.Args) > 1 && !sameVal(q, ci.Args[1], h.v0) {
					h.bad("iteration", q, "shows x with %s, not its value", q.Show(ci.Args[1]))
				}
				q.Ghost["seen"] = ai.Str{S: "1"}
			} else if p, ok := q.Ghost["pair"].(ai.Tuple); !ok || !sameVal(q, p.V[0], s) || len(ci.Args) > 1 && !sameVal(q, p.V[1], ci.Args[1]) {
				h.bad("iteration", q, "shows a key with %s, not its value", q.Show(ci.Args[len(ci.Args)-1]))
			}
			return []ai.Outcome{{St: q}}, true
		case "Over":
			if xIn && n != "1" {
				h.bad("iteration", q, "may end without having shown x")
			}
			return []ai.Outcome{{St: q}}, true
		}
		return nil, false
	}
	for _, st := range h.pre(xIn, false) {
		st.Ghost["seen"] = ai.Str{S: "0"}
		for _, o := range run(h, st, fn) {
			for _, d := range h.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
				if d.Panic != nil {
					h.bad("iteration", d.St, "may crash: %s", d.Panic.Msg)
				}
			}
		}
	}
}
