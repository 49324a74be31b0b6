package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	registerClient("C19", "Abstract interpretation of the range and by-key operations of the B+tree map and multimap on trees of one leaf and of two leaves under an inner node, the leaves of any size with any sorted contents. Relative to each key asked for, the contents are described by two positions lo <= hi: keys before lo are smaller, from lo to hi equal, from hi on greater. Iterators are driven by client loops.", iterClient, func(c *Ctx) {
		c.R.Rule("range", "every entry shown has a key between the bounds, together with its own value")
		c.R.Rule("touch", "only values of entries with the key are offered for replacement or removal, replaced or returned")
		c.R.Rule("absent", "an absent key is reported absent and nothing is changed")
		c.R.Assume("Equals and Less of the keys form a total order (C25); equal keys do not straddle two indexed leaves; trees with more than two leaves take the same steps from leaf to leaf")
		c.bpRange()
		c.R.Floor("cases", 40)
	})
}

// bpBound is a key asked for and where it falls.
type bpBound struct {
	x      ai.Sym
	lo, hi ai.Lin
}

// bprange is a B+tree whose entries are known by position.
type bprange struct {
	c          *Ctx
	in         *ai.Interp
	N          *types.Named
	kf, vf, pf int
	nx, pv     int
	G, V       [2]int // the keys and values of the leaves
	n, cut     ai.Lin
	xs         []bpBound
	before     int // of the two keys: -1 the first is smaller, 0 equal, 1 greater
	unique     bool
	key        string
	fn         *ssa.Function
	ok         bool
	self       ai.Ptr
	root       ai.Ptr
	known      map[*ssa.Function]bool // searches that answer as place says
	where      ai.Sym
	removal    bool
}

func (r *bprange) bad(rule string, st *ai.State, f string, args ...interface{}) {
	r.ok = false
	r.c.R.Fail(rule, r.key, r.c.P.Pos(r.fn.Pos()), fmt.Sprintf(f, args...), r.c.Path(st)...)
}

func (r *bprange) at(st *ai.State, v ai.Val, op string) (ai.Lin, bool) {
	if y, ok := st.Resolve(v).(ai.Sym); ok {
		if i := r.in.Info(y.ID); i != nil && i.Op == op {
			return i.Args[0].(ai.Int).L, true
		} else if i != nil && i.Op == op+" right" {
			return i.Args[0].(ai.Int).L.Add(r.cut), true
		}
	}
	return ai.Lin{}, false
}

func (r *bprange) bound(st *ai.State, v ai.Val) int {
	for i, b := range r.xs {
		if sameVal(st, v, b.x) {
			return i
		}
	}
	return -1
}

func (r *bprange) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if w, ok := ci.FnVal.(ai.Sym); ok && w.ID == r.where.ID {
		if str(st, "written") == "" {
			g, ok := r.at(st, ci.Args[0], "val")
			if !ok || st.Eval(r.inside(g, 0, 0)) != ai.T {
				r.bad("touch", st, "a value that may belong to another key is offered: %s", st.Show(ci.Args[0]))
			}
		}
		if st.Eval(lt(r.xs[0].lo, r.xs[0].hi)) != ai.T {
			r.bad("absent", st, "a value is offered although the key may be absent")
		}
		q := st.Clone()
		return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: true}}}}, {St: q, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}}}, true
	}
	if ci.Fn != nil && ci.Fn.Pkg != nil && ci.Fn.Pkg == r.c.P.Driver && ci.Fn.Name() == "Entry" {
		g, ok := r.at(st, ci.Args[0], "key")
		h, ok2 := r.at(st, ci.Args[1], "val")
		first, last := 0, len(r.xs)-1
		if r.before > 0 {
			first, last = last, first
		}
		switch {
		case !ok || st.Eval(r.inside(g, first, last)) != ai.T:
			r.bad("range", st, "the key shown may lie outside the range: %s", st.Show(ci.Args[0]))
		case !ok2 || !st.EqLin(g, h):
			r.bad("range", st, "%s is shown with %s", st.Show(ci.Args[0]), st.Show(ci.Args[1]))
		}
		return []ai.Outcome{{St: st}}, true
	}
	if ci.Fn != nil && r.known[ci.Fn] && str(st, "shifted") == "" {
		if out, ok := r.place(st, ci.Args[0], ci.Args[1]); ok {
			return out, true
		}
	}
	if ci.Method == nil || len(ci.Args) != 1 || ci.Name() != "Equals" && ci.Name() != "Less" {
		return r.c.errorsHook(st, ci)
	}
	eq := ci.Name() == "Equals"
	if r.removal && (str(st, "shifted") != "" || st.Obj(r.G[0]).Arr.Def != ai.DefSym || st.Obj(r.G[1]).Arr.Def != ai.DefSym) {
		// an entry has been taken out: of a map, the only one with the key;
		// what follows in a multimap starts like a new removal
		if r.unique && eq {
			return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}}}, true
		}
		return nil, true
	}
	all := func(cs ...ai.Cond) ([]ai.Outcome, bool) {
		var out []ai.Outcome
		cur := st
		for _, c := range cs {
			y, n := cur.Branch(c)
			if n != nil {
				out = append(out, ai.Outcome{St: n, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}})
			}
			if cur = y; y == nil {
				return out, true
			}
		}
		return append(out, ai.Outcome{St: cur, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: true}}}}), true
	}
	a, b := r.bound(st, ci.Recv), r.bound(st, ci.Args[0])
	i, ok1 := r.at(st, ci.Recv, "key")
	j, ok2 := r.at(st, ci.Args[0], "key")
	switch {
	case a >= 0 && b >= 0:
		d := 0
		if a != b {
			d = r.before
			if a > b {
				d = -d
			}
		}
		return all(ai.CConst{V: eq && d == 0 || !eq && d < 0})
	case a >= 0 && ok2:
		if eq {
			return all(le(r.xs[a].lo, j), lt(j, r.xs[a].hi))
		}
		return all(le(r.xs[a].hi, j))
	case ok1 && b >= 0:
		if eq {
			return all(le(r.xs[b].lo, i), lt(i, r.xs[b].hi))
		}
		return all(lt(i, r.xs[b].lo))
	case ok1 && ok2 && r.unique:
		if eq {
			return all(ai.CEq{L: i.Sub(j)})
		}
		return all(lt(i, j))
	}
	q := st.Clone()
	return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: true}}}}, {St: q, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}}}, true
}

// search: a method of a node that looks a key up among the node's own keys.
func (r *bprange) search(fn *ssa.Function) bool {
	sig := fn.Signature
	return fn.Pkg != nil && r.c.P.InRepo(fn) && sig.Recv() != nil && types.Identical(sig.Recv().Type(), types.NewPointer(r.N)) &&
		sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), r.c.hashable()) &&
		sig.Results().Len() == 2 && isInt(sig.Results().At(0).Type()) && types.Identical(sig.Results().At(1).Type(), types.Typ[types.Bool])
}

// place is what such a search answers: the number of smaller keys in the
// node, and whether the key there is equal.
func (r *bprange) place(st *ai.State, node, x ai.Val) ([]ai.Outcome, bool) {
	p, ok := st.Resolve(node).(ai.Ptr)
	k := r.bound(st, x)
	if !ok || k < 0 {
		return nil, false
	}
	ks, ok := st.FieldOf(p.O, r.kf).(ai.Slice)
	if !ok {
		return nil, false
	}
	b := r.xs[k]
	var out []ai.Outcome
	add := func(q *ai.State, i ai.Lin, has ai.Cond) {
		if q == nil {
			return
		}
		y, n := q.Branch(has)
		if y != nil {
			out = append(out, ai.Outcome{St: y, Rets: []ai.Val{ai.Int{L: i}, ai.Bool{C: ai.CConst{V: true}}}})
		}
		if n != nil {
			out = append(out, ai.Outcome{St: n, Rets: []ai.Val{ai.Int{L: i}, ai.Bool{C: ai.CConst{V: false}}}})
		}
	}
	if ks.Arr == r.G[0] || ks.Arr == r.G[1] {
		off := ks.Off
		if ks.Arr == r.G[1] {
			off = off.Add(r.cut)
		}
		before, rest := st.Branch(le(b.lo, off))
		add(before, ai.K(0), lt(off, b.hi))
		if rest != nil {
			after, in := rest.Branch(le(off.Add(ks.Len), b.lo))
			add(after, ks.Len, ai.CConst{V: false})
			add(in, b.lo.Sub(off), lt(b.lo, b.hi))
		}
		return out, true
	}
	if st.Ghost["cut"] == nil || !st.EqLin(ks.Len, ai.K(2)) {
		return nil, false
	}
	cut := intv(st.Ghost["cut"])
	zero, some := st.Branch(le(b.lo, ai.K(0)))
	add(zero, ai.K(0), lt(ai.K(0), b.hi))
	if some != nil {
		left, right := some.Branch(le(b.lo, cut))
		add(left, ai.K(1), lt(cut, b.hi))
		add(right, ai.K(2), ai.CConst{V: false})
	}
	return out, true
}

// inside: position g lies between two of the keys, both included.
func (r *bprange) inside(g ai.Lin, first, last int) ai.Cond {
	return ai.CAnd{A: le(r.xs[first].lo, g), B: lt(g, r.xs[last].hi)}
}

// tree makes a tree of the given shape; the state is nil when there is none.
func (c *Ctx) bpSorted(key string, fn *ssa.Function, T types.Type, unique bool, shape string, before int, sides ...int) (*bprange, *ai.State) {
	in := c.Interp()
	in.H.NoJoinSyms = true
	in.Sides = true
	in.MoreJoins = 10
	in.Indexed = map[string]bool{"key": true, "val": true, "key right": true, "val right": true}
	in.Rigid = map[int]bool{}
	r := &bprange{c: c, in: in, N: c.P.Named("tree/bptree", "BpNode"), unique: unique, before: before, key: key, fn: fn, ok: true}
	s := r.N.Underlying().(*types.Struct)
	f := fields(r.N)
	for _, n := range []string{"keys", "values", "pointers", "next", "prev"} {
		if _, ok := f[n]; !ok {
			panic(ai.Undecided{Msg: "no field " + n, Pos: fn.Pos()})
		}
	}
	r.kf, r.vf, r.pf, r.nx, r.pv = f["keys"], f["values"], f["pointers"], f["next"], f["prev"]
	st := in.NewState()
	cut := ai.K(0)
	r.n = in.NewAtom("n")
	st.AddLe(r.n.Neg())
	st.Ghost["n"] = ai.Int{L: r.n}
	if shape == "two leaves" {
		cut = in.NewAtom("cut")
		st.AddLe(ai.K(1).Sub(cut))
		st.AddLe(ai.K(1).Sub(r.n))
		st.Ghost["cut"] = ai.Int{L: cut}
		r.n = r.n.Add(cut)
	}
	S := in.NewAtom("node size")
	st.AddLe(r.n.Sub(S))
	st.AddLe(ai.K(2).Sub(S))
	st.Ghost["S"] = ai.Int{L: S}
	any := types.NewInterfaceType(nil, nil)
	r.cut = cut
	for i := range r.G {
		r.G[i] = st.NewArr(c.hashable(), S, ai.DefSym, false, "keys").ID
		r.V[i] = st.NewArr(any, S, ai.DefSym, false, "values").ID
		k := fmt.Sprint(i)
		st.Ghost["G"+k], st.Ghost["V"+k] = ai.Ptr{O: r.G[i]}, ai.Ptr{O: r.V[i]}
	}
	st.Ghost["shifted"], st.Ghost["written"], st.Ghost["at"] = ai.Str{S: ""}, ai.Str{S: ""}, ai.Str{S: ""}
	keys := func(o int) bool { return o == r.G[0] || o == r.G[1] }
	values := func(o int) bool { return o == r.V[0] || o == r.V[1] }
	in.Pure = func(o *ai.Obj) bool { return keys(o.ID) || values(o.ID) }
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		side := ""
		if o.ID == r.G[1] || o.ID == r.V[1] {
			side = " right"
		}
		switch {
		case keys(o.ID) && o.Arr.Def == ai.DefSym:
			v := in.App(st, "key"+side, c.hashable(), ai.Int{L: idx}).(ai.Sym)
			st.NonNil(v)
			return v, true
		case values(o.ID) && o.Arr.Def == ai.DefSym:
			return in.App(st, "val"+side, any, ai.Int{L: idx}), true
		}
		return nil, false
	}
	in.H.NewIndexed = func(st *ai.State, v ai.Sym) {
		if i := in.Info(v.ID); i != nil && strings.HasPrefix(i.Op, "key") {
			st.NonNil(v)
		}
	}
	touched := func(st *ai.State, o int, idx ai.Lin) {
		if !keys(o) && !values(o) {
			return
		}
		if o == r.G[1] || o == r.V[1] {
			idx = idx.Add(cut)
		}
		name := "shifted"
		if values(o) {
			name = "written"
		}
		switch {
		case st.Eval(lt(r.xs[0].lo, r.xs[0].hi)) != ai.T:
			r.bad("absent", st, "the contents change although the key may be absent")
		case !r.removal || str(st, name) == "":
			// a replacement, or the first entry overwritten by a removal
			if st.Eval(r.inside(idx, 0, 0)) != ai.T {
				r.bad("touch", st, "what is at position %s, which may belong to another key, is overwritten", st.Show(ai.Int{L: idx}))
			} else if at, ok := st.Ghost["at"].(ai.Int); ok && r.removal && !st.EqLin(at.L, idx) {
				r.bad("touch", st, "keys and values are removed at different positions, %s and %s", st.Show(at), st.Show(ai.Int{L: idx}))
			}
			if r.removal {
				st.Ghost["at"] = ai.Int{L: idx}
			}
		}
		st.Ghost[name] = ai.Str{S: "yes"}
	}
	in.H.OnCell = func(st *ai.State, o *ai.Obj, idx ai.Lin, old, new ai.Val) { touched(st, o.ID, idx) }
	in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if _, copied := v.(ai.Slice); copied && p.IsElem {
			touched(st, p.O, p.Idx)
		}
	}
	in.H.OnAppend = func(st *ai.State, dst, src, res ai.Slice) {
		if res.Arr == dst.Arr {
			touched(st, dst.Arr, dst.Off.Add(dst.Len))
		}
	}
	in.H.Fold = func(st *ai.State) {
		if str(st, "shifted") == "" {
			return
		}
		for _, id := range []int{r.G[0], r.V[0], r.G[1], r.V[1]} {
			n := *st.Obj(id)
			a := *n.Arr
			a.Cells, a.Def = nil, ai.DefTop
			n.Arr = &a
			st.SetObj(&n)
		}
	}
	in.H.Call = r.call
	w := c.P.Named("types", "WhereFunc")
	if w == nil {
		panic(ai.Undecided{Msg: "types.WhereFunc not found"})
	}
	r.where = in.NewSym(w, "where")
	in.Rigid[r.where.ID] = true
	st.NonNil(r.where)
	for i, side := range sides {
		b := bpBound{x: in.NewSym(c.hashable(), []string{"first key", "second key"}[i]), lo: in.NewAtom("lo"), hi: in.NewAtom("hi")}
		in.Rigid[b.x.ID] = true
		st.NonNil(b.x)
		k := fmt.Sprint(i)
		st.Ghost["x"+k], st.Ghost["lo"+k], st.Ghost["hi"+k] = b.x, ai.Int{L: b.lo}, ai.Int{L: b.hi}
		st.AddLe(b.lo.Neg())
		st.AddLe(b.lo.Sub(b.hi))
		// a run of equal keys lies in one leaf
		if side < 0 {
			st.AddLe(b.hi.Sub(cut))
		} else {
			b.lo, b.hi = b.lo.Add(cut), b.hi.Add(cut)
			st.AddLe(b.hi.Sub(r.n))
		}
		if unique {
			st.AddLe(b.hi.Sub(b.lo).AddK(-1))
		}
		r.xs = append(r.xs, b)
	}
	if len(sides) == 2 {
		a, b := r.xs[0], r.xs[1]
		switch {
		case before < 0:
			st.AddLe(a.hi.Sub(b.lo))
		case before > 0:
			st.AddLe(b.hi.Sub(a.lo))
		default:
			for _, l := range []ai.Lin{a.lo.Sub(b.lo), b.lo.Sub(a.lo), a.hi.Sub(b.hi), b.hi.Sub(a.hi)} {
				st.AddLe(l)
			}
		}
	}
	node := func(keys, values, ptrs, next, prev ai.Val, name string) ai.Ptr {
		v := make([]ai.Val, s.NumFields())
		v[r.kf], v[r.vf], v[r.pf], v[r.nx], v[r.pv] = keys, values, ptrs, next, prev
		for i := range v {
			if v[i] == nil {
				if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					v[i] = ai.Bool{C: ai.CConst{V: unique}}
				} else {
					v[i] = in.Zero(st, s.Field(i).Type())
				}
			}
		}
		return ai.Ptr{O: st.NewObj(r.N, ai.Struct{F: v}, false, name).ID}
	}
	win := func(arr int, n ai.Lin) ai.Val { return ai.Slice{Arr: arr, Off: ai.K(0), Len: n, Cap: S} }
	var root ai.Ptr
	switch shape {
	case "one leaf":
		root = node(win(r.G[0], r.n), win(r.V[0], r.n), nil, ai.Nil{}, ai.Nil{}, "leaf")
	case "two leaves":
		a := node(win(r.G[0], cut), win(r.V[0], cut), nil, ai.Nil{}, ai.Nil{}, "left leaf")
		b := node(win(r.G[1], r.n.Sub(cut)), win(r.V[1], r.n.Sub(cut)), nil, ai.Nil{}, a, "right leaf")
		st.SetField(a.O, []int{r.nx}, b)
		ks, ps := st.NewArr(c.hashable(), S, ai.DefTop, false, "index keys"), st.NewArr(types.NewPointer(r.N), S, ai.DefTop, false, "children")
		root = node(ai.Slice{Arr: ks.ID, Off: ai.K(0), Len: ai.K(2), Cap: S}, nil, ai.Slice{Arr: ps.ID, Off: ai.K(0), Len: ai.K(2), Cap: S}, ai.Nil{}, ai.Nil{}, "root")
		for i, op := range []string{"key", "key right"} {
			v := in.App(st, op, c.hashable(), ai.Int{L: ai.K(0)}).(ai.Sym)
			st.NonNil(v)
			ks.Arr.Cells = append(ks.Arr.Cells, ai.Cell{Idx: ai.K(int64(i)), V: v})
			ps.Arr.Cells = append(ps.Arr.Cells, ai.Cell{Idx: ai.K(int64(i)), V: []ai.Val{a, b}[i]})
		}
	}
	M := T.(*types.Pointer).Elem()
	ms := M.Underlying().(*types.Struct)
	o := st.NewObj(M, in.Fresh(st, M, "tree"), false, "tree")
	st.SetField(o.ID, []int{onlyField(ms, "the root", func(F types.Type) bool { return types.Identical(F, types.NewPointer(r.N)) })}, root)
	r.self, r.root = ai.Ptr{O: o.ID}, root
	st.Ghost["tree"] = r.self
	return r, st
}

// bpSearches runs every search of a node's keys on a leaf of any size and
// returns those that answer as place says; others are analysed where called.
func (c *Ctx) bpSearches() map[*ssa.Function]bool {
	known := map[*ssa.Function]bool{}
	M := c.P.Named("tree/bptree", "BpTree")
	if M == nil {
		return known
	}
	probe := &bprange{c: c, N: c.P.Named("tree/bptree", "BpNode")}
	for _, fn := range c.P.Funcs {
		if !probe.search(fn) || len(fn.Blocks) == 0 {
			continue
		}
		fn := fn
		func() {
			r, st := c.bpSorted("", fn, types.NewPointer(M), false, "one leaf", 0, 1)
			defer c.Done(r.in)
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(ai.Undecided); !ok {
						panic(e)
					}
				}
			}()
			b, ok, n := r.xs[0], true, 0
			for _, o := range r.in.CallFunc(st, nil, fn, []ai.Val{r.root, b.x}, nil, fn.Pos()) {
				if o.Panic != nil {
					ok = false
					continue
				}
				n++
				has, isBool := o.St.Resolve(o.Rets[1]).(ai.Bool)
				want := o.St.Eval(lt(b.lo, b.hi))
				ok = ok && o.St.EqLin(intv(o.Rets[0]), b.lo) && isBool && want != ai.U && o.St.Eval(has.C) == want
			}
			known[fn] = ok && n > 0
		}()
		if known[fn] {
			c.R.Count("searches proved", 1)
		}
	}
	return known
}

func (c *Ctx) bpRange() {
	known := c.bpSearches()
	var parts []func(c *Ctx)
	for _, t := range []struct {
		typ    string
		unique bool
		ops    []string
	}{
		{"BpTree", false, []string{"Range", "Find", "Replace", "RemoveWhere", "Has", "Count"}},
		{"BpMap", true, []string{"Get", "Has", "Put", "Remove"}},
	} {
		M := c.P.Named("tree/bptree", t.typ)
		if M == nil {
			c.R.Fail("anchor", "tree/bptree."+t.typ, "", "anchor not found in the tree")
			continue
		}
		T := types.NewPointer(M)
		for _, op := range t.ops {
			fn := c.P.Method(T, op)
			if fn == nil {
				c.R.Fail("anchor", "tree/bptree."+t.typ+"."+op, "", "anchor not found in the tree")
				continue
			}
			for _, shape := range []string{"one leaf", "two leaves"} {
				for _, where := range []int{-1, 0, 1} {
					t, op, shape, where := t, op, shape, where
					key := fmt.Sprintf("tree/bptree.%s.%s, %s", t.typ, op, shape)
					if op == "Range" {
						key += map[int]string{-1: ", from < to", 0: ", from = to", 1: ", from > to"}[where]
					} else {
						key += map[int]string{-1: ", key in the left leaf", 0: ", key absent", 1: ", key in the right leaf"}[where]
						if shape == "one leaf" && where > 0 {
							continue
						}
					}
					c.R.Count("cases", 1)
					if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
						continue
					}
					parts = append(parts, func(c *Ctx) {
						c.Guard("range", key, fn.Pos(), func() { c.bpRangeCase(key, fn, T, op, t.unique, shape, where, known) })
					})
				}
			}
		}
	}
	c.Parallel(parts...)
}

func (c *Ctx) bpRangeCase(key string, fn *ssa.Function, T types.Type, op string, unique bool, shape string, where int, known map[*ssa.Function]bool) {
	var sides [][]int
	switch {
	case op == "Range" && shape == "one leaf":
		sides = [][]int{{1, 1}}
	case op == "Range":
		sides = [][]int{{-where, where}, {1, 1}, {-1, -1}}
		if where < 0 {
			sides[0] = []int{-1, 1}
		} else if where > 0 {
			sides[0] = []int{1, -1}
		} else {
			sides = sides[1:]
		}
	case shape == "one leaf":
		sides = [][]int{{1}}
	case where == 0:
		sides = [][]int{{-1}, {1}}
	default:
		sides = [][]int{{where}}
	}
	outcomes, ok := 0, true
	var r *bprange
	for _, side := range sides {
		var st *ai.State
		r, st = c.bpSorted(key, fn, T, unique, shape, where, side...)
		r.known, r.removal = known, op == "Remove" || op == "RemoveWhere"
		if op != "Range" {
			b := r.xs[0]
			if where == 0 {
				st.AddLe(b.hi.Sub(b.lo))
			} else {
				st.AddLe(b.lo.AddK(1).Sub(b.hi))
			}
		}
		outcomes += c.bpRangeOp(r, st, T, op, where)
		ok = ok && r.ok
		c.Done(r.in)
	}
	if outcomes == 0 && !(op == "Put" && where == 0) {
		c.R.Fail("range", key, c.P.Pos(fn.Pos()), "has no outcome")
	} else if ok {
		c.R.OK("range", key, c.P.Pos(fn.Pos()))
	}
}

func (c *Ctx) bpRangeOp(r *bprange, st *ai.State, T types.Type, op string, where int) int {
	outcomes := 0
	r.in.ResetSteps()
	r.in.Base = r.in.Mark()
	args := []ai.Val{r.xs[0].x}
	switch op {
	case "Range":
		args = append(args, r.xs[1].x)
	case "Replace":
		args = append(args, r.where, r.in.NewSym(types.NewInterfaceType(nil, nil), "new value"))
	case "RemoveWhere":
		args = append(args, r.where)
	case "Put":
		if where == 0 {
			return 0 // an insertion
		}
		args = append(args, r.in.NewSym(types.NewInterfaceType(nil, nil), "new value"))
	}
	for _, o := range c.callM(r.in, st, T, r.self, op, args...) {
		if o.Panic != nil {
			continue
		}
		outcomes++
		held := where != 0
		switch op {
		case "Range", "Find":
			drv := c.client("Entries")
			r.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos())
		case "Has":
			if o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C) != map[bool]int{true: ai.T, false: ai.F}[held] {
				r.bad("absent", o.St, "answers %s", o.St.Show(o.Rets[0]))
			}
		case "Count":
			if !held && !o.St.EqLin(intv(o.Rets[0]), ai.K(0)) {
				r.bad("absent", o.St, "counts %s entries of an absent key", o.St.Show(o.Rets[0]))
			}
		case "Get", "Remove":
			failed := isNil(o.St, o.Rets[1]) != ai.T
			if failed == held {
				r.bad("absent", o.St, "reports the key absent: %v", failed)
			} else if held {
				g, ok := r.at(o.St, o.Rets[0], "val")
				if !ok || o.St.Eval(r.inside(g, 0, 0)) != ai.T {
					r.bad("touch", o.St, "returns %s, which is not the key's value", o.St.Show(o.Rets[0]))
				}
			}
		}
	}
	return outcomes
}
