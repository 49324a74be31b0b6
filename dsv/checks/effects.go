package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/pts"

	"golang.org/x/tools/go/ssa"
)

// containerPkgs are the packages whose types are containers or views on them.
var containerPkgs = []string{"hashtable", "heap", "linked", "list", "set", "tree", "tree/avl", "tree/bptree", "trie", "types"}

// mutators are the operations documented to change their receiver.
var mutators = map[string]bool{
	"Add": true, "Append": true, "Push": true, "Pop": true, "Insert": true, "Set": true, "Remove": true, "RemoveWhere": true,
	"Delete": true, "Clear": true, "Extend": true, "Put": true, "Replace": true, "Swap": true, "UnmarshalBinary": true,
	"EnqueFront": true, "EnqueBack": true, "DequeFront": true, "DequeBack": true, "Do": true, "Stop": true, "WaitLock": true, "Unlock": true,
	"Int63": true, "Uint64": true, "Seed": true,
}

// apiEntry is an exported operation.
type apiEntry struct {
	fn   *ssa.Function
	name string // pkg.Type.Method or pkg.Func
	typ  string
	meth string
	pkg  string
}

// api lists the exported functions and methods of the given packages, in a stable order.
func (c *Ctx) api(pkgs []string) []apiEntry {
	var out []apiEntry
	for _, rel := range pkgs {
		sp := c.P.Pkgs[rel]
		if sp == nil {
			c.R.Fail("anchor", rel, "", "package not found in the tree")
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if !token.IsExported(n) {
				continue
			}
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				out = append(out, apiEntry{m, rel + "." + n, "", n, rel})
			case *ssa.Type:
				if _, isI := m.Type().Underlying().(*types.Interface); isI {
					continue
				}
				T := types.Type(types.NewPointer(m.Type()))
				ms := c.P.SSA.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					mn := ms.At(i).Obj().Name()
					if !token.IsExported(mn) {
						continue
					}
					sel := ms.At(i)
					// use the declared (value) method when there is one, not the pointer wrapper
					if vs := c.P.SSA.MethodSets.MethodSet(m.Type()).Lookup(ms.At(i).Obj().Pkg(), mn); vs != nil {
						sel = vs
					}
					fn := c.P.SSA.MethodValue(sel)
					if fn == nil || len(fn.Blocks) == 0 {
						continue
					}
					out = append(out, apiEntry{fn, rel + "." + n + "." + mn, n, mn, rel})
				}
			}
		}
	}
	return out
}

func (c *Ctx) ptsDone(a *pts.A) {
	for f := range a.Funcs {
		if !c.funcs[f] {
			c.funcs[f] = true
			c.R.Count("functions", 1)
		}
	}
	c.R.Count("calling contexts", a.CtxCount())
}

func (c *Ctx) unknownCalls(a *pts.A, rule, key string) {
	var ks []string
	for k := range a.Unknown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.R.Fail(rule, key, c.P.Pos(a.Unknown[k]), "undecided: the library function "+k+" receives the caller's memory and its effect is not modelled")
	}
}

func extOf(o *pts.Obj) bool { return o.Kind == pts.Ext && o.Root >= 0 }

func init() {
	register("C05", "Points-to and effect analysis of every exported query with unknown arguments: every write found must go to memory allocated by the query itself.", (*Ctx).queriesPure)
	register("C03", "Points-to and effect analysis of every exported operation taking a slice: no write reaches its backing array and no object that outlives the call refers to it.", (*Ctx).callerSlices)
	register("C04", "Points-to analysis of every copying operation: nothing modifiable reachable from the result existed before the call.", (*Ctx).copiesApart)
	register("C02", "Points-to and effect analysis of every trie operation: no write reaches an existing node or key, and iterators do not read the trie itself.", (*Ctx).trieSnapshots)
}

// queriesPure decides C05.
func (c *Ctx) queriesPure() {
	c.R.Rule("pure", "no write of a query, of anything it calls, or of an iterator it returns goes to memory that existed before the query")
	c.R.Assume("item types supplied by the user do not modify containers from inside Equals, Less or Hash")
	for _, e := range c.api(containerPkgs) {
		if mutators[e.meth] && e.typ != "" {
			continue
		}
		e := e
		c.R.Count("queries", 1)
		c.Guard("pure", e.name, e.fn.Pos(), func() {
			a := pts.New(c.P)
			a.Run(e.fn)
			a.Drive(a.Ret())
			c.ptsDone(a)
			bad := map[string]bool{}
			n := 0
			for _, w := range a.Writes() {
				n++
				if !(extOf(w.O) || w.O.Kind == pts.Global) {
					continue
				}
				if w.O.Kind == pts.Global && !c.P.InRepoPkg(w.O.G.Pkg.Pkg) {
					continue
				}
				msg := fmt.Sprintf("%s to %s%s in %s", w.How, w.O.Label, w.P, c.P.FuncName(w.Fn))
				if bad[msg] {
					continue
				}
				bad[msg] = true
				c.R.Fail("pure", e.name, c.P.Pos(w.Pos), msg, a.Chain(w.Ctx)...)
			}
			c.R.Count("writes examined", n)
			if len(bad) == 0 {
				c.R.OK("pure", e.name, c.P.Pos(e.fn.Pos()))
			}
			c.unknownCalls(a, "pure", e.name)
		})
	}
	c.R.Floor("queries", 300)
}

// callerSlices decides C03.
func (c *Ctx) callerSlices() {
	c.R.Rule("no-write", "no write reaches the array behind a slice argument, not even its spare capacity")
	c.R.Rule("not-kept", "after the call no container, item or global refers to the array behind a slice argument")
	for _, e := range c.api(append([]string{"exc", "errors"}, containerPkgs...)) {
		var roots []int
		for i, p := range e.fn.Params {
			if i == 0 && e.fn.Signature.Recv() != nil {
				continue
			}
			s, ok := p.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if e.fn.Signature.Variadic() && i == len(e.fn.Params)-1 {
				continue
			}
			_ = s
			roots = append(roots, i)
		}
		if res := e.fn.Signature.Results(); e.typ == "" && res.Len() > 0 {
			if p, ok := res.At(0).Type().(*types.Pointer); ok && isNode(p.Elem()) {
				continue // a bare node is not a container; what a container keeps is judged at its own operations
			}
		}
		// an element codec handed out as a function value takes the caller's buffer too
		c.codecFuncs(e)
		if len(roots) == 0 {
			continue
		}
		e := e
		c.R.Count("operations", 1)
		c.Guard("no-write", e.name, e.fn.Pos(), func() {
			a := pts.New(c.P)
			a.Run(e.fn)
			c.sliceObligations(a, e.name, e.fn, roots)
		})
	}
	c.R.Floor("operations", 20)
}

func isNode(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Node")
}

// codecFuncs: functions returned by e that take a []byte.
func (c *Ctx) codecFuncs(e apiEntry) {
	if e.typ != "" {
		return
	}
	res := e.fn.Signature.Results()
	any := false
	for i := 0; i < res.Len(); i++ {
		if s, ok := res.At(i).Type().Underlying().(*types.Signature); ok {
			for k := 0; k < s.Params().Len(); k++ {
				if _, ok := s.Params().At(k).Type().Underlying().(*types.Slice); ok {
					any = true
				}
			}
		}
	}
	if !any {
		return
	}
	c.Guard("no-write", e.name, e.fn.Pos(), func() {
		a := pts.New(c.P)
		a.Run(e.fn)
		seen := map[*ssa.Function]bool{}
		for _, s := range a.Ret() {
			for el := range s {
				if el.O.Kind != pts.Closure || seen[el.O.Fn] {
					continue
				}
				fn := el.O.Fn
				seen[fn] = true
				var roots []int
				for i, p := range fn.Params {
					if _, ok := p.Type().Underlying().(*types.Slice); ok {
						roots = append(roots, i)
					}
				}
				if len(roots) == 0 || len(fn.FreeVars) > 0 {
					continue
				}
				c.R.Count("operations", 1)
				b := pts.New(c.P)
				b.Run(fn)
				c.sliceObligations(b, e.name+" codec", fn, roots)
			}
		}
	})
}

func (c *Ctx) sliceObligations(a *pts.A, key string, fn *ssa.Function, roots []int) {
	c.ptsDone(a)
	isArg := func(o *pts.Obj) bool {
		if o.Kind != pts.Ext || !strings.HasPrefix(o.Label, "array ") {
			return false
		}
		for _, r := range roots {
			if o.Root == r {
				s := fn.Params[r].Type().Underlying().(*types.Slice)
				return types.Identical(s.Elem(), o.T)
			}
		}
		return false
	}
	bad := map[string]bool{}
	n := 0
	for _, w := range a.Writes() {
		n++
		if !isArg(w.O) {
			continue
		}
		msg := fmt.Sprintf("%s into the caller's slice in %s", w.How, c.P.FuncName(w.Fn))
		if !bad[msg] {
			bad[msg] = true
			c.R.Fail("no-write", key, c.P.Pos(w.Pos), msg, a.Chain(w.Ctx)...)
		}
	}
	c.R.Count("writes examined", n)
	if len(bad) == 0 {
		c.R.OK("no-write", key, c.P.Pos(fn.Pos()))
	}
	// kept: stored into anything that was reachable before, or reachable from the result
	kept := ""
	holder := map[*pts.Obj]bool{}
	var visit func(o *pts.Obj)
	visit = func(o *pts.Obj) {
		if holder[o] || isArg(o) {
			return
		}
		holder[o] = true
		for p, s := range o.Content() {
			for e := range s {
				if isArg(e.O) {
					kept = fmt.Sprintf("%s%s refers to it", describe(o), p)
				}
				visit(e.O)
			}
		}
	}
	for _, o := range a.ExtObjs() {
		if o.Kind == pts.Ext && !isArg(o) && o.Root != -2 {
			visit(o)
		}
	}
	for _, s := range a.Ret() {
		for e := range s {
			if isErr(a, e) {
				continue
			}
			if isArg(e.O) {
				kept = "the result refers to it"
			}
			visit(e.O)
		}
	}
	c.R.Check(kept == "", "not-kept", key, c.P.Pos(fn.Pos()), "the caller's slice is kept: "+kept)
	c.unknownCalls(a, "no-write", key)
}

// isErr: error values may mention the caller's data; they are not containers.
func isErr(a *pts.A, e pts.Elem) bool {
	return e.O.T != nil && strings.HasSuffix(types.TypeString(e.O.T, nil), "errors.Error")
}

func describe(o *pts.Obj) string {
	if o.Label != "" {
		return o.Label
	}
	return "new " + types.TypeString(o.T, func(p *types.Package) string { return p.Name() })
}

// copiesApart decides C04.
func (c *Ctx) copiesApart() {
	c.R.Rule("no-sharing", "every modifiable object reachable from the result was allocated by the operation")
	c.R.Rule("source-untouched", "the operation stores nothing into its source")
	isCopy := func(e apiEntry) bool {
		switch e.meth {
		case "Copy":
			return e.pkg == "list" || e.pkg == "set"
		case "FromSlice", "SortedFromSlice", "SortedFromSet":
			return true
		case "Union", "Intersect", "Subtract":
			return e.pkg == "set"
		}
		return false
	}
	items := map[string]bool{}
	for _, n := range []string{"Hashable", "Equatable", "Sortable"} {
		if T := c.P.Named("types", n); T != nil {
			items["iface "+types.TypeString(T, func(p *types.Package) string { return p.Name() })] = true
		}
	}
	for _, e := range c.api([]string{"list", "set", "linked", "heap"}) {
		if !isCopy(e) {
			continue
		}
		e := e
		c.R.Count("copy operations", 1)
		c.Guard("no-sharing", e.name, e.fn.Pos(), func() {
			a := pts.New(c.P)
			a.Run(e.fn)
			c.ptsDone(a)
			bad := map[string]bool{}
			n := 0
			v := pts.Val{}
			for p, s := range a.Ret() {
				if p == ".t1" {
					continue // the error
				}
				v[p] = s
			}
			a.Reach(v, func(o *pts.Obj, _ string, path []string) bool {
				n++
				if o.Kind != pts.Ext || o.Root < 0 {
					return true
				}
				// items themselves are shared by design; so are values held behind an opaque interface
				if strings.HasPrefix(o.Label, "iface ") {
					if items[o.Label] || strings.HasPrefix(o.Label, "iface interface{}") || strings.HasPrefix(o.Label, "iface any") {
						return false
					}
				}
				if c.isItemObj(o) {
					return false
				}
				msg := fmt.Sprintf("the result shares %s of argument %d with its source (through %s)", o.Label, o.Root, strings.Join(path, " "))
				if !bad[o.Label] {
					bad[o.Label] = true
					c.R.Fail("no-sharing", e.name, c.P.Pos(e.fn.Pos()), msg)
				}
				return false
			})
			c.R.Count("objects examined", n)
			if len(bad) == 0 {
				c.R.OK("no-sharing", e.name, c.P.Pos(e.fn.Pos()))
			}
			clean := true
			for _, w := range a.Writes() {
				if extOf(w.O) {
					clean = false
					c.R.Fail("source-untouched", e.name, c.P.Pos(w.Pos), fmt.Sprintf("%s to %s in %s", w.How, w.O.Label, c.P.FuncName(w.Fn)), a.Chain(w.Ctx)...)
				}
			}
			if clean {
				c.R.OK("source-untouched", e.name, c.P.Pos(e.fn.Pos()))
			}
		})
	}
	c.R.Floor("copy operations", 18)
}

// isItemObj: an object that stands for an item (reached through an item interface), not for container storage.
func (c *Ctx) isItemObj(o *pts.Obj) bool {
	n, ok := o.T.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Name() == "MapEntry" && c.P.InRepoPkg(n.Obj().Pkg())
}

// trieSnapshots decides C02.
func (c *Ctx) trieSnapshots() {
	c.R.Rule("node-immutable", "no operation writes to a trie node, or to a stored key, that existed before the operation")
	c.R.Rule("snapshot", "an iterator, once created, reads only nodes: never the trie's own root table")
	trie := c.P.Named("trie", "TST")
	if trie == nil {
		c.R.Fail("anchor", "trie.TST", "", "anchor not found in the tree")
		return
	}
	for _, e := range c.api([]string{"trie"}) {
		if e.typ != "TST" && e.typ != "TSTNode" {
			continue
		}
		e := e
		c.R.Count("operations", 1)
		c.Guard("node-immutable", e.name, e.fn.Pos(), func() {
			a := pts.New(c.P)
			a.Run(e.fn)
			before := len(a.Reads())
			_ = before
			isTrie := func(o *pts.Obj) bool { return types.Identical(o.T, trie) }
			pre := map[string]bool{}
			for _, r := range a.Reads() {
				pre[fmt.Sprintf("%p", r.Ctx)] = true
			}
			a.Drive(a.Ret())
			c.ptsDone(a)
			ok := true
			for _, w := range a.Writes() {
				if !extOf(w.O) {
					continue
				}
				if isTrie(w.O) && e.typ == "TST" && mutators[e.meth] {
					continue
				}
				// memory of arguments other than the receiver is judged by C03
				if w.O.Root != 0 {
					continue
				}
				ok = false
				c.R.Fail("node-immutable", e.name, c.P.Pos(w.Pos), fmt.Sprintf("%s to %s%s in %s", w.How, w.O.Label, w.P, c.P.FuncName(w.Fn)), a.Chain(w.Ctx)...)
			}
			if ok {
				c.R.OK("node-immutable", e.name, c.P.Pos(e.fn.Pos()))
			}
			ok = true
			it := false
			for _, s := range a.Ret() {
				for el := range s {
					if el.O.Kind == pts.Closure {
						it = true
					}
				}
			}
			if !it {
				return
			}
			c.R.Count("iterators", 1)
			for _, r := range a.Reads() {
				if isTrie(r.O) && !pre[fmt.Sprintf("%p", r.Ctx)] {
					ok = false
					c.R.Fail("snapshot", e.name, c.P.Pos(r.Pos), "the iterator reads the trie's root table after it was created, in "+c.P.FuncName(r.Ctx.Fn), a.Chain(r.Ctx)...)
				}
			}
			if ok {
				c.R.OK("snapshot", e.name, c.P.Pos(e.fn.Pos()))
			}
		})
	}
	c.R.Floor("operations", 14)
	c.R.Floor("iterators", 5)
}
