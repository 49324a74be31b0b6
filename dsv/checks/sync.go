package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/ai"
)

func init() {
	register("C28", "Abstract interpretation of the pool's constructor, its goroutine bodies and every exported method over an unknown pool, with other goroutines' effects havocked at every lock acquisition, tracking sends, receives, runs and the pending counter.", func(c *Ctx) { c.poolCheck("C28") })
	register("C29", "Lockset, lock-order and lock-balance analysis of every exported method and goroutine body of the pool by abstract interpretation over all paths.", func(c *Ctx) { c.poolCheck("C29") })
	register("C30", "Abstract interpretation of every method of the locked source: which lock is held at each use of the wrapped source, on every path.", (*Ctx).randCheck)
}

// heldLocks is the set of locks held: key -> mode ("W" or "R").
type heldLocks map[string]string

func locksOf(st *ai.State) heldLocks {
	h := heldLocks{}
	s, _ := st.Ghost["locks"].(ai.Str)
	for _, t := range strings.Split(s.S, ";") {
		if i := strings.LastIndex(t, "="); i > 0 {
			h[t[:i]] = t[i+1:]
		}
	}
	return h
}

func setLocks(st *ai.State, h heldLocks) {
	var ks []string
	for k, m := range h {
		ks = append(ks, k+"="+m)
	}
	sort.Strings(ks)
	st.Ghost["locks"] = ai.Str{S: strings.Join(ks, ";")}
}

func (h heldLocks) String() string {
	if len(h) == 0 {
		return "no lock"
	}
	var ks []string
	for k, m := range h {
		if m == "R" {
			k += " (shared)"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

type access struct {
	field string
	write bool
	held  heldLocks
	pos   token.Pos
	where string
	path  []string
}

// syncModel interprets sync operations as lock-set changes.
type syncModel struct {
	c       *Ctx
	rules   map[string]bool
	in      *ai.Interp
	shared  map[int]bool // objects other goroutines can reach
	names   map[string]string
	acc     map[string][]access
	guards  map[string]string // field -> guarding lock (second phase)
	havocF  func(st *ai.State, lock string)
	edges   map[string]map[string]token.Pos
	where   string
	needs   map[string]map[string]bool // locks each entry acquires
	phase   int
	onWait  func(st *ai.State, kind string, pos token.Pos) // "cond", "wg"
	onWG    func(st *ai.State, op string, n ai.Lin, pos token.Pos)
	onBcast func(st *ai.State, all bool, pos token.Pos)
	blocks  []blockSite
	ctor    bool
}

type blockSite struct {
	held  heldLocks
	where string
	pos   token.Pos
	kind  string
	path  []string
}

func (m *syncModel) fail(rule, key string, pos token.Pos, detail string, st *ai.State) {
	if !m.rules[rule] {
		return
	}
	var p []string
	if st != nil {
		p = m.c.Path(st)
	}
	m.c.R.Fail(rule, key, m.c.P.Pos(pos), detail, p...)
}

func (m *syncModel) ok(rule, key string, pos token.Pos) {
	if m.rules[rule] {
		m.c.R.OK(rule, key, m.c.P.Pos(pos))
	}
}

func (m *syncModel) check(ok bool, rule, key string, pos token.Pos, detail string, st *ai.State) {
	if ok {
		m.ok(rule, key, pos)
	} else {
		m.fail(rule, key, pos, detail, st)
	}
}

// fieldPath names a field below a type.
func fieldPath(T types.Type, path []int) (string, types.Type) {
	n := types.TypeString(T, func(p *types.Package) string { return "" })
	for _, i := range path {
		s, ok := T.Underlying().(*types.Struct)
		if !ok {
			return n, T
		}
		n += "." + s.Field(i).Name()
		T = s.Field(i).Type()
	}
	return n, T
}

// lockKey identifies a lock by its address.
func (m *syncModel) lockKey(st *ai.State, v ai.Val, pos token.Pos) string {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		v = st.Resolve(i.V)
	}
	p, ok := v.(ai.Ptr)
	if !ok {
		rs := m.in.DerefPtr(st, v, nil, pos)
		if len(rs) == 1 && rs[0].Panic == nil {
			p = rs[0].V.(ai.Ptr)
		} else {
			panic(ai.Undecided{Msg: "lock identity of " + st.Show(v), Pos: pos})
		}
	}
	k := fmt.Sprintf("o%d%v", p.O, p.Path)
	if n, ok := m.names[k]; ok {
		return n
	}
	n, _ := fieldPath(st.Obj(p.O).T, p.Path)
	n = strings.TrimPrefix(n, ".")
	if len(p.Path) == 0 {
		n = "lock of type " + n + " made at construction"
		if !m.shared[p.O] {
			n = "another " + n
		}
	}
	for used := true; used; {
		used = false
		for _, x := range m.names {
			if x == n {
				n += "'"
				used = true
			}
		}
	}
	m.names[k] = n
	return n
}

func (m *syncModel) acquire(st *ai.State, key, mode string, pos token.Pos) {
	h := locksOf(st)
	if old, held := h[key]; held {
		m.fail("double-lock", m.where+" "+key, pos, "acquires "+key+" while already holding it ("+old+"): blocks for ever", st)
	}
	for k := range h {
		if m.edges[k] == nil {
			m.edges[k] = map[string]token.Pos{}
		}
		if _, ok := m.edges[k][key]; !ok {
			m.edges[k][key] = pos
		}
	}
	if m.needs[m.where] == nil {
		m.needs[m.where] = map[string]bool{}
	}
	m.needs[m.where][key] = true
	h[key] = mode
	setLocks(st, h)
	if m.havocF != nil {
		m.havocF(st, key)
	}
	m.c.R.Count("lock acquisitions seen", 1)
}

func (m *syncModel) release(st *ai.State, key, mode string, pos token.Pos) {
	h := locksOf(st)
	if h[key] != mode {
		m.fail("balance", m.where+" release "+key, pos, "releases "+key+" ("+mode+") which is not held that way here (holding "+h.String()+")", st)
	}
	delete(h, key)
	setLocks(st, h)
}

func (m *syncModel) blocked(st *ai.State, kind string, except string, pos token.Pos) {
	h := locksOf(st)
	delete(h, except)
	m.blocks = append(m.blocks, blockSite{h, m.where, pos, kind, m.c.Path(st)})
}

// call models package sync; ok=false when the call is something else.
func (m *syncModel) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	ret := func(v ...ai.Val) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Rets: v}}, true }
	if ci.Fn == nil || ci.Fn.Object() == nil || ci.Fn.Object().Pkg() == nil || ci.Fn.Object().Pkg().Path() != "sync" {
		return nil, false
	}
	if ci.Fn.Synthetic != "" && len(ci.Fn.Blocks) > 0 && ci.Fn.Signature.Recv() == nil && len(ci.Fn.FreeVars) > 0 {
		return nil, false // bound method wrapper: look inside
	}
	in := m.in
	arg := func(i int) ai.Val { return ci.Args[i] }
	switch ci.Fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		m.acquire(st, m.lockKey(st, arg(0), ci.Pos), "W", ci.Pos)
		return ret()
	case "(*sync.RWMutex).RLock":
		m.acquire(st, m.lockKey(st, arg(0), ci.Pos), "R", ci.Pos)
		return ret()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		m.release(st, m.lockKey(st, arg(0), ci.Pos), "W", ci.Pos)
		return ret()
	case "(*sync.RWMutex).RUnlock":
		m.release(st, m.lockKey(st, arg(0), ci.Pos), "R", ci.Pos)
		return ret()
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		got := st.Clone()
		m.acquire(got, m.lockKey(got, arg(0), ci.Pos), "W", ci.Pos)
		return []ai.Outcome{{St: got, Rets: []ai.Val{ai.True()}}, {St: st, Rets: []ai.Val{ai.False()}}}, true
	case "sync.NewCond":
		T := ci.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := st.NewObj(T, in.Zero(st, T), true, "cond")
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "L" {
				st.SetField(o.ID, []int{i}, arg(0))
			}
		}
		return ret(ai.Ptr{O: o.ID})
	case "(*sync.Cond).Wait":
		rs := in.DerefPtr(st, arg(0), ci.Sig.Recv().Type(), ci.Pos)
		p := rs[len(rs)-1].V.(ai.Ptr)
		st = rs[len(rs)-1].St
		T := st.Obj(p.O).T
		_, CT := fieldPath(T, p.Path)
		s := CT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "L" {
				q := p
				q.Path = append(append([]int(nil), p.Path...), i)
				l := in.Load(st, q)
				key := m.lockKey(l[0].St, l[0].V, ci.Pos)
				h := locksOf(st)
				if h[key] != "W" {
					m.fail("balance", m.where+" wait", ci.Pos, "waits on the condition without holding its lock", st)
				}
				m.blocked(st, "waits on a condition", key, ci.Pos)
				if m.havocF != nil {
					m.havocF(st, key)
				}
				if m.onWait != nil {
					m.onWait(st, "cond", ci.Pos)
				}
				return ret()
			}
		}
		panic(ai.Undecided{Msg: "condition without a lock", Pos: ci.Pos})
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		if m.onBcast != nil {
			m.onBcast(st, strings.HasSuffix(ci.Fn.String(), "Broadcast"), ci.Pos)
		}
		return ret()
	case "(*sync.WaitGroup).Add":
		if m.onWG != nil {
			m.onWG(st, "add", intv(st.Resolve(arg(1))), ci.Pos)
		}
		return ret()
	case "(*sync.WaitGroup).Done":
		if m.onWG != nil {
			m.onWG(st, "add", ai.K(-1), ci.Pos)
		}
		return ret()
	case "(*sync.WaitGroup).Wait":
		m.blocked(st, "waits for the workers", "", ci.Pos)
		if m.onWait != nil {
			m.onWait(st, "wg", ci.Pos)
		}
		return ret()
	case "(*sync.Once).Do":
		skip := st.Clone()
		outs := in.CallValue(st, ci.Site, arg(1), nil, ci.Pos)
		return append(outs, ai.Outcome{St: skip}), true
	}
	panic(ai.Undecided{Msg: "unmodelled synchronisation " + ci.Fn.String(), Pos: ci.Pos})
}

func fromSync(T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// note records an access to a field of a shared object.
func (m *syncModel) note(st *ai.State, p ai.Ptr, write bool, pos token.Pos) {
	o := st.Obj(p.O)
	if o == nil || !m.shared[p.O] && (o.Fresh || o.From < 0 && o.Arr == nil) {
		return
	}
	var name string
	var T types.Type
	if o.Arr != nil {
		name, T = "elements of "+o.Name, o.T
	} else {
		name, T = fieldPath(o.T, p.Path)
		name = strings.TrimPrefix(name, ".")
	}
	if fromSync(T) {
		if write {
			m.fail("guarded", name, pos, "overwrites a synchronisation object in use", st)
		}
		return
	}
	if o.Arr == nil && len(p.Path) == 0 {
		if b, ok := T.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			if _, isS := T.Underlying().(*types.Struct); isS && write {
				m.fail("guarded", name, pos, "overwrites a shared object as a whole", st)
			}
		}
	}
	m.acc[name] = append(m.acc[name], access{name, write, locksOf(st), pos, m.where, m.c.Path(st)})
	m.c.R.Count("shared field accesses seen", 1)
}

// inferGuards finds the lock common to all accesses of each field written after construction.
func (m *syncModel) inferGuards(report bool) map[string]string {
	g := map[string]string{}
	var fields []string
	for f := range m.acc {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		written := false
		for _, a := range m.acc[f] {
			written = written || a.write
		}
		if !written {
			continue // constant after construction
		}
		votes := map[string]int{}
		good := func(a access, k string) bool {
			mode, ok := a.held[k]
			return ok && (!a.write || mode == "W")
		}
		all := map[string]bool{}
		for _, a := range m.acc[f] {
			for k := range a.held {
				all[k] = true
			}
		}
		best := ""
		var ks []string
		for k := range all {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, a := range m.acc[f] {
				if good(a, k) {
					votes[k]++
				}
			}
			if best == "" || votes[k] > votes[best] {
				best = k
			}
		}
		g[f] = best
		if !report {
			continue
		}
		for _, a := range m.acc[f] {
			op := "read"
			if a.write {
				op = "written"
			}
			key := f + " in " + a.where
			if best == "" || !good(a, best) {
				want := best
				if want == "" {
					want = "any lock"
				}
				if m.rules["guarded"] {
					m.c.R.Fail("guarded", key, m.c.P.Pos(a.pos), fmt.Sprintf("%s is %s holding %s, elsewhere it is protected by %s", f, op, a.held, want), a.path...)
				}
			} else {
				m.ok("guarded", key, a.pos)
			}
		}
		m.c.R.Count("guarded fields", 1)
	}
	return g
}

// lockOrder reports cycles in the acquisition order.
func (m *syncModel) lockOrder() {
	var ks []string
	for k := range m.edges {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, a := range ks {
		// b reachable from a and a from b?
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for y := range m.edges[x] {
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		bs := []string{}
		for b := range m.edges[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			if b == a {
				continue
			}
			seen = map[string]bool{b: true}
			if dfs(b) {
				m.fail("lock-order", a+" before "+b, m.edges[a][b], "takes "+b+" while holding "+a+"; another path takes them the other way round", nil)
			} else {
				m.ok("lock-order", a+" before "+b, m.edges[a][b])
			}
		}
		m.c.R.Count("lock order pairs", len(bs))
	}
}

// blocking reports waits that hold a lock the waited-for goroutine needs.
func (m *syncModel) blocking(worker string) {
	for _, b := range m.blocks {
		bad := ""
		for k := range b.held {
			if m.needs[worker][k] {
				bad = k
			}
		}
		key := b.where + " " + b.kind
		if bad != "" {
			if m.rules["blocking"] {
				m.c.R.Fail("blocking", key, m.c.P.Pos(b.pos), b.where+" "+b.kind+" while holding "+bad+", which "+worker+" needs to make progress", b.path...)
			}
		} else {
			m.ok("blocking", key, b.pos)
		}
	}
}
