// Package ai is a trace-partitioned abstract interpreter over Go SSA.
package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Lin is a linear integer expression c + sum(coef*atom).
type Lin struct {
	C int64
	T []LTerm // sorted by atom, no zero coefficients
}

type LTerm struct {
	A int
	K int64
}

func K(c int64) Lin     { return Lin{C: c} }
func AtomLin(a int) Lin { return Lin{T: []LTerm{{a, 1}}} }

func (l Lin) Add(m Lin) Lin { return l.addScaled(m, 1) }
func (l Lin) Sub(m Lin) Lin { return l.addScaled(m, -1) }
func (l Lin) AddK(c int64) Lin {
	return Lin{C: l.C + c, T: l.T}
}
func (l Lin) Neg() Lin { return Lin{}.Sub(l) }
func (l Lin) Scale(k int64) Lin {
	return Lin{}.addScaled(l, k)
}

func (l Lin) addScaled(m Lin, k int64) Lin {
	if k == 0 {
		return l
	}
	r := Lin{C: l.C + k*m.C, T: make([]LTerm, 0, len(l.T)+len(m.T))}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].A < m.T[j].A):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].A < l.T[i].A:
			r.T = append(r.T, LTerm{m.T[j].A, k * m.T[j].K})
			j++
		default:
			if c := l.T[i].K + k*m.T[j].K; c != 0 {
				r.T = append(r.T, LTerm{l.T[i].A, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) IsConst() bool { return len(l.T) == 0 }

func (l Lin) Coef(a int) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}

func (l Lin) Equal(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

func (l Lin) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.C)
	for _, t := range l.T {
		fmt.Fprintf(&b, "|%d*%d", t.K, t.A)
	}
	return b.String()
}

// Subst replaces atoms through f (identity when f returns false).
func (l Lin) Subst(f func(int) (Lin, bool)) Lin {
	r := K(l.C)
	for _, t := range l.T {
		if m, ok := f(t.A); ok {
			r = r.addScaled(m, t.K)
		} else {
			r = r.addScaled(AtomLin(t.A), t.K)
		}
	}
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten normalises the constraint l <= 0 by dividing by the gcd of its coefficients.
func tighten(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return l
	}
	r := Lin{T: make([]LTerm, len(l.T))}
	for i, t := range l.T {
		r.T[i] = LTerm{t.A, t.K / g}
	}
	// sum <= -C  =>  sum/g <= floor(-C/g)
	r.C = -floorDiv(-l.C, g)
	return r
}

func termsKey(l Lin) string {
	var b strings.Builder
	for _, t := range l.T {
		fmt.Fprintf(&b, "%d*%d|", t.K, t.A)
	}
	return b.String()
}

const fmLimit = 1500

// prune tightens, removes duplicates/dominated constraints; ok=false when a constant contradiction is present.
func prune(cs []Lin) (out []Lin, ok bool) {
	best := map[string]int{}
	for _, c := range cs {
		c = tighten(c)
		if len(c.T) == 0 {
			if c.C > 0 {
				return nil, false
			}
			continue
		}
		k := termsKey(c)
		if i, has := best[k]; has {
			if c.C > out[i].C {
				out[i] = c
			}
			continue
		}
		best[k] = len(out)
		out = append(out, c)
	}
	return out, true
}

// eliminate removes every atom except keep from cs by Fourier-Motzkin; ok=false on contradiction.
// gaveUp reports that the limit was hit, in which case the result is an over-approximation.
func eliminate(cs []Lin, keep int) (out []Lin, ok bool, gaveUp bool) {
	cs, ok = prune(cs)
	if !ok {
		return nil, false, false
	}
	for {
		cnt := map[int][2]int{}
		for _, c := range cs {
			for _, t := range c.T {
				p := cnt[t.A]
				if t.K > 0 {
					p[0]++
				} else {
					p[1]++
				}
				cnt[t.A] = p
			}
		}
		bestA, bestCost := -1, 0
		atoms := make([]int, 0, len(cnt))
		for a := range cnt {
			atoms = append(atoms, a)
		}
		sort.Ints(atoms)
		for _, a := range atoms {
			if a == keep {
				continue
			}
			p := cnt[a]
			cost := p[0]*p[1] - p[0] - p[1]
			if bestA < 0 || cost < bestCost {
				bestA, bestCost = a, cost
			}
		}
		if bestA < 0 {
			return cs, true, gaveUp
		}
		var pos, neg, rest []Lin
		for _, c := range cs {
			switch k := c.Coef(bestA); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(neg)+len(rest) > fmLimit {
			gaveUp = true
			cs = rest
			continue
		}
		for _, p := range pos {
			kp := p.Coef(bestA)
			for _, n := range neg {
				kn := -n.Coef(bestA)
				g := gcd(kp, kn)
				rest = append(rest, p.Scale(kn/g).addScaled(n, kp/g))
			}
		}
		cs, ok = prune(rest)
		if !ok {
			return nil, false, false
		}
	}
}

// component selects the constraints connected to the atoms of seed.
func component(cs []Lin, seed Lin) []Lin {
	in := map[int]bool{}
	for _, t := range seed.T {
		in[t.A] = true
	}
	used := make([]bool, len(cs))
	for changed := true; changed; {
		changed = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.T) == 0
			for _, t := range c.T {
				if in[t.A] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, t := range c.T {
					in[t.A] = true
				}
			}
		}
	}
	var out []Lin
	for i, c := range cs {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// feasibleWith reports whether cs and extra (all "<= 0") may be satisfiable.
func feasibleWith(cs []Lin, extra ...Lin) bool {
	seed := Lin{}
	for _, e := range extra {
		for _, t := range e.T {
			seed = seed.addScaled(AtomLin(t.A), 1)
			if seed.Coef(t.A) == 0 {
				seed = seed.addScaled(AtomLin(t.A), 1)
			}
		}
	}
	sub := append(append([]Lin(nil), component(cs, seed)...), extra...)
	_, ok, _ := eliminate(sub, -1)
	return ok
}

// upper returns the greatest value of e under cs, if bounded.
func upper(cs []Lin, e Lin) (int64, bool) {
	if e.IsConst() {
		return e.C, true
	}
	const z = 1 << 30
	sub := append(append([]Lin(nil), component(cs, e)...), AtomLin(z).Sub(e))
	out, ok, _ := eliminate(sub, z)
	if !ok {
		return -1 << 40, true
	}
	best, has := int64(0), false
	for _, c := range out {
		k := c.Coef(z)
		if k > 0 {
			v := floorDiv(-c.C, k)
			if !has || v < best {
				best, has = v, true
			}
		}
	}
	return best, has
}
