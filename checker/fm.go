package main

import (
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Linear integer constraints and a small refutation procedure (Fourier–Motzkin with integer tightening).

type term struct {
	a int // atom id
	c int64
}

// lin is k + Σ c·atom, terms sorted by atom.
type lin struct {
	k  int64
	t  []term
	ok bool // false: overflowed, unusable
}

func linConst(k int64) lin  { return lin{k: k, ok: true} }
func linAtom(a int) lin     { return lin{t: []term{{a, 1}}, ok: true} }
func (l lin) isConst() bool { return l.ok && len(l.t) == 0 }
func (l lin) coef(a int) int64 {
	for _, x := range l.t {
		if x.a == a {
			return x.c
		}
	}
	return 0
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return 0, false
	}
	ua, ub := uint64(a), uint64(b)
	neg := false
	if a < 0 {
		ua = uint64(-a)
		neg = !neg
	}
	if b < 0 {
		ub = uint64(-b)
		neg = !neg
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func (l lin) addMul(m lin, f int64) lin {
	if !l.ok || !m.ok {
		return lin{}
	}
	r := lin{ok: true}
	mk, ok := mulOv(m.k, f)
	if !ok {
		return lin{}
	}
	if r.k, ok = addOv(l.k, mk); !ok {
		return lin{}
	}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || i < len(l.t) && l.t[i].a < m.t[j].a:
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a < l.t[i].a:
			c, ok := mulOv(m.t[j].c, f)
			if !ok {
				return lin{}
			}
			if c != 0 {
				r.t = append(r.t, term{m.t[j].a, c})
			}
			j++
		default:
			c, ok := mulOv(m.t[j].c, f)
			if !ok {
				return lin{}
			}
			s, ok := addOv(l.t[i].c, c)
			if !ok {
				return lin{}
			}
			if s != 0 {
				r.t = append(r.t, term{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	return r
}

func (l lin) add(m lin) lin     { return l.addMul(m, 1) }
func (l lin) sub(m lin) lin     { return l.addMul(m, -1) }
func (l lin) addK(k int64) lin  { return l.add(linConst(k)) }
func (l lin) scale(f int64) lin { return linConst(0).addMul(l, f) }
func (l lin) subst(a int, by lin) lin {
	c := l.coef(a)
	if c == 0 {
		return l
	}
	return l.addMul(lin{t: []term{{a, 1}}, ok: true}, -c).addMul(by, c)
}

func (l lin) tkey() string {
	var b strings.Builder
	for _, x := range l.t {
		b.WriteString(strconv.Itoa(x.a))
		b.WriteByte(':')
		b.WriteString(strconv.FormatInt(x.c, 10))
		b.WriteByte(' ')
	}
	return b.String()
}

func (l lin) key() string { return l.tkey() + "|" + strconv.FormatInt(l.k, 10) }

// tighten divides l ≥ 0 by the gcd of its coefficients, rounding towards the integers.
func tighten(l lin) lin {
	g := int64(0)
	for _, x := range l.t {
		c := x.c
		if c < 0 {
			c = -c
		}
		for c != 0 {
			g, c = c, g%c
		}
	}
	if g <= 1 {
		return l
	}
	r := lin{ok: true}
	for _, x := range l.t {
		r.t = append(r.t, term{x.a, x.c / g})
	}
	r.k = l.k / g
	if l.k%g != 0 && l.k < 0 {
		r.k--
	}
	return r
}

const fmCap = 900

// infeasible reports that no integers satisfy every l ≥ 0 in cs (false: unknown).
func infeasible(cs []lin) bool {
	set := map[string]lin{}
	bad := false
	add := func(l lin) {
		if !l.ok {
			return
		}
		l = tighten(l)
		if len(l.t) == 0 {
			if l.k < 0 {
				bad = true
			}
			return
		}
		k := l.tkey()
		if o, ok := set[k]; !ok || l.k < o.k {
			set[k] = l
		}
	}
	for _, c := range cs {
		add(c)
	}
	for !bad && len(set) > 0 {
		pos, neg := map[int]int{}, map[int]int{}
		for _, l := range set {
			for _, x := range l.t {
				if x.c > 0 {
					pos[x.a]++
				} else {
					neg[x.a]++
				}
			}
		}
		best, bc := -1, 0
		var ids []int
		for a := range pos {
			ids = append(ids, a)
		}
		for a := range neg {
			if pos[a] == 0 {
				ids = append(ids, a)
			}
		}
		sort.Ints(ids)
		for _, a := range ids {
			c := pos[a]*neg[a] - pos[a] - neg[a]
			if best < 0 || c < bc {
				best, bc = a, c
			}
		}
		var P, N []lin
		var keys []string
		for k := range set {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			l := set[k]
			c := l.coef(best)
			if c > 0 {
				P = append(P, l)
				delete(set, k)
			} else if c < 0 {
				N = append(N, l)
				delete(set, k)
			}
		}
		for _, p := range P {
			for _, n := range N {
				add(p.scale(-n.coef(best)).add(n.scale(p.coef(best))))
				if bad {
					return true
				}
			}
		}
		if len(set) > fmCap {
			return false
		}
	}
	return bad
}
