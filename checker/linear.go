package main

// Linear normal forms of integer expressions, so that i+1 < n, i < n-1 and i <= n-2 are the same condition.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
)

type lin struct {
	c  int64
	n  map[string]int64
	vs map[string]*V
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (l *lin) add(v *V, k int64) {
	if v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Int {
		if c, ok := constant.Int64Val(v.cv); ok {
			l.c += k * c
			return
		}
	}
	if v.k == kApp && v.g == nil {
		switch {
		case v.s == "+":
			for _, x := range v.a {
				l.add(x, k)
			}
			return
		case v.s == "*" && len(v.a) == 2 && v.a[0].k == kConst && v.a[0].cv != nil:
			if c, ok := constant.Int64Val(v.a[0].cv); ok {
				l.add(v.a[1], k*c)
				return
			}
		case v.s == "len" && len(v.a) == 1 && v.a[0].k == kList && v.a[0].g == nil:
			rest := &V{k: kList, t: v.a[0].t, set: v.a[0].set}
			if !rest.set {
				for _, it := range v.a[0].a {
					switch {
					case !isItem(it) && it.g == nil:
						l.c += k
					case it.k == kEach && it.g == nil && srcOf[it.s] != nil:
						l.term(vApp("len", types.Typ[types.Int], srcOf[it.s]), k)
					default:
						rest.a = append(rest.a, it)
					}
				}
				if len(rest.a) < len(v.a[0].a) {
					if len(rest.a) > 0 {
						l.term(vApp("len", types.Typ[types.Int], rest), k)
					}
					return
				}
			}
		}
	}
	l.term(v, k)
}

func (l *lin) term(v *V, k int64) {
	key := v.key()
	l.vs[key] = v
	l.n[key] += k
	if l.n[key] == 0 {
		delete(l.n, key)
	}
}

func newLin() *lin { return &lin{n: map[string]int64{}, vs: map[string]*V{}} }

func (l *lin) keys() []string {
	var ks []string
	for k := range l.n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func vInt64(c int64, t types.Type) *V { return vConst(constant.MakeInt64(c), t) }

// value writes the sum down.
func (l *lin) value(t types.Type) *V {
	var parts []*V
	for _, k := range l.keys() {
		p := l.vs[k]
		if n := l.n[k]; n != 1 {
			p = vApp("*", t, vInt64(n, t), p)
		}
		parts = append(parts, p)
	}
	if len(parts) == 0 {
		return vInt64(l.c, t)
	}
	if l.c != 0 {
		parts = append(parts, vInt64(l.c, t))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	sort.SliceStable(parts, func(i, j int) bool { return parts[i].key() < parts[j].key() })
	return vApp("+", t, parts...)
}

func linOp(op token.Token, x, y *V, t types.Type) *V {
	l := newLin()
	l.add(x, 1)
	if op == token.SUB {
		l.add(y, -1)
	} else {
		l.add(y, 1)
	}
	return l.value(t)
}

// linLess is x < y, written c < t or rest < t for the first term t, or the negation of that.
func linLess(x, y *V) *V {
	l := newLin()
	l.add(y, 1)
	l.add(x, -1)
	b := types.Typ[types.Bool]
	ks := l.keys()
	if len(ks) == 0 {
		return vBool(l.c > 0)
	}
	neg := l.n[ks[0]] < 0
	if neg {
		// 0 < d is not 0 < 1-d
		for k := range l.n {
			l.n[k] = -l.n[k]
		}
		l.c = 1 - l.c
	}
	left, right := newLin(), newLin()
	left.c = -l.c
	for _, k := range ks {
		if n := l.n[k]; n > 0 {
			right.n[k], right.vs[k] = n, l.vs[k]
		} else {
			left.n[k], left.vs[k] = -n, l.vs[k]
		}
	}
	t := types.Type(types.Typ[types.Int])
	lv, rv := left.value(t), right.value(t)
	var r *V
	switch {
	case isLenApp(rv) && isConstN(lv, 0):
		r = vNot(eq(rv, vInt(0)))
	case isLenApp(rv) && lv.k == kConst && left.c < 0:
		r = vBool(true)
	default:
		r = vApp("<", b, lv, rv)
	}
	if neg {
		r = vNot(r)
	}
	return r
}

// linEq is x == y.
func linEq(x, y *V) *V {
	l := newLin()
	l.add(y, 1)
	l.add(x, -1)
	ks := l.keys()
	if len(ks) == 0 {
		return vBool(l.c == 0)
	}
	if l.n[ks[0]] < 0 {
		for k := range l.n {
			l.n[k] = -l.n[k]
		}
		l.c = -l.c
	}
	left, right := newLin(), newLin()
	left.c = -l.c
	for _, k := range ks {
		if n := l.n[k]; n > 0 {
			right.n[k], right.vs[k] = n, l.vs[k]
		} else {
			left.n[k], left.vs[k] = -n, l.vs[k]
		}
	}
	t := types.Type(types.Typ[types.Int])
	lv, rv := left.value(t), right.value(t)
	if isLenApp(rv) && lv.k == kConst && left.c < 0 {
		return vBool(false)
	}
	return eq(lv, rv)
}

// bounds decides an order or equality of a value and a constant from the others that are known.
func (in *Interp) bounds(st *state, v *V) *bool {
	if v.k != kApp || len(v.a) != 2 || v.s != "<" && v.s != "==" {
		return nil
	}
	n, t := splitConst(v)
	if t == nil {
		return nil
	}
	lo, hi, ne := in.interval(st, t)
	yes, no := true, false
	if v.s == "<" {
		if lo > n {
			return &yes
		}
		if hi <= n {
			return &no
		}
		return nil
	}
	if lo == n && hi == n {
		return &yes
	}
	if n < lo || n > hi || ne[n] {
		return &no
	}
	return nil
}

// splitConst reads c < t or c == t.
func splitConst(v *V) (int64, *V) {
	for i := 0; i < 2; i++ {
		if c := v.a[i]; c.k == kConst && c.cv != nil && c.cv.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.cv); ok && (v.s == "==" || i == 0) {
				return n, v.a[1-i]
			}
		}
	}
	return 0, nil
}

// interval is what is known of the integer t; the values of an enumeration are those it declares.
func (in *Interp) interval(st *state, t *V) (lo, hi int64, ne map[int64]bool) {
	const inf = 1 << 60
	lo, hi = int64(-inf), int64(inf)
	if isLenApp(t) {
		lo = 0
	}
	if l, h, ok := in.p.enumRange(t.t); ok {
		lo, hi = l, h
	}
	k := t.key()
	ne = map[int64]bool{}
	for _, f := range st.facts {
		if f.v.k != kApp || f.v.s != "<" && f.v.s != "==" || len(f.v.a) != 2 {
			continue
		}
		m, u := splitConst(f.v)
		if u == nil || u.key() != k {
			continue
		}
		switch {
		case f.v.s == "<" && f.b:
			lo = max(lo, m+1)
		case f.v.s == "<":
			hi = min(hi, m)
		case f.b:
			lo, hi = max(lo, m), min(hi, m)
		default:
			ne[m] = true
		}
	}
	for ne[lo] && lo > -inf {
		lo++
	}
	for ne[hi] && hi < inf {
		hi--
	}
	return lo, hi, ne
}

// empty: no integer satisfies what is assumed of it.
func (in *Interp) empty(st *state) bool {
	for _, f := range st.facts {
		if f.v.k == kApp && (f.v.s == "<" || f.v.s == "==") && len(f.v.a) == 2 {
			if _, t := splitConst(f.v); t != nil {
				if lo, hi, _ := in.interval(st, t); lo > hi {
					return true
				}
			}
		}
	}
	return false
}

// enumRange is the range of the constants declared with a type of the module.
func (p *Prog) enumRange(t types.Type) (lo, hi int64, ok bool) {
	n, isNamed := types.Unalias(t).(*types.Named)
	if t == nil || !isNamed || !isIntT(t) || n.Obj().Pkg() == nil {
		return 0, 0, false
	}
	num := 0
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, isC := sc.Lookup(name).(*types.Const); isC && types.Identical(c.Type(), t) {
			if v, exact := constant.Int64Val(constant.ToInt(c.Val())); exact {
				if num == 0 {
					lo, hi = v, v
				}
				lo, hi = min(lo, v), max(hi, v)
				num++
			}
		}
	}
	return lo, hi, num > 1
}
