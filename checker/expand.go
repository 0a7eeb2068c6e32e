package main

// Two summaries of loops of different form are compared by expanding them to lists of one and two elements.

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"regexp"
	"sort"
	"strings"
)

type expander struct {
	src   string
	n, at int // number of elements, position of the element at hand
	elem  *regexp.Regexp
	memo  map[*V]*V
	bad   bool
	size  int
}

func newExpander(src string, n, at int) *expander {
	return &expander{src: src, n: n, at: at, memo: map[*V]*V{}, elem: regexp.MustCompile(`(elem|idx) ` + regexp.QuoteMeta(src) + `([^A-Za-z0-9_#×]|$)`)}
}

// topSource splits off the first factor of a product.
func topSource(s string) (string, string) {
	d := 0
	for i, r := range s {
		switch r {
		case '(', '[', '{', '<':
			d++
		case ')', ']', '}', '>':
			d--
		case '×':
			if d == 0 {
				return s[:i], s[i+len("×"):]
			}
		}
	}
	return s, ""
}

func (e *expander) name(s string, i int) string {
	if s == "" || !strings.Contains(s, e.src) {
		return s
	}
	return e.elem.ReplaceAllString(s, "${1} "+strings.ReplaceAll(e.src, "$", "$$")+fmt.Sprintf("#%d", i)+"${2}")
}

// inst replaces the generic element by the i-th one.
func (e *expander) inst(v *V, i int, memo map[*V]*V) *V {
	if v == nil || !strings.Contains(v.key(), e.src) {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	if v.k == kApp {
		// What a summary of the same loop says is about an element of its own.
		if _, src, ok := strings.Cut(v.s, ":"); ok && src == e.src {
			return v
		}
	}
	n := *v
	n.key_ = ""
	if v.k == kIdx && v.s == e.src {
		r := &V{k: kSym, s: fmt.Sprintf("idx %s#%d", e.src, i), t: v.t}
		memo[v] = r
		return r
	}
	n.s = e.name(v.s, i)
	n.g = e.inst(v.g, i, memo)
	n.a = make([]*V, len(v.a))
	for j, x := range v.a {
		n.a[j] = e.inst(x, i, memo)
	}
	r := rebuild(&n)
	memo[v] = r
	return r
}

func rebuild(n *V) *V {
	switch {
	case n.k == kUnion:
		return union(n.a...)
	case n.k == kApp && (n.s == "and" || n.s == "or"):
		r := nary(n.s, n.a)
		if r == nil {
			r = vBool(true)
		}
		return guarded(r, n.g)
	case n.k == kApp && n.s == "!":
		return guarded(vNot(n.a[0]), n.g)
	case n.k == kApp && n.s == "==" && len(n.a) == 2 && n.a[0].k == kConst && n.a[1].k == kConst:
		return guarded(vBool(n.a[0].key() == n.a[1].key()), n.g)
	case n.k == kApp && n.s == "len" && len(n.a) == 1 && n.a[0].k == kList:
		for _, x := range n.a[0].a {
			if isItem(x) {
				return n
			}
		}
		return guarded(vInt(len(n.a[0].a)), n.g)
	}
	return n
}

func (e *expander) do(v *V) *V {
	if v == nil || !strings.Contains(v.key(), e.src) {
		return v
	}
	if r, ok := e.memo[v]; ok {
		return r
	}
	r := e.do1(v)
	e.memo[v] = r
	e.size++
	if e.size > 20000 {
		e.bad = true
	}
	return r
}

func (e *expander) each(f func(i int, at func(*V) *V)) {
	for i := 0; i < e.n; i++ {
		memo := map[*V]*V{}
		sub := &expander{src: e.src, n: e.n, at: i, memo: map[*V]*V{}, elem: e.elem}
		f(i, func(v *V) *V {
			r := sub.do(e.inst(v, i, memo))
			e.size += sub.size
			sub.size = 0
			e.bad = e.bad || sub.bad || e.size > 20000
			return r
		})
	}
}

func (e *expander) do1(v *V) *V {
	if e.bad {
		return v
	}
	if v.g == nil && (v.k == kApp || v.k == kSym) && v.key() == e.src {
		l := &V{k: kList, t: v.t, set: v.t != nil && isSetType(v.t)}
		e.each(func(i int, _ func(*V) *V) { l.a = append(l.a, vSym(fmt.Sprintf("elem %s#%d", e.src, i), nil)) })
		return l
	}
	g := e.do(v.g)
	if v.k == kList {
		n := *v
		n.key_ = ""
		n.g = g
		n.a = nil
		for _, x := range v.a {
			if x.k != kEach {
				n.a = append(n.a, e.do(x))
				continue
			}
			top, rest := topSource(x.s)
			if top != e.src {
				n.a = append(n.a, e.do(x))
				continue
			}
			e.each(func(i int, at func(*V) *V) {
				body, c := at(x.a[0]), at(x.g)
				switch {
				case rest != "":
					n.a = append(n.a, &V{k: kEach, s: e.name(rest, i), a: []*V{body}, g: c})
				case c != nil:
					n.a = append(n.a, vMay(body, c))
				default:
					n.a = append(n.a, body)
				}
			})
		}
		return &n
	}
	if v.k == kApp {
		if op, src, ok := strings.Cut(v.s, ":"); ok && (src == e.src) {
			switch op {
			case "all", "before":
				var l []*V
				e.each(func(i int, at func(*V) *V) {
					if op == "all" || i < e.at {
						l = append(l, at(v.a[0]))
					}
				})
				r := vAnd(l...)
				if r == nil {
					r = vBool(true)
				}
				return guarded(r, g)
			case "fold", "pre":
				k := e.n
				if op == "pre" {
					k = e.at
				}
				d := v.a[0].key()
				num := (len(v.a) - 1) / 2
				cur := make([]*V, num)
				for j := range cur {
					cur[j] = e.do(v.a[1+2*j])
				}
				e.each(func(i int, at func(*V) *V) {
					if i >= k || e.bad {
						return
					}
					m := map[string]*V{}
					for j := range cur {
						m[fmt.Sprintf("acc %s:%d.", d, j)] = cur[j]
					}
					next := make([]*V, num)
					for j := range cur {
						next[j] = substAcc(at(v.a[2+2*j]), m)
						if len(next[j].key()) > 60000 {
							e.bad = true
							return
						}
					}
					cur = next
				})
				return guarded(cur[0], g)
			}
		}
	}
	n := *v
	n.key_ = ""
	n.g = g
	n.s = e.name(v.s, e.at)
	if v.k == kIdx && v.s == e.src {
		return vSym(fmt.Sprintf("idx %s#%d", e.src, e.at), v.t)
	}
	n.a = make([]*V, len(v.a))
	for j, x := range v.a {
		n.a[j] = e.do(x)
	}
	return rebuild(&n)
}

// loopSources lists the sources of the summaries in v.
func loopSources(v *V, out map[string]bool, bad *bool) {
	for _, x := range find(v, func(x *V) bool {
		return x.k == kEach || x.k == kApp && (strings.HasPrefix(x.s, "fold:") || strings.HasPrefix(x.s, "pre:") || strings.HasPrefix(x.s, "all:") || strings.HasPrefix(x.s, "before:"))
	}) {
		s := x.s
		if x.k == kApp {
			_, s, _ = strings.Cut(x.s, ":")
			if _, rest := topSource(s); rest != "" {
				*bad = true
			}
		}
		t, _ := topSource(s)
		out[t] = true
	}
}

// pair is a common case of the two functions.
type pair struct {
	a, b *V
	st   *state
}

var convRe = regexp.MustCompile(`as:[A-Za-z0-9_./]+(\[[^\]]*\])?\(`)

// mixedHash of the name of a list does not depend on conversions.
func mixedHash(s string, mode int) int {
	for {
		m := convRe.FindStringIndex(s)
		if m == nil {
			break
		}
		d, end := 1, -1
		for i := m[1]; i < len(s) && end < 0; i++ {
			switch s[i] {
			case '(':
				d++
			case ')':
				d--
				if d == 0 {
					end = i
				}
			}
		}
		if end < 0 {
			break
		}
		s = s[:m[0]] + s[m[1]:end] + s[end+1:]
	}
	h := sha256.Sum256([]byte(fmt.Sprint(s, " ", mode)))
	return int(h[0]) + int(h[1])<<8
}

// expandPair expands all the sources of a pair; nil if that is not possible, and ok is false if the case
// cannot arise.
func (in *Interp) expandPair(p pair, n, at int) (*pair, bool) {
	mixed := n < 0
	mode := n
	for round := 0; round < 12; round++ {
		src := map[string]bool{}
		bad := false
		loopSources(p.a, src, &bad)
		loopSources(p.b, src, &bad)
		for _, f := range p.st.facts {
			loopSources(f.v, src, &bad)
		}
		if bad {
			return nil, true
		}
		if len(src) == 0 {
			return &p, true
		}
		var l []string
		for s := range src {
			if s == "" || strings.HasPrefix(s, "@") {
				return nil, true
			}
			inner := false
			for t := range src {
				if t != s && regexp.MustCompile(`elem `+regexp.QuoteMeta(t)+`([^A-Za-z0-9_#×]|$)`).MatchString(s) {
					inner = true
				}
			}
			if !inner && !strings.Contains(s, "acc ") {
				l = append(l, s)
			}
		}
		if len(l) == 0 || len(l) > 6 {
			return nil, true
		}
		sort.Slice(l, func(i, j int) bool { return len(l[i]) > len(l[j]) || len(l[i]) == len(l[j]) && l[i] < l[j] })
		s := l[0]
		if mixed {
			// Each list has its own length, up to 2.
			h := mixedHash(s, -mode)
			n = h % 3
			at = 0
			if n == 2 {
				at = h / 3 % 2
			}
		}
		e := newExpander(s, n, at)
		q := pair{a: e.do(p.a), b: e.do(p.b), st: newState()}
		none := s + "#0"
		if n == 0 && (strings.Contains(q.a.key(), none) || strings.Contains(q.b.key(), none)) {
			return nil, false // an element of an empty list
		}
		for _, f := range p.st.facts {
			v := e.do(f.v)
			if n == 0 && strings.Contains(v.key(), none) {
				return nil, false
			}
			if v != f.v {
				v = boolOf(v)
			}
			if v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Bool {
				if constant.BoolVal(v.cv) != f.b {
					return nil, false
				}
				continue
			}
			if t := in.truth(q.st, v); t != nil && *t != f.b {
				return nil, false
			}
			in.assume(q.st, v, f.b)
		}
		if e.bad || len(q.a.key())+len(q.b.key()) > 200000 {
			return nil, true
		}
		p = q
	}
	return nil, true
}

// normSets sorts the members of sets.
func normSets(v *V) *V {
	if v == nil || len(v.a) == 0 {
		return v
	}
	n := *v
	n.key_ = ""
	n.g = normSets(v.g)
	n.a = make([]*V, len(v.a))
	for i, x := range v.a {
		n.a[i] = normSets(x)
	}
	if v.k == kUnion {
		return union(n.a...)
	}
	if v.k == kList && v.set {
		sort.SliceStable(n.a, func(i, j int) bool { return n.a[i].key() < n.a[j].key() })
		var l []*V
		for _, x := range n.a {
			if len(l) == 0 || l[len(l)-1].key() != x.key() {
				l = append(l, x)
			}
		}
		n.a = l
	}
	return &n
}
