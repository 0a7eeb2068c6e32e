package main

// Exact summaries of loops, used when two functions are compared.  A value that the iterations of a loop
// change in any other way than by appending to it becomes a symbol; the value after the loop is then the term
// fold:source(init, body, …), where body gives the next value from the current one and from the element at
// hand, followed by the same for the other changed values it depends on.

import (
	"fmt"
	"go/constant"
	"go/types"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var noExact = os.Getenv("NO_EXACT") != ""

type acc struct {
	name       string
	sym        *V
	init, body *V
	t          types.Type
}

// accs are the values changed by the iterations of one loop.
type accs struct {
	n       int
	byID    map[string]*acc
	order   []*acc
	force   map[string]bool // ids kept as symbols
	inexact map[string]bool // ids whose summary loses something
	changed map[string]bool
	t       types.Type // of the value at hand
	hold    []*V       // what holds of the elements that do not end the loop
}

func (in *Interp) newAccs(l *loop) *accs {
	if !keepOr || noExact {
		return nil
	}
	if in.forced == nil {
		in.forced = map[*ssa.BasicBlock]map[string]bool{}
	}
	if in.forced[l.head] == nil {
		in.forced[l.head] = map[string]bool{}
	}
	in.loopNo++
	return &accs{n: in.loopNo, byID: map[string]*acc{}, force: in.forced[l.head], inexact: map[string]bool{}, changed: map[string]bool{}}
}

// more says whether another attempt with more symbols is worth it.
func (ac *accs) more(all bool) bool {
	if ac == nil {
		return false
	}
	grown := false
	add := func(id string) {
		if !ac.force[id] {
			ac.force[id] = true
			grown = true
		}
	}
	for id := range ac.inexact {
		add(id)
	}
	if !grown && all {
		for id := range ac.changed {
			add(id)
		}
	}
	return grown
}

func trackable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan, *types.Tuple:
		return false
	}
	return true
}

func (ac *accs) loose(id string) {
	if ac != nil && id != "" && trackable(ac.t) {
		ac.inexact[id] = true
	}
}

// symbol gives the symbol of a changed value.
func (ac *accs) symbol(id string, i *V) *acc {
	x := ac.byID[id]
	if x == nil {
		name := fmt.Sprintf("acc %d_%d.", ac.n, len(ac.order))
		t := ac.t
		x = &acc{name: name, sym: accSym(name, t), init: i, t: t}
		ac.byID[id] = x
		ac.order = append(ac.order, x)
	}
	return x
}

// accSym is the symbol of an accumulator; slices and sets are lists of unknown length.
func accSym(name string, t types.Type) *V { return listed(vSym(name, t)) }

func listed(v *V) *V {
	if v.t == nil || v.k != kSym && v.k != kApp {
		return v
	}
	if s, ok := v.t.Underlying().(*types.Slice); ok {
		return asList(v, s.Elem(), false)
	}
	return coerce(v)
}

// step records the effect of one iteration on a value kept as a symbol.
func (ac *accs) step(id string, i, a, b *V) (gen, res *V, stable, ok bool) {
	if ac == nil || id == "" || i == nil {
		return nil, nil, false, false
	}
	if ac.byID[id] == nil && !ac.force[id] {
		return nil, nil, false, false
	}
	if ac.byID[id] == nil && (!trackable(ac.t) || i.k == kTop) {
		return nil, nil, false, false
	}
	x := ac.symbol(id, i)
	if sameV(a, x.sym) {
		x.body = b
		return x.sym, vSym("accres "+x.name, x.t), true, true
	}
	return x.sym, x.sym, false, true
}

func partial(v *V) bool {
	if v == nil {
		return false
	}
	k := v.key()
	return strings.Contains(k, "star ") || strings.Contains(k, "⊤")
}

// incomplete says whether some summary is not exact.
func (ac *accs) incomplete(init *state, l *loop, res *state, exits []edge) bool {
	if ac == nil {
		return false
	}
	for _, x := range ac.order {
		if x.body != nil && partial(x.body) && !partial(x.init) {
			return true
		}
	}
	look := func(s *state) bool {
		for _, ins := range l.head.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if partial(s.env[p]) && !partial(init.env[p]) {
				return true
			}
		}
		for k, v := range s.heap {
			w, ok := init.heap[k]
			if !ok {
				w = k.init
			}
			if partial(v) && !partial(w) && w != nil {
				return true
			}
		}
		for i, e := range s.events {
			if i >= len(init.events) && partial(e) {
				return true
			}
		}
		return false
	}
	if res != nil && look(res) {
		return true
	}
	for _, e := range exits {
		if look(e.st) {
			return true
		}
	}
	return false
}

// closeLoop replaces the symbols by what they stand for.
func (ac *accs) closeLoop(it *V, src, kind string, res *state, exits []edge) {
	if ac == nil {
		return
	}
	if kind == "fold" {
		for _, h := range ac.hold {
			c := vApp("before:"+src, types.Typ[types.Bool], h)
			for _, e := range exits {
				e.st.facts[c.key()] = fact{c, true}
			}
		}
	}
	if len(ac.order) == 0 {
		return
	}
	pre, post := map[string]*V{}, map[string]*V{}
	for _, x := range ac.order {
		if x.body == nil {
			x.body = x.sym
		}
		if it != nil && it.g != nil && !sameV(x.body, x.sym) {
			x.body = joinAlts([]alt{{x.body, it.g}, {x.sym, vNot(it.g)}})
		}
		if x.t != nil && types.Identical(x.t.Underlying(), types.Typ[types.Bool]) {
			x.body = boolOf(x.body)
		}
	}
	mentions := func(v *V, x *acc) bool { return v != nil && strings.Contains(v.key(), x.name) }
	anon := func(v *V) string { return accRe.ReplaceAllString(v.key(), "acc") }
	// values that do not change
	for again := true; again; {
		again = false
		for _, x := range ac.order {
			if pre[x.name] == nil && sameV(x.body, x.sym) {
				pre[x.name], post[x.name] = x.init, x.init
				m := map[string]*V{x.name: x.init}
				for _, y := range ac.order {
					y.body = substAcc(y.body, m)
				}
				again = true
			}
		}
	}
	closed := func(root *acc, kind string) *V {
		deps := []*acc{root}
		in := map[*acc]bool{root: true}
		for i := 0; i < len(deps); i++ {
			for _, y := range ac.order {
				if !in[y] && mentions(deps[i].body, y) {
					in[y] = true
					deps = append(deps, y)
				}
			}
		}
		rest := deps[1:]
		sort.SliceStable(rest, func(i, j int) bool {
			if shorten {
				if a, b := anon(rest[i].init), anon(rest[j].init); a != b {
					return a < b
				}
			}
			return anon(rest[i].body) < anon(rest[j].body)
		})
		d := 0
		for _, x := range deps {
			for _, m := range boundRe.FindAllStringSubmatch(x.body.key(), -1) {
				if n, _ := strconv.Atoi(m[1]); n > d {
					d = n
				}
			}
		}
		m := map[string]*V{}
		for i, x := range deps {
			m[x.name] = accSym(fmt.Sprintf("acc %d:%d.", d+1, i), x.t)
		}
		args := []*V{vInt(d + 1)}
		for _, x := range deps {
			args = append(args, x.init, substAcc(x.body, m))
		}
		return abbreviate(kind+":"+src, root.t, args)
	}
	for _, x := range ac.order {
		if pre[x.name] != nil {
			continue
		}
		alone := true
		for _, y := range ac.order {
			if y != x && mentions(x.body, y) {
				alone = false
			}
		}
		p := closed(x, "pre")
		if kind == "iter" {
			p = closed(x, "iter")
			pre[x.name], post[x.name] = listed(p), listed(p)
			continue
		}
		pre[x.name] = listed(p)
		var r *V
		if alone {
			r = x.normal(src)
		}
		if r == nil {
			r = listed(closed(x, "fold"))
		}
		post[x.name] = r
	}
	m := map[string]*V{}
	for k, v := range pre {
		m[k] = v
	}
	for k, v := range post {
		m["accres "+k] = v
	}
	if res != nil {
		substState(res, m)
	}
	for _, e := range exits {
		substState(e.st, m)
	}
}

// When the terms of a function grow too large, summaries of loops are replaced by a name for their text applied to
// the symbols that are free in it.
var (
	shorten bool
	fullOf  map[string]*V
)

const abbrMark = "§"

var abbrRe = regexp.MustCompile(abbrMark + `[0-9a-f]{16}`)
var freeAccRe = regexp.MustCompile(`acc \d+_\d+\.`)

func abbreviate(op string, t types.Type, args []*V) *V {
	v := vApp(op, t, args...)
	if !shorten || len(v.key()) < 400 {
		return v
	}
	k := v.key()
	names := map[string]string{}
	var free []*V
	k = freeAccRe.ReplaceAllStringFunc(k, func(n string) string {
		if names[n] == "" {
			names[n] = "acc$" + strconv.Itoa(len(names)) + "."
			free = append(free, nil)
			sym := vSym(n, nil)
			for _, x := range find(v, func(x *V) bool { return x.k == kSym && x.s == n }) {
				sym = vSym(n, x.t)
				break
			}
			free[len(free)-1] = sym
		}
		return names[n]
	})
	seen := map[string]bool{}
	var syms []*V
	for _, x := range find(v, func(x *V) bool { return x.k == kSym && !strings.HasPrefix(x.s, "acc ") }) {
		if n := x.s; !seen[n] {
			seen[n] = true
			syms = append(syms, vSym(n, x.t))
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].s < syms[j].s })
	h := fnv.New64a()
	h.Write([]byte(k))
	name := fmt.Sprintf("%s%016x", abbrMark, h.Sum64())
	if fullOf != nil {
		fullOf[name] = v
	}
	return vApp(op[:strings.Index(op, ":")]+":"+name, t, append(free, syms...)...)
}

// normal gives the simpler form of some folds.
func (x *acc) normal(src string) *V {
	b := x.body
	// append
	if b.k == kList && len(b.a) > 0 && b.a[0].k == kEach && b.a[0].s == x.name && b.a[0].g == nil && sameV(b.a[0].a[0], vSym("elem "+x.name, nil)) {
		rest := b.a[1:]
		for _, y := range rest {
			if strings.Contains(y.key(), x.name) || y.k == kStar || y.k == kMay && y.g == nil {
				return nil
			}
		}
		init := x.init
		if init.k == kNil {
			init = &V{k: kList, set: b.set, t: b.t}
		}
		if init.k != kList {
			var et types.Type
			if s, ok := x.t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			init = asList(init, et, b.set)
		}
		l := &V{k: kList, set: b.set, t: b.t, a: append([]*V{}, init.a...)}
		for _, y := range rest {
			switch y.k {
			case kMay:
				l.a = append(l.a, &V{k: kEach, s: src, a: y.a, g: y.g})
			case kEach:
				l.a = append(l.a, &V{k: kEach, s: src + "×" + y.s, a: y.a, g: y.g})
			default:
				l.a = append(l.a, &V{k: kEach, s: src, a: []*V{y}})
			}
		}
		return l
	}
	// flags
	if x.t != nil && types.Identical(x.t.Underlying(), types.Typ[types.Bool]) && (x.init.k == kConst || x.init.k == kSym || x.init.k == kApp) {
		yes := boolOf(substAcc(b, map[string]*V{x.name: vBool(true)}))
		no := boolOf(substAcc(b, map[string]*V{x.name: vBool(false)}))
		isC := func(v *V, t bool) bool {
			return v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Bool && constant.BoolVal(v.cv) == t
		}
		switch {
		case isC(yes, true) && isC(no, false):
			return x.init
		case isC(yes, true):
			return boolOf(vOr(x.init, vNot(allOf(src, vNot(no)))))
		case isC(no, false):
			r := vAnd(x.init, allOf(src, yes))
			if r == nil {
				return vBool(true)
			}
			return r
		}
	}
	return nil
}

// allOf is the condition that c holds of every element of the source.
func allOf(src string, c *V) *V {
	var l []*V
	for _, k := range clauses(c) {
		l = append(l, vApp("all:"+src, types.Typ[types.Bool], k))
	}
	if len(l) == 0 {
		return vBool(true)
	}
	return vAnd(l...)
}

var boundRe = regexp.MustCompile(`acc (\d+):\d+\.`)

// boolOf turns a choice between booleans into a formula.
func boolOf(v *V) *V {
	if v == nil {
		return v
	}
	if v.k == kUnion {
		var l []*V
		for _, x := range v.a {
			if x.g == nil {
				return v
			}
			y := boolOf(unguarded(x))
			if y.k == kTop {
				return v
			}
			c := vAnd(x.g, y)
			if c == nil {
				c = vBool(true)
			}
			l = append(l, c)
		}
		r := vOr(l...)
		if r == nil {
			r = vBool(true)
		}
		return canonBool(r)
	}
	if v.k == kApp && (v.s == "and" || v.s == "or" || v.s == "!") {
		return canonBool(v)
	}
	return v
}

// Boolean functions of few atoms are brought into their prime implicants (Blake's canonical form).

type cube struct{ pos, neg uint }

func boolAtoms(v *V, m map[string]int, l *[]*V) {
	if v.k == kApp && (v.s == "and" || v.s == "or" || v.s == "!") {
		for _, x := range v.a {
			boolAtoms(x, m, l)
		}
		return
	}
	if v.k == kConst {
		return
	}
	if _, ok := m[v.key()]; !ok {
		m[v.key()] = len(*l)
		*l = append(*l, v)
	}
}

func evalBool(v *V, m map[string]int, x uint) bool {
	if v.k == kApp {
		switch v.s {
		case "and":
			for _, y := range v.a {
				if !evalBool(y, m, x) {
					return false
				}
			}
			return true
		case "or":
			for _, y := range v.a {
				if evalBool(y, m, x) {
					return true
				}
			}
			return false
		case "!":
			return !evalBool(v.a[0], m, x)
		}
	}
	if v.k == kConst {
		return v.cv != nil && v.cv.Kind() == constant.Bool && constant.BoolVal(v.cv)
	}
	return x>>uint(m[v.key()])&1 == 1
}

const maxAtoms = 6

// primes gives the prime implicants of v (or of its negation), nil if there are too many atoms.
func primes(v *V, neg bool) ([]cube, []*V, bool) {
	m := map[string]int{}
	var at []*V
	boolAtoms(v, m, &at)
	n := len(at)
	if n > maxAtoms {
		return nil, nil, false
	}
	sort.Slice(at, func(i, j int) bool { return at[i].key() < at[j].key() })
	for i, a := range at {
		m[a.key()] = i
	}
	val := make([]bool, 1<<n)
	for x := range val {
		val[x] = evalBool(v, m, uint(x)) != neg
	}
	var imp []cube
	full := uint(1)<<n - 1
	var gen func(i int, c cube)
	gen = func(i int, c cube) {
		if i == n {
			for x := uint(0); x <= full; x++ {
				if x&c.pos == c.pos && x&c.neg == 0 && !val[x] {
					return
				}
			}
			imp = append(imp, c)
			return
		}
		gen(i+1, c)
		gen(i+1, cube{c.pos | 1<<i, c.neg})
		gen(i+1, cube{c.pos, c.neg | 1<<i})
	}
	gen(0, cube{})
	var out []cube
	for _, c := range imp {
		prime := true
		for _, d := range imp {
			if d != c && d.pos&c.pos == d.pos && d.neg&c.neg == d.neg {
				prime = false
				break
			}
		}
		if prime {
			out = append(out, c)
		}
	}
	return out, at, true
}

var canonMemo = map[string]*V{}

func canonBool(v *V) *V {
	if v.k == kApp && (v.s == "and" || v.s == "or") && v.g == nil {
		if r := canonMemo[v.key()]; r != nil {
			return r
		}
		r := canonBool1(v)
		if len(canonMemo) > 20000 {
			canonMemo = map[string]*V{}
		}
		canonMemo[v.key()] = r
		return r
	}
	return canonBool1(v)
}

func canonBool1(v *V) *V {
	ps, at, ok := primes(v, false)
	if !ok {
		return v
	}
	var l []*V
	for _, c := range ps {
		var k []*V
		for i, a := range at {
			if c.pos>>uint(i)&1 == 1 {
				k = append(k, a)
			}
			if c.neg>>uint(i)&1 == 1 {
				k = append(k, vNot(a))
			}
		}
		if len(k) == 0 {
			return vBool(true)
		}
		l = append(l, vAnd(k...))
	}
	if len(l) == 0 {
		return vBool(false)
	}
	r := nary("or", l)
	return r
}

// clauses gives the prime implicates of a condition.
func clauses(v *V) []*V {
	if v == nil {
		return nil
	}
	ps, at, ok := primes(v, true)
	if !ok {
		if v.k == kApp && v.s == "and" {
			return v.a
		}
		return []*V{v}
	}
	var l []*V
	for _, c := range ps {
		var k []*V
		for i, a := range at {
			if c.pos>>uint(i)&1 == 1 {
				k = append(k, vNot(a))
			}
			if c.neg>>uint(i)&1 == 1 {
				k = append(k, a)
			}
		}
		if len(k) == 0 {
			return []*V{vBool(false)}
		}
		l = append(l, nary("or", k))
	}
	return l
}

// substAcc replaces symbols by values, also in the names of the sources of lists.
func substAcc(v *V, m map[string]*V) *V {
	if v == nil {
		return nil
	}
	k := v.key()
	hit := false
	for n := range m {
		if strings.Contains(k, n) {
			hit = true
			break
		}
	}
	if !hit {
		return v
	}
	if v.k == kSym {
		if x := m[v.s]; x != nil {
			if v.g != nil {
				return guarded(x, substAcc(v.g, m))
			}
			return x
		}
	}
	n := *v
	n.key_ = ""
	n.s = substName(v.s, m)
	n.g = substAcc(v.g, m)
	n.a = nil
	if v.k == kList {
		for _, x := range v.a {
			if x.k == kEach {
				if l := m[x.s]; l != nil && (l.k == kList || l.k == kNil) {
					for _, y := range l.a {
						n.a = append(n.a, mapItem(x, y, m))
					}
					continue
				}
			}
			n.a = append(n.a, substAcc(x, m))
		}
		return &n
	}
	for _, x := range v.a {
		n.a = append(n.a, substAcc(x, m))
	}
	if v.k == kEach && n.s != v.s && srcOf[n.s] == nil {
		if o := srcOf[v.s]; o != nil {
			if o2 := substAcc(o, m); o2.key() == n.s {
				srcOf[n.s] = o2
			}
		}
	}
	switch {
	case v.k == kUnion:
		return union(n.a...)
	case v.k == kApp && (v.s == "and" || v.s == "or"):
		r := nary(v.s, n.a)
		if r == nil {
			return vBool(true)
		}
		if v.g != nil {
			return guarded(r, n.g)
		}
		return r
	case v.k == kApp && v.s == "!":
		r := vNot(n.a[0])
		if v.g != nil {
			return guarded(r, n.g)
		}
		return r
	}
	return &n
}

// mapItem is the item "each l: f(elem l)" for the item y of the list that l stands for.
func mapItem(x, y *V, m map[string]*V) *V {
	inner := y
	if isItem(y) {
		inner = y.a[0]
	}
	mm := map[string]*V{}
	for k, v := range m {
		mm[k] = v
	}
	mm["elem "+x.s] = inner
	body, g := substAcc(x.a[0], mm), substAcc(x.g, mm)
	if !isItem(y) {
		if g != nil {
			return vMay(body, g)
		}
		return body
	}
	n := *y
	n.key_ = ""
	n.a = []*V{body}
	n.g = vAnd(y.g, g)
	return &n
}

func substName(s string, m map[string]*V) string {
	if s == "" {
		return s
	}
	for n, x := range m {
		if strings.Contains(s, n) {
			k := unguarded(x).key()
			if x.k == kList {
				k = listKey(x)
			}
			s = strings.ReplaceAll(s, n, k)
			if srcOf[k] == nil && (x.k == kSym || x.k == kApp) {
				srcOf[k] = x
			}
		}
	}
	return s
}

// listKey names a list that is only known by its source.
func listKey(l *V) string {
	if e := eta(l); e != l {
		return e.key()
	}
	return l.key()
}

func substState(s *state, m map[string]*V) {
	for k, v := range s.env {
		s.env[k] = substAcc(v, m)
	}
	for k, v := range s.heap {
		s.heap[k] = substAcc(v, m)
	}
	for i, e := range s.events {
		s.events[i] = substAcc(e, m)
	}
	for k, f := range s.facts {
		v := substAcc(f.v, m)
		if v == f.v {
			continue
		}
		delete(s.facts, k)
		b := f.b
		v = boolOf(v)
		if v.k == kApp && v.s == "!" {
			v, b = v.a[0], !b
		}
		if v.k != kConst {
			s.facts[v.key()] = fact{v, b}
		}
	}
}

// mine says whether a condition does not mention the symbols of the loop.
func (ac *accs) mine(v *V) bool { return true }

// allHold gives the conditions that hold of every element, from what holds after one iteration.
func (in *Interp) allHold(it *V, hold []*V) []*V {
	if len(hold) == 0 {
		return nil
	}
	if c := vAnd(hold...); c != nil {
		return clauses(c)
	}
	return nil
}

// simpler is an equivalent condition; nil is true.
func simpler(g *V) *V {
	if !keepOr || g == nil {
		return g
	}
	c := canonBool(g)
	if c.k == kConst && c.cv != nil && c.cv.Kind() == constant.Bool && constant.BoolVal(c.cv) {
		return nil
	}
	return c
}
