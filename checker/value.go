package main

// Abstract values of the shape analysis: terms over opaque inputs.  A value is a constructor (struct), an
// uninterpreted application (the result of an operation that is not looked into, or a projection of an
// opaque value), a constant, or a list of unknown length summarised as "one item per element of L".

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type kind int

const (
	kTop     kind = iota
	kSym          // opaque input
	kConst        // constant
	kStruct       // struct value, fields in a
	kApp          // uninterpreted application
	kList         // sequence (or set) of items
	kEach         // item: one a[0] per element of the source s (for which the guard g holds)
	kMay          // item: a[0] if g holds (nil: unknown condition)
	kStar         // item: a[0], any number of times
	kPtr          // pointer to loc, inside of it along path; also a slice over the array in loc
	kIdxPtr       // pointer to the element a[1] of the list a[0] (then along path)
	kClosure      // function value
	kUnion        // one of a, each under its guard g
	kNil          // nil pointer, interface, map, slice, func
	kTuple        // several results
	kIdx          // position in the source s
)

// V is an abstract value. Values are immutable.
type V struct {
	k    kind
	t    types.Type
	s    string
	a    []*V
	fn   *ssa.Function
	loc  *Loc
	path []int
	back *V // kIdxPtr: address the list was loaded from
	g    *V // guard
	cv   constant.Value
	set  bool // kList: the order and multiplicity of items do not matter
	key_ string
}

// Loc is an abstract heap cell.
type Loc struct {
	id   string
	t    types.Type
	init *V
}

func (v *V) key() string {
	if v == nil {
		return "?"
	}
	if v.key_ != "" {
		return v.key_
	}
	var b strings.Builder
	seq := func(o, sep, c string) {
		b.WriteString(o)
		for i, x := range v.a {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(x.key())
		}
		b.WriteString(c)
	}
	if v.g != nil {
		b.WriteString("[if " + v.g.key() + "] ")
	}
	switch v.k {
	case kTop:
		b.WriteString("⊤")
	case kSym:
		b.WriteString(v.s)
	case kConst:
		if v.cv != nil {
			b.WriteString(v.cv.ExactString())
		} else {
			b.WriteString("const")
		}
	case kStruct:
		seq(typeName(v.t)+"{", ", ", "}")
	case kApp:
		seq(v.s+"(", ", ", ")")
	case kList:
		if v.set {
			seq("<", ", ", ">")
		} else {
			seq("[", ", ", "]")
		}
	case kEach:
		b.WriteString("each " + v.s + ": " + v.a[0].key())
	case kMay:
		b.WriteString("may " + v.a[0].key())
	case kStar:
		b.WriteString("star " + v.a[0].key())
	case kPtr:
		fmt.Fprintf(&b, "&%s%v", v.loc.id, v.path)
	case kIdxPtr:
		fmt.Fprintf(&b, "&%s[%s]%v", v.a[0].key(), v.a[1].key(), v.path)
	case kClosure:
		b.WriteString("func " + v.fn.String())
		for _, x := range v.a {
			b.WriteString("|" + x.key())
		}
	case kUnion:
		seq("{", " ∪ ", "}")
	case kNil:
		b.WriteString("nil")
	case kTuple:
		seq("(", "; ", ")")
	case kIdx:
		b.WriteString("idx " + v.s)
	}
	v.key_ = b.String()
	spend(len(v.key_))
	return v.key_
}

// A comparison gives up when its terms grow beyond reason.
type tooLarge struct{}

var (
	spent    int
	budget   int
	deadline time.Time
	maxSeen  int
)

// stopNow is set by the watchdog when the comparison under way takes too much memory or time.
var (
	stopNow   atomic.Bool
	until     atomic.Int64 // the deadline in unix milliseconds; 0: no comparison is under way
	memoryMax = uint64(6 << 30)
)

// watch looks after the memory and the time that comparisons take.
func watch() {
	for {
		time.Sleep(100 * time.Millisecond)
		t := until.Load()
		if t == 0 {
			continue
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memoryMax || time.Now().UnixMilli() > t {
			stopNow.Store(true)
		}
	}
}

// checkStop ends a comparison the watchdog has stopped.
func checkStop() {
	if stopNow.Load() && budget != 0 {
		budget = 0
		panic(tooLarge{})
	}
}

func spend(n int) {
	if budget == 0 {
		return
	}
	spent += n + 64
	if n > maxSeen {
		maxSeen = n
		if n > 20000 && os.Getenv("REF_BIG") != "" && shorten {
			fmt.Println("BIG", n)
			debug.PrintStack()
		}
	}
	if spent > budget || stopNow.Load() || spent&0xff00 == 0 && time.Now().After(deadline) {
		budget = 0
		if os.Getenv("REF_BIG") != "" {
			debug.PrintStack()
		}
		panic(tooLarge{})
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string {
		return p.Path()[strings.LastIndex(p.Path(), "/")+1:]
	})
}

var top = &V{k: kTop}

func vSym(name string, t types.Type) *V        { return &V{k: kSym, s: name, t: t} }
func vApp(op string, t types.Type, a ...*V) *V { return &V{k: kApp, s: op, a: a, t: t} }
func vConst(c constant.Value, t types.Type) *V { return &V{k: kConst, cv: c, t: t} }
func vInt(i int) *V                            { return vConst(constant.MakeInt64(int64(i)), types.Typ[types.Int]) }
func vBool(b bool) *V                          { return vConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func vStr(s string) *V                         { return vConst(constant.MakeString(s), types.Typ[types.String]) }
func vList(items ...*V) *V                     { return &V{k: kList, a: items} }
func vSet(items ...*V) *V                      { return &V{k: kList, a: items, set: true} }
func vEach(src string, v *V) *V                { return &V{k: kEach, s: src, a: []*V{v}} }
func vNil(t types.Type) *V                     { return &V{k: kNil, t: t} }

func vMay(v *V, g *V) *V {
	switch v.k {
	case kStar:
		return v
	case kMay, kEach:
		if g == nil {
			if v.k == kEach {
				return &V{k: kStar, a: v.a, g: v.g}
			}
			return &V{k: kMay, a: v.a}
		}
		n := *v
		n.key_ = ""
		n.g = vAnd(v.g, g)
		return &n
	}
	return &V{k: kMay, a: []*V{v}, g: g}
}

func vStar(v *V) *V {
	if v.k == kStar {
		return v
	}
	if v.k == kMay || v.k == kEach {
		return &V{k: kStar, a: v.a, g: v.g}
	}
	return &V{k: kStar, a: []*V{v}}
}

// guarded marks a member of a union with the condition under which it is the value.
func guarded(v *V, g *V) *V {
	if g == nil || v == nil {
		return v
	}
	n := *v
	n.key_ = ""
	n.g = vAnd(v.g, g)
	return &n
}

func unguarded(v *V) *V {
	if v == nil || v.g == nil || isItem(v) {
		return v
	}
	n := *v
	n.key_ = ""
	n.g = nil
	return &n
}

func withType(v *V, t types.Type) *V {
	n := *v
	n.t = t
	return &n
}

func vNot(v *V) *V {
	if v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Bool {
		return vBool(!constant.BoolVal(v.cv))
	}
	if v.k == kApp && v.s == "!" {
		return v.a[0]
	}
	return vApp("!", types.Typ[types.Bool], v)
}

func nary(op string, vs []*V) *V {
	seen := map[string]bool{}
	var absorbed *V
	var l []*V
	var add func(v *V)
	add = func(v *V) {
		if v == nil {
			return
		}
		if v.k == kApp && v.s == op {
			for _, x := range v.a {
				add(x)
			}
			return
		}
		if v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Bool {
			if constant.BoolVal(v.cv) == (op == "or") {
				absorbed = v
			}
			return
		}
		if !seen[v.key()] {
			seen[v.key()] = true
			l = append(l, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
	if absorbed != nil {
		return absorbed
	}
	if len(l) == 0 && op == "or" && len(vs) > 0 {
		return vBool(false)
	}
	if len(l) == 0 {
		return nil
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].key() < l[j].key() })
	return vApp(op, types.Typ[types.Bool], l...)
}

// vAnd is the conjunction of conditions; nil is true.
func vAnd(vs ...*V) *V { return nary("and", vs) }

// vOr is the disjunction of conditions; nil (no condition) absorbs.
func vOr(vs ...*V) *V {
	for _, v := range vs {
		if v == nil {
			return nil
		}
	}
	for i, v := range vs {
		for _, w := range vs[:i] {
			if vNot(v).key() == w.key() {
				return nil
			}
		}
	}
	return nary("or", vs)
}

func elemSym(src string, et types.Type) *V { return vSym("elem "+src, et) }

// symList is a list of unknown length named src whose generic element has type et.
func symList(src string, et types.Type) *V { return vList(vEach(src, elemSym(src, et))) }

// listLen is the length of all lists that are not known, if it is not negative; 3 to 10: some have length 1, the others 2; 11 and more: length 0 to 2; more than 100: length 1 to 3.
var listLen = -1

// asList sees an opaque slice or set as a list of unknown length.
func asList(v *V, et types.Type, set bool) *V {
	l := symList(v.key(), et)
	if listLen >= 0 {
		l.a = nil
		n := listLen
		if listLen > 2 {
			n = 1 + mixedHash(v.key(), listLen)%2
			if listLen > 10 {
				n = mixedHash(v.key(), listLen) % 3
			}
			if listLen > 100 {
				n = 1 + mixedHash(v.key(), listLen)%3
			}
		}
		if v.k == kApp && v.s == "slice" && len(v.a) == 3 && v.a[1].k == kConst && v.a[2].key() == "end" {
			n = 0 // the list is shorter than that, or its slice would be known
		}
		for i := 0; i < n; i++ {
			l.a = append(l.a, elemSym(v.key()+"#"+strconv.Itoa(i), et))
		}
	}
	l.set = set
	l.t = v.t
	srcOf[v.key()] = v
	return l
}

// srcOf gives the opaque values that were seen as lists.
var srcOf = map[string]*V{}

// eta gives the opaque value whose elements the list is made of, if it is so.
func eta(l *V) *V {
	if l.k == kList && len(l.a) == 1 && l.a[0].k == kEach && l.a[0].g == nil && l.a[0].a[0].k == kSym &&
		l.a[0].a[0].s == "elem "+l.a[0].s {
		if v := srcOf[l.a[0].s]; v != nil {
			return v
		}
	}
	return l
}

func isNilV(v *V) bool { return v != nil && v.k == kNil }

// rename replaces every symbol named from by to.
func rename(v *V, from string, to *V) *V {
	if v == nil || !strings.Contains(v.key(), from) {
		return v
	}
	if v.k == kSym && v.s == from || v.k == kIdx && "idx "+v.s == from {
		return to
	}
	if len(v.a) == 0 && v.g == nil {
		return v
	}
	n := *v
	n.key_ = ""
	n.g = rename(v.g, from, to)
	n.a = make([]*V, len(v.a))
	for i, x := range v.a {
		n.a[i] = rename(x, from, to)
	}
	return &n
}

func union(vs ...*V) *V {
	var flat []*V
	seen := map[string]bool{}
	var add func(v *V)
	add = func(v *V) {
		if v == nil {
			return
		}
		if v.k == kUnion {
			for _, x := range v.a {
				add(guarded(x, v.g))
			}
			return
		}
		if !seen[v.key()] {
			seen[v.key()] = true
			flat = append(flat, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
	if len(flat) == 1 {
		return unguarded(flat[0])
	}
	for _, v := range flat {
		if v.k == kTop {
			return top
		}
	}
	if len(flat) > 60 {
		return top
	}
	sort.SliceStable(flat, func(i, j int) bool { return flat[i].key() < flat[j].key() })
	return &V{k: kUnion, a: flat, t: flat[0].t}
}

func isNamedLib(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/Lib")
}
func isListLike(t types.Type) bool { return t != nil && isNamedLib(t, "List") }
func isSetType(t types.Type) bool  { return t != nil && isNamedLib(t, "Set") }

func isItem(v *V) bool { return v.k == kEach || v.k == kMay || v.k == kStar }

// alt is a value together with the condition under which it holds, among the values that are joined.
type alt struct {
	v *V
	g *V
}

// joinAlts joins the values of several states.
func joinAlts(as []alt) *V {
	same := true
	for _, a := range as[1:] {
		if a.v != as[0].v && a.v.key() != as[0].v.key() {
			same = false
			break
		}
	}
	if same {
		return as[0].v
	}
	for _, a := range as {
		if a.v.k == kTop {
			return top
		}
	}
	// lists (nil is an empty list here)
	lists, set := 0, false
	var lt types.Type
	for _, a := range as {
		if a.v.k == kList {
			lists++
			set = set || a.v.set
			lt = a.v.t
		} else if a.v.k != kNil {
			lists = -1 << 20
		}
	}
	if lists > 0 {
		return joinLists(as, set, lt)
	}
	// structs that hold a list, or that differ in one field
	st, tu := true, true
	for _, a := range as {
		if len(a.v.a) != len(as[0].v.a) {
			st, tu = false, false
			break
		}
		if a.v.k != kStruct || !types.Identical(a.v.t, as[0].v.t) {
			st = false
		}
		if a.v.k != kTuple {
			tu = false
		}
	}
	fieldwise := func() []*V {
		fs := make([]*V, len(as[0].v.a))
		for f := range fs {
			var in []alt
			for _, a := range as {
				in = append(in, alt{a.v.a[f], a.g})
			}
			fs[f] = joinAlts(in)
		}
		return fs
	}
	if st {
		diff := 0
		for f := range as[0].v.a {
			for _, a := range as[1:] {
				if a.v.a[f].key() != as[0].v.a[f].key() {
					diff++
					break
				}
			}
		}
		if diff == 1 || isListLike(as[0].v.t) {
			return mkStruct(as[0].v.t, fieldwise())
		}
	}
	if tu {
		return &V{k: kTuple, a: fieldwise()}
	}
	var us, gs []*V
	byKey := map[string]int{}
	for _, a := range as {
		vs := []*V{a.v}
		if a.v.k == kUnion {
			vs = a.v.a
		}
		for _, v := range vs {
			u, g := unguarded(v), a.g
			if !isItem(v) {
				g = vAnd(v.g, a.g)
			}
			if i, ok := byKey[u.key()]; ok {
				gs[i] = vOr(gs[i], g)
				continue
			}
			byKey[u.key()] = len(us)
			us = append(us, u)
			gs = append(gs, g)
		}
	}
	bools := keepOr
	for i := range us {
		us[i] = guarded(us[i], simpler(gs[i]))
		bools = bools && us[i].g != nil && us[i].t != nil && us[i].t == types.Typ[types.Bool]
	}
	if bools {
		return boolOf(union(us...))
	}
	return union(us...)
}

func joinLists(as []alt, set bool, lt types.Type) *V {
	n := 1 << 30
	for _, a := range as {
		n = min(n, len(a.v.a))
	}
	pre := 0
outer:
	for pre < n {
		for _, a := range as[1:] {
			if a.v.a[pre].key() != as[0].v.a[pre].key() {
				break outer
			}
		}
		pre++
	}
	first := as[0].v.a
	items := append([]*V{}, first[:pre]...)
	// same length and kinds of items: pointwise
	pw := !set
	for _, a := range as {
		if len(a.v.a) != len(first) {
			pw = false
			break
		}
		for i := pre; i < len(a.v.a); i++ {
			x, y := a.v.a[i], first[i]
			if isItem(x) != isItem(y) || isItem(x) && (x.k != y.k || x.s != y.s || vkey(x.g) != vkey(y.g)) {
				pw = false
			}
		}
	}
	if pw {
		for i := pre; i < len(first); i++ {
			y := first[i]
			var in []alt
			for _, a := range as {
				x := a.v.a[i]
				if isItem(y) {
					x = x.a[0]
				}
				in = append(in, alt{x, a.g})
			}
			j := joinAlts(in)
			if isItem(y) {
				nv := *y
				nv.key_ = ""
				nv.a = []*V{j}
				j = &nv
			}
			items = append(items, j)
		}
		return &V{k: kList, a: items, t: lt, set: set}
	}
	seen := map[string]int{}
	count := map[string]int{}
	gs := map[string][]*V{}
	var order []string
	val := map[string]*V{}
	for _, a := range as {
		here := map[string]bool{}
		for _, x := range a.v.a[pre:] {
			k := x.key()
			if here[k] && set {
				continue
			}
			here[k] = true
			if _, ok := seen[k]; !ok {
				seen[k] = len(order)
				order = append(order, k)
				val[k] = x
			}
			count[k]++
			gs[k] = append(gs[k], a.g)
		}
	}
	for _, k := range order {
		if count[k] == len(as) {
			items = append(items, val[k])
			continue
		}
		items = append(items, vMay(val[k], simpler(vOr(gs[k]...))))
	}
	return &V{k: kList, a: items, t: lt, set: set}
}

func vkey(v *V) string {
	if v == nil {
		return ""
	}
	return v.key()
}

// join joins two values without knowing under which conditions they hold.
func join(a, b *V) *V {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return joinAlts([]alt{{a, nil}, {b, nil}})
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// mkStruct builds a struct value; a struct made of all the fields of one opaque value is that value.
func mkStruct(t types.Type, fs []*V) *V {
	s := structOf(t)
	if s != nil && len(fs) > 0 && len(fs) == s.NumFields() {
		var base *V
		ok := true
		for i, f := range fs {
			f = eta(f)
			if f.k != kApp || f.s != "."+s.Field(i).Name() || len(f.a) != 1 || f.g != nil ||
				base != nil && base.key() != f.a[0].key() {
				ok = false
				break
			}
			base = f.a[0]
		}
		if ok && base.t != nil && types.Identical(base.t, t) {
			return base
		}
	}
	return &V{k: kStruct, t: t, a: fs}
}
