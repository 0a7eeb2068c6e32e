package main

// Comparison with a reference: some functions are specified by a short reference implementation (ref/*.ref, in
// Go, added to the analysed package as an overlay that is never part of /repo).  Both are interpreted by the
// shape analysis on the same opaque inputs, and their results and effects are compared as values, under every
// combination of conditions that is not contradictory.  How the code is written does not matter, only the
// results, writes, messages and calls it amounts to.

import (
	"embed"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

//go:embed ref
var refFS embed.FS

// refOverlay gives the reference files of a property ("all": of every property), by path in the source tree.
// The first line of each names the directory: //ref: Search
func refOverlay(src, prop string) map[string][]byte {
	out := map[string][]byte{}
	if prop == "P01" || prop == "all" {
		if t := loadGrammars(src).overlay(); t != "" {
			out[filepath.Join(src, "Parser", "zz_ref_P01_grammar.go")] = []byte(t)
		}
	}
	es, _ := refFS.ReadDir("ref")
	for _, e := range es {
		if prop != "all" && !strings.HasPrefix(e.Name(), prop+"_") && e.Name() != "std.ref" || !strings.HasSuffix(e.Name(), ".ref") {
			continue
		}
		b, err := refFS.ReadFile("ref/" + e.Name())
		if err != nil {
			continue
		}
		l, _, _ := strings.Cut(string(b), "\n")
		dir := strings.TrimSpace(strings.TrimPrefix(l, "//ref:"))
		out[filepath.Join(src, dir, "zz_ref_"+strings.TrimSuffix(e.Name(), ".ref")+".go")] = b
	}
	return out
}

func isRefFile(f string) bool { return strings.HasPrefix(filepath.Base(f), "zz_ref_") }

// same configures a comparison.
type same struct {
	opaque   []string // functions left uninterpreted (prefix*)
	effects  []string // functions left uninterpreted, whose calls are compared
	hook     hookFn
	invoke   func(in *Interp, c *callCtx, recv *V, m *types.Func) ([]retCase, bool)
	global   map[string]bool
	ordered  bool                 // the order of the effects matters
	args     func(args []*V) []*V // change the arguments
	noHeap   bool                 // writes are not compared
	ignore   func(id string, v *V) bool
	ignoreEv func(e *V) bool
	nz       *normal
	result   func(v *V) *V
	field    string // only this result index matters, if set ("0", "1"...)
	maxPart  int
	inline   map[string]bool // functions looked into even so
	loud     []string        // functions that print, whose calls are compared
	muts     []string        // functions left uninterpreted, which change what their pointer arguments point to
}

// matchKey: a name of the list is k, or a prefix of k with a star; a name after a minus excludes it.
func matchKey(l []string, k string) bool {
	for _, o := range l {
		if o == "-"+k {
			return false
		}
	}
	for _, o := range l {
		if o != "" && (k == o || strings.HasSuffix(o, "*") && strings.HasPrefix(k, strings.TrimSuffix(o, "*"))) {
			return true
		}
	}
	return false
}

// quiet are the functions whose only effect is to print debugging information.
func quietFn(k string, fn *ssa.Function) bool {
	return strings.HasPrefix(k, "Glob.Print") || k == "Search.WriteExchanges" || k == "(Search.State).Print" ||
		strings.HasPrefix(k, "(*sync.Mutex)") || strings.HasPrefix(k, "(*sync.RWMutex)") || fn.Name() == "debug" ||
		fn.Name() == "Print" && fn.Signature.Results().Len() == 0
}

func (c *Ctx) sameInterp(s *same) *Interp {
	in := newInterp(c.p)
	in.voids = true
	in.snap = true
	in.maxPart = s.maxPart
	in.opaque = func(fn *ssa.Function) bool {
		k := c.p.key(origin(fn))
		if matchKey(s.opaque, k) && !s.inline[k] {
			in.skipped[k] = true
			return true
		}
		return fn.Name() == "ToString" || isMaker(c.p, fn)
	}
	in.event = func(fn *ssa.Function) bool {
		k := c.p.key(origin(fn))
		if (matchKey(s.effects, k) || matchKey(s.loud, k)) && !s.inline[k] {
			in.skipped[k] = true
			return true
		}
		return false
	}
	in.hook = hooks(func(in *Interp, cc *callCtx) ([]retCase, bool) {
		if cc.fn != nil && matchKey(s.loud, c.p.key(origin(cc.fn))) {
			return nil, false
		}
		if cc.fn != nil && cc.fn.Name() == "Equals" && len(cc.args) == 2 && in.opaque(cc.fn) {
			// what the function does is for its own reference to say; it is reflexive
			if a, b := in.frz(cc.st, cc.args[0]), in.frz(cc.st, cc.args[1]); a.key() == b.key() && !strings.Contains(a.key(), "⊤") {
				return []retCase{{vBool(true), cc.st}}, true
			}
		}
		if r, ok := s.mutate(in, cc); ok {
			return r, ok
		}
		return quietHook(in, cc)
	}, s.hookOr())
	in.invoke = s.invoke
	if s.global != nil {
		in.withGlobals(s.global)
	}
	return in
}

// mutate models a call that changes what its pointer arguments point to: it holds an unknown function of all arguments.
func (s *same) mutate(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil || len(s.muts) == 0 {
		return nil, false
	}
	k := in.p.key(origin(cc.fn))
	if !matchKey(s.muts, k) || s.inline[k] {
		return nil, false
	}
	in.skipped[k] = true
	vals := in.frzAll(cc.st, cc.args)
	var ptrs []int
	for i, a := range cc.args {
		pt, ok := cc.fn.Params[i].Type().Underlying().(*types.Pointer)
		if !ok || a.k == kNil {
			continue
		}
		if a.k != kPtr && a.k != kIdxPtr && a.k != kSym && a.k != kApp {
			return nil, false
		}
		v := in.deref(cc.st, a)
		if v == nil || v == top {
			return nil, false
		}
		_ = pt
		vals[i] = in.frz(cc.st, v)
		ptrs = append(ptrs, i)
	}
	for i, v := range vals {
		if hasLocalPtr(v, map[*V]bool{}) {
			vals[i] = in.deep(cc.st, v, 0)
		}
	}
	for _, i := range ptrs {
		t := cc.fn.Params[i].Type().Underlying().(*types.Pointer).Elem()
		in.store(cc.st, cc.args[i], coerce(vApp(fmt.Sprintf("%s!%d", k, i), t, vals...)))
	}
	return []retCase{{appResult(k, cc.res, vals), cc.st}}, true
}

// hasLocalPtr says whether v holds the address of a variable that only has a name in the function analysed.
func hasLocalPtr(v *V, seen map[*V]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v.k == kPtr {
		return !strings.HasPrefix(v.loc.id, "*") && !strings.HasPrefix(v.loc.id, "glob ") && !strings.HasPrefix(v.loc.id, "arr ")
	}
	for _, x := range v.a {
		if hasLocalPtr(x, seen) {
			return true
		}
	}
	return false
}

func quietHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn != nil && quietFn(in.p.key(cc.fn), cc.fn) {
		if cc.fn.Signature.Results().Len() == 0 {
			return []retCase{{&V{k: kTuple}, cc.st}}, true
		}
	}
	return nil, false
}

func (s *same) hookOr() hookFn {
	if s.hook != nil {
		return s.hook
	}
	return func(*Interp, *callCtx) ([]retCase, bool) { return nil, false }
}

// observation is what a path amounts to.
type observation struct {
	v  *V
	st *state
}

var accRe = regexp.MustCompile(`acc [^,(){}\[\]; ]*[^,(){}\[\]; :]`)

// deep replaces addresses and function values by what they stand for.
func (in *Interp) deep(st *state, v *V, depth int) *V {
	if v == nil || depth > 12 {
		return v
	}
	checkStop()
	switch v.k {
	case kPtr:
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				return in.deep(st, in.slice(st, v), depth+1)
			}
		}
		if strings.HasPrefix(v.loc.id, "*") || strings.HasPrefix(v.loc.id, "glob ") || strings.HasPrefix(v.loc.id, "arr ") {
			return vSym("&"+v.loc.id+fmt.Sprint(v.path), v.t)
		}
		me := v.loc.id + fmt.Sprint(v.path)
		for i := len(in.deepIn) - 1; i >= 0; i-- {
			if in.deepIn[i] == me {
				return vSym(fmt.Sprintf("&↑%d", len(in.deepIn)-i), v.t)
			}
		}
		in.deepIn = append(in.deepIn, me)
		defer func() { in.deepIn = in.deepIn[:len(in.deepIn)-1] }()
		return vApp("&", v.t, in.deep(st, at(in.cell(st, v.loc), v.path), depth+1))
	case kClosure:
		if v.fn.Parent() == nil {
			return vSym("func "+in.p.key(v.fn), v.t)
		}
		if in.lambda > 3 {
			return vSym("func", nil)
		}
		in.lambda++
		defer func() { in.lambda-- }()
		var args []*V
		for i, pa := range v.fn.Params {
			args = append(args, symParam(fmt.Sprintf("λ%d.%d", in.lambda, i), pa.Type()))
		}
		base := st.clone()
		base.events = nil
		base.facts = map[string]fact{}
		var ks []string
		saved := in.aborts
		in.aborts = nil
		for _, r := range in.call(v.fn, args, v.a, base, "λ", nil) {
			k := in.deep(r.st, in.frz(r.st, r.v), depth+1).key()
			for _, e := range r.st.events {
				k += " ev " + in.deep(r.st, e, depth+1).key()
			}
			ks = append(ks, k+" if "+factStr(r.st))
		}
		for _, a := range in.aborts {
			ks = append(ks, "stop if "+factStr(a))
		}
		in.aborts = saved
		sort.Strings(ks)
		return vSym("λ{"+strings.Join(ks, " | ")+"}", v.t)
	case kStruct, kList, kTuple, kUnion, kEach, kMay, kStar, kApp, kIdxPtr:
		n := *v
		n.key_ = ""
		n.g = in.deep(st, v.g, depth)
		n.a = make([]*V, len(v.a))
		for i, x := range v.a {
			n.a[i] = in.deep(st, x, depth)
		}
		if v.k == kUnion {
			return union(n.a...)
		}
		return &n
	}
	return v
}

// canonAcc names the accumulators of folds by their position.
func canonAcc(k string) string {
	names := map[string]string{}
	return accRe.ReplaceAllStringFunc(k, func(s string) string {
		if names[s] == "" {
			names[s] = "acc#" + strconv.Itoa(len(names))
		}
		return names[s]
	})
}

func (s *same) observe(c *Ctx, in *Interp, z normal, r retCase) observation {
	v := in.frz(r.st, r.v)
	if s.result != nil {
		v = s.result(v)
	}
	o := &V{k: kTuple, a: []*V{z.nz(in.deep(r.st, v, 0))}}
	var evs []*V
	for _, e := range r.st.events {
		if e.k == kApp && e.s == "M:Print" || s.ignoreEv != nil && s.ignoreEv(e) {
			continue
		}
		evs = append(evs, z.nz(in.deep(r.st, in.frz(r.st, e), 0)))
	}
	if !s.ordered {
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].key() < evs[j].key() })
	}
	o.a = append(o.a, vList(evs...))
	if !s.noHeap {
		var ws []*V
		for l, v := range r.st.heap {
			if l.init == nil && !strings.HasPrefix(l.id, "arr ") {
				continue
			}
			if strings.HasPrefix(l.id, "arr new ") || strings.HasPrefix(l.id, "glob AST.cpt") && !countersSeen {
				continue
			}
			w := in.frz(r.st, v)
			if l.init != nil && sameV(in.frz(nil, l.init), w) {
				continue
			}
			w = z.nz(in.deep(r.st, w, 0))
			if l.init != nil && z.nz(in.frz(nil, l.init)).key() == w.key() {
				continue
			}
			if strings.HasPrefix(l.id, "arr ") && w.key() == strings.TrimPrefix(l.id, "arr ") {
				continue
			}
			if s.ignore != nil && s.ignore(l.id, w) {
				continue
			}
			ws = append(ws, vApp(l.id+" :=", nil, w))
		}
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].key() < ws[j].key() })
		o.a = append(o.a, vList(ws...))
	}
	return observation{stripAs(o), in.stripFacts(r.st)}
}

// stripAs forgets conversions to the dynamic type of a value.
func stripAs(v *V) *V {
	if v == nil || !strings.Contains(v.key(), "as:") {
		return v
	}
	if v.k == kApp && strings.HasPrefix(v.s, "as:") && len(v.a) == 1 {
		x := stripAs(v.a[0])
		if v.g != nil {
			x = guarded(x, stripAs(v.g))
		}
		return x
	}
	n := *v
	n.key_ = ""
	if v.k == kEach || v.k == kSym || v.k == kIdx || v.k == kApp && strings.HasPrefix(v.s, "all:") {
		n.s = stripAsName(v.s)
	}
	n.g = stripAs(v.g)
	n.a = make([]*V, len(v.a))
	for i, x := range v.a {
		n.a[i] = stripAs(x)
	}
	if v.k == kUnion {
		return union(n.a...)
	}
	return &n
}

// stripAsName does the same in the name of a source.
func stripAsName(s string) string {
	for {
		i := strings.Index(s, "as:")
		if i < 0 {
			return s
		}
		j := strings.Index(s[i:], "(")
		if j < 0 {
			return s
		}
		depth, k := 0, i+j
		for ; k < len(s); k++ {
			if s[k] == '(' {
				depth++
			}
			if s[k] == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if k >= len(s) {
			return s
		}
		s = s[:i] + s[i+j+1:k] + s[k+1:]
	}
}

// closures replaces function values by what they do.
func (in *Interp) closures(st *state, v *V) *V {
	if v == nil || !strings.Contains(v.key(), "func ") {
		return v
	}
	if v.k == kClosure {
		return in.deep(st, v, 0)
	}
	n := *v
	n.key_ = ""
	n.g = in.closures(st, v.g)
	n.a = make([]*V, len(v.a))
	for i, x := range v.a {
		n.a[i] = in.closures(st, x)
	}
	return &n
}

func (in *Interp) stripFacts(st *state) *state {
	n := newState()
	for _, f := range st.facts {
		v := stripAs(in.closures(st, f.v))
		n.facts[v.key()] = fact{v, f.b}
	}
	return n
}

// sameAs compares fn with the reference ref.
func (c *Ctx) sameAs(rule, key, ref string, s same) {
	if o := os.Getenv("REF_ONLY"); o != "" && !strings.Contains(key, o) {
		return
	}
	fn, rf := c.p.fn(key), c.p.fn(ref)
	usedRefs[ref] = true
	if rf == nil || rf.Blocks == nil {
		c.add(rule, key, "", true, "not decided: the reference %s does not fit the current declarations", ref)
		return
	}
	if fn == nil || fn.Blocks == nil {
		c.add(rule, key, "", true, "not decided: the function no longer exists, its callers are compared with references of their own")
		return
	}
	s.opaque = append(append([]string{}, s.opaque...), key)
	loopsUnknown = false
	d, note, skipped, exact := c.compareOnce(key, fn, rf, s)
	missing := map[string]bool{}
	for k, one := range skipped {
		if one {
			missing[k] = true
		}
	}
	if d != "" && len(missing) > 0 {
		// The function does itself what the reference leaves to others: look into these.
		s.inline = missing
		if d2, n2, _, exact := c.compareOnce(key, fn, rf, s); d2 == "" && exact {
			d, note = "", n2
		}
	}
	if d != "" && s.inline == nil {
		var l []string
		for k := range skipped {
			if !matchKey(s.effects, k) {
				l = append(l, k)
			}
		}
		sort.Strings(l)
		t0 := time.Now()
		for _, k := range l {
			if time.Since(t0) > 40*time.Second {
				break
			}
			s.inline = map[string]bool{k: true}
			if d2, n2, _, exact := c.compareOnce(key, fn, rf, s); d2 == "" && exact {
				if os.Getenv("REF_DEBUG") != "" {
					fmt.Println("RETRY accepted", key, k, d)
				}
				d, note = "", n2
				break
			}
		}
	}
	if d == "" && (loopsUnknown || !exact && note != "") {
		d = c.compareRounds(key, fn, rf, s)
	}
	if d != "" {
		c.bad(rule, key, c.p.fpos(fn), "%s", d)
		return
	}
	c.add(rule, key, c.p.fpos(fn), true, "%s", note)
}

// loopsUnknown: a loop of unknown length was met in the last comparison.
var loopsUnknown bool

// thorough: larger bounds.
var thorough bool

// compareRounds compares the runs that need only a few rounds of the loops of unknown length, and the runs in which all
// lists that are not known have a given length.
func (c *Ctx) compareRounds(key string, fn, rf *ssa.Function, s same) string {
	defer func() { roundsMax, listLen = 0, -1 }()
	t0 := time.Now()
	worlds := [][2]int{{2, -1}, {1, -1}, {3, 1}, {4, 2}, {4, 3}, {4, 4}, {4, 5}, {4, 6}, {4, 7}, {4, 8}, {4, 9}, {4, 10}, {4, 11}, {4, 12}, {4, 13}}
	limit := 30 * time.Second
	if thorough {
		limit *= 5
		for i := 14; i < 30; i++ {
			worlds = append(worlds, [2]int{4, i})
		}
		for i := 101; i < 113; i++ {
			worlds = append(worlds, [2]int{5, i})
		}
	}
	for _, m := range worlds {
		if m[0] == 1 && m[1] < 0 && listLen == -2 || time.Since(t0) > limit {
			continue
		}
		roundsMax, listLen = m[0], m[1]
		s.inline = nil
		d, note, skipped, exact := c.compareAs(key, fn, rf, s)
		if d != "" {
			s.inline = map[string]bool{}
			for k, one := range skipped {
				if one {
					s.inline[k] = true
				}
			}
			if len(s.inline) > 0 {
				d, note, _, _ = c.compareAs(key, fn, rf, s)
			}
		}
		if os.Getenv("REF_DEBUG") != "" {
			fmt.Println("ROUNDS", m, key, clip(d, 200), note, exact)
		}
		if d != "" {
			return d
		}
		if m[1] < 0 && note == "" {
			listLen = -2
		}
	}
	return ""
}

// zeroAbsent: what a map holds for keys it does not have.
func zeroAbsent(v *V, absent map[string]bool) *V {
	if v == nil || len(v.a) == 0 || !strings.Contains(v.key(), "map(") {
		return v
	}
	if v.k == kApp && v.s == "map" && len(v.a) == 2 && v.t != nil && absent[v.a[0].key()+" "+v.a[1].key()] {
		return zero(v.t)
	}
	n := *v
	n.key_ = ""
	n.a = make([]*V, len(v.a))
	ch := false
	for i, x := range v.a {
		n.a[i] = zeroAbsent(x, absent)
		ch = ch || n.a[i] != x
	}
	if !ch {
		return v
	}
	if n.k == kApp && n.s == "+" {
		l := newLin()
		l.add(&n, 1)
		return l.value(v.t)
	}
	return &n
}

// countersSeen: the counters of AST are compared like other variables.
var countersSeen bool

var sourceRx = regexp.MustCompile(`\[each [^:]*:`)

// sources are the lists that are gone through as a whole.
func sources(v *V) string {
	m := map[string]bool{}
	for _, x := range sourceRx.FindAllString(v.key(), -1) {
		m[x] = true
	}
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// overlap finds a common case in which two sets of paths amount to something different; the sets may lack paths.
func (c *Ctx) overlap(got, want []observation) (diff string, exact bool) {
	exact = true
	k := newInterp(c.p)
	odd := oddConditions(got, want)
	quantified := func(o observation) bool {
		for k := range o.st.facts {
			if strings.Contains(k, "before:") || strings.Contains(k, "idx ") {
				return true
			}
		}
		return false
	}
	for _, g := range got {
		for _, w := range want {
			if quantified(g) != quantified(w) {
				exact = false // the element one of them is about may or may not be the one the other is about
				continue
			}
			if listLen < 0 && sources(g.v) != sources(w.v) {
				exact = false // one goes through a list as a whole, the other through its first elements
				continue
			}
			st, ok := k.both(g.st, w.st)
			if !ok {
				continue
			}
			o := false
			for key := range odd {
				_, has := st.facts[key]
				o = o || has
			}
			if d := k.compare(g.v, w.v, st, o); d != "" {
				return d, true
			}
			exact = exact && !k.vague
		}
	}
	return "", exact
}

// compareOnce gives a difference, a remark, the functions the reference calls that are not looked into (and whether only
// the reference calls them), and whether all was compared exactly.
func (c *Ctx) compareOnce(key string, fn, rf *ssa.Function, s same) (diff, note string, skipped map[string]bool, exact bool) {
	diff, note, skipped, exact = c.compareAs(key, fn, rf, s)
	if note == tooMany {
		shorten, fullOf = true, map[string]*V{}
		defer func() { shorten, fullOf = false, nil }()
		diff, note, skipped, exact = c.compareAs(key, fn, rf, s)
	}
	return
}

const tooMany = "not decided: the cases of the function are too many"

func (c *Ctx) compareAs(key string, fn, rf *ssa.Function, s same) (diff, note string, skipped map[string]bool, exact bool) {
	z := astNZ(c.p)
	zd := z.drop
	z.drop = func(st types.Type, f *types.Var) bool {
		return zd(st, f) || typeIs(st, "AST", "quantifier") && f.Name() == "symbol"
	}
	if s.nz != nil {
		z = *s.nz
	}
	run := func(f *ssa.Function) ([]observation, *Interp) {
		in := c.sameInterp(&s)
		var args []*V
		for i, pa := range rf.Params {
			if i < len(f.Params) {
				args = append(args, symParam("p"+strconv.Itoa(i), f.Params[i].Type()))
			} else {
				args = append(args, symParam("p"+strconv.Itoa(i), pa.Type()))
			}
		}
		if s.args != nil {
			args = s.args(args)
		}
		var obs []observation
		for _, r := range in.call(f, args, nil, newState(), "", nil) {
			obs = append(obs, s.observe(c, in, z, r))
		}
		c.absorb(in)
		return obs, in
	}
	stops := func(obs []observation, in *Interp) []observation {
		for _, a := range in.aborts {
			obs = append(obs, observation{&V{k: kTuple, a: []*V{vApp("the program stops with an error", nil), vList(), vList()}}, in.stripFacts(a)})
		}
		return obs
	}
	keepOr = true
	spent, budget, deadline = 0, 600<<20, time.Now().Add(60*time.Second)
	if thorough {
		budget, deadline = 2<<30, time.Now().Add(150*time.Second)
	}
	if roundsMax > 0 {
		budget, deadline = 300<<20, time.Now().Add(20*time.Second)
	}
	stopNow.Store(false)
	until.Store(deadline.UnixMilli())
	defer func() {
		keepOr = false
		budget = 0
		until.Store(0)
		if stopNow.Load() {
			runtime.GC()
			stopNow.Store(false)
		}
		if r := recover(); r != nil {
			diff, skipped = "", nil
			note = tooMany
			if _, ok := r.(tooLarge); !ok {
				if os.Getenv("REF_DEBUG") != "" {
					panic(r)
				}
				note = fmt.Sprintf("not decided: the analysis fails: %v", r)
			}
		}
	}()
	got, gi := run(fn)
	want, wi := run(rf)
	for _, in := range []*Interp{gi, wi} {
		for n := range in.notes {
			if strings.Contains(n, "budget exceeded") {
				return "", "not decided: the analysis of the function takes too many steps", nil, false
			}
		}
	}
	if gi.loopAborts || wi.loopAborts {
		loopsUnknown = true
	} else {
		got, want = stops(got, gi), stops(want, wi)
	}
	got, want = possible(gi, got), possible(wi, want)
	c.saw(fn)
	delete(c.funcs, c.p.key(rf))
	if os.Getenv("REF_DEBUG") != "" {
		for _, o := range want {
			fmt.Println("REF", key, canonAcc(o.v.key()), "\n    IF", factStr(o.st))
		}
		if os.Getenv("REF_DEBUG") == "2" {
			for _, o := range got {
				fmt.Println("GOT", key, canonAcc(o.v.key()), "\n    IF", factStr(o.st))
			}
		}
		for _, n := range append(sortedNotes(gi), sortedNotes(wi)...) {
			fmt.Println("NOTE", key, n)
		}
	}
	skipped = map[string]bool{}
	for k := range wi.skipped {
		if f := c.p.fn(k); k != key && f != nil && f.Blocks != nil {
			skipped[k] = !gi.skipped[k]
		}
	}
	for k := range gi.skipped {
		if f := c.p.fn(k); k != key && f != nil && f.Blocks != nil && !wi.skipped[k] {
			skipped[k] = true
		}
	}
	if len(got) == 0 && len(want) > 0 && roundsMax == 0 {
		return "the function never returns", "", skipped, true
	}
	if roundsMax > 0 {
		d, exact := c.overlap(got, want)
		if d != "" {
			for _, o := range [][]observation{want, got} {
				if x, _ := c.overlap(o, o); x != "" {
					d, exact = "", false
				}
			}
		}
		return d, "", skipped, exact
	}
	if shorten {
		if d, n, done := c.shortDifference(got, want); done {
			return d, n, skipped, n == ""
		}
	}
	diff, exact = c.difference(got, want)
	if diff != "" {
		// Cases that were merged overlap: nothing can be concluded from them.
		for _, o := range [][]observation{want, got} {
			if d, _ := c.difference(o, o); d != "" {
				if os.Getenv("REF_DEBUG") != "" {
					fmt.Println("OVERLAP", d)
				}
				return "", "not decided: the cases of the function are not kept apart", nil, false
			}
		}
	}
	for _, o := range want {
		if strings.Contains(o.v.key(), "⊤") {
			note, exact = "partly: some values are not tracked", false
		}
	}
	return diff, note, skipped, exact
}

// ofLast: a condition on all elements of a source concerns the elements of the innermost of its loops.
func ofLast(v *V) bool {
	src := strings.TrimPrefix(v.s, "all:")
	l := strings.Split(src, "×")
	return len(l) == 1 || strings.Contains(v.a[0].key(), "elem "+l[len(l)-1])
}

// possible drops the cases whose conditions contradict each other.
func possible(in *Interp, l []observation) []observation {
	var out []observation
	for _, o := range l {
		budget := 40
		if in.consistent(o.st, &budget) >= 0 {
			out = append(out, o)
		}
	}
	return out
}

// difference finds a common case in which the two sets of paths amount to something different.
func (c *Ctx) difference(got, want []observation) (diff string, exact bool) {
	k := newInterp(c.p)
	exact = true
	odd := oddConditions(got, want)
	isOdd := func(st *state) bool {
		for key := range odd {
			if _, ok := st.facts[key]; ok {
				return true
			}
		}
		return false
	}
	for _, g := range got {
		found := isOdd(g.st)
		for _, w := range want {
			st, ok := k.both(g.st, w.st)
			if !ok {
				continue
			}
			found = true
			d := k.compare(g.v, w.v, st, isOdd(st))
			exact = exact && !k.vague
			if d != "" {
				return d, true
			}
		}
		if !found {
			return "there is no such case in the specification: " + clip(canonAcc(g.v.key()), 1500) + "\n    when " + when(g.st), true
		}
	}
	for _, w := range want {
		found := isOdd(w.st)
		for _, g := range got {
			if found {
				break
			}
			if _, ok := k.both(g.st, w.st); ok {
				found = true
			}
		}
		if !found {
			return "the case is not handled: " + when(w.st) + "\n    expected " + clip(canonAcc(w.v.key()), 1500), true
		}
	}
	return "", exact && len(odd) == 0
}

// oddConditions gives the conditions on results of loops that only one of the two functions has.
func oddConditions(got, want []observation) map[string]bool {
	keys := func(os []observation) map[string][]string {
		m := map[string][]string{}
		for _, o := range os {
			for k := range o.st.facts {
				if strings.Contains(k, "fold:") || strings.Contains(k, "pre:") || strings.Contains(k, "iter:") || strings.Contains(k, "acc ") || strings.Contains(k, "star ") || strings.Contains(k, "⊤") {
					c := canonAcc(k)
					m[c] = append(m[c], k)
				}
			}
		}
		return m
	}
	g, w := keys(got), keys(want)
	odd := map[string]bool{}
	for k, l := range g {
		if w[k] == nil {
			for _, x := range l {
				odd[x] = true
			}
		}
	}
	for k, l := range w {
		if g[k] == nil {
			for _, x := range l {
				odd[x] = true
			}
		}
	}
	return odd
}

// compare compares what two paths amount to in their common case; odd says that the conditions of the two
// paths are not comparable as they are.
func (in *Interp) compare(a, b *V, st *state, odd bool) string {
	absent := map[string]bool{}
	for _, f := range st.facts {
		if f.v.k == kApp && f.v.s == "in" && len(f.v.a) == 2 && !f.b {
			absent[f.v.a[0].key()+" "+f.v.a[1].key()] = true
		}
	}
	if len(absent) > 0 {
		a, b = zeroAbsent(a, absent), zeroAbsent(b, absent)
	}
	if canonAcc(a.key()) == canonAcc(b.key()) {
		return ""
	}
	in.vague = false
	d := ""
	if !odd {
		d = in.differ(a, b, st, 0)
		if d == "" && !in.vague {
			return ""
		}
	}
	if os.Getenv("REF_DEBUG") == "2" {
		fmt.Println("COMPARE odd", odd, "vague", in.vague, "plain", clip(d, 300))
	}
	if noExact {
		return d
	}
	loopy := odd
	for _, v := range []*V{a, b} {
		if k := v.key(); strings.Contains(k, "iter:") {
			in.vague = true
			return ""
		} else if strings.Contains(k, "star ") || strings.Contains(k, "⊤") {
			return d
		} else if strings.Contains(k, "each ") || strings.Contains(k, "fold:") || strings.Contains(k, "all:") || strings.Contains(k, "pre:") {
			loopy = true
		}
	}
	for k := range st.facts {
		if strings.Contains(k, "iter:") {
			in.vague = true
			return ""
		}
		if odd && (strings.Contains(k, "star ") || strings.Contains(k, "⊤")) {
			return d
		}
	}
	if !loopy {
		return d
	}
	in.bounded = true
	vague, tried := false, false
	defer func() { in.bounded = false; in.vague = in.vague || vague || !tried }()
	for _, c := range [][2]int{{1, 0}, {2, 0}, {2, 1}, {-1, 0}, {-2, 0}, {-3, 0}, {-4, 0}, {-5, 0}, {-6, 0}, {-7, 0}, {-8, 0}, {-9, 0}, {-10, 0}, {-11, 0}, {-12, 0}} {
		q, ok := in.expandPair(pair{a, b, st}, c[0], c[1])
		if os.Getenv("REF_DEBUG") == "2" && q == nil {
			fmt.Println("NOT EXPANDED", c, ok)
		}
		if !ok {
			continue
		}
		if q == nil {
			return d
		}
		if _, ok := in.both(q.st, q.st); !ok {
			continue
		}
		tried = true
		in.vague = false
		dd := in.differ(q.a, q.b, q.st, 0)
		vague = vague || in.vague
		if os.Getenv("REF_DEBUG") == "2" {
			fmt.Println("EXPANDED", c, "vague", in.vague, "different", clip(dd, 300), "\n   A", clip(q.a.key(), 6000), "\n   B", clip(q.b.key(), 6000), "\n   IF", factStr(q.st))
		}
		if dd != "" {
			if d != "" {
				return d
			}
			return dd
		}
	}
	return ""
}

// sameLoops: loops of unknown length can only be compared with loops of the same form.
func sameLoops(a, b *V) bool {
	count := func(v *V) string {
		var l []string
		for _, x := range find(v, func(x *V) bool { return x.k == kApp && strings.HasPrefix(x.s, "iter:") }) {
			l = append(l, strconv.Itoa(len(x.a)))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return count(a) == count(b)
}

// when describes a case.
func when(st *state) string {
	var out []string
	for _, k := range factKeys(st) {
		out = append(out, clip(k, 240))
	}
	return clip(strings.Join(out, "; "), 2400)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// both is the conjunction of what two paths assume; false if they exclude one another.
func (in *Interp) both(a, b *state) (*state, bool) {
	n := newState()
	for k, f := range a.facts {
		n.facts[k] = f
	}
	for _, f := range b.facts {
		if t := in.eval(n, f.v); t != nil && *t != f.b {
			return nil, false
		}
	}
	for k, f := range b.facts {
		n.facts[k] = f
	}
	m := newState()
	for k, f := range b.facts {
		m.facts[k] = f
	}
	for _, f := range a.facts {
		if t := in.eval(m, f.v); t != nil && *t != f.b {
			return nil, false
		}
	}
	budget := 60
	if in.consistent(n, &budget) < 0 {
		return nil, false
	}
	return n, true
}

// consistent decides whether the conditions assumed in a state can hold together: 1 yes, -1 no, 0 unknown.
func (in *Interp) consistent(st *state, budget *int) int {
	*budget--
	if *budget < 0 {
		return 0
	}
	if in.empty(st) {
		return -1
	}
	// what holds of all elements holds of the one at hand
	for _, f := range st.facts {
		if f.b && f.v.k == kApp && strings.HasPrefix(f.v.s, "all:") && len(f.v.a) == 1 && ofLast(f.v) {
			if t := in.eval(st, f.v.a[0]); t != nil && !*t {
				return -1
			}
		}
	}
	var open *V
	for key, f := range st.facts {
		if f.v.k != kApp || f.v.s != "and" && f.v.s != "or" {
			continue
		}
		delete(st.facts, key)
		t := in.eval(st, f.v)
		var a *V
		if t == nil {
			a = in.atom(st, f.v)
		}
		st.facts[key] = f
		if t != nil && *t != f.b {
			return -1
		}
		if a != nil && (open == nil || a.key() < open.key()) {
			open = a
		}
	}
	if open == nil {
		return 1
	}
	res := -1
	for _, t := range []bool{true, false} {
		s := newState()
		for k, f := range st.facts {
			s.facts[k] = f
		}
		s.facts[open.key()] = fact{open, t}
		r := in.consistent(s, budget)
		if r > 0 {
			return 1
		}
		if r == 0 {
			res = 0
		}
	}
	return res
}

// eval decides a condition from the facts of a state.
func (in *Interp) eval(st *state, v *V) *bool {
	if t := in.truth(st, v); t != nil {
		return t
	}
	if v == nil || v.k != kApp {
		return nil
	}
	yes, no := true, false
	switch v.s {
	case "!":
		if t := in.eval(st, v.a[0]); t != nil {
			n := !*t
			return &n
		}
	case "and", "or":
		unit := v.s == "and"
		all := true
		for _, x := range v.a {
			t := in.eval(st, x)
			if t == nil {
				all = false
				continue
			}
			if *t != unit {
				if unit {
					return &no
				}
				return &yes
			}
		}
		if all {
			if unit {
				return &yes
			}
			return &no
		}
	case "==":
		// the same value compared with another constant
		for i := 0; i < 2; i++ {
			if isNilV(v.a[i]) || v.a[i].k == kConst {
				for _, f := range st.facts {
					if f.b && f.v.k == kApp && strings.HasPrefix(f.v.s, "is:") && isNilV(v.a[i]) && f.v.a[0].key() == v.a[1-i].key() {
						return &no
					}
				}
			}
		}
	}
	if strings.HasPrefix(v.s, "all:") && len(v.a) == 1 && ofLast(v) {
		// it does not hold of the element at hand
		if t := in.eval(st, v.a[0]); t != nil && !*t {
			return &no
		}
	}
	if strings.HasPrefix(v.s, "is:") {
		for _, f := range st.facts {
			if f.b && f.v.k == kApp && f.v.s == "==" && len(f.v.a) == 2 {
				for j := 0; j < 2; j++ {
					if isNilV(f.v.a[j]) && f.v.a[1-j].key() == v.a[0].key() {
						return &no
					}
				}
			}
		}
	}
	return nil
}

// simp resolves the guards that the state decides.
func (in *Interp) simp(st *state, v *V) *V {
	if v != nil && v.g == nil && (v.k == kApp || v.k == kSym) && v.t != nil && v.t == types.Typ[types.Bool] {
		if t := in.eval(st, v); t != nil {
			return vBool(*t)
		}
	}
	if v == nil || len(v.a) == 0 && v.g == nil {
		return v
	}
	n := *v
	n.key_ = ""
	n.a = nil
	for _, x := range v.a {
		y := in.simp(st, x)
		if x.g != nil && (isItem(x) || v.k == kUnion) {
			t := in.eval(st, x.g)
			if t != nil && !*t {
				continue
			}
			if t != nil && *t {
				if x.k == kMay {
					y = y.a[0]
				} else {
					w := *y
					w.key_ = ""
					w.g = nil
					y = &w
				}
			}
		}
		n.a = append(n.a, y)
	}
	if v.k == kUnion {
		if len(n.a) == 0 {
			return v
		}
		return union(n.a...)
	}
	if v.k == kList {
		return eta(&n)
	}
	if v.k == kStruct {
		return collapse(v.t, n.a)
	}
	return &n
}

// undecided lists the atomic conditions that guard parts of v.
func (in *Interp) undecided(st *state, v *V) *V {
	for _, g := range find(v, func(x *V) bool { return x.g != nil }) {
		if a := in.atom(st, g.g); a != nil {
			return a
		}
	}
	return nil
}

// openBool is a condition that one of two values is where the other is something else.
func (in *Interp) openBool(st *state, a, b *V) *V {
	if a == nil || b == nil || a.key() == b.key() {
		return nil
	}
	isBool := func(v *V) bool {
		return v.g == nil && v.t != nil && v.t == types.Typ[types.Bool] && (v.k == kConst || v.k == kApp || v.k == kSym)
	}
	if isBool(a) && isBool(b) {
		if g := in.atom(st, a); g != nil {
			return g
		}
		return in.atom(st, b)
	}
	if a.k != b.k || len(a.a) != len(b.a) || a.k == kUnion {
		return nil
	}
	for i := range a.a {
		if g := in.openBool(st, a.a[i], b.a[i]); g != nil {
			return g
		}
	}
	return nil
}

func (in *Interp) atom(st *state, g *V) *V {
	if g == nil || in.eval(st, g) != nil || g.k == kConst {
		return nil
	}
	if g.k == kApp && (g.s == "and" || g.s == "or" || g.s == "!") {
		for _, x := range g.a {
			if a := in.atom(st, x); a != nil {
				return a
			}
		}
		return nil
	}
	return g
}

func (in *Interp) differ(a, b *V, st *state, depth int) string {
	a, b = in.simp(st, a), in.simp(st, b)
	if in.bounded {
		a, b = normSets(a), normSets(b)
	}
	ka, kb := canonAcc(a.key()), canonAcc(b.key())
	if ka == kb {
		return ""
	}
	if depth < 14 {
		g := in.undecided(st, a)
		if g == nil {
			g = in.undecided(st, b)
		}
		if g == nil {
			g = in.openBool(st, a, b)
		}
		if g != nil {
			for _, t := range []bool{true, false} {
				s := st.clone()
				in.assume(s, g, t)
				if _, ok := in.both(s, s); !ok {
					continue
				}
				if d := in.differ(a, b, s, depth+1); d != "" {
					return d
				}
			}
			return ""
		}
	}
	if !definite(a, b) || !sameLoops(a, b) {
		in.vague = true
		return ""
	}
	budget := 400
	if _, ok := in.both(st, st); !ok {
		return ""
	}
	if c := in.consistent(st, &budget); c <= 0 {
		in.vague = in.vague || c == 0
		return ""
	}
	what := []string{"returns", "does", "writes"}
	var out []string
	for i := range a.a {
		if i < len(b.a) && i < len(what) && a.k == kTuple && canonAcc(a.a[i].key()) != canonAcc(b.a[i].key()) && definite(a.a[i], b.a[i]) {
			if !in.bounded && !sameDetail(onlyIn(a.a[i], b.a[i]), onlyIn(b.a[i], a.a[i])) {
				in.vague = true
				continue
			}
			x, y := firstDiff(onlyIn(a.a[i], b.a[i]), onlyIn(b.a[i], a.a[i]))
			out = append(out, what[i]+"\n      "+clip(canonAcc(x.key()), 1500)+"\n    where the specification has\n      "+clip(canonAcc(y.key()), 1500))
		}
	}
	if len(out) == 0 && a.k == kTuple {
		in.vague = true
		return ""
	}
	if len(out) == 0 {
		out = append(out, clip(ka, 1500)+"\n    where the specification has\n      "+clip(kb, 1500))
	}
	return strings.Join(out, "\n    and ") + "\n    when " + when(st)
}

// definite: two values differ whatever their untracked parts are.
func definite(a, b *V) bool {
	if a == nil || b == nil || a.k == kTop || b.k == kTop {
		return a == nil && b != nil && b.k != kTop || b == nil && a != nil && a.k != kTop
	}
	if canonAcc(a.key()) == canonAcc(b.key()) {
		return false
	}
	if a.k == kStruct && b.k == kStruct && a.t != nil && b.t != nil && typeName(a.t) != typeName(b.t) {
		return true
	}
	if a.k == b.k && a.s == b.s && len(a.a) == len(b.a) && vkey(a.g) == vkey(b.g) && len(a.a) > 0 && a.k != kUnion {
		for i := range a.a {
			if definite(a.a[i], b.a[i]) {
				return true
			}
		}
		return false
	}
	if strings.Contains(a.key(), "⊤") || strings.Contains(b.key(), "⊤") {
		return false
	}
	// the names of local variables that were not looked through do not count
	return !strings.Contains(a.key(), "&/") || localName.ReplaceAllString(canonAcc(a.key()), "&_") != localName.ReplaceAllString(canonAcc(b.key()), "&_")
}

var localName = regexp.MustCompile(`&/[\w/:$]+`)

// onlyIn gives the items of the list a that b does not have.
func onlyIn(a, b *V) *V {
	if a.k != kList || b.k != kList {
		return a
	}
	in := map[string]bool{}
	for _, x := range b.a {
		in[canonAcc(x.key())] = true
	}
	n := &V{k: kList, t: a.t}
	for _, x := range a.a {
		if !in[canonAcc(x.key())] {
			n.a = append(n.a, x)
		}
	}
	return n
}

// summary: a value contains the result of a loop that is not tracked element by element.
func summary(v *V) bool {
	k := v.key()
	return strings.Contains(k, "fold:") || strings.Contains(k, "acc ") || strings.Contains(k, "star ")
}

// sameDetail: values that summarise loops are compared when both do.
func sameDetail(a, b *V) bool {
	sa, sb := summary(a), summary(b)
	if sa == sb {
		return true
	}
	return sb && !strings.Contains(a.key(), "each ")
}

// firstDiff descends to the smallest parts that differ.
func firstDiff(a, b *V) (*V, *V) {
	for a.k == b.k && a.s == b.s && len(a.a) == len(b.a) && vkey(a.g) == vkey(b.g) && len(a.a) > 0 {
		d := -1
		for i := range a.a {
			if a.a[i].key() != b.a[i].key() {
				if d >= 0 {
					return a, b
				}
				d = i
			}
		}
		if d < 0 {
			break
		}
		a, b = a.a[d], b.a[d]
	}
	return a, b
}

// batch compares functions with the references of the same name: (Core.MetaGen).Copy with Core.refP_MetaGen_Copy.
func (c *Ctx) batch(rule, prop string, s same, keys ...string) {
	for _, k := range keys {
		t := strings.NewReplacer("(", "", ")", "", "*", "").Replace(k)
		if i := strings.Index(t, "["); i >= 0 {
			t = t[:i] + t[strings.Index(t, "]")+1:]
		}
		i := strings.LastIndex(t, "/") + 1
		pk, name, _ := strings.Cut(t[i:], ".")
		c.sameAs(rule, k, t[:i]+pk+".ref"+prop+"_"+strings.ReplaceAll(name, ".", "_"), s)
	}
}

func excluded(names []string, n string) bool {
	for _, x := range names {
		if y, ok := strings.CutPrefix(x, "-"); ok && matchKey([]string{y}, n) {
			return true
		}
	}
	return false
}

// refsOf lists the functions of a package that have a reference for a property, with it.
func (c *Ctx) refsOf(prop, pkg string, names ...string) (keys, refs []string) {
	pre := pkg + ".ref" + prop + "_"
	var l []string
	for k := range c.p.byKey {
		if strings.HasPrefix(k, pre) && (len(names) == 0 || matchKey(names, strings.TrimPrefix(k, pre)) && !excluded(names, strings.TrimPrefix(k, pre))) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	for _, r := range l {
		n := strings.TrimPrefix(r, pre)
		if strings.Contains(n, "$") {
			continue
		}
		key := pkg + "." + n
		if t, m, ok := strings.Cut(n, "_"); ok {
			key = "(" + pkg + "." + t + ")." + m
			if c.p.fn(key) == nil {
				if k := "(*" + pkg + "." + t + ")." + m; c.p.fn(k) != nil {
					key = k
				}
			}
			if c.p.fn(key) == nil && c.p.fn(pkg+"."+n) != nil {
				key = pkg + "." + n
			}
		}
		keys, refs = append(keys, key), append(refs, r)
	}
	return
}

// batchRefs compares all functions of a package that have a reference for a property.
func (c *Ctx) batchRefs(rule, prop, pkg string, s same, names ...string) {
	keys, refs := c.refsOf(prop, pkg, names...)
	for i := range keys {
		c.sameAs(rule, keys[i], refs[i], s)
	}
}

// shortDifference compares functions whose loops are abbreviated.  Done is false if the same loops occur in both.
func (c *Ctx) shortDifference(got, want []observation) (diff, note string, done bool) {
	texts := func(os []observation) ([]string, map[string]bool) {
		var l []string
		m := map[string]bool{}
		for _, o := range os {
			t := canonAcc(o.v.key()) + " IF " + canonAcc(factStr(o.st))
			l = append(l, t)
			for _, a := range abbrRe.FindAllString(t, -1) {
				m[a] = true
			}
		}
		sort.Strings(l)
		return l, m
	}
	lg, mg := texts(got)
	lw, mw := texts(want)
	if strings.Join(lg, "\n") == strings.Join(lw, "\n") {
		return "", "", true
	}
	grow := func(m map[string]bool) {
		for again := true; again; {
			again = false
			for a := range m {
				if v := fullOf[a]; v != nil {
					for _, b := range abbrRe.FindAllString(v.key(), -1) {
						if !m[b] {
							m[b] = true
							again = true
						}
					}
				}
			}
		}
	}
	grow(mg)
	grow(mw)
	only := func(a, b map[string]bool) []string {
		var l []string
		for x := range a {
			if !b[x] {
				l = append(l, x)
			}
		}
		return sorted(l)
	}
	og, ow := only(mg, mw), only(mw, mg)
	if len(og) == 0 && len(ow) == 0 {
		return "", "", false
	}
	inner := func(l []string, other map[string]bool) []string {
		var r []string
		for _, x := range l {
			deep := false
			for _, y := range abbrRe.FindAllString(fullOf[x].key(), -1) {
				if !other[y] {
					deep = true
				}
			}
			if !deep {
				r = append(r, x)
			}
		}
		return r
	}
	for _, g := range inner(og, mw) {
		all := ""
		for _, w := range inner(ow, mg) {
			d, comparable := c.loopDifference(fullOf[g], fullOf[w])
			if !comparable {
				continue
			}
			if d == "" {
				all = ""
				break
			}
			all = d
		}
		if all != "" {
			return "one round of a loop " + all, "", true
		}
	}
	return "", tooMany, true
}

// loopDifference compares one round of two loops that carry the same values.
func (c *Ctx) loopDifference(g, w *V) (string, bool) {
	if g == nil || w == nil || g.s != w.s || len(g.a) != len(w.a) || len(g.a) < 3 {
		return "", false
	}
	seen := map[string]bool{}
	for i := 1; i < len(g.a); i += 2 {
		k := canonAcc(g.a[i].key())
		if k != canonAcc(w.a[i].key()) {
			return "", false
		}
		if i > 1 {
			if seen[k] {
				return "", false
			}
			seen[k] = true
		}
	}
	k := newInterp(c.p)
	a, b := g.a[2], w.a[2]
	if partial(a) || partial(b) {
		return "", true
	}
	d := k.differ(a, b, newState(), 0)
	if os.Getenv("REF_DEBUG") != "" {
		fmt.Println("ROUND", g.s, "vague", k.vague, "\n  A", clip(canonAcc(a.key()), 3000), "\n  B", clip(canonAcc(b.key()), 3000), "\n  D", clip(d, 300))
	}
	if k.vague {
		d = ""
	}
	return d, true
}

var usedRefs = map[string]bool{}

// unusedRefs lists references of a property that no rule uses (a slip in the rules).
func (c *Ctx) unusedRefs(prop string) []string {
	var l []string
	for k := range c.p.byKey {
		if i := strings.Index(k, ".ref"+prop+"_"); i >= 0 && !usedRefs[k] && !strings.Contains(k, "$") {
			l = append(l, k)
		}
	}
	return sorted(l)
}
