package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules of the tableau calculus.

// formKind is a formula under at most one negation.
type formKind struct {
	neg bool
	n   *types.Named
}

func (k formKind) String() string {
	if k.neg {
		return "¬" + k.n.Obj().Name()
	}
	return k.n.Obj().Name()
}

// kinds lists every formula constructor, and the negation of each.
func (c *Ctx) kinds(rule string) []formKind {
	a, ok := c.astTypes(rule)
	if !ok {
		return nil
	}
	var out []formKind
	for _, n := range c.formTypes(a) {
		out = append(out, formKind{true, n})
		if n.Obj().Name() != "Not" {
			out = append(out, formKind{false, n})
		}
	}
	return out
}

// ruleClass is the kind of rule a formula is expanded by.
func (k formKind) class() string {
	n := k.n.Obj().Name()
	switch n {
	case "Pred", "Top", "Bot":
		return "Atomic"
	case "And":
		if k.neg {
			return "Beta"
		}
		return "Alpha"
	case "Or":
		if k.neg {
			return "Alpha"
		}
		return "Beta"
	case "Imp":
		if k.neg {
			return "Alpha"
		}
		return "Beta"
	case "Equ":
		return "Beta"
	case "All":
		if k.neg {
			return "Delta"
		}
		return "Gamma"
	case "Ex":
		if k.neg {
			return "Gamma"
		}
		return "Delta"
	case "Not":
		return "Alpha"
	}
	return "?"
}

// value is a formula of the kind, with opaque components.
func (k formKind) value(c *Ctx) (whole, inner *V) {
	inner = withType(vSym("F", k.n), k.n)
	if k.neg {
		return mkForm(c.p, c.p.namedType("AST", "Not"), inner), inner
	}
	return inner, inner
}

// ruleWords is the name under which the rule is recorded in the proof.
func (k formKind) ruleWords() []string {
	w := map[string]string{"And": "AND", "Or": "OR", "Imp": "IMPLY", "Equ": "EQUIV", "All": "FORALL", "Ex": "EXISTS", "Not": "NOT"}[k.n.Obj().Name()]
	if w == "" {
		return nil
	}
	out := []string{strings.ToUpper(k.class())}
	if k.neg {
		out = append(out, "NOT")
	}
	return append(out, w)
}

// branches gives the conclusions of an alpha or beta rule: one list per branch (each: one branch per element).
func (k formKind) branches(c *Ctx, inner *V, wrap func(f *V) *V) (bs []*V, each bool) {
	parts, ts := formParts(inner, k.n)
	not := func(f *V) *V { return mkForm(c.p, c.p.namedType("AST", "Not"), f) }
	pos := func(f *V) *V { return wrap(f) }
	neg := func(f *V) *V { return wrap(not(f)) }
	item := func(f func(*V) *V) *V {
		l := proj(parts[0], 0, structOf(ts[0]))
		src := l.key()
		srcOf[src] = l
		return vEach(src, f(elemSym(src, listElem(ts[0]))))
	}
	switch k.String() {
	case "¬Not":
		return []*V{vList(pos(parts[0]))}, false
	case "And":
		return []*V{vList(item(pos))}, false
	case "¬Or":
		return []*V{vList(item(neg))}, false
	case "¬Imp":
		return []*V{vList(pos(parts[0]), neg(parts[1]))}, false
	case "Or":
		return []*V{item(func(e *V) *V { return vList(pos(e)) })}, true
	case "¬And":
		return []*V{item(func(e *V) *V { return vList(neg(e)) })}, true
	case "Imp":
		return []*V{vList(neg(parts[0])), vList(pos(parts[1]))}, false
	case "Equ":
		return []*V{vList(neg(parts[0]), neg(parts[1])), vList(pos(parts[0]), pos(parts[1]))}, false
	case "¬Equ":
		return []*V{vList(neg(parts[0]), pos(parts[1])), vList(pos(parts[0]), neg(parts[1]))}, false
	}
	return nil, false
}

// canon sorts the items of a list of conclusions (their order does not matter).
func canonList(v *V) *V {
	if v.k != kList {
		return v
	}
	n := *v
	n.key_ = ""
	n.a = nil
	seen := map[string]bool{}
	for _, x := range v.a {
		if x.k == kEach {
			y := *x
			y.key_ = ""
			y.a = []*V{canonList(x.a[0])}
			x = &y
		} else {
			x = canonList(x)
		}
		if !seen[x.key()] {
			seen[x.key()] = true
			n.a = append(n.a, x)
		}
	}
	sort.SliceStable(n.a, func(i, j int) bool { return n.a[i].key() < n.a[j].key() })
	n.set = false
	return &n
}

func init() {
	register("T01", "For every formula constructor and its negation the kind of rule assigned to it, the list of the branch it is stored in, and the rule object it is wrapped in are computed by shape analysis and compared with the classification of the calculus.", ruleT01)
	register("T02", "For every alpha and beta formula the conclusions of the rule are computed by shape analysis of the rule functions of the three search strategies and compared with the tableau rules: which formulas, under which polarity, in which branches.", ruleT02)
}

func ruleT01(c *Ctx) {
	c.rule("rule-kind", "Core.ShowKindOfRule gives every formula the kind of rule of the tableau calculus", 19)
	c.rule("bucket", "a branch stores a formula in the list of its kind of rule, and leaves its other lists as they are", 19)
	c.rule("rule-object", "the incremental search wraps every formula in the rule of its connective, with the formula and its terms, and stores the rule in the list of its kind", 19)
	kinds := c.kinds("rule-kind")
	z := astNZ(c.p)
	consts := map[string]string{}
	if pk := c.p.ByPth["Core"]; pk != nil {
		for _, n := range []string{"Atomic", "Alpha", "Beta", "Delta", "Gamma"} {
			if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok {
				consts[n] = k.Val().ExactString()
			}
		}
	}
	show := c.fn("rule-kind", "Core.ShowKindOfRule")
	disp := c.fn("bucket", "(*Search.State).DispatchForm")
	mk := c.fn("rule-object", incMake)
	ins := c.fn("rule-object", "(*Search/incremental.RulesManager).insertIntoCorrectSlice")
	for _, k := range kinds {
		want, known := consts[k.class()]
		cons := k.String()
		f, _ := k.value(c)
		if show != nil {
			in := coreInterp(c.p)
			rs := in.run(show, []*V{f})
			c.absorb(in)
			if !known {
				c.bad("rule-kind", cons, c.p.fpos(show), "a formula constructor the calculus has no rule for")
			} else if len(rs) == 0 {
				c.bad("rule-kind", cons, c.p.fpos(show), "no kind of rule is returned")
			}
			good := len(rs) > 0 && known
			for _, r := range rs {
				if r.v.key() != want {
					c.bad("rule-kind", cons, c.p.fpos(show), "classified as %s, expected %s (%s)", r.v.key(), want, k.class())
					good = false
				}
			}
			if good {
				c.ok("rule-kind", cons, c.p.fpos(show))
			}
		}
		if disp != nil {
			c.bucket(k, f, disp, z)
		}
		if mk != nil && ins != nil {
			c.ruleObject(k, f, mk, ins, z)
		}
	}
}

// bucket: DispatchForm.
func (c *Ctx) bucket(k formKind, f *V, disp interface{ Name() string }, z normal) {
	fn := c.p.fn("(*Search.State).DispatchForm")
	stT := c.p.namedType("Search", "State")
	in := coreInterp(c.p)
	args := symArgs(fn)
	terms := vSym("terms", nil)
	args[1] = fat(c.p, f, terms)
	rs := in.call(fn, args, nil, newState(), "", nil)
	c.absorb(in)
	cons := k.String()
	if len(rs) == 0 {
		c.bad("bucket", cons, c.p.fpos(fn), "a formula of this kind is rejected")
		return
	}
	s := structOf(stT)
	good := true
	for _, r := range rs {
		after := in.frz(r.st, in.deref(r.st, args[0]))
		before := in.deref(newState(), args[0])
		for i := 0; i < s.NumFields(); i++ {
			got := z.nz(proj(after, i, s))
			old := z.nz(in.frz(newState(), proj(before, i, s)))
			if strings.EqualFold(s.Field(i).Name(), k.class()) {
				want := z.nz(&V{k: kList, t: s.Field(i).Type(), a: append(append([]*V{}, asList(proj(before, i, s), sliceElem(s.Field(i).Type()), false).a...), args[1])})
				if got.key() != want.key() {
					c.bad("bucket", cons, c.p.fpos(fn), "the list %s becomes %s, expected the formula to be added to it", s.Field(i).Name(), got.key())
					good = false
				}
			} else if got.key() != old.key() {
				c.bad("bucket", cons, c.p.fpos(fn), "the part %s of the branch becomes %s (expected kind: %s)", s.Field(i).Name(), got.key(), k.class())
				good = false
			}
		}
	}
	if good {
		c.ok("bucket", cons, c.p.fpos(fn))
	}
}

const incMake = "Search/incremental.makeCorrectRule"

// incBucket is the list of the incremental search a rule is stored in.
func (k formKind) incBucket() string {
	if k.class() == "Atomic" {
		if k.neg {
			return "atomicNotRules"
		}
		return "atomicRules"
	}
	return strings.ToLower(k.class()) + "Rules"
}

// ruleObject: the rule object of the incremental search.
func (c *Ctx) ruleObject(k formKind, f *V, mk, ins *ssa.Function, z normal) {
	cons := k.String()
	in := coreInterp(c.p)
	terms := vSym("terms", mk.Params[1].Type())
	good := true
	fail := func(f string, a ...any) {
		c.bad("rule-object", cons, c.p.fpos(mk), f, a...)
		good = false
	}
	rs := in.call(mk, []*V{f, terms}, nil, newState(), "", nil)
	if len(rs) == 0 {
		fail("no rule is made for this formula")
	}
	for _, r := range rs {
		obj := in.frz(r.st, in.deref(r.st, r.v))
		s := structOf(obj.t)
		if obj.k != kStruct || s == nil {
			fail("not a rule: %s", obj.key())
			continue
		}
		any := proj(obj, 0, s)
		as := structOf(any.t)
		if as == nil {
			fail("not a rule: %s", obj.key())
			continue
		}
		for i := 0; i < as.NumFields(); i++ {
			x := z.nz(proj(any, i, as))
			switch as.Field(i).Name() {
			case "formula":
				if x.key() != z.nz(f).key() {
					fail("the rule holds the formula %s", x.key())
				}
			case "terms":
				if x.key() != terms.key() {
					fail("the rule holds the terms %s", x.key())
				}
			case "FullString":
				w := k.ruleWords()
				if w == nil {
					w = []string{"CLOSURE"}
				}
				want := "[\"" + strings.Join(w, "\", \"") + "\"]"
				if x.key() != want {
					fail("the rule is named %s, expected %s", x.key(), want)
				}
			}
		}
		// the list it goes to
		sargs := symArgs(ins)
		before := in.frz(newState(), in.deref(newState(), sargs[0]))
		for _, q := range in.call(ins, []*V{sargs[0], vList(r.v)}, nil, r.st.clone(), "", nil) {
			after := in.frz(q.st, in.deref(q.st, sargs[0]))
			ms := structOf(after.t)
			if ms == nil {
				ms = structOf(before.t)
			}
			for i := 0; i < ms.NumFields(); i++ {
				got, old := proj(after, i, ms), proj(before, i, ms)
				if ms.Field(i).Name() == k.incBucket() {
					l := in.slice(q.st, got)
					if l.k != kList || len(l.a) != 2 || l.a[0].k != kEach || l.a[0].s != old.key() {
						fail("the list %s becomes %s, expected the rule to be added to it", ms.Field(i).Name(), got.key())
					}
				} else if got.key() != old.key() {
					fail("the list %s becomes %s, expected the rule in %s", ms.Field(i).Name(), got.key(), k.incBucket())
				}
			}
		}
	}
	c.absorb(in)
	if good {
		c.ok("rule-object", cons, c.p.fpos(mk))
	}
}

// incConclusions: the rules of the incremental search.
func (c *Ctx) incConclusions(k formKind, z normal) {
	mk := c.p.fn(incMake)
	f, inner := k.value(c)
	terms := vSym("terms", mk.Params[1].Type())
	wrap := func(x *V) *V { return vApp(incMake, nil, x, terms) }
	want, _ := k.branches(c, inner, wrap)
	if want == nil {
		return
	}
	cons := "incremental " + k.String()
	in := coreInterp(c.p)
	good := true
	n := 0
	exp := canonList(z.nz(vList(want...))).key()
	for _, r := range in.call(mk, []*V{f, terms}, nil, newState(), "", nil) {
		obj := in.deref(r.st, r.v)
		nt := namedOf(obj.t)
		if nt == nil {
			c.bad("conclusions", cons, c.p.fpos(mk), "not a rule object: %s", obj.key())
			good = false
			continue
		}
		ap := c.p.method(nt, "apply")
		if ap == nil {
			c.bad("conclusions", cons, c.p.fpos(mk), "the rule %s cannot be applied", typeName(nt))
			good = false
			continue
		}
		old := in.opaque
		in.opaque = func(fn *ssa.Function) bool { return fn == mk || old(fn) }
		for _, q := range in.call(ap, []*V{r.v}, nil, r.st.clone(), "", nil) {
			n++
			got := canonList(z.nz(in.frz(q.st, q.v))).key()
			if got != exp {
				c.bad("conclusions", cons, c.p.fpos(ap), "concludes\n      %s\n    expected\n      %s\n    when %s", got, exp, factStr(q.st))
				good = false
			}
		}
		in.opaque = old
	}
	c.absorb(in)
	if n == 0 {
		c.bad("conclusions", cons, c.p.fpos(mk), "the rule never returns")
	} else if good {
		c.ok("conclusions", cons, c.p.fpos(mk))
	}
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func ruleT02(c *Ctx) {
	c.rule("conclusions", "the rule for a formula returns exactly the conclusions of the calculus, each with the terms of the formula", 18)
	c.rule("rule-name", "the rule is recorded under the name of the connective and polarity", 9)
	z := astNZ(c.p)
	al := c.fn("conclusions", "Search.ApplyAlphaRules")
	be := c.fn("conclusions", "Search.ApplyBetaRules")
	if al == nil || be == nil {
		return
	}
	for _, k := range c.kinds("conclusions") {
		f, inner := k.value(c)
		terms := vSym("terms", nil)
		wrap := func(x *V) *V { return fat(c.p, x, terms) }
		want, each := k.branches(c, inner, wrap)
		if want == nil {
			continue
		}
		fn := al
		if k.class() == "Beta" {
			fn = be
		}
		in := coreInterp(c.p)
		in.hook = hooks(copyHook, getHook, appendHook, addHook, makerHook)
		in.withGlobals(map[string]bool{"Glob.proof": true})
		args := symArgs(fn)
		args[0] = fat(c.p, f, terms)
		rs := in.run(fn, args)
		c.absorb(in)
		cons := "destructive " + k.String()
		var exp *V
		if k.class() == "Beta" {
			exp = vList(want...)
			_ = each
		} else {
			exp = want[0]
		}
		wk := canonList(z.nz(exp)).key()
		good := len(rs) > 0
		if !good {
			c.bad("conclusions", cons, c.p.fpos(fn), "the rule never returns")
		}
		for _, r := range rs {
			got := canonList(z.nz(r.v)).key()
			if got != wk {
				c.bad("conclusions", cons, c.p.fpos(fn), "concludes\n      %s\n    expected\n      %s\n    when %s", got, wk, factStr(r.st))
				good = false
			}
			stT := c.p.namedType("Search", "State")
			prT := c.p.namedType("Search", "ProofStruct")
			got = "?"
			if cp := fieldNamed(in.frz(r.st, in.deref(r.st, args[1])), stT, "current_proof"); cp != nil {
				if nm := fieldNamed(cp, prT, "Rule_name"); nm != nil {
					got = nm.key()
				}
			}
			if wn := `"` + strings.Join(k.ruleWords(), "_") + `"`; got != wn {
				c.bad("rule-name", cons, c.p.fpos(fn), "recorded as %s, expected %s", got, wn)
				good = false
			}
		}
		if good {
			c.ok("conclusions", cons, c.p.fpos(fn))
			c.ok("rule-name", cons, c.p.fpos(fn))
		}
	}
	if c.fn("conclusions", incMake) != nil {
		for _, k := range c.kinds("conclusions") {
			c.incConclusions(k, z)
		}
	}
}
