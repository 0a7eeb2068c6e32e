package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opaqueEquals leaves equality tests and makers uninterpreted.
func astOpaque(p *Prog, names ...string) *Interp {
	in := newInterp(p)
	in.opaque = func(fn *ssa.Function) bool {
		if isMaker(p, fn) {
			return true
		}
		for _, n := range names {
			if fn.Name() == n && fn.Signature.Recv() != nil {
				if pk := fnPkg(fn); pk != nil && relPkg(pk) == "AST" {
					return true
				}
			}
		}
		return false
	}
	return in
}

// equalityFact says whether the state knows that a and b are equal in the sense of Equals.
func equalityCond(v *V) bool {
	if v.k != kApp {
		return false
	}
	return v.s == "M:Equals" || strings.HasSuffix(v.s, ".Equals") || v.s == "=="
}

func ruleA02(c *Ctx) {
	c.rule("replace-subterm", "replacing a subterm gives the new term when the term is the one sought, and otherwise the same term with every argument replaced", 6)
	c.rule("type-substitution", "substituting a type variable reaches every component of a term or type, and replaces exactly the variable sought", 8)
	c.rule("instantiation", "instantiating a polymorphic type maps the i-th variable to the i-th argument and reaches every component", 5)
	c.rule("conversion", "types and terms convert into each other symbol for symbol and argument for argument", 2)
	a, ok := c.astTypes("replace-subterm")
	if !ok {
		return
	}
	z := astNZ(c.p)
	termT, tyT := types.Type(c.p.namedType("AST", "Term")), types.Type(c.p.namedType("AST", "Ty"))
	for _, n := range c.termTypes(a) {
		for _, m := range []string{"ReplaceSubTermBy", "ReplaceAllSubTerm"} {
			fn := c.p.method(n, m)
			cons := n.Obj().Name() + "." + m
			if fn == nil || fn.Blocks == nil {
				if m == "ReplaceSubTermBy" {
					c.bad("replace-subterm", cons, "", "no such method")
				}
				continue
			}
			in := astOpaque(c.p, "Equals")
			args := symArgs(fn)
			want := z.nz(a.homo(n, args[0], nil, methApp("ReplaceSubTermBy", termT, args[1:]), nil)).key()
			alt := z.nz(a.homo(n, args[0], nil, methApp("ReplaceAllSubTerm", termT, args[1:]), nil)).key()
			c.saw(fn)
			rs := in.run(fn, args)
			c.absorb(in)
			bad := len(rs) == 0
			sawNew, sawRec := false, false
			for _, r := range rs {
				for _, x := range alts(r.v) {
					k := z.nz(unguarded(x)).key()
					eqFact := false
					neq := false
					conds := []*V{}
					for _, f := range r.st.facts {
						conds = append(conds, f.cond())
					}
					if x.g != nil {
						conds = append(conds, conj(x.g)...)
					}
					for _, f := range conds {
						if f.k == kApp && f.s == "!" && equalityCond(f.a[0]) {
							neq = true
						} else if equalityCond(f) && strings.Contains(f.key(), args[1].key()) {
							eqFact = true
						}
					}
					switch {
					case k == args[2].key():
						sawNew = true
						if neq || !eqFact {
							c.bad("replace-subterm", cons, c.p.fpos(fn), "returns the new term although the term is not known to be the one sought (%s)", factStr(r.st))
							bad = true
						}
					case k == want || k == alt:
						sawRec = true
						if eqFact {
							c.bad("replace-subterm", cons, c.p.fpos(fn), "a term that is the one sought is not replaced (%s)", factStr(r.st))
							bad = true
						}
					default:
						c.bad("replace-subterm", cons, c.p.fpos(fn), "returns %s, expected the new term or %s", k, want)
						bad = true
					}
				}
			}
			if !bad && !(sawNew && sawRec) {
				c.bad("replace-subterm", cons, c.p.fpos(fn), "one of the cases (term sought, other term) is missing")
				bad = true
			}
			if !bad {
				c.ok("replace-subterm", cons, c.p.fpos(fn))
			}
		}
	}
	if fn := c.fn("replace-subterm", "AST.ReplaceOccurrence"); fn != nil {
		in := astOpaque(c.p, "Equals")
		args := symArgs(fn)
		want := mappedList(args[0], fn.Params[0].Type(), methApp("ReplaceSubTermBy", termT, args[1:])).key()
		bad := false
		rs := in.run(fn, args)
		c.absorb(in)
		for _, r := range rs {
			if k := z.nz(res(r.v, 0)).key(); k != want {
				c.bad("replace-subterm", "ReplaceOccurrence", c.p.fpos(fn), "returns %s, expected %s", k, want)
				bad = true
			}
		}
		if !bad && len(rs) > 0 {
			c.ok("replace-subterm", "ReplaceOccurrence", c.p.fpos(fn))
		}
	}
	// type substitution
	both := append(c.termTypes(a), c.tyTypes(a)...)
	if tv := c.p.namedType("AST", "TypedVar"); tv != nil {
		both = append(both, tv)
	}
	for _, n := range both {
		fn := c.p.method(n, "SubstTy")
		cons := n.Obj().Name() + ".SubstTy"
		if fn == nil || fn.Blocks == nil {
			c.bad("type-substitution", cons, "", "no such method")
			continue
		}
		in := astOpaque(c.p, "Equals")
		args := symArgs(fn)
		want := z.nz(a.homo(n, args[0], nil, methApp("SubstTy", termT, args[1:]), methApp("SubstTy", tyT, args[1:]))).key()
		isVar := false
		if g := c.p.iface("AST", "TyGenVar"); g != nil {
			isVar = types.Implements(n, g)
		}
		bad := false
		sawNew := false
		rs := in.run(fn, args)
		c.absorb(in)
		for _, r := range rs {
			k := z.nz(r.v).key()
			eqFact, neq := false, false
			for _, f := range r.st.facts {
				if equalityCond(f.v) {
					if f.b {
						eqFact = true
					} else {
						neq = true
					}
				}
			}
			switch {
			case isVar && k == args[2].key():
				sawNew = true
				if !eqFact || neq {
					c.bad("type-substitution", cons, c.p.fpos(fn), "the type is replaced although it is not the variable sought (%s)", factStr(r.st))
					bad = true
				}
			case isVar && k == args[0].key():
				if eqFact && !neq {
					c.bad("type-substitution", cons, c.p.fpos(fn), "the variable sought is kept (%s)", factStr(r.st))
					bad = true
				}
			case !isVar && (k == want || k == args[0].key() && typeIs(n, "AST", "Meta")):
			default:
				c.bad("type-substitution", cons, c.p.fpos(fn), "returns %s, expected %s", k, want)
				bad = true
			}
		}
		if isVar && !sawNew && !bad {
			c.bad("type-substitution", cons, c.p.fpos(fn), "the variable sought is never replaced")
			bad = true
		}
		if !bad && len(rs) > 0 {
			c.ok("type-substitution", cons, c.p.fpos(fn))
		}
	}
	c.instantiation(a, z)
	c.conversion(a, z)
}

// instantiation checks InstantiateTy and its recursion.
func (c *Ctx) instantiation(a astTypes, z normal) {
	rec := c.fn("instantiation", "AST.instantiateTyRec")
	top := c.fn("instantiation", "AST.InstantiateTy")
	if rec == nil || top == nil {
		return
	}
	for _, n := range c.tyTypes(a) {
		in := astInterp(c.p)
		args := symArgs(rec)
		args[0] = withType(args[0], n)
		rs := in.run(rec, args)
		c.absorb(in)
		cons := "instantiateTyRec/" + n.Obj().Name()
		name := n.Obj().Name()
		want := z.nz(a.homo(n, args[0], nil, nil, func(e *V) *V {
			return vApp("AST.instantiateTyRec", nil, append([]*V{e}, args[1:]...)...)
		})).key()
		bad := false
		for _, r := range rs {
			k := z.nz(r.v).key()
			switch {
			case name == "tyVar":
				if k != fmt.Sprintf("map(%s, .repr(%s))", args[2].key(), args[0].key()) {
					c.bad("instantiation", cons, c.p.fpos(rec), "a type variable becomes %s", k)
					bad = true
				}
			case k != want:
				c.bad("instantiation", cons, c.p.fpos(rec), "becomes %s, expected %s", k, want)
				bad = true
			}
		}
		if len(rs) == 0 {
			switch name {
			case "tyVar", "TyConstr", "TyProd", "TyFunc":
				c.bad("instantiation", cons, c.p.fpos(rec), "this kind of type can no longer be instantiated")
			}
			continue
		}
		if !bad {
			c.ok("instantiation", cons, c.p.fpos(rec))
		}
	}
	in := newInterp(c.p)
	in.opaque = func(fn *ssa.Function) bool { return fn == rec }
	args := symArgs(top)
	rs := in.run(top, args)
	c.absorb(in)
	bad, saw := false, false
	for _, r := range rs {
		k := r.v.key()
		if k == args[0].key() {
			if !strings.Contains(factStr(r.st), "==(0, len(.values("+args[1].key()+")))") {
				c.bad("instantiation", "InstantiateTy", c.p.fpos(top), "a type is returned unchanged although arguments may be given (%s)", factStr(r.st))
				bad = true
			}
			continue
		}
		pi := "as:AST.TyPi(" + args[0].key() + ")"
		if !isApp(r.v, "AST.instantiateTyRec", 3) || r.v.a[0].key() != ".ty("+pi+")" {
			c.bad("instantiation", "InstantiateTy", c.p.fpos(top), "returns %s", k)
			bad = true
			continue
		}
		m := r.v.a[2].key()
		src := ".values(" + args[1].key() + ")"
		ok := false
		for _, e := range r.st.events {
			if e.k == kEach && e.g == nil && isApp(e.a[0], "mapset", 3) && e.a[0].a[0].key() == m {
				ky, vl := e.a[0].a[1].key(), e.a[0].a[2].key()
				vars := ".values(.vars(" + pi + "))"
				if e.s == src && ky == "nth("+vars+", idx "+src+")" && vl == "elem "+src ||
					e.s == vars && ky == "elem "+vars && vl == "nth("+src+", idx "+vars+")" {
					ok = true
				}
			}
		}
		lenOK := strings.Contains(factStr(r.st), "==(len(.values(.vars("+pi+"))), len("+src+"))") || strings.Contains(factStr(r.st), "==(len("+src+"), len(.values(.vars("+pi+"))))")
		if !ok || !lenOK {
			c.bad("instantiation", "InstantiateTy", c.p.fpos(top), "the arguments are not paired with the variables in order and number (%s)", factStr(r.st))
			bad = true
		}
		saw = true
	}
	if !saw && !bad {
		c.bad("instantiation", "InstantiateTy", c.p.fpos(top), "polymorphic types are never instantiated")
		bad = true
	}
	if !bad {
		c.ok("instantiation", "InstantiateTy", c.p.fpos(top))
	}
}

func (c *Ctx) conversion(a astTypes, z normal) {
	// TyToTerm: metavariable -> the same metavariable; constructor -> function term on the converted arguments
	if fn := c.fn("conversion", "AST.TyToTerm"); fn != nil {
		bad := false
		for _, kind := range []string{"TyMeta", "TyConstr"} {
			in := astInterp(c.p)
			args := symArgs(fn)
			args[0] = withType(args[0], c.p.namedType("AST", kind))
			x := args[0].key()
			rs := in.run(fn, args)
			c.absorb(in)
			if len(rs) == 0 {
				c.bad("conversion", "TyToTerm/"+kind, c.p.fpos(fn), "this kind of type is not converted")
				bad = true
			}
			for _, r := range rs {
				k := z.nz(r.v).key()
				ok := false
				if kind == "TyMeta" {
					ok = strings.HasPrefix(k, "AST.Meta{.index("+x+"), ") && strings.Contains(k, ", .name("+x+"), .formula("+x+"), ")
				} else {
					ok = strings.Contains(k, "AST.MakerId(.symbol("+x+"))") && strings.Contains(k, "[each .values(.args("+x+")): AST.TyToTerm(elem .values(.args("+x+")))]")
				}
				if !ok {
					c.bad("conversion", "TyToTerm/"+kind, c.p.fpos(fn), "becomes %s", k)
					bad = true
				}
			}
		}
		if !bad {
			c.ok("conversion", "TyToTerm", c.p.fpos(fn))
		}
	}
	if fn := c.fn("conversion", "AST.TermToTy"); fn != nil {
		bad := false
		for _, kind := range []string{"Meta", "Fun"} {
			in := astInterp(c.p)
			args := symArgs(fn)
			args[0] = withType(args[0], c.p.namedType("AST", kind))
			x := args[0].key()
			rs := in.run(fn, args)
			c.absorb(in)
			if len(rs) == 0 {
				c.bad("conversion", "TermToTy/"+kind, c.p.fpos(fn), "this kind of term is not converted")
				bad = true
			}
			for _, r := range rs {
				k := z.nz(r.v).key()
				ok := false
				if kind == "Meta" {
					ok = k == "AST.TyMeta{.name("+x+"), .index("+x+"), .formula("+x+")}"
				} else {
					ok = k == "AST.TyConstr{.name(.p("+x+")), Lib.List[AST.Ty]{[each .values(.args("+x+")): AST.TermToTy(elem .values(.args("+x+")))]}}"
				}
				if !ok {
					c.bad("conversion", "TermToTy/"+kind, c.p.fpos(fn), "becomes %s", k)
					bad = true
				}
			}
		}
		if !bad {
			c.ok("conversion", "TermToTy", c.p.fpos(fn))
		}
	}
}

// addHook models the insertion into a list without duplicates as an insertion.
func addHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	f := cc.fn
	if f == nil {
		return nil, false
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if o.Name() != "Add" || o.Signature.Recv() == nil || fnPkg(f) == nil || relPkg(fnPkg(f)) != "Lib" {
		return nil, false
	}
	pt, ok := o.Signature.Recv().Type().(*types.Pointer)
	if !ok || !isListLike(pt.Elem()) || len(cc.args) < 3 {
		return nil, false
	}
	cur := in.deref(cc.st, cc.args[0])
	l := cur
	if cur.k == kStruct && len(cur.a) == 1 {
		l = in.slice(cc.st, cur.a[0])
	} else {
		s := structOf(cur.t)
		if s == nil {
			return nil, false
		}
		l = in.slice(cc.st, proj(cur, 0, s))
	}
	xs := in.slice(cc.st, cc.args[2])
	if l.k != kList || xs.k != kList {
		return nil, false
	}
	n := &V{k: kList, t: l.t, a: append(append([]*V{}, l.a...), in.frzAll(cc.st, xs.a)...)}
	in.store(cc.st, cc.args[0], &V{k: kStruct, t: cur.t, a: []*V{n}})
	return []retCase{{&V{k: kTuple}, cc.st}}, true
}

// contributes says whether the collection v holds everything in the collection named src (unconditionally).
func contributes(v *V, src string) bool {
	return has(v, func(x *V) bool {
		if x.k == kEach && x.g == nil && (x.s == src || strings.HasSuffix(x.s, "×"+src)) {
			return x.a[0].key() == "elem "+src
		}
		return x.k == kApp && x.key() == src || x.k == kApp && ".values("+x.key()+")" == src
	})
}

// holds says whether the collection has the item named k (definitely, or one for each element of a list).
func holdsItem(v *V, k string) bool {
	l := v
	if l.k == kStruct && len(l.a) == 1 {
		l = l.a[0]
	}
	if l.k != kList {
		return false
	}
	for _, x := range l.a {
		if x.key() == k || x.k == kEach && x.g == nil && x.a[0].key() == k {
			return true
		}
	}
	return false
}

type comp struct {
	v    *V // component, or generic element of the list of components
	list *V // the slice of components, nil for a single one
	kind string
}

// components lists the formulas and terms a constructor is made of.
func (a astTypes) components(t types.Type, v *V) []comp {
	var out []comp
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		f := proj(v, i, s)
		switch {
		case isCache(ft):
		case isIface(ft, a.form):
			out = append(out, comp{f, nil, "form"})
		case isIface(ft, a.term):
			out = append(out, comp{f, nil, "term"})
		case isListLike(ft):
			vals := proj(f, 0, structOf(ft))
			et := listElem(ft)
			if isIface(et, a.form) {
				out = append(out, comp{elemSym(vals.key(), et), vals, "form"})
			} else if isIface(et, a.term) {
				out = append(out, comp{elemSym(vals.key(), et), vals, "term"})
			}
		case typeIs(ft, "AST", "quantifier"):
			out = append(out, a.components(ft, f)...)
		}
	}
	return out
}

func ruleA03(c *Ctx) {
	c.rule("collects", "the collector takes the contribution of every component", 30)
	c.rule("metalist", "the ordered list of metavariables takes those of every argument, whatever its kind", 4)
	c.rule("memo", "a memoised set of metavariables is used only while it is valid, is recomputed by the collector of its own constructor, and is marked valid only for unchanged components", 30)
	c.rule("negations", "removing or simplifying negations removes them in pairs", 2)
	a, ok := c.astTypes("collects")
	if !ok {
		return
	}
	ns := append(c.formTypes(a), c.termTypes(a)...)
	for _, n := range ns {
		_ = n
	}
	type want struct{ m, sub string }
	for _, n := range ns {
		isForm := types.Implements(n, a.form)
		for _, m := range []string{"forceGetMetas", "GetMetas", "GetSubTerms", "GetSubFormulasRecur", "GetChildFormulas"} {
			fn := c.p.method(n, m)
			cons := n.Obj().Name() + "." + m
			args := []*V(nil)
			hasCache := false
			if s := structOf(n); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					hasCache = hasCache || isCache(s.Field(i).Type()) || typeIs(s.Field(i).Type(), "AST", "quantifier")
				}
			}
			if fn == nil || fn.Blocks == nil {
				if m == "forceGetMetas" && !hasCache || !isForm && strings.HasPrefix(m, "GetSubForm") || !isForm && m == "GetChildFormulas" {
					continue
				}
				c.bad("collects", cons, "", "no such method")
				continue
			}
			c.saw(fn)
			args = symArgs(fn)
			comps := a.components(n, args[0])
			if m == "GetMetas" && hasCache {
				c.memoGet(n, fn, args)
				continue
			}
			in := astInterp(c.p)
			in.hook = addHook
			rs := in.run(fn, args)
			c.absorb(in)
			bad := len(rs) == 0
			if bad {
				c.bad("collects", cons, c.p.fpos(fn), "the method never returns")
			}
			z := astNZ(c.p)
			for _, r := range rs {
				v := z.nz(r.v)
				for _, cp := range comps {
					okc := false
					switch m {
					case "forceGetMetas", "GetMetas":
						okc = contributes(v, "M:GetMetas("+cp.v.key()+")")
					case "GetSubTerms":
						okc = contributes(v, ".values(M:GetSubTerms("+cp.v.key()+"))")
					case "GetSubFormulasRecur":
						okc = cp.kind != "form" || contributes(v, ".values(M:GetSubFormulasRecur("+cp.v.key()+"))")
					case "GetChildFormulas":
						okc = cp.kind != "form" || holdsItem(v, cp.v.key()) || cp.list != nil && strings.Contains(v.key(), strings.TrimSuffix(strings.TrimPrefix(cp.list.key(), ".values("), ")")) && v.k == kApp
					}
					if !okc {
						c.bad("collects", cons, c.p.fpos(fn), "the component %s does not contribute: %s", cp.v.key(), v.key())
						bad = true
					}
				}
				self := m == "GetSubTerms" && !isForm || m == "GetSubFormulasRecur"
				if self && !holdsItem(v, args[0].key()) && !(allIgnored(n) && len(find(v, func(x *V) bool { return x.k == kStruct && types.Identical(x.t, n) })) > 0) {
					c.bad("collects", cons, c.p.fpos(fn), "does not contain the expression itself: %s", v.key())
					bad = true
				}
				if m == "GetMetas" && typeIs(n, "AST", "Meta") && !holdsItem(v, args[0].key()) {
					c.bad("collects", cons, c.p.fpos(fn), "a metavariable is not among its metavariables: %s", v.key())
					bad = true
				}
			}
			if !bad {
				c.ok("collects", cons, c.p.fpos(fn))
			}
		}
		// metavariable lists
		if fn := c.p.method(n, "GetMetaList"); fn != nil && fn.Blocks != nil {
			for _, kind := range []string{"Fun", "Meta"} {
				args := symArgs(fn)
				comps := a.components(n, args[0])
				if len(comps) == 0 {
					continue
				}
				kt := c.p.namedType("AST", kind)
				sym := args[0]
				args[0] = withTermKind(sym, n, kt, a)
				in := astOpaque(c.p, "GetMetaList")
				rs := in.run(fn, args)
				c.absorb(in)
				cons := n.Obj().Name() + ".GetMetaList/" + kind
				bad := len(rs) == 0
				for _, r := range rs {
					for _, cp := range comps {
						e := elemSym(cp.list.key(), kt).key()
						okc := false
						if kind == "Fun" {
							okc = contributes(r.v, ".values((AST.Fun).GetMetaList("+e+"))") || contributes(r.v, "M:GetMetas("+e+")") || strings.Contains(r.v.key(), ".updateHook(.metas("+e+"))")
						} else {
							okc = holdsItem(r.v, e) || strings.Contains(r.v.key(), "[each "+cp.list.key()+": "+e+"]") || r.v.key() == cp.list.key() || len(r.v.a) == 1 && r.v.a[0].key() == cp.list.key()
						}
						if !okc {
							c.bad("metalist", cons, c.p.fpos(fn), "the metavariables of a %s argument are not all taken: %s", kind, r.v.key())
							bad = true
						}
					}
				}
				if !bad {
					c.ok("metalist", cons, c.p.fpos(fn))
				}
			}
		}
	}
	// memo: what the operations leave in the cache
	for _, n := range ns {
		ops := []string{"Copy", "SubstTy", "ReplaceMetaByTerm", "SubstituteVarByMeta", "ReplaceTermByTerm", "RenameVariables", "ReplaceSubTermBy"}
		for _, m := range ops {
			fn := c.p.method(n, m)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			in := astOpaque(c.p, "Equals")
			args := symArgs(fn)
			rs := in.run(fn, args)
			c.absorb(in)
			cons := n.Obj().Name() + "." + m
			bad, any := false, false
			for _, r := range rs {
				v := res(r.v, 0)
				own := v
				if own.k == kStruct && len(own.a) == 1 && own.a[0].k == kStruct {
					own = own.a[0]
				}
				if own.k != kStruct {
					continue
				}
				for i, x := range own.a {
					if x.k != kStruct || !isCache(x.t) {
						continue
					}
					any = true
					s := structOf(own.t)
					_ = i
					if hk := x.a[2]; hk.k == kClosure {
						ok := strings.Contains(hk.fn.String(), ".forceGetMetas") && strings.Contains(hk.fn.String(), "."+namedOf(own.t).Obj().Name()+")")
						if !ok {
							c.bad("memo", cons, c.p.fpos(fn), "the set of metavariables is recomputed by %s", hk.fn)
							bad = true
						}
					} else if !strings.HasPrefix(hk.key(), ".updateHook(.metas(") {
						c.bad("memo", cons, c.p.fpos(fn), "the set of metavariables is recomputed by %s", hk.key())
						bad = true
					}
					up := x.a[1]
					if up.k == kConst && up.cv.Kind() == constant.Bool && !constant.BoolVal(up.cv) {
						// marked valid
						recv := args[0].key()
						if typeIs(own.t, "AST", "quantifier") {
							recv = ".quantifier(" + recv + ")"
						}
						_ = s
						if !strings.Contains(factStr(r.st), "!(.shouldUpdate(.metas("+recv+")))") || !strings.HasPrefix(x.a[0].key(), ".data(.metas("+recv+"))") {
							c.bad("memo", cons, c.p.fpos(fn), "a set of metavariables that was not computed is marked as valid: %s when %s", x.a[0].key(), factStr(r.st))
							bad = true
						}
						if m != "Copy" {
							flag := res(r.v, 1)
							if r.v.k == kTuple {
								t := in.truth(r.st, flag)
								if t != nil && *t || t == nil && flag.k != kTop && !strings.Contains(factStr(r.st), "!("+flag.key()+")") && !(flag.k == kConst) {
									c.bad("memo", cons, c.p.fpos(fn), "the set of metavariables is marked as valid although a component may have been replaced (%s when %s)", flag.key(), factStr(r.st))
									bad = true
								}
							} else if m != "ReplaceSubTermBy" && m != "SubstituteVarByMeta" {
								c.bad("memo", cons, c.p.fpos(fn), "the set of metavariables is marked as valid although the components changed")
								bad = true
							}
						}
					} else if up.k != kConst && !strings.HasPrefix(up.key(), ".shouldUpdate(.metas(") {
						c.bad("memo", cons, c.p.fpos(fn), "the validity of the set of metavariables is %s", up.key())
						bad = true
					} else if up.k != kConst && m != "Copy" && v.key() != args[0].key() {
						c.bad("memo", cons, c.p.fpos(fn), "the validity of the set of metavariables is inherited although the components changed")
						bad = true
					}
				}
			}
			if any && !bad {
				c.ok("memo", cons, c.p.fpos(fn))
			}
		}
	}
	c.negations()
}

// memoGet: GetMetas gives the memoised set only when it is valid.
func (c *Ctx) memoGet(n *types.Named, fn *ssa.Function, args []*V) {
	cons := n.Obj().Name() + ".GetMetas"
	in := astInterp(c.p)
	rs := in.run(fn, args)
	c.absorb(in)
	q := args[0].key()
	if s := structOf(n); s != nil && s.NumFields() == 1 && typeIs(s.Field(0).Type(), "AST", "quantifier") {
		q = ".quantifier(" + q + ")"
	}
	bad := len(rs) == 0
	sawCall := false
	for _, r := range rs {
		switch k := r.v.key(); {
		case k == "call(.updateHook(.metas("+q+")), "+q+")" || contributes(r.v, "M:GetMetas("):
			sawCall = true
		case k == ".data(.metas("+q+"))":
			if !strings.Contains(factStr(r.st), "!(.shouldUpdate(.metas("+q+")))") {
				c.bad("memo", cons, c.p.fpos(fn), "the memoised set is used although it may be out of date")
				bad = true
			}
		default:
			// computed directly
			comps := 0
			a, _ := c.astTypes("memo")
			okc := true
			for _, cp := range a.components(n, args[0]) {
				comps++
				okc = okc && contributes(r.v, "M:GetMetas("+cp.v.key()+")")
			}
			sawCall = sawCall || okc
			if !okc {
				c.bad("memo", cons, c.p.fpos(fn), "returns %s", k)
				bad = true
			}
		}
	}
	if !bad && !sawCall {
		c.bad("memo", cons, c.p.fpos(fn), "the set is never computed")
		bad = true
	}
	if !bad {
		c.ok("memo", cons, c.p.fpos(fn))
	}
}

func (c *Ctx) negations() {
	for _, name := range []string{"SimplifyNegations", "RemoveNeg"} {
		fn := c.fn("negations", "AST."+name)
		if fn == nil {
			continue
		}
		not := c.p.namedType("AST", "Not")
		pred := c.p.namedType("AST", "Pred")
		bad := false
		for depth := 0; depth <= 5; depth++ {
			in := astInterp(c.p)
			base := vSym("φ", pred)
			v := base
			s := structOf(not)
			for i := 0; i < depth; i++ {
				fs := make([]*V, s.NumFields())
				for j := range fs {
					fs[j] = vSym("?", s.Field(j).Type())
					if isIface(s.Field(j).Type(), c.p.iface("AST", "Form")) {
						fs[j] = v
					}
				}
				v = &V{k: kStruct, t: not, a: fs}
			}
			rs := in.run(fn, []*V{v})
			c.absorb(in)
			if len(rs) == 0 {
				bad = true
				c.bad("negations", name, c.p.fpos(fn), "no result")
			}
			for _, r := range rs {
				n := 0
				x := res(r.v, 0)
				for x.k == kStruct && types.Identical(x.t, not) {
					n++
					for j := range x.a {
						if isIface(s.Field(j).Type(), c.p.iface("AST", "Form")) {
							x = x.a[j]
							break
						}
					}
				}
				wantN := depth % 2
				if name == "RemoveNeg" {
					wantN = 0
				}
				// a recursion that is not unfolded stays symbolic
				if x.key() != base.key() {
					if !strings.Contains(x.key(), "getDeepFormWithoutNot") {
						c.bad("negations", name, c.p.fpos(fn), "%d negations of φ become %s", depth, r.v.key())
						bad = true
					}
					continue
				}
				if n != wantN {
					c.bad("negations", name, c.p.fpos(fn), "%d negations of φ become %d negations", depth, n)
					bad = true
				}
			}
		}
		if !bad {
			c.ok("negations", name, c.p.fpos(fn))
		}
	}
}

// identity of expressions: which fields decide equality. Others may or may not be compared.
func identityFields(n *types.Named) (must map[string]bool, may map[string]bool) {
	name := n.Obj().Name()
	switch name {
	case "Var", "Id", "Meta":
		return map[string]bool{"index": true}, map[string]bool{"index": true, "name": true}
	case "TyBound":
		return nil, map[string]bool{"index": true, "name": true}
	case "TyMeta":
		return map[string]bool{"index": true}, map[string]bool{"index": true, "name": true}
	}
	must, may = map[string]bool{}, map[string]bool{}
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if isCache(f.Type()) || f.Name() == "index" && name != "TypedVar" || f.Name() == "symbol" && name == "quantifier" {
			continue
		}
		must[f.Name()] = true
		may[f.Name()] = true
	}
	return
}

// compared collects the facts (keys) that amount to the equality of x and y of type t.
func (a astTypes) compared(t types.Type, x, y *V) (req [][]string) {
	both := func(op, p, q string) []string {
		return []string{op + "(" + p + ", " + q + ")", op + "(" + q + ", " + p + ")"}
	}
	switch {
	case isIface(t, a.form), isIface(t, a.term), isIface(t, a.ty):
		return [][]string{both("M:Equals", x.key(), y.key())}
	case isListLike(t):
		s := structOf(t)
		xv, yv := proj(x, 0, s), proj(y, 0, s)
		et := listElem(t)
		req = append(req, both("==", "len("+xv.key()+")", "len("+yv.key()+")"))
		// all elements of one, against those of the other at the same place
		one := func(u, w *V) [][]string {
			e := elemSym(u.key(), et)
			o := vApp("nth", et, w, &V{k: kIdx, s: u.key()})
			var out [][]string
			for _, alts := range a.compared(et, e, o) {
				var q []string
				for _, k := range alts {
					q = append(q, "all:"+u.key()+"("+k+")")
				}
				out = append(out, q)
			}
			return out
		}
		p, q := one(xv, yv), one(yv, xv)
		for i := range p {
			req = append(req, append(p[i], q[i]...))
		}
		return req
	}
	if n := namedOf(t); n != nil {
		if s := structOf(t); s != nil && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg()) == "AST" {
			must, _ := identityFields(n)
			for i := 0; i < s.NumFields(); i++ {
				if must[s.Field(i).Name()] {
					req = append(req, a.compared(s.Field(i).Type(), proj(x, i, s), proj(y, i, s))...)
				}
			}
			if n.Obj().Name() == "TyBound" {
				// any of the identifying fields
				var q []string
				for i := 0; i < s.NumFields(); i++ {
					q = append(q, both("==", proj(x, i, s).key(), proj(y, i, s).key())...)
				}
				req = append(req, q)
			}
			return req
		}
	}
	return [][]string{both("==", x.key(), y.key())}
}

func ruleA04(c *Ctx) {
	c.rule("equal-means-equal", "two expressions are only equal when every identifying component is", 18)
	c.rule("equality-complete", "expressions with equal components are equal: no other condition is asked for", 18)
	c.rule("other-constructor", "expressions of different constructors are never equal", 60)
	c.rule("copy", "a copy has the components of the original", 18)
	a, ok := c.astTypes("equal-means-equal")
	if !ok {
		return
	}
	groups := [][]*types.Named{c.formTypes(a), c.termTypes(a), c.tyTypes(a)}
	if tv := c.p.namedType("AST", "TypedVar"); tv != nil {
		groups = append(groups, []*types.Named{tv})
	}
	z := astNZ(c.p)
	for _, g := range groups {
		for _, n := range g {
			fn := c.p.method(n, "Equals")
			name := n.Obj().Name()
			if fn == nil || fn.Blocks == nil {
				c.bad("equal-means-equal", name, "", "no equality")
				continue
			}
			args := symArgs(fn)
			args[1] = withType(vSym("other", n), n)
			reqs := a.compared(n, args[0], args[1])
			in := astInterp(c.p)
			rs := in.run(fn, args)
			c.absorb(in)
			badE, badC, sawTrue := false, false, false
			_, may := identityFields(n)
			for _, r := range rs {
				if r.v.k == kConst && r.v.key() == "false" {
					continue
				}
				sawTrue = true
				known := map[string]bool{}
				for _, f := range r.st.facts {
					known[f.cond().key()] = true
				}
				for _, x := range conj(r.v) {
					known[x.key()] = true
				}
				used := map[string]bool{}
				for _, alt := range reqs {
					found := false
					for _, k := range alt {
						used[k] = true
						if known[k] {
							found = true
						}
					}
					if !found {
						c.bad("equal-means-equal", name, c.p.fpos(fn), "may hold without %s", alt[0])
						badE = true
					}
				}
				for k := range known {
					if used[k] || k == "true" || strings.HasPrefix(k, "is:") || strings.HasPrefix(k, "!(is:") {
						continue
					}
					okf := false
					for f := range may {
						if strings.Contains(k, "."+f+"(") && !strings.HasPrefix(k, "!") {
							okf = true
						}
					}
					if strings.Contains(k, "len(") || strings.HasPrefix(k, "all:") {
						okf = true
					}
					if strings.Contains(k, ".index(") && !may["index"] && !strings.Contains(k, ".index(.") && !strings.Contains(k, ".index(elem") && !strings.Contains(k, ".index(nth") {
						okf = false
					}
					if !okf {
						c.bad("equality-complete", name, c.p.fpos(fn), "also asks for %s", k)
						badC = true
					}
				}
			}
			if !sawTrue {
				c.bad("equality-complete", name, c.p.fpos(fn), "nothing is equal to itself")
				badC = true
			}
			if !badE {
				c.ok("equal-means-equal", name, c.p.fpos(fn))
			}
			if !badC {
				c.ok("equality-complete", name, c.p.fpos(fn))
			}
			for _, o := range g {
				if o == n {
					continue
				}
				args := symArgs(fn)
				args[1] = withType(vSym("other", o), o)
				in := astInterp(c.p)
				bad := false
				for _, r := range in.run(fn, args) {
					if r.v.key() != "false" {
						c.bad("other-constructor", name+"/"+o.Obj().Name(), c.p.fpos(fn), "may be %s", r.v.key())
						bad = true
					}
				}
				c.absorb(in)
				if !bad {
					c.ok("other-constructor", name+"/"+o.Obj().Name(), c.p.fpos(fn))
				}
			}
		}
		for _, n := range g {
			fn := c.p.method(n, "Copy")
			if fn == nil || fn.Blocks == nil {
				c.bad("copy", n.Obj().Name(), "", "no copy")
				continue
			}
			in := astInterp(c.p)
			args := symArgs(fn)
			rs := in.run(fn, args)
			c.absorb(in)
			bad := len(rs) == 0
			for _, r := range rs {
				if k := z.nz(r.v).key(); k != args[0].key() && !allIgnored(n) {
					c.bad("copy", n.Obj().Name(), c.p.fpos(fn), "becomes %s", k)
					bad = true
				}
			}
			if !bad {
				c.ok("copy", n.Obj().Name(), c.p.fpos(fn))
			}
		}
	}
}

// mutated lists the cells of the caller that a path writes.
func mutatedInputs(in *Interp, st *state) []string {
	var out []string
	for l, v := range st.heap {
		switch {
		case strings.HasPrefix(l.id, "arr "):
			src := strings.TrimPrefix(l.id, "arr ")
			if strings.HasPrefix(src, "new ") {
				continue
			}
			if k := in.frz(nil, v).key(); k == src {
				continue
			}
			out = append(out, "the elements of "+src)
		case strings.HasPrefix(l.id, "*"):
			if l.init != nil && sameV(l.init, v) {
				continue
			}
			out = append(out, l.id)
		}
	}
	sort.Strings(out)
	return out
}

func ruleA05(c *Ctx) {
	c.rule("no-write", "no method or helper writes into what is reachable from its arguments", 150)
	for _, fn := range c.p.Funcs {
		pk := fnPkg(fn)
		if pk == nil || relPkg(pk) != "AST" || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || !fn.Pos().IsValid() {
			continue
		}
		if fn.Signature.Recv() != nil {
			if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
				continue // methods that update their own receiver by design
			}
		}
		key := c.p.key(fn)
		file := c.p.pos(fn.Pos())
		if strings.Contains(file, "printing.go") || strings.Contains(file, "printers.go") || strings.Contains(file, "maker.go") || fn.Name() == "ToString" || key == "AST.init" {
			continue
		}
		inputs := false
		for _, pa := range fn.Params {
			if t := pa.Type().Underlying(); t != nil {
				switch t.(type) {
				case *types.Basic:
				default:
					inputs = true
				}
			}
		}
		if !inputs {
			continue
		}
		in := astInterp(c.p)
		args := symArgs(fn)
		bad := false
		seen := map[string]bool{}
		for _, r := range in.call(fn, args, nil, newState(), "", nil) {
			for _, m := range mutatedInputs(in, r.st) {
				if !seen[m] {
					seen[m] = true
					c.bad("no-write", key, file, "writes %s", m)
				}
				bad = true
			}
			for _, e := range r.st.events {
				for _, ev := range find(e, func(x *V) bool { return isApp(x, "mapset", 3) }) {
					t := ev.a[0].key()
					if !strings.HasPrefix(t, "new ") && !strings.HasPrefix(t, "glob ") {
						c.bad("no-write", key, file, "writes into the map %s", t)
						bad = true
					}
				}
			}
		}
		c.absorb(in)
		if !bad {
			c.ok("no-write", key, file)
		}
	}
}
