package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The syntax of formulas, terms and types (package AST).

// astNZ ignores memoised data and the serial number of formulas.
func astNZ(p *Prog) normal {
	form := p.iface("AST", "Form")
	return normal{drop: func(st types.Type, f *types.Var) bool {
		if f.Name() != "index" || form == nil {
			return false
		}
		return types.Implements(st, form) || typeIs(st, "AST", "quantifier")
	}}
}

// opSpec is an operation that maps formulas to formulas.
type opSpec struct {
	name string // method of formulas
	term string // what it does to a term ("": terms are left alone)
	ty   string // what it does to a type
	bool bool   // also returns a flag
	leaf bool   // the terms of an atom are rewritten by a loop of its own, checked separately
}

var formOps = []opSpec{
	{name: "SubstTy", term: "SubstTy", ty: "SubstTy"},
	{name: "ReplaceMetaByTerm", term: "ReplaceSubTermBy"},
	{name: "SubstituteVarByMeta", leaf: true},
	{name: "ReplaceTermByTerm", leaf: true, bool: true},
	{name: "RenameVariables"},
}

type astTypes struct {
	form, term, ty *types.Interface
}

func (c *Ctx) astTypes(rule string) (astTypes, bool) {
	a := astTypes{c.p.iface("AST", "Form"), c.p.iface("AST", "Term"), c.p.iface("AST", "Ty")}
	if a.form == nil || a.term == nil || a.ty == nil {
		c.bad(rule, "AST", "", "the interfaces of formulas, terms and types do not exist")
		return a, false
	}
	return a, true
}

func isIface(t types.Type, i *types.Interface) bool {
	u, ok := t.Underlying().(*types.Interface)
	return ok && types.Identical(u, i)
}

// mappedList is the list made of f of every element of l (of type lt).
func mappedList(l *V, lt types.Type, f func(e *V) *V) *V {
	s := structOf(lt)
	vals := proj(l, 0, s)
	src := vals.key()
	srcOf[src] = vals
	return mkStruct(lt, []*V{vList(vEach(src, f(elemSym(src, listElem(lt)))))})
}

// homo is the value of type t obtained from v by applying fo to the formulas, te to the terms, ty to the types.
func (a astTypes) homo(t types.Type, v *V, fo, te, ty func(e *V) *V) *V {
	id := func(e *V) *V { return e }
	pick := func(f func(e *V) *V) func(e *V) *V {
		if f == nil {
			return id
		}
		return f
	}
	switch {
	case isIface(t, a.form):
		return pick(fo)(v)
	case isIface(t, a.term):
		return pick(te)(v)
	case isIface(t, a.ty):
		return pick(ty)(v)
	case isListLike(t):
		et := listElem(t)
		return mappedList(v, t, func(e *V) *V { return a.homo(et, e, fo, te, ty) })
	}
	if isCache(t) {
		return ignored
	}
	if s := structOf(t); s != nil && namedOf(t) != nil && relPkg(namedOf(t).Obj().Pkg()) == "AST" {
		fs := make([]*V, s.NumFields())
		for i := range fs {
			fs[i] = a.homo(s.Field(i).Type(), proj(v, i, s), fo, te, ty)
		}
		return &V{k: kStruct, t: t, a: fs}
	}
	return v
}

func methApp(m string, t types.Type, args []*V) func(e *V) *V {
	return func(e *V) *V { return vApp("M:"+m, t, append([]*V{e}, args...)...) }
}

// forms lists the formula constructors.
func (c *Ctx) formTypes(a astTypes) []*types.Named {
	var out []*types.Named
	for _, n := range c.p.implementers(a.form) {
		if relPkg(n.Obj().Pkg()) == "AST" {
			out = append(out, n)
		}
	}
	return out
}

func (c *Ctx) termTypes(a astTypes) []*types.Named {
	var out []*types.Named
	for _, n := range c.p.implementers(a.term) {
		if relPkg(n.Obj().Pkg()) == "AST" {
			out = append(out, n)
		}
	}
	return out
}

func (c *Ctx) tyTypes(a astTypes) []*types.Named {
	var out []*types.Named
	for _, n := range c.p.implementers(a.ty) {
		if relPkg(n.Obj().Pkg()) == "AST" {
			out = append(out, n)
		}
	}
	return out
}

// makers are left uninterpreted, they are the subject of their own property.
func isMaker(p *Prog, fn *ssa.Function) bool {
	switch p.key(fn) {
	case "AST.MakerId", "AST.MakerVar", "AST.MakerNewVar", "AST.MakerMeta", "AST.MakerTypedVar", "AST.MakerTyBV", "AST.MakerIndexFormula", "AST.MakerNewId", "AST.MkTyMeta":
		return true
	}
	return false
}

func astInterp(p *Prog) *Interp {
	in := newInterp(p)
	in.opaque = func(fn *ssa.Function) bool { return isMaker(p, fn) }
	return in
}

// paramSyms gives symbolic arguments for fn, with the receiver first.
func paramSyms(fn *ssa.Function) []*V { return symArgs(fn) }

func init() {
	register("A01", "For every formula constructor and every substitution or renaming operation, the value the method returns on every path is computed by shape analysis (abstract interpretation of the SSA, lists summarised per element) and compared with the homomorphic image required by the types of the constructor's fields: every subformula, term and type argument goes through the operation, in place, and nothing else changes.", ruleA01)
	register("A02", "As A01 for terms and types: replacing a term, instantiating a type, substituting a type variable reach every argument position, recursively, on every path.", ruleA02)
	register("A03", "The collectors (metavariables, subterms, subformulas, children) of every formula and term constructor are shown by shape analysis to take the contribution of every component; memoised metavariable sets are only kept when the components did not change.", ruleA03)
	register("A04", "Equality and copy of every formula, term and type constructor are compared by shape analysis with the required form: equality holds only for the same constructor and compares every semantic component; copy reproduces every component.", ruleA04)
	register("A05", "Effect analysis: no method or helper of the formula, term and type packages writes into memory reachable from its arguments, which are shared between branches.", ruleA05)
}

func ruleA01(c *Ctx) {
	c.rule("homomorphic", "the operation returns the same constructor with the operation applied to every component", 45)
	c.rule("atom-terms", "the terms of an atom are replaced by kind: a variable with the index sought is replaced, others kept; a function term is rebuilt from its rewritten arguments; a metavariable is kept", 8)
	c.rule("quantifier-renaming", "renaming gives every bound variable a new name, and replaces the bound variable by the variable with that very name and index, in the formula and in types", 2)
	c.rule("replaced-flag", "the flag returned with a replacement is the disjunction of the flags of the components", 6)
	a, ok := c.astTypes("homomorphic")
	if !ok {
		return
	}
	z := astNZ(c.p)
	for _, n := range c.formTypes(a) {
		for _, op := range formOps {
			fn := c.p.method(n, op.name)
			cons := fmt.Sprintf("%s.%s", n.Obj().Name(), op.name)
			if fn == nil || fn.Blocks == nil {
				c.bad("homomorphic", cons, "", "no such method")
				continue
			}
			args := symArgs(fn)
			recv := args[0]
			quant := false
			if s := structOf(n); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					quant = quant || typeIs(s.Field(i).Type(), "AST", "quantifier")
				}
			}
			if quant && op.name == "RenameVariables" {
				c.quantRename(n, fn)
				continue
			}
			hasTerms := false
			if s := structOf(n); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if et := listElem(s.Field(i).Type()); et != nil && isIface(et, a.term) {
						hasTerms = true
					}
				}
			}
			if op.leaf && hasTerms {
				c.atomTerms(n, fn, op, a, z)
				continue
			}
			in := astInterp(c.p)
			c.saw(fn)
			formT := c.p.namedType("AST", "Form")
			suffix := ""
			if op.bool {
				suffix = "#0"
			}
			fo := methApp(op.name+suffix, formT, args[1:])
			var te, ty func(e *V) *V
			if op.term != "" {
				te = methApp(op.term, nil, args[1:])
			}
			if op.ty != "" {
				ty = methApp(op.ty, nil, args[1:])
			}
			want := z.nz(a.homo(n, recv, fo, te, ty)).key()
			rs := in.run(fn, args)
			c.absorb(in)
			if len(rs) == 0 {
				c.bad("homomorphic", cons, c.p.fpos(fn), "the method never returns")
				continue
			}
			bad := false
			for _, r := range rs {
				got := z.nz(res(r.v, 0)).key()
				if got != want && !(got == recv.key() && allIgnored(n)) {
					c.bad("homomorphic", cons, c.p.fpos(fn), "returns\n      %s\n    expected\n      %s\n    when %s", got, want, factStr(r.st))
					bad = true
				}
			}
			if !bad {
				c.ok("homomorphic", cons, c.p.fpos(fn))
			}
			if op.bool {
				c.flagRule(n, fn, rs, a)
			}
		}
	}
	// the helper that rewrites the terms of function terms
	c.termListHelper(a, z)
}

// allIgnored says whether a constructor has no component.
func allIgnored(n *types.Named) bool {
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() != "index" && !isCache(s.Field(i).Type()) {
			return false
		}
	}
	return true
}

// flagRule: the flag is the disjunction of the flags of the components.
func (c *Ctx) flagRule(n *types.Named, fn *ssa.Function, rs []rcase, a astTypes) {
	cons := n.Obj().Name() + ".ReplaceTermByTerm"
	kids := map[string]bool{}
	var collect func(v *V, t types.Type)
	args := symArgs(fn)
	collect = func(v *V, t types.Type) {
		switch {
		case isIface(t, a.form):
			kids["M:ReplaceTermByTerm#1("+v.key()] = true
		case isListLike(t):
			if isIface(listElem(t), a.form) {
				kids["M:ReplaceTermByTerm#1(elem "+proj(v, 0, structOf(t)).key()] = true
			}
		default:
			if s := structOf(t); s != nil && namedOf(t) != nil && !isCache(t) {
				for i := 0; i < s.NumFields(); i++ {
					collect(proj(v, i, s), s.Field(i).Type())
				}
			}
		}
	}
	collect(args[0], n)
	bad := false
	for k := range kids {
		mention := false
		for _, r := range rs {
			f := res(r.v, 1)
			if strings.Contains(f.key(), k) || strings.Contains(factStr(r.st), k) {
				mention = true
			}
			// a path on which a component reports a replacement must not report none
			for _, ft := range r.st.facts {
				if ft.b && strings.HasPrefix(ft.v.key(), k) && f.key() == "false" {
					c.bad("replaced-flag", cons, c.p.fpos(fn), "reports no replacement although a component was replaced (%s)", ft.v.key())
					bad = true
				}
			}
		}
		if !mention {
			c.bad("replaced-flag", cons, c.p.fpos(fn), "the flag ignores the component %s", k)
			bad = true
		}
	}
	if len(kids) == 0 {
		for _, r := range rs {
			if res(r.v, 1).key() != "false" {
				c.bad("replaced-flag", cons, c.p.fpos(fn), "reports a replacement in a formula without components: %s", res(r.v, 1).key())
				bad = true
			}
		}
	}
	if !bad {
		c.ok("replaced-flag", cons, c.p.fpos(fn))
	}
}

// withElems makes the receiver of a predicate (or a list argument) whose terms are of one kind.
func withTermKind(v *V, t types.Type, kind types.Type, a astTypes) *V {
	switch {
	case isListLike(t) && isIface(listElem(t), a.term):
		s := structOf(t)
		vals := proj(v, 0, s)
		src := vals.key()
		srcOf[src] = vals
		return &V{k: kStruct, t: t, a: []*V{vList(vEach(src, elemSym(src, kind)))}}
	}
	if s := structOf(t); s != nil {
		fs := make([]*V, s.NumFields())
		for i := range fs {
			f := proj(v, i, s)
			if isListLike(s.Field(i).Type()) && isIface(listElem(s.Field(i).Type()), a.term) {
				f = withTermKind(f, s.Field(i).Type(), kind, a)
			}
			fs[i] = f
		}
		return &V{k: kStruct, t: t, a: fs}
	}
	return v
}

var termKinds = []string{"Var", "Fun", "Meta"}

// checkTermAlts checks what becomes of one term of the given kind.
func (c *Ctx) checkTermAlts(cons, where, kind string, e, got, old, new *V, z normal) bool {
	okAll := true
	fail := func(f string, x ...any) {
		okAll = false
		c.bad("atom-terms", cons, where, f, x...)
	}
	sawNew, sawKeep, sawRebuilt := false, false, false
	oldIdx := []string{"M:GetIndex(" + old.key() + ")", ".index(" + old.key() + ")"}
	idx := ".index(" + e.key() + ")"
	if kind == "Fun" {
		idx = ".index(.p(" + e.key() + "))"
	}
	eqs := func(g string) bool {
		for _, o := range oldIdx {
			for _, k := range []string{"==(" + o + ", " + idx + ")", "==(" + idx + ", " + o + ")"} {
				if strings.Contains(g, k) {
					return true
				}
			}
		}
		return false
	}
	for _, x := range alts(got) {
		g := vkey(x.g)
		u := unguarded(x)
		k := z.nz(u).key()
		switch {
		case k == new.key():
			sawNew = true
			if kind == "Meta" {
				if !strings.Contains(g, "M:Equals("+old.key()) && !strings.Contains(g, "M:Equals("+e.key()) {
					fail("a metavariable is replaced by the new term when %s", g)
				}
			} else if g != "" && (!eqs(g) || strings.Contains(g, "!(==(") && kind == "Var") {
				fail("a %s is replaced under the condition %s", kind, g)
			}
		case k == e.key():
			sawKeep = true
			if kind == "Fun" {
				fail("a function term is kept without looking at its arguments when %s", g)
			}
			if kind == "Var" && g != "" && !strings.Contains(g, "!(==(") {
				fail("a variable is kept under the condition %s", g)
			}
		case kind == "Fun" && u.k == kStruct && typeIs(u.t, "AST", "Fun"):
			sawRebuilt = true
			s := structOf(u.t)
			for i := 0; i < s.NumFields(); i++ {
				f := z.nz(u.a[i])
				from := proj(e, i, s)
				if listElem(s.Field(i).Type()) != nil && s.Field(i).Name() == "args" {
					if f.key() != fmt.Sprintf("AST.replaceTermInTermList#0(%s, %s, %s)", from.key(), old.key(), new.key()) && !strings.Contains(f.key(), "("+from.key()+", "+old.key()+", "+new.key()+")") {
						fail("the arguments of a function term become %s", f.key())
					}
				} else if !isCache(s.Field(i).Type()) && f.key() != from.key() {
					fail("component %s of a function term becomes %s", s.Field(i).Name(), f.key())
				}
			}
		default:
			fail("a %s becomes %s", kind, k)
		}
	}
	switch kind {
	case "Var":
		if !sawNew || !sawKeep {
			fail("a variable is not replaced by its index: becomes %s", z.nz(got).key())
		}
	case "Fun":
		if !sawRebuilt {
			fail("a function term is never rebuilt from its arguments: becomes %s", z.nz(got).key())
		}
	case "Meta":
		if !sawKeep {
			fail("a metavariable is never kept: becomes %s", z.nz(got).key())
		}
	}
	return okAll
}

func (c *Ctx) atomTerms(n *types.Named, fn *ssa.Function, op opSpec, a astTypes, z normal) {
	for _, kind := range termKinds {
		kt := c.p.namedType("AST", kind)
		if kt == nil {
			c.bad("atom-terms", "AST."+kind, "", "no such type")
			continue
		}
		cons := fmt.Sprintf("%s.%s/%s", n.Obj().Name(), op.name, kind)
		in := astInterp(c.p)
		args := symArgs(fn)
		sym := args[0]
		args[0] = withTermKind(sym, n, kt, a)
		rs := in.run(fn, args)
		c.absorb(in)
		bad := len(rs) == 0
		if bad {
			c.bad("atom-terms", cons, c.p.fpos(fn), "the method never returns")
		}
		s := structOf(n)
		for _, r := range rs {
			v := res(r.v, 0)
			if v.k != kStruct || !types.Identical(v.t, n) {
				// nothing replaced: the formula itself
				c.bad("atom-terms", cons, c.p.fpos(fn), "returns %s instead of a rebuilt atom", v.key())
				bad = true
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				from := proj(sym, i, s)
				if isCache(f.Type()) || f.Name() == "index" {
					continue
				}
				if et := listElem(f.Type()); et != nil && isIface(et, a.term) {
					src := proj(from, 0, structOf(f.Type())).key()
					l := v.a[i]
					if l.k == kStruct && len(l.a) == 1 {
						l = l.a[0]
					}
					if l.key() == src || l.key() == from.key() {
						l = symList(src, kt)
					}
					if l.k != kList || len(l.a) != 1 || l.a[0].k != kEach || l.a[0].g != nil || l.a[0].s != src {
						c.bad("atom-terms", cons, c.p.fpos(fn), "the terms become %s", l.key())
						bad = true
						continue
					}
					if !c.checkTermAlts(cons, c.p.fpos(fn), kind, elemSym(src, kt), l.a[0].a[0], args[1], args[2], z) {
						bad = true
					}
				} else if z.nz(v.a[i]).key() != from.key() {
					c.bad("atom-terms", cons, c.p.fpos(fn), "component %s becomes %s", f.Name(), z.nz(v.a[i]).key())
					bad = true
				}
			}
		}
		if !bad {
			c.ok("atom-terms", cons, c.p.fpos(fn))
		}
	}
}

// termListHelper checks the recursive helper that rewrites lists of terms.
func (c *Ctx) termListHelper(a astTypes, z normal) {
	fn := c.fn("atom-terms", "AST.replaceTermInTermList")
	if fn == nil {
		return
	}
	for _, kind := range termKinds {
		kt := c.p.namedType("AST", kind)
		cons := "replaceTermInTermList/" + kind
		in := astInterp(c.p)
		args := symArgs(fn)
		lt := fn.Params[0].Type()
		sym := args[0]
		args[0] = withTermKind(sym, lt, kt, a)
		src := proj(sym, 0, structOf(lt)).key()
		rs := in.run(fn, args)
		c.absorb(in)
		bad := len(rs) == 0
		for _, r := range rs {
			l := res(r.v, 0)
			if l.k == kStruct && len(l.a) == 1 {
				l = l.a[0]
			}
			if l.k == kApp || l.k == kSym {
				if l.key() == src || l.key() == sym.key() {
					l = symList(src, kt)
				}
			}
			if l.k != kList || len(l.a) != 1 || l.a[0].k != kEach || l.a[0].g != nil || l.a[0].s != src {
				c.bad("atom-terms", cons, c.p.fpos(fn), "the terms become %s", l.key())
				bad = true
				continue
			}
			if !c.checkTermAlts(cons, c.p.fpos(fn), kind, elemSym(src, kt), l.a[0].a[0], args[1], args[2], z) {
				bad = true
			}
		}
		if !bad {
			c.ok("atom-terms", cons, c.p.fpos(fn))
		}
	}
}

// quantRename checks the renaming of bound variables.
func (c *Ctx) quantRename(n *types.Named, fn *ssa.Function) {
	cons := n.Obj().Name() + ".RenameVariables"
	in := astInterp(c.p)
	args := symArgs(fn)
	rs := in.run(fn, args)
	c.absorb(in)
	where := c.p.fpos(fn)
	if len(rs) == 0 {
		c.bad("quantifier-renaming", cons, where, "the method never returns")
		return
	}
	okAll := true
	fail := func(f string, x ...any) {
		okAll = false
		c.bad("quantifier-renaming", cons, where, f, x...)
	}
	for _, r := range rs {
		all := r.v
		if all.k != kStruct || !types.Identical(all.t, n) {
			fail("returns %s", all.key())
			continue
		}
		tvs := find(all, func(x *V) bool { return x.k == kStruct && typeIs(x.t, "AST", "TypedVar") })
		if len(tvs) == 0 {
			fail("no new bound variable is introduced: %s", all.key())
			continue
		}
		var name, idx string
		for _, tv := range tvs {
			name, idx = tv.a[0].key(), tv.a[1].key()
			if !strings.Contains(name, "MakerNewVar") && !strings.Contains(idx, "MakerNewVar") {
				fail("the new bound variable %s is not a new one", tv.key())
			}
			if !strings.Contains(tv.a[2].key(), ".ty(elem ") {
				fail("the new bound variable has the type %s", tv.a[2].key())
			}
		}
		reps := find(all, func(x *V) bool { return x.k == kApp && strings.HasPrefix(x.s, "M:ReplaceTermByTerm#0") })
		if len(reps) == 0 {
			fail("the bound variable is not replaced in the formula")
		}
		for _, rp := range reps {
			o, nw := rp.a[1], rp.a[2]
			if !(o.k == kStruct && strings.HasPrefix(o.a[0].key(), ".index(elem ") && strings.HasPrefix(o.a[1].key(), ".name(elem ")) {
				fail("what is replaced is %s, not the bound variable", o.key())
			}
			nk := nw.key()
			if nw.k == kStruct && len(nw.a) == 2 {
				if nw.a[0].key() != idx || nw.a[1].key() != name {
					fail("the variable is replaced by %s but bound as (%s, %s)", nk, idx, name)
				}
			} else if idx != ".index("+nk+")" || name != ".name("+nk+")" {
				fail("the variable is replaced by %s but bound as (%s, %s)", nk, idx, name)
			}
		}
		if !has(all, func(x *V) bool { return x.k == kApp && x.s == "M:RenameVariables" }) {
			fail("the body is not renamed")
		}
		// type variables
		sub := find(all, func(x *V) bool { return x.k == kApp && x.s == "M:SubstTy" })
		if len(sub) == 0 {
			fail("the bound variable is not replaced in types")
		}
		for _, rp := range sub {
			o, nw := rp.a[1], rp.a[2]
			if o.k == kStruct && typeIs(o.t, "AST", "TyBound") {
				if !(strings.HasPrefix(o.a[0].key(), ".name(elem ") && strings.HasPrefix(o.a[1].key(), ".index(elem ")) {
					fail("what is replaced in types is %s, not the bound variable", o.key())
				}
				if nw.k == kStruct && typeIs(nw.t, "AST", "TyBound") && (nw.a[0].key() != name || nw.a[1].key() != idx) {
					fail("the variable is replaced in types by %s but bound as (%s, %s)", nw.key(), idx, name)
				}
			}
		}
	}
	if okAll {
		c.ok("quantifier-renaming", cons, where)
	}
}
