package main

// The containers of the search (formulas with their terms, lists of them, substitutions with their formulas):
// models of their small operations, each justified by an obligation of its own (see copyRules).

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin is the generic function fn is an instance of, or fn.
func origin(fn *ssa.Function) *ssa.Function {
	if fn.Origin() != nil {
		return fn.Origin()
	}
	return fn
}

// isCopyFn recognises the copying functions: a method Copy, or a function CopyX that copies a list.
func isCopyFn(p *Prog, fn *ssa.Function) bool {
	o := origin(fn)
	if fnPkg(fn) == nil || !p.inModule(fn) && fn.Synthetic == "" {
		return false
	}
	pk := relPkg(fnPkg(fn))
	sig := o.Signature
	if sig.Results().Len() != 1 {
		return false
	}
	if sig.Recv() != nil && pk == "AST" {
		return o.Name() == "Copy" && sig.Params().Len() == 0
	}
	if sig.Recv() != nil {
		rt := sig.Recv().Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		if o.Name() != "Copy" || !types.Identical(sig.Results().At(0).Type(), rt) {
			return false
		}
		if pk == "Lib" {
			return isNamedLib(rt, "List") || isNamedLib(rt, "Set")
		}
		switch typeName(rt) {
		case "Search.State", "incremental.SearchNode":
			return false // checked on its own
		}
		return pk == "Core" || pk == "Search" || pk == "Unif"
	}
	switch p.key(o) {
	case "Core.CopyMetaGenList", "Core.CopySubstAndFormList", "Search.CopyProofStructList", "Core.CopyIntSubstAndFormAndTermsList", "Lib.ListCpy":
		return true
	}
	return false
}

type hookFn func(in *Interp, cc *callCtx) ([]retCase, bool)

func hooks(hs ...hookFn) hookFn {
	return func(in *Interp, cc *callCtx) ([]retCase, bool) {
		for _, h := range hs {
			if r, ok := h(in, cc); ok {
				return r, ok
			}
		}
		return nil, false
	}
}

// copyHook: copies are their originals.
func copyHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil || len(cc.args) == 0 || !isCopyFn(in.p, cc.fn) {
		return nil, false
	}
	v := cc.args[0]
	if _, ok := cc.fn.Params[0].Type().(*types.Pointer); ok {
		v = in.deref(cc.st, v)
	}
	return []retCase{{in.frz(cc.st, v), cc.st}}, true
}

// fieldNamed projects a field by name.
func fieldNamed(v *V, t types.Type, name string) *V {
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return proj(v, i, s)
		}
	}
	return nil
}

// getHook: the accessors of a formula with terms return its parts.
func getHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil || len(cc.args) != 1 {
		return nil, false
	}
	var f string
	switch in.p.key(cc.fn) {
	case "(Core.FormAndTerms).GetForm":
		f = "form"
	case "(Core.FormAndTerms).GetTerms":
		f = "Terms"
	default:
		return nil, false
	}
	if v := fieldNamed(cc.args[0], cc.fn.Signature.Recv().Type(), f); v != nil {
		return []retCase{{v, cc.st}}, true
	}
	return nil, false
}

// appendHook: inserting into a list of formulas unless it is there already is inserting.
func appendHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil {
		return nil, false
	}
	var xs *V
	switch in.p.key(origin(cc.fn)) {
	case "(Core.FormAndTermsList).AppendIfNotContains", "(Core.FormAndTermsList).Append", "Glob.AppendIfNotContains", "Core.AppendIfNotContainsSubstAndForm":
		xs = vList(cc.args[1])
	case "(Core.FormAndTermsList).Merge":
		xs = in.slice(cc.st, cc.args[1])
	default:
		return nil, false
	}
	l := in.slice(cc.st, cc.args[0])
	if l.k != kList || xs.k != kList {
		return nil, false
	}
	return []retCase{{&V{k: kList, t: cc.res, a: append(append([]*V{}, l.a...), in.frzAll(cc.st, xs.a)...)}, cc.st}}, true
}

// makerHook: AST.MakerX builds the formula (its serial number does not matter).
func makerHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil {
		return nil, false
	}
	k := in.p.key(cc.fn)
	if !strings.HasPrefix(k, "AST.Maker") {
		return nil, false
	}
	n := in.p.namedType("AST", strings.TrimPrefix(k, "AST.Maker"))
	form := in.p.iface("AST", "Form")
	if n == nil || form == nil || !types.Implements(n, form) {
		return nil, false
	}
	return []retCase{{mkForm(in.p, n, in.frzAll(cc.st, cc.args)...), cc.st}}, true
}

// mkForm is a formula made with constructor n of the given components (list and formula components in order).
func mkForm(p *Prog, n *types.Named, parts ...*V) *V {
	s := structOf(n)
	v := &V{k: kStruct, t: n}
	j := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Name() == "index" || isCache(f.Type()):
			v.a = append(v.a, ignored)
		case typeIs(f.Type(), "AST", "quantifier"):
			qs := structOf(f.Type())
			q := &V{k: kStruct, t: f.Type()}
			for k := 0; k < qs.NumFields(); k++ {
				g := qs.Field(k)
				switch {
				case isListLike(g.Type()) && j < len(parts), isIface(g.Type(), p.iface("AST", "Form")) && j < len(parts):
					q.a = append(q.a, parts[j])
					j++
				default:
					q.a = append(q.a, ignored)
				}
			}
			v.a = append(v.a, q)
		case j < len(parts):
			v.a = append(v.a, parts[j])
			j++
		default:
			v.a = append(v.a, ignored)
		}
	}
	return v
}

// formParts lists the semantic components of a formula v of constructor n.
func formParts(v *V, n types.Type) (vs []*V, ts []types.Type) {
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "index" || isCache(f.Type()) {
			continue
		}
		x := proj(v, i, s)
		if typeIs(f.Type(), "AST", "quantifier") {
			a, b := formParts(x, f.Type())
			vs, ts = append(vs, a...), append(ts, b...)
			continue
		}
		if b, ok := f.Type().Underlying().(*types.Basic); ok && (f.Name() == "symbol" || b.Info()&types.IsString != 0) {
			continue
		}
		vs, ts = append(vs, x), append(ts, f.Type())
	}
	return vs, ts
}

// proofBookkeeping: recording the proof does not change the search.
func proofHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil {
		return nil, false
	}
	k := in.p.key(cc.fn)
	switch {
	case strings.HasPrefix(k, "(*Search.State).SetCurrentProof"), k == "Search.setStateRules":
		var fa []*V
		for i, a := range cc.args {
			if i == 0 {
				continue
			}
			fa = append(fa, in.frz(cc.st, a))
		}
		if k == "Search.setStateRules" {
			fa = in.frzAll(cc.st, cc.args[1:])
		}
		cc.st.events = append(cc.st.events, vApp(k, nil, fa...))
		return []retCase{{&V{k: kTuple}, cc.st}}, true
	case k == "Search.WriteExchanges", k == "(Search.State).Print", k == "Glob.PrintInfo":
		return []retCase{{&V{k: kTuple}, cc.st}}, true
	}
	if cc.fn.Signature.Recv() == nil && cc.fn.Signature.Results().Len() == 0 && (cc.fn.Name() == "debug" || strings.HasPrefix(k, "Glob.Print")) {
		return []retCase{{&V{k: kTuple}, cc.st}}, true
	}
	return nil, false
}

// coreInterp interprets the search with the models above.
func coreInterp(p *Prog) *Interp {
	in := newInterp(p)
	in.opaque = func(fn *ssa.Function) bool {
		if fn.Name() == "ToString" || isMaker(p, fn) {
			return true
		}
		return false
	}
	in.hook = hooks(copyHook, getHook, appendHook, onceHook, makerHook, proofHook)
	return in
}

// withGlobals fixes the value of some boolean globals ("pkg.name").
func (in *Interp) withGlobals(vals map[string]bool) {
	old := in.global
	in.global = func(g *ssa.Global) *V {
		if g.Pkg != nil {
			if b, ok := vals[relPkg(g.Pkg.Pkg)+"."+g.Name()]; ok {
				return vBool(b)
			}
		}
		if old != nil {
			return old(g)
		}
		return nil
	}
}

// FormAndTerms helpers
func fat(p *Prog, form, terms *V) *V {
	return &V{k: kStruct, t: p.namedType("Core", "FormAndTerms"), a: []*V{form, terms}}
}

// onceHook: adding to a list what it does not hold yet appends the value, marked.
func onceHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil {
		return nil, false
	}
	once := func(xs []*V) []*V {
		var out []*V
		for _, x := range in.frzAll(cc.st, xs) {
			if isItem(x) {
				y := *x
				y.key_ = ""
				y.a = []*V{vApp("once", x.a[0].t, x.a[0])}
				out = append(out, &y)
			} else {
				out = append(out, vApp("once", x.t, x))
			}
		}
		return out
	}
	switch k := in.p.key(origin(cc.fn)); k {
	case "(*Lib.List[T]).Add", "Lib.ListAdd":
		i := 1
		if k != "Lib.ListAdd" {
			i = 2
		}
		if len(cc.args) != i+1 {
			return nil, false
		}
		xs := in.slice(cc.st, cc.args[i])
		old := cc.args[0]
		if i == 2 {
			old = in.deref(cc.st, old)
		}
		var t types.Type
		if old.t != nil {
			t = old.t
		} else if i == 1 {
			t = cc.res
		}
		st := structOf(t)
		if xs.k != kList || st == nil {
			return nil, false
		}
		l := in.slice(cc.st, proj(old, 0, st))
		if l.k != kList {
			return nil, false
		}
		n := &V{k: kStruct, t: t, a: []*V{{k: kList, t: l.t, a: append(append([]*V{}, l.a...), once(xs.a)...)}}}
		if i == 1 {
			return []retCase{{n, cc.st}}, true
		}
		in.store(cc.st, cc.args[0], n)
		return []retCase{{&V{k: kTuple}, cc.st}}, true
	}
	return nil, false
}

// textHook: formatting is concatenation, and printing is printing the text.
func textHook(in *Interp, cc *callCtx) ([]retCase, bool) {
	if cc.fn == nil {
		return nil, false
	}
	str := types.Typ[types.String]
	k := in.p.key(cc.fn)
	list := func(v *V) []*V {
		if isNilV(v) {
			return []*V{}
		}
		l := in.slice(cc.st, v)
		if l.k != kList {
			return nil
		}
		for _, x := range l.a {
			if isItem(x) {
				return nil
			}
		}
		if l.a == nil {
			return []*V{}
		}
		return in.frzAll(cc.st, l.a)
	}
	var text *V
	switch k {
	case "fmt.Sprintf", "fmt.Printf":
		if len(cc.args) != 2 {
			return nil, false
		}
		if l := list(cc.args[1]); l != nil {
			text = format(in.frz(cc.st, cc.args[0]), l)
		}
	case "fmt.Sprint", "fmt.Print", "fmt.Println":
		l := list(cc.args[0])
		if l == nil || len(l) > 1 && k != "fmt.Println" {
			return nil, false
		}
		text = vConst(constant.MakeString(""), str)
		for i, x := range l {
			if i > 0 {
				text = concat(text, vConst(constant.MakeString(" "), str), str)
			}
			text = concat(text, asText(x), str)
		}
		if k == "fmt.Println" {
			text = concat(text, vConst(constant.MakeString("\n"), str), str)
		}
	case "strconv.Itoa":
		return []retCase{{asText(in.frz(cc.st, cc.args[0])), cc.st}}, true
	}
	if text == nil {
		return nil, false
	}
	if k == "fmt.Sprintf" || k == "fmt.Sprint" {
		return []retCase{{text, cc.st}}, true
	}
	st := cc.st.clone()
	ev := append([]*V{}, st.events...)
	if n := len(ev); n > 0 && ev[n-1].k == kApp && ev[n-1].s == "print" && len(ev[n-1].a) == 1 {
		ev[n-1] = vApp("print", nil, concat(ev[n-1].a[0], text, str))
	} else {
		ev = append(ev, vApp("print", nil, text))
	}
	st.events = ev
	return []retCase{{&V{k: kTuple, t: cc.res, a: []*V{vSym("printed", nil), vNil(nil)}}, st}}, true
}

func asText(v *V) *V {
	str := types.Typ[types.String]
	if v.k == kConst && v.cv != nil {
		if v.cv.Kind() == constant.String {
			return vConst(v.cv, str)
		}
		if v.cv.Kind() == constant.Int && v.t != nil && types.Identical(v.t, types.Typ[types.Int]) {
			return vConst(constant.MakeString(v.cv.ExactString()), str)
		}
	}
	if v.t != nil && types.Identical(v.t, str) || v.k == kApp && v.s == "text" {
		return v
	}
	if v.k == kApp && v.t != nil {
		if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return v
		}
	}
	return vApp("text", str, v)
}

// format gives the text of a format with verbs that only insert their argument.
func format(f *V, args []*V) *V {
	str := types.Typ[types.String]
	if f.k != kConst || f.cv == nil || f.cv.Kind() != constant.String {
		return nil
	}
	s := constant.StringVal(f.cv)
	text := vConst(constant.MakeString(""), str)
	lit := ""
	flush := func() {
		if lit != "" {
			text = concat(text, vConst(constant.MakeString(lit), str), str)
		}
		lit = ""
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += s[i : i+1]
			continue
		}
		i++
		if i >= len(s) {
			return nil
		}
		switch s[i] {
		case '%':
			lit += "%"
		case 's', 'v', 'd':
			if len(args) == 0 {
				return nil
			}
			flush()
			text = concat(text, asText(args[0]), str)
			args = args[1:]
		default:
			return nil
		}
	}
	flush()
	if len(args) > 0 {
		return nil
	}
	return text
}
