package main

// Normal forms of abstract values, and the values the rules expect.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ignored stands for a part the rules do not constrain (memoised data, the serial number of a formula).
var ignored = &V{k: kSym, s: "_"}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isCache(t types.Type) bool { return t != nil && isNamedLib(t, "Cache") }

// typeIs says whether t is the named type pkg.name of the module.
func typeIs(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg()) == pkg
}

// listElem is the element type of a Lib.List.
func listElem(t types.Type) types.Type {
	n := namedOf(t)
	if n == nil || !isListLike(t) || n.TypeArgs().Len() != 1 {
		return nil
	}
	return n.TypeArgs().At(0)
}

// ctorName is the name of a value constructor, for messages.
func ctorName(t types.Type) string { return typeName(t) }

type normal struct {
	drop  func(st types.Type, field *types.Var) bool // fields that are not compared
	whole bool                                       // everything is compared
}

func (z normal) nz(v *V) *V {
	if v == nil || z.whole {
		return v
	}
	if isCache(v.t) && v.k != kApp && v.k != kSym {
		return ignored
	}
	n := *v
	n.key_ = ""
	n.g = z.nz(v.g)
	n.a = make([]*V, len(v.a))
	for i, x := range v.a {
		n.a[i] = z.nz(x)
	}
	switch v.k {
	case kStruct:
		s := structOf(v.t)
		if s == nil || s.NumFields() != len(n.a) {
			return &n
		}
		for i := range n.a {
			if isCache(s.Field(i).Type()) || z.drop != nil && z.drop(v.t, s.Field(i)) {
				n.a[i] = ignored
			}
		}
		return collapse(v.t, n.a)
	case kUnion:
		return union(n.a...)
	case kList:
		if e := eta(&n); e != &n {
			return e
		}
	case kApp:
		switch v.s {
		case "and", "or":
			if r := nary(v.s, n.a); r != nil {
				return r
			}
		}
	}
	return &n
}

// collapse replaces a struct made of the fields of one value by that value.
func collapse(t types.Type, fs []*V) *V {
	s := structOf(t)
	var base *V
	for i, f := range fs {
		if f == ignored {
			continue
		}
		f = eta(f)
		if f.k != kApp || f.s != "."+s.Field(i).Name() || len(f.a) != 1 || f.g != nil || base != nil && base.key() != f.a[0].key() {
			return &V{k: kStruct, t: t, a: fs}
		}
		base = f.a[0]
	}
	if base != nil && (base.t == nil || types.Identical(base.t, t) || types.IsInterface(base.t)) {
		return base
	}
	return &V{k: kStruct, t: t, a: fs}
}

// alts lists the alternatives of a value.
func alts(v *V) []*V {
	if v.k == kUnion {
		return v.a
	}
	return []*V{v}
}

// fields of an opaque value or a struct
func fieldOf(v *V, i int, s *types.Struct) *V { return proj(v, i, s) }

// has says whether v contains an application of op.
func has(v *V, f func(x *V) bool) bool {
	if v == nil {
		return false
	}
	if f(v) {
		return true
	}
	for _, x := range v.a {
		if has(x, f) {
			return true
		}
	}
	return has(v.g, f)
}

// find collects the subvalues for which f holds.
func find(v *V, f func(x *V) bool) []*V {
	var out []*V
	seen := map[string]bool{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil {
			return
		}
		if f(x) && !seen[x.key()] {
			seen[x.key()] = true
			out = append(out, x)
		}
		for _, y := range x.a {
			walk(y)
		}
		walk(x.g)
	}
	walk(v)
	return out
}

func isApp(v *V, op string, n int) bool {
	return v != nil && v.k == kApp && v.s == op && (n < 0 || len(v.a) == n)
}

func factKeys(st *state) []string {
	var out []string
	for _, f := range st.facts {
		out = append(out, f.cond().key())
	}
	sort.Strings(out)
	return out
}

func factStr(st *state) string { return strings.Join(factKeys(st), "; ") }

// method finds the method of a named type (value receiver), as a function with a body.
func (p *Prog) method(n *types.Named, name string) *ssa.Function {
	ms := types.NewMethodSet(n)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	ms = types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) fpos(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return p.pos(f.Pos())
}

// iface finds an interface type of the module.
func (p *Prog) iface(pkg, name string) *types.Interface {
	n := p.namedType(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// cases runs fn on the given arguments and returns the frozen results.
type rcase struct {
	v  *V
	st *state
}

func (in *Interp) run(fn *ssa.Function, args []*V) []rcase {
	var out []rcase
	for _, r := range in.call(fn, args, nil, newState(), "", nil) {
		out = append(out, rcase{in.frz(r.st, r.v), r.st})
	}
	return out
}

func res(v *V, i int) *V {
	if v.k == kTuple && i < len(v.a) {
		return v.a[i]
	}
	if i == 0 {
		return v
	}
	return top
}
