package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is what a hook sees of a call.
type callCtx struct {
	fr   *frame
	fn   *ssa.Function
	args []*V
	st   *state
	ctx  string
	res  types.Type
	site ssa.Instruction
}

// --------------------------------------------------------------------------------------------------------
// Values

func zero(t types.Type) *V {
	if isSetType(t) {
		return &V{k: kList, set: true, t: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return vConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return vConst(constant.MakeInt64(0), t)
		}
		return vNil(t)
	case *types.Struct:
		fs := make([]*V, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return &V{k: kStruct, t: t, a: fs}
	case *types.Array:
		l := &V{k: kList, t: t}
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				l.a = append(l.a, zero(u.Elem()))
			}
			return l
		}
		return top
	case *types.Tuple:
		tu := &V{k: kTuple}
		for i := 0; i < u.Len(); i++ {
			tu.a = append(tu.a, zero(u.At(i).Type()))
		}
		return tu
	}
	return vNil(t)
}

func (in *Interp) val(st *state, v ssa.Value) *V {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zero(c.Type())
		}
		return vConst(c.Value, c.Type())
	case *ssa.Function:
		return &V{k: kClosure, fn: c, t: c.Type()}
	case *ssa.Global:
		return &V{k: kPtr, loc: in.globalLoc(c), t: c.Type()}
	case *ssa.Builtin:
		return vSym("builtin "+c.Name(), c.Type())
	}
	if x, ok := st.env[v]; ok {
		return x
	}
	return top
}

func (in *Interp) globalLoc(g *ssa.Global) *Loc {
	id := "glob " + relPkg(g.Pkg.Pkg) + "." + g.Name()
	if l := in.locs[id]; l != nil {
		return l
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var init *V
	if in.global != nil {
		init = in.global(g)
	}
	if init == nil {
		init = vSym(id, t)
	}
	l := &Loc{id: id, t: t, init: init}
	in.locs[id] = l
	return l
}

func (in *Interp) loc(id string, t types.Type) *Loc {
	if l := in.locs[id]; l != nil {
		return l
	}
	l := &Loc{id: id, t: t}
	in.locs[id] = l
	return l
}

// objLoc is the cell an opaque pointer points to.
func (in *Interp) objLoc(p *V) *Loc {
	id := "*" + p.key()
	if l := in.locs[id]; l != nil {
		return l
	}
	var et types.Type
	if p.t != nil {
		if pt, ok := p.t.Underlying().(*types.Pointer); ok {
			et = pt.Elem()
		}
	}
	l := &Loc{id: id, t: et, init: vApp("*", et, p)}
	in.locs[id] = l
	return l
}

func (in *Interp) cell(st *state, l *Loc) *V {
	if v, ok := st.heap[l]; ok {
		return v
	}
	if l.init != nil {
		return l.init
	}
	return top
}

// proj is field i of v.
func proj(v *V, i int, st *types.Struct) *V {
	switch v.k {
	case kStruct:
		if i < len(v.a) {
			return v.a[i]
		}
		return top
	case kUnion:
		var out []*V
		for _, m := range v.a {
			out = append(out, guarded(proj(unguarded(m), i, st), m.g))
		}
		return union(out...)
	case kSym, kApp:
		if st == nil {
			st = structOf(v.t)
		}
		if st == nil {
			return top
		}
		f := vApp("."+st.Field(i).Name(), st.Field(i).Type(), v)
		return coerce(f)
	}
	return top
}

// coerce sees opaque sets as lists.
func coerce(v *V) *V {
	if (v.k == kSym || v.k == kApp) && v.t != nil && isSetType(v.t) {
		return asList(v, setElem(v.t), true)
	}
	return v
}

func setElem(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
		return n.TypeArgs().At(0)
	}
	return nil
}

// expand turns an opaque struct into a struct of projections.
func expand(v *V) *V {
	if v.k != kSym && v.k != kApp {
		return v
	}
	s := structOf(v.t)
	if s == nil {
		return v
	}
	fs := make([]*V, s.NumFields())
	for i := range fs {
		fs[i] = proj(v, i, s)
	}
	return &V{k: kStruct, t: v.t, a: fs}
}

// at is the value inside of v along path.
func at(v *V, path []int) *V {
	for _, i := range path {
		if v.k == kList {
			v = index(v, vInt(i))
			continue
		}
		v = proj(v, i, structOf(v.t))
	}
	return v
}

// put replaces the value inside of v along path.
func put(v *V, path []int, x *V) *V {
	if len(path) == 0 {
		return x
	}
	if v.k == kList {
		return setIndex(v, vInt(path[0]), func(o *V) *V { return put(o, path[1:], x) })
	}
	if v.k == kUnion {
		return mapU(v, func(m *V) *V { return put(m, path, x) })
	}
	v = expand(v)
	if v.k != kStruct || path[0] >= len(v.a) {
		return top
	}
	fs := append([]*V{}, v.a...)
	fs[path[0]] = put(fs[path[0]], path[1:], x)
	return mkStruct(v.t, fs)
}

func index(l, i *V) *V {
	if l.k == kUnion {
		var out []*V
		for _, m := range l.a {
			out = append(out, guarded(index(unguarded(m), i), m.g))
		}
		return union(out...)
	}
	if l.k == kList {
		if i.k == kConst && i.cv != nil {
			if n, ok := constant.Int64Val(i.cv); ok {
				for j, it := range l.a {
					if isItem(it) {
						break
					}
					if int64(j) == n {
						return it
					}
				}
			}
		}
		if len(l.a) == 1 && l.a[0].k == kEach && i.k != kIdx && i.k != kUnion && i.k != kTop {
			// the n-th element of a list made of one image per element
			it := l.a[0]
			if it.g == nil {
				et := it.a[0].t
				if src := srcOf[it.s]; src != nil && src.t != nil {
					if u, ok := src.t.Underlying().(*types.Slice); ok {
						et = u.Elem()
					}
				}
				r := rename(it.a[0], "elem "+it.s, vApp("nth", et, srcVal(it.s), i))
				r = rename(r, "idx "+it.s, i)
				if !strings.Contains(r.key(), "elem "+it.s) && !strings.Contains(r.key(), "idx "+it.s) {
					return trivial(r)
				}
			}
		}
		if i.k == kIdx {
			pos := -1
			if len(i.a) == 1 && i.a[0].k == kConst {
				if n, ok := constant.Int64Val(i.a[0].cv); ok {
					pos = int(n)
				}
			}
			if pos >= 0 && pos < len(l.a) {
				it := l.a[pos]
				if isItem(it) && (it.s == i.s || i.s == fmt.Sprintf("@%d", pos)) {
					return it.a[0]
				}
				if !isItem(it) && i.s == fmt.Sprintf("@%d", pos) {
					return it
				}
			}
		}
	}
	l = freeze(nil, l)
	var et types.Type
	if l.t != nil {
		switch u := l.t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Map:
			et = u.Elem()
		}
	}
	if et == nil {
		for _, it := range l.a {
			if l.k == kList && isItem(it) {
				et = it.a[0].t
			} else if l.k == kList {
				et = it.t
			}
		}
	}
	return vApp("nth", et, l, i)
}

// trivial resolves guards that compare a value with itself.
func trivial(v *V) *V {
	if v == nil {
		return v
	}
	if v.k == kApp && v.s == "==" && len(v.a) == 2 && v.a[0].key() == v.a[1].key() {
		return vBool(true)
	}
	if !strings.Contains(v.key(), "[if ") && v.k != kApp {
		return v
	}
	n := *v
	n.key_ = ""
	n.a = nil
	for _, x := range v.a {
		y := trivial(x)
		if x.g != nil && v.k == kUnion {
			g := trivial(x.g)
			if g.k == kConst && g.cv != nil && g.cv.Kind() == constant.Bool {
				if !constant.BoolVal(g.cv) {
					continue
				}
				g = nil
			}
			w := *y
			w.key_ = ""
			w.g = g
			y = &w
		}
		n.a = append(n.a, y)
	}
	switch {
	case v.k == kUnion:
		if len(n.a) == 0 {
			return v
		}
		return union(n.a...)
	case v.k == kApp && v.s == "!":
		return vNot(n.a[0])
	case v.k == kApp && v.s == "and":
		if r := vAnd(n.a...); r != nil {
			return r
		}
		return vBool(true)
	case v.k == kApp && v.s == "or":
		if r := vOr(n.a...); r != nil {
			return r
		}
		return vBool(true)
	}
	return &n
}

func srcVal(s string) *V {
	if v := srcOf[s]; v != nil {
		return v
	}
	return vSym(s, nil)
}

func setIndex(l, i *V, f func(*V) *V) *V {
	if l.k != kList {
		return top
	}
	n := *l
	n.key_ = ""
	n.a = append([]*V{}, l.a...)
	if i.k == kConst && i.cv != nil {
		if c, ok := constant.Int64Val(i.cv); ok {
			for j, it := range n.a {
				if isItem(it) {
					break
				}
				if int64(j) == c {
					n.a[j] = f(it)
					return &n
				}
			}
		}
	}
	if i.k == kIdx && len(i.a) == 1 {
		if c, ok := constant.Int64Val(i.a[0].cv); ok && int(c) < len(n.a) {
			it := n.a[c]
			if isItem(it) && (it.s == i.s || i.s == fmt.Sprintf("@%d", c)) {
				m := *it
				m.key_ = ""
				m.a = []*V{f(it.a[0])}
				n.a[c] = &m
				return &n
			}
			if !isItem(it) && i.s == fmt.Sprintf("@%d", c) {
				n.a[c] = f(it)
				return &n
			}
		}
	}
	if len(n.a) == 1 && n.a[0].k == kEach && n.a[0].g == nil && i.k != kIdx && i.k != kTop && i.k != kUnion {
		// the element at this position is replaced
		it := n.a[0]
		at := eq(&V{k: kIdx, s: it.s, a: []*V{vInt(0)}, t: types.Typ[types.Int]}, i)
		m := *it
		m.key_ = ""
		m.a = []*V{union(guarded(f(it.a[0]), at), guarded(it.a[0], vNot(at)))}
		n.a[0] = &m
		return &n
	}
	// some element is replaced
	for j, it := range n.a {
		if isItem(it) {
			m := *it
			m.key_ = ""
			m.a = []*V{join(it.a[0], f(it.a[0]))}
			n.a[j] = &m
		} else {
			n.a[j] = join(it, f(it))
		}
	}
	return &n
}

// slice resolves a slice value to the list of its elements.
func (in *Interp) slice(st *state, v *V) *V {
	switch v.k {
	case kList:
		return v
	case kNil:
		return &V{k: kList, t: v.t}
	case kPtr:
		return at(in.cell(st, v.loc), v.path)
	case kSym, kApp:
		if v.t != nil {
			if s, ok := v.t.Underlying().(*types.Slice); ok {
				if l := in.locs["arr "+v.key()]; l != nil {
					if x, ok := st.heap[l]; ok {
						return x
					}
				}
				return asList(v, s.Elem(), false)
			}
		}
	}
	return v
}

// freeze replaces the addresses of arrays by their contents, so that the value no longer depends on the heap.
func freeze(in *Interp, v *V) *V { return freezeIn(in, nil, v) }

func freezeIn(in *Interp, st *state, v *V) *V {
	if v == nil {
		return nil
	}
	switch v.k {
	case kSym, kApp:
		if in != nil && st != nil && v.t != nil && len(in.locs) > 0 {
			if l := in.locs["arr "+v.key()]; l != nil {
				if x, ok := st.heap[l]; ok {
					return freezeIn(nil, nil, x)
				}
			}
		}
		if v.k == kSym {
			return v
		}
		// the arguments are what they were then
		return freezeArgs(nil, nil, v)
	case kPtr:
		if in != nil && st != nil && v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				return freezeIn(in, st, in.slice(st, v))
			}
		}
		return v
	case kStruct, kList, kTuple, kUnion, kEach, kMay, kStar:
		return freezeArgs(in, st, v)
	}
	return v
}

func freezeArgs(in *Interp, st *state, v *V) *V {
	switch v.k {
	case kStruct, kList, kTuple, kUnion, kEach, kMay, kStar, kApp:
		changed := false
		na := make([]*V, len(v.a))
		for i, x := range v.a {
			na[i] = freezeIn(in, st, x)
			changed = changed || na[i] != x
		}
		if v.k == kStruct {
			if changed {
				return mkStruct(v.t, na)
			}
			return mkStruct(v.t, v.a)
		}
		if changed {
			n := *v
			n.key_ = ""
			n.a = na
			v = &n
		}
		if v.k == kList {
			return eta(v)
		}
	}
	return v
}

func (in *Interp) frz(st *state, v *V) *V { return freezeIn(in, st, v) }

func (in *Interp) frzAll(st *state, vs []*V) []*V {
	out := make([]*V, len(vs))
	for i, v := range vs {
		out[i] = in.frz(st, v)
	}
	return out
}

// deref is the value a pointer points to.
func (in *Interp) deref(st *state, p *V) *V {
	switch p.k {
	case kPtr:
		return at(in.cell(st, p.loc), p.path)
	case kIdxPtr:
		l := in.slice(st, p.a[0])
		return at(index(l, p.a[1]), p.path)
	case kSym, kApp:
		return coerce(in.cell(st, in.objLoc(p)))
	}
	return top
}

func (in *Interp) store(st *state, p, v *V) {
	switch p.k {
	case kPtr:
		st.heap[p.loc] = put(in.cell(st, p.loc), p.path, v)
	case kIdxPtr:
		base := p.a[0]
		f := func(o *V) *V { return put(o, p.path, v) }
		if base.k == kPtr {
			st.heap[base.loc] = put(in.cell(st, base.loc), base.path, setIndex(at(in.cell(st, base.loc), base.path), p.a[1], f))
			return
		}
		l := in.slice(st, base)
		if (base.k == kSym || base.k == kApp) && l.k == kList {
			// the array is shared by everyone who holds the slice
			st.heap[in.loc("arr "+base.key(), base.t)] = setIndex(l, p.a[1], f)
			return
		}
		if p.back != nil && l.k == kList {
			in.store(st, p.back, setIndex(l, p.a[1], f))
			return
		}
		in.note("store into an element of a list that is not tracked")
		if in.voids {
			st.events = append(st.events, vApp("store", nil, base, p.a[1], v))
		}
	case kSym, kApp:
		st.heap[in.objLoc(p)] = v
	case kNil:
	default:
		in.note("store through an untracked pointer")
	}
}

func subPtr(in *Interp, p *V, i int, t types.Type) *V {
	switch p.k {
	case kPtr:
		return &V{k: kPtr, loc: p.loc, path: append(append([]int{}, p.path...), i), t: t}
	case kIdxPtr:
		n := *p
		n.key_ = ""
		n.path = append(append([]int{}, p.path...), i)
		n.t = t
		return &n
	case kSym, kApp:
		return &V{k: kPtr, loc: in.objLoc(p), path: []int{i}, t: t}
	}
	return top
}

// --------------------------------------------------------------------------------------------------------
// Instructions

func one(s *state) []*state { return []*state{s} }

// instr interprets an instruction; no state means that execution does not continue.
func (in *Interp) instr(fr *frame, ins ssa.Instruction, st *state) []*state {
	set := func(v ssa.Value, x *V) []*state {
		st.env[v] = x
		return one(st)
	}
	switch i := ins.(type) {
	case *ssa.DebugRef, *ssa.RunDefers, *ssa.Defer:
		return one(st)
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		l := in.loc(fmt.Sprintf("%s/%s:%s", fr.ctx, fr.fn.Name(), i.Name()), et)
		st.heap[l] = zero(et)
		return set(i, &V{k: kPtr, loc: l, t: i.Type()})
	case *ssa.Store:
		p := in.val(st, i.Addr)
		if p.k == kUnion {
			return in.split(st, p, func(s *state, m *V) []*state {
				in.store(s, m, in.val(s, i.Val))
				return one(s)
			})
		}
		in.store(st, p, in.val(st, i.Val))
		return one(st)
	case *ssa.UnOp:
		x := in.val(st, i.X)
		switch i.Op {
		case token.MUL:
			if x.k == kNil {
				return nil
			}
			if x.k == kUnion {
				return in.split(st, x, func(s *state, m *V) []*state {
					if m.k == kNil {
						return nil
					}
					s.env[i.X] = m
					s.env[i] = withBack(in.deref(s, m), m)
					return one(s)
				})
			}
			return set(i, withBack(in.deref(st, x), x))
		case token.NOT:
			return set(i, mapU(x, vNot))
		case token.ARROW:
			in.fresh++
			r := vApp("recv", recvType(i), in.frz(st, x), vInt(in.fresh))
			st.events = append(st.events, vApp("recv", nil, in.frz(st, x)))
			if i.CommaOk {
				return set(i, &V{k: kTuple, a: []*V{r, vApp("ok", types.Typ[types.Bool], r)}})
			}
			return set(i, r)
		default:
			if x.k == kConst {
				return set(i, vConst(constant.UnaryOp(i.Op, x.cv, 0), i.Type()))
			}
			return set(i, vApp(i.Op.String(), i.Type(), in.frz(st, x)))
		}
	case *ssa.BinOp:
		return in.splitEnv(st, i.X, func(s *state, x *V) []*state {
			return in.splitEnv(s, i.Y, func(s *state, y *V) []*state {
				s.env[i] = in.binop(s, i.Op, x, y, i.Type())
				return one(s)
			})
		})
	case *ssa.FieldAddr:
		return in.splitEnv(st, i.X, func(s *state, x *V) []*state {
			if x.k == kNil {
				return nil
			}
			s.env[i] = subPtr(in, x, i.Field, i.Type())
			return one(s)
		})
	case *ssa.Field:
		return set(i, coerce(proj(in.val(st, i.X), i.Field, structOf(i.X.Type()))))
	case *ssa.IndexAddr:
		return in.splitEnv(st, i.X, func(s *state, x *V) []*state {
			idx := in.val(s, i.Index)
			if _, isArr := i.X.Type().Underlying().(*types.Pointer); isArr {
				if x.k == kPtr && idx.k == kConst {
					n, _ := constant.Int64Val(idx.cv)
					s.env[i] = subPtr(in, x, int(n), i.Type())
					return one(s)
				}
			}
			if idx.k == kUnion {
				idx = top
			}
			s.env[i] = &V{k: kIdxPtr, a: []*V{x, idx}, back: x.back, t: i.Type()}
			return one(s)
		})
	case *ssa.Index:
		return set(i, index(in.slice(st, in.val(st, i.X)), in.val(st, i.Index)))
	case *ssa.Slice:
		return in.splitEnv(st, i.X, func(s *state, x *V) []*state {
			if i.Low == nil && i.High == nil {
				if x.k == kPtr {
					n := *x
					n.key_ = ""
					n.t = i.Type()
					s.env[i] = &n
				} else {
					s.env[i] = x
				}
				return one(s)
			}
			lo, hi := vInt(0), (*V)(nil)
			if i.Low != nil {
				lo = in.val(s, i.Low)
			}
			if i.High != nil {
				hi = in.val(s, i.High)
			}
			s.env[i] = in.subslice(s, x, lo, hi, i.Type())
			return one(s)
		})
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		n := in.val(st, i.Len)
		l := in.loc(fmt.Sprintf("%s/%s:%s", fr.ctx, fr.fn.Name(), i.Name()), i.Type())
		if n.k == kConst {
			c, _ := constant.Int64Val(n.cv)
			if c <= 64 {
				lst := &V{k: kList, t: i.Type()}
				for j := int64(0); j < c; j++ {
					lst.a = append(lst.a, zero(et))
				}
				if c == 0 {
					return set(i, lst)
				}
				st.heap[l] = lst
				return set(i, &V{k: kPtr, loc: l, t: i.Type()})
			}
		}
		if n.k == kApp && n.s == "len" && n.a[0].k == kList {
			lst := &V{k: kList, t: i.Type()}
			for _, it := range n.a[0].a {
				if isItem(it) {
					m := *it
					m.key_ = ""
					m.a = []*V{zero(et)}
					lst.a = append(lst.a, &m)
				} else {
					lst.a = append(lst.a, zero(et))
				}
			}
			st.heap[l] = lst
			return set(i, &V{k: kPtr, loc: l, t: i.Type()})
		}
		st.heap[l] = &V{k: kList, t: i.Type(), a: []*V{vStar(zero(et))}}
		return set(i, &V{k: kPtr, loc: l, t: i.Type()})
	case *ssa.MakeInterface:
		x := in.val(st, i.X)
		return set(i, typed(x, i.X.Type()))
	case *ssa.ChangeInterface:
		return set(i, in.val(st, i.X))
	case *ssa.ChangeType:
		x := in.val(st, i.X)
		if x.k == kStruct {
			x = &V{k: kStruct, t: i.Type(), a: x.a}
		} else if x.k != kTop && x.k != kUnion && x.t != nil {
			x = withType(x, i.Type())
		}
		return set(i, x)
	case *ssa.Convert:
		x := in.val(st, i.X)
		if x.k == kConst {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && x.cv.Kind() == constant.Int {
				n, _ := constant.Int64Val(x.cv)
				return set(i, vConst(constant.MakeString(string(rune(n))), i.Type()))
			}
			return set(i, vConst(x.cv, i.Type()))
		}
		if isIntType(i.Type()) && isIntType(i.X.Type()) {
			return set(i, x)
		}
		return set(i, vApp("conv:"+typeName(i.Type()), i.Type(), in.frz(st, x)))
	case *ssa.TypeAssert:
		return in.typeAssert(st, i)
	case *ssa.Extract:
		t := in.val(st, i.Tuple)
		if t.k == kTuple && i.Index < len(t.a) {
			return set(i, t.a[i.Index])
		}
		return set(i, top)
	case *ssa.MakeClosure:
		v := &V{k: kClosure, fn: i.Fn.(*ssa.Function), t: i.Type()}
		for _, b := range i.Bindings {
			v.a = append(v.a, in.val(st, b))
		}
		return set(i, v)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := ins.(ssa.Value)
		in.fresh++
		return set(v, vSym(fmt.Sprintf("new %s", typeName(v.Type())), v.Type()))
	case *ssa.Lookup:
		m, k := in.frz(st, in.val(st, i.X)), in.frz(st, in.val(st, i.Index))
		mt := i.Type()
		if i.CommaOk {
			mt = i.Type().(*types.Tuple).At(0).Type()
		}
		r := coerce(vApp("map", mt, m, k))
		if i.CommaOk {
			return set(i, &V{k: kTuple, a: []*V{r, vApp("in", types.Typ[types.Bool], m, k)}})
		}
		return set(i, r)
	case *ssa.MapUpdate:
		st.events = append(st.events, vApp("mapset", nil, in.frz(st, in.val(st, i.Map)), in.frz(st, in.val(st, i.Key)), in.frz(st, in.val(st, i.Value))))
		return one(st)
	case *ssa.Range:
		return set(i, vApp("range", i.Type(), in.frz(st, in.val(st, i.X))))
	case *ssa.Next:
		tt := i.Type().(*types.Tuple)
		x := in.val(st, i.Iter)
		base := x
		if x.k == kApp && len(x.a) == 1 {
			base = x.a[0]
		}
		return set(i, &V{k: kTuple, a: []*V{vApp("more", types.Typ[types.Bool], x), vApp("key", tt.At(1).Type(), base), vApp("map", tt.At(2).Type(), base, vApp("key", tt.At(1).Type(), base))}})
	case *ssa.Send:
		st.events = append(st.events, vApp("send", nil, in.frz(st, in.val(st, i.Chan)), in.frz(st, in.val(st, i.X))))
		return one(st)
	case *ssa.Select:
		tu := &V{k: kTuple}
		in.fresh++
		id := vInt(in.fresh)
		tt := i.Type().(*types.Tuple)
		for j := 0; j < tt.Len(); j++ {
			tu.a = append(tu.a, vApp(fmt.Sprintf("select#%d", j), tt.At(j).Type(), id))
		}
		return set(i, tu)
	case *ssa.Go:
		c := i.Common()
		if f := c.StaticCallee(); f != nil {
			st.events = append(st.events, vApp("go:"+in.p.key(f), nil, in.frzAll(st, in.vals(st, c.Args))...))
		} else {
			st.events = append(st.events, vApp("go", nil, in.frz(st, in.val(st, c.Value))))
		}
		return one(st)
	case *ssa.Call:
		return in.callInstr(fr, i, st)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return set(ins.(ssa.Value), top)
	}
	if v, ok := ins.(ssa.Value); ok {
		return set(v, top)
	}
	return one(st)
}

func recvType(i *ssa.UnOp) types.Type {
	if t, ok := i.Type().(*types.Tuple); ok {
		return t.At(0).Type()
	}
	return i.Type()
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func withBack(v, p *V) *V {
	if v.k == kList && !v.set || v.k == kNil {
		n := *v
		n.back = p
		return &n
	}
	return v
}

func mapU(v *V, f func(*V) *V) *V {
	if v.k != kUnion {
		return f(v)
	}
	var out []*V
	for _, m := range v.a {
		out = append(out, guarded(f(unguarded(m)), m.g))
	}
	return union(out...)
}

func typed(x *V, t types.Type) *V {
	switch x.k {
	case kUnion:
		var out []*V
		for _, m := range x.a {
			out = append(out, typed(m, t))
		}
		n := *x
		n.key_ = ""
		n.a = out
		n.t = t
		return &n
	case kTop:
		return &V{k: kTop, t: t}
	case kStruct:
		return x
	}
	if x.t == nil || types.IsInterface(x.t) || x.k == kList || x.k == kConst || x.k == kNil {
		return withType(x, t)
	}
	return x
}

func (in *Interp) vals(st *state, vs []ssa.Value) []*V {
	out := make([]*V, len(vs))
	for i, v := range vs {
		out[i] = in.val(st, v)
	}
	return out
}

// splitEnv runs f for each member of the value of v, which is narrowed.
func (in *Interp) splitEnv(st *state, v ssa.Value, f func(*state, *V) []*state) []*state {
	x := in.val(st, v)
	if x.k != kUnion {
		return f(st, x)
	}
	return in.split(st, x, func(s *state, m *V) []*state {
		if _, isC := v.(*ssa.Const); !isC {
			s.env[v] = m
		}
		return f(s, m)
	})
}

func (in *Interp) subslice(st *state, x, lo, hi *V, t types.Type) *V {
	l := in.slice(st, x)
	if l.k == kConst && l.cv != nil && l.cv.Kind() == constant.String && lo.k == kConst && (hi == nil || hi.k == kConst) {
		s := constant.StringVal(l.cv)
		a, _ := constant.Int64Val(lo.cv)
		b := int64(len(s))
		if hi != nil {
			b, _ = constant.Int64Val(hi.cv)
		}
		if a >= 0 && a <= b && b <= int64(len(s)) {
			return vConst(constant.MakeString(s[a:b]), t)
		}
	}
	if l.k == kList && lo.k == kConst && (hi == nil || hi.k == kConst) {
		a, _ := constant.Int64Val(lo.cv)
		ok := true
		n := int64(len(l.a))
		if hi != nil {
			n, _ = constant.Int64Val(hi.cv)
		}
		for j, it := range l.a {
			if isItem(it) && (int64(j) < a || hi != nil && int64(j) < n) {
				ok = false
			}
		}
		if ok && a <= n && n <= int64(len(l.a)) && a >= 0 {
			return &V{k: kList, a: append([]*V{}, l.a[a:n]...), t: t}
		}
	}
	if hi != nil && sameV(hi, in.length(st, x)) {
		hi = nil
	}
	if hi == nil && lo.k == kConst {
		if a, ok := constant.Int64Val(lo.cv); ok && a == 0 {
			return x
		}
	}
	h := vSym("end", nil)
	if hi != nil {
		h = hi
	}
	return vApp("slice", t, in.frz(st, x), lo, h)
}

func (in *Interp) length(st *state, x *V) *V {
	if x.k == kConst && x.cv != nil && x.cv.Kind() == constant.String {
		return vInt(len(constant.StringVal(x.cv)))
	}
	l := in.slice(st, x)
	if l.k == kUnion {
		return mapU(l, func(m *V) *V { return in.length(st, m) })
	}
	if l.k == kNil {
		return vInt(0)
	}
	if l.k == kList {
		n := 0
		for _, it := range l.a {
			if isItem(it) {
				return vApp("len", types.Typ[types.Int], l)
			}
			n++
		}
		return vInt(n)
	}
	return vApp("len", types.Typ[types.Int], in.frz(st, l))
}

func (in *Interp) typeAssert(st *state, i *ssa.TypeAssert) []*state {
	return in.splitEnv(st, i.X, func(s *state, x *V) []*state {
		res := func(s *state, v *V, ok bool) []*state {
			if i.CommaOk {
				if !ok {
					v = zero(i.AssertedType)
				}
				s.env[i] = &V{k: kTuple, a: []*V{v, vBool(ok)}}
				return one(s)
			}
			if !ok {
				return nil
			}
			s.env[i] = v
			return one(s)
		}
		if x.k == kNil && (x.t == nil || types.IsInterface(x.t)) {
			return res(s, x, false)
		}
		iface := types.IsInterface(i.AssertedType)
		if d := dynType(x); d != nil {
			if iface {
				return res(s, x, types.Implements(d, i.AssertedType.Underlying().(*types.Interface)))
			}
			if types.Identical(d, i.AssertedType) {
				return res(s, x, true)
			}
			return res(s, x, false)
		}
		tn := typeName(i.AssertedType)
		fx := in.frz(s, x)
		cond := vApp("is:"+tn, types.Typ[types.Bool], fx)
		if iface {
			cond = vApp("is:iface "+tn, types.Typ[types.Bool], fx)
		}
		as := vApp("as:"+tn, i.AssertedType, fx)
		if iface {
			as = fx
		}
		if !iface {
			as = coerce(as)
		}
		// a statically implied interface
		if iface && x.t != nil && types.IsInterface(x.t) && types.AssignableTo(x.t, i.AssertedType) {
			return res(s, as, true)
		}
		if b := in.truth(s, cond); b != nil {
			return res(s, as, *b)
		}
		if !i.CommaOk {
			in.assume(s, cond, true)
			return res(s, as, true)
		}
		no := s.clone()
		in.assume(s, cond, true)
		in.assume(no, cond, false)
		return append(res(s, as, true), res(no, as, false)...)
	})
}

// dynType is the dynamic type of an interface value, nil if it is not known.
func dynType(x *V) types.Type {
	switch x.k {
	case kStruct, kConst, kPtr, kClosure, kList, kIdxPtr, kSym, kApp, kNil:
		if x.t != nil && !types.IsInterface(x.t) {
			return x.t
		}
	}
	return nil
}

// --------------------------------------------------------------------------------------------------------
// Operators

func isLenApp(v *V) bool { return v.k == kApp && (v.s == "len" || v.s == "card") }

func (in *Interp) binop(st *state, op token.Token, x, y *V, t types.Type) *V {
	if x.k == kTop || y.k == kTop {
		return &V{k: kTop, t: t}
	}
	if x.k == kConst && y.k == kConst && x.cv != nil && y.cv != nil {
		return foldBin(op, x.cv, y.cv, t)
	}
	fx, fy := in.frz(st, x), in.frz(st, y)
	switch op {
	case token.EQL, token.NEQ:
		var r *V
		if isIntT(x.t) && isIntT(y.t) && fx.k != kUnion && fy.k != kUnion && (isSum(fx) || isSum(fy)) {
			r = linEq(fx, fy)
		} else {
			r = in.equal(fx, fy)
		}
		if op == token.NEQ {
			r = vNot(r)
		}
		return r
	case token.LSS:
		return less(fx, fy)
	case token.GTR:
		return less(fy, fx)
	case token.LEQ:
		return vNot(less(fy, fx))
	case token.GEQ:
		return vNot(less(fx, fy))
	case token.SUB:
		if isIntT(t) && fx.k != kUnion && fy.k != kUnion {
			return linOp(op, fx, fy, t)
		}
	case token.ADD:
		if fx.k == kApp && fx.s == "pred" && isConstN(fy, 1) {
			return fx.a[0]
		}
		if fy.k == kApp && fy.s == "pred" && isConstN(fx, 1) {
			return fy.a[0]
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return concat(fx, fy, t)
		}
		if isIntT(t) && fx.k != kUnion && fy.k != kUnion {
			return linOp(op, fx, fy, t)
		}
	}
	if (op == token.ADD || op == token.MUL || op == token.AND || op == token.OR) && fy.key() < fx.key() {
		fx, fy = fy, fx
	}
	return vApp(op.String(), t, fx, fy)
}

func foldBin(op token.Token, a, b constant.Value, t types.Type) (r *V) {
	defer func() {
		if recover() != nil {
			r = &V{k: kTop, t: t}
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return vBool(constant.Compare(a, op, b))
	case token.SHL, token.SHR:
		n, _ := constant.Uint64Val(b)
		return vConst(constant.Shift(a, op, uint(n)), t)
	case token.QUO:
		if a.Kind() == constant.Int {
			op = token.QUO_ASSIGN
		}
	}
	return vConst(constant.BinaryOp(a, op, b), t)
}

// concat is string concatenation, flattened.
func concat(x, y *V, t types.Type) *V {
	var parts []*V
	add := func(v *V) {
		vs := []*V{v}
		if v.k == kApp && v.s == "cat" {
			vs = v.a
		}
		for _, p := range vs {
			if p.k == kConst && p.cv != nil && p.cv.Kind() == constant.String {
				if constant.StringVal(p.cv) == "" {
					continue
				}
				if n := len(parts); n > 0 && parts[n-1].k == kConst {
					parts[n-1] = vStr(constant.StringVal(parts[n-1].cv) + constant.StringVal(p.cv))
					continue
				}
			}
			parts = append(parts, p)
		}
	}
	add(x)
	add(y)
	if len(parts) == 0 {
		return vConst(constant.MakeString(""), t)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return vApp("cat", t, parts...)
}

func isConstN(v *V, n int64) bool {
	if v.k != kConst || v.cv == nil || v.cv.Kind() != constant.Int {
		return false
	}
	c, ok := constant.Int64Val(v.cv)
	return ok && c == n
}

func less(x, y *V) *V {
	b := types.Typ[types.Bool]
	if sameV(x, y) {
		return vBool(false)
	}
	if isIntT(x.t) && isIntT(y.t) && x.k != kUnion && y.k != kUnion {
		return linLess(x, y)
	}
	return vApp("<", b, x, y)
}

func isSum(v *V) bool {
	return v.k == kApp && (v.s == "+" || v.s == "*" || v.s == "len" && len(v.a) == 1 && v.a[0].k == kList)
}

func eq(x, y *V) *V {
	if y.key() < x.key() {
		x, y = y, x
	}
	return vApp("==", types.Typ[types.Bool], x, y)
}

func (in *Interp) equal(x, y *V) *V {
	if x.k == kUnion || y.k == kUnion {
		return vApp("==", types.Typ[types.Bool], x, y)
	}
	if sameV(x, y) {
		return vBool(true)
	}
	if x.k == kNil || y.k == kNil {
		o := x
		if x.k == kNil {
			o = y
		}
		switch o.k {
		case kNil:
			return vBool(true)
		case kStruct, kPtr, kClosure, kConst, kIdxPtr:
			return vBool(false)
		case kList:
			if len(o.a) > 0 && !isItem(o.a[0]) {
				return vBool(false)
			}
			return vApp("isnil", types.Typ[types.Bool], o)
		}
		return vApp("isnil", types.Typ[types.Bool], o)
	}
	if x.k == kConst && y.k == kConst && x.cv != nil && y.cv != nil {
		return foldBin(token.EQL, x.cv, y.cv, types.Typ[types.Bool])
	}
	dx, dy := dynType(x), dynType(y)
	if dx != nil && dy != nil && !types.Identical(dx, dy) && (x.k == kStruct && y.k == kStruct) {
		return vBool(false)
	}
	// boolean comparison with a constant
	for i, c := range []*V{x, y} {
		o := []*V{y, x}[i]
		if c.k == kConst && c.cv != nil && c.cv.Kind() == constant.Bool {
			if constant.BoolVal(c.cv) {
				return o
			}
			return vNot(o)
		}
	}
	return eq(x, y)
}

// --------------------------------------------------------------------------------------------------------
// Calls

func (in *Interp) callInstr(fr *frame, i *ssa.Call, st *state) []*state {
	c := i.Common()
	set := func(rs []retCase) []*state {
		var out []*state
		for n, r := range rs {
			if r.st == nil {
				continue
			}
			_ = n
			r.st.env[i] = r.v
			out = append(out, r.st)
		}
		return out
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, ok := in.builtin(st, b.Name(), c, i)
		if !ok {
			return nil
		}
		st.env[i] = v
		return one(st)
	}
	if c.IsInvoke() {
		return in.splitEnv(st, c.Value, func(s *state, recv *V) []*state {
			return set(in.own(in.doInvoke(fr, s, recv, c.Method, in.vals(s, c.Args), i)))
		})
	}
	if f := c.StaticCallee(); f != nil {
		if _, isFn := c.Value.(*ssa.Function); isFn {
			return set(in.own(in.doCall(fr, f, in.vals(st, c.Args), nil, st, i)))
		}
	}
	return in.splitEnv(st, c.Value, func(s *state, fv *V) []*state {
		return set(in.own(in.callValue(fr, fv, in.vals(s, c.Args), s, i)))
	})
}

// own makes sure that the states of the results do not share their environments.
func (in *Interp) own(rs []retCase) []retCase {
	if len(rs) > 1 {
		for i := range rs {
			rs[i].st = rs[i].st.clone()
		}
	}
	return rs
}

func (in *Interp) callValue(fr *frame, fv *V, args []*V, st *state, site ssa.Instruction) []retCase {
	var res types.Type
	if v, ok := site.(ssa.Value); ok {
		res = v.Type()
	}
	switch fv.k {
	case kClosure:
		return in.doCall(fr, fv.fn, args, fv.a, st, site)
	case kNil:
		return nil
	case kUnion:
		var out []retCase
		for _, m := range fv.a {
			s := st.clone()
			in.assume(s, m.g, true)
			out = append(out, in.callValue(fr, unguarded(m), args, s, site)...)
		}
		return out
	}
	return []retCase{{appResult("call", res, append([]*V{in.frz(st, fv)}, in.frzAll(st, args)...)), st}}
}

func appResult(op string, t types.Type, args []*V) *V {
	n := 0
	for _, a := range args {
		n += len(a.key())
	}
	if n > 12000 {
		args = []*V{top}
	}
	if tu, ok := t.(*types.Tuple); ok {
		if tu.Len() == 0 {
			return &V{k: kTuple}
		}
		r := &V{k: kTuple}
		for i := 0; i < tu.Len(); i++ {
			r.a = append(r.a, coerce(vApp(fmt.Sprintf("%s#%d", op, i), tu.At(i).Type(), args...)))
		}
		return r
	}
	return coerce(vApp(op, t, args...))
}

func callRes(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (in *Interp) doInvoke(fr *frame, st *state, recv *V, m *types.Func, args []*V, site ssa.Instruction) []retCase {
	var res types.Type = m.Type().(*types.Signature).Results()
	if r := res.(*types.Tuple); r.Len() == 1 {
		res = r.At(0).Type()
	}
	if recv.k == kNil && (recv.t == nil || types.IsInterface(recv.t)) {
		return nil
	}
	if d := dynType(recv); d != nil {
		if f := in.p.SSA.LookupMethod(d, m.Pkg(), m.Name()); f != nil {
			return in.doCall(fr, f, append([]*V{recv}, args...), nil, st, site)
		}
	}
	if in.invoke != nil {
		if r, ok := in.invoke(in, &callCtx{fr: fr, args: args, st: st, res: res, site: site}, recv, m); ok {
			return r
		}
	}
	if m.Name() == "Copy" && len(args) == 0 {
		return []retCase{{recv, st}}
	}
	if tu, ok := res.(*types.Tuple); ok && tu.Len() == 0 && in.voids {
		st.events = append(st.events, vApp("M:"+m.Name(), nil, append([]*V{in.frz(st, recv)}, in.frzAll(st, args)...)...))
	}
	return []retCase{{appResult("M:"+m.Name(), res, append([]*V{in.frz(st, recv)}, in.frzAll(st, args)...)), st}}
}

var neverReturns = map[string]bool{
	"Glob.Fatal": true, "Glob.Anomaly": true, "os.Exit": true, "log.Fatal": true, "log.Fatalf": true,
}

// stop: the program ends with an error here.
func (in *Interp) stop(st *state) {
	if in.inLoop > 0 && roundsMax == 0 {
		in.loopAborts = true
		return
	}
	a := st.clone()
	a.env, a.events = map[ssa.Value]*V{}, nil
	in.aborts = append(in.aborts, a)
}

func (in *Interp) doCall(fr *frame, fn *ssa.Function, args []*V, binds []*V, st *state, site ssa.Instruction) []retCase {
	k := in.p.key(fn)
	res := callRes(fn)
	if strings.HasPrefix(k, "slices.") {
		// ref/std.ref says what the functions of the standard library do.
		if f := in.p.fn("Lib.refStd" + strings.TrimPrefix(in.p.key(origin(fn)), "slices.")); f != nil && f.Blocks != nil {
			fn, k = f, in.p.key(f)
		}
	}
	if neverReturns[k] || in.noRet[k] {
		if in.event != nil && in.event(fn) {
			// recorded although it ends the path: nothing to record it in
		}
		in.stop(st)
		return nil
	}
	ctx := fr.ctx + "/" + fmt.Sprint(site.Pos())
	if v, ok := site.(ssa.Value); ok {
		ctx = fr.ctx + "/" + fr.fn.Name() + ":" + v.Name()
	}
	if in.hook != nil {
		if r, ok := in.hook(in, &callCtx{fr: fr, fn: fn, args: args, st: st, ctx: ctx, res: res, site: site}); ok {
			return r
		}
	}
	if r, ok := in.libModel(fn, k, args, st); ok {
		return r
	}
	if in.event != nil && in.event(fn) {
		fa := in.frzAll(st, args)
		ra := fa
		if in.snap {
			fa, ra = in.snapshot(st, fa, false), in.snapshot(st, fa, true)
		}
		st.events = append(st.events, vApp(k, nil, fa...))
		return []retCase{{appResult(k, res, ra), st}}
	}
	rec := 0
	for _, f := range fr.stack {
		if f == fn {
			rec++
		}
	}
	if fn.Blocks == nil || !in.p.inModule(fn) && fn.Synthetic == "" || rec > 0 || len(fr.stack) > 30 || in.opaque != nil && in.opaque(fn) {
		if !in.p.inModule(fn) && k == "strings.Join" {
			return []retCase{{appResult("join", res, in.frzAll(st, args)), st}}
		}
		fa := in.frzAll(st, args)
		if in.snap {
			fa = in.snapshot(st, fa, false)
		}
		if tu, ok := res.(*types.Tuple); ok && tu.Len() == 0 && in.voids {
			st.events = append(st.events, vApp(k, nil, fa...))
		}
		return []retCase{{appResult(k, res, fa), st}}
	}
	return in.call(fn, args, binds, st, ctx, fr.stack)
}

// snapshot replaces pointers to local variables by what they hold at the time (or by nothing).
func (in *Interp) snapshot(st *state, args []*V, hide bool) []*V {
	out := make([]*V, len(args))
	for i, v := range args {
		out[i] = v
		if v == nil || v.k != kPtr || strings.HasPrefix(v.loc.id, "*") || strings.HasPrefix(v.loc.id, "glob ") || strings.HasPrefix(v.loc.id, "arr ") {
			continue
		}
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				continue
			}
		}
		if hide {
			out[i] = vSym("&local", v.t)
		} else {
			out[i] = vApp("&", v.t, in.frz(st, at(in.cell(st, v.loc), v.path)))
		}
	}
	return out
}

func (in *Interp) builtin(st *state, name string, c *ssa.CallCommon, site *ssa.Call) (*V, bool) {
	args := in.vals(st, c.Args)
	switch name {
	case "len", "cap":
		return in.length(st, args[0]), true
	case "append":
		a := in.slice(st, args[0])
		var b *V
		if len(args) > 1 {
			b = in.slice(st, args[1])
		} else {
			return args[0], true
		}
		return in.concatLists(st, a, b, site.Type()), true
	case "panic":
		return nil, false
	case "copy":
		src := in.slice(st, args[1])
		if args[0].k == kPtr {
			dst := at(in.cell(st, args[0].loc), args[0].path)
			if dst.k == kList && src.k == kList && len(dst.a) == len(src.a) {
				st.heap[args[0].loc] = put(in.cell(st, args[0].loc), args[0].path, withType(src, dst.t))
			} else {
				st.heap[args[0].loc] = put(in.cell(st, args[0].loc), args[0].path, top)
			}
		} else {
			in.note("copy into an untracked slice")
		}
		return vApp("copied", types.Typ[types.Int], src), true
	case "min", "max":
		return vApp(name, site.Type(), in.frzAll(st, args)...), true
	case "delete":
		st.events = append(st.events, vApp("mapdelete", nil, in.frzAll(st, args)...))
		return &V{k: kTuple}, true
	}
	return appResult("builtin "+name, site.Type(), in.frzAll(st, args)), true
}

func (in *Interp) concatLists(st *state, a, b *V, t types.Type) *V {
	if a.k == kUnion && len(a.a) <= 8 {
		return mapU(a, func(m *V) *V { return in.concatLists(st, in.slice(st, m), b, t) })
	}
	if b.k == kUnion && len(b.a) <= 8 {
		return mapU(b, func(m *V) *V { return in.concatLists(st, a, in.slice(st, m), t) })
	}
	if b.k == kNil {
		return a
	}
	if a.k != kList || b.k != kList {
		return &V{k: kTop, t: t}
	}
	l := &V{k: kList, t: t, back: nil}
	l.a = append(l.a, a.a...)
	for _, x := range b.a {
		l.a = append(l.a, in.frz(st, x))
	}
	return l
}

// libModel models the operations of Lib.Set (as lists without order and multiplicity).
func (in *Interp) libModel(fn *ssa.Function, k string, args []*V, st *state) ([]retCase, bool) {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pk := fnPkg(fn)
	if pk == nil || relPkg(pk) != "Lib" {
		return nil, false
	}
	name := o.Name()
	recv := o.Signature.Recv()
	isSet := recv != nil && isSetType(recv.Type())
	ret := func(v *V) ([]retCase, bool) { return []retCase{{v, st}}, true }
	rt := callRes(fn)
	asSet := func(v *V) *V {
		if v.k == kSym || v.k == kApp {
			return asList(v, nil, true)
		}
		return v
	}
	add := func(s *V, items []*V) *V {
		l := &V{k: kList, set: true, t: rt}
		seen := map[string]bool{}
		for _, x := range append(append([]*V{}, s.a...), items...) {
			if !seen[x.key()] {
				seen[x.key()] = true
				l.a = append(l.a, x)
			}
		}
		return l
	}
	if !isSet {
		switch name {
		case "EmptySet":
			return ret(&V{k: kList, set: true, t: rt})
		case "Singleton":
			return ret(&V{k: kList, set: true, t: rt, a: []*V{in.frz(st, args[0])}})
		}
		return nil, false
	}
	s := asSet(args[0])
	if s.k == kUnion {
		var out []retCase
		for _, m := range s.a {
			x := st.clone()
			in.assume(x, m.g, true)
			r, _ := in.libModel(fn, k, append([]*V{unguarded(m)}, args[1:]...), x)
			out = append(out, r...)
		}
		return out, true
	}
	if s.k != kList {
		return ret(appResult("set."+name, rt, in.frzAll(st, args)))
	}
	switch name {
	case "Add":
		xs := in.slice(st, args[1])
		if xs.k != kList {
			return ret(&V{k: kTop, t: rt})
		}
		return ret(add(s, in.frzAll(st, xs.a)))
	case "Copy":
		return ret(s)
	case "Union":
		o := asSet(args[1])
		if o.k == kUnion {
			var out []retCase
			for _, m := range o.a {
				x := st.clone()
				in.assume(x, m.g, true)
				mm := asSet(unguarded(m))
				if mm.k == kList {
					out = append(out, retCase{add(s, mm.a), x})
				} else {
					out = append(out, retCase{&V{k: kTop, t: rt}, x})
				}
			}
			return out, true
		}
		if o.k != kList {
			return ret(&V{k: kTop, t: rt})
		}
		return ret(add(s, o.a))
	case "Elements":
		vals := &V{k: kList, a: s.a}
		if so := structOf(rt); so != nil {
			vals.t = so.Field(0).Type()
		}
		return ret(&V{k: kStruct, t: rt, a: []*V{vals}})
	case "Cardinal":
		definite := len(s.a) <= 1
		for _, x := range s.a {
			definite = definite && !isItem(x)
		}
		if definite {
			return ret(vInt(len(s.a)))
		}
		return ret(vApp("card", rt, in.frz(st, s)))
	case "IsEmpty":
		if len(s.a) == 0 {
			return ret(vBool(true))
		}
		for _, x := range s.a {
			if !isItem(x) {
				return ret(vBool(false))
			}
		}
		return ret(eq(vApp("card", types.Typ[types.Int], in.frz(st, s)), vInt(0)))
	case "Contains":
		x := in.frz(st, args[1])
		for _, y := range s.a {
			if !isItem(y) && sameV(x, y) {
				return ret(vBool(true))
			}
		}
		if len(s.a) == 0 {
			return ret(vBool(false))
		}
		return ret(vApp("mem", rt, x, in.frz(st, s)))
	case "Inter", "Diff", "Disjoint", "Remove", "Filter":
		return ret(vAppC("set."+name, rt, in.frzAll(st, args)))
	}
	return ret(appResult("set."+name, rt, in.frzAll(st, args)))
}

func vAppC(op string, t types.Type, args []*V) *V { return coerce(vApp(op, t, args...)) }

func short(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}
