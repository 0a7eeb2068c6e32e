package main

// What parallel branches share is only touched under its lock (lock sets), and a decision made on it and the update that
// follows are one critical section.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Lock sets of every access, in every calling context reachable from a go statement, to the variables that parallel goroutines write.", ruleC01)
}

// absV is what is known about a value: the variable it leads to, or the function it is.
type absV struct {
	root string // global or type of the object
	fn   *ssa.Function
	env  []absV // of the free variables of fn
}

func (a absV) key() string {
	if a.fn == nil {
		return a.root
	}
	s := a.root + "!" + a.fn.String() + fmt.Sprintf("%p", a.fn)
	for _, e := range a.env {
		s += "," + e.key()
	}
	return s
}

type access struct {
	v     string
	write bool
	held  map[string]bool
	fn    *ssa.Function
	pos   token.Pos
	multi bool // reachable from a goroutine of which several run
}

type lockState struct {
	must, may map[string]bool
	site      map[string]ssa.Instruction // where the lock was last taken, if that is known
	defers    []*ssa.Defer
}

func (s *lockState) clone() *lockState {
	n := &lockState{map[string]bool{}, map[string]bool{}, map[string]ssa.Instruction{}, append([]*ssa.Defer{}, s.defers...)}
	for k := range s.must {
		n.must[k] = true
	}
	for k := range s.may {
		n.may[k] = true
	}
	for k, v := range s.site {
		n.site[k] = v
	}
	return n
}

func (s *lockState) join(o *lockState) bool {
	ch := false
	for k := range s.must {
		if !o.must[k] {
			delete(s.must, k)
			ch = true
		}
	}
	for k := range o.may {
		if !s.may[k] {
			s.may[k] = true
			ch = true
		}
	}
	for k, v := range s.site {
		if v != nil && o.site[k] != v {
			s.site[k] = nil
			ch = true
		}
	}
	for _, d := range o.defers {
		has := false
		for _, e := range s.defers {
			has = has || d == e
		}
		if !has {
			s.defers = append(s.defers, d)
			ch = true
		}
	}
	return ch
}

type lockCtx struct {
	fn    *ssa.Function
	binds map[ssa.Value]absV
	multi bool
	loose bool // called through a stored function: this may not really happen
}

type lockExit struct{ must, may map[string]bool }

type locker struct {
	c        *Ctx
	cg       *callgraph.Graph
	memo     map[string]*lockExit
	accesses []access
	seenAcc  map[string]bool
	twice    map[string]token.Pos
	uneven   map[string]token.Pos
	twiceFn  map[string]*ssa.Function
	unevenFn map[string]*ssa.Function
	depth    int
	sections map[*ssa.Function]*sectionInfo
	visited  int
}

// sectionInfo is what a function does to variables in critical sections.
type sectionInfo struct {
	reads, writes []section
}

type section struct {
	v, lock string
	site    ssa.Instruction // the Lock call, or the call of a function that locks and unlocks
	ins     ssa.Instruction
	self    bool // a write that depends on nothing but what the same section reads
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// lead gives what a value leads to.
func (l *locker) lead(cx *lockCtx, v ssa.Value, d int) absV {
	if d > 12 {
		return absV{}
	}
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), modPath) {
			return absV{root: relPkg(x.Pkg.Pkg) + "." + x.Name()}
		}
	case *ssa.Function:
		return absV{fn: x}
	case *ssa.MakeClosure:
		a := absV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			a.env = append(a.env, l.lead(cx, b, d+1))
		}
		return a
	case *ssa.Parameter, *ssa.FreeVar:
		if a, ok := cx.binds[v]; ok {
			return a
		}
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := st.Underlying().(*types.Struct).Field(x.Field)
		a := l.lead(cx, x.X, d+1)
		if isMutex(f.Type()) || isMutexPtr(f.Type()) {
			if a.root != "" {
				return absV{root: strings.TrimSuffix(a.root, "*") + "." + f.Name()}
			}
			if n, ok := types.Unalias(st).(*types.Named); ok {
				return absV{root: lockTypeName(n) + "." + f.Name()}
			}
			return absV{}
		}
		if a.root == "" && !freshObj(x.X) {
			switch f.Type().Underlying().(type) {
			case *types.Struct, *types.Pointer, *types.Interface:
				return absV{}
			}
			if n, ok := types.Unalias(st).(*types.Named); ok && hasMutex(n) && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return absV{root: lockTypeName(n) + "." + f.Name()}
			}
		}
		return a
	case *ssa.Field:
		if f := x.X.Type().Underlying().(*types.Struct).Field(x.Field); isMutexPtr(f.Type()) {
			if n, ok := types.Unalias(x.X.Type()).(*types.Named); ok {
				return absV{root: lockTypeName(n) + "." + f.Name()}
			}
		}
	case *ssa.IndexAddr:
		return l.lead(cx, x.X, d+1)
	case *ssa.Slice:
		return l.lead(cx, x.X, d+1)
	case *ssa.ChangeType:
		return l.lead(cx, x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a variable that is set once
				var st *ssa.Store
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						if st != nil {
							return absV{}
						}
						st = s
					}
				}
				if st != nil {
					return l.lead(cx, st.Val, d+1)
				}
				return absV{}
			}
			switch x.Type().Underlying().(type) {
			case *types.Map, *types.Slice, *types.Pointer, *types.Signature:
				a := l.lead(cx, x.X, d+1)
				return a
			}
		}
	}
	return absV{}
}

func lockTypeName(n *types.Named) string {
	n = n.Origin()
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return relPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
}

func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func isMutexPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isMutex(p.Elem())
}

func hasMutex(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) || isMutexPtr(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// fresh: an object made by the function at hand.
func freshObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshObj(x.X)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al && !freshObj(s.Val) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// lockOp: "" or what the call does to a mutex.
func lockOp(cc *ssa.CallCommon) string {
	f := cc.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "sync" || f.Signature.Recv() == nil || len(cc.Args) == 0 {
		return ""
	}
	if !isMutexPtr(f.Signature.Recv().Type()) {
		return ""
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return f.Name()
	}
	return "other"
}

func (l *locker) touch(cx *lockCtx, st *lockState, ins ssa.Instruction, a absV, write bool) {
	if a.root == "" || cx.loose {
		return
	}
	held := map[string]bool{}
	for k := range st.must {
		held[k] = true
	}
	k := fmt.Sprint(a.root, write, keysOf(held), ins.Pos(), cx.multi, cx.fn)
	if !l.seenAcc[k] {
		l.seenAcc[k] = true
		l.accesses = append(l.accesses, access{a.root, write, held, cx.fn, ins.Pos(), cx.multi})
	}
	if u, ok := ins.(*ssa.UnOp); ok {
		if _, ok := u.Type().Underlying().(*types.Map); ok {
			return // the map, not what it holds
		}
	}
	if si := l.sections[cx.fn]; si != nil {
		for h := range st.must {
			if st.site[h] != nil {
				s := section{a.root, h, st.site[h], ins, false}
				if write {
					si.writes = append(si.writes, s)
				} else {
					si.reads = append(si.reads, s)
				}
			}
		}
	}
}

func (l *locker) instr(cx *lockCtx, st *lockState, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			l.touch(cx, st, ins, l.lead(cx, x.X, 0), false)
		}
	case *ssa.Store:
		l.touch(cx, st, ins, l.lead(cx, x.Addr, 0), true)
	case *ssa.MapUpdate:
		l.touch(cx, st, ins, l.lead(cx, x.Map, 0), true)
	case *ssa.Lookup:
		l.touch(cx, st, ins, l.lead(cx, x.X, 0), false)
	case *ssa.Range:
		l.touch(cx, st, ins, l.lead(cx, x.X, 0), false)
	case *ssa.Defer:
		for _, d := range st.defers {
			if d == x {
				return
			}
		}
		st.defers = append(st.defers, x)
	case *ssa.RunDefers:
		for i := len(st.defers) - 1; i >= 0; i-- {
			l.call(cx, st, st.defers[i], st.defers[i].Common())
		}
		st.defers = nil
	case *ssa.Call:
		l.call(cx, st, x, x.Common())
	}
}

func (l *locker) call(cx *lockCtx, st *lockState, ins ssa.CallInstruction, cc *ssa.CallCommon) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" || b.Name() == "clear" {
			l.touch(cx, st, ins, l.lead(cx, cc.Args[0], 0), true)
		}
		return
	}
	if op := lockOp(cc); op != "" {
		m := l.lead(cx, cc.Args[0], 0).root
		if m == "" {
			return
		}
		switch op {
		case "Lock", "RLock":
			if st.must[m] && op == "Lock" && !cx.loose && (st.site[m] != nil || l.isGlobal(m)) {
				l.twice[l.c.p.key(origin(cx.fn))+" "+m], l.twiceFn[l.c.p.key(origin(cx.fn))+" "+m] = ins.Pos(), cx.fn
			}
			st.must[m], st.may[m], st.site[m] = true, true, ins.(ssa.Instruction)
		case "Unlock", "RUnlock":
			delete(st.must, m)
			delete(st.may, m)
			delete(st.site, m)
		}
		return
	}
	// functions called
	var fns []absV
	precise := true
	if f := cc.StaticCallee(); f != nil {
		a := absV{fn: f}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			a = l.lead(cx, mc, 0)
		}
		fns = append(fns, a)
	} else if a := l.lead(cx, cc.Value, 0); !cc.IsInvoke() && a.fn != nil {
		fns = append(fns, a)
	} else {
		precise = false
		if n := l.cg.Nodes[cx.fn]; n != nil {
			seen := map[*ssa.Function]bool{}
			for _, e := range n.Out {
				if e.Site == ins && !seen[e.Callee.Func] {
					seen[e.Callee.Func] = true
					fns = append(fns, absV{fn: e.Callee.Func})
				}
			}
		}
	}
	var exits []*lockExit
	for _, a := range fns {
		if a.fn.Blocks == nil || !l.c.p.inModule(a.fn) && !(a.fn.Synthetic != "" && fnPkg(a.fn) == nil) {
			continue
		}
		if !l.c.p.inModule(a.fn) && fnPkg(a.fn) != nil {
			continue
		}
		n := &lockCtx{fn: a.fn, binds: map[ssa.Value]absV{}, multi: cx.multi, loose: cx.loose || !precise && !cc.IsInvoke() && !ofGlobal(cc.Value)}
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, p := range a.fn.Params {
			if i < len(args) && precise {
				if b := l.lead(cx, args[i], 0); b.root != "" || b.fn != nil {
					n.binds[p] = b
				}
			}
		}
		for i, f := range a.fn.FreeVars {
			if i < len(a.env) && (a.env[i].root != "" || a.env[i].fn != nil) {
				n.binds[f] = a.env[i]
			}
		}
		if e := l.visit(n, st.must, st.may); e != nil {
			exits = append(exits, e)
		}
		// what the callee does in sections of its own
		if si := l.sections[cx.fn]; si != nil && precise {
			if t := l.sections[a.fn]; t != nil {
				for _, s := range t.reads {
					if !st.must[s.lock] {
						si.reads = append(si.reads, section{s.v, s.lock, ins.(ssa.Instruction), ins.(ssa.Instruction), false})
					}
				}
				for _, s := range t.writes {
					if !st.must[s.lock] {
						si.writes = append(si.writes, section{s.v, s.lock, ins.(ssa.Instruction), ins.(ssa.Instruction), s.self || readsIn(t, s)})
					}
				}
			}
		}
	}
	if len(exits) > 0 {
		must, may := map[string]bool{}, map[string]bool{}
		for k := range exits[0].must {
			all := true
			for _, e := range exits {
				all = all && e.must[k]
			}
			if all {
				must[k] = true
			}
		}
		for _, e := range exits {
			for k := range e.may {
				may[k] = true
			}
		}
		for k := range must {
			if !st.must[k] {
				st.site[k] = ins.(ssa.Instruction)
			}
		}
		st.must, st.may = must, may
	}
}

// readsIn: the function reads the variable again in the section of the write.
func readsIn(t *sectionInfo, w section) bool {
	for _, r := range t.reads {
		if r.v == w.v && r.site == w.site {
			return true
		}
	}
	return false
}

// ofGlobal: a function kept in a package-level variable (a plug-in).
func ofGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.Global)
	return ok
}

func (l *locker) isGlobal(lock string) bool {
	i := strings.LastIndex(lock, ".")
	pk := l.c.p.ByPth[lock[:i]]
	return pk != nil && pk.Types.Scope().Lookup(lock[i+1:]) != nil
}

// visit analyses a function in a context and gives the locks held when it returns.
func (l *locker) visit(cx *lockCtx, must, may map[string]bool) *lockExit {
	var b []string
	for v, a := range cx.binds {
		b = append(b, v.Name()+"="+a.key())
	}
	sort.Strings(b)
	k := fmt.Sprintf("%p|%v|%v|%v|%v|%v", cx.fn, b, keysOf(must), keysOf(may), cx.multi, cx.loose)
	if e, ok := l.memo[k]; ok {
		return e
	}
	if l.depth > 400 || l.visited > 400000 {
		return nil
	}
	l.memo[k] = &lockExit{must, may} // recursion: the locks held are those of the call
	l.depth++
	l.visited++
	defer func() { l.depth-- }()
	l.c.saw(cx.fn)
	saved, had := l.sections[cx.fn], l.sections[cx.fn] != nil
	l.sections[cx.fn] = &sectionInfo{}
	in := map[*ssa.BasicBlock]*lockState{}
	first := &lockState{map[string]bool{}, map[string]bool{}, map[string]ssa.Instruction{}, nil}
	for m := range must {
		first.must[m] = true
	}
	for m := range may {
		first.may[m] = true
	}
	in[cx.fn.Blocks[0]] = first
	work := []*ssa.BasicBlock{cx.fn.Blocks[0]}
	var exit *lockState
	for n := 0; len(work) > 0 && n < 20000; n++ {
		bl := work[0]
		work = work[1:]
		st := in[bl].clone()
		for _, ins := range bl.Instrs {
			l.instr(cx, st, ins)
		}
		if len(bl.Instrs) > 0 {
			if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok {
				if exit == nil {
					exit = st.clone()
				} else {
					exit.join(st)
				}
				for h := range st.may {
					if !st.must[h] && !may[h] {
						l.uneven[l.c.p.key(origin(cx.fn))+" "+h], l.unevenFn[l.c.p.key(origin(cx.fn))+" "+h] = r.Pos(), cx.fn
					}
				}
			}
		}
		for _, s := range bl.Succs {
			if in[s] == nil {
				in[s] = st.clone()
				work = append(work, s)
			} else if in[s].join(st) {
				work = append(work, s)
			}
		}
	}
	if had {
		// several contexts: keep what any of them does
		n := l.sections[cx.fn]
		n.reads = append(n.reads, saved.reads...)
		n.writes = append(n.writes, saved.writes...)
		if len(n.reads)+len(n.writes) > 200 {
			n.reads, n.writes = dedupSections(n.reads), dedupSections(n.writes)
		}
	}
	if exit == nil {
		delete(l.memo, k)
		l.memo[k] = nil // never returns
		return nil
	}
	for h := range exit.may {
		if !exit.must[h] && !may[h] {
			l.uneven[l.c.p.key(origin(cx.fn))+" "+h], l.unevenFn[l.c.p.key(origin(cx.fn))+" "+h] = cx.fn.Pos(), cx.fn
		}
	}
	e := &lockExit{exit.must, exit.may}
	l.memo[k] = e
	return e
}

func dedupSections(l []section) []section {
	m := map[section]bool{}
	var n []section
	for _, s := range l {
		if !m[s] {
			m[s] = true
			n = append(n, s)
		}
	}
	return n
}

// staleNumber: the function counts a number in the section of the write, and returns the number that another section reads.
func (l *locker) staleNumber(f *ssa.Function, si *sectionInfo, w section) (section, bool) {
	if !l.isCounter(w.v) {
		return section{}, false
	}
	counted := map[ssa.Instruction]bool{}
	for _, x := range si.writes {
		if x.v == w.v {
			counted[x.site] = true
		}
	}
	for _, r := range dedupSections(si.reads) {
		if r.v != w.v || r.lock != w.lock || counted[r.site] || !after(r.ins, w.ins) && !after(w.ins, r.ins) {
			continue
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && depends(r.ins, ret, false) {
				return r, true
			}
		}
	}
	return section{}, false
}

// isCounter: a package-level variable of an integer type.
func (l *locker) isCounter(v string) bool {
	i := strings.LastIndex(v, ".")
	pk := l.c.p.ByPth[v[:i]]
	if pk == nil {
		return false
	}
	o := pk.Types.Scope().Lookup(v[i+1:])
	if o == nil {
		return false
	}
	b, ok := o.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// dependsOn: the instruction is only reached, or gets an argument, depending on the value.
func dependsOn(from ssa.Instruction, to ssa.Instruction) bool { return depends(from, to, true) }

func depends(from ssa.Instruction, to ssa.Instruction, control bool) bool {
	v, ok := from.(ssa.Value)
	if !ok {
		return false
	}
	taint := map[ssa.Value]bool{v: true}
	cells := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range from.Parent().Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && taint[s.Val] && !cells[s.Addr] {
					if _, ok := s.Addr.(*ssa.Alloc); ok {
						cells[s.Addr] = true
						ch = true
					}
				}
				x, ok := ins.(ssa.Value)
				if !ok || taint[x] {
					continue
				}
				var ops []*ssa.Value
				hit := false
				for _, o := range ins.Operands(ops) {
					if *o != nil && (taint[*o] || cells[*o]) {
						hit = true
					}
				}
				if hit {
					taint[x] = true
					ch = true
				}
			}
		}
	}
	var ops []*ssa.Value
	for _, o := range to.Operands(ops) {
		if *o != nil && taint[*o] {
			return true
		}
	}
	if !control {
		return false
	}
	// control: a branch on a tainted condition of which one side does not reach the instruction
	for _, b := range from.Parent().Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && taint[f.Cond] {
			n := 0
			for _, s := range b.Succs {
				if blockReaches(s, to.Block(), b) {
					n++
				}
			}
			if n == 1 {
				return true
			}
		}
	}
	return false
}

func blockReaches(a, b, without *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{without: true}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// after: b may be executed after a.
func after(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				break
			}
		}
	}
	for _, s := range a.Block().Succs {
		if blockReaches(s, b.Block(), nil) {
			return true
		}
	}
	return false
}

func ruleC01(c *Ctx) {
	c.rule("guarded", "a variable that parallel goroutines write is always accessed under one lock", 6)
	c.rule("atomic", "an update that depends on what was read is made in the critical section of the read", 6)
	c.rule("released", "a lock is released on every path, and not taken while held", 6)
	all := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if !strings.Contains(c.p.Fset.Position(f.Pos()).Filename, "zz_ref_") {
			all[f] = true
		}
	}
	l := &locker{c: c, memo: map[string]*lockExit{}, seenAcc: map[string]bool{}, twice: map[string]token.Pos{}, uneven: map[string]token.Pos{},
		twiceFn: map[string]*ssa.Function{}, unevenFn: map[string]*ssa.Function{}, sections: map[*ssa.Function]*sectionInfo{}}
	l.cg = vta.CallGraph(all, cha.CallGraph(c.p.SSA))
	// the goroutines
	type entry struct {
		a     absV
		multi bool
		cc    *ssa.CallCommon
	}
	goes := 0
	for _, f := range c.p.Funcs {
		if !all[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				goes++
				multi := fnPkg(f) != nil && fnPkg(f).Name() != "main"
				cx := &lockCtx{fn: f, binds: map[ssa.Value]absV{}}
				var fns []absV
				if fn := g.Common().StaticCallee(); fn != nil {
					a := absV{fn: fn}
					if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
						a = l.lead(cx, mc, 0)
					}
					fns = append(fns, a)
				} else if n := l.cg.Nodes[f]; n != nil {
					for _, e := range n.Out {
						if e.Site == ins.(ssa.CallInstruction) {
							fns = append(fns, absV{fn: e.Callee.Func})
						}
					}
				}
				for _, a := range fns {
					if a.fn.Blocks == nil || !c.p.inModule(a.fn) {
						continue
					}
					n := &lockCtx{fn: a.fn, binds: map[ssa.Value]absV{}, multi: multi}
					for i, fv := range a.fn.FreeVars {
						if i < len(a.env) {
							n.binds[fv] = a.env[i]
						}
					}
					if e := l.visit(n, map[string]bool{}, map[string]bool{}); e != nil {
						for h := range e.may {
							k := c.p.key(origin(a.fn)) + " " + h
							l.uneven[k], l.unevenFn[k] = a.fn.Pos(), a.fn
						}
					}
				}
			}
		}
	}
	// guarded
	byVar := map[string][]access{}
	for _, a := range l.accesses {
		byVar[a.v] = append(byVar[a.v], a)
	}
	var vars []string
	for v := range byVar {
		vars = append(vars, v)
	}
	sort.Strings(vars)
	for _, v := range vars {
		shared, locked := false, false
		count := map[string]int{}
		for _, a := range byVar[v] {
			if !a.multi {
				continue
			}
			shared = shared || a.write
			locked = locked || len(a.held) > 0
			for h := range a.held {
				count[h]++
			}
		}
		if os.Getenv("LOCK_DEBUG") != "" && shared {
			fmt.Println("SHARED", v, "locked", locked, count, len(byVar[v]))
			for _, a := range byVar[v] {
				fmt.Println("     ", a.write, a.multi, keysOf(a.held), c.p.key(a.fn), c.p.pos(a.pos))
			}
		}
		if !shared {
			continue
		}
		if !locked {
			if i := strings.LastIndex(v, "."); c.p.ByPth[v[:i]] == nil {
				continue // an object, not a variable
			}
			for _, a := range byVar[v] {
				if a.write && a.multi {
					c.bad("guarded", v+" in "+c.p.key(origin(a.fn)), c.p.pos(a.pos), "%s writes %s, which parallel goroutines access, without any lock", c.p.key(origin(a.fn)), v)
					break
				}
			}
			continue
		}
		lock, n := "", 0
		for _, h := range keysOf(boolKeys(count)) {
			if count[h] > n {
				lock, n = h, count[h]
			}
		}
		done := map[string]bool{}
		for _, a := range byVar[v] {
			if a.held[lock] || !a.multi {
				continue // the goroutine that starts and ends the search runs once, before and after the others
			}
			k := v + " in " + c.p.key(origin(a.fn))
			if done[k] {
				continue
			}
			done[k] = true
			how := "reads"
			if a.write {
				how = "writes"
			}
			c.bad("guarded", k, c.p.pos(a.pos), "%s %s %s, which parallel goroutines write, without holding %s that guards it elsewhere", c.p.key(origin(a.fn)), how, v, lock)
		}
		if len(done) == 0 {
			c.add("guarded", v, "", true, "%d accesses under %s", len(byVar[v]), lock)
		}
	}
	// atomic
	var fns []*ssa.Function
	for f, si := range l.sections {
		if len(si.reads)+len(si.writes) > 0 {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		si := l.sections[f]
		bad := ""
		for _, w := range dedupSections(si.writes) {
			if w.self || readsIn(si, w) {
				if r, ok := l.staleNumber(f, si, w); ok {
					bad = fmt.Sprintf("%s returns the number %s that it reads (%s) in another critical section than the one that counts it (%s): two branches can get the same", c.p.key(origin(f)), w.v, c.p.pos(r.ins.Pos()), c.p.pos(w.ins.Pos()))
				}
				continue
			}
			for _, r := range dedupSections(si.reads) {
				if r.v == w.v && r.lock == w.lock && r.site != w.site && r.ins != w.ins && after(r.ins, w.ins) && dependsOn(r.ins, w.ins) {
					bad = fmt.Sprintf("%s updates %s (%s) depending on what it read of it (%s) in a critical section that has ended", c.p.key(origin(f)), w.v, c.p.pos(w.ins.Pos()), c.p.pos(r.ins.Pos()))
				}
			}
		}
		k := c.p.key(origin(f))
		if bad != "" {
			c.bad("atomic", k, c.p.fpos(f), "%s", bad)
		} else {
			c.add("atomic", k, c.p.fpos(f), true, "%d reads and %d writes in critical sections", len(si.reads), len(si.writes))
		}
	}
	// released
	locks := map[string]bool{}
	for _, a := range l.accesses {
		for h := range a.held {
			locks[h] = true
		}
	}
	for _, k := range sortedPos(l.twice) {
		c.bad("released", k, c.p.pos(l.twice[k]), "the lock is taken while it is held")
	}
	for _, k := range sortedPos(l.uneven) {
		c.bad("released", k, c.p.pos(l.uneven[k]), "the lock is still held on some path when the function returns")
	}
	for _, h := range keysOf(locks) {
		c.add("released", h, "", true, "released on every path (%d contexts analysed from %d go statements)", l.visited, goes)
	}
}

func boolKeys(m map[string]int) map[string]bool {
	n := map[string]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

func sortedPos(m map[string]token.Pos) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
