package main

// Shape analysis: a forward abstract interpretation of SSA functions.  It is context sensitive (callees are
// analysed for the abstract arguments of each call), keeps states apart by the branch they come from while
// they differ (trace partitioning, with a bound after which they are joined), and computes fixpoints at
// loops.  Branches whose condition is decided by the abstract value (typically a type switch on a value of
// known dynamic type) are pruned.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact struct {
	v *V
	b bool
}

func (f fact) cond() *V {
	if f.b {
		return f.v
	}
	return vNot(f.v)
}

// state is the abstract state at a program point.
type state struct {
	env    map[ssa.Value]*V
	heap   map[*Loc]*V
	facts  map[string]fact
	events []*V // ordered trace of event calls (items as in a list)
}

func newState() *state {
	return &state{env: map[ssa.Value]*V{}, heap: map[*Loc]*V{}, facts: map[string]fact{}}
}

func (s *state) clone() *state {
	n := &state{env: make(map[ssa.Value]*V, len(s.env)), heap: make(map[*Loc]*V, len(s.heap)), facts: make(map[string]fact, len(s.facts))}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.events = append([]*V{}, s.events...)
	return n
}

func sameV(a, b *V) bool { return a == b || a != nil && b != nil && a.key() == b.key() }

// sameData says whether two states only differ in what they know (facts).
func sameData(a, b *state) bool {
	if len(a.events) != len(b.events) {
		return false
	}
	for i := range a.events {
		if !sameV(a.events[i], b.events[i]) {
			return false
		}
	}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok && !sameV(v, w) {
			return false
		}
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = k.init
		}
		if w != nil && !sameV(v, w) {
			return false
		}
	}
	for k, w := range b.heap {
		if _, ok := a.heap[k]; !ok && k.init != nil && !sameV(k.init, w) {
			return false
		}
	}
	return true
}

// keepOr makes joined states remember the disjunction of what they knew.
var keepOr bool

// joinStates joins several states; values that differ are kept under the facts that tell the states apart.
func joinStates(ss []*state) *state {
	if len(ss) == 0 {
		return nil
	}
	if len(ss) == 1 {
		return ss[0]
	}
	n := newState()
	for k, f := range ss[0].facts {
		all := true
		for _, s := range ss[1:] {
			if g, ok := s.facts[k]; !ok || g.b != f.b {
				all = false
				break
			}
		}
		if all {
			n.facts[k] = f
		}
	}
	guards := make([]*V, len(ss))
	for i, s := range ss {
		var cs []*V
		for k, f := range s.facts {
			if g, ok := n.facts[k]; !ok || g.b != f.b {
				cs = append(cs, f.cond())
			}
		}
		guards[i] = vAnd(cs...)
	}
	if keepOr {
		or := simpler(vOr(guards...))
		if or != nil && or.k == kApp && len(or.key()) < 6000 {
			n.facts[or.key()] = fact{or, true}
		}
	}
	listified := func(as []alt, ss []*state) []alt {
		for _, a := range as[1:] {
			if !sameV(a.v, as[0].v) {
				for i := range as {
					as[i].v = joinInterp.listify(ss[i], as[i].v)
				}
				break
			}
		}
		return as
	}
	for k := range ss[0].env {
		var as []alt
		var in []*state
		for i, s := range ss {
			if v, ok := s.env[k]; ok {
				as = append(as, alt{v, guards[i]})
				in = append(in, s)
			}
		}
		n.env[k] = joinAlts(listified(as, in))
	}
	for _, s := range ss[1:] {
		for k, v := range s.env {
			if _, ok := n.env[k]; !ok {
				n.env[k] = v
			}
		}
	}
	locs := map[*Loc]bool{}
	for _, s := range ss {
		for k := range s.heap {
			locs[k] = true
		}
	}
	for k := range locs {
		var as []alt
		var in []*state
		for i, s := range ss {
			if v, ok := s.heap[k]; ok {
				as = append(as, alt{v, guards[i]})
				in = append(in, s)
			} else if k.init != nil {
				as = append(as, alt{k.init, guards[i]})
				in = append(in, s)
			}
		}
		n.heap[k] = joinAlts(listified(as, in))
	}
	var as []alt
	for i, s := range ss {
		as = append(as, alt{vList(s.events...), guards[i]})
	}
	n.events = joinAlts(as).a
	return n
}

const maxPartitions = 40

// mergeStates joins the states that only differ in their facts, and all of them when there are too many.
func (in *Interp) mergeStates(ss []*state) []*state {
	var out []*state
	for _, s := range ss {
		done := false
		for i, o := range out {
			if sameData(o, s) {
				out[i] = joinStates([]*state{o, s})
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	lim := maxPartitions
	if in.maxPart > 0 {
		lim = in.maxPart
	}
	if roundsMax > 0 && lim < 300 {
		lim = 300
	}
	if len(out) > lim {
		in.joined++
		return []*state{joinStates(out)}
	}
	return out
}

// joinInterp is used to look into arrays when states are joined.
var joinInterp = &Interp{locs: map[string]*Loc{}}

// Interp holds the configuration of an analysis.
type Interp struct {
	p          *Prog
	snap       bool                        // calls left uninterpreted see what pointers to local variables hold
	opaque     func(fn *ssa.Function) bool // callees left uninterpreted
	event      func(fn *ssa.Function) bool // callees recorded in the trace (and uninterpreted)
	hook       func(in *Interp, c *callCtx) ([]retCase, bool)
	global     func(g *ssa.Global) *V
	invoke     func(in *Interp, c *callCtx, recv *V, m *types.Func) ([]retCase, bool)
	notes      map[string]bool // constructs that could not be interpreted precisely
	locs       map[string]*Loc
	visited    map[*ssa.Function]bool
	skipped    map[string]bool // functions not looked into
	steps      int
	joined     int
	maxPart    int
	fresh      int
	loops      map[*ssa.Function]*loopInfo
	noRet      map[string]bool
	voids      bool // calls without result of what is not looked into are recorded
	lambda     int
	acc        *accs // of the loop being generalised
	loopNo     int
	unrollFail bool // a loop cannot be unrolled completely
	vague      bool // a comparison was not decided
	bounded    bool // lists are expanded
	forced     map[*ssa.BasicBlock]map[string]bool
	inLoop     int      // loops being analysed
	deepIn     []string // pointers being looked through
	aborts     []*state // where the program stops with an error
	loopAborts bool     // it may do so in a loop
}

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, notes: map[string]bool{}, locs: map[string]*Loc{}, visited: map[*ssa.Function]bool{}, skipped: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}}
}

func (in *Interp) note(f string, a ...any) { in.notes[fmt.Sprintf(f, a...)] = true }

const maxSteps = 600000

type retCase struct {
	v  *V
	st *state
}

type frame struct {
	fn    *ssa.Function
	ctx   string
	stack []*ssa.Function
	rets  []retCase
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *state
}

// call analyses fn for the given arguments from state st (heap, facts, events are threaded through).
// No result means that no path returns.
func (in *Interp) call(fn *ssa.Function, args []*V, binds []*V, st *state, ctx string, stack []*ssa.Function) []retCase {
	in.visited[fn] = true
	fr := &frame{fn: fn, ctx: ctx, stack: append(append([]*ssa.Function{}, stack...), fn)}
	inner := (&state{env: map[ssa.Value]*V{}, heap: st.heap, facts: st.facts, events: st.events}).clone()
	for i, p := range fn.Params {
		if i < len(args) {
			inner.env[p] = args[i]
		} else {
			inner.env[p] = top
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			inner.env[fv] = binds[i]
		} else {
			inner.env[fv] = top
		}
	}
	li := in.loopsOf(fn)
	in.region(fr, li, nil, []edge{{nil, fn.Blocks[0], inner}})
	// results that only differ in their facts are joined
	var out []retCase
	for _, r := range fr.rets {
		r.st.env = map[ssa.Value]*V{}
		done := false
		for i, o := range out {
			if sameV(o.v, r.v) && sameData(o.st, r.st) {
				out[i].st = joinStates([]*state{o.st, r.st})
				done = true
				break
			}
		}
		if !done {
			out = append(out, r)
		}
	}
	if len(out) > maxPartitions && len(stack) > 0 {
		in.joined++
		dummy := fn.Params
		_ = dummy
		var ss []*state
		key := &ssa.Parameter{}
		for _, o := range out {
			o.st.env[key] = o.v
			ss = append(ss, o.st)
		}
		j := joinStates(ss)
		v := j.env[key]
		delete(j.env, key)
		out = []retCase{{v, j}}
	}
	for i := range out {
		out[i].st.env = st.env
	}
	return out
}

// region analyses the blocks of loop l (nil: the whole function) from the given entry edges.
// It returns the edges that leave the loop or go back to its head.  The head itself is only analysed when an
// entry edge leads to it.
func (in *Interp) region(fr *frame, li *loopInfo, l *loop, entry []edge) []edge {
	pending := map[*ssa.BasicBlock][]edge{}
	var out []edge
	emit := func(e edge) {
		if l != nil && (e.to == l.head || !l.blocks[e.to]) {
			out = append(out, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, e := range entry {
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range li.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		es := pending[b]
		delete(pending, b)
		if len(es) == 0 {
			continue
		}
		for _, cur := range in.enter(b, es) {
			if in.steps > maxSteps {
				in.note("analysis budget exceeded in %s", fr.fn)
				return out
			}
			if inner := li.byHead[b]; inner != nil && (l == nil || inner.head != l.head) {
				for _, e := range in.loop(fr, li, inner, cur) {
					emit(e)
				}
				continue
			}
			for _, e := range in.block(fr, b, cur) {
				emit(e)
			}
		}
	}
	return out
}

// enter sets the phis of b for each incoming edge and merges the states.
func (in *Interp) enter(b *ssa.BasicBlock, es []edge) []*state {
	var ss []*state
	for _, e := range es {
		if e.from == nil {
			ss = append(ss, e.st)
			continue
		}
		s := e.st.clone()
		pi := -1
		for i, p := range b.Preds {
			if p == e.from {
				pi = i
			}
		}
		var phis []*ssa.Phi
		var vals []*V
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, in.val(s, phi.Edges[pi]))
		}
		for i, phi := range phis {
			s.env[phi] = vals[i]
		}
		ss = append(ss, s)
	}
	return in.mergeStates(ss)
}

// block interprets the instructions of b and returns the outgoing edges.
func (in *Interp) block(fr *frame, b *ssa.BasicBlock, st *state) []edge {
	states := []*state{st}
	var out []edge
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range states {
				out = append(out, in.branch(b, i.Cond, s)...)
			}
			return out
		case *ssa.Jump:
			for _, s := range states {
				out = append(out, edge{b, b.Succs[0], s})
			}
			return out
		case *ssa.Return:
			for _, s := range states {
				var v *V
				if len(i.Results) == 1 {
					v = in.val(s, i.Results[0])
				} else {
					v = &V{k: kTuple}
					for _, r := range i.Results {
						v.a = append(v.a, in.val(s, r))
					}
				}
				fr.rets = append(fr.rets, retCase{v, s})
			}
			return nil
		case *ssa.Panic:
			for _, s := range states {
				in.stop(s)
			}
			return nil
		default:
			states = in.step(fr, ins, states)
			if len(states) == 0 {
				return nil
			}
		}
	}
	return nil
}

func (in *Interp) step(fr *frame, ins ssa.Instruction, states []*state) []*state {
	var next []*state
	checkStop()
	for _, s := range states {
		in.steps++
		next = append(next, in.instr(fr, ins, s)...)
	}
	if len(next) > maxPartitions {
		next = in.mergeStates(next)
	}
	return next
}

func (in *Interp) branch(b *ssa.BasicBlock, cond ssa.Value, s *state) []edge {
	cv := in.val(s, cond)
	if c := in.truth(s, cv); c != nil {
		if *c {
			return []edge{{b, b.Succs[0], s}}
		}
		return []edge{{b, b.Succs[1], s}}
	}
	if cv.k == kUnion {
		var out []edge
		for _, m := range cv.a {
			x := s.clone()
			in.assume(x, m.g, true)
			x.env[cond] = unguarded(m)
			out = append(out, in.branch(b, cond, x)...)
		}
		return out
	}
	e := s.clone()
	in.assume(s, cv, true)
	in.assume(e, cv, false)
	return []edge{{b, b.Succs[0], s}, {b, b.Succs[1], e}}
}

func (in *Interp) assume(st *state, c *V, b bool) {
	if c == nil || c.k == kTop || c.k == kConst {
		return
	}
	if c.k == kApp {
		switch {
		case c.s == "!":
			in.assume(st, c.a[0], !b)
			return
		case c.s == "and" && b, c.s == "or" && !b:
			for _, x := range c.a {
				in.assume(st, x, b)
			}
			return
		}
	}
	if c.k == kUnion {
		return
	}
	st.facts[c.key()] = fact{c, b}
}

func (in *Interp) truth(st *state, v *V) *bool {
	if v == nil {
		return nil
	}
	if v.k == kConst && v.cv != nil && v.cv.Kind() == constant.Bool {
		b := constant.BoolVal(v.cv)
		return &b
	}
	if f, ok := st.facts[v.key()]; ok {
		return &f.b
	}
	if v.k != kApp {
		return nil
	}
	if v.s == "!" {
		if r := in.truth(st, v.a[0]); r != nil {
			n := !*r
			return &n
		}
	}
	if strings.HasPrefix(v.s, "is:") && !strings.HasPrefix(v.s, "is:iface ") {
		// a value has one dynamic type
		for _, f := range st.facts {
			if f.b && f.v.k == kApp && strings.HasPrefix(f.v.s, "is:") && !strings.HasPrefix(f.v.s, "is:iface ") &&
				f.v.s != v.s && f.v.a[0].key() == v.a[0].key() {
				n := false
				return &n
			}
		}
	}
	if b := in.bounds(st, v); b != nil {
		return b
	}
	if v.s == "==" {
		// equality with two different constants
		for i := 0; i < 2; i++ {
			c, o := v.a[i], v.a[1-i]
			if c.k != kConst {
				continue
			}
			for _, f := range st.facts {
				if f.b && f.v.k == kApp && f.v.s == "==" {
					for j := 0; j < 2; j++ {
						if f.v.a[j].k == kConst && f.v.a[1-j].key() == o.key() && f.v.a[j].key() != c.key() {
							n := false
							return &n
						}
					}
				}
			}
		}
	}
	return nil
}

// split runs f for each member of the union v.
func (in *Interp) split(st *state, v *V, f func(*state, *V) []*state) []*state {
	if v.k != kUnion {
		return f(st, v)
	}
	var out []*state
	for _, m := range v.a {
		s := st.clone()
		bad := false
		if m.g != nil {
			for _, c := range conj(m.g) {
				if t := in.truth(s, c); t != nil && !*t {
					bad = true
				}
			}
			in.assume(s, m.g, true)
		}
		if bad {
			continue
		}
		out = append(out, f(s, unguarded(m))...)
	}
	return out
}

func conj(v *V) []*V {
	if v == nil {
		return nil
	}
	if v.k == kApp && v.s == "and" {
		return v.a
	}
	return []*V{v}
}

// --------------------------------------------------------------------------------------------------------
// Loops

// roundsMax limits the rounds of loops of unknown length that are followed, if it is not zero; runs that need more are
// left out.
var roundsMax int

// loop analyses a loop entered with state st (phis of the head are set).
func (in *Interp) loop(fr *frame, li *loopInfo, l *loop, st *state) []edge {
	return in.loopN(fr, li, l, st, 0)
}

func (in *Interp) loopN(fr *frame, li *loopInfo, l *loop, st *state, iter int) []edge {
	if in.steps > maxSteps {
		in.note("analysis budget exceeded in %s", fr.fn)
		return nil
	}
	in.inLoop++
	defer func() { in.inLoop-- }()
	if iter == 0 {
		if lst, iv, ok := in.overList(fr, l, st); ok {
			return in.listLoop(fr, li, l, st, lst, iv)
		}
	}
	if roundsMax > 0 {
		if iter >= roundsMax {
			return nil
		}
		var outs []edge
		for _, e := range in.region(fr, li, l, []edge{{nil, l.head, st}}) {
			if e.to != l.head {
				outs = append(outs, e)
				continue
			}
			for _, s := range in.enter(l.head, []edge{e}) {
				outs = append(outs, in.loopN(fr, li, l, s, iter+1)...)
			}
		}
		return outs
	}
	// the exit test is decided: unroll
	if shorten && iter > 1 {
		in.unrollFail = true
		return nil
	}
	if ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok && iter < 64 {
		states := []*state{st.clone()}
		for _, ins := range l.head.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if ins == ssa.Instruction(ifi) {
				break
			}
			states = in.step(fr, ins, states)
		}
		decided := len(states) > 0
		inLoop := 0
		for i := range l.head.Succs {
			if l.blocks[l.head.Succs[i]] {
				inLoop++
			}
		}
		for _, s := range states {
			if in.truth(s, in.val(s, ifi.Cond)) == nil {
				decided = false
			}
		}
		if decided && inLoop == 1 {
			if keepOr && iter == 0 {
				defer func(b bool) { in.unrollFail = b }(in.unrollFail)
				in.unrollFail = false
			}
			var outs []edge
			for _, e := range in.region(fr, li, l, []edge{{nil, l.head, st}}) {
				if e.to != l.head {
					outs = append(outs, e)
					continue
				}
				for _, s := range in.enter(l.head, []edge{e}) {
					if in.unrollFail {
						break
					}
					outs = append(outs, in.loopN(fr, li, l, s, iter+1)...)
				}
			}
			if keepOr && in.unrollFail {
				if iter > 0 {
					return nil
				}
				in.unrollFail = false
				return in.widenLoop(fr, li, l, st)
			}
			return outs
		}
	}
	if keepOr && iter > 0 && !noExact {
		in.unrollFail = true
		return nil
	}
	return in.widenLoop(fr, li, l, st)
}

// overList recognises a loop whose induction variable runs over all the positions of a list of unknown
// length: phi(c, phi+1), test (phi or phi+1) < len(list).
func (in *Interp) overList(fr *frame, l *loop, st *state) (*V, *ssa.Phi, bool) {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, false
	}
	x, y := cmp.X, cmp.Y
	op := cmp.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if op != token.LSS && op != token.NEQ {
		return nil, nil, false
	}
	if !l.blocks[l.head.Succs[0]] || l.blocks[l.head.Succs[1]] {
		return nil, nil, false
	}
	var phi *ssa.Phi
	plus := false
	switch xv := x.(type) {
	case *ssa.Phi:
		phi = xv
	case *ssa.BinOp:
		if p, ok := xv.X.(*ssa.Phi); ok && xv.Op == token.ADD && isConstInt(xv.Y, 1) {
			phi, plus = p, true
		}
	}
	if phi == nil || phi.Block() != l.head {
		return nil, nil, false
	}
	for i, pr := range l.head.Preds {
		if l.blocks[pr] {
			inc, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || inc.Op != token.ADD || inc.X != ssa.Value(phi) || !isConstInt(inc.Y, 1) {
				return nil, nil, false
			}
		}
	}
	iv := in.val(st, phi)
	start := int64(0)
	if plus {
		start = -1
	}
	if iv.k != kConst {
		return nil, nil, false
	}
	if c, ok := constant.Int64Val(iv.cv); !ok || c != start {
		return nil, nil, false
	}
	// evaluate the bound: the instructions of the head before the test (loads and calls of accessors)
	states := []*state{st.clone()}
	for _, ins := range l.head.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if v, ok := ins.(ssa.Value); ok && v == x {
			continue
		}
		if ins == ssa.Instruction(cmp) || ins == ssa.Instruction(ifi) {
			break
		}
		states = in.step(fr, ins, states)
	}
	if len(states) != 1 {
		return nil, nil, false
	}
	n := in.val(states[0], y)
	if n.k == kApp && n.s == "len" && len(n.a) == 1 {
		if n.a[0].k == kList {
			return n.a[0], phi, true
		}
		if n.a[0].t != nil {
			if s, ok := n.a[0].t.Underlying().(*types.Slice); ok {
				return asList(n.a[0], s.Elem(), false), phi, true
			}
		}
	}
	return nil, nil, false
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Value))
	return ok && i == n
}

// listLoop analyses a loop over all the elements of lst, item by item.
func (in *Interp) listLoop(fr *frame, li *loopInfo, l *loop, st *state, lst *V, phi *ssa.Phi) []edge {
	start := in.val(st, phi) // 0 or -1
	c, _ := constant.Int64Val(start.cv)
	minus := c == -1
	var outs []edge
	cur := []*state{st}
	n := 0
	known := true
	for pos, it := range lst.a {
		idx := vInt(n)
		src := fmt.Sprintf("@%d", pos)
		if it.k == kEach {
			src = it.s
		}
		if !isItem(it) {
			n++
		}
		if !known || isItem(it) {
			idx = &V{k: kIdx, s: src, a: []*V{vInt(pos)}, t: types.Typ[types.Int]}
			known = false
		}
		set := func(s *state) *state {
			s = s.clone()
			if !minus {
				s.env[phi] = idx
			} else if idx.k == kConst {
				i, _ := constant.Int64Val(idx.cv)
				s.env[phi] = vInt(int(i) - 1)
			} else {
				s.env[phi] = vApp("pred", types.Typ[types.Int], idx)
			}
			if it.g != nil {
				in.assume(s, it.g, true)
			}
			return s
		}
		if !isItem(it) {
			var back []edge
			for _, s := range cur {
				for _, e := range in.iterate(fr, li, l, set(s)) {
					if e.to == l.head {
						back = append(back, e)
					} else {
						outs = append(outs, e)
					}
				}
			}
			if len(back) == 0 {
				return outs
			}
			cur = in.enter(l.head, back)
			continue
		}
		// generic element
		var after []*state
		for _, init := range cur {
			for attempt := 0; ; attempt++ {
				ac := in.newAccs(l)
				if it.k != kEach {
					ac = nil
				}
				g := init
				var res *state
				var exits []edge
				for round := 0; ; round++ {
					var back []edge
					exits = nil
					for _, e := range in.iterate(fr, li, l, set(g)) {
						if e.to == l.head {
							back = append(back, e)
						} else {
							exits = append(exits, e)
						}
					}
					if len(back) == 0 {
						res = init // the list may be empty
						break
					}
					nx := joinStates(in.enter(l.head, back))
					in.acc = ac
					gen, rs, stable := in.generalise(init, g, nx, it, src, phi, round)
					in.acc = nil
					if !stable && round > 8 {
						in.note("no fixpoint in %s", fr.fn)
						stable = true
					}
					if stable {
						res = rs
						break
					}
					g = gen
				}
				if ac != nil && attempt < 4 && ac.more(ac.incomplete(init, l, res, exits)) {
					continue
				}
				if res == init && ac != nil {
					res = init.clone()
				}
				if os.Getenv("ACC_DEBUG") != "" && ac != nil {
					fmt.Println("LOOP", fr.fn, l.head.Index, src, "attempt", attempt, "force", ac.force, "inexact", ac.inexact, "changed", ac.changed)
					for id, x := range ac.byID {
						fmt.Println("   acc", id, x.name, "init", clip(x.init.key(), 300), "body", clip(vkey(x.body), 300))
					}
				}
				ac.closeLoop(it, src, "fold", res, exits)
				outs = append(outs, exits...)
				after = append(after, res)
				break
			}
		}
		if len(after) == 0 {
			return outs
		}
		cur = in.mergeStates(after)
	}
	// normal exit
	for _, s := range cur {
		ex := s.clone()
		ex.env[phi] = vApp("len", types.Typ[types.Int], lst)
		states := []*state{ex}
		for _, ins := range l.head.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if _, ok := ins.(*ssa.If); ok {
				break
			}
			states = in.step(fr, ins, states)
		}
		for _, x := range states {
			outs = append(outs, edge{l.head, l.head.Succs[1], x})
		}
	}
	return outs
}

// iterate runs one iteration: the head's test is taken to be true.
func (in *Interp) iterate(fr *frame, li *loopInfo, l *loop, st *state) []edge {
	states := []*state{st}
	for _, ins := range l.head.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if _, ok := ins.(*ssa.If); ok {
			break
		}
		states = in.step(fr, ins, states)
	}
	var entry, out []edge
	for _, s := range states {
		e := edge{l.head, l.head.Succs[0], s}
		if e.to == l.head {
			out = append(out, e)
		} else {
			entry = append(entry, e)
		}
	}
	return append(out, in.region(fr, li, l, entry)...)
}

// generalise compares the state before an iteration (g) with the state after it (nx) and returns the state
// that stands for any number of iterations (gen), the state after all of them (res), and whether g was
// already general enough.
func (in *Interp) generalise(init, g, nx *state, it *V, src string, phi *ssa.Phi, round int) (gen, res *state, stable bool) {
	gen, res = nx.clone(), nx.clone()
	stable = true
	upd := func(id string, t types.Type, i, a, b *V) (gv, rv *V) {
		if in.acc != nil {
			in.acc.t = t
		}
		if a != nil && b != nil && !sameV(a, b) {
			i, a, b = in.listify(init, i), in.listify(g, a), in.listify(nx, b)
		}
		if strings.HasPrefix(id, "arr ") && round >= 1 && a != nil && b != nil && !sameV(a, b) {
			// the elements are changed in place: that each is changed once is not seen
			stable = stable && a.k == kTop
			return top, top
		}
		gv, rv, s := in.genVal(id, i, a, b, it, src)
		if round > 5 && !s {
			gv, rv, s = top, top, a.k == kTop
		}
		stable = stable && s
		return gv, rv
	}
	for k, b := range nx.env {
		a, ok := g.env[k]
		if !ok || k == ssa.Value(phi) {
			continue
		}
		p, isPhi := k.(*ssa.Phi)
		if !isPhi || p.Block() != phi.Block() {
			continue // values defined in the body are computed anew by each iteration
		}
		gen.env[k], res.env[k] = upd(k.Name(), k.Type(), init.env[k], a, b)
	}
	for k, b := range nx.heap {
		a, ok := g.heap[k]
		i := init.heap[k]
		if !ok {
			if k.init == nil {
				continue
			}
			a = k.init
		}
		if i == nil {
			i = k.init
		}
		gen.heap[k], res.heap[k] = upd(k.id, k.t, i, a, b)
	}
	ge, re := upd("", nil, vList(init.events...), vList(g.events...), vList(nx.events...))
	if ge.k == kList && re.k == kList {
		gen.events, res.events = ge.a, re.a
	}
	var hold []*V
	for k, f := range nx.facts {
		if w, ok := init.facts[k]; !ok || w.b != f.b {
			delete(gen.facts, k)
			delete(res.facts, k)
			c := underGuard(it, f.cond())
			if it.k != kEach || src == "" || c == nil {
				continue
			}
			if in.acc != nil {
				if in.acc.mine(f.v) {
					hold = append(hold, c)
				}
			} else {
				c = vApp("all:"+src, types.Typ[types.Bool], c)
				res.facts[c.key()] = fact{c, true}
			}
		}
	}
	sort.Slice(hold, func(i, j int) bool { return hold[i].key() < hold[j].key() })
	hold = in.allHold(it, hold)
	if in.acc != nil {
		in.acc.hold = hold
	}
	for _, h := range hold {
		c := vApp("all:"+src, types.Typ[types.Bool], h)
		res.facts[c.key()] = fact{c, true}
	}
	return gen, res, stable
}

// underGuard is a condition on the elements of the source that pass the guard of the item, as a condition on all
// elements of the source; nil if the guard implies it.
func underGuard(it, c *V) *V {
	if it.g == nil {
		return c
	}
	var l []*V
	for _, g := range clauses(it.g) {
		if g.key() == c.key() {
			return nil
		}
		l = append(l, vNot(g))
	}
	if c = vOr(append(l, c)...); c == nil {
		return nil
	}
	if b := canonBool(c); b.k == kConst {
		return nil
	}
	return c
}

// listify replaces the slices over arrays by the lists of their elements.
func (in *Interp) listify(st *state, v *V) *V {
	if v == nil {
		return v
	}
	switch v.k {
	case kPtr:
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				if l := in.slice(st, v); l.k == kList {
					return withType(l, v.t)
				}
			}
		}
	case kStruct:
		if isListLike(v.t) && len(v.a) == 1 && v.a[0].k == kPtr {
			return &V{k: kStruct, t: v.t, a: []*V{in.listify(st, v.a[0])}}
		}
		var fs []*V
		for i, x := range v.a {
			if y := in.listify(st, x); y != x {
				if fs == nil {
					fs = append(fs, v.a...)
				}
				fs[i] = y
			}
		}
		if fs != nil {
			return &V{k: kStruct, t: v.t, a: fs}
		}
	}
	return v
}

// genVal generalises one value changed by an iteration over the item it of source src.
func (in *Interp) genVal(id string, i, a, b *V, it *V, src string) (gen, res *V, stable bool) {
	ac := in.acc
	if ac != nil && a != nil && b != nil {
		if g, r, s, ok := ac.step(id, i, a, b); ok {
			return g, r, s
		}
	}
	if a == nil || b == nil || sameV(a, b) {
		return b, b, true
	}
	if ac != nil && id != "" && trackable(ac.t) {
		ac.changed[id] = true
	}
	if a.k == kNil && b.k == kList {
		a = &V{k: kList, set: b.set, t: b.t}
	}
	if i != nil && i.k == kNil && b.k == kList {
		i = &V{k: kList, set: b.set, t: b.t}
	}
	if b.k == kNil && a.k == kList {
		b = &V{k: kList, set: a.set, t: a.t}
	}
	if a.k == kStruct && b.k == kStruct && types.Identical(a.t, b.t) && len(a.a) == len(b.a) && i != nil && i.k == kStruct && len(i.a) == len(a.a) {
		gs, rs := make([]*V, len(a.a)), make([]*V, len(a.a))
		stable = true
		sf := structOf(a.t)
		for f := range a.a {
			var s bool
			if ac != nil {
				ac.t = nil
				if sf != nil && f < sf.NumFields() {
					ac.t = sf.Field(f).Type()
				}
			}
			gs[f], rs[f], s = in.genVal(fmt.Sprintf("%s.%d", id, f), i.a[f], a.a[f], b.a[f], it, src)
			stable = stable && s
		}
		return &V{k: kStruct, t: a.t, a: gs}, mkStruct(a.t, rs), stable
	}
	if a.k == kConst && b.k == kConst {
		if r := in.generalConst(a, b); r != nil {
			ac.loose(id)
			return r, r, false
		}
	}
	if ac != nil && a.k == kList && b.k == kList && i != nil && id != "" && trackable(ac.t) && !ownUpdates(a, b, src) {
		x := ac.symbol(id, i)
		return x.sym, x.sym, false
	}
	if a.k == kList && b.k == kList {
		// append: b = a ++ items
		pre := len(b.a) >= len(a.a)
		for x := 0; pre && x < len(a.a); x++ {
			pre = sameV(a.a[x], b.a[x])
		}
		if pre {
			items := b.a[len(a.a):]
			base := a.a
			if i != nil && i.k == kList && len(i.a) <= len(a.a) {
				base = i.a
			}
			g := append([]*V{}, base...)
			r := append([]*V{}, base...)
			for _, x := range items {
				g = append(g, vStar(x))
				switch {
				case it.k == kEach && !isItem(x):
					r = append(r, &V{k: kEach, s: src, a: []*V{x}, g: it.g})
				case it.k == kEach && x.k == kMay && x.g != nil:
					r = append(r, &V{k: kEach, s: src, a: x.a, g: vAnd(it.g, x.g)})
				case it.k == kEach && x.k == kEach:
					r = append(r, &V{k: kEach, s: src + "×" + x.s, a: x.a, g: vAnd(it.g, x.g)})
				case it.k == kMay && !isItem(x):
					r = append(r, vMay(x, it.g))
				case it.k == kMay && x.k == kMay && x.g != nil:
					r = append(r, vMay(x, it.g))
				default:
					ac.loose(id)
					r = append(r, vStar(x))
				}
			}
			gl := &V{k: kList, a: g, t: b.t, set: b.set}
			rl := &V{k: kList, a: r, t: b.t, set: b.set}
			return gl, rl, sameV(gl, a)
		}
		if len(a.a) == len(b.a) {
			g, r := make([]*V, len(a.a)), make([]*V, len(a.a))
			st := true
			for x := range a.a {
				switch {
				case sameV(a.a[x], b.a[x]):
					g[x], r[x] = a.a[x], b.a[x]
				case a.a[x].k == kEach && b.a[x].k == kEach && a.a[x].s == b.a[x].s && a.a[x].s == src:
					// each iteration updates its own element: strong update
					g[x], r[x] = b.a[x], b.a[x]
				default:
					ac.loose(id)
					g[x] = joinItem(a.a[x], b.a[x])
					r[x] = g[x]
					st = st && sameV(g[x], a.a[x])
				}
			}
			return &V{k: kList, a: g, t: b.t, set: b.set}, &V{k: kList, a: r, t: b.t, set: b.set}, st
		}
	}
	// accumulator: b is computed from a
	accOf := func(v *V) bool { return v.k == kSym && v.s == "acc "+id }
	if id != "" && i != nil {
		if accOf(a) {
			return a, vApp("fold:"+src, i.t, i, b), true
		}
		if (a.k == kApp || a.k == kSym || a.k == kStruct || (a.k == kList || a.k == kNil || a.k == kConst) && grows(b)) && sameV(a, i) && !isNilV(b) {
			t := a.t
			if b.t != nil && t != nil && !types.Identical(b.t, t) {
				t = nil
				if types.IsInterface(b.t) {
					t = b.t
				}
			}
			if ac != nil && trackable(ac.t) {
				x := ac.symbol(id, i)
				return x.sym, x.sym, false
			}
			acc := vSym("acc "+id, t)
			return acc, acc, false
		}
	}
	ac.loose(id)
	j := join(a, b)
	return j, j, sameV(j, a)
}

// ownUpdates: the iteration over src changes the element at hand of a list over src, and nothing else.
func ownUpdates(a, b *V, src string) bool {
	if len(a.a) != len(b.a) {
		return false
	}
	for x := range a.a {
		if !sameV(a.a[x], b.a[x]) && !(a.a[x].k == kEach && b.a[x].k == kEach && a.a[x].s == b.a[x].s && a.a[x].s == src) {
			return false
		}
	}
	return true
}

// grows: a value is the result of a computation that is not interpreted, on some paths.
func grows(b *V) bool {
	if b.k == kUnion {
		for _, x := range b.a {
			if x.k == kApp {
				return true
			}
		}
	}
	return b.k == kApp
}

// generalConst: an integer that changes at each iteration is not tracked.
func (in *Interp) generalConst(a, b *V) *V {
	if a.cv != nil && b.cv != nil && a.cv.Kind() == constant.Int && b.cv.Kind() == constant.Int {
		return top
	}
	return nil
}

func joinItem(a, b *V) *V {
	if isItem(a) && isItem(b) {
		if a.k == b.k && a.s == b.s && vkey(a.g) == vkey(b.g) {
			n := *a
			n.key_ = ""
			n.a = []*V{join(a.a[0], b.a[0])}
			return &n
		}
		return vStar(join(a.a[0], b.a[0]))
	}
	if isItem(a) {
		return vStar(join(a.a[0], b))
	}
	if isItem(b) {
		return vStar(join(a, b.a[0]))
	}
	return join(a, b)
}

// widenLoop is the fixpoint for loops whose trip count is unknown.
func (in *Interp) widenLoop(fr *frame, li *loopInfo, l *loop, st *state) []edge {
	loopsUnknown = true
	it := &V{k: kStar, a: []*V{top}}
	for attempt := 0; ; attempt++ {
		ac := in.newAccs(l)
		exits := in.widen(fr, li, l, st, it, ac)
		if ac != nil && attempt < 4 && ac.more(ac.incomplete(st, l, nil, exits)) {
			continue
		}
		ac.closeLoop(nil, "", "iter", nil, exits)
		return exits
	}
}

func (in *Interp) widen(fr *frame, li *loopInfo, l *loop, st *state, it *V, ac *accs) []edge {
	g := st
	for round := 0; ; round++ {
		var back, exits []edge
		for _, e := range in.region(fr, li, l, []edge{{nil, l.head, g.clone()}}) {
			if e.to == l.head {
				back = append(back, e)
			} else {
				exits = append(exits, e)
			}
		}
		if len(back) == 0 {
			return exits
		}
		nx := joinStates(in.enter(l.head, back))
		gen := nx.clone()
		stable := true
		upd := func(id string, t types.Type, i, a, b *V) *V {
			if ac != nil {
				ac.t = t
			}
			if a == nil || b == nil || sameV(a, b) && (ac == nil || ac.byID[id] == nil) {
				return b
			}
			if strings.HasPrefix(id, "arr ") && round >= 1 {
				stable = stable && a.k == kTop
				return top
			}
			in.acc = ac
			gv, _, s := in.genVal(id, i, a, b, it, "")
			in.acc = nil
			if ac != nil && ac.byID[id] != nil {
				stable = stable && s
				return gv
			}
			if !s && gv.k != kTop && gv.s != "acc "+id && !(gv.k == kList && i != nil && (i.k == kList || i.k == kNil)) {
				gv = join(a, gv)
				s = sameV(gv, a)
			}
			if round > 6 && !s {
				gv, s = top, a.k == kTop
			}
			stable = stable && s
			return gv
		}
		for k, b := range nx.env {
			p, isPhi := k.(*ssa.Phi)
			if !isPhi || p.Block() != l.head {
				continue
			}
			gen.env[k] = upd(k.Name(), k.Type(), st.env[k], g.env[k], b)
		}
		for k, b := range nx.heap {
			a, i := g.heap[k], st.heap[k]
			if a == nil {
				a = k.init
			}
			if i == nil {
				i = k.init
			}
			gen.heap[k] = upd(k.id, k.t, i, a, b)
		}
		if ge := upd("", nil, vList(st.events...), vList(g.events...), vList(nx.events...)); ge.k == kList {
			gen.events = ge.a
		}
		for k, f := range nx.facts {
			if w, ok := st.facts[k]; !ok || w.b != f.b {
				delete(gen.facts, k)
			}
		}
		for k, f := range g.facts {
			if w, ok := nx.facts[k]; !ok || w.b != f.b {
				stable = false
			}
		}
		if stable {
			return exits
		}
		if round > 14 {
			in.note("no fixpoint in %s", fr.fn)
			return exits
		}
		g = gen
	}
}

func sortedNotes(in *Interp) []string {
	var l []string
	for n := range in.notes {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}
