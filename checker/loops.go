package main

import "golang.org/x/tools/go/ssa"

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	byHead map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop // innermost loop of a block
	rpo    []*ssa.BasicBlock
}

func (in *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li := in.loops[fn]; li != nil {
		return li
	}
	li := computeLoops(fn)
	in.loops[fn] = li
	return li
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{byHead: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHead[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHead[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range li.byHead {
		for _, m := range li.byHead {
			if l != m && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, l := range li.byHead {
			if l.blocks[b] && (li.inner[b] == nil || len(l.blocks) < len(li.inner[b].blocks)) {
				li.inner[b] = l
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	return li
}
