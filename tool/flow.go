package main

import (
	"golang.org/x/tools/go/ssa"
)

// loopInfo: which blocks are in a cycle and which edges are back edges.
type loopInfo struct {
	inLoop map[*ssa.BasicBlock]bool
	header map[*ssa.BasicBlock]bool // target of a back edge
	body   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (p *Prog) loop(f *ssa.Function) *loopInfo {
	if l := p.loops[f]; l != nil {
		return l
	}
	l := &loopInfo{inLoop: map[*ssa.BasicBlock]bool{}, header: map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.header[s] = true
				// natural loop
				set := l.body[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = set
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if set[x] {
						continue
					}
					set[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// SCC membership (covers irreducible loops made with goto)
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		stack := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if x == b {
				l.inLoop[b] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			stack = append(stack, x.Succs...)
		}
	}
	p.loops[f] = l
	return l
}

func (p *Prog) isBackEdge(from, to *ssa.BasicBlock) bool {
	return from != nil && to.Dominates(from)
}

// liveInfo: the registers needed at the start of each block.
type liveInfo struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	case nil:
		return false
	}
	return true
}

func (p *Prog) liveness(f *ssa.Function) *liveInfo {
	if l := p.live[f]; l != nil {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := l.out[b]
			for _, s := range b.Succs {
				for v := range l.in[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b || k == pi {
							if isReg(ph.Edges[k]) && !out[ph.Edges[k]] {
								out[ph.Edges[k]] = true
								changed = true
							}
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[f] = l
	return l
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

// liveAfter: registers needed after instruction idx of b.
func (p *Prog) liveAfter(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := p.liveness(b.Parent())
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	for j := len(b.Instrs) - 1; j > idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && isReg(*op) {
				cur[*op] = true
			}
		}
	}
	return cur
}
