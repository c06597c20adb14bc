package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callees: functions of the module that the instruction may run (statically, by an interface
// method of a module type, or by making a closure). Starting a goroutine counts if withGo.
func (p *Prog) callees(in ssa.Instruction, withGo bool) []*ssa.Function {
	var r []*ssa.Function
	if mc, ok := in.(*ssa.MakeClosure); ok {
		onlyGo := true
		for _, ref := range *mc.Referrers() {
			if g, ok := ref.(*ssa.Go); !ok || g.Call.Value != mc {
				onlyGo = false
			}
		}
		if !onlyGo || withGo {
			r = append(r, mc.Fn.(*ssa.Function))
		}
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return r
	}
	if _, isGo := in.(*ssa.Go); isGo && !withGo {
		return r
	}
	c := ci.Common()
	if f := c.StaticCallee(); f != nil {
		r = append(r, f)
	}
	for _, a := range c.Args {
		if f, ok := a.(*ssa.Function); ok {
			r = append(r, f)
		}
	}
	if c.IsInvoke() {
		if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
			for _, t := range p.implementers(it) {
				if f := p.methodOf(t, c.Method.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// reach: the functions that contain an instruction satisfying pred, or may run one that does.
func (p *Prog) reach(withGo bool, pred func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	rev := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !m[f] && pred(in) {
					m[f] = true
					work = append(work, f)
				}
				for _, c := range p.callees(in, withGo) {
					rev[c] = append(rev[c], f)
					visit(c)
				}
			}
		}
	}
	for _, f := range p.Funcs {
		visit(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range rev[f] {
			if !m[c] {
				m[c] = true
				work = append(work, c)
			}
		}
	}
	return m
}

// onceArg: is the closure only ever handed to sync.Once.Do?
func onceArg(mc *ssa.MakeClosure) bool {
	n := 0
	for _, ref := range *mc.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			if _, d := ref.(*ssa.DebugRef); d {
				continue
			}
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil || fname(f) != "(*sync.Once).Do" {
			return false
		}
		n++
	}
	return n > 0
}
