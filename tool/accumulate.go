package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// losesEarlier: an append in a loop whose base is cut or made anew in the same
// loop, so that what earlier iterations appended is lost.
func losesEarlier(c *ssa.Call) bool {
	h := enclosingLoop(c.Block())
	if h == nil {
		return false
	}
	body := theProg.loop(c.Parent()).body[h]
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && i.Block() != nil && i.Parent() == c.Parent() && body[i.Block()]
	}
	var lossy func(v ssa.Value, seen map[ssa.Value]bool) bool
	lossy = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.ChangeType:
			return lossy(i.X, seen)
		case *ssa.MakeSlice:
			return in(i)
		case *ssa.Phi:
			if i.Block() == h || !in(i) {
				return false
			}
			for _, e := range i.Edges {
				if lossy(e, seen) {
					return true
				}
			}
			return false
		case *ssa.Slice:
			if !in(i) {
				return false
			}
			if _, ok := i.X.(*ssa.Alloc); ok {
				return true // a literal
			}
			if k, ok := i.Low.(*ssa.Const); i.Low != nil && !(ok && k.Value != nil && k.Int64() == 0) {
				return true
			}
			if i.High != nil && !lenOfSame(i.High, i.X) {
				return true
			}
			return lossy(i.X, seen)
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && in(i) {
				return lossy(i.Call.Args[0], seen) && lossy(i.Call.Args[1], seen)
			}
		}
		return false
	}
	if !accumulates(c, h, map[ssa.Value]bool{}) {
		return false // used up in the same turn
	}
	return lossy(c.Call.Args[0], map[ssa.Value]bool{}) && lossy(c.Call.Args[1], map[ssa.Value]bool{})
}

// accumulates: the value is carried to the next turn of the loop or out of it.
func accumulates(v ssa.Value, h *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch i := u.(type) {
		case *ssa.Phi:
			if i.Block() == h {
				return true
			}
			if accumulates(i, h, seen) {
				return true
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && accumulates(i, h, seen) {
				return true
			}
		case *ssa.Slice:
			if accumulates(i, h, seen) {
				return true
			}
		case *ssa.Store:
			if i.Val == v {
				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					// the same field in every turn
					if x, ok := a.X.(ssa.Instruction); !ok || x.Block() == nil || !theProg.loop(i.Parent()).body[h][x.Block()] {
						return true
					}
				case *ssa.Alloc:
					if !theProg.loop(i.Parent()).body[h][a.Block()] {
						return true
					}
				}
			}
		}
	}
	return false
}

func lenOfSame(n, s ssa.Value) bool {
	c, ok := n.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == s
}

// checkCollected: lists of elements whose type has one of the names given,
// built by appending in a loop, keep what was appended before.
func checkCollected(p *Prog, r *Report, rule string, scope func(pkg string) bool, names ...string) {
	for _, f := range p.Funcs {
		if !scope(rel(pkgPathOf(f))) || testOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := c.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				s, ok := c.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				for _, n := range names {
					if strings.HasSuffix(pointee(s.Elem()).String(), n) {
						r.check(!losesEarlier(c), rule, fname(f)+": list of "+shortType(s.Elem()), c.Pos(), nil, "what was appended to the list before is lost in every turn of the loop")
					}
				}
			}
		}
	}
}

func inPkgs(ps ...string) func(string) bool {
	return func(s string) bool {
		for _, p := range ps {
			if s == p || strings.HasPrefix(s, p+"/") {
				return true
			}
		}
		return false
	}
}
