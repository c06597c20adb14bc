package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isHeaderList: a list of headers or of records that hold headers.
func isHeaderList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e := pointee(s.Elem())
	if isBlockHeader(e) {
		return true
	}
	if _, ok := e.Underlying().(*types.Struct); !ok {
		return false
	}
	return tagged(e)["header_bytes"] != nil
}

// checkAllKept: loops over the headers read visit all of them, and those that collect them pass none over.
func checkAllKept(p *Prog, r *Report, fn *ssa.Function) {
	li := p.loop(fn)
	for _, h := range sortedLoops(li.body) {
		coll := overList(p, h, isHeaderList)
		if coll == nil {
			continue
		}
		short := fname(fn)
		why := wholeList(h, coll)
		r.check(why == "", "lookup", short+": whole list", loopPos(p, h), nil, "not all headers read are looked at: %s", why)
		var keep []*ssa.BasicBlock
		for b := range li.body[h] {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MapUpdate:
					if isStored(i.Map.Type()) {
						keep = append(keep, b)
					}
				case *ssa.Call:
					if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isHeaderList(i.Type()) {
						keep = append(keep, b)
					}
				}
			}
		}
		if len(keep) == 0 {
			continue
		}
		for _, pr := range h.Preds {
			if !li.body[h][pr] {
				continue
			}
			ok := false
			for _, k := range keep {
				ok = ok || k.Dominates(pr)
			}
			r.check(ok, "lookup", short+": all kept", loopPos(p, h), nil, "a header read may be passed over")
		}
	}
}

// startsAt: why the header is not one picked by a hash given as a parameter.
func startsAt(v, l ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for n, e := range i.Edges {
			switch unconvV(e).(type) {
			case *ssa.Const, *ssa.Phi:
			default:
				if byHash(e, l) {
					continue
				}
				if edgeUnder(i.Block().Preds[n], i.Block(), asksHash) {
					continue
				}
			}
			if why := startsAt(e, l, seen); why != "" {
				return why
			}
		}
		return ""
	}
	if byHash(v, l) {
		return ""
	}
	return "the first block isn't known to be the one with the hash asked for"
}

// byHash: looked up by a hash that isn't one of the blocks looked at.
func byHash(v, parent ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	switch l := v.(type) {
	case *ssa.Lookup:
		return v == parent || isHash(l.Index.Type()) && fromParam(l.Index)
	case *ssa.Call:
		for _, a := range l.Call.Args {
			if (isHash(a.Type()) || isHash(pointee(a.Type()))) && fromParam(a) {
				return true
			}
		}
	case *ssa.Parameter:
		return true
	}
	return false
}

// asksHash: the condition compares with the hash asked for; whether it holds when they are equal.
func asksHash(c ssa.Value) (eq, is bool) {
	switch b := c.(type) {
	case *ssa.BinOp:
		if (b.Op == token.EQL || b.Op == token.NEQ) && (fromParam(b.X) || fromParam(b.Y)) {
			return b.Op == token.EQL, true
		}
	case *ssa.Call:
		for _, a := range b.Call.Args {
			if fromParam(a) {
				return true, true
			}
		}
	case *ssa.UnOp:
		if b.Op == token.NOT {
			eq, is := asksHash(b.X)
			return !eq, is
		}
	}
	return
}

// edgeUnder: the edge is only taken where the condition of the kind looked for holds.
func edgeUnder(from, to *ssa.BasicBlock, kind func(ssa.Value) (bool, bool)) bool {
	under := func(d, succ *ssa.BasicBlock) bool {
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			return false
		}
		pos, is := kind(f.Cond)
		if !is {
			return false
		}
		if pos {
			return d.Succs[0] == succ
		}
		return d.Succs[1] == succ
	}
	if under(from, to) {
		return true
	}
	for b := from; b != nil; b = b.Idom() {
		d := b.Idom()
		if d != nil && len(b.Preds) == 1 && b.Preds[0] == d && under(d, b) {
			return true
		}
	}
	return false
}

// fromParam: the value is one given to the function.
func fromParam(v ssa.Value) bool {
	found := false
	origins(v, map[ssa.Value]bool{}, func(o ssa.Value) {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			o = u.X
		}
		if a, ok := o.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					o = s.Val
				}
			}
		}
		if sl, ok := o.(*ssa.Slice); ok {
			o = sl.X
			if a, ok := o.(*ssa.Alloc); ok {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						o = s.Val
					}
				}
			}
		}
		switch o.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			found = true
		}
	})
	return found
}

func sortedLoops(m map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	hs := map[*ssa.BasicBlock]bool{}
	for h := range m {
		hs[h] = true
	}
	return sortedBlocks(hs)
}
