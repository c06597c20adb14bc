package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R04: the block locator a repository reports lists stored blocks from the tip down.

func init() { register("R04", checkR04) }

// maxLocator: no message carries a longer locator.
const maxLocator = 500

func checkR04(p *Prog, r *Report) {
	r.rule("tip-first", "the first entry of the locator is the hash of the chain tip")
	r.rule("stored", "every further entry is the hash of the stored header of the height the walk has reached")
	r.rule("down", "the walk goes on at a lower height")
	r.rule("end", "success is reported only when the walk has come down to height zero or the locator is full")
	fns := repoMethods(p, "BlockHeaderRepository", "LatestBlockLocator")
	if len(fns) < 2 {
		r.anchorLost("the implementations of BlockHeaderRepository.LatestBlockLocator")
	}
	for _, fn := range fns {
		checkLocator(p, r, fn)
	}
	r.need("tip-first", 2)
	checkCollected(p, r, "stored", inPkgs("internal/infrastructure"), "chainhash.Hash")
	r.need("stored", 2)
	r.need("end", 2)
}

func isHash(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "chainhash.Hash")
}

// isLocator: a list of pointers to hashes.
func isLocator(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && pointee(s.Elem()) != s.Elem() && isHash(pointee(s.Elem()))
}

func checkLocator(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	repoEnv(p, x, fn)
	inl := x.inline
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return f.Name() != "ChainTip" && inl(x, st, f, c)
	}
	pure := x.pure
	x.pure = func(op string) bool { return strings.HasSuffix(op, ").ChainTip") || pure(op) }
	short := fname(fn)
	isTip := func(t *Term) bool {
		return t != nil && t.k == KExtract && t.args[0].k == KCall && strings.HasSuffix(t.args[0].op, ").ChainTip")
	}
	entry := func(st *State, ev *Event, e *Term) {
		o := e
		if e.k == KAlloc || e.k == KMake {
			if al, ok := e.site.(*ssa.Alloc); ok && ev.instr != nil {
				r.check(perIteration(p, e, ev.instr), "stored", short+": own hash", al.Pos(), st.path(12), "all entries of the locator point to the same hash")
			}
		}
		if y := x.load(st, e, pointee(e.typ)); y != nil {
			o = y
		}
		ho := hashOwner(o)
		if !st.flag("first") {
			st.set("first")
			r.check(isTip(ho), "tip-first", short, ev.instr.Pos(), st.path(12), "the locator starts with %s", o)
			return
		}
		r.check(ho != nil && (isTip(ho) || storedHeader(x, st, ho)), "stored", short, ev.instr.Pos(), st.path(12), "%s is not the hash of a stored header", o)
		if ho == nil {
			return
		}
		var at *Term
		h := unconv(x.fieldOf(st, ho, "Height"))
		l := ho
		if l.k == KExtract {
			l = l.args[0]
		}
		if l.k == KLookup {
			if b, ok := l.args[1].typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				at = unconv(l.args[1])
			}
		}
		if at == nil {
			for t, b := range st.facts {
				if b && t.k == KBin && t.op == "==" {
					for i := range t.args {
						if unconv(t.args[i]) == h && unconv(t.args[1-i]) != h {
							at = unconv(t.args[1-i])
						}
					}
				}
			}
		}
		r.check(at != nil, "stored", short+": height", ev.instr.Pos(), st.path(12), "the stored header %s is not looked up by its height", ho)
		if at != nil {
			// the variables of the walk that hold this height
			for _, fr := range st.frames {
				for v, t := range fr.env {
					if ph, ok := v.(*ssa.Phi); ok && unconv(t) == at {
						st.add(Atom{name: "at", a: t, s: phiKey(ph)})
					}
				}
			}
		}
		if at != nil && at.k != KPhi && at.k != KUnk {
			// the walk itself rather than a height next to it
			ok := at.k == KFieldV || at.k == KLoad || fieldOwner(at, "Height") != nil
			if !ok && at.k == KBin && at.op == "-" {
				// the height below another
				_, ok = at.args[1].isInt()
				if lo, k := st.facts.eval(mkBin(token.LSS, at.args[0], at.args[1], nil)); !k || lo {
					if lo, k := st.facts.eval(mkBin(token.GTR, at.args[0], cInt(0, nil), nil)); !k || !lo {
						ok = false
					}
				}
			}
			r.check(ok, "stored", short+": reached", ev.instr.Pos(), st.path(12), "the header listed is the one of height %s", at)
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if ev.op != "append" || len(ev.args) < 1 || !isLocator(ev.args[0].typ) {
				return
			}
			if es, ok := x.elems(st, ev.args[0]); ok && !st.flag("first") {
				// begun with a literal
				for _, e := range es {
					entry(st, ev, e)
				}
			}
			for _, a := range ev.args[1:] {
				es := []*Term{a}
				if a.k == KSpread {
					var ok bool
					if es, ok = x.elems(st, a.args[0]); !ok {
						r.bad("stored", short+": entries", ev.instr.Pos(), st.path(12), "what is added to the locator is not known")
						return
					}
				}
				for _, e := range es {
					entry(st, ev, e)
				}
			}
		case EvBranch:
			endOfWalk(st, ev)
		case EvBack:
			// the height the walk goes on at
			for _, in := range ev.instr.Block().Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				walksDown(p, x, r, st, ev, ph, short)
			}
			for _, a := range st.all("at") {
				st.del(a)
			}
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			if es, ok := x.elems(st, ev.args[0]); ok && !st.flag("first") {
				for _, e := range es {
					entry(st, ev, e)
				}
			}
			r.check(st.flag("first"), "tip-first", short+": not empty", ev.instr.Pos(), st.path(12), "the locator is empty")
			r.check(st.flag("end"), "end", short, ev.instr.Pos(), st.path(12), "the locator ends although the walk has not come down to height zero")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// endOfWalk: the branch taken means that the walk is over, or that it isn't.
func endOfWalk(st *State, ev *Event) {
	c, val := ev.addr, ev.val
	taken, ok := val.isBool()
	if !ok {
		return
	}
	for c.k == KUn && c.op == "!" {
		c, taken = c.args[0], !taken
	}
	if c.k != KBin || len(c.args) != 2 {
		return
	}
	a, b, op := unconv(c.args[0]), unconv(c.args[1]), c.op
	n, isn := b.isInt()
	if !isn {
		if n, isn = a.isInt(); !isn {
			return
		}
		a = b
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		if op == "" {
			op = c.op
		}
	}
	if !taken {
		op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	bt, ok := a.typ.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return
	}
	if a.k == KCall && a.op == "len" {
		if !isLocator(a.args[0].typ) {
			return
		}
		full := op == ">=" && n >= 64 && n <= maxLocator || op == ">" && n >= 64 && n < maxLocator || op == "==" && n >= 64 && n <= maxLocator
		if full {
			st.set("end")
		}
		return
	}
	switch {
	case op == "<=" && n == 0, op == "==" && n == 0, op == "<" && n == 1:
		st.set("end")
	case op == ">" && n >= 0, op == ">=" && n >= 1, op == "!=" && n == 0:
		st.unset("end")
	}
}

// walksDown: the height looked up in this iteration is gone on with at a lower one.
func walksDown(p *Prog, x *Exec, r *Report, st *State, ev *Event, ph *ssa.Phi, short string) {
	fr := ev.frame
	var old *Term
	for _, a := range st.all("at") {
		if a.s == phiKey(ph) {
			old = a.a
		}
	}
	if old == nil {
		return
	}
	pi := predIndex(ev.instr.Block(), fr.prev)
	if pi < 0 {
		return
	}
	now := x.val(st, ph.Edges[pi])
	less := lower(p, st, now, old, ph)
	r.check(less, "down", short, ph.Pos(), st.path(12), "the walk goes on at %s, which isn't known to be below %s", now, old)
}

func phiKey(ph *ssa.Phi) string {
	return ph.Parent().String() + " " + ph.Name()
}

// lower: whether now is known to be below old.
func lower(p *Prog, st *State, now, old *Term, ph *ssa.Phi) bool {
	if v, k := st.facts.eval(mkBin(token.LSS, now, old, nil)); k {
		return v
	}
	if n, ok := now.isInt(); ok && n == 0 {
		v, k := st.facts.eval(mkBin(token.GTR, old, cInt(0, old.typ), nil))
		return k && v
	}
	n := unconv(now)
	if n.k != KBin || n.op != "-" || unconv(n.args[0]) != unconv(old) {
		return false
	}
	d := unconv(n.args[1])
	// at most the height itself, and more than nothing
	if v, k := st.facts.eval(mkBin(token.GTR, n.args[1], n.args[0], nil)); !k || v {
		return false
	}
	if v, k := st.facts.eval(mkBin(token.GTR, d, cInt(0, d.typ), nil)); k {
		return v
	}
	if ph, ok := d.site.(*ssa.Phi); ok {
		return positiveValue(ph, map[ssa.Value]bool{})
	}
	return false
}

// positiveValue: the value starts above zero and only ever grows.
func positiveValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch i := unconvV(v).(type) {
	case *ssa.Const:
		return i.Value != nil && i.Value.Kind() == constant.Int && constant.Sign(i.Value) > 0
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !positiveValue(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch i.Op {
		case token.ADD, token.MUL:
			return positiveValue(i.X, seen) && positiveValue(i.Y, seen)
		case token.SHL:
			return positiveValue(i.X, seen)
		}
	case *ssa.Call:
		f := i.Call.StaticCallee()
		if f == nil || f.Blocks == nil {
			return false
		}
		for n, a := range f.Params {
			if n < len(i.Call.Args) && !seen[a] && positiveValue(i.Call.Args[n], seen) {
				seen[a] = true
			}
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !positiveValue(ret.Results[0], seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}
