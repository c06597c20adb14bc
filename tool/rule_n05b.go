package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isTxList: the transactions of a block.
func isTxList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e := s.Elem()
	if q := pointee(e); q != nil {
		e = q
	}
	return isTransaction(e)
}

// isMempoolCopy: a table of transactions by their ids, the mempool's own or a copy.
func isMempoolCopy(t types.Type) bool {
	m := mapOf(t)
	if m == nil {
		return false
	}
	if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	return isPoolTable(t) || isTransaction(m.Elem()) || pointee(m.Elem()) != nil && isTransaction(pointee(m.Elem()))
}

// overList: the collection of the wanted kind that the loop reads element by element,
// nil if it is no such loop.
func overList(p *Prog, h *ssa.BasicBlock, want func(types.Type) bool) ssa.Value {
	body := p.loop(h.Parent()).body[h]
	for b := range body {
		// elements read in an inner loop belong to that one
		if enclosingLoop(b) != h {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.IndexAddr:
				if want(i.X.Type()) {
					return i.X
				}
			case *ssa.Index:
				if want(i.X.Type()) {
					return i.X
				}
			case *ssa.Next:
				if rg, ok := i.Iter.(*ssa.Range); ok && want(rg.X.Type()) {
					return rg.X
				}
			}
		}
	}
	return nil
}

// wholeList: why the loop does not visit every element of its collection.
func wholeList(h *ssa.BasicBlock, coll ssa.Value) string {
	for {
		switch c := coll.(type) {
		case *ssa.Slice:
			if c.Low != nil || c.High != nil {
				return "part of the collection is cut off"
			}
			coll = c.X
			continue
		case *ssa.ChangeType:
			coll = c.X
			continue
		}
		break
	}
	if _, isMap := nextOf(h); isMap {
		return ""
	}
	if why := loopCounter(h.Parent(), h); why != "" {
		return why
	}
	c := loopCond(h.Parent(), h)
	for _, v := range []ssa.Value{c.X, c.Y} {
		if l, ok := unconvV(v).(*ssa.Call); ok {
			if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && types.Identical(l.Call.Args[0].Type(), coll.Type()) {
				return ""
			}
		}
	}
	return "the loop's bound is not the number of the elements"
}

// checkWholePool: every transaction of a block is looked for among every transaction of
// the mempool, and those found are removed.
func checkWholePool(p *Prog, r *Report, fn *ssa.Function) {
	r.rule("every", "every transaction of a block is looked for in the mempool, and removed when found")
	short := fname(fn)
	loops := 0
	isLoop := map[*ssa.BasicBlock]bool{}
	outer := func(h *ssa.BasicBlock) bool {
		for g := range isLoop {
			if g != h && g.Parent() == h.Parent() && p.loop(h.Parent()).body[g][h] {
				return false
			}
		}
		return true
	}
	p.eachOf(fn, func(g *ssa.Function) {
		for h := range p.loop(g).header {
			if overList(p, h, isTxList) != nil || overList(p, h, isMempoolCopy) != nil {
				isLoop[h] = true
			}
		}
	})
	for h := range isLoop {
		for _, w := range []func(types.Type) bool{isTxList, isMempoolCopy} {
			c := overList(p, h, w)
			if c == nil {
				continue
			}
			loops++
			why := wholeList(h, c)
			r.check(why == "", "every", fname(h.Parent())+": range", loopPos(p, h), nil, "not every transaction is looked at: %s", why)
			// only the inner search may end once it has found what it searches
			if outer(h) && (returnsNothing(h.Parent()) || fillsCopy(p, h)) {
				r.check(!exitsElsewhere(p, h), "every", fname(h.Parent())+": to the end", loopPos(p, h), nil, "the loop can be left before every transaction was looked at")
			}
		}
	}
	if loops == 0 && !givesCopy(fn) {
		r.bad("every", short+": loop", fn.Pos(), nil, "the transactions of the block are not looked at one by one")
		return
	}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return inNode(f) && !p.announcer(f)
	}
	x.pure = func(op string) bool {
		return strings.HasSuffix(op, "Transaction).TxHash") || strings.HasSuffix(op, "chainhash.Hash).String") || strings.HasSuffix(op, "chainhash.Hash).IsEqual")
	}
	inList := func(t *Term) bool { return t != nil && inBlock(x, t) }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if strings.HasSuffix(ev.op, "Transaction).TxHash") && len(ev.args) > 0 && !st.facts.isNilF(ev.args[0]) {
				// it would have panicked otherwise
				st.facts.assume(mkBin(token.EQL, ev.args[0], cNil(nil), nil), false)
			}
			if strings.HasSuffix(ev.op, "Transaction).TxHash") && len(ev.args) > 0 && inList(ev.args[0]) {
				st.set("looked at")
			}
			if ev.op == "delete" && isPoolTable(ev.args[0].typ) {
				st.set("removed")
			}
		case EvMapUpdate:
			if isMempoolCopy(ev.addr.typ) {
				st.set("kept")
			}
		case EvBranch:
			if isLoop[ev.instr.Block()] {
				st.set("entered")
			}
			if nothingToDo(st) {
				st.set("nothing")
			}
			scan := func(t *Term) {
				t.has(func(y *Term) bool {
					if y.k == KBin && y.op == "==" && y.args[0].typ != nil && isStringy(y.args[0].typ) && knownTrue(st, y, true) {
						a, b := txPtr(y.args[0]), txPtr(y.args[1])
						if inList(a) != inList(b) {
							st.set("found")
						}
					}
					return false
				})
			}
			scan(ev.addr)
			for _, lk := range append(lookupsIn(ev.addr), indexLookups(ev.addr)...) {
				okT := tt.mk(Term{k: KExtract, idx: 1, args: []*Term{lk}, typ: types.Typ[types.Bool]})
				switch {
				case knownTrue(st, okT, true), lk.args[0].k == KMake && knownTrue(st, mkBin(token.EQL, lk, cNil(nil), nil), false):
					st.set("found")
				case knownTrue(st, okT, false):
					// it was removed meanwhile
					st.set("removed")
				}
			}
		case EvReturn:
			r.check(loops == 0 || st.flag("entered") || st.flag("nothing"), "every", short+": reached", ev.instr.Pos(), st.path(20), "the transactions of the block are not looked at")
		case EvBack:
			h := ev.frame.blk
			if !isLoop[h] {
				return
			}
			if overList(p, h, isTxList) != nil {
				r.check(st.flag("looked at"), "every", fname(h.Parent())+": looked at", ev.instr.Pos(), st.path(20), "a transaction of the block is passed over without its id being compared")
			}
			if overList(p, h, isMempoolCopy) != nil && fillsCopy(p, h) {
				r.check(st.flag("kept"), "every", fname(h.Parent())+": copied", ev.instr.Pos(), st.path(20), "a transaction of the mempool is left out of the copy")
			}
			r.check(!st.flag("found") || st.flag("removed"), "every", fname(h.Parent())+": removed", ev.instr.Pos(), st.path(20), "a transaction of the block is in the mempool, but it is not removed")
			if overList(p, h, isTxList) != nil {
				st.unset("looked at")
			}
			if overList(p, h, isMempoolCopy) != nil {
				st.unset("kept")
			}
			st.unset("found")
			st.unset("removed")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func isStringy(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// givesCopy: the function returns a copy of the mempool.
func givesCopy(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() > 0 && isMempoolCopy(res.At(0).Type())
}

func returnsNothing(f *ssa.Function) bool { return f.Signature.Results().Len() == 0 }

// nothingToDo: the block or the mempool is known to have no transactions.
func nothingToDo(st *State) bool {
	none := false
	for t := range st.facts {
		t.has(func(y *Term) bool {
			switch {
			case y.k == KCall && y.op == "len" && len(y.args) == 1 && y.args[0].typ != nil && (isTxList(y.args[0].typ) || isMempoolCopy(y.args[0].typ)):
				none = none || knownTrue(st, mkBin(token.EQL, y, cInt(0, y.typ), types.Typ[types.Bool]), true) || knownTrue(st, mkBin(token.LSS, cInt(0, y.typ), y, types.Typ[types.Bool]), false)
			case y.typ != nil && strings.Contains(y.typ.String(), "go-elements/block."):
				none = none || knownTrue(st, mkBin(token.EQL, y, cNil(nil), nil), true)
			}
			return false
		})
	}
	return none
}

// loopPos: a position in the loop.
func loopPos(p *Prog, h *ssa.BasicBlock) token.Pos {
	body := p.loop(h.Parent()).body[h]
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return h.Parent().Pos()
}

// fillsCopy: the loop puts what it reads into another table.
func fillsCopy(p *Prog, h *ssa.BasicBlock) bool {
	for b := range p.loop(h.Parent()).body[h] {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MapUpdate); ok && isMempoolCopy(m.Map.Type()) {
				return true
			}
		}
	}
	return false
}

// announcer: the function is given an event to hand to the subscribers.
func (p *Prog) announcer(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if isTxEvent(pr.Type()) {
			return true
		}
	}
	return false
}

func removesFromPool(in ssa.Instruction) bool {
	i, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := i.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "delete" && isPoolTable(i.Call.Args[0].Type())
}

// checkBlockHandOver: a block whose header the node passes on is given to the mempool.
func checkBlockHandOver(p *Prog, r *Report) {
	r.rule("block", "a block whose header is passed on is given to the mempool, unchanged")
	removes := p.reach(true, removesFromPool)
	takesBlock := func(f *ssa.Function) bool {
		for _, pr := range f.Params {
			if isBlockType(pr.Type()) {
				return removes[f]
			}
		}
		return false
	}
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || fn.Parent() != nil || !takesReader(fn) {
			continue
		}
		isH := false
		for _, t := range decodedIn(p, fn) {
			isH = isH || wireName(t) == "MsgBlock"
		}
		if !isH {
			continue
		}
		n++
		x := newExec(p)
		sending := p.reach(false, sendsHeader)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return inNode(f) && f != fn && !takesBlock(f) && (sending[f] || smallHelper(f))
		}
		short := fname(fn)
		told := func(st *State, ev *Event) {
			if ev.fn == nil || !takesBlock(ev.fn) {
				return
			}
			for i, a := range ev.args {
				if i < len(ev.fn.Params) && isBlockType(ev.fn.Params[i].Type()) {
					ok := x.reaches(a, func(y *Term) bool { return y.k == KOut && strings.Contains(y.op, "Decode") })
					r.check(ok, "block", short+": block", ev.instr.Pos(), st.path(12), "%s is handed to the mempool instead of the block received", a)
				}
			}
			st.set("told")
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvSend:
				if isBlockHeader(elemHeader(chanElem(ev.addr.typ))) {
					st.set("passed on")
				}
			case EvCall, EvGo, EvDefer:
				told(st, ev)
			case EvReturn:
				r.check(!st.flag("passed on") || st.flag("told"), "block", short+": told", ev.instr.Pos(), st.path(12), "the mempool is not told of a block whose header is passed on")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the handler of blocks")
	}
}

func elemHeader(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Bool]
	}
	if q := pointee(t); q != nil {
		return q
	}
	return t
}

func isBlockType(t types.Type) bool {
	if q := pointee(t); q != nil {
		t = q
	}
	return strings.HasSuffix(t.String(), "go-elements/block.Block")
}

// checkPoolStart: a node that has started receives the transactions given to its mempool.
func checkPoolStart(p *Prog, r *Report) {
	r.rule("listening", "a node that has started listens for the transactions given to its mempool")
	isTx := func(t types.Type) bool { return wireName(orNil(t)) == "MsgTx" }
	listens := p.reach(true, func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.UnOp:
			return i.Op == token.ARROW && isTx(chanElem(i.X.Type()))
		case *ssa.Select:
			for _, s := range i.States {
				if s.Dir == types.RecvOnly && isTx(chanElem(s.Chan.Type())) {
					return true
				}
			}
		}
		return false
	})
	iface := p.named("pkg/node.NodeService")
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || fn.Parent() != nil || fn.Name() != "Start" || !hasErrResult(fn) || fn.Signature.Recv() == nil {
			continue
		}
		if iface != nil && !types.Implements(fn.Signature.Recv().Type(), iface.Underlying().(*types.Interface)) {
			continue
		}
		n++
		x := newExec(p)
		short := fname(fn)
		adds := p.reach(true, func(in ssa.Instruction) bool { return decodesHeader(in) })
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return inNode(g) && !adds[g] && listens[g]
		}
		x.pure = func(op string) bool { return true }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvGo:
				if ev.fn != nil && listens[ev.fn] && !adds[ev.fn] {
					st.set("listening")
				}
			case EvReturn:
				if _, ok := successFacts(st, ev.args); ok {
					r.check(st.flag("listening"), "listening", short+": mempool", ev.instr.Pos(), st.path(12), "Start succeeds without the mempool receiving transactions")
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the node's Start")
	}
}
