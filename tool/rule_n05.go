package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N05", checkN05) }

func isTxEvent(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "pkg/node.TxEvent")
}

func isTransaction(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "go-elements/transaction.Transaction")
}

// isPoolTable: the table of the transactions in the mempool, by their ids.
func isPoolTable(t types.Type) bool {
	m := mapOf(t)
	if m == nil {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	s := structOf(m.Elem())
	if !ok || b.Kind() != types.String || s == nil {
		return false
	}
	n, ok := m.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "pkg/node") {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isTransaction(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func sendsTxEvent(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Send:
		return isTxEvent(chanElem(i.Chan.Type()))
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.SendOnly && isTxEvent(chanElem(s.Chan.Type())) {
				return true
			}
		}
	}
	return false
}

// txPtr: the transaction whose id this value is.
func txPtr(t *Term) *Term {
	if t == nil {
		return nil
	}
	c := t.find(func(y *Term) bool { return y.k == KCall && strings.HasSuffix(y.op, "Transaction).TxHash") })
	if c == nil || len(c.args) == 0 {
		return nil
	}
	return c.args[0]
}

func checkN05(p *Prog, r *Report) {
	r.rule("kinds", "an event tells its own kind and the id it was made with")
	r.rule("unconfirmed", "an unconfirmed event follows the addition of that transaction to the mempool, and every addition is announced")
	r.rule("confirmed", "a confirmed event follows the removal of that transaction, found in the block by its id, and every removal is announced")
	r.rule("everyone", "an event is handed to every subscriber, over its own channel")
	r.rule("subscribe", "a new subscriber joins the others with the channel it is given")
	r.rule("hand-over", "a transaction received is handed to the mempool unchanged")
	// announcers: functions given an event that they, or goroutines they start, send
	sends := p.reach(true, sendsTxEvent)
	var announcers []*ssa.Function
	isAnn := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || !sends[f] {
			continue
		}
		for _, pr := range f.Params {
			if isTxEvent(pr.Type()) {
				announcers = append(announcers, f)
				isAnn[f] = true
			}
		}
	}
	// the outermost ones are what the others call
	calls, _, gos := p.staticCallers()
	n := 0
	for _, f := range announcers {
		inner := false
		for _, c := range calls[f] {
			if isAnn[c.Parent()] {
				inner = true
			}
		}
		if !inner && !gos[f] {
			checkEveryone(p, r, f)
			n++
		}
	}
	if n == 0 {
		r.anchorLost("the function that announces events of the mempool")
		return
	}
	kinds := checkEventKinds(p, r)
	checkAnnouncing(p, r, isAnn, kinds)
	checkSubscribing(p, r)
	checkTxHandOver(p, r)
	checkBlockHandOver(p, r)
	checkIdentity(p, r)
	checkPoolStart(p, r)
	for _, f := range p.Funcs {
		if inNode(f) && f.Parent() == nil && givesCopy(f) {
			checkWholePool(p, r, f)
		}
	}
	r.need("every", 2)
	r.need("block", 1)
	r.need("listening", 1)
	r.need("kinds", 4)
	r.need("unconfirmed", 2)
	r.need("confirmed", 2)
	checkCollected(p, r, "everyone", inPkgs("pkg/node"), "txSubscriber", "peer.Peer")
	r.need("everyone", 3)
	r.need("subscribe", 1)
	r.need("hand-over", 2)
}

// checkEventKinds: what each type of event says it is.
func checkEventKinds(p *Prog, r *Report) map[string]string {
	kinds := map[string]string{}
	pkg := p.pkg("pkg/node")
	iface := p.named("pkg/node.TxEvent")
	if pkg == nil || iface == nil {
		r.anchorLost("the events of the mempool")
		return kinds
	}
	val := func(n string) int64 {
		if c, ok := pkg.Pkg.Scope().Lookup(n).(*types.Const); ok {
			v, _ := constant.Int64Val(c.Val())
			return v
		}
		return -1
	}
	r.check(val("TxConfirmed") != val("TxUnConfirmed"), "kinds", "constants", token.NoPos, nil, "confirmed and unconfirmed events are of the same kind")
	for _, name := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(tn.Type(), iface.Underlying().(*types.Interface)) {
			continue
		}
		want := int64(-1)
		switch {
		case name == "TxConfirmedEvent":
			want = val("TxConfirmed")
			kinds[name] = "confirmed"
		case name == "TxUnConfirmedEvent":
			want = val("TxUnConfirmed")
			kinds[name] = "unconfirmed"
		default:
			continue
		}
		for _, m := range []string{"Type", "TxID"} {
			f := p.methodAny("pkg/node."+name, m)
			if f == nil {
				r.bad("kinds", name+"."+m, tn.Pos(), nil, "the method is missing")
				continue
			}
			x := newExec(p)
			short := fname(f)
			x.on = func(x *Exec, st *State, ev *Event) {
				if ev.kind != EvReturn {
					return
				}
				v := ev.args[0]
				if m == "Type" {
					k, ok := v.isInt()
					r.check(ok && k == want, "kinds", short, ev.instr.Pos(), nil, "the event says it is of kind %s", v)
					return
				}
				fld := ""
				if v.k == KFieldV {
					fld = v.fld.Name()
				} else if v.k == KLoad && v.args[0].k == KField {
					fld = v.args[0].fld.Name()
				}
				r.check(fld == eventIDField(tn.Type()), "kinds", short, ev.instr.Pos(), nil, "the event's id is %s", v)
			}
			err := x.run(f, rootOpt{})
			r.ran(x, short, err)
		}
	}
	if len(kinds) < 2 {
		r.anchorLost("the events of the mempool")
	}
	return kinds
}

func eventIDField(t types.Type) string {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return s.Field(i).Name()
		}
	}
	return ""
}

func eventTxField(t types.Type) string {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if isTransaction(s.Field(i).Type()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

// checkAnnouncing examines what adds to and removes from the mempool.
func checkAnnouncing(p *Prog, r *Report, isAnn map[*ssa.Function]bool, kinds map[string]string) {
	changes := p.reach(false, func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.MapUpdate:
			return isPoolTable(i.Map.Type()) && !freshMap(i.Map)
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return isPoolTable(i.Call.Args[0].Type())
			}
			t := i.Call.StaticCallee()
			return t != nil && isAnn[t]
		}
		return false
	})
	calls, escapes, gos := p.staticCallers()
	removes := p.reach(false, removesFromPool)
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || !changes[fn] || isAnn[fn] {
			continue
		}
		// where changes begin: goroutines and what is called from elsewhere
		begin := gos[fn] || escapes[fn] || len(calls[fn]) == 0
		for _, c := range calls[fn] {
			if !inNode(c.Parent()) {
				begin = true
			}
		}
		if !begin {
			continue
		}
		n++
		checkAnnounce(p, r, fn, isAnn, kinds, changes)
		if removes[fn] {
			checkWholePool(p, r, fn)
		}
	}
	if n == 0 {
		r.anchorLost("what changes the mempool")
	}
}

func freshMap(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeMap)
	return ok
}

func checkAnnounce(p *Prog, r *Report, fn *ssa.Function, isAnn map[*ssa.Function]bool, kinds map[string]string, changes map[*ssa.Function]bool) {
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return inNode(f) && !isAnn[f] && (changes[f] || smallHelper(f) || takesTxList(f)) || f.Name() == "HashStr"
	}
	x.pure = func(op string) bool {
		return strings.HasSuffix(op, "Transaction).TxHash") || strings.HasSuffix(op, "chainhash.Hash).String") || strings.HasSuffix(op, "chainhash.Hash).IsEqual")
	}
	short := fname(fn)
	// sameID: the two ids are the same, as far as is known here
	sameID := func(st *State, a, b *Term) bool {
		return a == b || canonID(x, st, a) == canonID(x, st, b) || knownTrue(st, mkBin(token.EQL, a, b, types.Typ[types.Bool]), true)
	}
	in := func(b *ssa.BasicBlock, st *State) bool {
		// the loop whose back edge is taken is the one the change happened in
		return true
	}
	end := func(st *State, ev *Event) {
		for _, a := range st.all("added") {
			r.check(false, "unconfirmed", short+": announced", ev.instr.Pos(), st.path(20), "the transaction %s was added to the mempool, but that is not announced", a.a)
		}
		for _, a := range st.all("removed") {
			r.check(false, "confirmed", short+": announced", ev.instr.Pos(), st.path(20), "the transaction %s was removed from the mempool, but that is not announced", a.a)
		}
		for _, n := range []string{"added", "removed", "present", "absent", "ids"} {
			st.clear(n)
		}
	}
	_ = in
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvMapUpdate:
			if ev.addr.k == KMake && isMempoolCopy(ev.addr.typ) {
				// an index of the block's transactions
				if ptr := txPtr(ev.key); ptr == nil || !inBlock(x, ptr) || !isTheTx(x, st, ev.val, ptr) {
					st.add(Atom{name: "no index", a: ev.addr})
				}
			}
			if !isPoolTable(ev.addr.typ) || ev.addr.k == KMake {
				return
			}
			st.add(Atom{name: "added", a: canonID(x, st, ev.key)})
			st.add(Atom{name: "present", a: canonID(x, st, ev.key)})
			ptr := txPtr(ev.key)
			ok := false
			if ptr != nil {
				want := x.load(st, ptr, pointee(ptr.typ))
				if v := x.fieldOf(st, ev.val, eventTxField(ev.val.typ)); v != nil {
					ok = v == want
				}
			}
			r.check(ok, "unconfirmed", short+": stored", ev.instr.Pos(), st.path(20), "what is put in the mempool under the id %s is not that transaction", ev.key)
		case EvCall:
			if strings.HasSuffix(ev.op, "Transaction).TxHash") && len(ev.args) > 0 && !st.facts.isNilF(ev.args[0]) {
				// it would have panicked otherwise
				st.facts.assume(mkBin(token.EQL, ev.args[0], cNil(nil), nil), false)
			}
			if ev.op == "delete" && isPoolTable(ev.args[0].typ) {
				k := canonID(x, st, ev.args[1])
				here := false
				for _, a := range st.all("present") {
					here = here || a.a == k
				}
				if here {
					st.add(Atom{name: "removed", a: k})
					st.del(Atom{name: "present", a: k})
				} else {
					st.add(Atom{name: "blind", a: k})
				}
				// found in the block
				ok := txPtr(ev.args[1]) != nil && inBlock(x, txPtr(ev.args[1]))
				for _, a := range st.all("ids") {
					ok = ok || canonID(x, st, a.a) == k
				}
				r.check(ok, "confirmed", short+": in the block", ev.instr.Pos(), st.path(20), "the transaction %s is removed although it is not known to be in the block", k)
			}
			if ev.fn != nil && isAnn[ev.fn] {
				checkEvent(p, r, x, st, ev, short, kinds, sameID)
			}
		case EvBranch:
			for _, lk := range lookupsIn(ev.addr) {
				okT := tt.mk(Term{k: KExtract, idx: 1, args: []*Term{lk}, typ: types.Typ[types.Bool]})
				if knownTrue(st, okT, true) {
					st.add(Atom{name: "present", a: canonID(x, st, lk.args[1])})
				}
			}
			for _, lk := range indexLookups(ev.addr) {
				m := lk.args[0]
				okT := tt.mk(Term{k: KExtract, idx: 1, args: []*Term{lk}, typ: types.Typ[types.Bool]})
				if !st.has(Atom{name: "no index", a: m}) && (knownTrue(st, okT, true) || knownTrue(st, mkBin(token.EQL, lk, cNil(nil), nil), false)) {
					st.add(Atom{name: "ids", a: canonID(x, st, lk.args[1]), b: lk})
				}
			}
			ev.addr.has(func(y *Term) bool {
				if y.k == KBin && y.op == "==" && knownTrue(st, y, true) {
					for i := range y.args {
						if ptr := txPtr(y.args[i]); ptr != nil && inBlock(x, ptr) {
							st.add(Atom{name: "ids", a: canonID(x, st, y.args[1-i]), b: ptr})
						}
					}
				}
				return false
			})
		case EvBack:
			if ev.frame.fn == fn || len(st.frames) > 0 {
				// what was changed in the iteration was announced in it
				if lp := p.loop(ev.frame.fn).body[ev.frame.blk]; lp != nil {
					end(st, ev)
				}
			}
		case EvReturn:
			end(st, ev)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// canonID: ids of the same transaction are the same term, wherever the transaction was
// copied to when they were computed.
func canonID(x *Exec, st *State, t *Term) *Term {
	if t.k == KCall && strings.HasSuffix(t.op, "chainhash.Hash).String") {
		if ptr := txPtr(t); ptr != nil {
			return tt.mk(Term{k: KCall, op: "id", args: []*Term{x.load(st, ptr, pointee(ptr.typ))}, typ: t.typ})
		}
	}
	return t
}

// indexLookups: lookups in a table made here.
func indexLookups(t *Term) []*Term {
	var r []*Term
	t.has(func(y *Term) bool {
		if y.k == KLookup && y.args[0].k == KMake && isMempoolCopy(y.args[0].typ) {
			r = append(r, y)
		}
		return false
	})
	return r
}

// isTheTx: the value is the transaction pointed to, or that pointer.
func isTheTx(x *Exec, st *State, v, ptr *Term) bool {
	return v == ptr || x.load(st, ptr, pointee(ptr.typ)) == v
}

func takesTxList(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if isTxList(pr.Type()) || isBlockType(pr.Type()) {
			return true
		}
	}
	return false
}

// inBlock: the transaction is one of those of a block.
func inBlock(x *Exec, ptr *Term) bool {
	return ptr.has(func(y *Term) bool {
		return (y.k == KField || y.k == KFieldV) && y.fld != nil && y.fld.Name() == "Transactions"
	})
}

func lookupsIn(t *Term) []*Term {
	var r []*Term
	t.has(func(y *Term) bool {
		if y.k == KLookup && isPoolTable(y.args[0].typ) {
			r = append(r, y)
		}
		return false
	})
	return r
}

func checkEvent(p *Prog, r *Report, x *Exec, st *State, ev *Event, short string, kinds map[string]string, sameID func(*State, *Term, *Term) bool) {
	var e *Term
	for i, pr := range ev.fn.Params {
		if isTxEvent(pr.Type()) && i < len(ev.args) {
			e = stripIface(ev.args[i])
		}
	}
	if e == nil || e.typ == nil {
		return
	}
	name := ""
	if n, ok := e.typ.(*types.Named); ok {
		name = n.Obj().Name()
	}
	kind := kinds[name]
	if kind == "" {
		r.bad("kinds", short, ev.instr.Pos(), st.path(20), "an event of unknown kind %s is announced", e.typ)
		return
	}
	id := x.fieldOf(st, e, eventIDField(e.typ))
	tx := x.fieldOf(st, e, eventTxField(e.typ))
	if id == nil {
		return
	}
	switch kind {
	case "unconfirmed":
		ok := false
		for _, a := range st.all("present") {
			ok = ok || sameID(st, a.a, id)
		}
		r.check(ok, "unconfirmed", short+": added", ev.instr.Pos(), st.path(20), "an unconfirmed event is announced for %s, which is not known to have been added to the mempool", id)
		r.check(len(st.all("removed")) == 0, "confirmed", short+": kind", ev.instr.Pos(), st.path(20), "a removal from the mempool is announced as an addition")
		ptr := txPtr(id)
		okTx := ptr != nil && x.load(st, ptr, pointee(ptr.typ)) == tx
		r.check(okTx, "unconfirmed", short+": transaction", ev.instr.Pos(), st.path(20), "the event for %s carries another transaction", id)
		for _, a := range st.all("added") {
			if sameID(st, a.a, id) {
				st.del(a)
			}
		}
	case "confirmed":
		ok := false
		for _, a := range st.all("removed") {
			if sameID(st, a.a, id) {
				ok = true
				st.del(a)
			}
		}
		r.check(ok, "confirmed", short+": removed", ev.instr.Pos(), st.path(20), "a confirmed event is announced for %s, which is not known to have been removed from the mempool", id)
		okTx := false
		if ptr := txPtr(id); ptr != nil {
			okTx = x.load(st, ptr, pointee(ptr.typ)) == tx
		}
		for _, a := range st.all("ids") {
			if a.a == canonID(x, st, id) && a.b != nil && x.load(st, a.b, pointee(a.b.typ)) == tx {
				okTx = true
			}
		}
		r.check(okTx, "confirmed", short+": transaction", ev.instr.Pos(), st.path(20), "the event for %s carries another transaction", id)
	}
}

// checkEveryone: the announcer hands its event to every subscriber.
func checkEveryone(p *Prog, r *Report, fn *ssa.Function) {
	sends := p.reach(false, sendsTxEvent)
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inNode(f) }
	short := fname(fn)
	var event *Term
	for i, pr := range fn.Params {
		if isTxEvent(pr.Type()) {
			event = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	done := map[*ssa.Function]bool{}
	// the loop over the subscribers
	var loops []*ssa.BasicBlock
	p.eachOf(fn, func(g *ssa.Function) {
		for h := range p.loop(g).header {
			loops = append(loops, h)
		}
	})
	holds := func(st *State, t *Term, want func(*Term) bool) bool {
		t = stripIface(t)
		if want(t) {
			return true
		}
		if t.typ != nil && pointee(t.typ) != nil {
			return want(stripIface(x.load(st, t, pointee(t.typ))))
		}
		return false
	}
	isSub := func(t *Term) bool {
		return t.has(func(y *Term) bool {
			c, _, _ := elemOf(y)
			return c != nil && isSubscribers(c.typ) && !c.has(func(z *Term) bool { return z.k == KSlice })
		})
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvGo:
			if ev.fn == nil || !sends[ev.fn] {
				return
			}
			all := append([]*Term{}, ev.args...)
			if ev.call != nil && ev.call.fn != nil {
				for _, b := range ev.call.fn.args {
					if b.k == KAlloc && !perIteration(p, b, ev.instr) && holds(st, b, isSub) {
						r.bad("everyone", short+": channel", ev.instr.Pos(), st.path(20), "the goroutines share the variable of the loop, so that a subscriber can get an event several times and another none")
						st.set("handed")
						return
					}
					all = append(all, b)
				}
			}
			okS, okE := false, false
			for _, a := range all {
				okS = okS || holds(st, a, isSub)
				okE = okE || holds(st, a, func(t *Term) bool { return t == event })
			}
			r.check(okS, "everyone", short+": subscriber", ev.instr.Pos(), st.path(20), "the goroutine that hands over the event is not given the subscriber")
			r.check(okE, "everyone", short+": event", ev.instr.Pos(), st.path(20), "the goroutine that hands over the event is not given the event")
			st.set("handed")
			if !done[ev.fn] {
				done[ev.fn] = true
				checkHanding(p, r, ev.fn)
			}
		case EvSend:
			if isTxEvent(chanElem(ev.addr.typ)) {
				r.check(isSub(ev.addr), "everyone", short+": channel", ev.instr.Pos(), st.path(20), "the event is sent over a channel that is not the subscriber's")
				r.check(stripIface(ev.val) == event, "everyone", short+": event", ev.instr.Pos(), st.path(20), "%s is sent instead of the event", ev.val)
				st.set("handed")
			}
		case EvRecv:
			if isEmptyChan(ev.addr) {
				st.set("handed")
				st.set("stopped")
			}
		case EvSelect:
			for i, c := range ev.chans {
				if ev.dirs[i] == types.SendOnly && isTxEvent(chanElem(c.typ)) {
					r.check(ev.block, "everyone", short+": handed over", ev.instr.Pos(), st.path(20), "the event is dropped if the subscriber is not waiting for it at that moment")
				}
			}
		case EvBranch:
			if stopKnown(st) || noSubscribers(st) {
				st.set("idle")
			}
			if h := ev.instr.Block(); overSubscribers(h) && p.loop(h.Parent()).header[h] {
				body := p.loop(h.Parent()).body[h]
				b, _ := ev.val.isBool()
				to := h.Succs[1]
				if b {
					to = h.Succs[0]
				}
				if body[to] {
					st.set("inside")
				} else {
					st.unset("inside")
					st.set("over")
				}
			}
		case EvBack:
			h := ev.frame.blk
			if overSubscribers(h) {
				r.check(st.flag("handed"), "everyone", short+": every one", ev.instr.Pos(), st.path(20), "a subscriber is passed over")
				st.unset("handed")
			}
		case EvReturn:
			if !st.flag("over") && !st.flag("inside") {
				r.check(st.flag("stopped") || st.flag("idle"), "everyone", short+": reached", ev.instr.Pos(), st.path(20), "the event is handed to nobody although the mempool is not stopped")
			}
			r.check(!st.flag("inside") || st.flag("stopped"), "everyone", short+": to the end", ev.instr.Pos(), st.path(20), "the event is not handed to the subscribers after the first")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	// the loop runs over all of them
	n := 0
	for _, h := range loops {
		if !overSubscribers(h) {
			continue
		}
		n++
		why := ""
		if _, isMap := nextOf(h); !isMap {
			why = loopCounter(h.Parent(), h)
			if why == "" && !lenOfSubscribers(h) {
				why = "its bound is not their number"
			}
		}
		r.check(why == "", "everyone", short+": range", h.Instrs[0].Pos(), nil, "the loop does not run over all subscribers: %s", why)
	}
	if n == 0 {
		r.bad("everyone", short+": loop", fn.Pos(), nil, "there is no loop over the subscribers")
	}
}

// stopKnown: a flag of the mempool, which tells that it is stopped, is set.
func stopKnown(st *State) bool {
	for t, v := range st.facts {
		if v && t.typ != nil && (t.k == KLoad && t.args[0].k == KField || t.k == KFieldV) {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return true
			}
		}
	}
	return false
}

// noSubscribers: there are none.
func noSubscribers(st *State) bool {
	none := false
	for t := range st.facts {
		t.has(func(y *Term) bool {
			if y.k == KCall && y.op == "len" && len(y.args) == 1 && isSubscribers(y.args[0].typ) {
				none = none || knownTrue(st, mkBin(token.EQL, y, cInt(0, y.typ), types.Typ[types.Bool]), true) || knownTrue(st, mkBin(token.LSS, cInt(0, y.typ), y, types.Typ[types.Bool]), false)
			}
			return false
		})
	}
	return none
}

func isSubscribers(t types.Type) bool {
	if t == nil {
		return false
	}
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Map:
		e = u.Elem()
	case *types.Pointer:
		return isSubscribers(u.Elem())
	default:
		return false
	}
	if isTxEvent(chanElem(e)) {
		return true
	}
	s := structOf(e)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isTxEvent(chanElem(s.Field(i).Type())) {
			return true
		}
	}
	return false
}

// overSubscribers: the loop reads elements of the subscribers.
func overSubscribers(h *ssa.BasicBlock) bool {
	for _, b := range h.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.IndexAddr:
				if isSubscribers(i.X.Type()) {
					return true
				}
			case *ssa.Next:
				if rg, ok := i.Iter.(*ssa.Range); ok && isSubscribers(rg.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// nextOf: the loop is a range over a map.
func nextOf(h *ssa.BasicBlock) (*ssa.Next, bool) {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n, true
		}
	}
	return nil, false
}

func lenOfSubscribers(h *ssa.BasicBlock) bool {
	c := loopCond(h.Parent(), h)
	if c == nil {
		return false
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if l, ok := v.(*ssa.Call); ok {
			if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isSubscribers(l.Call.Args[0].Type()) {
				return true
			}
		}
	}
	return false
}

// eachOf: the function and those of the package it calls.
func (p *Prog) eachOf(fn *ssa.Function, f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] || !inNode(g) {
			return
		}
		seen[g] = true
		f(g)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, c := range p.callees(in, false) {
					rec(c)
				}
			}
		}
	}
	rec(fn)
}

// perIteration: the variable is made anew in the iteration that starts the goroutine.
func perIteration(p *Prog, a *Term, in ssa.Instruction) bool {
	al, ok := a.site.(*ssa.Alloc)
	if !ok || al.Parent() != in.Parent() {
		return true
	}
	for _, body := range p.loop(al.Parent()).body {
		if body[in.Block()] && !body[al.Block()] {
			return false
		}
	}
	return true
}

// checkHanding: the goroutine sends the event it was given over the channel it was given.
func checkHanding(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inNode(f) }
	short := fname(fn)
	given := func(t *Term) bool {
		return t.has(func(y *Term) bool { return y.k == KParam || y.k == KFree })
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvSelect:
			for i, c := range ev.chans {
				if ev.dirs[i] == types.SendOnly && isTxEvent(chanElem(c.typ)) {
					r.check(ev.block, "everyone", short+": handed over", ev.instr.Pos(), st.path(20), "the event is dropped if the subscriber is not waiting for it at that moment")
				}
			}
		case EvSend:
			if isTxEvent(chanElem(ev.addr.typ)) {
				r.check(given(ev.addr) && given(ev.val) && !ev.addr.has(func(y *Term) bool { c, _, _ := elemOf(y); return c != nil }), "everyone", short+": sent", ev.instr.Pos(), st.path(20), "%s is sent over %s", ev.val, ev.addr)
				st.set("sent")
			}
		case EvRecv:
			if isEmptyChan(ev.addr) {
				st.set("stopped")
			}
		case EvReturn:
			r.check(st.flag("sent") || st.flag("stopped"), "everyone", short+": end", ev.instr.Pos(), st.path(20), "the event is not handed to the subscriber although the mempool is not stopped")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkSubscribing: what gives out channels for events keeps the other end of them.
func checkSubscribing(p *Prog, r *Report) {
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || fn.Parent() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || !isTxEvent(chanElem(res.At(0).Type())) || fn.Signature.Recv() == nil {
			continue
		}
		n++
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inNode(f) }
		short := fname(fn)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if ev.op == "close" {
					st.add(Atom{name: "closed", a: ev.args[0].strip()})
				}
			case EvStore:
				if !isSubscribers(ev.val.typ) {
					return
				}
				v := ev.val
				ok := v.k == KAppend && len(v.args) > 0 && v.args[0].strip().k == KLoad
				if ok {
					ok = v.args[0].strip().args[0] == ev.addr
				}
				r.check(ok, "subscribe", short+": joins", ev.instr.Pos(), st.path(20), "the subscribers become %s: those there were are lost", v)
				st.add(Atom{name: "kept", a: v})
			case EvMapUpdate:
				if isSubscribers(ev.addr.typ) {
					st.add(Atom{name: "kept", a: ev.val})
				}
			case EvReturn:
				ch := stripConv(ev.args[0])
				ok := st.has(Atom{name: "closed", a: ch})
				for _, a := range st.all("kept") {
					ok = ok || x.reaches(a.a, func(y *Term) bool { return y == ch })
				}
				r.check(ok, "subscribe", short+": channel", ev.instr.Pos(), st.path(20), "the channel given out is not kept with the subscriber")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the subscription to events of the mempool")
	}
}

func stripConv(t *Term) *Term {
	t = stripIface(t)
	for t.k == KConv {
		t = t.args[0]
	}
	return t
}

// checkTxHandOver: the transaction received from a peer is the one given to the mempool.
func checkTxHandOver(p *Prog, r *Report) {
	add := p.methodAny("pkg/node.MemPool", "AddTx")
	if add == nil {
		r.anchorLost("MemPool.AddTx")
		return
	}
	isTx := func(t types.Type) bool { return wireName(orNil(t)) == "MsgTx" }
	handlers := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || fn.Parent() != nil || fn != add && !takesReader(fn) {
			continue
		}
		isH := fn == add
		if !isH {
			for _, t := range decodedIn(p, fn) {
				isH = isH || wireName(t) == "MsgTx"
			}
			if !isH {
				continue
			}
			handlers++
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inNode(f) && f != fn }
		short := fname(fn)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvSelect:
				for i, c := range ev.chans {
					if ev.dirs[i] == types.SendOnly && isTx(chanElem(c.typ)) {
						r.check(ev.block, "hand-over", short+": waits", ev.instr.Pos(), st.path(20), "a transaction is dropped if the mempool is busy")
					}
				}
			case EvSend:
				if !isTx(chanElem(ev.addr.typ)) {
					return
				}
				v := ev.val
				ok := fn == add && v.k == KParam || fn != add && x.reaches(v, func(y *Term) bool { return y.k == KOut && strings.Contains(y.op, "Decode") })
				r.check(ok, "hand-over", short+": transaction", ev.instr.Pos(), st.path(20), "%s is handed to the mempool instead of the transaction received", v)
				st.set("handed")
			case EvRecv:
				if isEmptyChan(ev.addr) {
					st.set("handed")
				}
			case EvReturn:
				if fn != add {
					if _, ok := successFacts(st, ev.args); !ok {
						return
					}
				}
				r.check(st.flag("handed"), "hand-over", short+": done", ev.instr.Pos(), st.path(20), "the transaction is not handed to the mempool")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if handlers == 0 {
		r.anchorLost("the handler of transactions")
	}
}
