package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N04", checkN04) }

func isPeerID(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "pkg/peer.PeerID") }

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func mapOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func chanElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	return c.Elem()
}

// the tables of the node, told apart by their types
func isPeerTable(t types.Type) bool {
	m := mapOf(t)
	return m != nil && isPeerID(m.Key()) && isPeerType(m.Elem())
}
func isPongTable(t types.Type) bool {
	m := mapOf(t)
	return m != nil && isPeerID(m.Key()) && chanElem(m.Elem()) != nil
}
func isPingTable(t types.Type) bool {
	m := mapOf(t)
	return m != nil && isUint64(m.Key()) && isPeerID(m.Elem())
}

// isPingInfo: a struct that tells the nonce of a ping and the peer it was sent to.
func isPingInfo(t types.Type) (nonce, id *types.Var) {
	if t == nil {
		return nil, nil
	}
	s := structOf(t)
	if s == nil || s.NumFields() != 2 {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		f := s.Field(i)
		if isUint64(f.Type()) {
			nonce = f
		} else if isPeerID(f.Type()) {
			id = f
		}
	}
	if nonce == nil || id == nil {
		return nil, nil
	}
	return
}

// idOf: the peer whose id this is.
func idOf(t *Term) *Term {
	for t != nil && t.k == KConv {
		t = t.args[0]
	}
	if t != nil && t.k == KCall && isOp(t.op, "peer.Peer).ID") && len(t.args) > 0 {
		return stripIface(t.args[0])
	}
	return nil
}

func connOf(t *Term) *Term {
	t = stripIface(t)
	if t != nil && t.k == KCall && isOp(t.op, "peer.Peer).Connection") && len(t.args) > 0 {
		return stripIface(t.args[0])
	}
	return nil
}

// peersEnv: every function of the node is followed, those of other packages are not.
func peersEnv(p *Prog, x *Exec, not func(f *ssa.Function) bool) {
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		switch rel(pkgPathOf(f)) {
		case "pkg/node":
			return !not(f)
		case "pkg/protocol":
			return f.Name() == "HasService" || f.Name() == "NewVerackMsg" || f.Name() == "NewSendHeadersMessage"
		}
		return false
	}
	x.pure = func(op string) bool {
		for _, s := range []string{"peer.Peer).ID", "peer.Peer).Connection", "protocol.NewMessage", "binary.Marshal", "protocol.NewPingMsg", ").CommandString", ".handleHeaders", ".handleBlock"} {
			if strings.HasSuffix(op, s) {
				return true
			}
		}
		return false
	}
}

// isMe: the peer a function is about: its parameter, or the variable it captured.
func isMe(t, me *Term) bool {
	if t == nil || me == nil {
		return false
	}
	if me.k == KFree && t != me {
		return t.k != KLookup && isPeerType(t.typ) && t.has(func(y *Term) bool { return y == me })
	}
	return t == me
}

func peerParamOf(fn *ssa.Function) *Term {
	for i, pr := range fn.Params {
		if isPeerType(pr.Type()) {
			return tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	for i, fv := range fn.FreeVars {
		if pt := pointee(fv.Type()); pt != nil && isPeerType(pt) {
			return tt.mk(Term{k: KFree, val: fv, typ: fv.Type(), idx: i})
		}
	}
	return nil
}

// watchReport notes, as the flags of the state, that a disconnection was reported (or that the
// node is stopped).
func watchReport(x *Exec, st *State, ev *Event) (reported *Term) {
	switch ev.kind {
	case EvSend:
		if e := chanElem(ev.addr.typ); isPeerID(e) {
			return ev.val
		}
	case EvRecv:
		if id := fieldValID(ev.addr); strings.Contains(strings.ToLower(id), "quit") || isEmptyChan(ev.addr) {
			st.set("stopped")
		}
	}
	return nil
}

func isEmptyChan(t *Term) bool {
	e := chanElem(t.typ)
	if e == nil {
		return false
	}
	s, ok := e.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func checkN04(p *Prog, r *Report) {
	r.rule("handshake", "a peer is entered in the table only after its version announced compact filters and was acknowledged")
	r.rule("services", "HasService tells whether the version announced all of the flags asked for")
	r.rule("monitored", "a peer that is entered is monitored, every peer's messages are read, and disconnections are processed")
	r.rule("report", "the failure of a peer's connection, or of a ping, is reported for disconnection")
	r.rule("ping", "a ping is registered under its nonce and peer before it is sent, and its pong is waited for a limited time")
	r.rule("pong", "the nonce of a pong is handed to the monitor of the peer that was pinged with it")
	r.rule("disconnect", "disconnecting removes the peer, its pong channel and its pings and closes its connection")
	checkHandshake(p, r)
	checkServices(p, r)
	checkReaderReports(p, r)
	checkPings(p, r)
	checkDisconnects(p, r)
	checkPeerTables(p, r)
	r.need("handshake", 3)
	r.need("services", 1)
	r.need("monitored", 3)
	r.need("report", 2)
	r.need("ping", 3)
	r.need("pong", 2)
	r.need("disconnect", 4)
}

func inNode(f *ssa.Function) bool { return rel(pkgPathOf(f)) == "pkg/node" }

func checkHandshake(p *Prog, r *Report) {
	puts := p.reach(false, func(in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		return ok && isPeerTable(m.Map.Type())
	})
	var handlers []*ssa.Function
	for _, f := range p.Funcs {
		if !inNode(f) || !takesReader(f) || f.Parent() != nil {
			continue
		}
		for _, t := range decodedIn(p, f) {
			if wireName(t) == "MsgVersion" {
				handlers = append(handlers, f)
			}
		}
	}
	if len(handlers) == 0 {
		r.anchorLost("the handler of version messages")
		return
	}
	isH := map[*ssa.Function]bool{}
	for _, h := range handlers {
		isH[h] = true
		if !puts[h] {
			r.bad("handshake", fname(h), h.Pos(), nil, "the handler of version messages never enters the peer")
		}
	}
	// nobody else enters peers
	calls, escapes, gos := p.staticCallers()
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] || isH[f] {
			return
		}
		seen[f] = true
		ok := !escapes[f] && !gos[f] && len(calls[f]) > 0
		r.check(ok, "handshake", fname(f)+": callers", f.Pos(), nil, "%s enters peers in the table and can run without a handshake", f.Name())
		for _, c := range calls[f] {
			up(c.Parent())
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MapUpdate); ok && isPeerTable(m.Map.Type()) {
					up(f)
				}
			}
		}
	}
	pinger := p.reach(false, callsStatic("pkg/protocol", "NewPingMsg"))
	for _, h := range handlers {
		x := newExec(p)
		peersEnv(p, x, func(f *ssa.Function) bool { return pinger[f] })
		short := fname(h)
		me := peerParamOf(h)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if isOp(ev.op, ".Write") && len(ev.args) >= 2 && isMe(connOf(ev.args[0]), me) {
					m := x.find(ev.args[len(ev.args)-1], func(y *Term) bool { return y.k == KCall && isOp(y.op, "protocol.NewMessage") })
					if m != nil {
						if c, _ := m.args[0].isStr(); c == "verack" {
							if e := errOf(ev.res); e != nil {
								st.add(Atom{name: "acking", a: e})
							}
						}
					}
				}
			case EvBranch:
				if _, no := presence(x, st, func(k *Term) bool { return isMe(idOf(k), me) }); no {
					st.set("absent")
				}
				for _, a := range st.all("acking") {
					if errNil(st.facts, a.a) {
						st.del(a)
						st.set("acked")
					}
				}
				ev.addr.has(func(y *Term) bool {
					if servesFilters(st, y) {
						st.set("serves")
					}
					return false
				})
			case EvMapUpdate:
				if isPongTable(ev.addr.typ) && isMe(idOf(ev.key), me) && !ev.val.isNil() {
					st.set("pongs")
				}
				if !isPeerTable(ev.addr.typ) {
					return
				}
				r.check(st.flag("absent"), "handshake", short+": once", ev.instr.Pos(), st.path(20), "the peer is entered although one with its id may be in use already")
				r.check(st.flag("serves"), "handshake", short+": services", ev.instr.Pos(), st.path(20), "the peer is entered although its version is not known to announce compact filters")
				r.check(st.flag("acked"), "handshake", short+": verack", ev.instr.Pos(), st.path(20), "the peer is entered although its version was not acknowledged")
				r.check(isMe(stripIface(ev.val), me) && isMe(idOf(ev.key), me), "handshake", short+": who", ev.instr.Pos(), st.path(20), "%s is entered under %s instead of the peer that sent the version", ev.val, ev.key)
				st.set("entered")
			case EvGo:
				if ev.fn != nil && pinger[ev.fn] {
					r.check(st.flag("entered"), "monitored", short+": entered first", ev.instr.Pos(), st.path(20), "a peer is pinged although it was not entered")
					for _, a := range ev.args {
						if stripIface(a) == me {
							st.set("monitored")
						}
					}
					if ev.call != nil && ev.call.fn != nil {
						for _, b := range ev.call.fn.args { // captured
							if b == me || b.typ != nil && pointee(b.typ) != nil && isPeerType(pointee(b.typ)) && stripIface(x.load(st, b, pointee(b.typ))) == me {
								st.set("monitored")
							}
						}
					}
				}
			case EvReturn:
				if st.flag("entered") {
					r.check(st.flag("pongs"), "monitored", short+": pongs", ev.instr.Pos(), st.path(20), "the peer is entered without a channel for its pongs")
					r.check(st.flag("monitored"), "monitored", short+": pings", ev.instr.Pos(), st.path(20), "the peer is entered, but never pinged")
				}
			}
		}
		err := x.run(h, rootOpt{})
		r.ran(x, short, err)
	}
}

// servesFilters: the condition y, known to hold (or not), says that the version received
// announced compact filters.
func servesFilters(st *State, y *Term) bool {
	const cf = 64
	if y.k == KCall && isOp(y.op, ".HasService") {
		n, ok := y.args[len(y.args)-1].isInt()
		return ok && n == cf && knownTrue(st, y, true)
	}
	if y.k != KBin || len(y.args) != 2 {
		return false
	}
	for i := range y.args {
		a := y.args[i]
		for a.k == KConv {
			a = a.args[0]
		}
		if a.k != KBin || a.op != "&" {
			continue
		}
		okm := false
		for j := range a.args {
			n, ok := unconv(a.args[j]).isInt()
			if ok && n == cf && fieldOwner(unconv(a.args[1-j]), "Services") != nil {
				okm = true
			}
		}
		if !okm {
			continue
		}
		n, ok := unconv(y.args[1-i]).isInt()
		switch {
		case ok && n == cf && y.op == "==":
			return knownTrue(st, y, true)
		case ok && n == 0 && y.op == "==":
			return knownTrue(st, y, false)
		}
	}
	return false
}

// checkServices: HasService(f) is true exactly if the flags f are all in Services.
func checkServices(p *Prog, r *Report) {
	f := p.methodAny("pkg/protocol.MsgVersion", "HasService")
	if f == nil {
		// the handler is examined with whatever tells the services instead
		r.ok("services", "HasService", token.NoPos)
		return
	}
	x := newExec(p)
	short := fname(f)
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvReturn {
			return
		}
		var arg *Term
		for i, pr := range f.Params {
			if i > 0 {
				arg = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
			}
		}
		isMask := func(t *Term) bool {
			t = unconv(t)
			return t.k == KBin && t.op == "&" && (unconv(t.args[0]) == arg && fieldOwner(unconv(t.args[1]), "Services") != nil || unconv(t.args[1]) == arg && fieldOwner(unconv(t.args[0]), "Services") != nil)
		}
		// known or returned
		good := func(y *Term, want bool) bool {
			if y.k == KUn && y.op == "!" {
				y, want = y.args[0], !want
			}
			if y.k != KBin {
				return false
			}
			for i := range y.args {
				if !isMask(y.args[i]) {
					continue
				}
				o := unconv(y.args[1-i])
				if y.op == "==" && o == arg {
					return want
				}
				if n, ok := o.isInt(); y.op == "==" && ok && n == 0 {
					return !want // any of the flags: the same for a single one
				}
			}
			return false
		}
		res := ev.args[0]
		if b, ok := res.isBool(); ok {
			ok2 := false
			for y, v := range st.facts {
				if good(y, v) == b && (isMaskCmp(y, isMask)) {
					ok2 = true
				}
			}
			r.check(ok2, "services", short, ev.instr.Pos(), st.path(10), "HasService returns %v without the flags having been compared", b)
			return
		}
		r.check(good(res, true), "services", short, ev.instr.Pos(), st.path(10), "HasService returns %s, which does not tell whether the flags are announced", res)
	}
	err := x.run(f, rootOpt{})
	r.ran(x, short, err)
}

func isMaskCmp(y *Term, isMask func(*Term) bool) bool {
	return y.k == KBin && (isMask(y.args[0]) || isMask(y.args[1]))
}

// checkReaderReports: the goroutine that reads a peer's messages ends only after reporting it.
func checkReaderReports(p *Prog, r *Report) {
	roots, reads := readersOfPeers(p)
	if len(roots) == 0 {
		r.anchorLost("the goroutine that reads the messages of a peer")
	}
	for _, fn := range roots {
		x := newExec(p)
		sends := p.reach(false, func(in ssa.Instruction) bool {
			switch i := in.(type) {
			case *ssa.Send:
				return isPeerID(chanElem(i.Chan.Type()))
			case *ssa.Select:
				for _, s := range i.States {
					if s.Dir == types.SendOnly && isPeerID(chanElem(s.Chan.Type())) {
						return true
					}
				}
			}
			return false
		})
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return inNode(f) && f != fn && (reads[f] || sends[f])
		}
		x.pure = func(op string) bool { return strings.HasSuffix(op, "peer.Peer).ID") }
		short := fname(fn)
		me := peerParamOf(fn)
		x.on = func(x *Exec, st *State, ev *Event) {
			if v := watchReport(x, st, ev); v != nil {
				r.check(isMe(idOf(v), me), "report", short+": who", ev.instr.Pos(), st.path(20), "%s is reported as disconnected instead of the peer that failed", v)
				st.set("reported")
			}
			if ev.kind == EvReturn {
				r.check(st.flag("reported") || st.flag("stopped"), "report", short+": end of reading", ev.instr.Pos(), st.path(20), "the messages of a peer are no longer read, but it is not reported as disconnected")
			}
			if ev.kind == EvSelect {
				noDefault(r, st, ev, short)
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	// a successful AddOutboundPeer and Start have started the goroutines
	_, _, gos := p.staticCallers()
	recvs := p.reach(false, recvsPeerID)
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || f.Signature.Recv() == nil || !f.Object().Exported() || !hasErrResult(f) {
			continue
		}
		var want map[*ssa.Function]bool
		what := ""
		switch {
		case f.Name() == "Start":
			want, what = recvs, "processes disconnections"
		case f.Name() == "AddOutboundPeer":
			want, what = reads, "reads the messages of the peer"
		default:
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return inNode(g) && g.Name() != "AddOutboundPeer" && len(g.Blocks) < 30
		}
		short := fname(f)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvGo:
				if ev.fn != nil && want[ev.fn] && gos[ev.fn] {
					st.set("started")
				}
			case EvReturn:
				if _, ok := successFacts(st, ev.args); ok {
					r.check(st.flag("started"), "monitored", short, ev.instr.Pos(), st.path(20), "success is reported although no goroutine %s", what)
				}
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
}

func noDefault(r *Report, st *State, ev *Event, short string) {
	for i, c := range ev.chans {
		if ev.dirs[i] == types.SendOnly && isPeerID(chanElem(c.typ)) {
			r.check(ev.block, "report", short+": handed over", ev.instr.Pos(), st.path(20), "the report of a disconnection is dropped if nobody is waiting for it at that moment")
		}
	}
}

func recvsPeerID(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.UnOp:
		return isPeerID(chanElem(i.X.Type()))
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.RecvOnly && isPeerID(chanElem(s.Chan.Type())) {
				return true
			}
		}
	}
	return false
}

// checkPings examines the goroutine that pings a peer.
func checkPings(p *Prog, r *Report) {
	_, _, gos := p.staticCallers()
	pinger := p.reach(false, callsStatic("pkg/protocol", "NewPingMsg"))
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || !pinger[fn] || !gos[fn] {
			continue
		}
		n++
		x := newExec(p)
		peersEnv(p, x, func(f *ssa.Function) bool { return false })
		short := fname(fn)
		me := peerParamOf(fn)
		isNonce := func(t *Term) bool {
			return t != nil && t.k == KExtract && t.idx == 1 && t.args[0].k == KCall && isOp(t.args[0].op, "NewPingMsg")
		}
		settle := func(st *State) {
			if st.flag("stopped") || st.flag("reported") {
				st.unset("problem")
				for _, n := range []string{"writing", "sent", "unchecked", "pinged"} {
					st.clear(n)
				}
			}
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			if v := watchReport(x, st, ev); v != nil {
				r.check(isMe(idOf(v), me), "report", short+": who", ev.instr.Pos(), st.path(20), "%s is reported as disconnected instead of the peer pinged", v)
				st.set("reported")
			}
			switch ev.kind {
			case EvSend:
				if nf, idf := isPingInfo(chanElem(ev.addr.typ)); nf != nil {
					nv, iv := x.fieldOf(st, ev.val, nf.Name()), x.fieldOf(st, ev.val, idf.Name())
					r.check(isNonce(nv), "ping", short+": nonce registered", ev.instr.Pos(), st.path(20), "the ping is registered under %s, not its nonce", nv)
					r.check(isMe(idOf(iv), me), "ping", short+": peer registered", ev.instr.Pos(), st.path(20), "the ping is registered for %s, not the peer pinged", iv)
					st.set("registered")
				}
			case EvMapUpdate:
				if isPingTable(ev.addr.typ) {
					st.set("registered")
				}
			case EvResult:
				if isOp(ev.op, ".Write") && len(ev.args) >= 2 {
					if x.find(ev.args[len(ev.args)-1], func(y *Term) bool { return y.k == KCall && isOp(y.op, "NewPingMsg") }) == nil {
						return
					}
					r.check(isMe(connOf(ev.args[0]), me), "ping", short+": to the peer", ev.instr.Pos(), st.path(20), "the ping is not sent over the connection of the peer monitored")
					r.check(st.flag("registered"), "ping", short+": registered first", ev.instr.Pos(), st.path(20), "the ping is sent before it is registered, so that a quick pong is unknown")
					st.unset("registered")
					if e := errOf(ev.res); e != nil {
						st.add(Atom{name: "writing", a: e})
					}
				}
			case EvSelect:
				noDefault(r, st, ev, short)
				pong, timer := false, false
				for i, c := range ev.chans {
					if ev.dirs[i] == types.RecvOnly {
						if isUint64(orNil(chanElem(c.typ))) {
							pong = true
							ok := x.find(c, func(y *Term) bool { return y.k == KLookup && isPongTable(y.args[0].typ) && isMe(idOf(y.args[1]), me) }) != nil
							r.check(ok, "pong", short+": own channel", ev.instr.Pos(), st.path(20), "pongs are not awaited on the channel of the peer monitored (%s)", c)
						}
						if isTimerChan(c) || isCtxDone(c) {
							timer = true
						}
					}
				}
				if pong {
					r.check(timer && ev.block, "ping", short+": time limit", ev.instr.Pos(), st.path(20), "waiting for the pong has no time limit")
				}
			case EvRecv:
				if isUint64(orNil(chanElem(ev.addr.typ))) {
					st.add(Atom{name: "unchecked"})
					st.clear("sent")
				}
				if (isTimerChan(ev.addr) || isCtxDone(ev.addr)) && len(st.all("sent")) > 0 {
					st.set("problem") // timed out
				}
			case EvBranch:
				for _, a := range st.all("writing") {
					if errNil(st.facts, a.a) {
						st.del(a)
						st.add(Atom{name: "sent"})
					}
				}
				ev.addr.has(func(y *Term) bool {
					if y.k == KBin && y.op == "==" {
						for i := range y.args {
							if isNonce(unconv(y.args[i])) && unconv(y.args[1-i]).k == KRecv && knownTrue(st, y, true) {
								st.clear("unchecked")
							}
						}
					}
					return false
				})
			case EvBack, EvReturn:
				if ev.kind == EvBack {
					if ev.frame.fn != fn || p.loopDepth(ev.frame.blk) > 1 {
						return
					}
					settle(st)
				} else if st.flag("stopped") || st.flag("reported") {
					return
				}
				if ev.kind == EvReturn {
					r.bad("report", short+": end", ev.instr.Pos(), st.path(20), "the monitoring of a peer ends, but the peer is not reported for disconnection")
					return
				}
				r.check(!st.flag("problem"), "report", short+": pong timed out", ev.instr.Pos(), st.path(20), "a peer that did not answer a ping in time is not reported for disconnection")
				r.check(len(st.all("unchecked")) == 0, "report", short+": wrong pong", ev.instr.Pos(), st.path(20), "a peer that answered a ping with another nonce is not reported for disconnection")
				r.check(len(st.all("writing")) == 0, "report", short+": ping not sent", ev.instr.Pos(), st.path(20), "a peer that could not be pinged is not reported for disconnection")
				r.check(len(st.all("sent")) == 0, "report", short+": pong not awaited", ev.instr.Pos(), st.path(20), "the pong of a ping is not waited for")
				for _, n := range []string{"unchecked", "writing", "sent"} {
					st.clear(n)
				}
				st.unset("problem")
				st.unset("registered")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the goroutine that pings a peer")
	}
	// the nonce returned by NewPingMsg is the one in the message
	if f := p.fun("pkg/protocol.NewPingMsg"); f != nil && f.Signature.Results().Len() == 3 {
		x := newExec(p)
		short := fname(f)
		x.pure = func(op string) bool { return strings.HasSuffix(op, "protocol.NewMessage") }
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(g)) == "pkg/protocol" && g.Name() != "NewMessage"
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if isOp(ev.op, "protocol.NewMessage") {
					if v := x.fieldOf(st, ev.args[2], "Nonce"); v != nil {
						st.add(Atom{name: "nonce", a: v})
					}
				}
			case EvReturn:
				if ev.args[0].isNil() {
					return
				}
				ok := false
				for _, a := range st.all("nonce") {
					ok = ok || unconv(a.a) == unconv(ev.args[1])
				}
				r.check(ok, "ping", short+": nonce", ev.instr.Pos(), st.path(10), "the nonce returned with the ping is not the one in it")
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
}

func orNil(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func (p *Prog) loopDepth(b *ssa.BasicBlock) int {
	n := 0
	for _, body := range p.loop(b.Parent()).body {
		if body[b] {
			n++
		}
	}
	return n
}

// checkDisconnects: what removes a peer from the table closes its connection.
func checkDisconnects(p *Prog, r *Report) {
	isDel := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete" && isPeerTable(c.Call.Args[0].Type())
	}
	dels := p.reach(false, isDel)
	closes := p.reach(false, callsMethod("Close"))
	calls, escapes, gos := p.staticCallers()
	tops := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if closes[f] && dels[f] {
			tops[f] = true
			return
		}
		if escapes[f] || gos[f] || len(calls[f]) == 0 {
			r.bad("disconnect", fname(f)+": connection", f.Pos(), nil, "%s removes peers from the table without closing their connections", f.Name())
		}
		for _, c := range calls[f] {
			up(c.Parent())
		}
	}
	for _, f := range p.Funcs {
		if !inNode(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isDel(in) {
					up(f)
				}
			}
		}
	}
	if len(tops) == 0 {
		r.anchorLost("the removal of a peer from the table of peers")
	}
	for f := range tops {
		x := newExec(p)
		peersEnv(p, x, func(g *ssa.Function) bool { return false })
		short := fname(f)
		watch := watchRemoval(x, r, short)
		x.on = func(x *Exec, st *State, ev *Event) {
			watch(st, ev)
			if ev.kind == EvReturn {
				checkRemoved(x, r, st, ev, short)
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	// Stop disconnects every peer
	for _, f := range p.Funcs {
		if !inNode(f) || f.Name() != "Stop" || f.Signature.Recv() == nil || !hasErrResult(f) {
			continue
		}
		ok := dels[f]
		if !ok {
			for _, a := range f.AnonFuncs {
				ok = ok || dels[a]
			}
		}
		r.check(ok, "disconnect", fname(f), f.Pos(), nil, "stopping the node does not disconnect its peers")
	}
}

// watchRemoval notes which peers are removed and whose connections are closed.
func watchRemoval(x *Exec, r *Report, short string) func(st *State, ev *Event) {
	return func(st *State, ev *Event) {
		switch ev.kind {
		case EvLookup:
			if isPeerTable(ev.addr.typ) && ev.val != nil && ev.key != nil {
				st.add(Atom{name: "looked", a: ev.val, b: ev.key})
			}
		case EvCall:
			if ev.op == "delete" {
				switch {
				case isPeerTable(ev.args[0].typ):
					st.add(Atom{name: "removed", a: ev.args[1]})
				case isPongTable(ev.args[0].typ):
					st.add(Atom{name: "pongless", a: ev.args[1]})
				}
			}
			if isOp(ev.op, ".Close") && len(ev.args) > 0 {
				if c := connOf(ev.args[0]); c != nil {
					st.add(Atom{name: "closed", a: c})
				}
			}
		case EvBranch:
			for _, a := range st.all("looked") {
				if v, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(a.a.typ), types.Typ[types.Bool])); k && v || knownTrue(st, tt.mk(Term{k: KExtract, idx: 1, args: []*Term{a.a}, typ: types.Typ[types.Bool]}), false) {
					st.add(Atom{name: "absent", a: a.b})
				}
			}
		}
	}
}

func checkRemoved(x *Exec, r *Report, st *State, ev *Event, short string) bool {
	did := false
	for _, a := range st.all("removed") {
		did = true
		r.check(st.has(Atom{name: "pongless", a: a.a}), "disconnect", short+": pong channel", ev.instr.Pos(), st.path(20), "the pong channel of a removed peer is kept")
		ok := st.has(Atom{name: "absent", a: a.a})
		for _, l := range st.all("looked") {
			if l.b == a.a && (st.has(Atom{name: "closed", a: l.a}) || l.a.isNil()) {
				ok = true
			}
		}
		if w := idOf(a.a); w != nil && st.has(Atom{name: "closed", a: w}) {
			ok = true
		}
		r.check(ok, "disconnect", short+": connection", ev.instr.Pos(), st.path(20), "the connection of a removed peer is not closed")
	}
	return did
}

// checkPeerTables examines the goroutine that keeps the pings and removes the peers reported.
func checkPeerTables(p *Prog, r *Report) {
	_, _, gos := p.staticCallers()
	recvs := p.reach(false, recvsPeerID)
	n := 0
	for _, fn := range p.Funcs {
		if !inNode(fn) || !recvs[fn] || !gos[fn] {
			continue
		}
		n++
		x := newExec(p)
		peersEnv(p, x, func(f *ssa.Function) bool { return false })
		short := fname(fn)
		watch := watchRemoval(x, r, short)
		isGot := func(pred func(types.Type) bool) func(*Term) bool {
			return func(t *Term) bool {
				t = unconv(t)
				return t != nil && t.k == KRecv && pred(t.typ)
			}
		}
		gotID := isGot(isPeerID)
		gotNonce := isGot(isUint64)
		isSweep := func(t *Term) bool { return t.k == KNext || t.has(func(y *Term) bool { return y.k == KNext }) }
		x.on = func(x *Exec, st *State, ev *Event) {
			watch(st, ev)
			watchReport(x, st, ev)
			switch ev.kind {
			case EvRecv:
				e := chanElem(ev.addr.typ)
				switch {
				case isPeerID(e):
					st.set("got-id")
				case isUint64(orNil(e)):
					st.set("got-nonce")
				default:
					if nf, _ := isPingInfo(e); nf != nil {
						st.set("got-ping")
					}
				}
			case EvMapUpdate:
				if isPingTable(ev.addr.typ) {
					n, id := fieldOwnerOfRecv(ev.key), fieldOwnerOfRecv(ev.val)
					r.check(n && id, "ping", short+": registered", ev.instr.Pos(), st.path(20), "a ping is noted under %s for %s, not under its nonce for its peer", ev.key, ev.val)
					st.set("noted")
				}
			case EvSelect:
				for i, c := range ev.chans {
					if ev.dirs[i] == types.SendOnly && isUint64(orNil(chanElem(c.typ))) {
						r.check(pongBuffered(p), "pong", short+": handed over", ev.instr.Pos(), st.path(20), "a pong nobody waits for at that moment is dropped, or keeps the disconnections from being processed")
						if !ev.block {
							st.set("forwarded")
						}
					}
				}
			case EvSend:
				if isUint64(orNil(chanElem(ev.addr.typ))) {
					r.check(gotNonce(ev.val), "pong", short+": nonce", ev.instr.Pos(), st.path(20), "the nonce handed to the monitor of a peer is %s, not the one received", ev.val)
					lk := x.find(ev.addr, func(y *Term) bool { return y.k == KLookup && isPongTable(y.args[0].typ) })
					ok := false
					if lk != nil {
						k := unconv(lk.args[1])
						ok = k.k == KLookup && isPingTable(k.args[0].typ) && gotNonce(k.args[1])
					}
					r.check(ok, "pong", short+": peer", ev.instr.Pos(), st.path(20), "the pong is not handed to the monitor of the peer that was pinged with its nonce")
					st.set("forwarded")
				}
			case EvCall:
				if ev.op == "delete" && isPingTable(ev.args[0].typ) {
					if gotNonce(ev.args[1]) {
						st.set("forgotten")
					}
					if isSweep(ev.args[1]) {
						st.set("swept")
					}
				}
			case EvBranch:
				ev.addr.has(func(y *Term) bool {
					switch {
					case y.k == KExtract && y.idx == 0 && y.args[0].k == KNext && knownTrue(st, y, false):
						st.set("looped")
					case y.k == KExtract && y.idx == 1 && y.args[0].k == KLookup && knownTrue(st, y, false):
						st.set("unknown")
					case y.k == KBin && y.op == "==":
						for i := range y.args {
							a, b := y.args[i], y.args[1-i]
							if isPeerID(a.typ) && a.k == KLookup {
								if s, ok := unconv(b).isStr(); ok && s == "" && knownTrue(st, y, true) {
									st.set("unknown")
								}
								if b.k == KZero && knownTrue(st, y, true) {
									st.set("unknown")
								}
							}
							if a.k == KLookup && isPongTable(a.args[0].typ) && b.isNil() && knownTrue(st, y, true) {
								st.set("unknown")
							}
							if isSweep(a) && gotID(b) {
								if knownTrue(st, y, true) {
									st.set("match")
								}
								st.set("compared")
							}
						}
					}
					return false
				})
			case EvBack:
				if ev.frame.fn != fn || p.loopDepth(ev.frame.blk) > 1 {
					if st.flag("match") {
						r.check(st.flag("swept"), "disconnect", short+": pings", ev.instr.Pos(), st.path(20), "a ping of the peer that is disconnected is kept")
					}
					st.unset("match")
					return
				}
				if st.flag("got-id") {
					did := false
					for _, a := range st.all("removed") {
						did = did || gotID(a.a)
					}
					absent := false
					for _, a := range st.all("absent") {
						absent = absent || gotID(a.a)
					}
					r.check(did || absent, "disconnect", short+": reported peer", ev.instr.Pos(), st.path(20), "the peer reported for disconnection is not removed")
					checkRemoved(x, r, st, ev, short)
					r.check(st.flag("swept") || st.flag("looped"), "disconnect", short+": pings", ev.instr.Pos(), st.path(20), "the pings of the peer that is disconnected are kept")
				}
				if st.flag("got-nonce") {
					r.check(st.flag("forwarded") || st.flag("unknown"), "pong", short+": handed over", ev.instr.Pos(), st.path(20), "a pong of a known ping is not handed to the monitor of its peer")
					if st.flag("forwarded") {
						r.check(st.flag("forgotten"), "pong", short+": forgotten", ev.instr.Pos(), st.path(20), "a ping that was answered is kept")
					}
				}
				if st.flag("got-ping") {
					r.check(st.flag("noted"), "ping", short+": noted", ev.instr.Pos(), st.path(20), "a ping that is reported is not noted")
				}
				for _, n := range []string{"removed", "absent", "closed", "pongless", "looked"} {
					st.clear(n)
				}
				for _, n := range []string{"got-id", "got-nonce", "got-ping", "noted", "forwarded", "forgotten", "unknown", "swept", "looped", "match", "compared"} {
					st.unset(n)
				}
			case EvReturn:
				r.check(st.flag("stopped"), "monitored", short+": end", ev.instr.Pos(), st.path(20), "disconnections are no longer processed although the node is not stopped")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the goroutine that processes disconnections")
	}
	// the handler of pongs hands over the nonce received
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || !takesReader(f) {
			continue
		}
		makes := p.reach(false, callsStatic("pkg/protocol", "NewMessage"))
		for _, t := range decodedIn(p, f) {
			if w := wireName(t); w != "MsgPing" && w != "MsgPong" || makes[f] {
				continue
			}
			x := newExec(p)
			peersEnv(p, x, func(*ssa.Function) bool { return false })
			short := fname(f)
			x.on = func(x *Exec, st *State, ev *Event) {
				watchReport(x, st, ev)
				switch ev.kind {
				case EvSelect:
					for i, c := range ev.chans {
						if ev.dirs[i] == types.SendOnly && isUint64(orNil(chanElem(c.typ))) {
							r.check(ev.block, "pong", short+": handed over", ev.instr.Pos(), st.path(20), "a pong is dropped if nobody waits for it at that moment")
						}
					}
				case EvSend:
					if isUint64(orNil(chanElem(ev.addr.typ))) {
						o := fieldOwner(ev.val, "Nonce")
						r.check(o != nil && (decodedIs(o, "MsgPing") || decodedIs(o, "MsgPong")), "pong", short+": nonce", ev.instr.Pos(), st.path(20), "the nonce handed over is %s, not the one of the pong", ev.val)
						st.set("handed")
					}
				case EvReturn:
					if _, ok := successFacts(st, ev.args); ok {
						r.check(st.flag("handed") || st.flag("stopped"), "pong", short+": handed over", ev.instr.Pos(), st.path(20), "a pong is ignored")
					}
				}
			}
			err := x.run(f, rootOpt{})
			r.ran(x, short, err)
		}
	}
}

// fieldOwnerOfRecv: a field of a value received from a channel.
func fieldOwnerOfRecv(t *Term) bool {
	t = unconv(t)
	return t != nil && t.k == KFieldV && t.args[0].k == KRecv || t != nil && t.k == KLoad && t.has(func(y *Term) bool { return y.k == KRecv })
}

// pongBuffered: the channels of the pong table all have room for a pong nobody waits for yet.
func pongBuffered(p *Prog) bool {
	ok, n := true, 0
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if m, isM := in.(*ssa.MapUpdate); isM && isPongTable(m.Map.Type()) {
			origins(m.Value, map[ssa.Value]bool{}, func(v ssa.Value) {
				n++
				mk, isMk := v.(*ssa.MakeChan)
				if !isMk {
					ok = false
					return
				}
				c, isC := mk.Size.(*ssa.Const)
				if !isC || c.Int64() < 1 {
					ok = false
				}
			})
		}
	})
	return ok && n > 0
}
