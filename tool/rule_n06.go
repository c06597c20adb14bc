package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N06", checkN06) }

// signals: the instruction sends on a channel that carries nothing.
func signals(in ssa.Instruction) bool {
	empty := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		if !ok {
			return false
		}
		s, ok := c.Elem().Underlying().(*types.Struct)
		return ok && s.NumFields() == 0
	}
	switch i := in.(type) {
	case *ssa.Send:
		return empty(i.Chan.Type())
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.SendOnly && empty(s.Chan.Type()) {
				return true
			}
		}
	}
	return false
}

// requestsHeaders: the instruction makes a request for headers.
func requestsHeaders(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || c.Common().StaticCallee() == nil || rel(pkgPathOf(c.Common().StaticCallee())) != "pkg/protocol" {
		return false
	}
	switch c.Common().StaticCallee().Name() {
	case "NewMsgGetHeaders":
		return true
	case "NewMessage":
		k, ok := c.Common().Args[0].(*ssa.Const)
		return ok && k.Value != nil && strings.Trim(k.Value.ExactString(), `"`) == "getheaders"
	}
	return false
}

func checkN06(p *Prog, r *Report) {
	r.rule("ready", "the node is reported ready only when the stored tip, complete with its ancestors, is at least at the height its peer announced")
	r.rule("start", "Start succeeds only after the node was reported ready")
	r.rule("announced", "the height of a peer is what its version or a later block announced")
	r.rule("begin", "synchronising begins with the first peer entered")
	r.rule("go-on", "after a batch that was handed on, or that leaves a gap, and after a block that leaves a gap beyond the height announced, further headers are requested")
	signal := p.reach(false, func(in ssa.Instruction) bool { return rel(pkgPathOf(in.Parent())) == "pkg/node" && signals(in) })
	tips := p.reach(false, callsMethod("PeersTip"))
	ready := map[string]bool{} // fields of channels
	roots := map[*ssa.Function]bool{}
	for _, f := range p.innermost("pkg/node", signal, tips) {
		roots[f] = true
		checkReady(p, r, f, ready)
	}
	if len(roots) == 0 {
		r.anchorLost("the goroutine that finds out that the node is synchronised")
	}
	covered := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if covered[f] {
			return
		}
		covered[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, c := range p.callees(in, false) {
					mark(c)
				}
			}
		}
	}
	for f := range roots {
		mark(f)
	}
	calls, _, gos := p.staticCallers()
	for _, f := range p.Funcs {
		// nothing else reports the node ready
		if rel(pkgPathOf(f)) != "pkg/node" || !signal[f] || roots[f] {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				direct = direct || signals(in)
			}
		}
		if !direct {
			if gos[f] && !covered[f] {
				r.bad("ready", fname(f), f.Pos(), nil, "the node is reported ready without comparing the heights")
			}
			continue
		}
		r.check(covered[f], "ready", fname(f), f.Pos(), nil, "the node is reported ready without comparing the heights")
		for _, c := range calls[f] {
			if q := c.Parent(); rel(pkgPathOf(q)) == "pkg/node" {
				r.check(covered[q], "ready", fname(q)+": caller", c.Pos(), nil, "the node is reported ready without comparing the heights")
			}
		}
	}
	checkNodeStart(p, r, roots, ready)
	checkAnnounced(p, r)
	checkGoOn(p, r)
	checkRequested(p, r)
	take(p, r, checkR03, map[string]string{"ancestors.": "ready"})
	r.need("ready", 3)
	r.need("start", 1)
	r.need("announced", 3)
	r.need("begin", 1)
	r.need("go-on", 3)
}

// onPeer: the term is what that method of the peer returned.
func onPeer(t *Term, method string, me *Term) bool {
	t = unconv(t)
	return t != nil && isInvokeOf(t, method) && isMe(stripIface(recvOf(t)), me)
}

// checkReady examines the function that compares the heights and reports the node ready.
func checkReady(p *Prog, r *Report, fn *ssa.Function, ready map[string]bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/node" }
	x.pure = func(op string) bool {
		for _, s := range []string{"peer.Peer).ID", "block.Header).Hash", ".ChainTip", ".HasAllAncestors"} {
			if strings.HasSuffix(op, s) {
				return true
			}
		}
		return false
	}
	me := peerParamOf(fn)
	isTip := func(t *Term) *Term {
		t = unconv(stripIface(t))
		if t != nil && t.k == KExtract && t.idx == 0 && t.args[0].k == KCall && isOp(t.args[0].op, ".ChainTip") {
			return t
		}
		return nil
	}
	n := 0
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			switch {
			case isOp(ev.op, ".ChainTip"):
				st.unset("above")
				st.unset("whole")
			case isOp(ev.op, ".HasAllAncestors"):
				o := hashOwner(ev.args[len(ev.args)-1])
				ok := o != nil && isTip(o) != nil
				if o != nil && !ok {
					o = headerPtr(o)
					ok = isTip(o) != nil
				}
				r.check(ok, "ready", short+": ancestors of the tip", ev.instr.Pos(), st.path(15), "the ancestors of %s are looked for, not those of the tip", ev.args[len(ev.args)-1])
			}
		case EvBranch:
			for f, v := range st.facts {
				if f.k == KBin && f.op == "<" {
					a, b := unconv(f.args[0]), unconv(f.args[1])
					tipA, tipB := fieldOwner(a, "Height"), fieldOwner(b, "Height")
					if tipA != nil && isTip(headerPtr(tipA)) != nil && onPeer(b, "PeersTip", me) && !v {
						st.set("above")
					}
					if tipB != nil && isTip(headerPtr(tipB)) != nil && onPeer(a, "PeersTip", me) && v {
						st.set("above")
					}
					if n, ok := a.isInt(); ok && n == 0 && onPeer(b, "PeersTip", me) && v {
						st.set("announced")
					}
				}
				if f.k == KBin && f.op == "==" {
					for i := range f.args {
						a, b := unconv(f.args[i]), unconv(f.args[1-i])
						if n, ok := a.isInt(); ok && n == 0 && onPeer(b, "PeersTip", me) && !v {
							st.set("announced")
						}
						if o := fieldOwner(a, "Height"); o != nil && isTip(headerPtr(o)) != nil && onPeer(b, "PeersTip", me) && v {
							st.set("above")
						}
						// the peer is in use
						if l := lookupIn(a); l != nil && isPeerTable(l.args[0].typ) && b.isNil() && !v {
							st.set("announced")
						}
					}
				}
				if f.k == KExtract && f.idx == 0 && f.args[0].k == KCall && isOp(f.args[0].op, ".HasAllAncestors") && v {
					if e := errOf(f.args[0]); e != nil && errNil(st.facts, e) {
						st.set("whole")
					}
				}
			}
		case EvSend:
			if !isEmptyChan(ev.addr) {
				return
			}
			n++
			ready[fieldValID(ev.addr)] = true
			r.check(me != nil && st.flag("above"), "ready", short+": height", ev.instr.Pos(), st.path(20), "the node is reported ready although its tip may be below the height its peer announced")
			r.check(me != nil && st.flag("announced"), "ready", short+": announced", ev.instr.Pos(), st.path(20), "the node is reported ready although its peer may not have announced its height yet")
			r.check(st.flag("whole"), "ready", short+": ancestors", ev.instr.Pos(), st.path(20), "the node is reported ready although ancestors of its tip may be missing")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if n == 0 {
		r.bad("ready", short, fn.Pos(), nil, "the node is never reported ready")
	}
}

// checkNodeStart: the operation that starts the goroutine that compares the heights waits for it.
func checkNodeStart(p *Prog, r *Report, roots map[*ssa.Function]bool, ready map[string]bool) {
	n := 0
	compares := p.reach(false, func(in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		if !ok {
			return false
		}
		for _, c := range p.callees(g, true) {
			if roots[c] {
				return true
			}
		}
		return false
	})
	starts := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) == "pkg/node" && f.Parent() == nil && hasErrResult(f) && compares[f] {
			starts[f] = true
		}
	}
	calls, _, _ := p.staticCallers()
	for f := range starts {
		for _, c := range calls[f] {
			if starts[c.Parent()] {
				delete(starts, f)
			}
		}
	}
	for _, f := range p.Funcs {
		if !starts[f] {
			continue
		}
		n++
		x := newExec(p)
		short := fname(f)
		adds := p.reach(true, func(in ssa.Instruction) bool { return decodesHeader(in) })
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(g)) == "pkg/node" && !adds[g] && !roots[g] && g.Name() != "Start"
		}
		x.pure = func(op string) bool { return true }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if ev.call != nil && ev.call.static != nil && adds[ev.call.static] {
					for _, a := range ev.args {
						if isPeerType(a.typ) {
							if e := errOf(ev.res); e != nil {
								st.add(Atom{name: "adding", a: stripIface(a), b: e})
							} else {
								st.add(Atom{name: "added", a: stripIface(a)})
							}
						}
					}
				}
			case EvBranch:
				for _, a := range st.all("adding") {
					if errNil(st.facts, a.b) {
						st.del(a)
						st.add(Atom{name: "added", a: a.a})
					}
				}
			case EvGo:
				if ev.fn == nil || !roots[ev.fn] {
					return
				}
				ok := false
				for _, a := range ev.args {
					ok = ok || st.has(Atom{name: "added", a: stripIface(a)})
				}
				r.check(ok, "start", short+": peer", ev.instr.Pos(), st.path(12), "the height compared is not that of the peer that was added")
				st.set("comparing")
			case EvGot, EvRecv:
				if ready[fieldValID(ev.addr)] {
					st.set("ready")
				}
			case EvReturn:
				if _, ok := successFacts(st, ev.args); !ok {
					return
				}
				r.check(st.flag("ready") && st.flag("comparing"), "start", short+": waits", ev.instr.Pos(), st.path(12), "Start succeeds before the node is synchronised")
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the start of the node")
	}
}

// checkAnnounced: where the height of a peer comes from, and that its version sets it before the
// peer is entered; there, synchronising begins.
func checkAnnounced(p *Prog, r *Report) {
	sets := p.reach(false, callsMethod("SetPeersTip"))
	asks := p.reach(false, requestsHeaders)
	entered := 0
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || !takesReader(f) {
			continue
		}
		version := false
		for _, t := range decodedIn(p, f) {
			version = version || wireName(t) == "MsgVersion"
		}
		_, reads := readersOfPeers(p)
		if reads[f] || !version {
			continue
		}
		if !sets[f] {
			r.bad("announced", fname(f)+": version", f.Pos(), nil, "the height announced in a version is ignored")
			continue
		}
		x := newExec(p)
		short := fname(f)
		peersEnv(p, x, func(g *ssa.Function) bool { return asks[g] && !sets[g] && !enters(p)[g] })
		me := peerParamOf(f)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if isOp(ev.op, ".SetPeersTip") && isMe(stripIface(ev.args[0]), me) {
					o := fieldOwner(unconv(ev.args[len(ev.args)-1]), "StartHeight")
					ok := o != nil && decodedIs(o, "MsgVersion")
					r.check(ok, "announced", short+": version", ev.instr.Pos(), st.path(15), "the height of the peer is set to %s, not the one its version announced", ev.args[len(ev.args)-1])
					if ok {
						st.set("height")
					}
				}
				if ev.call != nil && ev.call.static != nil && asks[ev.call.static] {
					st.set("syncing")
				}
			case EvGo:
				if ev.fn != nil && asks[ev.fn] {
					st.set("syncing")
				}
			case EvBranch:
				for t, v := range st.facts {
					if t.k != KBin || len(t.args) != 2 {
						continue
					}
					for i := range t.args {
						n, ok := t.args[1-i].isInt()
						isLen := t.args[i].has(func(y *Term) bool { return y.k == KCall && y.op == "len" && isPeerTable(y.args[0].typ) })
						count := t.args[i].find(func(y *Term) bool { return y.k == KCall && y.op == "len" && isPeerTable(y.args[0].typ) })
						if ok && isLen && st.has(Atom{name: "before", a: count}) {
							// counted before the peer was entered
							if t.op == "==" && n == 0 && !v || t.op == "<" && i == 1 && n == 1 && !v || t.op == "<" && i == 0 && n == 0 && v {
								st.set("others")
							}
							continue
						}
						if ok && isLen && (t.op == "==" && n == 1 && !v || t.op == "<" && i == 1 && n == 1 && v || t.op == "<" && i == 0 && n == 2 && !v || t.op == "==" && n == 0 && !v && !st.flag("entered")) {
							st.set("others")
						}
					}
				}
			case EvMapUpdate:
				if isPeerTable(ev.addr.typ) {
					entered++
					for _, fr := range st.frames {
						for _, v := range fr.env {
							if v == nil {
								continue
							}
							if c := v.find(func(y *Term) bool { return y.k == KCall && y.op == "len" && isPeerTable(y.args[0].typ) }); c != nil {
								st.add(Atom{name: "before", a: c})
							}
						}
					}
					r.check(st.flag("height"), "announced", short+": before use", ev.instr.Pos(), st.path(15), "the peer is entered before its height is known")
					st.set("entered")
				}
			case EvReturn:
				if st.flag("entered") {
					r.check(st.flag("syncing") || st.flag("others"), "begin", short, ev.instr.Pos(), st.path(20), "the first peer is entered, but no headers are requested from it")
				}
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	// the peers keep it
	pi := p.named("pkg/peer.Peer")
	if pi == nil {
		r.anchorLost("pkg/peer.Peer")
		return
	}
	for _, t := range p.implementers(pi.Underlying().(*types.Interface)) {
		set, get := p.methodOf(t, "SetPeersTip"), p.methodOf(t, "PeersTip")
		if set == nil || get == nil || set.Blocks == nil || testOnly(set) {
			continue
		}
		field := ""
		x := newExec(p)
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvStore:
				if o := unconv(ev.val); o.k == KParam && o.idx == 1 {
					field = keptIn(ev.addr)
					st.set("kept")
				}
			case EvCall:
				if strings.Contains(ev.op, "atomic") {
					for _, a := range ev.args {
						if o := unconv(a); o.k == KParam && o.idx == 1 {
							field = keptIn(ev.args[0])
							st.set("kept")
						}
					}
				}
			case EvReturn:
				r.check(st.flag("kept"), "announced", fname(set), ev.instr.Pos(), st.path(10), "the height announced is not kept")
			}
		}
		r.ran(x, fname(set), x.run(set, rootOpt{}))
		y := newExec(p)
		y.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvReturn && len(ev.args) == 1 {
				v := unconv(ev.args[0])
				ok := field != "" && v.has(func(y *Term) bool { return keptIn(y) == field })
				r.check(ok && v.k != KBin, "announced", fname(get), ev.instr.Pos(), st.path(10), "%s is returned, not the height kept", ev.args[0])
			}
		}
		r.ran(y, fname(get), y.run(get, rootOpt{}))
	}
}

func enters(p *Prog) map[*ssa.Function]bool {
	return p.reach(false, func(in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		return ok && isPeerTable(m.Map.Type())
	})
}

// keptIn: the field a term is, or is the address or the content of.
func keptIn(t *Term) string {
	for t != nil {
		switch t.k {
		case KField, KFieldV:
			return t.fld.Name()
		case KLoad, KConv:
			t = t.args[0]
		default:
			return ""
		}
	}
	return ""
}

// checkGoOn: the handlers of headers and blocks ask for what comes next.
func checkGoOn(p *Prog, r *Report) {
	asks := p.reach(false, requestsHeaders)
	sends := p.reach(false, sendsHeader)
	_, reads := readersOfPeers(p)
	n := 0
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || !takesReader(f) || reads[f] || !sends[f] {
			continue
		}
		batch, single := false, false
		for _, t := range decodedIn(p, f) {
			batch = batch || wireName(t) == "MsgHeaders"
			single = single || wireName(t) == "MsgBlock"
		}
		if !batch && !single {
			continue
		}
		n++
		x := newExec(p)
		short := fname(f)
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return inNode(g) && !asks[g] && (sends[g] || smallHelper(g))
		}
		x.pure = func(op string) bool { return true }
		x.pure = func(op string) bool { return !strings.Contains(op, "Decode") && !strings.Contains(op, ".SetPeersTip") }
		me := peerParamOf(f)
		isNew := func(t *Term) bool {
			o := fieldOwner(unconv(t), "Height")
			return o != nil && (mentionsType(o, "MsgBlock") || mentionsType(o, "MsgHeaders"))
		}
		isTip := func(t *Term) bool {
			o := fieldOwner(unconv(t), "Height")
			return o != nil && o.has(func(y *Term) bool { return y.k == KCall && isOp(y.op, ".ChainTip") })
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvSend:
				if e := chanElem(ev.addr.typ); isBlockHeader(e) || isBlockHeader(pointee(orNil(e))) {
					st.set("sent")
					st.unset("asked")
				}
			case EvRecv:
				if isEmptyChan(ev.addr) {
					st.set("stopped")
				}
			case EvCall:
				if isOp(ev.op, ".SetPeersTip") {
					v := ev.args[len(ev.args)-1]
					r.check(isNew(v) && isMe(stripIface(ev.args[0]), me), "announced", short, ev.instr.Pos(), st.path(15), "the height of a peer is set to %s, not the one it announced", v)
					st.set("raised")
				}
				if ev.call != nil && ev.call.static != nil && asks[ev.call.static] {
					for _, a := range ev.args {
						if isPeerType(a.typ) {
							r.check(isMe(stripIface(a), me) || a.isNil(), "go-on", short+": peer", ev.instr.Pos(), st.path(15), "the headers that follow are not requested from the peer that announced them")
						}
					}
					st.set("asked")
				}
			case EvBranch:
				for t, v := range st.facts {
					if t.k != KBin || t.op != "<" {
						continue
					}
					a, ka := linear(unconv(t.args[0]))
					b, kb := linear(unconv(t.args[1]))
					if a == nil || b == nil {
						continue
					}
					// tip + 1 < new
					if v && isTip(a) && isNew(b) && ka-kb >= 1 {
						st.set("gap")
					}
					// new <= announced
					if !v && onPeer(a, "PeersTip", me) && isNew(b) && ka == kb {
						st.set("within")
					}
					if v && onPeer(b, "PeersTip", me) && isNew(a) && ka == kb {
						st.set("within")
					}
				}
			case EvReturn:
				if _, ok := successFacts(st, ev.args); !ok || st.flag("stopped") {
					return
				}
				if batch {
					r.check(!st.flag("sent") || st.flag("asked"), "go-on", short+": after a batch", ev.instr.Pos(), st.path(20), "a batch of headers was handed on, but the ones that follow are not requested")
					r.check(!st.flag("gap") || st.flag("asked"), "go-on", short+": gap", ev.instr.Pos(), st.path(20), "headers are missing before the batch received, but they are not requested")
				}
				if single {
					ok := st.flag("sent") || st.flag("within") || st.flag("asked") && st.flag("raised")
					r.check(ok, "go-on", short+": beyond", ev.instr.Pos(), st.path(20), "a block beyond the height announced is received, but the height is not raised or the headers up to it are not requested")
				}
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the handlers of headers and blocks")
	}
}

// checkRequested: asking a peer for headers sends the request to that peer.
func checkRequested(p *Prog, r *Report) {
	asks := p.reach(false, requestsHeaders)
	reads := p.reach(false, decodesHeader)
	n := 0
	for _, f := range p.Funcs {
		if !inNode(f) || f.Parent() != nil || !asks[f] || readerParam(f) || reads[f] || peerParamOf(f) == nil {
			continue
		}
		n++
		x := newExec(p)
		short := fname(f)
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return inNode(g) || rel(pkgPathOf(g)) == "pkg/protocol" && asks[g]
		}
		x.pure = func(op string) bool { return true }
		me := peerParamOf(f)
		peerOf := func(t *Term) bool { // the parameter, or the entry of the table under its id
			t = stripIface(unconv(t))
			if isMe(t, me) {
				return true
			}
			l := lookupIn(t)
			return l != nil && isMe(idOf(l.args[1]), me)
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if e := errOf(ev.res); e != nil && !neverFails(ev.op) {
					st.add(Atom{name: "failed", a: e})
				}
				if isOp(ev.op, ".Write") && len(ev.args) >= 2 {
					m := x.find(ev.args[len(ev.args)-1], func(y *Term) bool { return y.k == KCall && isOp(y.op, "protocol.NewMessage") })
					if m == nil {
						return
					}
					if c, _ := m.args[0].isStr(); c != "getheaders" {
						return
					}
					ok := knownNil(st, me)
					if c := connOf(ev.args[0]); c != nil {
						ok = ok || peerOf(c)
					}
					r.check(ok, "go-on", short+": asked", ev.instr.Pos(), st.path(15), "headers are requested from another peer than the one given")
					st.set("asked")
				}
			case EvBranch:
				for _, a := range st.all("failed") {
					if errNil(st.facts, a.a) {
						st.del(a)
					}
				}
				for t, v := range st.facts {
					if t.k == KExtract && t.idx == 0 && t.args[0].k == KNext && !v {
						st.set("nobody")
					}
					if t.k == KBin && t.op == "==" && v {
						for i := range t.args {
							if t.args[1-i].isNil() && t.args[i].typ != nil && isPeerType(t.args[i].typ) && stripIface(t.args[i]) != me {
								st.set("nobody")
							}
						}
					}
				}
			case EvReturn:
				ok := st.flag("asked") || st.flag("nobody")
				for _, a := range st.all("failed") {
					ok = ok || !errNil(st.facts, a.a)
				}
				r.check(ok, "go-on", short+": request", ev.instr.Pos(), st.path(15), "no headers are requested although there is a peer and nothing failed")
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the request for headers of a peer")
	}
}
