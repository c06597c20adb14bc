package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A02", checkA02) }

// registries: the element types of the tables of subscribers in a package, which are what is
// received from the channels that lead to them.
func registries(p *Prog, pkg string) map[string]bool {
	res := map[string]bool{}
	q := p.pkg(pkg)
	if q == nil {
		return res
	}
	for _, m := range q.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		s, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		chans := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			if e := chanElem(s.Field(i).Type()); e != nil {
				chans[e.String()] = true
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if mp, ok := s.Field(i).Type().Underlying().(*types.Map); ok && chans[mp.Elem().String()] {
				res[mp.Elem().String()] = true
			}
		}
	}
	return res
}

// clientID: the term is the id of the client.
func clientID(x *Exec, st *State, t, client *Term) bool {
	t, client = unconv(stripIface(t)), unconv(stripIface(client))
	if t == client {
		return true
	}
	if isInvokeOf(t, "SubscriberID") {
		return unconv(recvOf(t)) == client
	}
	for _, f := range []string{"ID"} {
		if v := x.fieldOf(st, client, f); v != nil && unconv(v) == t {
			return true
		}
	}
	return false
}

// regLoop: a goroutine that keeps a registry.
type regLoop struct {
	fn         *ssa.Function
	elem       map[string]bool
	add, del   map[string]bool // channels that lead to an entry or a removal
	ends       bool            // removal must end the subscription
	pkg        string
	isRegistry func(t *Term) bool
}

func (l *regLoop) chanOf(st *State, t *Term) string { return chanClass(st, t) }

func findRegLoops(p *Prog, pkg string) []*regLoop {
	el := registries(p, pkg)
	if len(el) == 0 {
		return nil
	}
	var res []*regLoop
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) != pkg {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				has = has || recvsElem(in, func(t types.Type) bool { return el[t.String()] })
			}
		}
		if has {
			l := &regLoop{fn: f, elem: el, add: map[string]bool{}, del: map[string]bool{}, pkg: pkg}
			l.isRegistry = func(t *Term) bool {
				if t == nil || t.typ == nil {
					return false
				}
				m, ok := t.typ.Underlying().(*types.Map)
				return ok && el[m.Elem().String()]
			}
			res = append(res, l)
		}
	}
	return res
}

func (l *regLoop) run(p *Prog, r *Report, on func(x *Exec, st *State, ev *Event)) {
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == l.pkg }
	x.pure = func(op string) bool { return true }
	x.on = on
	err := x.run(l.fn, rootOpt{})
	r.ran(x, fname(l.fn), err)
}

// classify finds which channel leads to an entry and which to a removal.
func (l *regLoop) classify(p *Prog, r *Report) {
	l.run(p, r, func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvGot:
			st.clear("got")
			if e := chanElem(ev.addr.typ); e != nil && l.elem[e.String()] {
				st.add(Atom{name: "got", a: ev.val, s: l.chanOf(st, ev.addr)})
			}
		case EvMapUpdate:
			for _, a := range st.all("got") {
				if l.isRegistry(ev.addr) {
					l.add[a.s] = true
				}
			}
		case EvCall:
			for _, a := range st.all("got") {
				if ev.op == "delete" && l.isRegistry(ev.args[0]) {
					l.del[a.s] = true
				}
			}
		}
	})
}

func checkA02(p *Prog, r *Report) {
	r.rule("loop", "a client handed over to be entered or removed is entered or removed, under its own id")
	r.rule("ends", "removing a client from the registry ends its subscription")
	r.rule("watch", "what a subscriber asks for is watched for it")
	r.rule("handed", "a subscription or its end reports success only if it was handed over")
	r.rule("leave", "a client entered in the registry is removed on every way its connection can end")
	r.rule("entered", "a client whose subscription succeeds is in the registry")
	stop := p.stopFields(nil)
	isStop := func(st *State, t *Term) bool {
		if isCtxDone(t) {
			return true
		}
		_, ok := stop[chanClass(st, t)]
		return ok
	}
	pkgs := map[string]bool{"internal/core/application": true}
	for _, f := range p.Funcs {
		if inIface(f) {
			pkgs[rel(pkgPathOf(f))] = true
		}
	}
	var all []*regLoop
	for _, pkg := range sortedKeys(pkgs) {
		ls := findRegLoops(p, pkg)
		add, del := map[string]bool{}, map[string]bool{}
		for _, l := range ls {
			l.classify(p, r)
			for k := range l.add {
				add[k] = true
			}
			for k := range l.del {
				del[k] = true
			}
			all = append(all, l)
		}
		if len(ls) == 0 {
			continue
		}
		if len(add) == 0 || len(del) == 0 {
			r.bad("loop", pkg+": registry", ls[0].fn.Pos(), nil, "no channel leads to an entry in the registry, or none to a removal from it (%d and %d)", len(add), len(del))
		}
		for _, l := range ls {
			l.add, l.del = add, del
			l.check(p, r)
		}
	}
	if len(all) < 2 {
		r.anchorLost("the goroutines that keep the registries of clients and of subscriptions")
		return
	}
	for _, l := range all {
		if l.pkg == "internal/core/application" {
			checkHanded(p, r, l, isStop)
		}
	}
	for _, l := range all {
		if l.pkg == "internal/core/application" {
			continue
		}
		for _, f := range p.wsRoots() {
			checkLeave(p, r, l, f, isStop, true)
		}
		for _, f := range p.httpRoots() {
			checkLeave(p, r, l, f, isStop, false)
		}
	}
	r.need("loop", 6)
	r.need("ends", 1)
	r.need("watch", 4)
	r.need("handed", 2)
	r.need("leave", 3)
	r.need("entered", 1)
}

func (l *regLoop) check(p *Prog, r *Report) {
	short := fname(l.fn)
	app := l.pkg == "internal/core/application"
	l.run(p, r, func(x *Exec, st *State, ev *Event) {
		end := func() {
			for _, a := range st.all("got") {
				if l.add[a.s] && !l.del[a.s] {
					r.check(st.flag("added") && !st.flag("removed"), "loop", short+": entry", ev.instr.Pos(), st.path(12), "a client handed over to be entered in the registry is not entered, or removed again")
					if app {
						r.check(st.flag("watched"), "watch", short+": watched", ev.instr.Pos(), st.path(12), "nothing is watched for a subscriber")
					}
				}
				if l.del[a.s] && !l.add[a.s] {
					r.check(st.flag("removed") && !st.flag("added"), "loop", short+": removal", ev.instr.Pos(), st.path(12), "a client handed over to be removed from the registry is not removed")
					if !app {
						r.check(st.flag("ended"), "ends", short+": subscription", ev.instr.Pos(), st.path(12), "the subscription of a client that is removed is not ended")
					}
				}
			}
			for _, n := range []string{"added", "removed", "ended", "watched"} {
				st.unset(n)
			}
			st.clear("got")
		}
		switch ev.kind {
		case EvSelect:
			if ev.block && len(st.frames) == 1 {
				for _, c := range ev.chans {
					if e := chanElem(c.typ); e != nil && l.elem[e.String()] {
						end()
						break
					}
				}
			}
		case EvReturn:
			if len(st.frames) == 1 {
				end()
			}
		case EvGot:
			if e := chanElem(ev.addr.typ); e != nil && l.elem[e.String()] {
				end()
				st.add(Atom{name: "got", a: ev.val, s: l.chanOf(st, ev.addr)})
			}
		case EvMapUpdate:
			if !l.isRegistry(ev.addr) {
				return
			}
			for _, a := range st.all("got") {
				r.check(clientID(x, st, ev.key, a.a) && x.sameClient(st, ev.val, a.a), "loop", short+": entered", ev.instr.Pos(), st.path(12), "another client, or under another id, is entered in the registry than the one handed over")
				st.set("added")
				st.unset("removed")
			}
		case EvCall:
			if ev.op == "delete" && l.isRegistry(ev.args[0]) {
				for _, a := range st.all("got") {
					r.check(clientID(x, st, ev.args[1], a.a), "loop", short+": removed", ev.instr.Pos(), st.path(12), "another client is removed from the registry than the one handed over")
					st.set("removed")
					st.unset("added")
				}
			}
			if !app && isUnSubscribe(ev.op) {
				for _, a := range st.all("got") {
					id := x.fieldOf(st, ev.args[len(ev.args)-1], "ID")
					r.check(id != nil && clientID(x, st, id, a.a), "ends", short+": UnSubscribe", ev.instr.Pos(), st.path(12), "the subscription of another client is ended than of the one removed")
					st.set("ended")
				}
			}
			if app && strings.HasSuffix(ev.op, ".WatchDescriptorWallet") {
				for _, a := range st.all("got") {
					as := ev.args[len(ev.args)-4:]
					r.check(l.add[a.s], "watch", short+": who", ev.instr.Pos(), st.path(12), "a subscriber is watched for that is not entered")
					r.check(st.flag("added"), "watch", short+": order", ev.instr.Pos(), st.path(12), "what a subscriber asks for is watched before the subscriber is entered, so that its first events are dropped")
					r.check(clientID(x, st, as[0], a.a), "watch", short+": client", ev.instr.Pos(), st.path(12), "a wallet is watched for another client than the subscriber")
					for i, f := range []string{"WalletDescriptor", "Events", "BlockHeight"} {
						v := x.fieldOf(st, a.a, f)
						r.check(v != nil && unconv(v) == unconv(as[i+1]), "watch", short+": "+f, ev.instr.Pos(), st.path(12), "%s watched is %s, not that of the subscriber", f, as[i+1])
					}
					st.set("watched")
				}
			}
		}
	})
}

// sameClient: the value is the client, possibly as an interface or a copy.
func (x *Exec) sameClient(st *State, v, client *Term) bool {
	return unconv(stripIface(v)) == unconv(stripIface(client))
}

// checkHanded: the service's Subscribe and UnSubscribe.
func checkHanded(p *Prog, r *Report, l *regLoop, isStop func(*State, *Term) bool) {
	n := 0
	for _, fn := range p.Funcs {
		if rel(pkgPathOf(fn)) != l.pkg || fn.Signature.Recv() == nil || fn.Name() != "Subscribe" && fn.Name() != "UnSubscribe" {
			continue
		}
		n++
		sub := fn.Name() == "Subscribe"
		want := l.add
		if !sub {
			want = l.del
		}
		short := fname(fn)
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == l.pkg }
		x.pure = func(op string) bool { return true }
		var param *Term
		for i, pr := range fn.Params {
			if l.elem[pr.Type().String()] {
				param = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
			}
		}
		if param == nil {
			r.anchorLost("the subscriber of " + short)
			continue
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvSend:
				e := chanElem(ev.addr.typ)
				if e == nil || !l.elem[e.String()] {
					return
				}
				r.check(want[chanClass(st, ev.addr)], "handed", short+": channel", ev.instr.Pos(), st.path(12), "the subscriber is handed over on a channel that does not lead to %s", map[bool]string{true: "an entry", false: "a removal"}[sub])
				same := true
				fs := []string{"ID"}
				if sub {
					fs = []string{"ID", "BlockHeight", "Events", "WalletDescriptor"}
				}
				for _, f := range fs {
					a, b := x.fieldOf(st, ev.val, f), x.fieldOf(st, param, f)
					same = same && a != nil && b != nil && unconv(a) == unconv(b)
				}
				r.check(same, "handed", short+": subscriber", ev.instr.Pos(), st.path(12), "another subscriber is handed over than the one given")
				r.check(!st.flag("sent"), "handed", short+": twice", ev.instr.Pos(), st.path(12), "the subscriber is handed over twice")
				st.set("sent")
			case EvRecv:
				if isStop(st, ev.addr) {
					st.set("stopped")
				}
			case EvBranch:
				for t, v := range st.facts {
					if t.k == KExtract && t.idx == 1 && t.args[0].k == KLookup && !v && !sub && clientID(x, st, t.args[0].args[1], param) {
						st.set("absent")
					}
				}
			case EvReturn:
				if len(st.frames) > 1 {
					return
				}
				e := ev.args[len(ev.args)-1]
				if n, k := st.facts.eval(mkBin(token.EQL, e, cNil(nil), nil)); k && n {
					r.check(st.flag("sent"), "handed", short+": success", ev.instr.Pos(), st.path(12), "success is reported although the subscriber was not handed over")
				} else if k || errNilKnownNot(st, e) {
					r.check(!st.flag("sent"), "handed", short+": failure", ev.instr.Pos(), st.path(12), "a failure is reported although the subscriber was handed over")
					if !sub {
						r.check(st.flag("absent") || st.flag("stopped"), "handed", short+": present", ev.instr.Pos(), st.path(12), "a subscriber is refused its end although it is subscribed")
					}
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n < 2 {
		r.anchorLost("Subscribe and UnSubscribe of the notification service")
	}
}

func errNilKnownNot(st *State, e *Term) bool {
	return e.k == KCall && makesError(e.op)
}

// checkLeave: where clients are entered and removed.
func checkLeave(p *Prog, r *Report, l *regLoop, fn *ssa.Function, isStop func(*State, *Term) bool, ws bool) {
	x := ifaceExec(p)
	short := fname(fn)
	entered := 0
	removes := p.reach(false, func(in ssa.Instruction) bool {
		return sendsElem(in, func(t types.Type) bool { return l.elem[t.String()] })
	})
	learn := func(st *State) {
		for _, a := range st.all("sub") {
			n, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil))
			if !k {
				continue
			}
			st.del(a)
			if n {
				st.set("subscribed")
			} else {
				st.unset("subscribed")
			}
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvSend:
			e := chanElem(ev.addr.typ)
			if e == nil || !l.elem[e.String()] {
				return
			}
			c := chanClass(st, ev.addr)
			v := unconv(stripIface(ev.val))
			if l.add[c] {
				entered++
				r.check(len(st.all("in")) == 0, "leave", short+": again", ev.instr.Pos(), st.path(12), "a client is entered while another one of the same connection is")
				st.add(Atom{name: "in", a: v})
			}
			if l.del[c] {
				ok := false
				for _, a := range st.all("in") {
					if a.a == v {
						ok = true
						st.del(a)
					}
				}
				r.check(ok || len(st.all("in")) == 0 && st.flag("stopped"), "leave", short+": who", ev.instr.Pos(), st.path(12), "another client is removed than the one entered")
			}
		case EvRecv:
			if isStop(st, ev.addr) {
				st.set("stopped")
			}
		case EvDefer:
			if ev.fn != nil && removes[ev.fn] {
				st.set("deferred")
			}
			if ev.call != nil && ev.call.fn != nil && ev.call.fn.fn != nil && removes[ev.call.fn.fn] {
				st.set("deferred")
			}
		case EvBranch:
			learn(st)
		case EvCall:
			if ws && strings.HasSuffix(ev.op, "websocket.Conn).ReadMessage") {
				r.check(st.flag("deferred"), "leave", short+": panic", ev.instr.Pos(), st.path(12), "the client is not removed if serving it panics")
				r.check(len(st.all("in")) == 1, "entered", short+": serves", ev.instr.Pos(), st.path(12), "a client is served that is not in the registry")
			}
		case EvResult:
			if isSubscribe(ev.op) {
				r.check(len(st.all("in")) == 1, "entered", short+": Subscribe", ev.instr.Pos(), st.path(12), "a subscription is made for a client that is not in the registry")
				for _, a := range st.all("in") {
					id, mine := x.fieldOf(st, ev.args[len(ev.args)-1], "ID"), x.fieldOf(st, a.a, "ID")
					r.check(id != nil && mine != nil && unconv(id) == unconv(mine), "entered", short+": id", ev.instr.Pos(), st.path(12), "the subscription is made under another id (%s) than the client's (%s)", id, mine)
				}
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "sub", a: e})
					st.unset("subscribed")
				}
			}
			learn(st)
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			learn(st)
			in := len(st.all("in")) > 0
			r.check(!in || st.flag("stopped") || !ws && st.flag("subscribed"), "leave", short+": end", ev.instr.Pos(), st.path(12), "the client is left in the registry")
			r.check(in || !st.flag("subscribed") || ws || st.flag("stopped"), "entered", short+": end", ev.instr.Pos(), st.path(12), "a client whose subscription succeeded is removed from the registry")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if entered == 0 {
		r.bad("entered", short+": entry", fn.Pos(), nil, "clients are never entered in the registry")
	}
}
