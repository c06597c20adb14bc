package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A03", checkA03) }

// topOf: the functions of a package in the set that no other function in the set calls (being
// started as a goroutine is not being called).
func (p *Prog) topOf(set map[*ssa.Function]bool, in func(*ssa.Function) bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for f := range set {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				for _, g := range p.callees(i, false) {
					if g != f && !inside(f, g) {
						called[g] = true
					}
				}
			}
		}
	}
	var res []*ssa.Function
	for _, f := range p.Funcs {
		if in(f) && set[f] && !called[f] {
			res = append(res, f)
		}
	}
	return res
}

// inside: the function is written inside another one (a closure that calls the function it is
// part of, as a deferred one that resumes it does, is no caller of it).
func inside(f, outer *ssa.Function) bool {
	for f = f.Parent(); f != nil; f = f.Parent() {
		if f == outer {
			return true
		}
	}
	return false
}

// constResult: the constant a function returns, whatever happens.
func constResult(f *ssa.Function) constant.Value {
	if f == nil || f.Signature.Results().Len() != 1 {
		return nil
	}
	var v constant.Value
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		c, ok := unconvV(rt.Results[0]).(*ssa.Const)
		if !ok || c.Value == nil || v != nil && !(v.Kind() == c.Value.Kind() && constant.Compare(v, token.EQL, c.Value)) {
			return nil
		}
		v = c.Value
	}
	return v
}

// excluded: the path knows that the value does not hold the type.
func (p *Prog) excluded(st *State, v *Term, t types.Type, it *types.Interface) bool {
	for f, b := range st.facts {
		if f.k == KExtract && f.idx == 1 && f.args[0].k == KAssert && stripIface(f.args[0].args[0]) == v && !b {
			if types.Identical(f.args[0].typ, t) {
				return true
			}
		}
		if f.k != KBin || f.op != "==" || b {
			continue
		}
		for i := range f.args {
			c, k := f.args[i], unconv(f.args[1-i])
			if c.k != KConst || c.cst == nil || k.k != KCall || recvOf(k) != v {
				continue
			}
			for j := 0; j < it.NumMethods(); j++ {
				m := it.Method(j)
				if !isInvokeOf(k, m.Name()) {
					continue
				}
				cr := constResult(p.methodOf(t, m.Name()))
				if cr != nil && cr.Kind() == c.cst.Kind() && constant.Compare(cr, token.EQL, c.cst) {
					return true
				}
			}
		}
	}
	return false
}

func isReportOf(t types.Type) bool {
	return namedIs(t, "/application.SubscriberEventReport") || namedIs(t, "/application.SubscriberErrorReport")
}

func checkA03(p *Prog, r *Report) {
	r.rule("subscribed", "an event is handed on only if its subscriber is subscribed at that time")
	r.rule("delivered", "an event is left out only if its subscriber is gone, it can't be expressed, or the service stops")
	r.rule("error", "a subscriber is told that its subscription failed, if and only if it did")
	r.rule("addressed", "an event or error is sent to the registered subscriber whose id it carries")
	r.rule("endless", "delivery ends only when the service stops")
	r.rule("endpoint", "a client is reached where its request came from, or where the request says")
	r.rule("request", "what is subscribed to is what the client asked for")
	r.rule("captured", "a goroutine that delivers keeps the subscriber and event it was started for")
	stop := p.stopFields(nil)
	isStop := func(st *State, t *Term) bool {
		if isCtxDone(t) {
			return true
		}
		_, ok := stop[chanClass(st, t)]
		return ok
	}
	app := func(f *ssa.Function) bool { return rel(pkgPathOf(f)) == "internal/core/application" }
	gets := p.reach(false, func(in ssa.Instruction) bool {
		return recvsElem(in, func(t types.Type) bool { return scanType(t, "Report") })
	})
	n := 0
	for _, f := range p.topOf(gets, app) {
		n++
		checkSubscribed(p, r, f, isStop)
	}
	if n == 0 {
		r.anchorLost("the goroutine that hands on reports")
	}
	n = 0
	for _, l := range findRegLoops(p, "internal/core/application") {
		n++
		checkToldFailure(p, r, l, isStop)
	}
	if n == 0 {
		r.anchorLost("the goroutine that subscribes")
	}
	n = 0
	gets = p.reach(false, func(in ssa.Instruction) bool { return recvsElem(in, isReportOf) })
	for _, f := range p.topOf(gets, inIface) {
		n++
		checkAddressed(p, r, f, isStop)
	}
	if n == 0 {
		r.anchorLost("the goroutine that sends events to subscribers")
	}
	for _, f := range p.wsRoots() {
		checkAsked(p, r, f, true)
	}
	for _, f := range p.httpRoots() {
		checkAsked(p, r, f, false)
	}
	r.need("subscribed", 1)
	r.need("delivered", 3)
	r.need("error", 3)
	r.need("addressed", 3)
	r.need("endless", 2)
	r.need("endpoint", 3)
	checkCollected(p, r, "request", inPkgs("internal/interface", "internal/core"), "EventType")
	r.need("request", 6)
}

// present: what the path knows of the presence of a key in a table of subscribers.
func presence(x *Exec, st *State, key func(*Term) bool) (present, absent bool) {
	for f, v := range st.facts {
		if f.k == KExtract && f.idx == 1 && f.args[0].k == KLookup && key(f.args[0].args[1]) {
			present, absent = present || v, absent || !v
		}
		if f.k == KBin && f.op == "==" {
			for i := range f.args {
				l := lookupIn(f.args[i])
				if f.args[1-i].isNil() && l != nil && key(l.args[1]) {
					present, absent = present || !v, absent || v
				}
			}
		}
	}
	return
}

// lookupIn: the table look-up whose value the term is.
func lookupIn(t *Term) *Term {
	for t != nil {
		t = stripIface(unconv(t))
		switch {
		case t.k == KLookup:
			return t
		case t.k == KExtract && t.idx == 0, t.k == KAssert:
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func checkSubscribed(p *Prog, r *Report, fn *ssa.Function, isStop func(*State, *Term) bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "internal/core/application"
	}
	x.pure = func(op string) bool { return true }
	sent := 0
	client := func(st *State, rep *Term) *Term { return x.fieldOf(st, x.fieldOf(st, rep, "Request"), "ClientID") }
	isKey := func(st *State, rep *Term) func(*Term) bool {
		c := client(st, rep)
		return func(t *Term) bool { return c != nil && unconv(t) == unconv(c) }
	}
	end := func(st *State, ev *Event) {
		if len(st.all("rep")) > 0 {
			r.check(st.flag("sent") || st.flag("absent") || st.flag("stopped"), "delivered", short+": report", ev.instr.Pos(), st.path(14), "a report is dropped although its subscriber is not known to be gone")
		}
		st.clear("rep")
		for _, n := range []string{"sent", "absent", "present", "stopped"} {
			st.unset(n)
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvGot:
			if scanType(chanElem(ev.addr.typ), "Report") {
				end(st, ev)
				st.add(Atom{name: "rep", a: ev.val})
			}
		case EvSelect:
			for _, c := range ev.chans {
				if scanType(chanElem(c.typ), "Report") {
					end(st, ev)
					return
				}
			}
		case EvBranch:
			for _, a := range st.all("rep") {
				y, n := presence(x, st, isKey(st, a.a))
				if y {
					st.set("present")
				}
				if n {
					st.set("absent")
				}
			}
		case EvRecv:
			if isStop(st, ev.addr) {
				st.set("stopped")
			}
		case EvSend:
			if !namedIs(chanElem(ev.addr.typ), "/application.SubscriberEventReport") {
				return
			}
			sent++
			ok := false
			for _, a := range st.all("rep") {
				id, c := x.fieldOf(st, ev.val, "SubscriberID"), client(st, a.a)
				ok = ok || st.flag("present") && id != nil && c != nil && unconv(id) == unconv(c)
			}
			r.check(ok, "subscribed", short+": event", ev.instr.Pos(), st.path(14), "an event is handed on although its subscriber is not known to be subscribed")
			r.check(!st.flag("sent"), "subscribed", short+": once", ev.instr.Pos(), st.path(14), "a report is handed on twice")
			st.set("sent")
		case EvReturn:
			if len(st.frames) == 1 {
				r.check(st.flag("stopped"), "endless", short, ev.instr.Pos(), st.path(14), "delivery ends although the service is not stopped")
				end(st, ev)
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if sent == 0 {
		r.anchorLost("the events handed on by " + short)
	}
}

func checkToldFailure(p *Prog, r *Report, l *regLoop, isStop func(*State, *Term) bool) {
	short := fname(l.fn)
	learn := func(st *State) {
		for _, a := range st.all("watch") {
			n, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil))
			if !k || st.flag("failed") {
				continue
			}
			if n {
				st.del(a)
			} else {
				st.set("failed")
			}
		}
	}
	told := 0
	l.run(p, r, func(x *Exec, st *State, ev *Event) {
		end := func() {
			learn(st)
			if len(st.all("watch")) > 0 {
				r.check(st.flag("told") || st.flag("stopped"), "error", short+": told", ev.instr.Pos(), st.path(14), "a subscriber is not told that its subscription may have failed")
			}
			st.clear("watch")
			st.clear("got")
			for _, n := range []string{"told", "stopped", "failed"} {
				st.unset(n)
			}
		}
		switch ev.kind {
		case EvGot:
			if e := chanElem(ev.addr.typ); e != nil && l.elem[e.String()] {
				end()
				st.add(Atom{name: "got", a: ev.val})
			}
		case EvSelect:
			for _, c := range ev.chans {
				if e := chanElem(c.typ); e != nil && l.elem[e.String()] {
					end()
					return
				}
			}
		case EvRecv:
			if isStop(st, ev.addr) {
				st.set("stopped")
			}
		case EvResult:
			if strings.HasSuffix(ev.op, ".WatchDescriptorWallet") {
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "watch", a: e})
				}
			}
			learn(st)
		case EvBranch:
			learn(st)
		case EvSend:
			if !namedIs(chanElem(ev.addr.typ), "/application.SubscriberErrorReport") {
				return
			}
			told++
			ok := false
			for _, a := range st.all("watch") {
				msg := x.fieldOf(st, ev.val, "ErrorMsg")
				ok = ok || st.flag("failed") && msg != nil && x.reaches(msg, func(y *Term) bool { return y == a.a })
			}
			r.check(ok, "error", short+": failure", ev.instr.Pos(), st.path(14), "a subscriber is sent an error that is not that of its subscription")
			for _, a := range st.all("got") {
				id := x.fieldOf(st, ev.val, "SubscriberID")
				r.check(id != nil && clientID(x, st, id, a.a), "error", short+": subscriber", ev.instr.Pos(), st.path(14), "the error is sent to another subscriber")
			}
			st.set("told")
		case EvReturn:
			if len(st.frames) == 1 {
				end()
			}
		}
	})
	if told == 0 {
		r.bad("error", short+": told", l.fn.Pos(), nil, "a subscriber is never told that its subscription failed")
	}
}

// delivery: the goroutine that sends events and errors to the clients.
type delivery struct {
	p     *Prog
	r     *Report
	short string
	sends int
	wait  bool // in a goroutine of its own
}

func (d *delivery) msg(st *State) *Term {
	for _, a := range st.all("msg") {
		return a.a
	}
	return nil
}

// isKey: the key is the id of the subscriber the message is for.
func (d *delivery) isKey(x *Exec, st *State) func(*Term) bool {
	m := d.msg(st)
	if m == nil {
		return func(*Term) bool { return false }
	}
	id := x.fieldOf(st, m, "SubscriberID")
	return func(t *Term) bool { return id != nil && unconv(t) == unconv(id) }
}

// target: the subscriber is the registered one the message is for.
func (d *delivery) target(x *Exec, st *State, sub *Term) bool {
	l := lookupIn(sub)
	return l != nil && d.isKey(x, st)(l.args[1])
}

func (d *delivery) learn(x *Exec, st *State) {
	if d.msg(st) == nil {
		return
	}
	if _, n := presence(x, st, d.isKey(x, st)); n {
		st.set("exempt")
	}
	for _, a := range st.all("fail") {
		if n, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil)); k {
			if !n {
				st.set("exempt")
			}
			st.del(a)
		}
	}
	// a subscriber that is of no kind there is
	for f := range st.facts {
		var v *Term
		switch {
		case f.k == KBin && f.op == "==":
			for i := range f.args {
				if k := unconv(f.args[i]); k.k == KCall && len(k.args) > 0 && lookupIn(recvOf(k)) != nil {
					v = recvOf(k)
				}
			}
		case f.k == KExtract && f.idx == 1 && f.args[0].k == KAssert:
			v = stripIface(f.args[0].args[0])
		}
		if v == nil || v.typ == nil || lookupIn(v) == nil {
			continue
		}
		it, ok := v.typ.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		all := true
		for _, t := range d.p.implementers(it) {
			all = all && d.p.excluded(st, v, t, it)
		}
		if all {
			st.set("exempt")
		}
	}
}

func (d *delivery) on(x *Exec, st *State, ev *Event) {
	switch ev.kind {
	case EvBranch:
		d.learn(x, st)
	case EvResult:
		if e := errOf(ev.res); e != nil && (strings.HasPrefix(ev.op, "encoding/json.Marshal") || strings.HasSuffix(ev.op, ").SetWriteDeadline") || strings.Contains(ev.op, "neutrinod-types.") || strings.Contains(ev.op, "net/http.NewRequest")) {
			st.add(Atom{name: "fail", a: e})
		}
		d.learn(x, st)
	case EvCall:
		if ev.inl {
			return
		}
		switch {
		case strings.HasSuffix(ev.op, "websocket.Conn).WriteMessage"), strings.HasSuffix(ev.op, "websocket.Conn).WriteJSON"):
			d.sends++
			o := fieldOwner(unconv(ev.args[0]), "WsConnection")
			d.r.check(o != nil && d.target(x, st, o), "addressed", d.short+": web-socket", ev.instr.Pos(), st.path(14), "what is sent goes to %s, not to the subscriber it is for", ev.args[0])
			d.content(x, st, ev, ev.args[1:])
			st.set("sent")
		case strings.HasPrefix(ev.op, "(*net/http.Client).") || strings.HasPrefix(ev.op, "net/http.Post") || strings.HasPrefix(ev.op, "net/http.Get"):
			n, ok := 0, true
			for _, a := range ev.args {
				x.reachesAll(a, func(y *Term) {
					if y.k == KBin && y.op == "+" && y.typ != nil && types.Identical(y.typ.Underlying(), types.Typ[types.String]) && y.has(func(z *Term) bool { return fieldOwner(z, "EndpointUrl") != nil }) {
						ok = false // another address made of it
					}
					if o := fieldOwner(y, "EndpointUrl"); o != nil {
						n++
						ok = ok && d.target(x, st, o)
					}
				})
			}
			d.sends++
			d.r.check(n > 0 && ok, "addressed", d.short+": HTTP", ev.instr.Pos(), st.path(14), "what is sent does not go to the address of the subscriber it is for")
			d.content(x, st, ev, ev.args[1:])
			st.set("sent")
		}
	case EvGo:
		d.started(x, st, ev)
	}
}

// content: what is sent derives from the message received.
func (d *delivery) content(x *Exec, st *State, ev *Event, args []*Term) {
	m := d.msg(st)
	ok := false
	for _, a := range args {
		t, mc := payloadOf(x, a)
		v := stripIface(a)
		if t != nil {
			v = stripIface(mc.args[0])
		} else if v.typ != nil {
			t = pointee(v.typ)
		}
		if respKind(t) == "error" {
			msg := unconv(x.fieldOf(st, v, "ErrorMessage"))
			e := x.fieldOf(st, m, "ErrorMsg")
			ok = ok || e != nil && x.reaches(msg, func(y *Term) bool { return y == e })
		} else if t != nil && isResponse(t) {
			tx := x.fieldOf(st, m, "Transaction")
			ok = ok || tx != nil && x.reaches(x.fieldOf(st, v, "TxID"), func(y *Term) bool { return y == tx })
		}
	}
	d.r.check(ok, "addressed", d.short+": content", ev.instr.Pos(), st.path(14), "what is sent is not the event or error received")
}

// started follows a goroutine that delivers.
func (d *delivery) started(x *Exec, st *State, ev *Event) {
	t := ev.call.target()
	if t == nil || t.Blocks == nil || !inIface(t) {
		return
	}
	var binds []*Term
	if ev.call.fn != nil {
		if c := stripIface(ev.call.fn); c.k == KClosure {
			binds = c.args
		}
	}
	for i, b := range binds {
		if b.k == KAlloc && i < len(t.FreeVars) {
			d.r.check(perIteration(d.p, b, ev.instr), "captured", d.short+": "+t.FreeVars[i].Name(), ev.instr.Pos(), st.path(14), "the goroutine shares %s with later deliveries", t.FreeVars[i].Name())
		}
	}
	y := newExec(d.p)
	y.inline, y.pure = x.inline, x.pure
	n := d.sends
	msgs := st.all("msg")
	var missed []func()
	y.on = func(y *Exec, s *State, e *Event) {
		if e.kind == EvStart {
			for _, a := range msgs {
				s.add(a)
			}
		}
		d.on(y, s, e)
		if e.kind == EvReturn && len(s.frames) == 1 {
			d.learn(y, s)
			if !s.flag("sent") && !s.flag("exempt") {
				missed = append(missed, func() {
					d.r.bad("delivered", d.short+": in goroutine", e.instr.Pos(), s.path(14), "what was received is not sent to its subscriber")
				})
			}
		}
	}
	mem := map[*Term]*Term{}
	for k, v := range st.mem {
		mem[k] = v
	}
	facts := Facts{}
	for k, v := range st.facts {
		facts[k] = v
	}
	err := y.run(t, rootOpt{args: ev.args, binds: binds, mem: mem, facts: facts})
	d.r.ran(y, fname(t), err)
	if d.sends > n {
		st.set("sent")
		d.r.ok("delivered", d.short+": in goroutine", ev.instr.Pos())
		for _, f := range missed {
			f()
		}
	}
}

func checkAddressed(p *Prog, r *Report, fn *ssa.Function, isStop func(*State, *Term) bool) {
	d := &delivery{p: p, r: r, short: fname(fn)}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inIface(f) }
	x.pure = func(op string) bool { return true }
	kinds := map[string]bool{}
	end := func(st *State, ev *Event) {
		if m := d.msg(st); m != nil {
			d.learn(x, st)
			r.check(st.flag("sent") || st.flag("exempt"), "delivered", d.short+": "+typeName(m.typ), ev.instr.Pos(), st.path(18), "what was received is not sent to its subscriber")
		}
		st.clear("msg")
		st.clear("fail")
		for _, n := range []string{"sent", "exempt", "stopped"} {
			st.unset(n)
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvGot:
			if isReportOf(chanElem(ev.addr.typ)) {
				end(st, ev)
				kinds[typeName(ev.val.typ)] = true
				st.add(Atom{name: "msg", a: ev.val})
			}
			return
		case EvSelect:
			for _, c := range ev.chans {
				if isReportOf(chanElem(c.typ)) {
					end(st, ev)
					return
				}
			}
			return
		case EvRecv:
			if isStop(st, ev.addr) {
				st.set("stopped")
			}
			return
		case EvReturn:
			if len(st.frames) == 1 {
				r.check(st.flag("stopped"), "endless", d.short, ev.instr.Pos(), st.path(14), "delivery ends although the service is not stopped")
				end(st, ev)
			}
			return
		}
		d.on(x, st, ev)
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, d.short, err)
	if len(kinds) < 2 || d.sends < 4 {
		r.anchorLost("the events and errors sent by " + d.short)
	}
}

// checkAsked: what is subscribed to is what the client asked for, and how it is reached.
func checkAsked(p *Prog, r *Report, fn *ssa.Function, ws bool) {
	x := ifaceExec(p)
	short := fname(fn)
	subs, regs := 0, 0
	isEvents := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isEventType(s.Elem())
	}
	var conn *Term
	for i, pr := range fn.Params {
		if strings.HasSuffix(pr.Type().String(), "websocket.Conn") {
			conn = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	isConn := func(st *State, c *Term) bool {
		c = stripIface(unconv(c))
		if conn != nil && c == conn || c.k == KExtract && c.args[0].k == KCall && strings.HasSuffix(c.args[0].op, "Upgrader).Upgrade") {
			return true
		}
		// the connection captured by the goroutine that serves it
		if v := c; v.k == KFree || v.k == KLoad && v.args[0].k == KFree {
			if c.typ != nil && strings.HasSuffix(c.typ.String(), "websocket.Conn") {
				return true
			}
		}
		o := fieldOwner(c, "WsConnection")
		for _, a := range st.all("in") {
			if o != nil && stripIface(o) == a.a {
				return true
			}
		}
		return false
	}
	req := func(t *Term) bool {
		return t != nil && t.typ != nil && strings.Contains(pointee(t.typ).String(), "neutrinod-types.SubscriptionRequest")
	}
	conv := func(st *State, v *Term) bool {
		v = unconv(v)
		if v.k != KExtract || v.idx != 0 || v.args[0].k != KCall || !strings.HasSuffix(v.args[0].op, "FromNeutrinodTypeToScannerEventType") {
			return false
		}
		c, _, ok := elemOf(unconv(v.args[0].args[0]))
		return ok && errNil(st.facts, errOf(v.args[0])) && req(fieldOwner(c, "EventTypes"))
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvSend:
			e := chanElem(ev.addr.typ)
			if e == nil {
				return
			}
			v := stripIface(unconv(ev.val))
			if v.typ == nil {
				return
			}
			if c := x.fieldOf(st, v, "WsConnection"); c != nil && len(st.all("in")) == 0 {
				regs++
				r.check(isConn(st, c), "endpoint", short+": connection", ev.instr.Pos(), st.path(14), "the client is registered with %s, not with its own connection", c)
				st.add(Atom{name: "in", a: v})
			}
			if c := x.fieldOf(st, v, "EndpointUrl"); c != nil && len(st.all("in")) == 0 {
				regs++
				r.check(req(fieldOwner(unconv(c), "EndpointUrl")), "endpoint", short+": address", ev.instr.Pos(), st.path(14), "the client is registered with %s, not with the address it gave", c)
				st.add(Atom{name: "in", a: v})
			}
		case EvBranch:
			if i, ok := ev.instr.(*ssa.If); ok {
				b := i.Block()
				body := tlLoop(b.Parent()).body[b]
				taken := 0
				if v, ok := ev.val.isBool(); ok && !v {
					taken = 1
				}
				if body != nil && body[b.Succs[1-taken]] && !body[b.Succs[taken]] {
					st.set("all")
				}
			}
		case EvStore:
			if ev.addr.k == KIndex && ev.val.typ != nil && isEventType(ev.val.typ) && inIface(ev.instr.Parent()) {
				r.check(conv(st, ev.val), "request", short+": kind", ev.instr.Pos(), st.path(14), "the kind of event subscribed to is %s, not one the client asked for", ev.val)
				st.unset("pending")
			}
		case EvResult:
			if strings.HasSuffix(ev.op, "FromNeutrinodTypeToScannerEventType") {
				r.check(!st.flag("pending"), "request", short+": kinds", ev.instr.Pos(), st.path(14), "a kind of event the client asked for is left out")
				st.set("pending")
				st.set("some")
				st.unset("all")
			}
		case EvCall:
			switch {
			case ev.op == "append" && len(ev.args) > 1 && ev.args[0].typ != nil && isEvents(ev.args[0].typ):
				for _, a := range ev.args[1:] {
					if a.k == KSpread {
						continue
					}
					r.check(conv(st, a), "request", short+": kind", ev.instr.Pos(), st.path(14), "the kind of event subscribed to is %s, not one the client asked for", a)
				}
				st.unset("pending")
			case strings.HasSuffix(ev.op, "websocket.Conn).WriteMessage"), strings.HasSuffix(ev.op, "websocket.Conn).ReadMessage"), strings.HasSuffix(ev.op, "websocket.Conn).WriteJSON"):
				if ws {
					r.check(isConn(st, ev.args[0]), "endpoint", short+": "+ev.op[strings.LastIndex(ev.op, ".")+1:], ev.instr.Pos(), st.path(14), "requests are read from or answered on another connection than the client's")
				}
				if strings.HasSuffix(ev.op, "ReadMessage") {
					st.unset("pending")
					st.unset("some")
					st.unset("all")
				}
			case isSubscribe(ev.op):
				subs++
				s := ev.args[len(ev.args)-1]
				var d *Term
				for _, f := range [][2]string{{"WalletDescriptor", "DescriptorWallet"}, {"BlockHeight", "StartBlockHeight"}} {
					v := x.fieldOf(st, s, f[0])
					var o *Term
					if v != nil {
						o = fieldOwner(unconv(v), f[1])
					}
					r.check(req(o) && (d == nil || d == o), "request", short+": "+f[0], ev.instr.Pos(), st.path(14), "the %s subscribed to is %s, not what the client asked for", f[0], v)
					d = o
				}
				v := x.fieldOf(st, s, "Events")
				if v == nil {
					r.bad("request", short+": Events", ev.instr.Pos(), st.path(14), "the kinds of events subscribed to are not those the client asked for")
					return
				}
				v = unconv(v)
				if o := fieldOwner(v, "EventTypes"); o != nil {
					r.check(req(o) && o == d, "request", short+": Events", ev.instr.Pos(), st.path(14), "the kinds of events subscribed to are not those the client asked for")
					return
				}
				r.check((v.k == KAppend || v.k == KPhi || v.k == KMake || v.k == KUnk || v.k == KSlice && v.op == "" || v.isNil() && !st.flag("some")) && st.flag("all") && !st.flag("pending"), "request", short+": Events", ev.instr.Pos(), st.path(14), "the kinds of events subscribed to (%s) are not all those the client asked for", v)
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if subs == 0 || regs == 0 {
		r.anchorLost("the client registered and its subscription in " + short)
	}
}
