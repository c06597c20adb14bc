package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A01", checkA01) }

// inIface: a function of the packages that serve remote clients.
func inIface(f *ssa.Function) bool {
	return strings.HasPrefix(rel(pkgPathOf(f)), "internal/interface/")
}

func isNotif(op, name string) bool {
	return strings.HasSuffix(op, "/application.NotificationService)."+name) || strings.HasSuffix(op, "/application.notificationService)."+name)
}

func isSubscribe(op string) bool   { return isNotif(op, "Subscribe") }
func isUnSubscribe(op string) bool { return isNotif(op, "UnSubscribe") }

func namedIs(t types.Type, name string) bool {
	return t != nil && strings.HasSuffix(t.String(), name)
}

// httpRoots: the handlers of HTTP requests that subscribe clients.
func (p *Prog) httpRoots() []*ssa.Function {
	sub := p.reach(false, func(in ssa.Instruction) bool {
		return callsMethod("Subscribe")(in) || callsMethod("UnSubscribe")(in)
	})
	var res []*ssa.Function
	for _, f := range p.Funcs {
		if !inIface(f) || !sub[f] || f.Signature.Results().Len() > 0 {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() == 2 && namedIs(ps.At(0).Type(), "net/http.ResponseWriter") && namedIs(ps.At(1).Type(), "*net/http.Request") {
			res = append(res, f)
		}
	}
	return res
}

// readsMessage: reads a message of a web-socket connection.
func readsMessage(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name() == "ReadMessage"
	}
	f := c.Common().StaticCallee()
	return f != nil && f.Signature.Recv() != nil && (f.Name() == "ReadMessage" || f.Name() == "ReadJSON" || f.Name() == "NextReader") && strings.Contains(pkgPathOf(f), "gorilla/websocket")
}

// wsRoots: the functions that serve a web-socket connection, which nobody calls in turn.
func (p *Prog) wsRoots() []*ssa.Function {
	set := p.reach(false, readsMessage)
	called := map[*ssa.Function]bool{}
	for f := range set {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				for _, g := range p.callees(in, false) {
					if g != f {
						called[g] = true
					}
				}
			}
		}
	}
	var res []*ssa.Function
	for _, f := range p.Funcs {
		if inIface(f) && set[f] && !called[f] {
			res = append(res, f)
		}
	}
	return res
}

func stopsProgram(op string) bool {
	i := strings.LastIndex(op, ".")
	if i < 0 {
		return false
	}
	n := op[i+1:]
	return strings.Contains(op, "logrus") && (strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")) || strings.HasPrefix(op, "log.Fatal") || strings.HasPrefix(op, "log.Panic") || op == "os.Exit"
}

// payloadOf: the type of the value whose JSON encoding the bytes are.
func payloadOf(x *Exec, t *Term) (types.Type, *Term) {
	m := x.find(t, func(y *Term) bool { return y.k == KCall && strings.HasPrefix(y.op, "encoding/json.Marshal") })
	if m == nil || len(m.args) == 0 {
		return nil, nil
	}
	v := m.args[0]
	for v.k == KIface {
		v = v.args[0]
	}
	if v.typ == nil {
		return nil, m
	}
	return pointee(v.typ), m
}

func respKind(t types.Type) string {
	n := typeName(t)
	switch {
	case strings.HasSuffix(n, "GeneralMessageResponse"):
		return "success"
	case strings.HasSuffix(n, "MessageErrorResponse"):
		return "error"
	}
	return ""
}

// answers: what is known about a request being answered.
type answers struct {
	p     *Prog
	r     *Report
	short string
	subs  int
	sends int
}

func (a *answers) begin(st *State) {
	for _, n := range []string{"pending", "answered", "exempt", "badreq", "subok", "subfail"} {
		st.unset(n)
	}
	for _, n := range []string{"sub", "fail", "dec", "asked"} {
		st.clear(n)
	}
}

func (a *answers) sent(x *Exec, st *State, ev *Event, kind string, what string) {
	a.sends++
	a.r.check(!st.flag("answered"), "once", a.short+": "+what, ev.instr.Pos(), st.path(14), "a second answer is sent to the same request")
	st.set("answered")
	und := len(st.all("sub")) > 0
	switch kind {
	case "success":
		a.r.check(st.flag("subok") && !st.flag("subfail") && !und, "truth", a.short+": success", ev.instr.Pos(), st.path(14), "success is reported although nothing is known to have succeeded")
	case "error":
		a.r.check(!st.flag("subok"), "truth", a.short+": failure", ev.instr.Pos(), st.path(14), "a failure is reported although the request succeeded")
	default:
		a.r.bad("truth", a.short+": "+what, ev.instr.Pos(), st.path(14), "the answer is neither a success nor a failure")
	}
}

// learn keeps what a branch told about the results of calls.
func (a *answers) learn(st *State) {
	for f, v := range st.facts {
		if !v || f.k != KBin || f.op != "==" {
			continue
		}
		for i := range f.args {
			k := f.args[i]
			if k.k == KConst && k.cst != nil && fieldOwner(unconv(f.args[1-i]), "ActionType") != nil {
				st.add(Atom{name: "asked", s: k.cst.ExactString()})
			}
		}
	}
	known := func(e *Term) (isNil, known bool) {
		return st.facts.eval(mkBin(token.EQL, e, cNil(nil), nil))
	}
	for _, x := range []struct{ atom, ok, bad string }{{"sub", "subok", "subfail"}, {"fail", "", "exempt"}, {"dec", "", "badreq"}} {
		for _, s := range st.all(x.atom) {
			n, k := known(s.a)
			if !k {
				continue
			}
			st.del(s)
			f := x.bad
			if n {
				f = x.ok
			}
			if f != "" {
				st.set(f)
			}
		}
	}
}

// common handles the events both kinds of request share.
func (a *answers) common(x *Exec, st *State, ev *Event) {
	switch ev.kind {
	case EvBranch:
		a.learn(st)
	case EvResult:
		e := errOf(ev.res)
		if e == nil {
			return
		}
		switch {
		case isSubscribe(ev.op) || isUnSubscribe(ev.op):
			a.subs++
			st.add(Atom{name: "sub", a: e})
			a.action(x, st, ev)
		case strings.HasPrefix(ev.op, "encoding/json.Marshal"), strings.HasSuffix(ev.op, ").SetWriteDeadline"):
			st.add(Atom{name: "fail", a: e})
		case strings.HasPrefix(ev.op, "encoding/json.Unmarshal"), strings.HasSuffix(ev.op, "encoding/json.Decoder).Decode"):
			st.add(Atom{name: "dec", a: e})
		}
		a.learn(st)
	}
}

// action: what is called is what the client asked for.
func (a *answers) action(x *Exec, st *State, ev *Event) {
	want := "Register"
	if isUnSubscribe(ev.op) {
		want = "Unregister"
	}
	c := a.p.constVal("pkg/neutrinod-types", want)
	if c == nil {
		a.r.anchorLost("neutrinodtypes." + want)
		return
	}
	ok := false
	for _, y := range st.all("asked") {
		ok = ok || y.s == c.ExactString()
	}
	a.r.check(ok, "action", a.short+": "+want, ev.instr.Pos(), st.path(14), "%s is called although the client is not known to have asked to %s", ev.op, strings.ToLower(want))
}

func (p *Prog) constVal(pkg, name string) constant.Value {
	q := p.pkg(pkg)
	if q == nil {
		return nil
	}
	c, ok := q.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil
	}
	return c.Value.Value
}

func ifaceExec(p *Prog) *Exec {
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inIface(f) }
	x.pure = func(op string) bool {
		return opIn(op, "github.com/sirupsen/logrus", "fmt.", "github.com/gorilla/websocket", "internal/core/application.", "runtime/debug.", "net/http.", "pkg/neutrinod-types.")
	}
	return x
}

func checkA01(p *Prog, r *Report) {
	r.rule("once", "each request is answered exactly once")
	r.rule("truth", "success is answered exactly if the request succeeded")
	r.rule("action", "a client is subscribed or unsubscribed only if that is what it asked for")
	r.rule("startup", "a failure to start, or of the running server, is reported")
	r.rule("daemon", "the daemon doesn't run on after a failure")
	hs, ws := p.httpRoots(), p.wsRoots()
	if len(hs) == 0 {
		r.anchorLost("the handler of HTTP subscription requests")
	}
	if len(ws) == 0 {
		r.anchorLost("the handler of web-socket requests")
	}
	for _, f := range hs {
		checkHTTP(p, r, f)
	}
	for _, f := range ws {
		checkWS(p, r, f)
	}
	checkStartup(p, r)
	checkDaemon(p, r)
	r.need("once", 4)
	r.need("truth", 4)
	r.need("action", 4)
	r.need("startup", 4)
	r.need("daemon", 3)
}

func checkHTTP(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	a := &answers{p: p, r: r, short: fname(fn)}
	w := func(t *Term) bool {
		t = stripIface(t)
		return t.k == KParam && namedIs(t.typ, "net/http.ResponseWriter")
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		a.common(x, st, ev)
		switch ev.kind {
		case EvCall:
			switch {
			case opIn(ev.op, "net/http.Error", "net/http.NotFound", "net/http.Redirect") && w(ev.args[0]):
				a.sent(x, st, ev, "error", ev.op)
				st.set("sent")
			case strings.HasSuffix(ev.op, "net/http.ResponseWriter).Write") && w(ev.args[0]):
				t, _ := payloadOf(x, ev.args[1])
				a.sent(x, st, ev, respKind(t), "answer")
			case strings.HasSuffix(ev.op, "encoding/json.Encoder).Encode") && x.reaches(ev.args[0], w):
				v := stripIface(ev.args[1])
				a.sent(x, st, ev, respKind(pointee(v.typ)), "answer")
			case opIn(ev.op, "io.WriteString", "fmt.Fprint", "io.Copy") && w(ev.args[0]):
				var t types.Type
				for _, y := range ev.args[1:] {
					if u, _ := payloadOf(x, y); u != nil {
						t = u
					}
				}
				a.sent(x, st, ev, respKind(t), "answer")
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			r.check(st.flag("answered") || st.flag("exempt"), "once", a.short+": end", ev.instr.Pos(), st.path(14), "the request is never answered")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, a.short, err)
	if a.subs < 2 || a.sends < 2 {
		r.anchorLost("the subscriptions made and the answers sent by " + a.short)
	}
}

func checkWS(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	a := &answers{p: p, r: r, short: fname(fn)}
	read := 0
	unanswered := func(st *State) bool { return st.flag("pending") && !st.flag("answered") && !st.flag("exempt") }
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind == EvResult && strings.HasSuffix(ev.op, "websocket.Conn).ReadMessage") {
			read++
			r.check(!unanswered(st), "once", a.short+": next", ev.instr.Pos(), st.path(20), "the next message is read although the last one was not answered")
			a.begin(st)
			st.clear("read")
			if e := errOf(ev.res); e != nil {
				st.add(Atom{name: "read", a: e})
			}
			return
		}
		a.common(x, st, ev)
		switch ev.kind {
		case EvBranch:
			for _, s := range st.all("read") {
				n, k := st.facts.eval(mkBin(token.EQL, s.a, cNil(nil), nil))
				if !k {
					continue
				}
				st.del(s)
				if n {
					st.set("pending")
				}
			}
		case EvCall:
			switch {
			case strings.HasSuffix(ev.op, "websocket.Conn).WriteMessage"):
				t, _ := payloadOf(x, ev.args[len(ev.args)-1])
				a.sent(x, st, ev, respKind(t), "answer")
			case strings.HasSuffix(ev.op, "websocket.Conn).WriteJSON"):
				a.sent(x, st, ev, respKind(pointee(stripIface(ev.args[1]).typ)), "answer")
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			r.check(!unanswered(st) || st.flag("badreq"), "once", a.short+": end", ev.instr.Pos(), st.path(14), "the connection is given up although its last message was not answered")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, a.short, err)
	if read == 0 || a.subs < 2 || a.sends < 2 {
		r.anchorLost("the messages read and answered by " + a.short)
	}
}

func isErrChan(t types.Type) bool {
	e := chanElem(t)
	return e != nil && isErrorType(e)
}

// checkStartup: the functions that start a server and return the channel of its errors.
func checkStartup(p *Prog, r *Report) {
	n := 0
	calls, _, gos := p.staticCallers()
	starts := func(fn *ssa.Function) bool {
		res := fn.Signature.Results()
		return inIface(fn) && fn.Parent() == nil && res.Len() == 1 && isErrChan(res.At(0).Type())
	}
	for _, fn := range p.Funcs {
		if !inIface(fn) {
			continue
		}
		if starts(fn) {
			part := false
			for _, c := range calls[fn] {
				part = part || starts(c.Parent())
			}
			if part {
				continue // seen in what it is part of
			}
			n++
			checkReported(p, r, fn, true)
		}
		if (fn.Parent() != nil && len(calls[fn]) == 0 || gos[fn]) && fn.Signature.Results().Len() == 0 && mentionsErrChan(fn) {
			checkReported(p, r, fn, false)
		}
	}
	if n == 0 {
		r.anchorLost("the function that starts the server")
	}
}

func mentionsErrChan(fn *ssa.Function) bool {
	for _, v := range fn.FreeVars {
		t := v.Type()
		if isErrChan(t) || isErrChan(pointee(t)) {
			return true
		}
	}
	for _, v := range fn.Params {
		if isErrChan(v.Type()) {
			return true
		}
	}
	return false
}

func checkReported(p *Prog, r *Report, fn *ssa.Function, root bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == rel(pkgPathOf(fn))
	}
	x.pure = func(op string) bool { return true }
	var chans []*Term
	x.on = func(x *Exec, st *State, ev *Event) {
		settle := func() {
			for _, a := range st.all("err") {
				if errNil(st.facts, a.a) || st.facts.isErr(a.a, "net/http.ErrServerClosed") && isServe(a.s) {
					st.del(a)
				}
			}
		}
		switch ev.kind {
		case EvResult:
			if stopsProgram(ev.op) {
				ev.prune = true
				return
			}
			e := errOf(ev.res)
			if e == nil || ev.res == nil || neverFails(ev.op) || makesError(ev.op) || ev.fn != nil && rel(pkgPathOf(ev.fn)) == rel(pkgPathOf(fn)) {
				return
			}
			if opIn(ev.op, "(context.", "context.") || strings.HasSuffix(ev.op, ".Err") {
				return
			}
			st.add(Atom{name: "err", a: e, s: ev.op})
			r.ok("startup", short+": "+ev.op+" called", ev.instr.Pos())
		case EvSend:
			if !isErrChan(ev.addr.typ) {
				return
			}
			chans = append(chans, ev.addr)
			ok := false
			for _, a := range st.all("err") {
				if isServe(a.s) && ev.val.has(func(y *Term) bool { return y == a.a }) {
					is, known := st.facts.knownErr(a.a, "net/http.ErrServerClosed")
					r.check(known && !is, "startup", short+": regular end", ev.instr.Pos(), st.path(14), "a regular shutdown of the server is reported as a failure")
				}
				if ev.val == a.a || x.reaches(ev.val, func(y *Term) bool { return y == a.a }) {
					ok = true
					st.del(a)
				}
			}
			if root {
				st.set("reported")
				b := rootOf(stripConv(ev.addr))
				mk := b.k == KMake && len(b.args) > 0 && st.facts.diff(cInt(1, nil), b.args[0]) <= 0
				r.check(mk, "startup", short+": room", ev.instr.Pos(), st.path(14), "an error is sent while nobody receives yet, on a channel without room for it (%s)", b)
			}
			_ = ok
		case EvGo:
			if root {
				settle()
				for _, a := range st.all("err") {
					r.bad("startup", short+": "+a.s, ev.instr.Pos(), st.path(14), "the server goes on although %s may have failed", a.s)
				}
				r.check(!st.flag("reported"), "startup", short+": on", ev.instr.Pos(), st.path(14), "the server goes on after it reported a failure to start")
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			settle()
			for _, a := range st.all("err") {
				r.bad("startup", short+": "+a.s, ev.instr.Pos(), st.path(14), "%s may have failed and nobody is told", a.s)
			}
			if root {
				for _, c := range chans {
					if st.flag("reported") {
						r.check(stripConv(c) == stripConv(ev.args[0]), "startup", short+": channel", ev.instr.Pos(), st.path(14), "errors are sent on another channel than the one returned")
					}
				}
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkDaemon: the main function of the daemon.
func checkDaemon(p *Prog, r *Report) {
	var fn *ssa.Function
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) == "cmd/neutrinod" && f.Name() == "main" && f.Parent() == nil {
			fn = f
		}
	}
	if fn == nil {
		r.anchorLost("the main function of the daemon")
		return
	}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "cmd/neutrinod"
	}
	x.pure = func(op string) bool { return true }
	got := 0
	recvs := map[ssa.Value]bool{}
	pending := func(st *State, ev *Event, what string) {
		for _, a := range st.all("err") {
			if errNil(st.facts, a.a) {
				st.del(a)
				continue
			}
			r.bad("daemon", "main: "+a.s, ev.instr.Pos(), st.path(14), "the daemon %s although %s may have failed", what, a.s)
		}
	}
	// learn keeps what is known about the received error while it is at hand.
	learn := func(st *State) {
		for _, fr := range st.frames {
			for v := range recvs {
				t := fr.env[v]
				if t == nil {
					continue
				}
				if t.k == KTuple {
					t = t.args[0]
				}
				if errNil(st.facts, t) {
					st.unset("undecided")
				}
			}
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			learn(st)
		case EvCall:
			if stopsProgram(ev.op) {
				ev.prune = true
				return
			}
			if ev.fn != nil && inModule(ev.fn) && rel(pkgPathOf(ev.fn)) != "cmd/neutrinod" {
				pending(st, ev, "goes on")
			}
		case EvResult:
			if e := errOf(ev.res); e != nil && !makesError(ev.op) && !(ev.fn != nil && rel(pkgPathOf(ev.fn)) == "cmd/neutrinod") {
				st.add(Atom{name: "err", a: e, s: ev.op})
				r.ok("daemon", "main: "+ev.op+" called", ev.instr.Pos())
			}
		case EvRecv:
			if isErrChan(ev.addr.typ) {
				got++
				st.set("waited")
				st.set("undecided")
				if v, ok := ev.instr.(ssa.Value); ok {
					recvs[v] = true
				}
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			learn(st)
			r.check(!st.flag("undecided"), "daemon", "main: server", ev.instr.Pos(), st.path(14), "the daemon ends normally although the server may have failed")
			pending(st, ev, "ends normally")
			r.check(st.flag("waited"), "daemon", "main: waits", ev.instr.Pos(), st.path(14), "the daemon ends without waiting for the server")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, "cmd/neutrinod.main", err)
	if got == 0 {
		r.anchorLost("where the daemon waits for its server")
	}
}

// isServe: runs an HTTP server.
func isServe(op string) bool {
	return strings.HasPrefix(op, "(*net/http.Server).") && strings.Contains(op[strings.LastIndex(op, ".")+1:], "Serve")
}
