package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A04", checkA04) }

func inDaemon(f *ssa.Function) bool {
	n := rel(pkgPathOf(f))
	return (strings.HasPrefix(n, "pkg/") || strings.HasPrefix(n, "internal/") || n == "cmd/neutrinod") && n != "pkg/testutil" && inModule(f)
}

// httpCall: makes an HTTP request; nil receiver for the functions of the package.
func httpCall(in ssa.Instruction) (recv ssa.Value, name string, ok bool) {
	c, isCall := in.(ssa.CallInstruction)
	if !isCall || c.Common().IsInvoke() {
		return nil, "", false
	}
	f := c.Common().StaticCallee()
	if f == nil || pkgPathOf(f) != "net/http" {
		return nil, "", false
	}
	switch f.Name() {
	case "Do", "Get", "Post", "PostForm", "Head":
	default:
		return nil, "", false
	}
	if f.Signature.Recv() == nil {
		return nil, f.Name(), true
	}
	if !namedIs(f.Signature.Recv().Type(), "net/http.Client") {
		return nil, "", false
	}
	return c.Common().Args[0], f.Name(), true
}

func positive(v ssa.Value) bool {
	c, ok := unconvV(v).(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) > 0
}

// sameLoc: the addresses are known to be those of the same variable (or field of a type).
func sameLoc(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type())
}

// limits decides whether clients have a time limit.
type limits struct {
	p    *Prog
	seen map[ssa.Value]bool
}

func (l *limits) instrs(f func(ssa.Instruction)) {
	for _, fn := range l.p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(in)
			}
		}
	}
}

// allFuncs: the functions of the module and the initialisers of its packages.
func (p *Prog) allFuncs() []*ssa.Function {
	res := append([]*ssa.Function{}, p.Funcs...)
	have := map[*ssa.Function]bool{}
	for _, f := range res {
		have[f] = true
	}
	for _, f := range p.Funcs {
		if f.Pkg != nil {
			if i := f.Pkg.Func("init"); i != nil && !have[i] {
				have[i] = true
				res = append(res, i)
			}
		}
	}
	return res
}

// located: the client at this address has a limit wherever it is set, and is set somewhere.
func (l *limits) located(addr ssa.Value) string {
	n := 0
	why := ""
	l.instrs(func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && sameLoc(fa.X, addr) {
			if s := structOf(pointee(fa.X.Type())); s != nil && s.Field(fa.Field).Name() == "Timeout" {
				n++
				if !positive(st.Val) {
					why = "its time limit is not a positive constant at " + l.p.pos(st.Pos())
				}
			}
		}
		if sameLoc(st.Addr, addr) {
			if u, ok := unconvV(st.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
				n++
				if w := l.located(u.X); w != "" {
					why = w
				}
			} else {
				why = "it is set to something unknown at " + l.p.pos(st.Pos())
			}
		}
	})
	if why == "" && n == 0 {
		why = "it has no time limit"
	}
	return why
}

// client: "" if the client has a time limit wherever it comes from.
func (l *limits) client(v ssa.Value) string {
	if l.seen[v] {
		return ""
	}
	l.seen[v] = true
	why := ""
	n := 0
	from := func(w string) {
		n++
		if w != "" {
			why = w
		}
	}
	origins(v, map[ssa.Value]bool{}, func(x ssa.Value) {
		switch y := x.(type) {
		case *ssa.Alloc:
			from(l.located(y))
		case *ssa.FieldAddr:
			from(l.located(y))
		case *ssa.Global:
			if y.Pkg != nil && strings.Contains(y.Pkg.Pkg.Path(), "neutrino-elements") {
				from(l.located(y))
			} else {
				from("it is " + y.String() + ", which has no time limit")
			}
		case *ssa.UnOp:
			if y.Op != token.MUL {
				from("it comes from something unknown")
				return
			}
			if g, ok := y.X.(*ssa.Global); ok && !strings.Contains(g.Pkg.Pkg.Path(), "neutrino-elements") {
				from("it is " + g.String() + ", which has no time limit")
				return
			}
			m := 0
			l.instrs(func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && sameLoc(st.Addr, y.X) {
					m++
					from(l.client(st.Val))
				}
			})
			if m == 0 {
				from("it is never set")
			}
		case *ssa.Parameter:
			m := 0
			l.instrs(func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				for _, g := range l.p.callees(in, true) {
					if g != y.Parent() {
						continue
					}
					as := c.Common().Args
					if c.Common().IsInvoke() {
						as = append([]ssa.Value{c.Common().Value}, as...)
					}
					for i, pr := range y.Parent().Params {
						if pr == y && i < len(as) {
							m++
							from(l.client(as[i]))
						}
					}
				}
			})
			if m == 0 {
				from("it is given by a caller outside the module")
			}
		default:
			from("it comes from something unknown (" + x.String() + ")")
		}
	})
	if n == 0 && why == "" {
		why = "it comes from something unknown"
	}
	return why
}

// byContext: the request is made with a context that has a time limit.
func byContext(c *ssa.CallCommon) bool {
	if len(c.Args) < 2 || !namedIs(c.Args[1].Type(), "net/http.Request") {
		return false
	}
	n, ok := 0, true
	origins(c.Args[1], map[ssa.Value]bool{}, func(x ssa.Value) {
		n++
		if e, is := x.(*ssa.Extract); is {
			x = e.Tuple
		}
		call, is := x.(*ssa.Call)
		if !is || call.Call.StaticCallee() == nil {
			ok = false
			return
		}
		var ctx ssa.Value
		switch call.Call.StaticCallee().Name() {
		case "NewRequestWithContext":
			ctx = call.Call.Args[0]
		case "WithContext":
			ctx = call.Call.Args[1]
		default:
			ok = false
			return
		}
		m := 0
		origins(ctx, map[ssa.Value]bool{}, func(y ssa.Value) {
			m++
			if e, is := y.(*ssa.Extract); is {
				y = e.Tuple
			}
			k, is := y.(*ssa.Call)
			if !is || k.Call.StaticCallee() == nil || pkgPathOf(k.Call.StaticCallee()) != "context" || k.Call.StaticCallee().Name() != "WithTimeout" || !positive(k.Call.Args[1]) {
				ok = false
			}
		})
		ok = ok && m > 0
	})
	return ok && n > 0
}

func checkA04(p *Prog, r *Report) {
	r.rule("http-limit", "every HTTP request is made by a client with a time limit, or under a context with one")
	r.rule("http-body", "the body of every HTTP response is closed on every path, once the request succeeded")
	r.rule("ws-deadline", "every write to a web-socket is preceded by setting its deadline")
	r.rule("ws-limit", "the size of messages is limited before any is read")
	r.rule("request-limit", "the body of a request is only read through a reader that limits its size")
	calls := p.reach(false, func(in ssa.Instruction) bool { _, _, ok := httpCall(in); return ok })
	for _, fn := range p.allFuncs() {
		if !inDaemon(fn) {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				recv, name, ok := httpCall(in)
				if !ok {
					continue
				}
				n++
				cons := fname(fn) + ": " + name
				if n > 1 {
					cons += " " + itoa(n)
				}
				if recv == nil {
					r.bad("http-limit", cons, in.Pos(), nil, "an HTTP request is made with the default client, which has no time limit")
					continue
				}
				if byContext(in.(ssa.CallInstruction).Common()) {
					r.ok("http-limit", cons, in.Pos())
					continue
				}
				l := &limits{p: p, seen: map[ssa.Value]bool{}}
				why := l.client(recv)
				r.check(why == "", "http-limit", cons, in.Pos(), nil, "an HTTP request is made with a client without a time limit: %s", why)
			}
		}
	}
	for _, f := range p.topInPkg(calls, inDaemon) {
		checkBody(p, r, f)
	}
	writes := p.reach(false, func(in ssa.Instruction) bool { return wsWrite(in) })
	for _, f := range p.topOf(writes, inIface) {
		checkDeadline(p, r, f)
	}
	for _, f := range p.wsRoots() {
		checkReadLimit(p, r, f)
	}
	for _, f := range p.Funcs {
		if ps := f.Signature.Params(); inIface(f) && ps.Len() == 2 && namedIs(ps.At(0).Type(), "net/http.ResponseWriter") && namedIs(ps.At(1).Type(), "*net/http.Request") {
			checkRequestBody(p, r, f)
		}
	}
	r.need("http-limit", 2)
	r.need("http-body", 2)
	r.need("ws-deadline", 1)
	r.need("ws-limit", 1)
	r.need("request-limit", 1)
}

// topInPkg: as topOf, for callers of the same package.
func (p *Prog) topInPkg(set map[*ssa.Function]bool, in func(*ssa.Function) bool) []*ssa.Function {
	called := map[*ssa.Function]bool{}
	for f := range set {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				for _, g := range p.callees(i, false) {
					if g != f && !inside(f, g) && pkgPathOf(g) == pkgPathOf(f) {
						called[g] = true
					}
				}
			}
		}
	}
	direct := p.reach(false, func(in ssa.Instruction) bool { _, _, ok := httpCall(in); return ok })
	var res []*ssa.Function
	for _, f := range p.Funcs {
		if !in(f) || !set[f] || called[f] || !direct[f] {
			continue
		}
		// of the package in which the request is made
		made := false
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			if seen[g] || pkgPathOf(g) != pkgPathOf(f) {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if _, _, ok := httpCall(i); ok {
						made = true
					}
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					for _, h := range p.callees(i, false) {
						rec(h)
					}
				}
			}
		}
		rec(f)
		if made {
			res = append(res, f)
		}
	}
	return res
}

func isHTTPResponse(t types.Type) bool { return namedIs(t, "*net/http.Response") }

func checkBody(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return pkgPathOf(f) == pkgPathOf(fn) }
	x.pure = func(op string) bool { return true }
	n := 0
	learn := func(st *State) {
		for _, a := range st.all("resp") {
			if k, known := st.facts.eval(mkBin(token.EQL, a.b, cNil(nil), nil)); known {
				st.del(a)
				if k {
					st.add(Atom{name: "open", a: a.a})
				}
			}
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if ev.res == nil || ev.fn == nil || pkgPathOf(ev.fn) != "net/http" {
				return
			}
			res := mkExtract(ev.res, 0, nil)
			if rt := ev.fn.Signature.Results(); rt.Len() == 2 && isHTTPResponse(rt.At(0).Type()) && errOf(ev.res) != nil {
				n++
				res = mkExtract(ev.res, 0, rt.At(0).Type())
				st.add(Atom{name: "resp", a: res, b: errOf(ev.res)})
				learn(st)
			}
		case EvBranch:
			learn(st)
		case EvCall:
			if strings.HasSuffix(ev.op, ".Close") && len(ev.args) > 0 {
				o := fieldOwner(stripIface(ev.args[0]), "Body")
				for _, a := range append(st.all("open"), st.all("resp")...) {
					if o == a.a {
						st.del(a)
					}
				}
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			learn(st)
			for _, a := range append(st.all("open"), st.all("resp")...) {
				for _, v := range ev.args {
					if v == a.a || fieldOwner(stripIface(v), "Body") == a.a {
						st.del(a)
					}
				}
			}
			r.check(len(st.all("open")) == 0 && len(st.all("resp")) == 0, "http-body", short, ev.instr.Pos(), st.path(14), "the body of the response is not closed")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if n == 0 {
		r.anchorLost("the HTTP response in " + short)
	}
}

func wsWrite(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || c.Common().IsInvoke() {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && isWsWrite(fname(f))
}

func isWsWrite(op string) bool {
	for _, n := range []string{"WriteMessage", "WriteJSON", "NextWriter", "WritePreparedMessage"} {
		if strings.HasSuffix(op, "gorilla/websocket.Conn)."+n) {
			return true
		}
	}
	return false
}

// later: the time is now plus a positive constant.
func later(t *Term) bool {
	t = unconv(t)
	if t.k != KCall || !strings.HasSuffix(t.op, "time.Time).Add") || len(t.args) < 2 {
		return false
	}
	now := t.args[0].find(func(y *Term) bool { return y.k == KCall && y.op == "time.Now" })
	d, ok := unconv(t.args[1]).isInt()
	return now != nil && ok && d > 0
}

func checkDeadline(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	x.pure = func(op string) bool { return true }
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvCall || len(ev.args) == 0 {
			return
		}
		c := stripIface(unconv(ev.args[0]))
		switch {
		case strings.HasSuffix(ev.op, "gorilla/websocket.Conn).SetWriteDeadline"):
			for _, a := range st.all("limit") {
				if a.a == c {
					st.del(a)
				}
			}
			if later(ev.args[1]) {
				st.add(Atom{name: "limit", a: c})
			}
		case isWsWrite(ev.op):
			ok := false
			for _, a := range st.all("limit") {
				if a.a == c {
					ok = true
					st.del(a)
				}
			}
			r.check(ok, "ws-deadline", short+": "+ev.op[strings.LastIndex(ev.op, ".")+1:], ev.instr.Pos(), st.path(14), "a web-socket is written to without a deadline of its own")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func checkReadLimit(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	x.pure = func(op string) bool { return true }
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvCall || len(ev.args) == 0 {
			return
		}
		c := stripIface(unconv(ev.args[0]))
		conn := func(name string) bool { return strings.HasSuffix(ev.op, "gorilla/websocket.Conn)."+name) }
		switch {
		case conn("SetReadLimit"):
			for _, a := range st.all("limit") {
				if a.a == c {
					st.del(a)
				}
			}
			if n, ok := unconv(ev.args[1]).isInt(); ok && n > 0 && n <= 1<<30 {
				st.add(Atom{name: "limit", a: c})
			}
		case conn("ReadMessage"), conn("ReadJSON"), conn("NextReader"):
			ok := false
			for _, a := range st.all("limit") {
				ok = ok || a.a == c
			}
			r.check(ok, "ws-limit", short+": "+ev.op[strings.LastIndex(ev.op, ".")+1:], ev.instr.Pos(), st.path(14), "a message is read although the size of messages is not limited")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func checkRequestBody(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	x.pure = func(op string) bool { return true }
	short := fname(fn)
	raw := func(t *Term) bool {
		o := fieldOwner(stripIface(unconv(t)), "Body")
		return o != nil && o.typ != nil && namedIs(o.typ, "net/http.Request")
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvCall || ev.inl {
			return
		}
		for i, a := range ev.args {
			if a == nil || !raw(a) {
				continue
			}
			ok := false
			switch {
			case strings.HasSuffix(ev.op, ".Close") && i == 0:
				continue
			case ev.op == "net/http.MaxBytesReader" && i == 1, ev.op == "io.LimitReader" && i == 0:
				n, known := unconv(ev.args[len(ev.args)-1]).isInt()
				ok = known && n > 0 && n <= 1<<30
			}
			r.check(ok, "request-limit", short+": "+ev.op, ev.instr.Pos(), st.path(14), "the body of a request is read without a limit on its size")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}
