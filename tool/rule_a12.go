package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A12", checkA12) }

// hasClose: a value of the type must be closed: it has a Close method and belongs to the
// system or to a library.
func hasClose(t types.Type) bool {
	if t == nil {
		return false
	}
	for _, n := range []string{"net.Conn", "*os.File", "*github.com/gorilla/websocket.Conn", "*database/sql.DB", "*github.com/jmoiron/sqlx.DB",
		"*database/sql.Rows", "*github.com/jmoiron/sqlx.Rows", "*net.TCPConn", "net.Listener", "*database/sql.Stmt", "*github.com/jmoiron/sqlx.Stmt", "*time.Ticker"} {
		if namedIs(t, n) {
			return true
		}
	}
	return false
}

// opens: the result of the call that has to be closed; -1 if none. Opening either fails,
// which its last result tells, or not, then the result is open.
func (p *Prog) opens(sig *types.Signature, in ssa.CallInstruction, opener map[*ssa.Function]bool) int {
	c := in.Common()
	g := c.StaticCallee()
	inMod := g != nil && inModule(g)
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		switch {
		case !inMod && hasClose(t):
			// accessors tell of what somebody else opened
			last := sig.Results().At(sig.Results().Len() - 1).Type()
			if namedIs(t, "*time.Ticker") || isErrorType(last) {
				return i
			}
		case inMod && opener[g] && (isPeerType(t) || hasClose(t)):
			return i
		}
	}
	return -1
}

// checkA12: whatever is opened is closed, or handed to what outlives the function.
func checkA12(p *Prog, r *Report) {
	r.rule("released", "what a function opened it closes, returns, keeps, or hands to a goroutine, on every path")
	r.rule("handed", "a goroutine that is handed a connection closes it, however it ends")
	opener := map[*ssa.Function]bool{}
	sites := func(f *ssa.Function) (n int, out []ssa.CallInstruction) {
		var rec func(*ssa.Function)
		rec = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if p.opens(c.Common().Signature(), c, opener) >= 0 {
						n++
						out = append(out, c)
					}
				}
			}
		}
		rec(f)
		return
	}
	own := func(f *ssa.Function) bool {
		return inModule(f) && !testOnly(f) && f.Synthetic == "" && len(f.Blocks) > 0
	}
	// functions that return what they opened open it for their callers
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if !own(f) || opener[f] {
				continue
			}
			res := f.Signature.Results()
			gives := false
			for i := 0; i < res.Len(); i++ {
				gives = gives || isPeerType(res.At(i).Type()) || hasClose(res.At(i).Type())
			}
			if n, _ := sites(f); n > 0 && gives {
				opener[f] = true
				again = true
			}
		}
	}
	for _, f := range p.Funcs {
		if !own(f) {
			continue
		}
		if n, _ := sites(f); n > 0 {
			p.checkReleased(r, f, opener, nil)
		}
	}
	// what is handed to a goroutine that serves one connection
	for _, f := range p.Funcs {
		if !own(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok || g.Common().IsInvoke() {
					continue
				}
				callee := g.Common().StaticCallee()
				if callee == nil || !own(callee) || len(callee.Params) != len(g.Common().Args) {
					continue
				}
				for i, a := range g.Common().Args {
					if hasClose(a.Type()) {
						p.checkReleased(r, callee, opener, callee.Params[i])
					}
				}
			}
		}
	}
	r.need("released", 3)
}

func (p *Prog) checkReleased(r *Report, fn *ssa.Function, opener map[*ssa.Function]bool, given *ssa.Parameter) {
	rule := "released"
	if given != nil {
		rule = "handed"
	}
	short := fname(fn)
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return inModule(f) && pkgPathOf(f) == pkgPathOf(fn)
	}
	x.pure = func(op string) bool {
		return !strings.Contains(op, "encoding/json") && !strings.Contains(op, ".Unmarshal")
	}
	learn := func(st *State) {
		for _, a := range st.all("open") {
			if a.b == nil {
				continue
			}
			if isNil, known := st.facts.eval(mkBin(token.EQL, a.b, cNil(nil), nil)); known {
				st.del(a)
				if isNil {
					st.add(Atom{name: "open", a: a.a, s: a.s})
				}
			}
		}
	}
	// gone: v, or something in v, is what was opened: it is now somebody else's
	gone := func(st *State, v *Term) {
		if v == nil || v.typ != nil && isErrorType(v.typ) {
			// an error made from it doesn't keep it
			return
		}
		for _, a := range st.all("open") {
			a := a
			if x.reaches(v, func(y *Term) bool {
				if y == a.a {
					return true
				}
				for _, h := range st.all("holds") {
					if h.a == y && h.b == a.a {
						return true
					}
				}
				return false
			}) {
				st.del(a)
			}
		}
	}
	// keep: the object now holds what was opened
	keep := func(st *State, obj, v *Term) {
		for _, a := range st.all("open") {
			if x.reaches(v, func(y *Term) bool { return y == a.a }) {
				st.add(Atom{name: "holds", a: obj, b: a.a})
			}
		}
		for _, h := range st.all("holds") {
			if h.a != obj && x.reaches(v, func(y *Term) bool { return y == h.a }) {
				st.add(Atom{name: "holds", a: obj, b: h.b})
			}
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStart:
			if given != nil {
				st.add(Atom{name: "open", a: st.frames[0].env[given], s: given.Name()})
			}
		case EvResult:
			in, ok := ev.instr.(ssa.CallInstruction)
			if !ok || ev.res == nil {
				return
			}
			sig := in.Common().Signature()
			i := p.opens(sig, in, opener)
			if i < 0 {
				return
			}
			res := ev.res
			if sig.Results().Len() > 1 {
				res = mkExtract(ev.res, i, sig.Results().At(i).Type())
			}
			a := Atom{name: "open", a: res, s: ev.op}
			if isErrorType(sig.Results().At(sig.Results().Len() - 1).Type()) {
				a.b = errOf(ev.res)
			}
			st.add(a)
			learn(st)
		case EvBranch:
			learn(st)
		case EvStore:
			if ev.addr == nil {
				return
			}
			if root := rootOf(ev.addr); root.k == KAlloc {
				keep(st, root, ev.val)
			} else {
				gone(st, ev.val)
			}
		case EvSend:
			gone(st, ev.val)
		case EvMapUpdate:
			gone(st, ev.val)
		case EvGo:
			for _, a := range ev.args {
				gone(st, a)
			}
		case EvCall:
			m := ev.op[strings.LastIndex(ev.op, ".")+1:]
			if (m == "Close" || m == "Stop") && len(ev.args) > 0 {
				gone(st, ev.args[0])
				return
			}
		case EvReturn:
			if len(st.frames) > 1 {
				return
			}
			learn(st)
			for _, v := range ev.args {
				gone(st, v)
			}
			for _, a := range st.all("open") {
				r.bad(rule, short+": "+a.s, ev.instr.Pos(), st.path(16), "%s is left open", a.a)
			}
			r.check(true, rule, short, ev.instr.Pos(), nil, "")
		}
	}
	r.ran(x, short, x.run(fn, rootOpt{}))
}
