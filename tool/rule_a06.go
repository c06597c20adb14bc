package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A06", checkA06) }

// byDesign: failures that the operation calling handles (in what it does next, other rules see
// to that): nothing is stored yet, or the entry asked for is unknown.
var byDesign = []string{
	"pkg/repository.ErrNoBlocksHeaders", "pkg/repository.ErrFilterNotFound", "pkg/repository.ErrBlockNotFound",
	"pkg/blockservice.ErrorBlockNotFound", "database/sql.ErrNoRows", "github.com/golang-migrate/migrate/v4.ErrNoChange",
	"io.EOF",
}

func checkA06(p *Prog, r *Report) {
	r.rule("reported", "an operation reports success only if every call it made that can fail is known to have succeeded, or the failure is one it handles by design")
	r.rule("unused", "the result of a call is used only when the call is known to have succeeded")
	for _, fn := range p.allFuncs() {
		fn := fn
		n := rel(pkgPathOf(fn))
		if len(fn.Blocks) == 0 || !(strings.HasPrefix(n, "pkg/") || strings.HasPrefix(n, "internal/") || strings.HasPrefix(n, "cmd/")) || n == "pkg/testutil" || !inModule(fn) || codecPkg(fn) {
			continue
		}
		ef := &errFlow{rule: "reported"}
		ef.skip = func(op string) bool {
			return opIn(op, "os.Stat", "os.Lstat") || strings.HasSuffix(op, "Tx).Rollback") || strings.HasSuffix(op, ").Close")
		}
		ef.frames = true
		ef.exempt = func(x *Exec, st *State, a Atom) bool {
			return st.facts.isErr(a.a, byDesign...) || cannotFail(a.b)
		}
		ef.loops = !servesPeer(fn)
		ef.extra = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if e := errOf(ev.res); e != nil && e != ev.res && !neverFails(ev.op) && !cannotFail(ev.res) {
					c, ok := ev.instr.(*ssa.Call)
					if !ok || rawRead(c.Common()) || ev.res.k != KCall {
						return
					}
					for _, a := range st.all("unchecked") {
						if a.b.site == ev.instr {
							st.del(a)
						}
					}
					st.add(Atom{name: "unchecked", a: e, b: ev.res, s: p.pos(ev.instr.Pos())})
					r.ok("unused", fname(ev.frame.fn)+": "+ev.op+" at its call", ev.instr.Pos())
				}
			case EvBranch:
				c, v := ev.addr, ev.val
				taken, _ := v.isBool()
				for c.k == KUn && c.op == "!" {
					c, taken = c.args[0], !taken
				}
				if taken && c.k == KBin && c.op == "==" {
					// the database refuses a second row with the same key: handled by design
					for i := range c.args {
						if o := c.args[1-i].find(func(t *Term) bool { return t.k == KOut && t.op == "errors.As" }); o != nil && isUniqueViolation(c.args[i]) {
							for _, a := range st.all("err") {
								if len(o.args) > 0 && stripIface(o.args[0]) == a.a {
									st.del(a)
								}
							}
						}
					}
				}
				for _, a := range st.all("unchecked") {
					if errNil(st.facts, a.a) || st.facts.isErr(a.a, byDesign...) {
						st.del(a)
					}
				}
			case EvCall:
				if stopsProgram(ev.op) {
					ev.prune = true
					return
				}
				if opIn(ev.op, "fmt.", "github.com/sirupsen/logrus") {
					return
				}
				for _, a := range ev.args {
					usedResult(p, r, st, ev, a)
				}
				if ev.call != nil && ev.call.recv != nil {
					usedResult(p, r, st, ev, ev.call.recv)
				}
			case EvTouch, EvLoad, EvSend, EvMapUpdate:
				usedResult(p, r, st, ev, ev.addr)
				if ev.kind != EvLoad {
					usedResult(p, r, st, ev, ev.val)
				}
			case EvStore:
				if rootOf(ev.addr).k != KAlloc {
					usedResult(p, r, st, ev, ev.val)
				}
				usedResult(p, r, st, ev, ev.addr)
			}
		}
		ef.run(p, r, fn)
	}
	r.need("reported", 60)
	r.need("unused", 20)
}

// isUniqueViolation: PostgreSQL's code (23505), as the driver names or numbers it.
func isUniqueViolation(t *Term) bool {
	t = unconv(stripIface(t))
	s, ok := t.isStr()
	return ok && (s == "23505" || s == "unique_violation")
}

// servesPeer: answers a peer item by item; failing to send one is no failure of the others.
func servesPeer(fn *ssa.Function) bool {
	for _, pa := range fn.Params {
		if isPeerType(pa.Type()) {
			return true
		}
	}
	return false
}

// cannotFail: JSON of values made of strings, numbers and booleans only.
func cannotFail(call *Term) bool {
	if call.k != KCall || call.op != "encoding/json.Marshal" || len(call.args) == 0 {
		return false
	}
	a := call.args[0]
	if a.k == KIface {
		a = a.args[0]
	}
	return a.typ != nil && plainData(a.typ, 0)
}

func plainData(t types.Type, d int) bool {
	if d > 6 || hasMethod(t, "MarshalJSON") || hasMethod(t, "MarshalText") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0
	case *types.Slice:
		return plainData(u.Elem(), d+1)
	case *types.Array:
		return plainData(u.Elem(), d+1)
	case *types.Pointer:
		return plainData(u.Elem(), d+1)
	case *types.Map:
		return plainData(u.Key(), d+1) && plainData(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && !plainData(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func usedResult(p *Prog, r *Report, st *State, ev *Event, t *Term) {
	if t == nil {
		return
	}
	t = stripIface(unconv(t))
	for t.k == KField || t.k == KIndex || t.k == KSlice || t.k == KFieldV || t.k == KIndexV || t.k == KLoad {
		t = t.args[0]
	}
	if t.k != KExtract || t.args[0].k != KCall {
		return
	}
	for _, a := range st.all("unchecked") {
		if a.b != t.args[0] || a.a == t {
			continue
		}
		r.check(errNil(st.facts, a.a) || st.facts.isErr(a.a, byDesign...), "unused", fname(ev.frame.fn)+": "+t.args[0].op, ev.instr.Pos(), st.path(12), "the result of %s is used although it may have failed", t.args[0].op)
	}
}
