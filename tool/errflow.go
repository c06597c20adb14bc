package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hasErrResult: the last result of the function is an error.
func hasErrResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// neverFails: writes to memory whose error result is documented to be nil.
func neverFails(op string) bool {
	return opIn(op, "bytes.Buffer).Write", "strings.Builder).Write", "hash.Hash).Write", "fmt.Print", "fmt.Fprint")
}

// makesError: the error is the product of the call, not a failure of it.
func makesError(op string) bool {
	return opIn(op, "fmt.Errorf", "errors.", "context.", "github.com/pkg/errors.")
}

type errFlow struct {
	rule   string
	exempt func(x *Exec, st *State, a Atom) bool // handled by design
	extra  func(x *Exec, st *State, ev *Event)
	sites  int
	skip   func(op string) bool
	frames bool // only calls made by functions that report errors count
	loops  bool // (with frames) going on with a loop counts as success
	inline func(fn *ssa.Function) bool
	pure   func(op string) bool
}

// success of a root: the error returned is, or may be, nil. Gives the facts in that case.
func successFacts(st *State, res []*Term) (Facts, bool) {
	if len(res) == 0 {
		return st.facts, true
	}
	e := res[len(res)-1]
	if e == nil || e.typ != nil && !isErrorType(e.typ) && !e.isNil() {
		if e != nil && e.k != KConst {
			// the result has a concrete error type or is no error
			if e.k == KIface {
				return st.facts, false
			}
		}
	}
	if e.isNil() {
		return st.facts, true
	}
	nilEq := mkBin(token.EQL, e, cNil(nil), nil)
	if v, ok := st.facts.eval(nilEq); ok {
		return st.facts, v
	}
	f := st.facts.clone()
	if !f.assume(nilEq, true) {
		return f, false
	}
	return f, true
}

func errNil(f Facts, e *Term) bool {
	v, ok := f.eval(mkBin(token.EQL, e, cNil(nil), nil))
	return ok && v
}

func (ef *errFlow) run(p *Prog, r *Report, fn *ssa.Function) {
	if ef.exempt == nil {
		ef.exempt = func(*Exec, *State, Atom) bool { return false }
	}
	x := newExec(p)
	x.pure = ef.pure
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		if rel(pkgPathOf(f)) != rel(pkgPathOf(fn)) {
			return false
		}
		if ef.inline != nil && ef.inline(f) {
			return true
		}
		return !hasErrResult(f) && smallHelper(f)
	}
	short := fname(fn)
	rets := hasErrResult(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			e := errOf(ev.res)
			if e == nil || neverFails(ev.op) || makesError(ev.op) || ef.skip != nil && ef.skip(ev.op) {
				break
			}
			if ef.frames && (!rets || !hasErrResult(ev.frame.fn)) {
				break
			}
			ef.sites++
			if _, isDefer := ev.instr.(*ssa.RunDefers); isDefer {
				break
			}
			if _, isDefer := ev.instr.(*ssa.Defer); isDefer {
				break
			}
			st.add(Atom{name: "err", a: e, b: ev.res, s: ev.op + " at " + itoa(p.Fset.Position(ev.instr.Pos()).Line)})
			r.ok(ef.rule, short+": "+ev.op+" at its call", ev.instr.Pos())
		case EvBack:
			if !rets {
				break
			}
			for _, a := range st.all("err") {
				if !inBody(ev, a, st) {
					continue
				}
				if ef.frames && !ef.loops {
					st.del(a)
					continue
				}
				if c, ok := a.b.site.(ssa.CallInstruction); ok && rawRead(c.Common()) {
					st.del(a) // reading on is no success
					continue
				}
				if errNil(st.facts, a.a) || ef.exempt(x, st, a) {
					st.del(a)
					continue
				}
				r.bad(ef.rule, short+": "+opOf(a), ev.instr.Pos(), st.path(25), "the loop goes on although %s may have failed", a.s)
				st.del(a)
			}
		case EvReturn:
			if !rets {
				break
			}
			f, ok := successFacts(st, ev.args)
			if !ok {
				break
			}
			for _, a := range st.all("err") {
				if errNil(f, a.a) {
					continue
				}
				old := st.facts
				st.facts = f
				ex := ef.exempt(x, st, a)
				st.facts = old
				if ex {
					continue
				}
				r.bad(ef.rule, short+": "+opOf(a), ev.instr.Pos(), st.path(25), "reports success although %s may have failed", a.s)
			}
		}
		if ef.extra != nil {
			ef.extra(x, st, ev)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func opOf(a Atom) string {
	if i := strings.Index(a.s, " at "); i >= 0 {
		return a.s[:i]
	}
	return a.s
}

// inBody: the call of the atom is inside the loop whose back edge is taken.
func inBody(ev *Event, a Atom, st *State) bool {
	t := a.a
	for t.k == KExtract {
		t = t.args[0]
	}
	if t.site == nil {
		return true
	}
	li := st.top().fn
	if t.site.Parent() != li {
		return true
	}
	loops := tlLoop(ev.frame.fn)
	body := loops.body[ev.frame.blk]
	return body == nil || body[t.site.Block()]
}

var theProg *Prog

func tlLoop(f *ssa.Function) *loopInfo { return theProg.loop(f) }

// isIface: the type is an interface type with the given method.
func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// sentinelName: the package variable a distinguished error is kept in.
func sentinelName(t *Term) string {
	t = stripIface(t)
	if t.k == KLoad && t.args[0].k == KGlobal {
		g := t.args[0].val.(*ssa.Global)
		return rel(g.Pkg.Pkg.Path()) + "." + g.Name()
	}
	return ""
}

// isErr: on this path the error is known to be one of the named sentinels.
func (f Facts) isErr(e *Term, names ...string) bool {
	for t, v := range f {
		if !v {
			continue
		}
		var a, b *Term
		if t.k == KBin && t.op == "==" {
			a, b = t.args[0], t.args[1]
		} else if t.k == KCall && t.op == "errors.Is" && len(t.args) >= 2 {
			a, b = stripIface(t.args[0]), stripIface(t.args[1])
		} else {
			continue
		}
		if b == e {
			a, b = b, a
		}
		if a != e {
			continue
		}
		n := sentinelName(b)
		for _, w := range names {
			if n == w {
				return true
			}
		}
	}
	return false
}
