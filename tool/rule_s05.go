package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S05", checkS05) }

func isCondCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && strings.HasPrefix(fname(f), "(*sync.Cond).")
}

func condClass(t *Term) string {
	if id := fieldValID(t); id != "" {
		return id
	}
	return lockClass(t)
}

func checkS05(p *Prog, r *Report) {
	r.rule("wait-checked", "cond.Wait runs with the lock of the condition held, after the stop signal and the watched state were both looked at since the lock was taken or the last wake-up")
	r.rule("recheck", "after a wake-up the stop signal and the watched state are looked at again before going on")
	r.rule("signal-growth", "whoever adds to the watched state does so with the lock held and signals the condition before returning")
	r.rule("signal-stop", "after the stop channel is closed the condition is signalled with its lock held")
	env := &lockEnv{p: p, cond: p.condLocks(r)}
	isWait := func(in ssa.Instruction) bool {
		return isCondCall(in) && strings.HasSuffix(fname(in.(ssa.CallInstruction).Common().StaticCallee()), ").Wait")
	}
	waits, waitsNow := p.reach(true, isWait), p.reach(false, isWait)
	// pass 1: the waiters
	stop := map[string]map[string]bool{}    // stop channel -> conditions
	watched := map[string]map[string]bool{} // field -> conditions
	nwait := 0
	owners := map[string]bool{}
	for k := range env.cond {
		owners[k[:strings.LastIndex(k, ".")]] = true
	}
	p.runAll(r, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		pp := rel(pkgPathOf(root))
		if !waits[root] || strings.HasPrefix(pp, "pkg/testutil") {
			return nil, rootOpt{}
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			if rel(pkgPathOf(fn)) != pp {
				return false
			}
			if waitsNow[fn] {
				return true
			}
			for _, fr := range st.frames {
				if waitsDirectly(fr.fn) {
					return true
				}
			}
			return false
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			cons := func(what string) string { return fname(ev.frame.fn) + ": " + what }
			if op, _, _ := env.lockOp(ev); op == opLock || op == opUnlock {
				st.clear("saw")
				st.clear("sawstop")
			}
			env.track(st, ev)
			see := func(name, s string) {
				if len(held(st)) > 0 {
					st.add(Atom{name: name, s: s})
				}
				if name == "saw" {
					// read, but not yet tested
					st.set("read")
					return
				}
				for _, a := range st.all("woken") {
					r.ok("recheck", cons("after Wait on "+a.s), ev.instr.Pos())
					st.del(a)
				}
			}
			switch ev.kind {
			case EvBranch:
				if !st.flag("read") {
					return
				}
				for _, a := range st.all("woken") {
					r.ok("recheck", cons("after Wait on "+a.s), ev.instr.Pos())
					st.del(a)
				}
			case EvSelect:
				for _, c := range ev.chans {
					k, _ := chanKey(st, c)
					see("sawstop", k)
				}
			case EvRecv:
				if !ev.isSel {
					k, _ := chanKey(st, ev.addr)
					see("sawstop", k)
				}
			case EvLoad:
				if ev.addr.k == KField && owners[typeName(ev.addr.args[0].typ)] {
					see("saw", fieldID(ev.addr))
				}
			case EvCall:
				if ev.op == "(*sync.Cond).Wait" {
					nwait++
					cc := condClass(ev.args[0])
					lf := env.cond[cc]
					hasLock := false
					for _, h := range held(st) {
						if strings.HasSuffix(lockClass(h.a), "."+lf) && baseOf(h.a) == baseOf(ev.args[0]) || lf == "" {
							hasLock = true
						}
					}
					r.check(hasLock, "wait-checked", cons("Wait on "+cc+": lock held"), ev.instr.Pos(), st.path(20), "waits without holding the lock of the condition")
					owner := cc[:strings.LastIndex(cc, ".")+1]
					var fields []string
					for _, a := range st.all("saw") {
						if strings.HasPrefix(a.s, owner) && a.s != cc && a.s != owner+lf {
							fields = append(fields, a.s)
						}
					}
					r.check(len(fields) > 0, "wait-checked", cons("Wait on "+cc+": state checked"), ev.instr.Pos(), st.path(20), "waits without having looked at the state it waits for since the lock was taken or the last wake-up")
					r.check(len(st.all("sawstop")) > 0, "wait-checked", cons("Wait on "+cc+": stop checked"), ev.instr.Pos(), st.path(20), "waits without having looked at the stop signal since the lock was taken or the last wake-up")
					for _, f := range fields {
						if watched[f] == nil {
							watched[f] = map[string]bool{}
						}
						watched[f][cc] = true
					}
					for _, a := range st.all("sawstop") {
						if stop[a.s] == nil {
							stop[a.s] = map[string]bool{}
						}
						stop[a.s][cc] = true
					}
					st.clear("saw")
					st.clear("sawstop")
					st.unset("read")
					st.add(Atom{name: "woken", s: cc})
				}
			case EvExit, EvReturn:
				for _, a := range st.all("woken") {
					// left the function that waited without looking again
					if !waitsDirectly(ev.frame.fn) {
						continue
					}
					r.bad("recheck", cons("after Wait on "+a.s), ev.instr.Pos(), st.path(30), "goes on after a wake-up without checking again what it waited for")
					st.del(a)
				}
			}
		}
		return x, rootOpt{}
	})
	if nwait == 0 {
		r.anchorLost("cond.Wait of a component that waits for work")
		return
	}
	// pass 2: those who change the state or stop
	for _, root := range p.roots() {
		pp := rel(pkgPathOf(root))
		if strings.HasPrefix(pp, "pkg/testutil") {
			continue
		}
		root := root
		touches := touchesFn(p, watched, stop)
		if !touches[root] {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return stdInline(st, fn) && rel(pkgPathOf(fn)) == pp
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			cons := func(what string) string { return fname(ev.frame.fn) + ": " + what }
			if op, _, _ := env.lockOp(ev); op == opUnlock {
				st.clear("signalled")
			}
			env.track(st, ev)
			holdsOf := func(cc string, base *Term) bool {
				for _, h := range held(st) {
					if h.s == "W" && lockClass(h.a) == cc[:strings.LastIndex(cc, ".")+1]+env.cond[cc] && (base == nil || baseOf(h.a) == base) {
						return true
					}
				}
				return false
			}
			switch ev.kind {
			case EvStore, EvMapUpdate:
				id := ""
				a := ev.addr
				if ev.kind == EvMapUpdate {
					id = fieldValID(a)
				} else if a.k == KField {
					id = fieldID(a)
				}
				ccs := watched[id]
				if ccs == nil || baseOf(a).k == KAlloc {
					return
				}
				grows := ev.kind == EvMapUpdate || growsFrom(x, ev.val, a)
				for _, cc := range sortedKeys(ccs) {
					r.check(holdsOf(cc, baseOf(a)), "signal-growth", cons("store to "+id+": lock held"), ev.instr.Pos(), st.path(20), "changes what the waiter waits for without holding the lock of the condition")
					if !grows {
						continue
					}
					if st.has(Atom{name: "signalled", s: cc}) {
						r.ok("signal-growth", cons("store to "+id+": signalled"), ev.instr.Pos())
						continue
					}
					st.add(Atom{name: "needsignal", s: cc + "|" + cons("store to "+id+": signalled")})
				}
			case EvCall:
				switch ev.op {
				case "(*sync.Cond).Signal", "(*sync.Cond).Broadcast":
					cc := condClass(ev.args[0])
					if len(held(st)) > 0 {
						st.add(Atom{name: "signalled", s: cc})
					}
					for _, a := range st.all("needsignal") {
						if strings.HasPrefix(a.s, cc+"|") {
							st.del(a)
							r.ok("signal-growth", a.s[len(cc)+1:], ev.instr.Pos())
						}
					}
					for _, a := range st.all("needwake") {
						if strings.HasPrefix(a.s, cc+"|") && holdsOf(cc, nil) {
							st.del(a)
							r.ok("signal-stop", a.s[len(cc)+1:], ev.instr.Pos())
						}
					}
				case "close":
					k, _ := chanKey(st, ev.args[0])
					for _, cc := range sortedKeys(stop[k]) {
						st.add(Atom{name: "needwake", s: cc + "|" + cons("close of "+k)})
					}
				}
			case EvReturn:
				for _, a := range st.all("needsignal") {
					i := strings.Index(a.s, "|")
					r.bad("signal-growth", a.s[i+1:], ev.instr.Pos(), st.path(30), "returns without signalling %s after adding to what the waiter waits for", a.s[:i])
				}
				for _, a := range st.all("needwake") {
					i := strings.Index(a.s, "|")
					r.bad("signal-stop", a.s[i+1:], ev.instr.Pos(), st.path(30), "returns without signalling %s, with its lock held, after closing the stop channel", a.s[:i])
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, fname(root), err)
	}
	r.need("wait-checked", 3)
	r.need("recheck", 1)
	r.need("signal-growth", 2)
	r.need("signal-stop", 1)
}

func waitsDirectly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if isCondCall(in) && strings.HasSuffix(fname(in.(ssa.CallInstruction).Common().StaticCallee()), ").Wait") {
				return true
			}
		}
	}
	return false
}

// touchesFn: functions that store to a watched field, signal, or close a stop channel.
func touchesFn(p *Prog, watched, stop map[string]map[string]bool) map[*ssa.Function]bool {
	return p.reach(false, func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Store:
			if fa, ok := i.Addr.(*ssa.FieldAddr); ok && watched[fieldName(fa)] != nil {
				return true
			}
		case *ssa.MapUpdate:
			return true
		case ssa.CallInstruction:
			if b, ok := i.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				return true
			}
		}
		return false
	})
}

// growsFrom: may the value stored to a collection field contain elements that the
// collection did not have?
func growsFrom(x *Exec, v, addr *Term) bool {
	if v.isNil() || v.k == KZero {
		return false
	}
	return x.reaches(v, func(t *Term) bool {
		switch t.k {
		case KParam, KFree:
			return t != baseOf(addr)
		case KAlloc:
			if t == baseOf(addr) {
				return false
			}
			_, arr := pointee(t.typ).Underlying().(*types.Array)
			return !arr
		case KCall, KRecv:
			return true
		}
		return false
	})
}
