package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks held along a path, shared by several rules ----

// condLocks: which lock field guards a condition variable field, from the constructors.
// Keys and values are field ids ("pkg.Type.field").
func (p *Prog) condLocks(r *Report) map[string]string {
	m := map[string]string{}
	for _, f := range p.Funcs {
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && fname(s) == "sync.NewCond" {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			for k, v := range st.mem {
				if k.k != KField || v.k != KCall || v.op != "sync.NewCond" || len(v.args) == 0 {
					continue
				}
				l := lockTerm(v.args[0])
				for k2, v2 := range st.mem {
					if k2.k == KField && k2.args[0] == k.args[0] && k2 != k && lockTerm(v2) == l {
						m[fieldID(k)] = k2.fld.Name()
					}
				}
				if l.k == KField && l.args[0] == k.args[0] {
					m[fieldID(k)] = l.fld.Name()
				}
			}
		}
		err := x.run(f, rootOpt{})
		if r != nil {
			r.ran(x, fname(f), err)
		}
	}
	return m
}

func lockTerm(t *Term) *Term {
	for t.k == KConv || t.k == KIface {
		t = t.args[0]
	}
	return t
}

type lockEnv struct {
	p    *Prog
	cond map[string]string
}

// canon names the lock a term refers to; the lock of a condition variable is the field it
// was made from.
func (e *lockEnv) canon(t *Term) *Term {
	t = lockTerm(t)
	if t.k == KLoad && t.args[0].k == KField && fieldID(t.args[0]) == "sync.Cond.L" {
		c := t.args[0].args[0]
		if c.k == KLoad && c.args[0].k == KField {
			if lf := e.cond[fieldID(c.args[0])]; lf != "" {
				base := c.args[0].args[0]
				if s := structOf(pointee(base.typ)); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == lf {
							a := fieldAddr(base, s.Field(i))
							if isSyncType(s.Field(i).Type()) && !types.IsInterface(s.Field(i).Type()) {
								if _, ptr := s.Field(i).Type().Underlying().(*types.Pointer); !ptr {
									return a
								}
							}
							return tt.mk(Term{k: KLoad, args: []*Term{a}, typ: s.Field(i).Type()})
						}
					}
				}
			}
		}
	}
	return t
}

// lockClass is the field (or variable) a lock is stored in, whatever the object.
func lockClass(t *Term) string {
	switch t.k {
	case KField:
		return fieldID(t)
	case KLoad:
		if t.args[0].k == KField {
			return fieldID(t.args[0])
		}
		if t.args[0].k == KGlobal {
			return t.args[0].val.Name()
		}
	case KGlobal:
		return t.val.Name()
	case KAlloc, KMake:
		return "local " + shortType(t.typ)
	}
	return t.String()
}

const (
	opLock = iota + 1
	opUnlock
	opWait
	opTry
)

// lockOp classifies an event as an operation on a lock.
func (e *lockEnv) lockOp(ev *Event) (op int, lock *Term, mode string) {
	if ev.kind != EvCall || len(ev.args) == 0 {
		return 0, nil, ""
	}
	o := ev.op
	arg := ev.args[0]
	if a := lockTerm(arg); a.k == KCall && a.op == "(*sync.RWMutex).RLocker" {
		if strings.HasSuffix(o, ".Lock") {
			return opLock, e.canon(a.args[0]), "R"
		}
		if strings.HasSuffix(o, ".Unlock") {
			return opUnlock, e.canon(a.args[0]), "R"
		}
	}
	switch o {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return opLock, e.canon(arg), "W"
	case "(*sync.RWMutex).RLock":
		return opLock, e.canon(arg), "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return opUnlock, e.canon(arg), "W"
	case "(*sync.RWMutex).RUnlock":
		return opUnlock, e.canon(arg), "R"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return opTry, e.canon(arg), "W"
	case "(*sync.RWMutex).TryRLock":
		return opTry, e.canon(arg), "R"
	case "(*sync.Cond).Wait":
		return opWait, arg, ""
	}
	return 0, nil, ""
}

// track keeps the "lock" atoms of a state up to date (no reports).
func (e *lockEnv) track(st *State, ev *Event) {
	if ev.kind == EvBranch && ev.addr.k == KCall && strings.Contains(ev.addr.op, ".Try") {
		if v, _ := ev.val.isBool(); v && len(ev.addr.args) > 0 {
			m := "W"
			if strings.HasSuffix(ev.addr.op, "TryRLock") {
				m = "R"
			}
			st.add(Atom{name: "lock", a: e.canon(ev.addr.args[0]), s: m})
		}
		return
	}
	op, l, m := e.lockOp(ev)
	switch op {
	case opLock:
		st.add(Atom{name: "lock", a: l, s: m})
	case opUnlock:
		st.del(Atom{name: "lock", a: l, s: m})
	}
}

func held(st *State) []Atom { return st.all("lock") }

func holds(st *State, l *Term, write bool) bool {
	if st.has(Atom{name: "lock", a: l, s: "W"}) {
		return true
	}
	return !write && st.has(Atom{name: "lock", a: l, s: "R"})
}

// relLock names a held lock relative to the object it guards.
func relLock(l, base *Term) string {
	var f func(t *Term) string
	f = func(t *Term) string {
		if t == base {
			return "#"
		}
		switch t.k {
		case KField:
			return f(t.args[0]) + "." + t.fld.Name()
		case KLoad:
			return "*" + f(t.args[0])
		case KGlobal:
			return "global " + t.val.Name()
		}
		return "?" + t.String()
	}
	return f(l)
}
