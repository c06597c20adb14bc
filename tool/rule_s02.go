package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S02", checkS02) }

// blockingCall: external calls that wait for a timer or another goroutine
func blockingCall(op string) string {
	switch op {
	case "time.Sleep":
		return "sleeps"
	case "(*sync.WaitGroup).Wait":
		return "waits for other goroutines"
	case "(*golang.org/x/sync/errgroup.Group).Wait":
		return "waits for other goroutines"
	}
	return ""
}

// netCall: external calls that wait for a remote party
func netCall(op string) string {
	switch op {
	case "(io.Writer).Write", "(io.Reader).Read", "(io.ReadWriteCloser).Write", "(io.ReadWriteCloser).Read", "(net.Conn).Write", "(net.Conn).Read", "net.Dial",
		"io.ReadFull", "io.Copy", "io.CopyN", "(*net/http.Client).Post", "(*net/http.Client).Do", "(*net/http.Client).Get", "net/http.Post", "net/http.Get",
		"(*github.com/gorilla/websocket.Conn).WriteMessage", "(*github.com/gorilla/websocket.Conn).ReadMessage", "(*github.com/gorilla/websocket.Conn).WriteJSON", "(*github.com/gorilla/websocket.Conn).ReadJSON":
		return "waits for a remote party"
	}
	return ""
}

func checkS02(p *Prog, r *Report) {
	r.rule("release", "every lock acquired is released on every path out of the operation")
	r.rule("relock", "no lock is acquired while the same lock is already held on the path")
	r.rule("unlock-unheld", "no lock is released that the path does not hold in that mode")
	r.rule("no-wait", "no blocking channel operation, sleep, join or wait on a remote party happens while a lock is held (a condition variable's Wait may hold its own lock, a write lock of a connection may be held while writing to it)")
	r.rule("order", "locks of different kinds are acquired in one global order")
	env := &lockEnv{p: p, cond: p.condLocks(r)}
	type edge struct{ a, b string }
	edges := map[edge]string{}
	locks := 0
	for _, root := range p.roots() {
		if !mayLock(p, root) {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		x.resolve = func(x *Exec, st *State, c *callRec) []*ssa.Function {
			if len(held(st)) == 0 {
				return nil
			}
			return resolveAll(x, st, c)
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			cons := func(what string) string { return fname(ev.frame.fn) + ": " + what }
			op, l, m := env.lockOp(ev)
			switch op {
			case opLock:
				locks++
				c := lockClass(l)
				bad := false
				for _, h := range held(st) {
					if h.a == l {
						bad = true
						r.bad("relock", cons("lock "+c), ev.instr.Pos(), st.path(30), "the lock %s is acquired again while it is held (entered from %s)", l, fname(root))
					} else {
						edges[edge{lockClass(h.a), c}] = fname(ev.frame.fn) + " " + p.pos(ev.instr.Pos())
					}
				}
				if !bad {
					r.ok("relock", cons("lock "+c), ev.instr.Pos())
				}
				st.add(Atom{name: "lock", a: l, s: m})
				st.note("%s: lock %s", p.pos(ev.instr.Pos()), l)
				return
			case opUnlock:
				a := Atom{name: "lock", a: l, s: m}
				pos := ev.instr.Pos()
				r.check(st.has(a), "unlock-unheld", cons("unlock "+lockClass(l)), pos, st.path(30), "the lock %s is released but not held in this mode on this path (entered from %s)", l, fname(root))
				st.del(a)
				st.note("%s: unlock %s", p.pos(pos), l)
				return
			case opTry:
				return
			case opWait:
				c := ev.args[0]
				own := ""
				if c.k == KLoad && c.args[0].k == KField {
					own = env.cond[fieldID(c.args[0])]
				}
				okW := false
				for _, h := range held(st) {
					cl := lockClass(h.a)
					isOwn := own != "" && strings.HasSuffix(cl, "."+own)
					if isOwn {
						okW = true
					} else {
						r.bad("no-wait", cons("cond wait"), ev.instr.Pos(), st.path(30), "waits on a condition variable while holding %s, which Wait does not release", h.a)
					}
				}
				r.check(okW, "no-wait", cons("cond wait"), ev.instr.Pos(), st.path(30), "Wait is called without holding the condition variable's own lock")
				return
			}
			env.track(st, ev)
			wait := func(what string) {
				hs := held(st)
				key := cons(what)
				for _, h := range hs {
					r.bad("no-wait", key+" holding "+lockClass(h.a), ev.instr.Pos(), st.path(30), "%s while %s is held (entered from %s)", what, h.a, fname(root))
				}
				if len(hs) == 0 {
					r.ok("no-wait", key, ev.instr.Pos())
				}
			}
			switch ev.kind {
			case EvSend:
				if !ev.isSel {
					wait("send on " + chanClass(st, ev.addr))
				}
			case EvRecv:
				if !ev.isSel {
					wait("receive from " + chanClass(st, ev.addr))
				}
			case EvSelect:
				if ev.block {
					var cs []string
					for _, c := range ev.chans {
						cs = append(cs, chanClass(st, c))
					}
					sort.Strings(cs)
					wait("select on " + strings.Join(cs, ", "))
				}
			case EvCall:
				if ev.inl {
					return
				}
				if w := blockingCall(ev.op); w != "" {
					wait(w + " (" + ev.op + ")")
				}
				if w := netCall(ev.op); w != "" {
					for _, h := range held(st) {
						if !connLock(p, h.a) {
							r.bad("no-wait", cons(w+" ("+ev.op+") holding "+lockClass(h.a)), ev.instr.Pos(), st.path(30), "%s while %s is held", w, h.a)
						}
					}
					r.ok("no-wait", cons(w+" ("+ev.op+")"), ev.instr.Pos())
				}
			case EvReturn:
				hs := held(st)
				for _, h := range hs {
					r.bad("release", fname(root)+": "+lockClass(h.a), ev.instr.Pos(), st.path(40), "returns while still holding %s", h.a)
				}
				if len(hs) == 0 {
					r.ok("release", fname(root)+": every return", ev.instr.Pos())
				}
			case EvPanic:
				// deferred releases run; others do not
				for _, h := range held(st) {
					okD := false
					for _, f := range st.frames {
						for _, d := range f.defers {
							if strings.HasSuffix(d.call.op(), "nlock") {
								okD = true
							}
						}
					}
					if !okD {
						r.bad("release", fname(root)+": "+lockClass(h.a)+" (panic)", ev.instr.Pos(), st.path(40), "panics while holding %s without a deferred release", h.a)
					}
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, fname(root), err)
	}
	// cycles in the order
	adj := map[string]map[string]bool{}
	for e := range edges {
		if adj[e.a] == nil {
			adj[e.a] = map[string]bool{}
		}
		adj[e.a][e.b] = true
	}
	for e, where := range edges {
		// is there a way back?
		seen := map[string]bool{}
		st := []string{e.b}
		back := false
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			if n == e.a {
				back = true
				break
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			for k := range adj[n] {
				st = append(st, k)
			}
		}
		r.check(!back, "order", e.a+" before "+e.b, 0, []string{where}, "the locks %s and %s are acquired in both orders", e.a, e.b)
	}
	r.need("relock", 12)
	r.need("release", 10)
	r.need("no-wait", 10)
}

// connLock: a lock kept in the same object as a connection serialises its use.
func connLock(p *Prog, l *Term) bool {
	f := l
	if f.k == KLoad {
		f = f.args[0]
	}
	if f.k != KField {
		return false
	}
	s := structOf(pointee(f.args[0].typ))
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n := shortType(s.Field(i).Type())
		if n == "*websocket.Conn" {
			return true
		}
	}
	return false
}

// chanClass names a channel by the field it is stored in, if any.
func chanClass(st *State, t *Term) string {
	t = t.strip()
	if id := fieldValID(t); id != "" {
		return id
	}
	for k, v := range st.mem {
		if v == t && k.k == KField {
			return fieldID(k)
		}
	}
	switch t.k {
	case KParam, KFree:
		return "parameter " + t.val.Name()
	case KLoad:
		if t.args[0].k == KFree || t.args[0].k == KAlloc {
			return "variable of type " + shortType(t.typ)
		}
	case KCall:
		return "result of " + t.op
	}
	return shortType(t.typ)
}

// mayLock: does the function or anything it calls or starts touch a lock, channel or wait?
func mayLock(p *Prog, f *ssa.Function) bool {
	return true
}
