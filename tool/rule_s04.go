package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S04", checkS04) }

// chanKey identifies a channel across paths: the field it is kept in, or the place that made it.
func chanKey(st *State, t *Term) (key string, local bool) {
	t = t.strip()
	for k, v := range st.mem {
		if v == t && k.k == KField && k.args[0].k != KAlloc {
			return fieldID(k), false
		}
	}
	if t.k == KMake && t.site != nil {
		return "make:" + fname(t.site.Parent()) + ":" + shortType(t.typ) + "#" + itoa(int(t.site.Pos())), true
	}
	return chanClass(st, t), false
}

type closeRec struct {
	key     string
	local   bool
	root    *ssa.Function
	inLoop  bool
	starter ssa.Instruction
	guard   string
	tokens  []string
	instr   ssa.Instruction
	cons    string
	path    []string
}

type sendRec struct {
	key     string
	root    *ssa.Function
	g       *goRun
	tokens  []string
	started map[string]bool
	instr   ssa.Instruction
	cons    string
	path    []string
}

func tokenOf(st *State, t *Term) string {
	t = t.strip()
	if _, ok := t.typ.Underlying().(*types.Chan); ok {
		k, _ := chanKey(st, t)
		return "ch:" + k
	}
	if id := fieldValID(t); id != "" {
		return "wg:" + id
	}
	return "wg:" + lockClass(t)
}

func baseOf(t *Term) *Term {
	t = t.strip()
	for {
		switch t.k {
		case KLoad, KFieldV, KIndexV, KField, KIndex, KSlice:
			t = t.args[0].strip()
			continue
		}
		return t
	}
}

func checkS04(p *Prog, r *Report) {
	r.rule("close-once", "a channel is closed under a sync.Once of its owner, after testing and flipping a flag of its owner under a lock, or (a local channel) at one place that runs once")
	r.rule("flag-reset", "the flag that guards a close is set back only together with replacing the channel")
	r.rule("no-growth", "channels are added to a collection that is closed as a whole only while the flag of its owner was seen unset under the lock")
	r.rule("no-use-after-close", "no path sends on a channel, closes it again or hands it to senders after closing it")
	r.rule("join-senders", "a channel that other goroutines send on is closed only after waiting for something each of them signals, by defer, after its last send")
	env := &lockEnv{p: p, cond: p.condLocks(nil)}
	var closes []closeRec
	var sends []sendRec
	type reset struct {
		fresh map[string]bool
		pos   token.Pos
		path  []string
		root  string
	}
	resets := map[string][]reset{}
	growth := map[string][]struct {
		tested map[string]bool
		instr  ssa.Instruction
		cons   string
		path   []string
	}{}
	collections := map[string]string{} // collection field -> guard
	// only the channels that are closed somewhere matter
	elems := map[string]bool{}
	isClose := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "close"
	}
	elemOf := func(t types.Type) string {
		if c, ok := t.Underlying().(*types.Chan); ok {
			return c.Elem().String()
		}
		return ""
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if isClose(in) {
			elems[elemOf(in.(ssa.CallInstruction).Common().Args[0].Type())] = true
		}
	})
	isSend := func(in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Send:
			return elems[elemOf(i.Chan.Type())]
		case *ssa.Select:
			for _, s := range i.States {
				if s.Dir == types.SendOnly && elems[elemOf(s.Chan.Type())] {
					return true
				}
			}
		}
		return false
	}
	relWith := p.reach(true, func(in ssa.Instruction) bool { return isClose(in) || isSend(in) })
	closesIn := p.reach(false, isClose)
	closesGo := p.reach(true, isClose)
	growsIn := p.reach(false, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		sl, ok := st.Val.Type().Underlying().(*types.Slice)
		return ok && chanInside(sl.Elem())
	})
	p.runAll(r, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		pp := rel(pkgPathOf(root))
		if strings.HasPrefix(pp, "pkg/testutil") || !relWith[root] && !growsIn[root] {
			return nil, rootOpt{}
		}
		closer := closesIn[root] || growsIn[root]
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(fn)) == pp && (relWith[fn] || closer && smallHelper(fn))
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			cons := func(what string) string { return fname(ev.frame.fn) + ": " + what }
			// the end of a critical section ends the validity of tests that were not followed by a flip
			if op, l, _ := env.lockOp(ev); op == opUnlock || op == opWait {
				for _, a := range st.all("tested") {
					if op == opWait || a.b == l {
						st.del(a)
					}
				}
				for _, a := range st.all("needflip") {
					if a.b == l {
						r.bad("close-once", cons("close guarded by "+fieldID(a.a)), ev.instr.Pos(), st.path(30), "the lock is released without changing %s after closing the channel", fieldID(a.a))
						st.del(a)
					}
				}
				for _, a := range st.all("seltest") {
					if a.b == l {
						st.del(a)
					}
				}
			}
			env.track(st, ev)
			switch ev.kind {
			case EvBranch:
				t := ev.addr
				neg := false
				for t.k == KUn && t.op == "!" {
					t, neg = t.args[0], !neg
				}
				v, isB := ev.val.isBool()
				if !isB {
					return
				}
				if neg {
					v = !v
				}
				var addr *Term
				val := ""
				if id := fieldValID(t); id != "" && isBoolType(t.typ) {
					addr, val = t.args[0], boolStr(v)
				} else if t.k == KBin && t.op == "==" {
					for i, a := range t.args {
						o := t.args[1-i]
						if fieldValID(a) != "" && o.isNil() {
							addr = a.args[0]
							val = "nonnil"
							if v {
								val = "nil"
							}
						} else if bv, ok := o.isBool(); ok && fieldValID(a) != "" {
							addr, val = a.args[0], boolStr(bv == v)
						}
					}
				}
				if addr == nil || addr.k != KField || !closer {
					return
				}
				for _, h := range held(st) {
					if baseOf(h.a) == baseOf(addr) {
						st.add(Atom{name: "tested", a: addr, b: h.a, s: val + "/" + h.s})
					}
				}
			case EvSelect:
				if !ev.block {
					for _, c := range ev.chans {
						for _, h := range held(st) {
							if h.s == "W" {
								st.add(Atom{name: "seltest", a: c.strip(), b: h.a})
							}
						}
					}
				}
			case EvStore:
				if ev.addr.k != KField || !closer {
					return
				}
				id := fieldID(ev.addr)
				if b, ok := ev.val.isBool(); ok || ev.val.isNil() {
					val := boolStr(b)
					if !ok {
						val = "nil"
					}
					for _, a := range st.all("tested") {
						if a.a == ev.addr && strings.HasSuffix(a.s, "/W") && !strings.HasPrefix(a.s, val+"/") {
							st.add(Atom{name: "flipped", a: ev.addr, s: strings.TrimSuffix(a.s, "/W")})
						}
					}
					for _, a := range st.all("needflip") {
						if a.a == ev.addr {
							st.del(a)
						}
					}
				}
				if c := st.all("closed"); len(c) > 0 {
					for _, a := range c {
						if ev.val.contains(a.a) && baseOf(ev.addr).k != KAlloc {
							r.bad("no-use-after-close", cons("store to "+id), ev.instr.Pos(), st.path(30), "a closed channel is stored where senders find it")
						}
					}
				}
				if sl, ok := ev.val.typ.Underlying().(*types.Slice); ok && baseOf(ev.addr).k != KAlloc && chanInside(sl.Elem()) {
					ts := map[string]bool{}
					for _, a := range st.all("tested") {
						if baseOf(a.a) == baseOf(ev.addr) {
							ts[fieldID(a.a)+"="+a.s[:strings.Index(a.s, "/")]] = true
						}
					}
					growth[id] = append(growth[id], struct {
						tested map[string]bool
						instr  ssa.Instruction
						cons   string
						path   []string
					}{ts, ev.instr, cons("store to " + id), st.path(30)})
				}
			case EvRecv:
				if closesIn[root] {
					st.add(Atom{name: "waited", s: tokenOf(st, ev.addr)})
				}
			case EvDefer:
				switch ev.op {
				case "(*sync.WaitGroup).Done", "close":
					st.add(Atom{name: "will", s: tokenOf(st, ev.args[0])})
				}
			case EvGo:
				t := ev.call.target()
				if t != nil && closesGo[t] {
					st.add(Atom{name: "started", s: fname(t)})
				}
			case EvSend:
				key, _ := chanKey(st, ev.addr)
				for _, a := range st.all("closed") {
					if a.a == ev.addr.strip() {
						r.bad("no-use-after-close", cons("send on "+chanClass(st, ev.addr)), ev.instr.Pos(), st.path(30), "sends on a channel that this path closed before")
					}
				}
				s := sendRec{key: key, root: root, g: g, started: map[string]bool{}, instr: ev.instr, cons: cons("send on " + chanClass(st, ev.addr)), path: st.path(20)}
				for _, a := range st.all("will") {
					s.tokens = append(s.tokens, a.s)
				}
				for _, a := range st.all("started") {
					s.started[a.s] = true
				}
				sends = append(sends, s)
			case EvCall:
				switch ev.op {
				case "(*sync.WaitGroup).Wait":
					st.add(Atom{name: "waited", s: tokenOf(st, ev.args[0])})
				case "(*sync.WaitGroup).Add":
					st.add(Atom{name: "added", s: tokenOf(st, ev.args[0]), a: nil})
				case "close":
					ch := ev.args[0].strip()
					key, local := chanKey(st, ch)
					c := closeRec{key: key, local: local, root: root, instr: ev.instr, cons: cons("close of " + chanClass(st, ch)), path: st.path(30)}
					if g != nil {
						c.inLoop = g.inLoop
						c.starter = g.site
					}
					for _, a := range st.all("waited") {
						c.tokens = append(c.tokens, a.s)
					}
					for _, a := range st.all("closed") {
						if a.a == ch {
							r.bad("no-use-after-close", c.cons, ev.instr.Pos(), st.path(30), "closes a channel that this path closed before")
						}
					}
					owner := baseOf(ch)
					{
						for _, a := range st.all("flipped") {
							if baseOf(a.a) == owner {
								c.guard = "flag " + fieldID(a.a) + "=" + a.s
							}
						}
					}
					if c.guard == "" {
						for _, a := range st.all("tested") {
							if baseOf(a.a) == owner && strings.HasSuffix(a.s, "/W") && !local {
								c.guard = "flag " + fieldID(a.a) + "=" + strings.TrimSuffix(a.s, "/W")
								st.add(Atom{name: "needflip", a: a.a, b: a.b})
								break
							}
						}
					}
					if c.guard == "" {
						for _, a := range st.all("once") {
							if baseOf(a.a) == owner {
								c.guard = "once " + lockClass(a.a.strip())
							}
						}
					}
					if c.guard == "" {
						for _, a := range st.all("seltest") {
							if a.a == ch {
								c.guard = "select"
							}
						}
					}
					if !local {
						if fl := fieldValID(ch); fl != "" {
							// an element of a collection kept by the owner?
							if cl := collectionOf(ch); cl != "" {
								collections[cl] = c.guard
							}
						}
					}
					st.add(Atom{name: "closed", a: ch})
					closes = append(closes, c)
				}
			case EvReturn:
				for _, a := range st.all("needflip") {
					r.bad("close-once", cons("close guarded by "+fieldID(a.a)), ev.instr.Pos(), st.path(30), "the flag is not changed after closing the channel")
				}
			}
		}
		return x, rootOpt{}
	})
	// where the guarding flags are set back
	flags := map[string]bool{}
	for _, c := range closes {
		if strings.HasPrefix(c.guard, "flag ") {
			f := strings.TrimPrefix(c.guard, "flag ")
			flags[f[:strings.LastIndex(f, "=")]] = true
		}
	}
	setsFlag := p.reach(false, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && flags[fieldName(fa)]
	})
	for _, root := range p.roots() {
		if !setsFlag[root] {
			continue
		}
		root := root
		x := newExec(p)
		pp := rel(pkgPathOf(root))
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(fn)) == pp && (setsFlag[fn] || smallHelper(fn))
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvStore:
				if ev.addr.k != KField || baseOf(ev.addr).k == KAlloc {
					return
				}
				id := fieldID(ev.addr)
				if flags[id] {
					if b, ok := ev.val.isBool(); ok {
						st.add(Atom{name: "set", s: id + "=" + boolStr(b)})
					} else if ev.val.isNil() {
						st.add(Atom{name: "set", s: id + "=nil"})
					} else if v := ev.val.strip(); v.k == KMake {
						st.add(Atom{name: "set", s: id + "=nonnil"})
					} else {
						st.add(Atom{name: "set", s: id + "=true"})
						st.add(Atom{name: "set", s: id + "=false"})
					}
				}
				if v := ev.val.strip(); v.k == KMake {
					if _, ok := v.typ.Underlying().(*types.Chan); ok {
						st.add(Atom{name: "fresh", s: id})
					}
				}
			case EvReturn:
				fresh := map[string]bool{}
				for _, a := range st.all("fresh") {
					fresh[a.s] = true
				}
				for _, a := range st.all("set") {
					resets[a.s] = append(resets[a.s], reset{fresh, ev.instr.Pos(), st.path(20), fname(root)})
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, fname(root), err)
	}
	closes, sends = uniqRecs(closes, func(c closeRec) string {
		return c.key + "|" + fname(c.root) + "|" + c.guard + "|" + strings.Join(c.tokens, ",") + boolStr(c.inLoop) + boolStr(c.local) + c.cons
	}), uniqRecs(sends, func(s sendRec) string {
		g := ""
		if s.g != nil {
			g = itoa(int(s.g.site.Pos()))
		}
		return s.key + "|" + fname(s.root) + "|" + g + strings.Join(s.tokens, ",") + strings.Join(sortedKeys(s.started), ",") + s.cons
	})
	byKey := map[string][]closeRec{}
	for _, c := range closes {
		byKey[c.key] = append(byKey[c.key], c)
	}
	for _, key := range sortedKeys(byKey) {
		cs := byKey[key]
		guards := map[string]bool{}
		rootsOf := map[string]bool{}
		for _, c := range cs {
			rootsOf[fname(c.root)] = true
			if c.local {
				r.check(!c.inLoop, "close-once", c.cons, c.instr.Pos(), c.path, "the local channel is closed by a goroutine that is started repeatedly")
				continue
			}
			guards[c.guard] = true
			r.check(c.guard != "", "close-once", c.cons, c.instr.Pos(), c.path, "nothing makes this close happen only once: no sync.Once of its owner and no flag tested and flipped under a lock of its owner")
			if strings.HasPrefix(c.guard, "flag ") {
				f := strings.TrimPrefix(c.guard, "flag ")
				for _, rs := range resets[f] {
					okR := rs.fresh[key]
					r.check(okR, "flag-reset", rs.root+": "+f, rs.pos, rs.path, "%s is set back without replacing the channel %s, so that it can be closed again", f, key)
				}
			}
		}
		if len(guards) > 1 {
			r.bad("close-once", key, cs[0].instr.Pos(), cs[0].path, "the channel is closed at places with different guards: %s", strings.Join(sortedKeys(guards), ", "))
		}
		if cs[0].local && len(rootsOf) > 1 {
			r.bad("close-once", key, cs[0].instr.Pos(), cs[0].path, "the local channel is closed by several goroutines: %s", strings.Join(sortedKeys(rootsOf), ", "))
		}
		// senders
		for _, s := range sends {
			if s.key != key {
				continue
			}
			for _, c := range cs {
				okJ, why := false, ""
				switch {
				case s.root == c.root && s.g == nil == (c.root == nil):
					okJ = true
				case s.root == c.root && !c.inLoop:
					okJ = true // the same goroutine: ordered on its path
				case !s.started[fname(c.root)] && c.starter != nil && p.reach(false, func(in ssa.Instruction) bool { return in == c.starter })[s.root]:
					okJ = true // sent before the closing goroutine was started
				default:
					for _, t := range s.tokens {
						for _, w := range c.tokens {
							if t == w {
								okJ, why = true, t
							}
						}
					}
				}
				r.check(okJ, "join-senders", s.cons+" / "+c.cons, s.instr.Pos(), append(append([]string{"sender:"}, s.path...), append([]string{"closer:"}, c.path...)...), "the channel can be closed while this goroutine sends: the closer does not wait for it")
				if okJ && strings.HasPrefix(why, "wg:") {
					// WaitGroup: Add before the start, under the lock with the flag unset
					checkAdd(p, r, env, s, strings.TrimPrefix(why, "wg:"), c)
				}
			}
		}
	}
	for _, cl := range sortedKeys(collections) {
		g := collections[cl]
		for _, gr := range growth[cl] {
			okG := false
			if strings.HasPrefix(g, "flag ") {
				okG = gr.tested[strings.TrimPrefix(g, "flag ")]
			}
			r.check(okG, "no-growth", gr.cons, gr.instr.Pos(), gr.path, "a channel is added to %s without checking under the lock that the owner was not stopped", cl)
		}
	}
	sort.Strings(r.notes)
	r.need("close-once", 5)
	r.need("join-senders", 1)
}

// smallHelper: a helper without loops and go statements.
func smallHelper(f *ssa.Function) bool {
	if len(f.Blocks) > 12 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return false
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// fieldName is the qualified name of the field an address instruction selects.
func fieldName(fa *ssa.FieldAddr) string {
	s := structOf(pointee(fa.X.Type()))
	if s == nil {
		return ""
	}
	return typeName(pointee(fa.X.Type())) + "." + s.Field(fa.Field).Name()
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func boolStr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func chanInside(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Pointer:
		return chanInside(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Chan); ok {
				return true
			}
		}
	}
	return false
}

// collectionOf: the slice or map field whose element the channel belongs to.
func collectionOf(t *Term) string {
	for {
		t = t.strip()
		switch t.k {
		case KIndexV, KIndex, KLookup:
			return fieldValID(t.args[0])
		case KLoad, KFieldV, KField, KExtract, KNext:
			t = t.args[0]
			continue
		}
		return ""
	}
}

// checkAdd: the goroutine that sends was announced to the WaitGroup before it was started,
// while the flag that guards the close was seen unset under its lock.
func checkAdd(p *Prog, r *Report, env *lockEnv, s sendRec, wg string, c closeRec) {
	if s.g == nil {
		return
	}
	r.rule("announce", "a goroutine that the closer waits for is added to the WaitGroup before it is started, under the lock that the closer flips its flag under, with the flag seen unset")
	done := false
	toStarter := p.reach(false, func(in ssa.Instruction) bool { return in == s.g.site })
	for _, root := range p.roots() {
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return stdInline(st, fn) && (toStarter[fn] || smallHelper(fn))
		}
		if !toStarter[root] {
			continue
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			if op, l, _ := env.lockOp(ev); op == opUnlock {
				for _, n := range []string{"tested", "added"} {
					for _, a := range st.all(n) {
						if a.b == l {
							st.del(a)
						}
					}
				}
			}
			env.track(st, ev)
			switch ev.kind {
			case EvBranch:
				t := ev.addr
				neg := false
				for t.k == KUn && t.op == "!" {
					t, neg = t.args[0], !neg
				}
				v, isB := ev.val.isBool()
				if isB && fieldValID(t) != "" && isBoolType(t.typ) {
					if neg {
						v = !v
					}
					for _, h := range held(st) {
						if baseOf(h.a) == baseOf(t) {
							st.add(Atom{name: "tested", a: t, b: h.a, s: fieldValID(t) + "=" + boolStr(v)})
						}
					}
				}
			case EvCall:
				if ev.op == "(*sync.WaitGroup).Add" && "wg:"+wg == tokenOf(st, ev.args[0]) {
					for _, h := range held(st) {
						for _, a := range st.all("tested") {
							if a.b == h.a && "flag "+a.s == c.guard {
								st.add(Atom{name: "added", b: h.a})
							}
						}
					}
					if len(held(st)) == 0 {
						st.set("added-unlocked")
					}
				}
			case EvGo:
				if ev.instr == s.g.site {
					done = true
					as := st.all("added")
					r.check(len(as) > 0, "announce", fname(ev.frame.fn)+": go "+fname(s.root), ev.instr.Pos(), st.path(30), "the goroutine is started without adding it to the WaitGroup under the lock while the flag is unset")
					for _, a := range as {
						st.del(a) // one Add per goroutine
					}
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, fname(root), err)
	}
	// starters that are themselves goroutines are reached through their own function
	if !done {
		x := newExec(p)
		_ = x
		r.bad("announce", "go "+fname(s.root), s.instr.Pos(), nil, "the start of the goroutine was not found")
	}
}

func uniqRecs[T any](in []T, key func(T) string) []T {
	var r []T
	seen := map[string]bool{}
	for _, x := range in {
		if k := key(x); !seen[k] {
			seen[k] = true
			r = append(r, x)
		}
	}
	return r
}
