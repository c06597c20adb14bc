package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S01", checkS01) }

// sharedTypes: struct types whose values several goroutines reach: those with a method
// running as a goroutine or captured by one, those handed out behind the service
// interfaces, and everything they refer to through pointers, interfaces, embedded structs
// and maps.
func (p *Prog) sharedTypes() map[string]bool {
	m := map[string]bool{}
	var work []types.Type
	add := func(t types.Type) {
		work = append(work, t)
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		g, ok := in.(*ssa.Go)
		if !ok {
			return
		}
		for _, a := range g.Call.Args {
			if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
				add(a.Type())
			}
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				t := pointee(b.Type())
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
					add(t)
				}
			}
		}
	})
	seen := map[string]bool{}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		t = pointee(t)
		k := types.TypeString(t, nil)
		if seen[k] {
			continue
		}
		seen[k] = true
		if it, ok := t.Underlying().(*types.Interface); ok {
			if n, _ := types.Unalias(t).(*types.Named); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				for _, im := range p.implementers(it) {
					add(im)
				}
			}
			continue
		}
		s := structOf(t)
		n, _ := types.Unalias(t).(*types.Named)
		if s == nil || n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			continue
		}
		m[typeName(t)] = true
		for i := 0; i < s.NumFields(); i++ {
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Struct, *types.Interface:
				add(s.Field(i).Type())
			case *types.Map:
				add(u.Elem())
			}
		}
	}
	// a type with a lock of its own is meant to be shared
	for _, pk := range p.Pkgs {
		if !inScope(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if s := structOf(tn.Type()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					switch typeName(s.Field(i).Type()) {
					case "sync.Mutex", "sync.RWMutex", "sync.Locker":
						m[typeName(tn.Type())] = true
					}
				}
			}
		}
	}
	return m
}

// s01Exempt: fields that only test fixtures use, set up before anything is shared.
var s01Exempt = map[string]string{
	"internal/infrastructure/storage/db/pg.DbService.fixturesLoader": "loader of test fixtures",
	"internal/infrastructure/storage/db/pg.DbService.mutex":          "guards the loader of test fixtures",
}

type access struct {
	fn, pos string
	root    *ssa.Function
	write   bool
	locks   map[string]bool // relative names of the locks held (true: exclusively)
	path    []string
	what    string
	instr   ssa.Instruction
}

func checkS01(p *Prog, r *Report) {
	r.rule("guarded", "every access to a field of a shared object that is written after construction happens under one common lock, writes under the exclusive lock")
	r.rule("no-escape", "a guarded map is not handed out of the operation that holds its lock")
	r.rule("captured", "a variable captured by a started goroutine is not written by the starter afterwards, nor read if the goroutine writes it, unless it was joined")
	r.rule("package-variable", "package variables are not written after initialisation")
	r.rule("connection-writes", "every write to a web-socket connection happens under the lock kept with that connection")
	env := &lockEnv{p: p, cond: p.condLocks(r)}
	shared := p.sharedTypes()
	acc := map[string][]*access{}
	seenAcc := map[string]bool{}
	isShared := func(addr *Term) bool {
		return addr.k == KField && shared[typeName(addr.args[0].typ)] && s01Exempt[fieldID(addr)] == ""
	}
	_, _, gos := p.staticCallers()
	wsWrites := 0
	for _, root := range p.roots() {
		if pp := rel(pkgPathOf(root)); strings.HasPrefix(pp, "cmd/") || pp == "internal/config" {
			continue // start-up code, before any goroutine exists
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		writesFree := map[*ssa.Function]map[int]bool{}
		x.on = func(x *Exec, st *State, ev *Event) {
			env.track(st, ev)
			record := func(addr *Term, write bool, what string) {
				base := addr.args[0]
				rt := rootOf(base)
				if isFreshRoot(rt) && rt.k == KAlloc {
					return // not published yet
				}
				locks := map[string]bool{}
				for _, h := range held(st) {
					n := relLock(h.a, base)
					locks[n] = locks[n] || h.s == "W"
				}
				ks := sortedKeys(locks)
				for i, k := range ks {
					if locks[k] {
						ks[i] = k + "!"
					}
				}
				w := "r"
				if write {
					w = "w"
				}
				key := fname(root) + "|" + fieldID(addr) + "|" + fname(ev.frame.fn) + "|" + w + "|" + strings.Join(ks, ",")
				if seenAcc[key] {
					return
				}
				seenAcc[key] = true
				acc[fieldID(addr)] = append(acc[fieldID(addr)], &access{fn: fname(ev.frame.fn), root: root, pos: p.pos(ev.instr.Pos()), write: write, locks: locks, path: st.path(20), what: what, instr: ev.instr})
			}
			content := func(c *Term, write bool, what string) {
				c = c.strip()
				if c.k == KLoad && isShared(c.args[0]) {
					record(c.args[0], write, what)
				}
			}
			switch ev.kind {
			case EvStore:
				if isShared(ev.addr) {
					record(ev.addr, true, "written")
				}
				if ev.addr.k == KIndex {
					content(ev.addr.args[0], true, "element written")
				}
				if rt := rootOf(ev.addr); rt.k == KGlobal {
					fn := st.frames[0].fn
					r.check(fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || len(held(st)) > 0, "package-variable", rt.val.Name()+" in "+fname(ev.frame.fn), ev.instr.Pos(), st.path(20), "the package variable %s is written after initialisation", rt.val.Name())
				}
				if ev.addr.k == KField && ev.addr.args[0].k == KAlloc || ev.addr.k == KAlloc {
					rt := rootOf(ev.addr)
					for _, a := range st.all("captured") {
						if a.a == rt && len(held(st)) == 0 {
							r.bad("captured", fname(ev.frame.fn)+": "+rt.site.(ssa.Value).Name(), ev.instr.Pos(), st.path(20), "a variable captured by the goroutine started at %s is written while it may run", a.s)
						}
					}
				}
			case EvLoad:
				if isShared(ev.addr) {
					record(ev.addr, false, "read")
				}
				if ev.addr.k == KAlloc {
					for _, a := range st.all("capturedw") {
						if a.a == ev.addr && len(held(st)) == 0 {
							r.bad("captured", fname(ev.frame.fn)+": "+ev.addr.site.(ssa.Value).Name(), ev.instr.Pos(), st.path(20), "a variable written by the goroutine started at %s is read while it may run", a.s)
						}
					}
				}
			case EvMapUpdate:
				content(ev.addr, true, "map entry written")
			case EvLookup:
				content(ev.addr, false, "map read")
			case EvRecv:
				st.clear("captured")
				st.clear("capturedw")
			case EvCall:
				if ev.op == "delete" {
					content(ev.args[0], true, "map entry deleted")
				}
				if ev.op == "(*sync.WaitGroup).Wait" {
					st.clear("captured")
					st.clear("capturedw")
				}
				if strings.HasPrefix(ev.op, "(*github.com/gorilla/websocket.Conn).") && (strings.Contains(ev.op, ").Write") || strings.HasSuffix(ev.op, "NextWriter") || strings.HasSuffix(ev.op, "SetWriteDeadline")) && !strings.HasSuffix(ev.op, "WriteControl") {
					wsWrites++
					okL := false
					for _, h := range held(st) {
						if h.s == "W" && connLock(p, h.a) {
							// same object as the connection
							f := h.a
							if f.k == KLoad {
								f = f.args[0]
							}
							c := ev.args[0]
							if c.k == KLoad && c.args[0].k == KField && c.args[0].args[0] != f.args[0] {
								continue
							}
							okL = true
						}
					}
					r.check(okL, "connection-writes", fname(ev.frame.fn)+": "+ev.op[strings.LastIndex(ev.op, ".")+1:], ev.instr.Pos(), st.path(20), "the connection is written to without holding the lock kept with it")
				}
			case EvGo:
				f := ev.call.target()
				if ev.call.fn != nil {
					c := stripIface(ev.call.fn)
					if c.k == KClosure {
						if writesFree[f] == nil {
							writesFree[f] = freeWrites(f)
						}
						for i, b := range c.args {
							if b.k == KAlloc {
								st.add(Atom{name: "captured", a: b, s: p.pos(ev.instr.Pos())})
								if writesFree[f][i] {
									st.add(Atom{name: "capturedw", a: b, s: p.pos(ev.instr.Pos())})
								}
							}
						}
						r.ok("captured", fname(ev.frame.fn)+": go "+fname(f), ev.instr.Pos())
					}
				}
			case EvReturn:
				for _, a := range ev.args {
					v := a.strip()
					if v.k == KLoad && isShared(v.args[0]) {
						if _, ok := v.typ.Underlying().(*types.Map); ok {
							// decided below, once the guarded fields are known
							id := fieldID(v.args[0])
							st.note("returns the map itself")
							acc["escape "+id] = append(acc["escape "+id], &access{fn: fname(root), pos: p.pos(ev.instr.Pos()), path: st.path(20), instr: ev.instr})
						}
					}
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, fname(root), err)
	}
	guardedN := 0
	for _, f := range sortedKeys(acc) {
		if strings.HasPrefix(f, "escape ") {
			continue
		}
		as := acc[f]
		written := false
		for _, a := range as {
			if a.write {
				written = true
			}
		}
		if !written {
			continue
		}
		// a field that a single goroutine uses needs no lock
		roots := map[*ssa.Function]bool{}
		anyLock := false
		for _, a := range as {
			roots[a.root] = true
			anyLock = anyLock || len(a.locks) > 0
		}
		if len(roots) == 1 && !anyLock && gos[as[0].root] && !(as[0].root.Object() != nil && as[0].root.Object().Exported()) {
			r.ok("guarded", f+" (used by one goroutine only)", as[0].instr.Pos())
			continue
		}
		guardedN++
		// the lock held at most accesses is the one that guards the field
		cnt := map[string]int{}
		for _, a := range as {
			for l := range a.locks {
				cnt[l]++
			}
		}
		var ls []string
		for l := range cnt {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool {
			if cnt[ls[i]] != cnt[ls[j]] {
				return cnt[ls[i]] > cnt[ls[j]]
			}
			return ls[i] < ls[j]
		})
		lock := ""
		if len(ls) > 0 {
			lock = ls[0]
		}
		for _, a := range as {
			ex, h := a.locks[lock]
			cons := f + " in " + a.fn
			switch {
			case lock == "":
				r.bad("guarded", cons, a.instr.Pos(), a.path, "the shared field is %s without any lock, and it is written after construction", a.what)
			case !h:
				r.bad("guarded", cons, a.instr.Pos(), a.path, "the shared field is %s without holding %s, which guards it elsewhere", a.what, lock)
			case a.write && !ex:
				r.bad("guarded", cons, a.instr.Pos(), a.path, "the shared field is %s holding %s only for reading", a.what, lock)
			default:
				r.ok("guarded", cons, a.instr.Pos())
			}
		}
		for _, a := range acc["escape "+f] {
			r.bad("no-escape", f+" in "+a.fn, a.instr.Pos(), a.path, "the guarded map itself is returned: its users access it without the lock")
		}
		r.ok("no-escape", f, 0)
	}
	r.notes = append(r.notes, "shared types: "+strings.Join(sortedKeys(shared), ", "))
	r.need("guarded", 20)
	r.need("connection-writes", 2)
	r.need("captured", 3)
}

// freeWrites: the free variables (by index) a closure, or a closure in it, stores to.
func freeWrites(f *ssa.Function) map[int]bool {
	m := map[int]bool{}
	if f == nil {
		return m
	}
	idx := map[ssa.Value]int{}
	for i, v := range f.FreeVars {
		idx[v] = i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if i, ok := idx[a]; ok {
					m[i] = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				w := freeWrites(mc.Fn.(*ssa.Function))
				for j, bnd := range mc.Bindings {
					if i, ok := idx[bnd]; ok && w[j] {
						m[i] = true
					}
				}
			}
		}
	}
	return m
}
