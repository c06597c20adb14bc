package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A07", checkA07) }

func inCLI(f *ssa.Function) bool { return rel(pkgPathOf(f)) == "cmd/neutrino" }

// readsFile: the path of the file the call reads.
func fileOp(op string, names ...string) bool {
	for _, n := range names {
		if op == "os."+n || op == "io/ioutil."+n {
			return true
		}
	}
	return false
}

func callsFile(names ...string) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		return f != nil && fileOp(pkgPathOf(f)+"."+f.Name(), names...)
	}
}

func checkA07(p *Prog, r *Report) {
	r.rule("replaced", "the stored configuration is only ever replaced in one step, by a file written completely before")
	r.rule("kept", "the configuration written has the stored values, with the new ones over them")
	r.rule("readable", "a configuration is written only when the stored one was read and understood, or there is none")
	r.rule("reported", "reading or writing the configuration succeeds only if all of its steps do")
	r.rule("flags", "each flag is stored under its name, and what is read is what is stored")
	writes := p.reach(false, callsFile("WriteFile", "Rename", "Create", "OpenFile", "CreateTemp", "TempFile", "Truncate"))
	reads := p.reach(false, callsFile("ReadFile", "Open", "OpenFile"))
	var roots []*ssa.Function
	for _, f := range p.topOf(writes, inCLI) {
		if f.Name() != "main" && f.Name() != "init" {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		r.anchorLost("what writes the configuration of the CLI")
		return
	}
	stored := map[string]bool{}
	for _, fn := range roots {
		checkStateWriter(p, r, fn, stored)
	}
	for _, fn := range p.Funcs {
		if inCLI(fn) && (writes[fn] || reads[fn]) && hasErrResult(fn) {
			ef := &errFlow{rule: "reported", frames: true, loops: true}
			ef.skip = func(op string) bool { return opIn(op, "os.Stat", "os.Lstat", "os.Remove") }
			ef.exempt = func(x *Exec, st *State, a Atom) bool { return cannotFail(a.b) || notThere(st.facts, a.a) }
			ef.run(p, r, fn)
		}
	}
	readKeys(p, r, stored)
	r.need("replaced", 2)
	r.need("kept", 1)
	r.need("readable", 1)
	r.need("reported", 4)
	r.need("flags", 3)
}

// notThere: the error is known to say that the file does not exist.
func notThere(f Facts, e *Term) bool {
	for t, v := range f {
		if v && t.k == KCall && len(t.args) > 0 && stripIface(t.args[0]) == e && (t.op == "os.IsNotExist" || t.op == "errors.Is" && strings.HasSuffix(sentinelName(t.args[1]), ".ErrNotExist")) {
			return true
		}
	}
	return false
}

func checkStateWriter(p *Prog, r *Report, fn *ssa.Function, stored map[string]bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inCLI(f) }
	x.pure = func(op string) bool {
		return opIn(op, "fmt.", "github.com/urfave/cli", "path.", "path/filepath.", "os.IsNotExist", "errors.Is", "os.File).Name")
	}
	// statePath: what is read and understood as the stored values
	paths := map[*Term]bool{}
	find := newExec(p)
	find.inline, find.pure = x.inline, x.pure
	find.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind == EvCall && fileOp(ev.op, "ReadFile") && len(ev.args) > 0 {
			paths[ev.args[0]] = true
		}
	}
	if err := find.run(fn, rootOpt{}); err != nil || len(paths) != 1 {
		r.bad("readable", short+": stored configuration", fn.Pos(), nil, "the stored configuration is not read before it is written")
		r.ran(find, short, err)
		return
	}
	var state *Term
	for t := range paths {
		state = t
	}
	isState := func(t *Term) bool { return t == state }
	renamed := false
	x.on = func(x *Exec, st *State, ev *Event) {
		pos := fn.Pos()
		if ev.instr != nil {
			pos = ev.instr.Pos()
		}
		switch ev.kind {
		case EvCall:
			if stopsProgram(ev.op) {
				ev.prune = true
				return
			}
			switch {
			case fileOp(ev.op, "WriteFile", "Create", "Truncate", "Remove", "RemoveAll") && len(ev.args) > 0:
				r.check(!isState(ev.args[0]), "replaced", short+": "+ev.op, pos, st.path(20), "the stored configuration is changed in place: an interruption leaves an incomplete one")
			case fileOp(ev.op, "OpenFile") && len(ev.args) > 1 && isState(ev.args[0]):
				n, ok := ev.args[1].isInt()
				r.check(ok && n&(p.osFlag("O_WRONLY")|p.osFlag("O_RDWR")|p.osFlag("O_TRUNC")|p.osFlag("O_APPEND")) == 0, "replaced", short+": "+ev.op, pos, st.path(20), "the stored configuration is opened for being changed in place")
			case fileOp(ev.op, "Rename") && len(ev.args) == 2 && isState(ev.args[0]):
				r.bad("replaced", short+": "+ev.op, pos, st.path(20), "the stored configuration is moved away before the new one is in its place")
			case fileOp(ev.op, "Rename") && len(ev.args) == 2 && isState(ev.args[1]):
				renamed = true
				tmp := ev.args[0]
				var data *Term
				for _, a := range st.all("written") {
					if a.a == tmp || tmp.k == KCall && strings.HasSuffix(tmp.op, "os.File).Name") && recvOf(tmp) == a.a {
						if errNil(st.facts, a.b) {
							data = a.c
						}
					}
				}
				r.check(data != nil, "replaced", short+": "+ev.op, pos, st.path(20), "the file put in place of the configuration is not known to be written completely")
				r.check(sameDir(x, tmp, state), "replaced", short+": temporary file", pos, st.path(20), "the file put in place of the configuration is of another directory, which can't be moved in one step")
				if data != nil {
					x.checkKept(r, st, short, ev, data, state)
				}
			}
		case EvResult:
			e := errOf(ev.res)
			switch {
			case fileOp(ev.op, "WriteFile") && len(ev.args) > 1 && e != nil:
				st.add(Atom{name: "written", a: ev.args[0], b: e, c: ev.args[1]})
			case (strings.HasSuffix(ev.op, "os.File).Write") || strings.HasSuffix(ev.op, "os.File).WriteString")) && e != nil && len(ev.args) > 0:
				f := recvOf(ev.res)
				st.add(Atom{name: "written", a: f, b: e, c: ev.args[len(ev.args)-1]})
				if f != nil && f.k == KExtract && f.args[0].k == KCall && fileOp(f.args[0].op, "Create", "OpenFile") {
					st.add(Atom{name: "written", a: f.args[0].args[0], b: e, c: ev.args[len(ev.args)-1]})
				}
			case fileOp(ev.op, "ReadFile") && e != nil && len(ev.args) > 0 && isState(ev.args[0]):
				st.add(Atom{name: "read", a: mkExtract(ev.res, 0, nil), b: e})
			case ev.op == "encoding/json.Unmarshal" && len(ev.args) == 2:
				b := stripIface(ev.args[0])
				for _, a := range st.all("read") {
					if b == a.a || b.k == KExtract && a.a.k == KExtract && b.args[0] == a.a.args[0] {
						st.add(Atom{name: "state", a: x.load(st, stripIface(ev.args[1]), pointee(stripIface(ev.args[1]).typ)), b: errOf(ev.res)})
					}
				}
			}
		case EvBranch:
			// conclusions that outlive the values
			for _, a := range st.all("read") {
				if errNil(st.facts, a.b) {
					st.set("readOK")
					if st.facts.diff(x.lenOf(st, mkExtract(a.a.args[0], 0, types.NewSlice(types.Typ[types.Byte]))), cInt(0, nil)) <= 0 {
						st.set("none")
					}
				} else if notThere(st.facts, a.b) {
					st.set("readOK")
					st.set("none")
				}
			}
			for _, a := range st.all("state") {
				if errNil(st.facts, a.b) {
					st.set("understood")
				}
			}
		case EvLookup:
			if _, ok := ev.instr.(*ssa.Next); !ok {
				return
			}
			for _, a := range st.all("passed") {
				if a.a == ev.addr {
					r.bad("kept", short+": copying", pos, st.path(20), "some values are left out")
				}
			}
			st.add(Atom{name: "passed", a: ev.addr})
			if x.isStored(st, ev.addr) {
				st.set("copiedOld")
			} else if !st.has(Atom{name: "copiedOld"}) && st.has(Atom{name: "understood"}) {
				st.set("newFirst")
			}
		case EvMapUpdate:
			for _, k := range []*Term{ev.key, ev.val} {
				if n := k.find(func(t *Term) bool { return t.k == KNext }); n != nil {
					for _, a := range st.all("passed") {
						if a.a == n.args[0] {
							st.del(a)
							st.add(Atom{name: "copy", a: ev.addr, b: a.a})
						}
					}
				}
			}
			argOf := func(t *Term) int64 {
				if t = unconv(t); t != nil && t.k == KCall && strings.HasSuffix(t.op, "cli/v2.Args).Get") {
					if n, ok := t.args[len(t.args)-1].isInt(); ok {
						return n
					}
				} else if t != nil && t.k == KCall && strings.HasSuffix(t.op, "cli/v2.Args).First") {
					return 0
				}
				return -1
			}
			if k, v := argOf(ev.key), argOf(ev.val); k >= 0 && v >= 0 {
				r.check(k == 0 && v == 1, "flags", short+": arguments", pos, st.path(8), "the key is argument %d and the value is argument %d, they are 0 and 1", k, v)
			}
			if c := unconv(ev.val); c.k == KCall && strings.HasSuffix(c.op, "cli/v2.Context).String") {
				k, ok1 := ev.key.isStr()
				f, ok2 := c.args[len(c.args)-1].isStr()
				r.check(ok1 && ok2 && k == f, "flags", short+": "+f, pos, st.path(8), "flag %s is stored as %s", f, k)
				if ok1 {
					stored[k] = true
				}
			}
		case EvReturn:
			f, ok := successFacts(st, ev.args)
			_ = f
			r.check(!ok || st.has(Atom{name: "replaced"}), "replaced", short+": success", pos, st.path(20), "success is reported although the configuration was not replaced")
		}
		if ev.kind == EvCall && fileOp(ev.op, "Rename") && len(ev.args) == 2 && isState(ev.args[1]) {
			st.set("replaced")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	r.check(renamed, "replaced", short+": rename", fn.Pos(), nil, "the stored configuration is never replaced by one written before")
}

func (x *Exec) isStored(st *State, m *Term) bool {
	for _, a := range st.all("state") {
		if a.a == m {
			return true
		}
	}
	return false
}

func (x *Exec) checkKept(r *Report, st *State, short string, ev *Event, data, state *Term) {
	pos := ev.instr.Pos()
	has := func(n string) bool { return st.has(Atom{name: n}) }
	r.check(has("readOK") && (has("understood") || has("none")), "readable", short+": "+ev.op, pos, st.path(20), "the configuration is overwritten although the stored one was not read and understood")
	for data.k == KExtract || data.k == KConv || data.k == KIface {
		data = data.args[0]
	}
	if data.k != KCall || !opIn(data.op, "encoding/json.Marshal") {
		r.bad("kept", short+": content", pos, st.path(20), "what is written is not the configuration")
		return
	}
	m := stripIface(data.args[0])
	if x.isStored(st, m) {
		n := 0
		for _, a := range st.all("copy") {
			if a.a == m {
				n++
			}
		}
		for _, a := range st.all("passed") {
			if !x.isStored(st, a.a) {
				n++ // all of them were, or there are none
			}
		}
		r.check(n > 0, "kept", short+": new values", pos, st.path(20), "the new values are not written")
		return
	}
	old, other := false, false
	for _, a := range st.all("copy") {
		if a.a == m && x.isStored(st, a.b) {
			old = true
		} else if a.a == m {
			other = true
		}
	}
	if has("understood") {
		r.check(old || has("copiedOld"), "kept", short+": stored values", pos, st.path(20), "the values stored before are not written")
		r.check(!has("newFirst"), "kept", short+": order", pos, st.path(20), "stored values replace the new ones")
	}
	_ = other
}

// osFlag: the value of a constant of package os.
func (p *Prog) osFlag(name string) int64 {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "os" {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, _ := constant.Int64Val(c.Val())
				return n
			}
		}
	}
	return -1
}

// sameDir: the path is made from the one of the state, or from what that is made from.
func sameDir(x *Exec, tmp, state *Term) bool {
	return x.reaches(tmp, func(t *Term) bool {
		return t == state || t.k == KGlobal && strings.HasSuffix(strings.ToLower(t.String()), "dir")
	})
}

// readKeys: the values looked up in the stored configuration are ones that can be configured.
func readKeys(p *Prog, r *Report, stored map[string]bool) {
	for _, fn := range p.Funcs {
		if !inCLI(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				l, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				c, ok := l.Index.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String {
					continue
				}
				k := constant.StringVal(c.Value)
				r.check(stored[k], "flags", fname(fn)+": "+k, l.Pos(), nil, "%s is read from the configuration, which never has it", k)
				for _, u := range *l.Referrers() {
					s, ok := u.(*ssa.Store)
					if !ok || s.Val != ssa.Value(l) {
						continue
					}
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(pointee(a.X.Type()).String(), "net/url.URL") {
						f := structOf(pointee(a.X.Type())).Field(a.Field).Name()
						want := map[string]string{"Host": "url", "Path": "path"}[f]
						r.check(want == "" || want == k, "flags", fname(fn)+": "+f, l.Pos(), nil, "the %s connected to is the configured %s", strings.ToLower(f), k)
					}
				}
			}
		}
	}
}
