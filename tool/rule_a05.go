package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A05", checkA05) }

func checkA05(p *Prog, r *Report) {
	r.rule("index", "an index is within the length of what it is used on")
	r.rule("absent", "an entry of a table that may be absent is used only when it is known to be there")
	r.rule("nil", "a value known to be nil is not used, and neither is one that a call without an error may leave nil")
	r.rule("kind", "a value is taken for one of its possible kinds only when all others are ruled out")
	r.rule("recover", "a panic while serving a peer or client is recovered from")
	r.rule("resume", "a goroutine that serves all peers or clients goes on after a panic")
	ll := &libNil{p: p, memo: map[*types.Func]bool{}}
	kinds := p.kindMethods()
	p.runAll(r, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		if !inDaemon(root) {
			return nil, rootOpt{}
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return stdInline(st, fn) && pkgPathOf(fn) == pkgPathOf(root)
		}
		x.pure = func(op string) bool { return opIn(op, "fmt.", "github.com/sirupsen/logrus") || kinds[op] }
		x.on = func(x *Exec, st *State, ev *Event) { crashes(p, x, r, st, ev, ll) }
		return x, rootOpt{}
	})
	recovery(p, r)
	r.need("index", 5)
	r.need("absent", 6)
	r.need("recover", 5)
	r.need("resume", 3)
}

// kindMethods: the interface methods with which every type answers a constant.
func (p *Prog) kindMethods() map[string]bool {
	res := map[string]bool{}
	for _, pk := range p.Pkgs {
		if !inScope(pk.PkgPath) {
			continue
		}
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || !types.IsInterface(tn.Type()) {
				continue
			}
			it := tn.Type().Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				all := true
				ts := p.implementers(it)
				for _, t := range ts {
					if constResult(p.methodOf(t, it.Method(i).Name())) == nil {
						all = false
					}
				}
				if all && len(ts) > 0 {
					res["("+typeName(tn.Type())+")."+it.Method(i).Name()] = true
				}
			}
		}
	}
	return res
}

func crashes(p *Prog, x *Exec, r *Report, st *State, ev *Event, ll *libNil) {
	cons := fname(ev.frame.fn)
	at := token.NoPos
	if ev.instr != nil {
		at = ev.instr.Pos()
	}
	nonNil := func(b *Term) bool {
		if b.k == KAlloc || b.k == KMake {
			return true
		}
		if n, k := st.facts.eval(mkBin(token.EQL, b, cNil(nil), nil)); k && !n {
			return true
		}
		return false
	}
	used := func(t *Term, what string) {
		b := stripIface(t)
		if b.isNil() {
			r.bad("nil", cons+": "+what, at, st.path(12), "a value known to be nil is used")
			return
		}
		switch {
		case b.k == KLookup || b.k == KExtract && b.idx == 0 && b.args[0].k == KLookup:
			l := b
			if b.k == KExtract {
				l = b.args[0]
			}
			n, k := st.facts.eval(mkBin(token.EQL, mkExtract(l, 1, types.Typ[types.Bool]), cBool(true), nil))
			r.check(nonNil(b) || k && n || knownPresent(st, l), "absent", cons+": "+what, at, st.path(12), "%s is used although it may not be there", b)
		case b.k == KExtract && b.idx == 0 && b.args[0].k == KAssert:
			r.check(nonNil(b) || knownPresent(st, b.args[0]), "kind", cons+": "+what, at, st.path(12), "%s is used although the value may be of another kind", b)
		case b.k == KOut && b.op == "errors.As":
			r.check(st.has(Atom{name: "found", s: p.pos(b.site.Pos())}) || nonNil(b), "absent", cons+": "+what, at, st.path(12), "the error found by errors.As is used although it may not have been found")
		case b.k == KExtract && b.args[0].k == KCall && ll.mayBeNil(b.args[0].site, int(b.idx)):
			r.check(nonNil(b), "nil", cons+": "+what, at, st.path(12), "%s is used although the call returns no value (and no error) for some inputs", b)
		default:
			r.ok("nil", cons+": "+what, at)
		}
	}
	switch ev.kind {
	case EvBranch:
		c, v := ev.addr, ev.val
		taken, _ := v.isBool()
		for c.k == KUn && c.op == "!" {
			c, taken = c.args[0], !taken
		}
		if c.k == KCall && c.op == "errors.As" && c.site != nil {
			a := Atom{name: "found", s: p.pos(c.site.Pos())}
			st.del(a)
			if taken {
				st.add(a)
			}
		}
	case EvIndex:
		if ev.addr.typ == nil || ev.key == nil {
			return
		}
		switch ev.addr.typ.Underlying().(type) {
		case *types.Slice, *types.Basic:
		default:
			return
		}
		if fromLibrary(ev.addr) {
			r.ok("nil", cons+": result of a library", at)
			return
		}
		if !sentByPeer(x, ev.addr) {
			return
		}
		hi, lo := st.facts.diff(ev.key, x.lenOf(st, ev.addr)), st.facts.diff(cInt(0, nil), ev.key)
		r.check(hi <= -1 && lo <= 0, "index", cons+": "+p.pos(at), at, st.path(12), "%s is read at %s, which may be outside of it", ev.addr, ev.key)
	case EvCall:
		if stopsProgram(ev.op) {
			ev.prune = true
			return
		}
		if ev.call != nil && ev.call.recv != nil && ev.call.m != nil {
			used(ev.call.recv, ev.op)
		}
	case EvTouch, EvLoad, EvStore:
		a := ev.addr
		for a.k == KField || a.k == KIndex {
			a = a.args[0]
		}
		if a.typ != nil && types.IsInterface(a.typ) {
			return
		}
		used(a, "access at "+p.pos(at))
	case EvAssert:
		ta, ok := ev.instr.(*ssa.TypeAssert)
		if !ok || types.IsInterface(ta.AssertedType) && types.Implements(ta.X.Type(), ta.AssertedType.Underlying().(*types.Interface)) {
			return
		}
		v := stripIface(ev.addr)
		if v.typ != nil && types.Identical(v.typ, ta.AssertedType) {
			r.ok("kind", cons+": "+p.pos(at), at)
			return
		}
		it, _ := ta.X.Type().Underlying().(*types.Interface)
		left := ""
		if it == nil || it.NumMethods() == 0 {
			left = "anything else"
		} else {
			n := 0
			for _, t := range p.implementers(it) {
				if types.Identical(t, ta.AssertedType) {
					n++
				} else if !p.excluded(st, v, t, it) && !ruledOut(p, st, v, t, it) {
					left = typeName(t)
				}
			}
			if n == 0 {
				left = "something other than " + typeName(ta.AssertedType)
			}
		}
		r.check(left == "", "kind", cons+": "+p.pos(at), at, st.path(12), "%s is taken for a %s, but may be %s", v, typeName(ta.AssertedType), left)
	}
}

func knownPresent(st *State, l *Term) bool {
	for f, v := range st.facts {
		if v && f.k == KExtract && f.idx == 1 && f.args[0] == l {
			return true
		}
	}
	return false
}

// ruledOut: the value is known to answer a method with a constant that the type does not return.
func ruledOut(p *Prog, st *State, v *Term, t types.Type, it *types.Interface) bool {
	for f, b := range st.facts {
		if f.k != KBin || f.op != "==" || !b {
			continue
		}
		for i := range f.args {
			c, k := f.args[i], unconv(f.args[1-i])
			if c.k != KConst || c.cst == nil || k.k != KCall || recvOf(k) != v {
				continue
			}
			for j := 0; j < it.NumMethods(); j++ {
				m := it.Method(j)
				if !isInvokeOf(k, m.Name()) {
					continue
				}
				if cr := constResult(p.methodOf(t, m.Name())); cr != nil && cr.ExactString() != c.cst.ExactString() {
					return true
				}
			}
		}
	}
	return false
}

// sentByPeer: the value is, or is part of, what was read from a peer or client: a message, or
// bytes that are being decoded.
func sentByPeer(x *Exec, t *Term) bool {
	return x.reaches(t, func(u *Term) bool {
		if u.typ != nil && strings.Contains(typeName(pointee(u.typ)), "pkg/protocol.") {
			return true
		}
		switch u.k {
		case KOut, KCall:
			return opIn(u.op, "pkg/binary.", "pkg/protocol.", "encoding/json.Unmarshal", "io.ReadFull", "github.com/gorilla/websocket")
		case KParam:
			return u.typ != nil && isByteSlice(u.typ)
		}
		return false
	})
}

// fromLibrary: the result of a function outside of the module (its contract, not a peer's input).
func fromLibrary(t *Term) bool {
	for t.k == KExtract || t.k == KConv || t.k == KSlice {
		t = t.args[0]
	}
	if t.k != KCall {
		return false
	}
	return !moduleOp(t.op)
}

// libNil finds the functions of libraries that return neither a value nor an error for some
// inputs, from their source.
type libNil struct {
	p    *Prog
	memo map[*types.Func]bool
}

func (l *libNil) mayBeNil(site ssa.Instruction, i int) bool {
	c, ok := site.(ssa.CallInstruction)
	if i != 0 || !ok || c.Common().StaticCallee() == nil {
		return false
	}
	m, _ := c.Common().StaticCallee().Object().(*types.Func)
	if m == nil || m.Pkg() == nil || strings.HasPrefix(m.Pkg().Path(), modPath) {
		return false
	}
	s := m.Type().(*types.Signature)
	if s.Results().Len() != 2 || s.Recv() != nil || !isErrorType(s.Results().At(1).Type()) {
		return false
	}
	switch s.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
	default:
		return false
	}
	if v, ok := l.memo[m]; ok {
		return v
	}
	dir := filepath.Dir(l.p.Fset.Position(m.Pos()).Filename)
	pkgs, err := parser.ParseDir(token.NewFileSet(), dir, func(f fs.FileInfo) bool { return !strings.HasSuffix(f.Name(), "_test.go") }, 0)
	if err != nil {
		return false
	}
	decls := map[string]*ast.FuncDecl{}
	for _, pk := range pkgs {
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Body != nil {
					decls[fd.Name.Name] = fd
				}
			}
		}
	}
	l.memo[m] = nilNil(decls, m.Name(), map[string]bool{})
	return l.memo[m]
}

// nilNil: the function, or one whose results it returns, has a "return nil, nil".
func nilNil(decls map[string]*ast.FuncDecl, name string, seen map[string]bool) bool {
	fd := decls[name]
	if fd == nil || seen[name] {
		return false
	}
	seen[name] = true
	isNil := func(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "nil" }
	res := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			if len(n.Results) == 2 && isNil(n.Results[0]) && isNil(n.Results[1]) {
				res = true
			}
			if len(n.Results) == 1 {
				if c, ok := n.Results[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && nilNil(decls, id.Name, seen) {
						res = true
					}
				}
			}
		}
		return true
	})
	return res
}

// recovery: goroutines that handle what peers and clients send recover from panics.
func recovery(p *Prog, r *Report) {
	peer := func(in ssa.Instruction) bool { return readsMessage(in) || decodesHeader(in) }
	ofPeer := p.reach(false, peer)
	shared := func(in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "WatchDescriptorWallet" {
			return true
		}
		return recvsElem(in, func(t types.Type) bool { return scanType(t, "Report") || isReportOf(t) })
	}
	ofAll := p.reach(false, shared)
	_, _, gos := p.staticCallers()
	for _, fn := range p.Funcs {
		if !gos[fn] || !inDaemon(fn) {
			continue
		}
		if ofPeer[fn] {
			bad := uncovered(p, fn, func(g *ssa.Function) bool { return ofPeer[g] }, peer, map[*ssa.Function]bool{}, nil)
			r.check(bad == nil, "recover", fname(fn), posOf(bad, fn), nil, "a panic while handling what a peer or client sent ends the process")
		}
		if ofAll[fn] {
			var cover []covering
			bad := uncovered(p, fn, func(g *ssa.Function) bool { return ofAll[g] }, shared, map[*ssa.Function]bool{}, func(c covering) { cover = append(cover, c) })
			r.check(bad == nil, "recover", fname(fn), posOf(bad, fn), nil, "a panic while handling what a peer or client sent ends the process")
			for _, c := range cover {
				r.check(c.inLoop || resumes(p, c.def, c.fn, c.at), "resume", fname(fn)+": "+fname(c.fn), c.fn.Pos(), nil, "after a panic nobody is served any more: %s does not go on", fname(c.fn))
			}
		}
	}
}

func posOf(in ssa.Instruction, fn *ssa.Function) token.Pos {
	if in != nil {
		return in.Pos()
	}
	return fn.Pos()
}

type covering struct {
	fn     *ssa.Function
	def    *ssa.Function
	at     *ssa.Defer
	inLoop bool // entered from an iteration of a loop, which goes on when it returns
}

// uncovered: a place that handles remote input with no recovering deferred call in force.
func uncovered(p *Prog, fn *ssa.Function, relevant func(*ssa.Function) bool, site func(ssa.Instruction) bool, seen map[*ssa.Function]bool, cover func(covering)) ssa.Instruction {
	return uncoveredIn(p, fn, relevant, site, seen, cover, false)
}

func uncoveredIn(p *Prog, fn *ssa.Function, relevant func(*ssa.Function) bool, site func(ssa.Instruction) bool, seen map[*ssa.Function]bool, cover func(covering), inLoop bool) ssa.Instruction {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	type guard struct {
		b   *ssa.BasicBlock
		i   int
		def *ssa.Function
		at  *ssa.Defer
	}
	var guards []guard
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				for _, g := range p.callees(d, false) {
					if recovers(g) {
						guards = append(guards, guard{b, i, g, d})
					}
				}
			}
		}
	}
	guarded := func(b *ssa.BasicBlock, i int) *guard {
		for j := range guards {
			g := &guards[j]
			if g.b == b && g.i < i || g.b != b && g.b.Dominates(b) {
				return g
			}
		}
		return nil
	}
	var first ssa.Instruction
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			is := site(in)
			var down []*ssa.Function
			if _, isGo := in.(*ssa.Go); !isGo {
				if _, isDef := in.(*ssa.Defer); isDef {
					continue
				}
				if _, ok := in.(ssa.CallInstruction); ok && !is {
					for _, g := range p.callees(in, false) {
						if relevant(g) && inModule(g) {
							down = append(down, g)
						}
					}
				}
			}
			if !is && len(down) == 0 {
				continue
			}
			if d := guarded(b, i); d != nil {
				if cover != nil {
					cover(covering{fn, d.def, d.at, inLoop})
				}
				continue
			}
			if is {
				if _, ok := in.(ssa.CallInstruction); !ok {
					continue // receiving does not panic; what is done with it is looked at below
				}
				if first == nil {
					first = in
				}
				continue
			}
			for _, g := range down {
				if u := uncoveredIn(p, g, relevant, site, seen, cover, inLoop || p.loopDepth(b) > 0); u != nil && first == nil {
					first = u
				}
			}
		}
	}
	if first == nil && len(guards) == 0 {
		// values received here are used here
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(ssa.CallInstruction); !ok && site(in) && first == nil {
					first = in
				}
			}
		}
	}
	return first
}

// recovers: a deferred call of the function ends a panic (and starts no other one).
func recovers(f *ssa.Function) bool {
	return recoverCall(f) != nil
}

func recoverCall(f *ssa.Function) ssa.Value {
	var v ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Panic:
				return nil
			case *ssa.Call:
				if bl, ok := i.Call.Value.(*ssa.Builtin); ok && bl.Name() == "recover" {
					v = i
				}
			}
		}
	}
	return v
}

// passed: the function that the deferred call was given as the parameter.
func passed(v ssa.Value, def *ssa.Function, at *ssa.Defer) *ssa.Function {
	for i, pa := range def.Params {
		if ssa.Value(pa) != v || i >= len(at.Call.Args) {
			continue
		}
		var f *ssa.Function
		switch a := at.Call.Args[i].(type) {
		case *ssa.MakeClosure:
			f = a.Fn.(*ssa.Function)
		case *ssa.Function:
			f = a
		}
		if f != nil && f.Synthetic != "" && f.Object() != nil {
			if o, ok := f.Object().(*types.Func); ok {
				return def.Prog.FuncValue(o)
			}
		}
		return f
	}
	return nil
}

// resumes: whenever there was a panic, the deferred function enters the function again.
func resumes(p *Prog, def, fn *ssa.Function, at *ssa.Defer) bool {
	again := p.reach(true, func(in ssa.Instruction) bool {
		for _, g := range p.callees(in, true) {
			if g == fn {
				return true
			}
		}
		return false
	})
	rec := recoverCall(def)
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Call, *ssa.Go, *ssa.Defer:
				if passed(i.(ssa.CallInstruction).Common().Value, def, at) == fn {
					return
				}
				for _, g := range p.callees(i, true) {
					if g == fn || again[g] && inModule(g) {
						return
					}
				}
			case *ssa.Return:
				ok = false
			case *ssa.If:
				if c, isBin := i.Cond.(*ssa.BinOp); isBin && (c.Op == token.EQL || c.Op == token.NEQ) {
					for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
						if k, isC := pr[1].(*ssa.Const); isC && k.IsNil() && pr[0] == rec {
							s := 0
							if c.Op == token.EQL {
								s = 1
							}
							walk(b.Succs[s])
							return
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if len(def.Blocks) == 0 {
		return false
	}
	walk(def.Blocks[0])
	return ok
}
