package main

import (
	"os"
	"time"

	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdInline: module functions are analysed in the context of their callers, except the
// codec seen from outside of it.
func stdInline(st *State, fn *ssa.Function) bool {
	pp := rel(pkgPathOf(fn))
	root := rel(pkgPathOf(st.frames[0].fn))
	if pp == "pkg/binary" || pp == "pkg/protocol" {
		return root == pp
	}
	return true
}

// goSite is a go statement and what it starts.
type goSite struct {
	fn *ssa.Function // that starts it
	in *ssa.Go
	to *ssa.Function
}

// callersIn: static callers in the module of every function (calls, defers and go statements apart).
func (p *Prog) staticCallers() (calls map[*ssa.Function][]ssa.CallInstruction, escapes map[*ssa.Function]bool, gos map[*ssa.Function]bool) {
	calls = map[*ssa.Function][]ssa.CallInstruction{}
	escapes = map[*ssa.Function]bool{}
	gos = map[*ssa.Function]bool{}
	fnOf := func(v ssa.Value) *ssa.Function {
		switch f := v.(type) {
		case *ssa.Function:
			return f
		case *ssa.MakeClosure:
			return f.Fn.(*ssa.Function)
		}
		return nil
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
					if t := fnOf(callee); t != nil && !c.Common().IsInvoke() {
						if _, isGo := in.(*ssa.Go); isGo {
							gos[t] = true
						} else {
							calls[t] = append(calls[t], c)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					// a closure used other than by being called
					for _, ref := range *mc.Referrers() {
						c, isCall := ref.(ssa.CallInstruction)
						if isCall && c.Common().Value == mc {
							onlyArg := false
							for _, a := range c.Common().Args {
								if a == mc {
									onlyArg = true
								}
							}
							if !onlyArg {
								continue
							}
						}
						if cs, only := closureUses(mc, 0); only {
							for _, c := range cs {
								if _, isGo := c.(*ssa.Go); isGo {
									gos[mc.Fn.(*ssa.Function)] = true
								} else {
									calls[mc.Fn.(*ssa.Function)] = append(calls[mc.Fn.(*ssa.Function)], c)
								}
							}
							break
						}
						if onceArg(mc) {
							calls[mc.Fn.(*ssa.Function)] = append(calls[mc.Fn.(*ssa.Function)], c)
							continue
						}
						escapes[mc.Fn.(*ssa.Function)] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if t, ok := (*op).(*ssa.Function); ok {
						escapes[t] = true
					}
				}
			}
		}
	}
	return
}

// closureUses: the calls of a closure that is kept in a variable, also one that other closures
// use, when it is only ever called there.
func closureUses(v ssa.Value, depth int) (calls []ssa.CallInstruction, only bool) {
	refs := v.Referrers()
	if refs == nil || depth > 4 {
		return nil, false
	}
	n := 0
	for _, ref := range *refs {
		switch i := ref.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if i.Common().IsInvoke() {
				return nil, false
			}
			if i.Common().Value == v {
				calls = append(calls, i)
				n++
			}
			for k, a := range i.Common().Args {
				if a != v {
					continue
				}
				// handed to a function of the module that only calls it, there and then
				f := i.Common().StaticCallee()
				if _, isCall := i.(*ssa.Call); !isCall || f == nil || len(f.Blocks) == 0 || k >= len(f.Params) || !inModule(f) {
					return nil, false
				}
				cs, ok := closureUses(f.Params[k], depth+1)
				if !ok {
					return nil, false
				}
				calls = append(calls, cs...)
				n++
			}
		case *ssa.Store:
			if i.Val != v {
				return nil, false
			}
			al, ok := i.Addr.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			cs, ok := variableUses(al, i, depth+1)
			if !ok {
				return nil, false
			}
			calls = append(calls, cs...)
			n++
		default:
			return nil, false
		}
	}
	return calls, n > 0
}

// variableUses: the calls of the function kept in a variable that is set once.
func variableUses(addr ssa.Value, set ssa.Instruction, depth int) (calls []ssa.CallInstruction, only bool) {
	if addr.Referrers() == nil || depth > 5 {
		return nil, false
	}
	for _, ref := range *addr.Referrers() {
		if ref == set {
			continue
		}
		var cs []ssa.CallInstruction
		ok := true
		switch i := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			cs, ok = closureUses(i, depth+1)
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == addr {
					cs, ok = variableUses(f.FreeVars[k], set, depth+1)
				}
			}
		default:
			return nil, false
		}
		if !ok {
			return nil, false
		}
		calls = append(calls, cs...)
	}
	return calls, len(calls) > 0
}

// roots: the functions a run of the program, or a user of the packages, can enter from
// outside: exported functions and methods, main, targets of go statements, functions used
// as values, and functions nothing calls.
func (p *Prog) roots() []*ssa.Function {
	calls, esc, gos := p.staticCallers()
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		exported := false
		if o := f.Object(); o != nil && o.Exported() && f.Parent() == nil {
			exported = true
		}
		// synthetic bound-method wrappers refer to the method
		if exported || esc[f] || gos[f] || len(calls[f]) == 0 || f.Name() == "main" {
			r = append(r, f)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

// implementers: concrete types of the module that implement the interface.
func (p *Prog) implementers(it *types.Interface) []types.Type {
	var r []types.Type
	if it.NumMethods() == 0 {
		return nil
	}
	for _, pk := range p.Pkgs {
		if !inScope(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, it) {
				r = append(r, t)
			} else if types.Implements(types.NewPointer(t), it) {
				r = append(r, types.NewPointer(t))
			}
		}
	}
	return r
}

// resolveAll resolves a call of an interface method to its implementations in the module.
func resolveAll(x *Exec, st *State, c *callRec) []*ssa.Function {
	rt := c.m.Type().(*types.Signature).Recv()
	if rt == nil {
		return nil
	}
	return x.p.resolveIface(rt.Type(), c)
}

func (p *Prog) resolveIface(t types.Type, c *callRec) []*ssa.Function {
	if c.common != nil {
		t = c.common.Value.Type()
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	var r []*ssa.Function
	for _, im := range p.implementers(it) {
		if f := p.methodOf(im, c.m.Name()); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// method finds the method of a named type given as "pkg/path.Type".
func (p *Prog) method(typ, name string) *ssa.Function {
	t := p.named(typ)
	if t == nil {
		return nil
	}
	f := p.methodOf(types.NewPointer(t), name)
	if f != nil && f.Synthetic != "" {
		if g := p.methodOf(t, name); g != nil {
			return g
		}
	}
	return f
}

func (p *Prog) named(typ string) *types.Named {
	i := strings.LastIndex(typ, ".")
	pk := p.ByP[modPath+"/"+typ[:i]]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(typ[i+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// fun finds a package-level function given as "pkg/path.Name".
func (p *Prog) fun(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	sp := p.pkg(name[:i])
	if sp == nil {
		return nil
	}
	return sp.Func(name[i+1:])
}

// fieldName of the address of a struct field: "pkg.Type.field"
func fieldID(addr *Term) string {
	if addr.k != KField || addr.fld == nil {
		return ""
	}
	return typeName(addr.args[0].typ) + "." + addr.fld.Name()
}

func fieldValID(t *Term) string {
	switch t.k {
	case KLoad:
		return fieldID(t.args[0])
	case KFieldV:
		return typeName(t.args[0].typ) + "." + t.fld.Name()
	}
	return ""
}

func fnShort(f *ssa.Function) string { return fname(f) }

// allInstrs visits every instruction of the functions in scope.
func (p *Prog) allInstrs(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

// goRun is a goroutine found while analysing its starter.
type goRun struct {
	fn      *ssa.Function
	args    []*Term
	binds   []*Term
	mem     map[*Term]*Term
	site    ssa.Instruction
	starter *ssa.Function
	inLoop  bool
}

// runAll analyses every root and, in the memory of their starter, the goroutines started.
// setup returns the engine for a root (nil to skip); g is nil for roots that are entered
// from outside.
func (p *Prog) runAll(r *Report, setup func(root *ssa.Function, g *goRun) (*Exec, rootOpt)) {
	_, esc, gos := p.staticCallers()
	var work []*goRun
	seen := map[string]bool{}
	started := map[*ssa.Function]bool{}
	one := func(fn *ssa.Function, g *goRun) {
		x, o := setup(fn, g)
		if x == nil {
			return
		}
		if g != nil {
			o.args, o.binds, o.mem = g.args, g.binds, g.mem
		}
		inner := x.on
		x.on = func(x *Exec, st *State, ev *Event) {
			if inner != nil {
				inner(x, st, ev)
			}
			if ev.kind != EvGo || ev.prune {
				return
			}
			t := ev.call.target()
			args := ev.args
			var binds []*Term
			if ev.call.fn != nil {
				if c := stripIface(ev.call.fn); c.k == KClosure {
					binds = c.args
				}
			}
			if t == nil || t.Blocks == nil {
				return
			}
			if t.Synthetic != "" && strings.HasPrefix(t.Synthetic, "bound") {
				// go x.method through a method value
			}
			started[t] = true
			ng := &goRun{fn: t, args: args, binds: binds, mem: map[*Term]*Term{}, site: ev.instr, starter: ev.frame.fn, inLoop: x.inLoop(st)}
			key := fname(t)
			for k, v := range st.mem {
				ng.mem[k] = v
			}
			for _, a := range append(append([]*Term{}, args...), binds...) {
				key += "," + itoa(a.id)
				if v := st.mem[a]; v != nil {
					key += "=" + itoa(v.id)
				}
			}
			if !seen[key] {
				seen[key] = true
				work = append(work, ng)
			}
		}
		t0 := time.Now()
		err := x.run(fn, o)
		if d := time.Since(t0); d > time.Second && os.Getenv("NC_TIME") != "" {
			println("slow", fname(fn), d.String(), x.steps, err != nil)
		}
		r.ran(x, fname(fn), err)
	}
	for _, f := range p.roots() {
		exported := f.Object() != nil && f.Object().Exported() && f.Parent() == nil
		if gos[f] && !esc[f] && !exported {
			continue
		}
		one(f, nil)
	}
	for i := 0; i < len(work) && i < 2000; i++ {
		one(work[i].fn, work[i])
	}
}

func itoa(i int) string { return strconv.Itoa(i) }

// component is a type of the module with a Stop method.
type component struct {
	typ  types.Type
	name string
	stop *ssa.Function
}

func (p *Prog) components() []component {
	var r []component
	for _, pk := range p.Pkgs {
		if !inScope(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			f := p.methodOf(types.NewPointer(tn.Type()), "Stop")
			if f == nil {
				continue
			}
			if f.Synthetic != "" {
				if g := p.methodOf(tn.Type(), "Stop"); g != nil {
					f = g
				}
			}
			if f.Signature.Params().Len() != 0 {
				continue
			}
			r = append(r, component{types.NewPointer(tn.Type()), typeName(tn.Type()), f})
		}
	}
	return r
}

// stopFields: the channels (by field) that the Stop methods close and nobody sends on.
func (p *Prog) stopFields(r *Report) map[string]string {
	m := map[string]string{} // field -> component
	for _, c := range p.components() {
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		name := c.name
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvCall && ev.op == "close" && len(ev.args) == 1 {
				cl := chanClass(st, ev.args[0])
				ct, ok := ev.args[0].typ.Underlying().(*types.Chan)
				if ok && strings.Contains(cl, ".") {
					if s, ok := ct.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
						if strings.HasPrefix(cl, name+".") {
							m[cl] = name
						} else if m[cl] == "" {
							m[cl] = cl[:strings.LastIndex(cl, ".")]
						}
					}
				}
			}
		}
		err := x.run(c.stop, rootOpt{})
		if r != nil {
			r.ran(x, fname(c.stop), err)
		}
	}
	return m
}

// activeLoops: keys of the loops (in all frames) the path is inside of.
func (x *Exec) activeLoops(st *State) []string {
	var r []string
	for _, f := range st.frames {
		li := x.p.loop(f.fn)
		for h, body := range li.body {
			if body[f.blk] {
				r = append(r, loopKey(f, h))
			}
		}
	}
	return r
}

func loopKey(f *Frame, h *ssa.BasicBlock) string {
	c := 0
	if f.ctx != nil {
		c = f.ctx.id
	}
	return fname(f.fn) + "#" + itoa(h.Index) + "#" + itoa(c)
}

// boundedLoop: a loop over the elements of a collection or with a counter up to a bound
// that the loop does not change.
func (p *Prog) boundedLoop(h *ssa.BasicBlock) bool {
	fn := h.Parent()
	body := p.loop(fn).body[h]
	for b := range body {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !body[s] {
				exits = true
			}
		}
		if !exits || !(b == h || h.Dominates(b)) {
			continue
		}
		// the exit test must be passed in every iteration
		every := true
		for pb := range body {
			for _, s := range pb.Succs {
				if s == h && !b.Dominates(pb) {
					every = false
				}
			}
		}
		if !every {
			continue
		}
		switch c := i.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 {
				return true
			}
		case *ssa.BinOp:
			for k, o := range []ssa.Value{c.X, c.Y} {
				other := c.Y
				if k == 1 {
					other = c.X
				}
				if isCounter(o, h, body) && invariant(other, body, 0) {
					return true
				}
			}
		}
	}
	return false
}

func isCounter(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if b, ok := v.(*ssa.BinOp); ok && body[b.Block()] {
		if _, isC := b.Y.(*ssa.Const); isC {
			v = b.X
		}
	}
	if c, ok := v.(*ssa.Convert); ok {
		v = c.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || !body[ph.Block()] {
		return false
	}
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ph {
			return false
		}
		if _, isC := b.Y.(*ssa.Const); !isC {
			return false
		}
	}
	return true
}

func invariant(v ssa.Value, body map[*ssa.BasicBlock]bool, d int) bool {
	if d > 6 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !body[in.Block()] {
		return true
	}
	switch i := v.(type) {
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
		return false
	case *ssa.BinOp:
		return invariant(i.X, body, d+1) && invariant(i.Y, body, d+1)
	case *ssa.Convert:
		return invariant(i.X, body, d+1)
	case *ssa.ChangeType:
		return invariant(i.X, body, d+1)
	case *ssa.Field:
		return invariant(i.X, body, d+1)
	case *ssa.Extract:
		return invariant(i.Tuple, body, d+1)
	case *ssa.FieldAddr:
		return invariant(i.X, body, d+1)
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return invariant(i.X, body, d+1)
		}
		// memory that the loop does not write (by a store of its own)
		if !invariant(i.X, body, d+1) {
			return false
		}
		for b := range body {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && sameAddr(st.Addr, i.X) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// sameAddr: may the two addresses be the same variable or the same field?
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())
}

const tokEQL = token.EQL

func (p *Prog) named2(typ string) *types.Named {
	if !strings.Contains(typ, ".") || strings.LastIndex(typ, ".") <= 0 {
		return nil
	}
	return p.named(typ)
}
