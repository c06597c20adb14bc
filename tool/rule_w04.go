package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W04", checkW04) }

const maxUpFront = 64 << 20

// sizeBounded: a size that is constant, the length of data already held, or known to be
// below the limit on this path.
func sizeBounded(st *State, n *Term) bool {
	if n == nil {
		return true
	}
	if n.k == KConv && isIntType(n.typ) && isIntType(n.args[0].typ) {
		if sizeBounded(st, n.args[0]) {
			return true
		}
	}
	if v, ok := n.isInt(); ok {
		return v <= maxUpFront
	}
	if heldLen(n) {
		return true
	}
	return st.facts.diff(n, cInt(0, nil)) <= maxUpFront
}

// heldLen: the length of something in memory, or a sum or part of such lengths.
func heldLen(n *Term) bool {
	switch n.k {
	case KConst:
		v, ok := n.isInt()
		return ok && v <= maxUpFront
	case KConv:
		return heldLen(n.args[0])
	case KCall:
		return n.op == "len" || n.op == "cap"
	case KBin:
		switch n.op {
		case "+":
			return heldLen(n.args[0]) && heldLen(n.args[1])
		case "-", "/", ">>":
			return heldLen(n.args[0])
		case "*":
			_, c := n.args[1].isInt()
			_, d := n.args[0].isInt()
			return (c || d) && heldLen(n.args[0]) && heldLen(n.args[1])
		}
	}
	return false
}

func checkW04(p *Prog, r *Report) {
	r.rule("make", "the size of a slice, map or channel made, or of a buffer grown, while reading from a peer is a constant, the length of data already held, or was checked against a fixed maximum on the path")
	r.rule("loop", "a loop that adds to memory and whose number of turns comes from a peer reads from the stream in every turn, or the number was checked against a fixed maximum")
	inPkgs := func(f *ssa.Function) bool {
		switch rel(pkgPathOf(f)) {
		case "pkg/binary", "pkg/protocol", "pkg/node", "pkg/peer":
			return true
		}
		return false
	}
	grows := func(f *ssa.Function, h *ssa.BasicBlock) bool {
		for b := range tlLoop(f).body[h] {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate, *ssa.MakeSlice, *ssa.MakeMap:
					return true
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						return true
					}
					if t := in.Call.StaticCallee(); t != nil && opIn(fname(t), "bytes.Buffer).Write", "strings.Builder).Write") {
						return true
					}
				}
			}
		}
		return false
	}
	allocates := p.reach(false, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			return true
		case ssa.CallInstruction:
			if t := in.Common().StaticCallee(); t != nil && opIn(fname(t), "bytes.Buffer).Grow", "slices.Grow", "strings.Builder).Grow", "bytes.Repeat", "bufio.New", "reflect.MakeSlice", "strings.Repeat") {
				return true
			}
			if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return true
			}
		}
		return false
	})
	for _, fn := range p.roots() {
		fn := fn
		if !inPkgs(fn) || !allocates[fn] || fn.Name() == "init" {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(f)) == rel(pkgPathOf(fn)) && allocates[f] && f.Name() != "Decode" && f.Name() != "Marshal" && f.Name() != "UnmarshalBinary" && f.Name() != "MarshalBinary" ||
				rel(pkgPathOf(f)) == "pkg/protocol" && smallHelper(f) && !hasErrResult(f)
		}
		if codecPkg(fn) {
			x.inline = codecInline
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			size := func(what string, n *Term) {
				r.check(sizeBounded(st, n), "make", fname(ev.frame.fn)+": "+what, ev.instr.Pos(), st.path(20), "the size %s is not bounded by a constant", n)
			}
			switch ev.kind {
			case EvMake:
				size("make", ev.key)
				if m, ok := ev.instr.(*ssa.MakeSlice); ok && m.Cap != m.Len {
					size("make (capacity)", x.val(st, m.Cap))
				}
			case EvCall:
				if opIn(ev.op, "bytes.Buffer).Grow", "slices.Grow", "strings.Builder).Grow", "bytes.Repeat", "strings.Repeat") && len(ev.args) > 1 {
					size(ev.op, ev.args[1])
				}
				if opIn(ev.op, "bufio.NewReaderSize", "bufio.NewWriterSize") && len(ev.args) > 1 {
					size(ev.op, ev.args[1])
				}
				if opIn(ev.op, "reflect.MakeSlice") && len(ev.args) > 2 {
					size(ev.op, ev.args[1])
					size(ev.op, ev.args[2])
				}
			case EvResult:
				if e := errOf(ev.res); e != nil && !neverFails(ev.op) && !makesError(ev.op) && len(ev.args) > 0 {
					st.clear("read")
					st.add(Atom{name: "read", a: e})
				}
			case EvExit:
				// an inlined reader of the package
				if ev.fn != nil && hasErrResult(ev.fn) && len(ev.args) > 0 {
					if e := ev.args[len(ev.args)-1]; errNil(st.facts, e) && len(st.all("read")) > 0 {
						st.set("readok")
					}
				}
			case EvBack:
				if !codecPkg(ev.frame.fn) && !inPkgs(ev.frame.fn) || !grows(ev.frame.fn, ev.frame.blk) {
					break
				}
				c := loopCond(ev.frame.fn, ev.frame.blk)
				if c == nil {
					break // endless: governed by its reads
				}
				ok := st.flag("readok")
				for _, a := range st.all("read") {
					ok = ok || errNil(st.facts, a.a)
				}
				for _, v := range []ssa.Value{c.X, c.Y} {
					if _, isPhi := v.(*ssa.Phi); isPhi || !isIntType(v.Type()) {
						continue
					}
					ok = ok || sizeBounded(st, x.val(st, v)) || isLen(v)
				}
				r.check(ok, "loop", fname(ev.frame.fn)+": loop", ev.instr.Pos(), st.path(20), "the loop goes on growing memory without having read anything, as often as the peer says")
				st.clear("read")
				st.unset("readok")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, fname(fn), err)
	}
	r.need("make", 3)
	_ = types.Typ
}

// isLen: the length of something in memory.
func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}
