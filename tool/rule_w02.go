package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W02", checkW02) }

// codecMethods: the methods of that name of the types of the codec packages.
func (p *Prog) codecMethods(name string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == name && f.Signature.Recv() != nil && f.Synthetic == "" && f.Parent() == nil && codecPkg(f) && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

// leaf is a part of a decoded value that has to be set.
type leaf struct {
	name string
	addr *Term
	typ  types.Type
}

func leaves(base *Term, t types.Type, name string) []leaf {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []leaf{{name, base, t}}
	}
	var r []leaf
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n := f.Name()
		if name != "" {
			n = name + "." + n
		}
		a := fieldAddr(base, f)
		if f.Embedded() {
			r = append(r, leaves(a, f.Type(), n)...)
		} else {
			r = append(r, leaf{n, a, f.Type()})
		}
	}
	return r
}

func codecInline(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
	if rel(pkgPathOf(f)) != rel(pkgPathOf(st.frames[0].fn)) {
		return false
	}
	switch f.Name() {
	case "Decode", "UnmarshalBinary", "MarshalBinary", "Marshal":
		return false
	}
	return true
}

// noteNothing flags a path on which a count that came from the source is known not to be positive.
func noteNothing(x *Exec, st *State, ev *Event, from func(*Term) bool) {
	if ev.kind != EvBranch || ev.addr == nil {
		return
	}
	t := ev.addr
	for t.k == KUn && t.op == "!" {
		t = t.args[0]
	}
	if t.k != KBin {
		return
	}
	f := st.facts.clone()
	f.assume(ev.addr, ev.val == cBool(true))
	for _, c := range t.args {
		if c.typ == nil || !isIntType(c.typ) || c.k == KConst || !x.reaches(c, from) {
			continue
		}
		if f.diff(c, cInt(0, nil)) <= 0 {
			st.set("nothing")
		}
	}
}

func checkW02(p *Prog, r *Report) {
	r.rule("pointer-receiver", "UnmarshalBinary is declared on the pointer, so that it sets the value of the caller")
	r.rule("field-set", "on every successful path of a decoder every field of the receiver was set from the bytes read")
	r.rule("all-fields", "decoding a struct decodes the address of each of its fields in turn, from the first to the last")
	r.rule("decoded", "on every successful path of Decode the value handed in, not a copy, was filled from the stream")
	r.rule("whole-stream", "reading to the end adds every byte that was read to the result")
	r.rule("returned", "what an operation of the decoder returns with success was read from the stream")
	for _, fn := range p.codecMethods("UnmarshalBinary") {
		fn := fn
		short := fname(fn)
		pt, ok := fn.Signature.Recv().Type().(*types.Pointer)
		r.check(ok, "pointer-receiver", short, fn.Pos(), nil, "the decoder sets a copy of the value")
		if !ok || len(fn.Params) < 2 {
			continue
		}
		x := newExec(p)
		x.inline = codecInline
		set := map[string]bool{}
		elems := map[string]bool{}
		var slices []string
		var reader, recv *Term
		isReader := func(t *Term) bool { return t == reader }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvStart {
				recv, reader = x.val(st, fn.Params[0]), x.val(st, fn.Params[1])
				return
			}
			noteNothing(x, st, ev, isReader)
			if ev.kind == EvStore {
				for _, l := range leaves(recv, pt.Elem(), "") {
					if l.addr == ev.addr {
						a := Atom{name: "set", s: l.name}
						if x.reaches(ev.val, isReader) {
							st.add(a)
						} else {
							st.del(a)
						}
					}
				}
			}
			if ev.kind == EvStore && ev.addr.k == KIndex && x.reaches(ev.val, isReader) {
				// an array filled byte by byte
				for _, l := range leaves(recv, pt.Elem(), "") {
					if _, isArr := l.typ.Underlying().(*types.Array); isArr && l.addr == ev.addr.args[0] {
						for h := range tlLoop(ev.frame.fn).header {
							if tlLoop(ev.frame.fn).body[h][ev.instr.Block()] {
								if wholeArray(ev.frame.fn, h, ev.instr) {
									st.add(Atom{name: "set", s: l.name})
								}
							}
						}
					}
				}
			}
			if ev.kind == EvStore && ev.addr.k == KIndex {
				if li := tlLoop(ev.frame.fn); ev.frame.fn == ev.instr.Parent() {
					for h := range li.header {
						if li.body[h][ev.instr.Block()] {
							if ok, is := elementOfTurn(ev.frame.fn, h, ev.instr); is {
								r.check(x.reaches(ev.val, isReader) || ev.val.has(func(y *Term) bool { return y.k == KCall }), "field-set", short+": element", ev.instr.Pos(), st.path(15), "an element of the decoded slice (%s) is not set from the stream", ev.val)
								r.check(ok, "field-set", short+": element by element", ev.instr.Pos(), st.path(15), "the turns don't set the elements of the decoded slice one after the other, from the first to the last")
							}
						}
					}
				}
				st.add(Atom{name: "elem", s: loopKeyOf(ev)})
			}
			if ev.kind == EvBack && storesElements(ev.frame.fn, ev.frame.blk) {
				r.check(len(st.all("elem")) > 0, "field-set", short+": element set in every turn", ev.instr.Pos(), st.path(15), "an element of the decoded slice is passed over")
				st.clear("elem")
			}
			if ev.kind == EvStore && ev.addr.k == KIndex && x.reaches(ev.val, isReader) {
				elems[rootOf(ev.addr).String()] = true
			}
			if ev.kind != EvReturn {
				return
			}
			_, ok := successFacts(st, ev.args)
			if !ok {
				return
			}
			for _, l := range leaves(recv, pt.Elem(), "") {
				cons := short + ": " + l.name
				v := x.load(st, l.addr, l.typ)
				from := x.reaches(v, isReader)
				if !from {
					if s := x.snap(st, v, 0); s != nil {
						from = x.reaches(s, isReader)
					}
				}
				_, isSlice := l.typ.Underlying().(*types.Slice)
				if v.k == KConv || v.k == KMake || isSlice {
					if m := v.find(func(y *Term) bool { return y.k == KMake && y.op == "slice" }); m != nil && !emptyMake(m) {
						cons := cons + " elements"
						slices = append(slices, cons+"|"+m.String())
						if s := x.snap(st, m, 0); s != nil && x.reaches(s, isReader) {
							elems[m.String()] = true
						}
					}
				}
				from = from || st.has(Atom{name: "set", s: l.name})
				if !from && isSlice && st.flag("nothing") {
					continue
				}
				if from {
					set[cons] = true
				}
				if from {
					why := cutOrChanged(v)
					if s := x.snap(st, v, 0); why == "" && s != nil && v.k == KAlloc {
						why = cutOrChanged(s)
					}
					r.check(why == "", "field-set", cons+" whole", ev.instr.Pos(), st.path(25), "the field does not hold what was decoded: %s", why)
				}
				r.check(from, "field-set", cons, ev.instr.Pos(), st.path(25), "success is reported on a path where the field was not set from the stream (it holds %s)", v)
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
		appendedInEveryTurn(p, r, fn)
		for _, s := range slices {
			i := strings.Index(s, "|")
			r.check(elems[s[i+1:]], "field-set", s[:i], fn.Pos(), nil, "the slice is made but its elements are never set from the stream")
		}
		for _, l := range leaves(tt.mk(Term{k: KUnk, op: "recv", typ: pt}), pt.Elem(), "") {
			r.check(set[short+": "+l.name], "field-set", short+": "+l.name, fn.Pos(), nil, "no path sets the field from the stream")
		}
	}
	// the generic decoder
	for _, fn := range p.codecMethods("Decode") {
		checkDecode(p, r, fn)
	}
	checkReadAll(p, r)
	checkReturned(p, r)
	r.need("field-set", 8)
	r.need("pointer-receiver", 5)
	r.need("decoded", 3)
	checkCollected(p, r, "all-fields", inPkgs("pkg/protocol"), "")
	r.need("all-fields", 1)
}

func checkDecode(p *Prog, r *Report, fn *ssa.Function) {
	if len(fn.Params) < 2 {
		return
	}
	x := newExec(p)
	x.inline = codecInline
	var dec, v *Term
	isDec := func(t *Term) bool { return t == dec }
	isV := func(t *Term) bool { return t == v }
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		noteNothing(x, st, ev, isV)
		switch ev.kind {
		case EvStart:
			dec, v = x.val(st, fn.Params[0]), x.val(st, fn.Params[1])
		case EvResult:
			src, dst := false, (*Term)(nil)
			for _, a := range ev.args {
				if x.reaches(a, isDec) && !x.reaches(a, isV) {
					src = true
				}
				if x.reaches(a, isV) {
					dst = a
				}
			}
			if ev.op == "encoding/binary.Read" || ev.op == "io.ReadFull" || opIn(ev.op, "pkg/binary.") {
				if src && dst != nil {
					st.add(Atom{name: "filled", a: dst, s: ev.op})
					if fi := fieldIndex(dst); fi != nil {
						st.add(Atom{name: "field", a: fi})
						ok := strings.Contains(dst.String(), "Addr")
						r.check(ok, "all-fields", short+": field by address", ev.instr.Pos(), st.path(10), "a field is decoded into a copy")
					}
				}
			}
		case EvBack:
			n := len(st.all("field"))
			if v == nil || !strings.Contains(loopBound(ev.frame.fn, ev.frame.blk), "NumField") {
				r.check(v == nil || n == 0, "all-fields", short+": every field decoded", ev.instr.Pos(), st.path(15), "the number of fields is not the bound of the loop over them")
				return
			}
			r.check(n > 0, "all-fields", short+": every field decoded", ev.instr.Pos(), st.path(15), "a field is passed over")
			lc := loopCounter(ev.frame.fn, ev.frame.blk)
			r.check(lc == "", "all-fields", short+": from first to last", ev.instr.Pos(), nil, "%s", lc)
			st.clear("field")
		case EvReturn:
			_, ok := successFacts(st, ev.args)
			if !ok {
				return
			}
			which := "other types"
			for t, b := range st.facts {
				if b && t.k == KExtract && t.idx == 1 && t.args[0].k == KAssert {
					which = shortType(t.args[0].typ)
				}
			}
			as := st.all("filled")
			if len(as) == 0 && st.flag("nothing") {
				return
			}
			r.check(len(as) > 0, "decoded", short+": "+which, ev.instr.Pos(), st.path(15), "success is reported but the value was not filled from the stream")
			for _, a := range as {
				d := a.a.strip()
				cp := d.k == KAlloc
				r.check(!cp, "decoded", short+": "+which, ev.instr.Pos(), st.path(15), "a copy is filled instead of the value of the caller")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// fieldIndex: the index of the struct field a reflect value was got from.
func fieldIndex(t *Term) *Term {
	c := t.find(func(y *Term) bool { return y.k == KCall && y.op == "(reflect.Value).Field" })
	if c == nil || len(c.args) < 2 {
		return nil
	}
	return c.args[len(c.args)-1]
}

// loopBound: the upper bound the loop compares its counter with, as text.
func loopBound(f *ssa.Function, h *ssa.BasicBlock) string {
	b := loopCond(f, h)
	if b == nil {
		return ""
	}
	s := ""
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if t := c.Call.StaticCallee(); t != nil {
				s += fname(t) + " "
			} else if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
				s += bi.Name() + " "
			} else if c.Call.IsInvoke() {
				s += c.Call.Method.Name() + " "
			}
		}
	}
	return s
}

// loopCond: the comparison that decides whether the loop goes on.
func loopCond(f *ssa.Function, h *ssa.BasicBlock) *ssa.BinOp {
	body := tlLoop(f).body[h]
	for b := range body {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (!body[b.Succs[0]] || !body[b.Succs[1]]) && b == h {
			if c, ok := i.Cond.(*ssa.BinOp); ok {
				return c
			}
		}
	}
	return nil
}

// loopCounter: does the loop count from 0, by 1, up to its bound? "" if so.
func loopCounter(f *ssa.Function, h *ssa.BasicBlock) string { return loopCounterFrom(f, h, 0) }

func loopCounterFrom(f *ssa.Function, h *ssa.BasicBlock, first int64) string {
	c := loopCond(f, h)
	if c == nil {
		return "the loop has no comparison with its bound"
	}
	x, y, op := c.X, c.Y, c.Op.String()
	if _, ok := x.(*ssa.Phi); !ok {
		if _, ok := y.(*ssa.Phi); ok {
			x, y = y, x
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
		}
	}
	// range loops compare phi+1
	off := int64(0)
	if b, ok := x.(*ssa.BinOp); ok && b.Op.String() == "+" {
		if k, ok := b.Y.(*ssa.Const); ok {
			off, x = k.Int64(), b.X
		}
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return "the loop does not compare a counter with its bound"
	}
	if op != "<" && op != "!=" {
		return "the loop does not stop exactly at its bound"
	}
	_ = y
	body := tlLoop(f).body[h]
	for i, e := range ph.Edges {
		if body[h.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op.String() != "+" || b.X != ssa.Value(ph) {
				return "the counter is not advanced by one"
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
				return "the counter is not advanced by one"
			}
		} else if k, ok := e.(*ssa.Const); !ok || k.Int64()+off != first {
			return "the counter does not start at the first"
		}
	}
	return ""
}

// checkReadAll: a byte-wise read loop keeps what each Read returned.
func checkReadAll(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if !codecPkg(fn) {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && rawRead(c.Common()) && tlLoop(fn).inLoop[b] {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		fn := fn
		x := newExec(p)
		x.inline = codecInline
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if c, ok := ev.instr.(ssa.CallInstruction); ok && rawRead(c.Common()) && x.inLoop(st) {
					st.clear("got")
					st.add(Atom{name: "got", a: ev.res})
					return
				}
				if opIn(ev.op, "bytes.Buffer).Write", "bufio.") {
					st.clear("got")
				}
			case EvCall, EvStore:
				if ev.op == "append" {
					st.clear("got")
				}
			case EvBack:
				for _, a := range st.all("got") {
					// nothing was read
					n := mkExtract(a.a, 0, types.Typ[types.Int])
					ok := st.facts.diff(n, cInt(0, nil)) <= 0 || usedInAppend(fn)
					r.check(ok, "whole-stream", fname(fn), ev.instr.Pos(), st.path(15), "reads on without having kept the bytes just read")
					st.del(a)
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, fname(fn), err)
		if r.count("whole-stream") == 0 {
			r.ok("whole-stream", fname(fn), fn.Pos())
		}
	}
}

func usedInAppend(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") {
					return true
				}
			}
			// read straight into its place: out[read:]
			if s, ok := in.(*ssa.Slice); ok && s.Low != nil {
				return true
			}
		}
	}
	return false
}

func loopKeyOf(ev *Event) string { return fname(ev.frame.fn) }

// storesElements: the loop fills elements of a slice made outside of it.
func storesElements(f *ssa.Function, h *ssa.BasicBlock) bool {
	for b := range tlLoop(f).body[h] {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if m, ok := ia.X.(*ssa.MakeSlice); ok && !tlLoop(f).body[h][m.Block()] {
						return true
					}
				}
			}
		}
	}
	return false
}

// emptyMake: the slice is made without elements, to append them.
func emptyMake(m *Term) bool {
	if len(m.args) == 0 {
		return false
	}
	n, ok := m.args[0].isInt()
	return ok && n == 0
}

// turnsOf: does a loop that appends the elements read have as many turns as were announced? Only
// loops that count from a constant, by one, up to a bound are judged.
func turnsOf(f *ssa.Function, h *ssa.BasicBlock) string {
	c := loopCond(f, h)
	if c == nil || c.Op.String() != "<" && c.Op.String() != "<=" {
		return ""
	}
	ctr, ok := c.X.(*ssa.Phi)
	if !ok || ctr.Block() != h {
		return ""
	}
	first := int64(0)
	if c.Op.String() == "<=" {
		first = 1
	}
	for i, e := range ctr.Edges {
		if k, ok := e.(*ssa.Const); ok && !tlLoop(f).body[h][h.Preds[i]] && k.Value != nil && k.Int64() != first {
			return "the first turn is not for the first element"
		}
	}
	y := unconvV(c.Y)
	if b, ok := y.(*ssa.BinOp); ok && !(b.Op.String() == "-" && c.Op.String() == "<=" && first == 0) {
		return "the number of turns is not the number announced"
	}
	return ""
}

// elementOfTurn: the instruction stores to a slice made outside of the loop (is), at the index of
// the turn, and the turns are for all of its indexes (ok).
func elementOfTurn(f *ssa.Function, h *ssa.BasicBlock, in ssa.Instruction) (ok, is bool) {
	s, _ := in.(*ssa.Store)
	if s == nil {
		return false, false
	}
	ia, _ := s.Addr.(*ssa.IndexAddr)
	if ia == nil {
		return false, false
	}
	m, _ := ia.X.(*ssa.MakeSlice)
	if m == nil || tlLoop(f).body[h][m.Block()] {
		return false, false
	}
	c := loopCond(f, h)
	if c == nil || loopCounter(f, h) != "" {
		return false, true
	}
	ctr, bound := c.X, c.Y
	if ia.Index != ctr {
		ctr, bound = bound, ctr
	}
	if ia.Index != ctr {
		return false, true
	}
	if bound == m.Len {
		return true, true
	}
	if l, isCall := bound.(*ssa.Call); isCall {
		bi, isB := l.Call.Value.(*ssa.Builtin)
		return isB && bi.Name() == "len" && l.Call.Args[0] == ssa.Value(m), true
	}
	return false, true
}

// wholeArray: the loop sets the elements of an array one after the other, from the first to the last.
func wholeArray(f *ssa.Function, h *ssa.BasicBlock, in ssa.Instruction) bool {
	s, _ := in.(*ssa.Store)
	if s == nil {
		return false
	}
	ia, _ := s.Addr.(*ssa.IndexAddr)
	if ia == nil {
		return false
	}
	at, ok := pointee(ia.X.Type()).Underlying().(*types.Array)
	c := loopCond(f, h)
	if !ok || c == nil || loopCounter(f, h) != "" {
		return false
	}
	ctr, bound := c.X, c.Y
	if ia.Index != ctr {
		ctr, bound = bound, ctr
	}
	k, isC := bound.(*ssa.Const)
	return ia.Index == ctr && isC && k.Int64() == at.Len()
}

// checkReturned: the operations of the decoder that return what they read.
func checkReturned(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		s := fn.Signature
		if !codecPkg(fn) || s.Recv() == nil || fn.Parent() != nil || !hasErrResult(fn) || s.Results().Len() != 2 || !strings.HasSuffix(pointee(s.Recv().Type()).String(), ".Decoder") || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if _, ok := s.Results().At(0).Type().Underlying().(*types.Struct); ok {
			continue // reading to the end, where there may be nothing
		}
		x := newExec(p)
		x.inline = codecInline
		short := fname(fn)
		var dec *Term
		isDec := func(t *Term) bool { return t == dec }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvStart:
				dec = x.val(st, fn.Params[0])
			case EvReturn:
				_, ok := successFacts(st, ev.args)
				if !ok {
					return
				}
				v := ev.args[0]
				from := x.reaches(v, isDec)
				if s := x.snap(st, v, 0); !from && s != nil {
					from = x.reaches(s, isDec)
				}
				if es, ok := x.elems(st, v); !from && ok {
					for _, e := range es {
						from = from || x.reaches(e, isDec)
					}
				}
				r.check(from, "returned", short, ev.instr.Pos(), st.path(15), "success is reported with %s, which was not read from the stream", v)
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
}

// appendedInEveryTurn: a decoding loop that appends what it decoded does so in every turn.
func appendedInEveryTurn(p *Prog, r *Report, fn *ssa.Function) {
	li := tlLoop(fn)
	for h := range li.header {
		var at []*ssa.BasicBlock
		for b := range li.body[h] {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						at = append(at, b)
					}
				}
			}
		}
		if len(at) == 0 {
			continue
		}
		why := turnsOf(fn, h)
		r.check(why == "", "field-set", fname(fn)+": as many elements as announced", at[0].Instrs[0].Pos(), nil, "%s", why)
		for _, pr := range h.Preds {
			if !li.body[h][pr] {
				continue
			}
			// can the back edge be reached from the header without passing an append?
			seen := map[*ssa.BasicBlock]bool{}
			for _, b := range at {
				seen[b] = true
			}
			skip := !seen[h]
			if skip {
				skip = false
				stack := []*ssa.BasicBlock{h}
				for len(stack) > 0 {
					b := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if seen[b] || !li.body[h][b] {
						continue
					}
					seen[b] = true
					if b == pr {
						skip = true
					}
					for _, s := range b.Succs {
						if s != h {
							stack = append(stack, s)
						}
					}
				}
			}
			r.check(!skip, "field-set", fname(fn)+": element appended in every turn", at[0].Instrs[0].Pos(), nil, "an element read is passed over")
		}
	}
}
