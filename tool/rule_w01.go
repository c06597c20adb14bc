package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W01", checkW01) }

func codecPkg(f *ssa.Function) bool {
	pp := rel(pkgPathOf(f))
	return pp == "pkg/binary" || pp == "pkg/protocol"
}

// eofTolerant: reads until the end of its source and takes the end for success.
func eofTolerant(op string) bool {
	return opIn(op, "io.Copy", "io.ReadAll", "io/ioutil.ReadAll", "bytes.Buffer).ReadFrom", "io.CopyBuffer", "bufio.Reader).WriteTo", "io.WriterTo).WriteTo") && !opIn(op, "io.CopyN")
}

// rawRead: a Read that may return fewer bytes than asked for.
func rawRead(c *ssa.CallCommon) bool {
	name, sig := "", c.Signature()
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		if strings.HasPrefix(fname(f), "math/rand") || strings.HasPrefix(fname(f), "crypto/rand") {
			return false
		}
		name = f.Name()
	}
	if name != "Read" || sig.Results().Len() != 2 || sig.Params().Len() != 1 {
		return false
	}
	return isByteSlice(sig.Params().At(0).Type())
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func checkW01(p *Prog, r *Report) {
	r.rule("errors", "a codec function reports success only if every call it made that can fail is known to have succeeded")
	r.rule("short-read", "the bytes got by a plain Read are used only up to the count it returned; reads to the end of a limited source are checked for their length")
	r.rule("whole-buffer", "a read in full fills the whole of the buffer it is given")
	for _, fn := range p.Funcs {
		fn := fn
		if !codecPkg(fn) || len(fn.Blocks) == 0 {
			continue
		}
		ef := &errFlow{rule: "errors"}
		ef.exempt = func(x *Exec, st *State, a Atom) bool {
			// the end of the stream ends a plain byte-wise Read by design
			c, ok := a.b.site.(ssa.CallInstruction)
			if !ok || !rawRead(c.Common()) {
				return false
			}
			return isEOF(st.facts, a.a)
		}
		ef.extra = func(x *Exec, st *State, ev *Event) {
			unread(x, st, r, fn, ev)
			switch ev.kind {
			case EvResult:
				if eofTolerant(ev.op) {
					for _, a := range ev.args {
						if lim := limitOf(a); lim != nil {
							st.add(Atom{name: "limited", a: ev.res, b: lim, s: ev.op})
							r.ok("short-read", fname(fn)+": "+ev.op+" of a limited source", ev.instr.Pos())
						}
					}
				}
				if c, ok := ev.instr.(ssa.CallInstruction); ok && rawRead(c.Common()) && !x.inLoop(st) && len(ev.args) > 0 {
					if b := ev.args[len(ev.args)-1]; rootOf(b).k == KParam || rootOf(b).k == KFree {
						st.add(Atom{name: "limited", a: ev.res, b: x.lenOf(st, b), s: ev.op})
					}
				}
				if ev.op == "io.ReadAtLeast" && len(ev.args) == 3 {
					n := x.lenOf(st, ev.args[1])
					r.check(st.facts.diff(n, ev.args[2]) <= 0, "whole-buffer", fname(fn)+": io.ReadAtLeast", ev.instr.Pos(), st.path(20), "reads fewer bytes than the buffer holds")
				}
			case EvReturn:
				if !hasErrResult(fn) {
					return
				}
				f, ok := successFacts(st, ev.args)
				if !ok {
					return
				}
				for _, a := range st.all("limited") {
					full := false
					for _, n := range x.counts(st, a.a) {
						if f.diff(a.b, n) <= 0 {
							full = true
						}
					}
					if !full {
						r.bad("short-read", fname(fn)+": "+a.s+" of a limited source", ev.instr.Pos(), st.path(20), "%s may stop short, success is reported without checking that everything was read", a.s)
					}
				}
			}
		}
		ef.run(p, r, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && rawRead(c.Common()) {
					msg := rawReadUse(c)
					r.check(msg == "", "short-read", fname(fn)+": Read", c.Pos(), nil, "%s", msg)
				}
			}
		}
	}
	checkFullBuffers(p, r)
	r.need("errors", 40)
}

func isEOF(f Facts, e *Term) bool { return f.isErr(e, "io.EOF") }

// limitOf: the number of bytes an io.LimitReader among the sources lets through.
func limitOf(a *Term) *Term {
	t := a.find(func(y *Term) bool { return y.k == KCall && y.op == "io.LimitReader" })
	if t == nil {
		return nil
	}
	return t.args[len(t.args)-1]
}

// counts: terms that stand for the number of bytes read by a call
func (x *Exec) counts(st *State, res *Term) []*Term {
	tp, ok := res.typ.(*types.Tuple)
	if !ok {
		return nil
	}
	var r []*Term
	for i := 0; i < tp.Len(); i++ {
		e := mkExtract(res, i, tp.At(i).Type())
		if isIntType(tp.At(i).Type()) {
			r = append(r, e)
		} else if isByteSlice(tp.At(i).Type()) {
			r = append(r, x.lenOf(st, e))
		}
	}
	return r
}

// rawReadUse checks the uses of the buffer and of the count of a plain Read.
// unread: a plain Read may give its last bytes together with the end of the stream, so
// they are taken before the error it gave is looked at.
func unread(x *Exec, st *State, r *Report, fn *ssa.Function, ev *Event) {
	count := func(a Atom) *Term { return mkExtract(a.a, 0, nil) }
	taken := func(t *Term) {
		for _, a := range st.all("unread") {
			if n := count(a); x.reaches(t, func(y *Term) bool { return y == n || y.k == KExtract && y.idx == 0 && y.args[0] == a.a }) {
				st.del(a)
			}
		}
	}
	lost := func() {
		for _, a := range st.all("unread") {
			r.bad("short-read", fname(fn)+": last bytes", ev.instr.Pos(), st.path(20), "the bytes a Read gives together with the end of the stream are lost")
			st.del(a)
		}
	}
	switch ev.kind {
	case EvResult:
		if c, ok := ev.instr.(ssa.CallInstruction); ok && rawRead(c.Common()) && ev.res != nil {
			st.add(Atom{name: "unread", a: ev.res})
		}
	case EvCall, EvStore:
		for _, a := range ev.args {
			taken(a)
		}
		if ev.val != nil {
			taken(ev.val)
		}
	case EvBranch:
		for _, a := range st.all("unread") {
			if st.facts.diff(count(a), cInt(0, nil)) <= 0 || st.facts.diff(mkExtract(a.a, 0, types.Typ[types.Int]), cInt(0, nil)) <= 0 {
				st.del(a)
			}
		}
	case EvBack:
		lost()
	case EvReturn:
		if len(st.frames) > 1 || !hasErrResult(fn) {
			return
		}
		for _, v := range ev.args {
			taken(v)
		}
		if _, ok := successFacts(st, ev.args); ok {
			lost()
		}
	}
}

func rawReadUse(c *ssa.Call) string {
	var n ssa.Value
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
			n = e
		}
	}
	if n == nil || len(*n.Referrers()) == 0 {
		return "the number of bytes read is ignored"
	}
	args := c.Call.Args
	buf := args[len(args)-1]
	var uses func(v ssa.Value, d int) string
	uses = func(v ssa.Value, d int) string {
		if v.Referrers() == nil {
			return ""
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Slice:
				if u == buf || u.X != v {
					continue
				}
				if u.High != n && usedAfter(c, u) {
					return "the buffer is used beyond the bytes that were read"
				}
			case *ssa.DebugRef:
			case *ssa.Call:
				if u == c {
					continue
				}
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if usedAfter(c, u) {
					return "the buffer is used as if it had been filled"
				}
			case *ssa.IndexAddr:
				// buf[i] with i below the count is left to the branch on the count
				if usedAfter(c, u) && !guardedByCount(n, u) {
					return "an element of the buffer is used without checking the count read"
				}
			case ssa.Instruction:
				if usedAfter(c, u) {
					return "the buffer is used as if it had been filled"
				}
			}
		}
		return ""
	}
	if m := uses(buf, 0); m != "" {
		return m
	}
	if s, ok := buf.(*ssa.Slice); ok {
		return uses(s.X, 0)
	}
	return ""
}

func usedAfter(c, u ssa.Instruction) bool {
	if c.Block() == u.Block() {
		for _, in := range c.Block().Instrs {
			if in == u {
				return false
			}
			if in == c {
				return true
			}
		}
	}
	return c.Block().Dominates(u.Block())
}

// guardedByCount: a comparison of the count dominates the use
func guardedByCount(n ssa.Value, u ssa.Instruction) bool {
	for _, c := range *n.Referrers() {
		b, ok := c.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, i := range *b.Referrers() {
			if f, ok := i.(*ssa.If); ok {
				for _, s := range f.Block().Succs {
					if len(s.Preds) == 1 && s.Dominates(u.Block()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkFullBuffers: io.ReadFull is given the whole array or the whole slice made for it.
func checkFullBuffers(p *Prog, r *Report) {
	for _, fn := range p.roots() {
		if !codecPkg(fn) {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return codecPkg(f) && f.Name() != "Decode" && f.Name() != "UnmarshalBinary" && smallHelper(f)
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvCall || ev.op != "io.ReadFull" || len(ev.args) != 2 {
				return
			}
			b := ev.args[1]
			full := true
			why := ""
			for b.k == KSlice && b.op == "sub" {
				base := x.lenOf(st, b.args[0])
				hi := b.args[2]
				if lo, ok := b.args[1].isInt(); !ok || lo != 0 {
					full, why = false, "does not start at the beginning of the buffer"
				}
				if !hi.isNil() && st.facts.diff(base, hi) > 0 {
					full, why = false, "stops short of the end of the buffer"
				}
				b = b.args[0]
			}
			r.check(full, "whole-buffer", fname(ev.frame.fn)+": io.ReadFull into "+b.String(), ev.instr.Pos(), st.path(15), "the read %s", why)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, fname(fn), err)
	}
}
