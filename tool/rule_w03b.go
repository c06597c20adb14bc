package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkFilterParams: filters are decoded with the parameters of BIP 158's basic filters.
func checkFilterParams(p *Prog, r *Report, rule, pkg string) {
	n := 0
	for _, fn := range p.Funcs {
		if rel(pkgPathOf(fn)) != pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "btcutil/gcs") {
					continue
				}
				want := map[string][2]int{"FromNBytes": {0, 1}, "FromBytes": {1, 2}, "BuildGCSFilter": {0, 1}}
				at, ok := want[g.Name()]
				if !ok {
					continue
				}
				n++
				for i, v := range []int64{19, 784931} {
					k, isC := c.Common().Args[at[i]].(*ssa.Const)
					var got int64
					if isC && k.Value != nil {
						got, _ = constant.Int64Val(constant.ToInt(k.Value))
					}
					r.check(isC && got == v, rule, fname(fn)+": filter parameters", in.Pos(), nil, "the filter is decoded with the parameter %s instead of %d, that of basic filters", c.Common().Args[at[i]], v)
				}
			}
		}
	}
	if n == 0 {
		r.anchorLost("the decoding of filters in " + pkg)
	}
}

// checkWholeLoops: the loops of an encoder write all elements of what they write.
func checkWholeLoops(p *Prog, r *Report, fn *ssa.Function) {
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, isB := s.Elem().Underlying().(*types.Basic)
		return !isB || b.Kind() != types.Uint8
	}
	for h := range p.loop(fn).header {
		c := overList(p, h, isList)
		if c == nil {
			continue
		}
		why := wholeList(h, c)
		r.check(why == "", "count", fname(fn)+": every element", loopPos(p, h), nil, "not every element that is counted is written: %s", why)
	}
}

// checkVarStrs: the length of a string on the wire is the number of its bytes.
func checkVarStrs(p *Prog, r *Report) {
	n := 0
	for _, fn := range p.Funcs {
		if rel(pkgPathOf(fn)) != "pkg/protocol" || fn.Parent() != nil || fn.Signature.Results().Len() == 0 || wireName(fn.Signature.Results().At(0).Type()) != "VarStr" {
			continue
		}
		fn := fn
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return codecInline(x, st, f, c) && f.Name() != "newFromInt" && !strings.HasPrefix(f.Name(), "NewVar")
		}
		short := fname(fn)
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			n++
			v := ev.args[0]
			if v.k == KCall && v.fn != nil && wireName(v.typ) == "VarStr" {
				return
			}
			ln, s := x.fieldOf(st, v, "Length"), x.fieldOf(st, v, "String")
			if ln == nil || s == nil {
				return
			}
			// the same number, whatever it is wrapped in
			l := ln.find(func(y *Term) bool { return y.k == KCall && y.op == "len" })
			ok := l != nil && sameBytes(l.args[0], s) && !ln.has(func(y *Term) bool { return y.k == KBin })
			r.check(ok, "count", short+": length", ev.instr.Pos(), st.path(10), "the length written (%s) is not that of the string's bytes", ln)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("what makes strings for the wire")
	}
}

// sameBytes: the string, or its bytes.
func sameBytes(a, s *Term) bool {
	if a == s {
		return true
	}
	return a.k == KConv && len(a.args) == 1 && a.args[0] == s && strings.HasSuffix(a.typ.String(), "[]byte")
}

// checkVarintNumber: a varint stands for the number that is in it.
func checkVarintNumber(p *Prog, r *Report) {
	fn := p.methodAny("pkg/protocol.VarInt", "Int")
	if fn == nil {
		r.anchorLost("VarInt.Int")
		return
	}
	x := newExec(p)
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvReturn {
			return
		}
		if _, ok := successFacts(st, ev.args); !ok {
			return
		}
		v := ev.args[0]
		if c, ok := v.isInt(); ok {
			// a number too great for an int
			r.check(c == 1<<63-1, "count", short+": number", ev.instr.Pos(), st.path(10), "the number is %d, whatever it was", c)
			return
		}
		t, w := v, int64(8)
		for t.k == KConv && t.typ != nil {
			if b := widthOf2(t.typ); b > 0 && b < w {
				w = b
			}
			t = t.args[0]
		}
		from := widthOf2(t.typ)
		if t.k == KExtract && len(t.args) > 0 && from == 0 {
			from = widthOf2(t.args[0].typ)
		}
		r.check(from > 0 && w >= from, "count", short+": number", ev.instr.Pos(), st.path(10), "the number (%s) is cut to %d bytes", v, w)
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// cutOrChanged: why the value is not the one that was decoded, as far as can be seen.
func cutOrChanged(v *Term) string {
	why := ""
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if why != "" || d > 12 || t == nil {
			return
		}
		switch t.k {
		case KSlice:
			if t.op == "sub" {
				why = "part of it is cut off"
			}
		case KCall:
			switch {
			case strings.HasPrefix(t.op, "strings.") || strings.HasPrefix(t.op, "bytes."):
				why = "it is changed by " + t.op
			}
			return // what other operations make of it is theirs
		case KOut:
			return
		}
		for _, a := range t.args {
			walk(a, d+1)
		}
	}
	walk(v, 0)
	return why
}
