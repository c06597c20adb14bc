package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N01", checkN01) }

// fieldOwner: the value (or the pointer) whose field of that name t is, nil if it is none.
func fieldOwner(t *Term, name string) *Term {
	for t != nil && t.k == KConv {
		t = t.args[0]
	}
	switch {
	case t == nil:
		return nil
	case t.k == KLoad && t.args[0].k == KField && t.args[0].fld.Name() == name:
		return t.args[0].args[0]
	case t.k == KFieldV && t.fld.Name() == name:
		if t.args[0].k == KLoad {
			return t.args[0].args[0]
		}
		return t.args[0]
	}
	return nil
}

func isBlockHeader(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Header" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "go-elements/block")
}

// sendsHeader: the instruction hands a block header to another goroutine.
func sendsHeader(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Send:
		return isBlockHeader(i.X.Type()) || isBlockHeader(pointee(i.X.Type()))
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.SendOnly && (isBlockHeader(s.Send.Type()) || isBlockHeader(pointee(s.Send.Type()))) {
				return true
			}
		}
	}
	return false
}

func isOp(op, suffix string) bool { return strings.HasSuffix(op, suffix) }

func storesHeaders(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "WriteHeaders"
}

// headerPtr: the pointer the header value was read through.
func headerPtr(v *Term) *Term {
	v = stripIface(v)
	if v.k == KLoad {
		return v.args[0]
	}
	return v
}

// elemOf: t is an element (or the address of one) of a collection.
func elemOf(t *Term) (coll, idx *Term, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	if t.k == KLoad && t.args[0].k == KIndex {
		t = t.args[0]
	}
	if t.k == KIndex || t.k == KIndexV {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

func mentionsType(t *Term, name string) bool {
	return t.has(func(y *Term) bool {
		return y.typ != nil && (wireName(y.typ) == name || wireName(pointee(y.typ)) == name)
	})
}

func checkN01(p *Prog, r *Report) {
	r.rule("block", "a header received in a block message is passed on only if its height is one above the tip")
	r.rule("batch-sequence", "headers of a headers message are passed on only if all are in consecutive order")
	r.rule("batch-first", "headers of a headers message are passed on only if the first is at most one above the tip")
	r.rule("batch-above", "only headers above the tip are passed on")
	r.rule("batch-order", "headers are passed on in order, leaving out none in between")
	r.rule("sequence-check", "the check of the order compares every two neighbours")
	r.rule("stored", "only headers passed on are stored")

	sends := p.reach(false, sendsHeader)
	seqName := "checkHeadersInSequence"
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) == "pkg/node" && f.Parent() == nil && takesReader(f) && sends[f] {
			calls, _, _ := p.staticCallers()
			only := false // called by another such function
			for _, c := range calls[f] {
				q := c.Parent()
				if takesReader(q) && sends[q] && q != f && rel(pkgPathOf(q)) == "pkg/node" && len(decodedIn(p, q)) > 0 {
					only = true
				}
			}
			if !only {
				roots = append(roots, f)
			}
		}
	}
	covered := map[ssa.Instruction]bool{}
	for _, f := range roots {
		checkHeaderSender(p, r, f, seqName, covered)
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if sendsHeader(in) && !covered[in] {
			r.bad("stored", fname(fn)+": hands on a header", in.Pos(), nil, "a header is handed on that was not received in a block or headers message")
		}
		if storesHeaders(in) {
			r.ok("stored", fname(fn)+": WriteHeaders", in.Pos())
		}
	})
	fn := p.fun("pkg/node." + seqName)
	if fn == nil {
		r.anchorLost("the function that checks the order of headers")
	} else {
		checkSequence(p, r, fn)
	}
	// what is stored is what was received from the channel
	writes := p.reach(false, storesHeaders)
	n := 0
	for _, f := range p.Funcs {
		if !writes[f] || f.Parent() != nil || rel(pkgPathOf(f)) != "pkg/node" {
			continue
		}
		calls, _, gos := p.staticCallers()
		if len(calls[f]) > 0 && !gos[f] {
			onlyPlain := true
			for _, c := range calls[f] {
				if !writes[c.Parent()] {
					onlyPlain = false
				}
			}
			if onlyPlain {
				continue
			}
		}
		n++
		x := newExec(p)
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(g)) == "pkg/node" && (writes[g] || smallHelper(g))
		}
		short := fname(f)
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvCall || !isOp(ev.op, ".WriteHeaders") || ev.call.m == nil {
				return
			}
			v := ev.args[len(ev.args)-1]
			es, ok := x.elems(st, v)
			good := ok && len(es) > 0
			for _, e := range es {
				e = stripIface(e)
				if !(e.k == KRecv || e.k == KExtract && (e.args[0].k == KRecv || e.args[0].k == KSelect)) {
					good = false
				}
			}
			r.check(good, "stored", short+": WriteHeaders", ev.instr.Pos(), st.path(15), "what is stored (%s) is not just what was received from the goroutines that checked it", v)
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	r.need("block", 1)
	r.need("batch-sequence", 1)
	checkCollected(p, r, "stored", inPkgs("pkg/node"), "block.Header")
	r.need("stored", 1)
}

func checkHeaderSender(p *Prog, r *Report, fn *ssa.Function, seqName string, covered map[ssa.Instruction]bool) {
	sends := p.reach(false, sendsHeader)
	x := newExec(p)
	touches := func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			s := f.Signature.Params().At(i).Type().String()
			if strings.Contains(s, "go-elements/block.Header") || strings.Contains(s, "protocol.MsgHeaders") || strings.Contains(s, "protocol.MsgBlock") {
				return true
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s := f.Signature.Results().At(i).Type().String()
			if strings.Contains(s, "go-elements/block.Header") || strings.Contains(s, "protocol.MsgHeaders") || strings.Contains(s, "protocol.MsgBlock") {
				return true
			}
		}
		return false
	}
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		if rel(pkgPathOf(f)) != "pkg/node" || f.Name() == seqName {
			return false
		}
		return sends[f] || touches(f) || smallHelper(f)
	}
	x.pure = func(op string) bool { return isOp(op, "pkg/node."+seqName) }
	short := fname(fn)
	tipOf := func(t *Term) bool {
		o := fieldOwner(t, "Height")
		return o != nil && o.has(func(y *Term) bool { return y.k == KCall && isOp(y.op, ".ChainTip") })
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			switch {
			case isOp(ev.op, ".ChainTip"):
				st.clear("tiperr")
				st.unset("nostored")
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "tiperr", a: e})
				}
			case ev.op == "append":
				for _, e := range ev.args[1:] {
					if e.typ == nil || !isBlockHeader(pointee(e.typ)) {
						continue
					}
					st.set("took")
					st.set("some")
					ok := false
					for _, g := range st.all("gt") {
						if g.a == e {
							ok = true
						}
					}
					if !ok {
						st.set("badappend")
					}
				}
			}
		case EvBranch:
			for _, a := range st.all("tiperr") {
				if st.facts.isErr(a.a, "pkg/repository.ErrNoBlocksHeaders") {
					st.set("nostored")
				}
			}
			c := ev.addr
			if q := c.find(func(y *Term) bool { return y.k == KCall && isOp(y.op, "pkg/node."+seqName) }); q != nil {
				if v, known := st.facts.eval(q); known && v {
					if len(q.args) > 0 && mentionsType(q.args[len(q.args)-1], "MsgHeaders") {
						st.set("seq")
					}
				}
			}
			// heights compared with the tip's
			var tips, hs []*Term
			c.has(func(y *Term) bool {
				if o := fieldOwner(y, "Height"); o != nil && (y.k == KLoad || y.k == KFieldV) {
					if tipOf(y) {
						tips = append(tips, y)
					} else {
						hs = append(hs, y)
					}
				}
				return false
			})
			if len(tips) == 0 && st.flag("nostored") {
				tips = append(tips, cInt(0, types.Typ[types.Uint32]))
			}
			for _, h := range hs {
				o := fieldOwner(h, "Height")
				for _, t := range tips {
					up, down := st.facts.diff(h, t), st.facts.diff(t, h)
					if up <= 1 {
						st.add(Atom{name: "le1", a: o})
					}
					if up <= 0 {
						if x.inLoop(st) {
							st.set("below")
						}
					}
					if down <= -1 {
						st.add(Atom{name: "gt", a: o})
					}
				}
			}
			if !x.inLoop(st) && st.flag("seen") {
				st.unset("seen") // the loop was left amid the batch
				st.unset("passed")
			}
			if l := c.find(func(y *Term) bool {
				return y.k == KCall && y.op == "len" && len(y.args) == 1 && y.args[0].k == KAppend
			}); l != nil && st.facts.diff(l, cInt(0, l.typ)) <= 0 && st.flag("some") {
				ev.prune = true // something was selected
			}
		case EvBack:
			if st.flag("took") || st.flag("below") || st.flag("seen") {
				h := ev.frame.blk
				if st.flag("seen") && !st.flag("took") && !st.flag("below") {
					st.set("gap")
					r.bad("batch-order", short+": loop", h.Instrs[0].Pos(), st.path(20), "a header of the batch may be left out although it is above the tip")
				}
			}
			if st.flag("seen") && st.flag("below") {
				st.set("passed")
			}
			st.unset("took")
			st.unset("below")
			st.unset("seen")
			for _, n := range []string{"gt", "le1"} {
				for _, a := range st.all(n) {
					if hasStale(a.a) || len(a.a.gens) > 0 && !a.a.has(func(y *Term) bool { return y.k == KOut }) {
						st.del(a)
					}
				}
			}
		case EvIndex:
			if x.inLoop(st) && ev.addr != nil && mentionsType(ev.addr, "MsgHeaders") {
				if _, isC := ev.key.isInt(); !isC || x.inLoop(st) {
					if b, k := linear(ev.key); !(b != nil && b.k == KCall && b.op == "len" && k == -1) {
						st.set("seen")
					}
				}
			}
		case EvSend:
			if ev.val == nil || ev.val.typ == nil || !isBlockHeader(ev.val.typ) && !isBlockHeader(pointee(ev.val.typ)) {
				return
			}
			covered[ev.instr] = true
			st.set("took")
			ptr := headerPtr(ev.val)
			if co, _, ok := elemOf(ptr); ok && st.flag("passed") && !st.flag("some") && !st.flag("gap") {
				for _, g := range st.all("gt") {
					if c2, i, ok := elemOf(g.a); ok && c2 == co {
						if b, k := linear(i); b != nil && b.k == KCall && b.op == "len" && k == -1 {
							// no header of the batch was found above the tip although the last is: impossible
							ev.prune = true
							return
						}
					}
				}
			}
			cons := short + ": sends a header"
			gt := func(t *Term) bool { return st.has(Atom{name: "gt", a: t}) }
			if coll, idx, ok := elemOf(ptr); ok {
				cons = short + ": sends headers of a batch"
				r.check(st.flag("seq"), "batch-sequence", cons, ev.instr.Pos(), st.path(20), "the order of the headers was not checked")
				first := false
				for _, a := range st.all("le1") {
					if co, i, ok := elemOf(a.a); ok && mentionsType(co, "MsgHeaders") {
						if n, isC := i.isInt(); isC && n == 0 {
							first = true
						}
					}
				}
				r.check(first, "batch-first", cons, ev.instr.Pos(), st.path(20), "the first header was not found to be at most one above the tip")
				above := gt(ptr)
				why := "the header sent was not found to be above the tip"
				base := coll
				var off *Term
				if base.k == KSlice {
					base = coll.args[0]
					if n, ok := sliceOffset(coll); ok {
						off = cInt(n, types.Typ[types.Int])
					} else if len(coll.args) > 1 {
						off = coll.args[1]
					}
				}
				switch {
				case above:
				case base.k == KAppend || base.k == KStale && strings.HasPrefix(base.op, "append"):
					above = !st.flag("badappend")
					why = "a header was selected without being above the tip"
				default:
					// the slice starts tip+1-first behind the first
					for o := off; o != nil; {
						for o.k == KConv {
							o = o.args[0]
						}
						if b, k := linear(o); b != nil && b.k == KBin && b.op == "-" {
							l, lk := linear(b.args[0])
							rr, rk := linear(b.args[1])
							co, i, ok := elemOf(fieldOwner(rr, "Height"))
							isTip := l != nil && tipOf(l) || l == nil && st.flag("nostored")
							if n, isC := int64(0), false; ok && isTip && co == base {
								if n, isC = i.isInt(); isC && n == 0 && k+lk-rk >= 1 {
									above = true
								}
							}
						}
						break
					}
					for _, g := range st.all("gt") {
						co, i, ok := elemOf(g.a)
						if !ok || co != base {
							continue
						}
						if n, isC := i.isInt(); isC && n == 0 && off == nil && coll.k != KSlice {
							above = true
						}
						if off != nil && st.facts.diff(i, off) <= 0 {
							above = true
						}
					}
				}
				r.check(above, "batch-above", cons, ev.instr.Pos(), st.path(25), "%s", why)
				r.ok("batch-order", cons, ev.instr.Pos())
				why = ""
				if lk := enclosingLoop(ev.instr.Block()); lk == nil {
					why = "the headers are not sent in a loop over them"
				} else {
					why = loopCounter(ev.instr.Parent(), lk)
					if ctr := counterOf(lk); why == "" && ctr != nil {
						if v := counterVal(ev.frame, ctr); v != nil && v.k == KPhi && !idx.contains(v) {
							why = "the header sent is not the one the loop has come to"
						}
					}
				}
				r.check(why == "", "batch-order", cons, ev.instr.Pos(), st.path(10), "%s", why)
				return
			}
			ok := false
			for _, a := range st.all("gt") {
				if (a.a == ptr || a.a == ev.val) && (st.has(Atom{name: "le1", a: a.a})) {
					ok = true
				}
			}
			r.check(ok, "block", cons, ev.instr.Pos(), st.path(20), "the height of the header (%s) was not found to be exactly one above the tip", ptr)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// enclosingLoop: the header of the innermost loop the block is in.
func enclosingLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	li := theProg.loop(b.Parent())
	for h, body := range li.body {
		if body[b] && (best == nil || li.body[best][h]) {
			best = h
		}
	}
	return best
}

// checkSequence: the function answers true only if every two neighbours differ by one.
func checkSequence(p *Prog, r *Report, fn *ssa.Function) {
	cons := fname(fn)
	// phis of the loop that hold an element (or its height) at a fixed distance from a counter
	type carried struct {
		d  int64
		ok bool
	}
	inv := map[*ssa.Phi]*carried{}
	var run func(final bool)
	run = func(final bool) {
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/node" }
		// position of a height term in the batch: index term and constant added to the height
		elem := func(st *State, t *Term) (*Term, bool) {
			if t == nil {
				return nil, false
			}
			for ph, c := range inv {
				if !c.ok || st.top().env[ph] != t {
					continue
				}
				if ctr := counterPhi(ph); ctr != nil {
					if v := counterVal(st.top(), ctr); v != nil {
						return mkBin(token.ADD, v, cInt(c.d, types.Typ[types.Int]), types.Typ[types.Int]), true
					}
				}
			}
			coll, idx, ok := elemOf(t)
			if ok {
				if hasStale(idx) {
					return nil, false
				}
				if off, isS := sliceOffset(coll); coll.k == KSlice && isS {
					return mkBin(token.ADD, idx, cInt(off, types.Typ[types.Int]), types.Typ[types.Int]), true
				} else if coll.k == KSlice {
					return nil, false
				}
				return idx, true
			}
			return nil, false
		}
		height := func(st *State, t *Term) (*Term, bool) { // index of the header whose height t is
			if o := fieldOwner(t, "Height"); o != nil {
				return elem(st, o)
			}
			return elem(st, t)
		}
		lenT := func(t *Term) bool {
			b, _ := linear(t)
			return b != nil && b.k == KCall && b.op == "len"
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvStore:
				if final && !isFreshRoot(rootOf(ev.addr)) {
					r.bad("sequence-check", cons+": store", ev.instr.Pos(), st.path(10), "the check changes what it checks")
				}
			case EvBranch:
				// are all pairs compared?
				for f := range st.facts {
					if f.k != KBin {
						continue
					}
					for _, a := range f.args {
						b, _ := linear(a)
						if !lenT(a) {
							continue
						}
						if st.facts.diff(b, cInt(1, b.typ)) <= 0 {
							st.set("short")
						}
						for val, v := range ev.frame.env {
							if !isIntTerm(v) {
								continue
							}
							if bo, ok := val.(*ssa.BinOp); ok && bo.Op == token.ADD {
								if ph, isPhi := bo.X.(*ssa.Phi); isPhi {
									v = counterVal(ev.frame, ph)
								}
							}
							if v == nil || v.k != KPhi {
								continue
							}
							if sk := st.all("skipped"); len(st.all("paird")) == 0 && len(sk) == 1 {
								// just one turn was made, without a comparison
								n, _ := sk[0].a.isInt()
								if st.facts.diff(b, v)+n+1 <= 1 {
									st.set("short")
								}
							}
							for _, d := range st.all("paird") {
								// the next pair would start at v+n
								n, _ := d.a.isInt()
								if st.facts.diff(b, v) <= 1+n {
									st.set("complete")
								}
							}
						}
					}
				}
				v, isB := ev.val.isBool()
				c := ev.addr
				for c.k == KUn {
					c = c.args[0]
					v = !v
				}
				if !isB || c.k != KBin || c.op != "==" || !v {
					break
				}
				var ts []*Term
				var ks []int64
				for _, a := range c.args {
					b, k := linear(a)
					for b != nil && b.k == KConv {
						b = b.args[0]
					}
					ts, ks = append(ts, b), append(ks, k)
				}
				ia, ok1 := height(st, ts[0])
				ib, ok2 := height(st, ts[1])
				if !ok1 || !ok2 {
					// subtraction of heights compared with 1
					for i := range ts {
						if ts[i] != nil && ts[i].k == KBin && ts[i].op == "-" && ts[1-i] == nil && ks[1-i]-ks[i] == 1 {
							ia, ok1 = height(st, ts[i].args[0])
							ib, ok2 = height(st, ts[i].args[1])
							ks = []int64{0, 1}
							break
						}
					}
				}
				if !ok1 || !ok2 {
					break
				}
				// H[ia]+k0 == H[ib]+k1
				d := st.facts.diff(ia, ib)
				if -st.facts.diff(ib, ia) != d {
					break
				}
				if d == 1 && ks[1]-ks[0] == 1 {
					st.add(Atom{name: "pair", a: ib})
				} else if d == -1 && ks[0]-ks[1] == 1 {
					st.add(Atom{name: "pair", a: ia})
				}
			case EvBack:
				h := ev.frame.blk
				ctr := counterOf(h)
				if ctr == nil {
					if final {
						r.bad("sequence-check", cons, h.Instrs[0].Pos(), st.path(10), "the loop over the headers is not understood")
					}
					return
				}
				next := x.val(st, ctr.Edges[predIndex(h, ev.frame.prev)])
				for _, in := range h.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok || ph == ctr {
						continue
					}
					v := x.val(st, ph.Edges[predIndex(h, ev.frame.prev)])
					var i *Term
					if i, ok = height(st, v); !ok {
						i, ok = elem(st, v)
					}
					if inv[ph] == nil {
						inv[ph] = &carried{ok: true, d: 1 << 50}
					}
					if !ok || v.k == KPhi {
						inv[ph].ok = false
						continue
					}
					d := st.facts.diff(i, next)
					if -st.facts.diff(next, i) != d || inv[ph].d != 1<<50 && inv[ph].d != d {
						inv[ph].ok = false
					}
					inv[ph].d = d
				}
				if !final {
					return
				}
				cur := mkBin(token.SUB, next, cInt(1, types.Typ[types.Int]), types.Typ[types.Int])
				done := false
				for _, a := range st.all("pair") {
					// the pairs run from the first, one further in each turn
					d := st.facts.diff(a.a, cur)
					if -st.facts.diff(cur, a.a) != d {
						continue
					}
					init := ctrInit(ctr)
					skippedOne := false
					for _, sk := range st.all("skipped") {
						if n, _ := sk.a.isInt(); n+d >= 0 {
							skippedOne = true
						}
					}
					if init == nil || *init+d > 0 || skippedOne || ctrStep(ctr) != 1 {
						r.bad("sequence-check", cons, h.Instrs[0].Pos(), st.path(10), "the comparisons do not start with the first header or skip some")
					}
					done = true
					st.clear("paird")
					st.add(Atom{name: "paird", a: cInt(d, types.Typ[types.Int])})
				}
				if n, isC := cur.isInt(); isC && !done && len(st.all("paird")) == 0 && len(st.all("skipped")) < 3 {
					_ = n
					st.add(Atom{name: "skipped", a: cur})
					done = true
				}
				if !done {
					// the last header has no successor
					for f := range st.facts {
						if f.k != KBin {
							continue
						}
						for _, a := range f.args {
							if lenT(a) {
								b, _ := linear(a)
								if st.facts.diff(b, cur) <= 1 {
									done = true
								}
							}
						}
					}
				}
				r.check(done, "sequence-check", cons, h.Instrs[0].Pos(), st.path(15), "two neighbours may be passed over without being compared")
				st.clear("pair")
				st.unset("complete")
			case EvReturn:
				if !final || len(ev.args) != 1 {
					return
				}
				if v, ok := ev.args[0].isBool(); ok && !v {
					return
				}
				if v, known := st.facts.eval(ev.args[0]); known && !v {
					return
				}
				ok := st.flag("complete") || st.flag("short")
				r.check(ok, "sequence-check", cons, ev.instr.Pos(), st.path(15), "the answer may be yes before the last two headers were compared")
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, cons, err)
	}
	run(false)
	run(true)
}

func maxFact(st *State, t *Term) (int64, bool) {
	d := st.facts.diff(t, cInt(0, t.typ))
	return d, d < inf
}

func (t *Term) site2() *ssa.Phi {
	ph, _ := t.site.(*ssa.Phi)
	return ph
}

// counterOf: the integer phi of the loop that is advanced by a constant.
func counterOf(h *ssa.BasicBlock) *ssa.Phi {
	body := theProg.loop(h.Parent()).body[h]
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntType(ph.Type()) && isCounter(ph, h, body) {
			return ph
		}
	}
	return nil
}

// counterVal: the counter's value, also if only its successor is still in use.
func counterVal(fr *Frame, ctr *ssa.Phi) *Term {
	if v := fr.env[ctr]; v != nil {
		return v
	}
	for _, e := range ctr.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ctr) {
			if v := fr.env[b]; v != nil {
				return mkBin(token.SUB, v, cInt(ctrStep(ctr), types.Typ[types.Int]), types.Typ[types.Int])
			}
		}
	}
	return nil
}

func counterPhi(ph *ssa.Phi) *ssa.Phi { return counterOf(ph.Block()) }

func ctrInit(ph *ssa.Phi) *int64 {
	body := theProg.loop(ph.Parent()).body[ph.Block()]
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			if k, ok := e.(*ssa.Const); ok {
				n := k.Int64()
				return &n
			}
		}
	}
	return nil
}

func ctrStep(ph *ssa.Phi) int64 {
	body := theProg.loop(ph.Parent()).body[ph.Block()]
	for i, e := range ph.Edges {
		if body[ph.Block().Preds[i]] {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ph) {
				if k, ok := b.Y.(*ssa.Const); ok {
					return k.Int64()
				}
			}
			return 0
		}
	}
	return 0
}
