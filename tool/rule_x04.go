package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("X04", checkX04) }

func checkX04(p *Prog, r *Report) {
	r.rule("start", "a scan starts at the height of the request waiting that starts lowest")
	r.rule("lowest", "the request chosen is the one of the queue that starts lowest")
	r.rule("block", "the block looked at is the one at the height scanned")
	r.rule("joins", "the requests that start at a height join in before it is looked at")
	r.rule("step", "the scan goes on with the next height, after it looked at the current one successfully")
	r.rule("tip", "a scan ends at the stored tip")
	fns := p.scanFns()
	n := 0
	for _, f := range fns.work {
		n++
		checkHeights(p, r, fns, f)
		checkStart(p, r, fns, f)
	}
	for f := range fns.pick {
		checkLowest(p, r, f)
	}
	for f := range fns.take {
		checkTaken(p, r, f)
	}
	if n == 0 {
		r.anchorLost("the function that scans blocks")
	}
	r.need("start", 2)
	r.need("lowest", 1)
	r.need("block", 1)
	r.need("joins", 1)
	r.need("step", 2)
	r.need("tip", 2)
}

func isHeightT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// tipHeight: the height of the stored tip.
func tipHeight(t *Term) *Term {
	t = unconv(t)
	o := fieldOwner(t, "Height")
	if o == nil {
		return nil
	}
	if o.k == KExtract {
		o = o.args[0]
	}
	if o.k == KCall && strings.HasSuffix(o.op, ".ChainTip") {
		return o
	}
	return nil
}

func checkHeights(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	splits := p.reach(false, func(in ssa.Instruction) bool { return callsOne(in, fns.split) })
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f] && !fns.take[f] && !fns.split[f] && !fns.watch[f] && !fns.pick[f]
	}
	x.pure = func(op string) bool { return true }
	cur := func(st *State) *Term {
		for _, a := range st.all("at") {
			return a.a
		}
		return nil
	}
	same := func(a, b *Term) bool { return a != nil && b != nil && unconv(a) == unconv(b) }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvRecv:
			if isEmptyChan(ev.addr) {
				st.set("stopped")
			}
		case EvResult:
			if ev.res != nil && ev.fn == nil || ev.fn != nil && (fns.split[ev.fn] || !inModule(ev.fn)) {
				if e := errOf(ev.res); e != nil && ev.op != "append" {
					st.add(Atom{name: "err", a: e, s: ev.op})
				}
			}
			switch {
			case ev.fn != nil && fns.take[ev.fn]:
				h := ev.args[len(ev.args)-1]
				st.clear("at")
				st.add(Atom{name: "at", a: h})
				ok := false
				for _, a := range st.all("bounded") {
					ok = ok || same(a.a, h)
				}
				r.check(ok, "tip", short+": above", ev.instr.Pos(), st.path(12), "the height %s is scanned although it isn't known to be at most that of the tip", h)
				if !st.flag("turned") {
					y := unconv(h)
					o := fieldOwner(y, "StartHeight")
					r.check(y.k == KParam || o != nil && o.k == KParam, "start", short, ev.instr.Pos(), st.path(12), "the scan starts at %s, not at the height asked for", h)
				}
			case strings.HasSuffix(ev.op, ".GetBlockHashByHeight"):
				st.clear("hash")
				st.add(Atom{name: "hash", a: ev.res, b: ev.args[len(ev.args)-1]})
			case strings.HasSuffix(ev.op, ".GetFilter"):
				h := cur(st)
				r.check(h != nil, "joins", short, ev.instr.Pos(), st.path(12), "a block is looked at before the requests that start at its height join in")
				if h == nil {
					return
				}
				key := x.fieldOf(st, ev.args[len(ev.args)-1], "BlockHash")
				ok := false
				found := ""
				x.reachesAll(key, func(y *Term) {
					for _, a := range st.all("hash") {
						if y == a.a {
							found = "that of height " + a.b.String()
							ok = ok || same(a.b, h)
						}
					}
					if y.k == KLoad && y.args[0].k == KField && y.args[0].args[0].k == KParam && strings.HasSuffix(y.typ.String(), "*github.com/btcsuite/btcd/chaincfg/chainhash.Hash") {
						// the genesis block
						found = "that of the genesis block"
						v, known := st.facts.eval(mkBin(token.EQL, h, cInt(0, h.typ), nil))
						ok = ok || known && v
					}
				})
				r.check(ok, "block", short, ev.instr.Pos(), st.path(12), "the block looked at is %s while height %s is scanned", found, h)
				st.set("looked")
			}
		case EvBranch:
			ev.addr.has(func(y *Term) bool {
				if y.k != KBin || y.op != "<" {
					return false
				}
				for i := range y.args {
					tip := tipHeight(y.args[i])
					if tip == nil {
						continue
					}
					if !errNil(st.facts, errOf(tip)) {
						r.bad("tip", short+": tip", ev.instr.Pos(), st.path(12), "the tip is used although reading it failed")
						return true
					}
					h := y.args[1-i]
					t := y.args[i]
					// h <= tip, or tip < h
					if v, k := st.facts.eval(mkBin(token.LSS, t, h, nil)); k {
						st.unset("past")
						st.clear("bounded")
						if v {
							st.set("past")
						} else {
							st.add(Atom{name: "bounded", a: h})
						}
					} else if d := st.facts.diff(unconv(h), unconv(t)); d <= 0 {
						// below the tip: scanning it is fine, ending here isn't
						st.unset("past")
						st.clear("bounded")
						st.add(Atom{name: "bounded", a: h})
					}
				}
				return false
			})
			if c := ev.addr; c != nil {
				// nothing is waiting at this height or below
				c.has(func(y *Term) bool {
					if y.k == KBin && (y.op == "==" || y.op == "<") {
						for _, a := range y.args {
							if a.k == KCall && a.op == "len" && a.args[0].typ != nil && isReqs(a.args[0].typ) && len(st.all("at")) > 0 && h0(ev) == nil {
								if st.facts.diff(a, cInt(0, nil)) <= 0 {
									st.set("idle")
								}
							}
						}
					}
					return false
				})
			}
			for _, a := range st.all("err") {
				if errNil(st.facts, a.a) || st.facts.isErr(a.a, "pkg/repository.ErrFilterNotFound") {
					st.del(a)
					continue
				}
				if v, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil)); k && !v {
					st.set("failed")
				}
			}
		case EvBack:
			h := ev.frame.blk
			if !p.scansBlock(ev.frame.fn, h, fns, splits) {
				return
			}
			c := cur(st)
			r.check(st.flag("looked") && c != nil, "step", short+": looked", ev.instr.Pos(), st.path(16), "the scan goes on with the next height without having looked at the block")
			for _, a := range st.all("err") {
				r.bad("step", short+": "+a.s, ev.instr.Pos(), st.path(16), "the scan goes on with the next height although %s may have failed", a.s)
			}
			if c != nil {
				next := false
				seen := "nothing"
				try := func(v *Term) {
					if v == nil || v.typ == nil || !isIntType(v.typ) {
						return
					}
					b, o := linear(unconv(v))
					cb, co := linear(unconv(c))
					if b == cb {
						seen = v.String()
						if o == co+1 {
							next = true
						}
					}
				}
				for _, in := range h.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if i := predIndex(h, ev.frame.prev); i >= 0 && isIntType(ph.Type()) {
						try(x.val(st, ph.Edges[i]))
					}
				}
				if !next {
					for a, v := range st.mem {
						if a.k == KAlloc {
							try(v)
						}
					}
				}
				r.check(next, "step", short, ev.instr.Pos(), st.path(16), "after height %s the scan goes on with %s", c, seen)
			}
			st.set("turned")
			st.unset("looked")
			st.unset("past")
			st.unset("idle")
			st.clear("at")
			st.clear("hash")
			st.clear("err")
		case EvReturn:
			if ev.frame != nil && len(st.frames) > 1 {
				return
			}
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			r.check(st.flag("past") || st.flag("idle") || st.flag("stopped") || st.flag("failed"), "tip", short+": end", ev.instr.Pos(), st.path(16), "the scan ends although the height is not known to be above the tip")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkStart: what the scan is started with.
func checkStart(p *Prog, r *Report, fns *scanFns, work *ssa.Function) {
	picks := p.reach(false, func(in ssa.Instruction) bool { return callsOne(in, fns.pick) })
	works := p.reach(false, func(in ssa.Instruction) bool { return callsOne(in, map[*ssa.Function]bool{work: true}) })
	n := 0
	for _, f := range p.innermost("pkg/scanner", and(picks, works)) {
		x := newExec(p)
		short := fname(f)
		x.pure = func(op string) bool { return true }
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool { return g != work && works[g] && g != f }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvResult && ev.fn != nil && fns.pick[ev.fn] {
				st.clear("next")
				st.add(Atom{name: "next", a: ev.res})
			}
			if ev.kind == EvCall && ev.fn == work {
				n++
				ok := false
				for _, a := range st.all("next") {
					for _, g := range ev.args {
						ok = ok || g == a.a || fieldOwner(unconv(g), "StartHeight") == a.a
					}
				}
				r.check(ok, "start", short, ev.instr.Pos(), st.path(12), "a scan is not started at the height of the request that is next")
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the place where scans are started")
	}
}

func and(a, b map[*ssa.Function]bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for f := range a {
		if a[f] && b[f] {
			m[f] = true
		}
	}
	return m
}

// checkLowest: the request handed out starts no higher than any other.
func checkLowest(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/scanner" }
	x.pure = func(op string) bool { return true }
	height := func(st *State, q *Term) *Term { return x.fieldOf(st, q, "StartHeight") }
	n := 0
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			h, out := leaving(p, ev)
			if h == nil {
				return
			}
			if v := sliceOf(h.Parent(), h); v != nil && isReqs(v.Type()) {
				if out {
					st.set("all")
				} else {
					st.unset("all")
				}
				if !p.loop(h.Parent()).body[h][ev.frame.prev] {
					// the first request may be chosen before the others are looked at
					st.unset("first chosen")
					coll, _ := wholeFrom(x.collOf(st, v))
					for _, in := range h.Instrs {
						ph, ok := in.(*ssa.Phi)
						if ok && isReq(ph.Type()) {
							c, i, is := elemOf(x.val(st, ph))
							n, k := int64(-1), false
							if is {
								n, k = i.isInt()
							}
							if is && c == coll && k && n == 0 {
								st.set("first chosen")
							}
						}
					}
				}
			}
		case EvBack:
			h := ev.frame.blk
			v := sliceOf(ev.frame.fn, h)
			if v == nil || !isReqs(v.Type()) {
				return
			}
			n++
			why := loopCounter(ev.frame.fn, h)
			if why != "" && st.flag("first chosen") {
				why = loopCounterFrom(ev.frame.fn, h, 1)
			}
			if why == "" && exitsElsewhere(p, h) {
				why = "the loop can be left before"
			}
			r.check(why == "", "lowest", short+": range", ev.instr.Pos(), nil, "not all requests are looked at: %s", why)
			coll := x.collOf(st, v)
			whole, low := wholeFrom(coll)
			r.check(whole.k != KSlice && (low == 0 || low == 1 && st.flag("first chosen") && loopCounter(ev.frame.fn, h) == ""), "lowest", short+": queue", ev.instr.Pos(), nil, "only a part of the queue is looked at")
			elemIs := func(t, c *Term) bool { return elemIs(t, coll) || elemIs(t, whole) }
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isReq(ph.Type()) {
					continue
				}
				old := ev.frame.env[ph]
				nv := x.val(st, ph.Edges[predIndex(h, ev.frame.prev)])
				// the element of this turn
				isE := elemIs(nv, coll)
				ok = false
				what := ""
				switch {
				case isE && (old == nil || old.isNil() || knownNil(st, old)):
					ok = true
				case isE && nv != old:
					ok = st.facts.diff(height(st, nv), height(st, old)) <= 0
					what = "a request is preferred to one that may start lower"
				case nv == old:
					what = "a request that may start lower is passed over"
					if c, i, is := elemOf(old); is && (c == coll || c == whole) {
						// it is the one looked at
						ok = x.val(st, loopCond(h.Parent(), h).X) == i
					}
					for t := range st.facts {
						if t.k != KBin || t.op != "<" {
							continue
						}
						for _, a := range t.args {
							o := fieldOwner(unconv(a), "StartHeight")
							if o != nil && o != old && elemIs(o, coll) && st.facts.diff(height(st, old), unconv(a)) <= 0 {
								ok = true
							}
						}
					}
				default:
					what = nv.String() + " is chosen"
				}
				r.check(ok, "lowest", short, ev.instr.Pos(), st.path(16), "%s", what)
			}
		case EvReturn:
			if len(ev.args) == 1 && isReq(ev.args[0].typ) && !ev.args[0].isNil() {
				r.check(st.flag("all"), "lowest", short+": result", ev.instr.Pos(), st.path(16), "a request is chosen although not all were looked at")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if n == 0 {
		r.anchorLost("the choice of the next request in " + short)
	}
}

// wholeFrom: the slice that c is the rest of, and from where.
func wholeFrom(c *Term) (*Term, int64) {
	if c.k == KSlice && c.op == "sub" && (c.args[2].isNil() || c.args[2].k == KCall && c.args[2].op == "len" && c.args[2].args[0] == c.args[0]) {
		if n, ok := c.args[1].isInt(); ok {
			return c.args[0], n
		}
	}
	return c, 0
}

func knownNil(st *State, t *Term) bool {
	v, k := st.facts.eval(mkBin(token.EQL, t, cNil(nil), nil))
	return k && v
}

// h0: the header of the loop that the branch decides on.
func h0(ev *Event) *ssa.BasicBlock {
	b := ev.instr.Block()
	if theProg.loop(b.Parent()).header[b] {
		return b
	}
	return nil
}

// checkTaken: the requests handed on for a height are those that start at it.
func checkTaken(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner"
	}
	isHeight := func(t *Term) bool {
		t = unconv(t)
		if t.k == KLoad && t.args[0].k == KParam {
			t = t.args[0]
		}
		return t.k == KParam && t.typ != nil && isHeightT(t.typ)
	}
	startOf := func(t *Term) *Term {
		o := fieldOwner(unconv(t), "StartHeight")
		if o == nil {
			return nil
		}
		return stripIface(o)
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			for t, v := range st.facts {
				if t.k != KBin || t.op != "==" {
					continue
				}
				for i := range t.args {
					if o := startOf(t.args[i]); o != nil && isHeight(t.args[1-i]) {
						if v {
							st.add(Atom{name: "here", a: o})
						}
					}
				}
			}
		case EvCall:
			if ev.op != "append" || len(ev.args) < 2 || !isReqs(ev.args[0].typ) {
				return
			}
			ins, ok := ev.instr.(*ssa.Call)
			if !ok || !returned(fn, ins) {
				return
			}
			for _, e := range ev.args[1:] {
				r.check(st.has(Atom{name: "here", a: stripIface(e)}), "joins", short+": height", ev.instr.Pos(), st.path(12), "a request is handed on for a height that isn't known to be the one it starts at")
			}
		case EvBack:
			st.clear("here")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// returned: what the value becomes part of is a result of the function.
func returned(fn *ssa.Function, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var out func(v ssa.Value) bool
	out = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.Return:
				return true
			case *ssa.Phi:
				if out(i) {
					return true
				}
			case *ssa.Slice:
				if out(i) {
					return true
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && out(i) {
					return true
				}
			case *ssa.Store:
				if a, ok := i.Addr.(*ssa.Alloc); ok && i.Val == v {
					for _, w := range *a.Referrers() {
						if l, ok := w.(*ssa.UnOp); ok && out(l) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return out(v)
}
