package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("X01", checkX01) }

func scanType(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	_, ok := types.Unalias(t).(*types.Named)
	return ok && strings.HasSuffix(t.String(), "pkg/scanner."+name)
}

func isReq(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && scanType(p.Elem(), "ScanRequest")
}

func isReqs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isReq(s.Elem())
}

func isReports(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e := s.Elem()
	if p, ok := e.Underlying().(*types.Pointer); ok {
		e = p.Elem()
	}
	return scanType(e, "Report")
}

func isReportChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && scanType(c.Elem(), "Report")
}

func isOption(t types.Type) bool { return scanType(t, "ScanRequestOption") }

// scanFns: the functions of the scanner by what they do with requests.
type scanFns struct {
	add   map[*ssa.Function]bool // puts a request into the queue
	take  map[*ssa.Function]bool // takes requests out of the queue
	pick  map[*ssa.Function]bool // returns a request that stays in the queue
	split map[*ssa.Function]bool // divides requests in those reported and the others
	watch map[*ssa.Function]bool // queues a request made of options
	work  []*ssa.Function        // takes requests, reports them or puts them back
	store []*ssa.Function        // changes the queue
}

func storesReqs(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok || !isReqs(s.Val.Type()) {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, fresh := fa.X.(*ssa.Alloc)
	return !fresh
}

func (p *Prog) scanFns() *scanFns {
	s := &scanFns{add: map[*ssa.Function]bool{}, take: map[*ssa.Function]bool{}, pick: map[*ssa.Function]bool{}, split: map[*ssa.Function]bool{}, watch: map[*ssa.Function]bool{}}
	has := func(t *types.Tuple, f func(types.Type) bool) bool {
		for i := 0; i < t.Len(); i++ {
			if f(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	looks := p.reach(false, func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || !isReqs(u.Type()) {
			return false
		}
		_, ok = u.X.(*ssa.FieldAddr)
		return ok
	})
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) != "pkg/scanner" {
			continue
		}
		sig := f.Signature
		stores := false
		loads := looks[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if storesReqs(in) {
					stores = true
				}
			}
		}
		if stores {
			s.store = append(s.store, f)
		}
		switch {
		case stores && has(sig.Params(), isReq):
			s.add[f] = true
		case stores && has(sig.Results(), isReqs):
			s.take[f] = true
		case has(sig.Params(), isReqs) && has(sig.Results(), isReqs):
			s.split[f] = true
		case loads && has(sig.Results(), isReq):
			s.pick[f] = true
		}
		if n := sig.Params().Len(); sig.Variadic() && n > 0 && sig.Recv() != nil {
			if e, ok := sig.Params().At(n - 1).Type().(*types.Slice); ok && isOption(e.Elem()) {
				s.watch[f] = true
			}
		}
	}
	// enqueueing through a helper of the queue is enqueueing
	takes := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && s.take[c.Common().StaticCallee()]
	})
	s.work = p.innermost("pkg/scanner", takes)
	// splitting the requests by something else is a detail
	tries := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Match"
	})
	for f := range s.split {
		if !tries[f] {
			delete(s.split, f)
		}
	}
	// a helper of a function that chooses is a part of it
	for f := range s.pick {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != f {
					delete(s.pick, c.Common().StaticCallee())
				}
			}
		}
	}
	return s
}

// sliceOf: the slice whose length bounds the loop.
func sliceOf(f *ssa.Function, h *ssa.BasicBlock) ssa.Value {
	c := loopCond(f, h)
	if c == nil {
		return nil
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return call.Call.Args[0]
			}
		}
	}
	return nil
}

// collOf: the slice a loop walks over; it may be looked at only through its length
// once the loop runs.
func (x *Exec) collOf(st *State, v ssa.Value) *Term {
	if rs := v.Referrers(); rs != nil {
		for _, in := range *rs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if t := x.val(st, c); t.k == KCall && t.op == "len" {
					return t.args[0]
				}
			}
		}
	}
	return x.val(st, v)
}

// leaving: at the branch that decides whether a loop goes on, does it?
func leaving(p *Prog, ev *Event) (h *ssa.BasicBlock, out bool) {
	h = ev.instr.Block()
	li := p.loop(h.Parent())
	if !li.header[h] {
		return nil, false
	}
	b, _ := ev.val.isBool()
	to := h.Succs[1]
	if b {
		to = h.Succs[0]
	}
	return h, !li.body[h][to]
}

// elemIs: the term is an element of that slice.
func elemIs(t, coll *Term) bool {
	c, _, ok := elemOf(t)
	return ok && c == coll
}

func checkX01(p *Prog, r *Report) {
	r.rule("queued", "a request handed to the scanner is queued")
	r.rule("queue", "what is taken out of the queue is handed on, the rest stays in it")
	r.rule("kept", "the requests taken are in the batch until they are reported, and put back into the queue when the scan ends, however it does")
	r.rule("split", "every request of the batch is either reported or kept")
	r.rule("reported", "requests leave the batch only after all the reports were sent")
	r.rule("manager", "the scanner goes on until it is stopped")
	fns := p.scanFns()
	for f := range fns.watch {
		checkQueued(p, r, fns, f)
	}
	for _, f := range fns.store {
		checkQueue(p, r, fns, f)
	}
	for f := range fns.split {
		checkSplit(p, r, f)
	}
	for _, f := range fns.work {
		checkWorker(p, r, fns, f)
	}
	checkManager(p, r, fns)
	r.need("queued", 1)
	checkCollected(p, r, "queue", inPkgs("pkg/scanner"), "scanner.ScanRequest", "scanner.Report")
	r.need("queue", 2)
	r.need("kept", 2)
	r.need("split", 2)
	r.need("reported", 1)
	r.need("manager", 1)
}

// checkQueued: watch puts the request it makes into the queue.
func checkQueued(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f]
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if ev.fn != nil && fns.add[ev.fn] {
				req := ev.args[len(ev.args)-1]
				r.check(!req.isNil(), "queued", short+": request", ev.instr.Pos(), st.path(12), "nil is queued")
				st.set("queued")
			}
		case EvReturn:
			r.check(st.flag("queued"), "queued", short, ev.instr.Pos(), st.path(12), "a request is not queued")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkQueue: what a function stores as the queue, together with what it returns, is what was queued.
func checkQueue(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	li := p.loop(fn)
	// accumulators: slices that elements are appended to, and that end up in the queue or the results
	sinks := func(v ssa.Value) bool { return flowsOut(fn, v, map[ssa.Value]bool{}) }
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f] && !fns.take[f]
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvLoad:
			if ev.addr.k == KField && ev.val != nil && ev.val.typ != nil && isReqs(ev.val.typ) {
				st.clear("old")
				st.add(Atom{name: "old", a: ev.val})
			}
		case EvResult:
			if ev.op == "append" && isReqs(ev.res.typ) {
				if ins, ok := ev.instr.(ssa.Value); ok && sinks(ins) {
					if st.flag("inside") {
						r.check(!st.flag("kept"), "queue", short+": once", ev.instr.Pos(), st.path(12), "a request that is handed on also stays in the queue")
					}
					st.set("kept")
				}
				for _, e := range ev.args[1:] {
					if e.k == KParam {
						st.add(Atom{name: "with", a: ev.res, b: ev.args[0]})
					}
				}
			}
		case EvBranch:
			if h, out := leaving(p, ev); h != nil {
				if v := sliceOf(h.Parent(), h); v != nil && isReqs(v.Type()) {
					st.set("looped")
					if out {
						st.unset("inside")
					} else {
						st.set("inside")
						st.unset("kept")
					}
				}
			}
		case EvBack:
			if v := sliceOf(ev.frame.fn, ev.frame.blk); v != nil && isReqs(v.Type()) {
				r.check(st.flag("kept"), "queue", short+": element", ev.instr.Pos(), st.path(12), "a request is neither handed on nor left in the queue")
				why := loopCounter(ev.frame.fn, ev.frame.blk)
				r.check(why == "", "queue", short+": range", ev.instr.Pos(), nil, "not all requests are looked at: %s", why)
			}
		case EvStore:
			if ev.addr.k != KField || !isReqs(ev.val.typ) {
				return
			}
			ok := false
			for _, a := range st.all("with") {
				if a.a == ev.val && len(st.all("old")) > 0 && (st.has(Atom{name: "old", a: a.b})) {
					ok = true // one more
				}
			}
			if ok {
				st.set("added")
			}
			if st.flag("looped") && !st.flag("inside") {
				if s, is := ev.instr.(*ssa.Store); is && !viaField(s.Val, map[ssa.Value]bool{}) {
					ok = true // the rest of all
				}
			}
			if _, is := stripIface(ev.val), false; !ok && !is {
				if len(st.all("old")) == 0 {
					return
				}
			}
			r.check(ok, "queue", short+": stored", ev.instr.Pos(), st.path(12), "the queue becomes %s, which is neither the queue with one more request nor the rest of all", ev.val)
		case EvReturn:
			if fns.add[fn] {
				r.check(st.flag("added"), "queue", short+": added", ev.instr.Pos(), st.path(12), "the request is not queued")
			}
			if fns.take[fn] {
				r.check(st.flag("looped") && !st.flag("inside"), "queue", short+": all", ev.instr.Pos(), st.path(12), "not all requests of the queue are looked at")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	_ = li
}

// flowsOut: the slice ends up in a field or a result of the function.
func flowsOut(root *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch i := in.(type) {
		case *ssa.Return:
			if i.Parent() == root {
				return true
			}
			// the result of a helper: where its callers let it end up
			calls, _, _ := theProg.staticCallers()
			for k, res := range i.Results {
				if res != v {
					continue
				}
				for _, c := range calls[i.Parent()] {
					for _, w := range resultOf(c, k) {
						if flowsOut(root, w, seen) {
							return true
						}
					}
				}
			}
		case *ssa.Store:
			if i.Val != v {
				continue
			}
			if _, ok := i.Addr.(*ssa.FieldAddr); ok {
				return true
			}
			if al, ok := i.Addr.(*ssa.Alloc); ok {
				for _, rf := range *al.Referrers() {
					if u, ok := rf.(*ssa.UnOp); ok && flowsOut(root, u, seen) {
						return true
					}
				}
			}
		case *ssa.Phi:
			if flowsOut(root, i, seen) {
				return true
			}
		case *ssa.ChangeType:
			if flowsOut(root, i, seen) {
				return true
			}
		case *ssa.Slice:
			if flowsOut(root, i, seen) {
				return true
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && flowsOut(root, i, seen) {
				return true
			}
		}
	}
	return false
}

// resultOf: the values that stand for the k-th result of a call.
func resultOf(c ssa.CallInstruction, k int) []ssa.Value {
	v := c.Value()
	if v == nil {
		return nil
	}
	if c.Common().Signature().Results().Len() == 1 {
		return []ssa.Value{v}
	}
	var res []ssa.Value
	for _, in := range *v.Referrers() {
		if e, ok := in.(*ssa.Extract); ok && e.Index == k {
			res = append(res, e)
		}
	}
	return res
}

// viaField: the slice is a part of the one in the queue.
func viaField(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			if viaField(e, seen) {
				return true
			}
		}
	case *ssa.Slice:
		// s[:0] is where the rest is collected
		if k, ok := i.High.(*ssa.Const); ok && i.Low == nil && k.Int64() == 0 {
			return false
		}
		return viaField(i.X, seen)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return viaField(i.Call.Args[0], seen)
		}
		return resultViaField(i, 0, seen)
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			return resultViaField(c, i.Index, seen)
		}
	case *ssa.UnOp:
		_, ok := i.X.(*ssa.FieldAddr)
		return ok
	}
	return false
}

// resultViaField: the helper returns a part of the queue, or of what it is given of it.
func resultViaField(c *ssa.Call, k int, seen map[ssa.Value]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil || !inModule(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || k >= len(ret.Results) {
				continue
			}
			if viaField(ret.Results[k], seen) {
				return true
			}
			for i, pr := range f.Params {
				if i < len(c.Call.Args) && partOfParam(ret.Results[k], pr, map[ssa.Value]bool{}) && viaField(c.Call.Args[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

// partOfParam: the slice is a part of that given.
func partOfParam(v ssa.Value, pr *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Parameter:
		return i == pr
	case *ssa.Phi:
		for _, e := range i.Edges {
			if partOfParam(e, pr, seen) {
				return true
			}
		}
	case *ssa.Slice:
		if k, ok := i.High.(*ssa.Const); ok && i.Low == nil && k.Int64() == 0 {
			return false
		}
		return partOfParam(i.X, pr, seen)
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return partOfParam(i.Call.Args[0], pr, seen)
		}
	}
	return false
}

// checkSplit: every request given is reported or among those returned.
func checkSplit(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	given := func(v ssa.Value) bool {
		pr, ok := v.(*ssa.Parameter)
		return ok && isReqs(pr.Type())
	}
	var param *Term
	for i, pr := range fn.Params {
		if isReqs(pr.Type()) {
			param = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		if rel(pkgPathOf(f)) != "pkg/scanner" || f.Signature.Recv() != nil && f.Parent() == nil && f.Name() == "Match" {
			return false
		}
		return true
	}
	isElem := func(t *Term) bool { return elemIs(stripIface(t), param) }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if ev.op != "append" {
				return
			}
			es := ev.args[1:]
			ins, _ := ev.instr.(ssa.Value)
			for _, e := range es {
				if isReqs(ev.res.typ) && isElem(e) && ins != nil && flowsOut(fn, ins, map[ssa.Value]bool{}) {
					st.set("kept")
					st.set("held")
				}
				if isReports(ev.res.typ) && ins != nil && flowsOut(fn, ins, map[ssa.Value]bool{}) {
					if q := x.fieldOf(st, e, "Request"); q != nil && isElem(q) {
						st.set("kept")
						st.set("reported")
					}
				}
			}
		case EvBranch:
			if h, out := leaving(p, ev); h != nil {
				if v := sliceOf(h.Parent(), h); v != nil && given(v) {
					st.set("looped")
					if out {
						st.unset("inside")
					} else {
						st.set("inside")
						st.unset("kept")
						st.unset("held")
						st.unset("reported")
					}
				}
			}
		case EvBack:
			if v := sliceOf(ev.frame.fn, ev.frame.blk); v != nil && given(v) {
				r.check(st.flag("kept"), "split", short+": element", ev.instr.Pos(), st.path(20), "a request is neither reported nor kept")
				r.check(!st.flag("held") || !st.flag("reported"), "split", short+": once", ev.instr.Pos(), st.path(20), "a request that is reported is also kept, so that its item is watched twice from then on")
				why := loopCounter(ev.frame.fn, ev.frame.blk)
				r.check(why == "", "split", short+": range", ev.instr.Pos(), nil, "not all requests are looked at: %s", why)
			}
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			for _, a := range ev.args {
				if a == param {
					r.ok("split", short+": all kept", ev.instr.Pos())
					return
				}
			}
			r.check(st.flag("looped") && !st.flag("inside"), "split", short+": all", ev.instr.Pos(), st.path(20), "not all requests are reported or kept")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkWorker: what is taken out of the queue is put back unless it was reported.
func checkWorker(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	matters := p.reach(false, func(in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok {
			f := c.Common().StaticCallee()
			return f != nil && (fns.add[f] || fns.take[f] || fns.split[f])
		}
		return sendsReport(in)
	})
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f] && !fns.take[f] && !fns.split[f] && !fns.watch[f] && !fns.pick[f] && matters[f]
	}
	x.pure = func(op string) bool { return true }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if ev.fn != nil && fns.add[ev.fn] {
				req := ev.args[len(ev.args)-1]
				if c, _, ok := elemOf(req); ok {
					st.add(Atom{name: "put", a: c})
				}
			}
		case EvResult:
			switch {
			case ev.fn != nil && fns.take[ev.fn]:
				st.add(Atom{name: "loose", a: ev.res})
			case ev.fn != nil && fns.split[ev.fn]:
				a := Atom{name: "split", b: errOf(ev.res)}
				for _, y := range ev.args {
					if y.typ != nil && isReqs(y.typ) {
						a.a = y
					}
				}
				for _, h := range st.all("hold") {
					r.check(h.a == a.a, "reported", short+": batch", ev.instr.Pos(), st.path(12), "not the batch is divided, but %s", a.a)
				}
				if tp, ok := ev.res.typ.(*types.Tuple); ok {
					for i := 0; i < tp.Len(); i++ {
						y := mkExtract(ev.res, i, tp.At(i).Type())
						if isReports(tp.At(i).Type()) {
							st.clear("reports")
							st.add(Atom{name: "reports", a: y})
						}
						if isReqs(tp.At(i).Type()) {
							a.c = y
						}
					}
				}
				st.clear("split")
				st.add(a)
			case ev.op == "append" && len(ev.args) > 1 && isReqs(ev.res.typ):
				old, more := ev.args[0], ev.args[len(ev.args)-1]
				moved := false
				for _, a := range append(st.all("hold"), st.all("loose")...) {
					if a.a == old || a.a == more || more.k == KSpread && more.args[0] == a.a {
						st.del(a)
						moved = true
					}
				}
				if moved {
					st.add(Atom{name: "hold", a: ev.res})
				}
			}
		case EvSend:
			if isReportChan(ev.addr.typ) {
				if c, _, ok := elemOf(ev.val); ok {
					st.add(Atom{name: "sent", a: c})
				}
			}
		case EvBranch:
			h, out := leaving(p, ev)
			if h == nil {
				return
			}
			v := sliceOf(h.Parent(), h)
			if v == nil {
				return
			}
			coll := x.collOf(st, v)
			switch {
			case isReqs(v.Type()) && out:
				why := loopCounter(h.Parent(), h)
				if st.flag("putting") || why == "" && p.loopCalls(h, fns.add) {
					for _, a := range st.all("hold") {
						if a.a == coll {
							st.del(a)
						}
					}
				}
			case isReqs(v.Type()) && p.loopCalls(h, fns.add):
				st.clear("put")
				st.add(Atom{name: "putting", a: coll})
			case isReports(v.Type()) && !out:
				st.clear("sent")
			case isReports(v.Type()) && out:
				why := loopCounter(h.Parent(), h)
				if !st.has(Atom{name: "reports", a: coll}) || why != "" {
					return
				}
				for _, s := range st.all("split") {
					if s.a == nil || s.c == nil || s.b != nil && !errNil(st.facts, s.b) {
						continue
					}
					st.clear("hold")
					st.add(Atom{name: "hold", a: s.c})
					st.del(s)
				}
			}
		case EvBack:
			h := ev.frame.blk
			v := sliceOf(ev.frame.fn, h)
			if v == nil {
				return
			}
			coll := x.collOf(st, v)
			if isReqs(v.Type()) && p.loopCalls(h, fns.add) {
				r.check(st.has(Atom{name: "put", a: coll}), "kept", short+": each", ev.instr.Pos(), st.path(12), "a request is not put back")
				st.clear("put")
			}
			if isReports(v.Type()) && st.has(Atom{name: "reports", a: coll}) {
				r.check(st.has(Atom{name: "sent", a: coll}), "reported", short+": each", ev.instr.Pos(), st.path(12), "a report is not sent")
				st.clear("sent")
			}
		case EvStore:
			// the batch is replaced
			if ev.addr.k == KAlloc && ev.val.typ != nil && isReqs(ev.val.typ) {
				checkReplaced(r, st, ev, short, ev.val)
			}
		case EvReturn:
			lost := len(st.all("hold"))+len(st.all("loose")) > 0
			what := ""
			for _, a := range append(st.all("hold"), st.all("loose")...) {
				what = a.a.String()
			}
			r.check(!lost, "kept", short, ev.instr.Pos(), st.path(20), "the requests %s are neither put back nor reported when the scan ends", what)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func checkReplaced(r *Report, st *State, ev *Event, short string, val *Term) {
	hs := st.all("hold")
	if len(hs) == 0 {
		return
	}
	ok := false
	for _, h := range hs {
		if h.a == val {
			ok = true
		}
	}
	r.check(ok, "reported", short+": replaced", ev.instr.Pos(), st.path(20), "the batch becomes %s before its requests were reported", val)
}

// loopCalls: the loop calls one of the functions.
func (p *Prog) loopCalls(h *ssa.BasicBlock, fns map[*ssa.Function]bool) bool {
	for b := range p.loop(h.Parent()).body[h] {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && fns[c.Common().StaticCallee()] {
				return true
			}
		}
	}
	return false
}

func isOptionMaker(f *ssa.Function) bool {
	return f.Signature.Results().Len() == 1 && isOption(f.Signature.Results().At(0).Type())
}

func sendsReport(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Send:
		return isReportChan(i.Chan.Type())
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.SendOnly && isReportChan(s.Chan.Type()) {
				return true
			}
		}
	}
	return false
}

// checkManager: the goroutine that waits for requests ends only when it is told to stop.
func checkManager(p *Prog, r *Report, fns *scanFns) {
	n := 0
	for f := range fns.pick {
		// nil only if told to stop
		x := newExec(p)
		short := fname(f)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/scanner" }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvRecv:
				if isEmptyChan(ev.addr) {
					st.set("stopped")
				}
			case EvReturn:
				if ev.args[0].isNil() {
					r.check(st.flag("stopped"), "manager", short+": nil", ev.instr.Pos(), st.path(12), "no request is returned although the scanner isn't stopped")
				}
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	picks := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && fns.pick[c.Common().StaticCallee()]
	})
	for _, f := range p.innermost("pkg/scanner", picks) {
		n++
		x := newExec(p)
		short := fname(f)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return !fns.pick[f] && smallHelper(f) }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if ev.fn != nil && fns.pick[ev.fn] {
					st.clear("next")
					st.add(Atom{name: "next", a: ev.res})
				}
			case EvBranch:
				for _, a := range st.all("next") {
					if v, k := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil)); k && v {
						st.set("stopped")
					}
				}
			case EvRecv:
				if isEmptyChan(ev.addr) {
					st.set("stopped")
				}
			case EvReturn:
				r.check(st.flag("stopped"), "manager", short, ev.instr.Pos(), st.path(12), "the scanner stops handling requests although it isn't stopped")
			}
		}
		err := x.run(f, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the goroutine that waits for scan requests")
	}
}
