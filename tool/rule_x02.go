package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("X02", checkX02) }

// optionOf: what an option, made by a call, sets: the field and the value.
func (x *Exec) optionOf(st *State, t *Term) (field string, val *Term) {
	t = stripIface(t)
	for t.k == KConv {
		t = t.args[0]
	}
	if t.k == KCall {
		// an option maker that was not followed
		return "", nil
	}
	fn := t.fn
	if t.k != KClosure && t.k != KFunc {
		return "", nil
	}
	if fn == nil {
		return "", nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !scanType(pointee(fa.X.Type()), "ScanRequest") {
				continue
			}
			name := structOf(pointee(fa.X.Type())).Field(fa.Field).Name()
			if field != "" {
				return "several", nil
			}
			field = name
			v := unconvV(s.Val)
			if c, ok := v.(*ssa.Const); ok {
				if c.Value == nil {
					val = cNil(c.Type())
				} else if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					val = cBool(c.Value.String() == "true")
				} else {
					val = cInt(c.Int64(), c.Type())
				}
				continue
			}
			ref := false
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v, ref = u.X, true
			}
			for i, fv := range fn.FreeVars {
				if v == ssa.Value(fv) && i < len(t.args) {
					val = t.args[i]
					if ref {
						val = x.load(st, val, pointee(fv.Type()))
					}
				}
			}
		}
	}
	return
}

// request: the fields of a request that is queued, from the options or the request itself.
func (x *Exec) requestOf(st *State, ev *Event, fns *scanFns) (map[string]*Term, string) {
	m := map[string]*Term{}
	last := ev.args[len(ev.args)-1]
	if fns.watch[ev.fn] {
		es, ok := x.elems(st, last)
		if !ok {
			return nil, "the options are not understood"
		}
		for _, e := range es {
			f, v := x.optionOf(st, e)
			if f == "" || v == nil {
				return nil, "the option " + e.String() + " is not understood"
			}
			m[f] = v
		}
		return m, ""
	}
	for _, f := range []string{"ClientID", "StartHeight", "Item", "IsPersistent"} {
		m[f] = x.fieldOf(st, last, f)
	}
	return m, ""
}

func checkX02(p *Prog, r *Report) {
	r.rule("option", "an option sets what its name and parameter say")
	r.rule("again", "a persistent request that was reported is queued again, from the next block on")
	r.rule("once", "a request is queued again once, however many transactions of the block matched it")
	r.rule("ends", "a request that isn't persistent is not queued again")
	r.rule("wallet", "a wallet yields a persistent request for each of its scripts, with the subscriber's id and start")
	r.rule("made", "a request is made of the options given")
	fns := p.scanFns()
	checkOptions(p, r)
	for _, f := range fns.work {
		checkAgain(p, r, fns, f)
	}
	checkWalletOf(p, r)
	r.need("option", 4)
	r.need("again", 2)
	r.need("wallet", 4)
	r.need("made", 1)
}

func isEventType(t types.Type) bool { return scanType(t, "EventType") }

func takesEventTypes(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if s, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok && isEventType(s.Elem()) {
			return true
		}
	}
	return false
}

// checkWalletOf: the operations that watch a wallet.
func checkWalletOf(p *Prog, r *Report) {
	fns := p.scanFns()
	n := 0
	calls := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && (fns.watch[c.Common().StaticCallee()] || fns.add[c.Common().StaticCallee()])
	})
	for _, f := range p.Funcs {
		// the exported operation that takes a descriptor
		if rel(pkgPathOf(f)) == "pkg/scanner" && calls[f] && f.Parent() == nil && f.Signature.Recv() != nil && takesEventTypes(f) {
			n++
			checkWallet(p, r, fns, f)
		}
	}
	if n == 0 {
		r.anchorLost("the operation that watches a wallet")
	}
}

func checkOptions(p *Prog, r *Report) {
	want := map[string]string{"WithWatchItem": "Item", "WithStartBlock": "StartHeight", "WithPersistentWatch": "IsPersistent", "WithRequestID": "ClientID"}
	for _, name := range sortedKeys(want) {
		fn := p.fun("pkg/scanner." + name)
		if fn == nil {
			r.anchorLost(name)
			continue
		}
		x := newExec(p)
		field := want[name]
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			f, v := x.optionOf(st, ev.args[0])
			ok := f == field && v != nil
			if ok {
				if field == "IsPersistent" {
					b, is := v.isBool()
					ok = is && b
				} else {
					ok = unconv(v).k == KParam
				}
			}
			r.check(ok, "option", name, ev.instr.Pos(), nil, "the option sets %s to %s", f, v)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, name, err)
	}
	// the request is made of all the options
	n := 0
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) != "pkg/scanner" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.IsInvoke() || isBuiltin(c.Call.Value) || c.Call.StaticCallee() != nil || !isOption(c.Call.Value.Type()) {
					continue
				}
				n++
				li := p.loop(f)
				why := "not all of them are applied"
				for h, body := range li.body {
					if body[b] {
						why = loopCounter(f, h)
						if v := sliceOf(f, h); v == nil {
							why = "the loop does not run over the options"
						} else if _, ok := v.(*ssa.Parameter); !ok {
							why = "not all options are applied"
						}
					}
				}
				r.check(why == "", "made", fname(f), in.Pos(), nil, "%s", why)
			}
		}
	}
	if n == 0 {
		r.anchorLost("the place where options are applied")
	}
}

// checkAgain: after a report, its request is queued again if it is persistent.
func checkAgain(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	matters := p.reach(false, sendsReport)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		if rel(pkgPathOf(f)) != "pkg/scanner" || fns.add[f] || fns.take[f] || fns.split[f] || fns.watch[f] || fns.pick[f] {
			return false
		}
		return matters[f] || isOptionMaker(f) || f.Parent() == nil && p.reach(false, func(in ssa.Instruction) bool { return callsOne(in, fns.watch) })[f]
	}
	x.pure = func(op string) bool { return true }
	repOf := func(st *State) *Term {
		for _, a := range st.all("rep") {
			return a.a
		}
		return nil
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvSend:
			if isReportChan(ev.addr.typ) {
				st.clear("rep")
				st.add(Atom{name: "rep", a: ev.val})
				st.unset("again")
			}
		case EvCall:
			if ev.fn == nil || !fns.watch[ev.fn] && !fns.add[ev.fn] {
				return
			}
			if fns.add[ev.fn] {
				if c, _, ok := elemOf(ev.args[len(ev.args)-1]); ok && isReqs(c.typ) {
					return // one of the batch is put back
				}
			}
			m, why := x.requestOf(st, ev, fns)
			r.check(why == "", "again", short+": request", ev.instr.Pos(), st.path(12), "%s", why)
			rep := repOf(st)
			if why != "" {
				return
			}
			if rep == nil {
				r.bad("again", short+": report", ev.instr.Pos(), st.path(12), "a request is queued before the report was delivered")
				return
			}
			req := x.fieldOf(st, rep, "Request")
			same := func(t *Term, name string) bool {
				if t == nil {
					return false
				}
				w := x.fieldOf(st, req, name)
				return unconv(t) == unconv(w)
			}
			st.set("again")
			r.check(st.flag("fresh"), "once", short, ev.instr.Pos(), st.path(12), "a request is queued again for every transaction of the block that matched it, not once")
			st.set("unmarked")
			r.check(same(m["ClientID"], "ClientID"), "again", short+": client", ev.instr.Pos(), st.path(12), "the request is queued again for %s, not for the client of the reported one", m["ClientID"])
			r.check(same(m["Item"], "Item"), "again", short+": item", ev.instr.Pos(), st.path(12), "the request is queued again for the item %s, not for that of the reported one", m["Item"])
			h := m["StartHeight"]
			next := false
			if h != nil {
				y := unconv(h)
				bh := unconv(x.fieldOf(st, rep, "BlockHeight"))
				next = y == unconv(mkBin(token.ADD, bh, cInt(1, nil), y.typ)) || y.k == KBin && y.op == "+" && (unconv(y.args[0]) == bh && isOne(y.args[1]) || unconv(y.args[1]) == bh && isOne(y.args[0]))
			}
			r.check(next, "again", short+": height", ev.instr.Pos(), st.path(12), "the request is queued again from %s, not from the block after the reported one", h)
			pers := false
			if v := m["IsPersistent"]; v != nil {
				b, is := st.facts.eval(v)
				pers = is && b
				if c, ok := v.isBool(); ok {
					pers = c
				}
			}
			r.check(pers, "again", short+": persistent", ev.instr.Pos(), st.path(12), "the request queued again isn't persistent, so that only one more match is reported")
			is, known := st.facts.eval(x.fieldOf(st, req, "IsPersistent"))
			r.check(known && is, "ends", short, ev.instr.Pos(), st.path(12), "a request is queued again although it isn't known to be persistent")
		case EvMapUpdate:
			if m := mapOf(ev.addr.typ); m != nil && isReq(m.Key()) {
				rep := repOf(st)
				r.check(rep != nil && unconv(ev.key) == unconv(x.fieldOf(st, rep, "Request")), "again", short+": marks", ev.instr.Pos(), st.path(12), "%s is marked as queued again, which is not the request of the report delivered", ev.key)
				if b, isB := ev.val.isBool(); !isB || b {
					st.add(Atom{name: "marked"})
				}
				mk := ev.instr.(*ssa.MapUpdate).Map
				if d, ok := mk.(*ssa.MakeMap); ok && sendsInLoop(p, d) {
					r.bad("once", short+": set", ev.instr.Pos(), st.path(12), "the set of requests queued again is emptied between the reports of one block")
				}
			}
		case EvBranch:
			// queued again already for another transaction of the block
			ev.addr.has(func(y *Term) bool {
				if knownTrue(st, y, true) && seenBefore(y) {
					st.set("again")
				}
				if rep := repOf(st); rep != nil && knownTrue(st, y, false) && seenBefore(y) {
					l := y
					if l.k == KExtract {
						l = l.args[0]
					}
					if unconv(l.args[1]) == unconv(x.fieldOf(st, rep, "Request")) {
						st.set("fresh")
					}
				}
				return false
			})
		case EvBack:
			v := sliceOf(ev.frame.fn, ev.frame.blk)
			if v == nil || !isReports(v.Type()) {
				return
			}
			rep := repOf(st)
			if rep == nil {
				return
			}
			req := x.fieldOf(st, rep, "Request")
			is, known := st.facts.eval(x.fieldOf(st, req, "IsPersistent"))
			r.check(st.flag("again") || known && !is, "again", short, ev.instr.Pos(), st.path(20), "a persistent request is not queued again after it was reported")
			r.check(!st.flag("unmarked") || len(st.all("marked")) > 0, "once", short+": marked", ev.instr.Pos(), st.path(20), "a request queued again is not marked as such, so that it is queued again for every transaction of the block that matched it")
			st.clear("rep")
			st.unset("again")
			st.unset("unmarked")
			st.unset("fresh")
			st.clear("marked")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// sendsInLoop: made anew in a loop that delivers the reports.
func sendsInLoop(p *Prog, d *ssa.MakeMap) bool {
	h := enclosingLoop(d.Block())
	if h == nil {
		return false
	}
	v := sliceOf(h.Parent(), h)
	return v != nil && isReports(v.Type())
}

func isBuiltin(v ssa.Value) bool { _, ok := v.(*ssa.Builtin); return ok }

// fromFirst: a whole slice or a part of it that starts with the first element.
func fromFirst(t *Term) bool {
	for t.k == KSlice {
		if t.op == "sub" {
			if n, ok := t.args[1].isInt(); t.args[1] != nil && !t.args[1].isNil() && (!ok || n != 0) {
				return false
			}
		}
		t = t.args[0]
	}
	return true
}

func isOne(t *Term) bool { n, ok := t.isInt(); return ok && n == 1 }

func callsOne(in ssa.Instruction, fns map[*ssa.Function]bool) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && c.Common().StaticCallee() != nil && fns[c.Common().StaticCallee()]
}

// seenBefore: a lookup in a set of requests made for the block.
func seenBefore(t *Term) bool {
	if t.k == KExtract {
		t = t.args[0]
	}
	if t.k != KLookup || t.args[0].typ == nil {
		return false
	}
	m := mapOf(t.args[0].typ)
	return m != nil && isReq(m.Key())
}

// checkWallet: one persistent request for each script, with what the subscriber asked for.
func checkWallet(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f] && !fns.watch[f]
	}
	x.pure = func(op string) bool { return true }
	isScripts := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && strings.HasSuffix(s.Elem().String(), "descriptor.ScriptResponse")
	}
	isParamOf := func(t *Term, f func(types.Type) bool) bool {
		t = unconv(t)
		if t.k == KLoad && t.args[0].k == KParam {
			t = t.args[0]
		}
		return t.k == KParam && t.typ != nil && f(t.typ)
	}
	isID := func(t types.Type) bool { return strings.HasSuffix(t.String(), "uuid.UUID") }
	isIntT := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && !isEventType(t)
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if ev.fn == nil || !fns.watch[ev.fn] && !fns.add[ev.fn] {
				return
			}
			m, why := x.requestOf(st, ev, fns)
			r.check(why == "", "wallet", short+": request", ev.instr.Pos(), st.path(12), "%s", why)
			if why != "" {
				return
			}
			r.check(m["ClientID"] != nil && isParamOf(m["ClientID"], isID), "wallet", short+": id", ev.instr.Pos(), st.path(12), "the request is queued for %s, not for the subscriber", m["ClientID"])
			r.check(m["StartHeight"] != nil && isParamOf(m["StartHeight"], isIntT), "wallet", short+": start", ev.instr.Pos(), st.path(12), "the request starts at %s, not at the height asked for", m["StartHeight"])
			pers := false
			if v := m["IsPersistent"]; v != nil {
				pers, _ = v.isBool()
			}
			r.check(pers, "wallet", short+": persistent", ev.instr.Pos(), st.path(12), "the request isn't persistent")
			item := m["Item"]
			if item == nil {
				r.bad("wallet", short+": item", ev.instr.Pos(), st.path(12), "the request has no item")
				return
			}
			item = stripIface(item)
			script := x.fieldOf(st, item, "outputScript")
			ok := false
			if script != nil {
				if o := fieldOwner(script, "Script"); o != nil {
					if c, i, is := elemOf(o); is && isScripts(c.typ) && fromFirst(c) {
						ok = true
						st.add(Atom{name: "done", a: c})
						if n, k := i.isInt(); k && n == 0 {
							st.set("first")
						}
					}
				}
			}
			r.check(ok, "wallet", short+": script", ev.instr.Pos(), st.path(12), "the request watches %s, not a script of the wallet", script)
			// the kind of event
			kind := p.eventOf(item.typ)
			known := false
			for t, v := range st.facts {
				if v && t.k == KBin && t.op == "==" {
					for i := range t.args {
						if n, k := t.args[i].isInt(); k && t.args[1-i].typ != nil && isEventType(t.args[1-i].typ) {
							known = known || kind != nil && n == *kind
						}
					}
				}
			}
			r.check(known, "wallet", short+": event", ev.instr.Pos(), st.path(12), "the item watched isn't one for the kind of event asked for")
		case EvBranch:
			if h, out := leaving(p, ev); h != nil {
				if v := sliceOf(h.Parent(), h); v != nil && isScripts(v.Type()) {
					coll := x.collOf(st, v)
					why := loopCounter(h.Parent(), h)
					if out && why == "" && fromFirst(coll) {
						if coll.k != KSlice {
							st.add(Atom{name: "all", a: coll})
						}
						st.set("first")
					}
					if !out {
						st.clear("done")
					}
				}
				if v := sliceOf(h.Parent(), h); v != nil {
					if s, ok := v.Type().Underlying().(*types.Slice); ok && isEventType(s.Elem()) && out && loopCounter(h.Parent(), h) == "" {
						st.set("events")
					}
				}
				if v := sliceOf(h.Parent(), h); v != nil && !out {
					if s, ok := v.Type().Underlying().(*types.Slice); ok && isEventType(s.Elem()) {
						st.clear("all")
						st.unset("first")
						st.set("event")
					}
				}
			}
		case EvReturn:
			if _, ok := successFacts(st, ev.args); ok && len(st.frames) == 1 {
				r.check(st.flag("events"), "wallet", short+": kinds", ev.instr.Pos(), st.path(12), "success is returned although not all kinds of event asked for are watched")
			}
		case EvBack:
			v := sliceOf(ev.frame.fn, ev.frame.blk)
			if v == nil {
				return
			}
			if isScripts(v.Type()) {
				coll := x.collOf(st, v)
				r.check(st.has(Atom{name: "done", a: coll}), "wallet", short+": each", ev.instr.Pos(), st.path(12), "a script of the wallet is not watched")
				return
			}
			if s, ok := v.Type().Underlying().(*types.Slice); ok && isEventType(s.Elem()) {
				single := false
				for t, v := range st.facts {
					if t.k == KCall && strings.HasSuffix(t.op, ".IsRange") && !v {
						single = true
					}
				}
				r.check(len(st.all("all")) > 0 || single && st.flag("first"), "wallet", short+": all", ev.instr.Pos(), st.path(12), "not all scripts of the wallet are watched for a kind of event asked for")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// eventOf: the kind of event that an item of the type is reported as.
func (p *Prog) eventOf(t types.Type) *int64 {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != "EventType" {
			continue
		}
		f := p.SSA.MethodValue(ms.At(i))
		if f == nil || len(f.Blocks) == 0 {
			return nil
		}
		b := f.Blocks[len(f.Blocks)-1]
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if c, ok := unconvV(rt.Results[0]).(*ssa.Const); ok {
				n := c.Int64()
				return &n
			}
		}
	}
	return nil
}
