package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("X03", checkX03) }

func isScanTx(t types.Type) bool {
	return t != nil && strings.HasSuffix(pointee(t).String(), "go-elements/transaction.Transaction")
}

func isTxs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isScanTx(s.Elem())
}

func isInvokeOf(t *Term, name string) bool {
	return t.k == KCall && (t.op == name || strings.HasSuffix(t.op, "."+name))
}

// recvOf: the receiver of a method call.
func recvOf(t *Term) *Term {
	if len(t.args) == 0 {
		return nil
	}
	return stripIface(t.args[0])
}

// matchOf: a call of the item's Match with its item and transaction.
func matchOf(t *Term) (item, tx *Term, ok bool) {
	if !isInvokeOf(t, "Match") || len(t.args) < 2 {
		return nil, nil, false
	}
	return recvOf(t), t.args[len(t.args)-1], true
}

func checkX03(p *Prog, r *Report) {
	r.rule("report", "a report names a transaction of the block fetched that satisfies the request, that block and the request")
	r.rule("every", "every transaction of the block is tried against every request")
	r.rule("match", "an item matches the transactions that have what it watches for, and no others")
	r.rule("item", "an item watches for what it was made for")
	r.rule("filter", "the filter consulted is that of the block scanned, for the items of the batch")
	r.rule("extract", "the block is fetched and its transactions tried if and only if the filter matches")
	checkFilterParams(p, r, "filter", "pkg/repository")
	r.rule("event", "the event delivered is that of the report")
	fns := p.scanFns()
	for f := range fns.split {
		checkReports(p, r, fns, f)
	}
	checkItems(p, r)
	for _, f := range fns.work {
		checkFilter(p, r, fns, f)
	}
	checkEvents(p, r)
	checkResponses(p, r)
	r.need("report", 4)
	r.need("every", 1)
	r.need("match", 4)
	r.need("item", 4)
	r.need("filter", 4)
	r.need("extract", 2)
	r.need("event", 5)
}

// checkReports: what is reported of a block.
func checkReports(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/scanner" }
	x.pure = func(op string) bool { return true }
	var reqs *Term
	for i, pr := range fn.Params {
		if isReqs(pr.Type()) {
			reqs = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	blockOf := func(st *State) *Term {
		for _, a := range st.all("block") {
			return a.a
		}
		return nil
	}
	// txsOf: the transactions of the block fetched
	txsOf := func(st *State, c *Term) bool {
		b := blockOf(st)
		o := fieldOwner(c, "Transactions")
		if o == nil || b == nil {
			return false
		}
		d := fieldOwner(o, "TransactionsData")
		return d != nil && d == b
	}
	isTx := func(st *State, t *Term) bool {
		c, _, ok := elemOf(t)
		return ok && txsOf(st, c)
	}
	// known to match: the facts say so now, or did when the match was put aside
	matches := func(st *State, tx, item *Term) bool {
		for t, v := range st.facts {
			if !v {
				continue
			}
			if i, y, ok := matchOf(t); ok && y == tx && (item == nil || unconv(i) == unconv(stripIface(item))) {
				return true
			}
		}
		return false
	}
	report := func(st *State, ev *Event, rep *Term) {
		tx := x.fieldOf(st, rep, "Transaction")
		req := x.fieldOf(st, rep, "Request")
		hash := x.fieldOf(st, rep, "BlockHash")
		height := x.fieldOf(st, rep, "BlockHeight")
		if tx == nil || req == nil {
			r.bad("report", short+": report", ev.instr.Pos(), st.path(12), "the report %s is not understood", rep)
			return
		}
		c, _, isElem := elemOf(req)
		r.check(isElem && c == reqs, "report", short+": request", ev.instr.Pos(), st.path(12), "the request reported is %s, not one of those given", req)
		item := x.fieldOf(st, req, "Item")
		ok := isTx(st, tx) && matches(st, tx, item)
		if !ok {
			// put aside before
			if c, _, is := elemOf(tx); is {
				for _, a := range st.all("aside") {
					ok = ok || (a.a == c || c.k == KAppend && a.a.k == KAppend && c.site == a.a.site) && (a.b == nil || item == nil || unconv(a.b) == unconv(stripIface(item)) || a.b.k == KStale)
				}
			}
		}
		r.check(ok, "report", short+": transaction", ev.instr.Pos(), st.path(12), "the transaction reported, %s, is not one of the block known to satisfy the request", tx)
		okHash := false
		for _, a := range st.all("block") {
			okHash = okHash || unconv(hash) == unconv(a.b)
		}
		r.check(okHash, "report", short+": hash", ev.instr.Pos(), st.path(12), "the block reported is %s, not the one fetched", hash)
		o := fieldOwner(height, "Height")
		okH := o != nil && fieldOwner(o, "Header") != nil && fieldOwner(o, "Header") == blockOf(st)
		r.check(okH, "report", short+": height", ev.instr.Pos(), st.path(12), "the height reported is %s, not that of the block fetched", height)
		st.set("told")
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if ev.op != "" && strings.HasSuffix(ev.op, ".GetBlock") && ev.res != nil {
				st.clear("block")
				b := ev.res
				if tp, ok := b.typ.(*types.Tuple); ok {
					b = mkExtract(ev.res, 0, tp.At(0).Type())
				}
				st.add(Atom{name: "block", a: b, b: ev.args[len(ev.args)-1]})
				h := unconv(ev.args[len(ev.args)-1])
				r.check(h.k == KParam, "report", short+": fetched", ev.instr.Pos(), nil, "the block fetched is %s, not the one scanned", h)
			}
			if ev.op == "append" && ev.res != nil && isTxs(ev.res.typ) {
				for _, e := range ev.args[1:] {
					ok := isTx(st, e) && matches(st, e, nil)
					r.check(ok, "report", short+": aside", ev.instr.Pos(), st.path(12), "%s is not known to satisfy the request", e)
					if !ok {
						continue
					}
					a := Atom{name: "aside", a: ev.res}
					for t, v := range st.facts {
						if i, y, is := matchOf(t); is && v && y == e {
							a.b = unconv(i)
						}
					}
					st.add(a)
					st.set("told")
				}
			}
		case EvCall:
			if ev.op == "append" {
				for _, e := range ev.args[1:] {
					if e.typ != nil && scanType(e.typ, "Report") {
						report(st, ev, e)
					}
				}
			}
		case EvSend:
			if isReportChan(ev.addr.typ) {
				report(st, ev, ev.val)
			}
		case EvBranch:
			ev.addr.has(func(y *Term) bool {
				if _, _, ok := matchOf(y); ok {
					st.set("tried")
					if knownTrue(st, y, true) {
						st.set("hit")
					}
				}
				return false
			})
			if h, out := leaving(p, ev); h != nil {
				if v := sliceOf(h.Parent(), h); v != nil && isTxs(v.Type()) {
					coll := x.collOf(st, v)
					if !out {
						st.unset("tried")
						st.unset("hit")
						st.unset("told")
					} else if txsOf(st, coll) {
						why := loopCounter(h.Parent(), h)
						if exitsElsewhere(p, h) {
							why = "the loop can be left before"
						}
						r.check(why == "", "every", short+": range", ev.instr.Pos(), nil, "not all transactions are tried: %s", why)
						st.set("all")
					}
				}
				if v := sliceOf(h.Parent(), h); v != nil && isReqs(v.Type()) && !out {
					st.unset("all")
				}
			}
		case EvBack:
			v := sliceOf(ev.frame.fn, ev.frame.blk)
			if v == nil {
				return
			}
			coll := x.collOf(st, v)
			if isTxs(v.Type()) && txsOf(st, coll) {
				r.check(st.flag("tried"), "every", short+": tried", ev.instr.Pos(), st.path(12), "a transaction of the block is not tried")
				r.check(!st.flag("hit") || st.flag("told"), "every", short+": reported", ev.instr.Pos(), st.path(12), "a transaction that satisfies the request is not reported")
			}
			if coll == reqs {
				r.check(st.flag("all"), "every", short, ev.instr.Pos(), st.path(12), "the transactions of the block are not tried against a request")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// exitsElsewhere: the loop can be left by other than its condition.
func exitsElsewhere(p *Prog, h *ssa.BasicBlock) bool {
	body := p.loop(h.Parent()).body[h]
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && !endsInPanic(s) {
				return true
			}
		}
	}
	return false
}

func endsInPanic(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

// checkItems: the kinds of items that can be watched.
func checkItems(p *Prog, r *Report) {
	n := 0
	it := p.named("pkg/scanner.WatchItem")
	if it == nil {
		r.anchorLost("WatchItem")
		return
	}
	iface, _ := it.Underlying().(*types.Interface)
	for _, t := range p.implementers(iface) {
		kind := p.eventOf(t)
		ms := p.SSA.MethodSets.MethodSet(t)
		var match, bytesFn *ssa.Function
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "Match":
				match = p.SSA.MethodValue(ms.At(i))
			case "Bytes":
				bytesFn = p.SSA.MethodValue(ms.At(i))
			}
		}
		if match == nil || bytesFn == nil || len(match.Blocks) == 0 || !inModule(match) || match.Synthetic != "" || testOnly(match) {
			continue
		}
		if kind == nil {
			r.bad("match", fname(match)+": kind", match.Pos(), nil, "the kind of event of the item is not understood")
			continue
		}
		n++
		spent := p.constOf("pkg/scanner", "SpentUtxo")
		checkMatch(p, r, match, bytesFn, spent != nil && *kind == *spent)
	}
	if n == 0 {
		r.anchorLost("the items that can be watched")
	}
	checkMakers(p, r)
}

func (p *Prog) constOf(pkg, name string) *int64 {
	pk := p.pkg(pkg)
	if pk == nil {
		return nil
	}
	c, ok := pk.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil
	}
	n := c.Value.Int64()
	return &n
}

// comparison: what a condition says about the receiver and an element of the transaction.
type comparison struct{ field, elem string }

func checkMatch(p *Prog, r *Report, fn, bytesFn *ssa.Function, spent bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/scanner" }
	x.pure = func(op string) bool { return true }
	list, want := "Outputs", []string{"Script"}
	if spent {
		list, want = "Inputs", []string{"Hash", "Index"}
	}
	// which field of the item must be equal to which of the element
	fields := map[string]map[string]bool{}
	var recv *Term
	if len(fn.Params) > 0 {
		recv = tt.mk(Term{k: KParam, val: fn.Params[0], typ: fn.Params[0].Type(), idx: 0})
	}
	// compared: does the term compare a field of the item with that field of an element?
	side := func(t *Term, st *State) (own string, elem string) {
		t.has(func(y *Term) bool {
			if y.k == KLoad && y.args[0].k == KField && y.args[0].args[0] == recv {
				own = y.args[0].fld.Name()
			}
			for _, w := range want {
				if o := fieldOwner(y, w); o != nil {
					if c, _, ok := elemOf(o); ok && fieldOwner(c, list) != nil && fieldOwner(c, list).k == KParam {
						elem = w
					}
				}
			}
			return false
		})
		return
	}
	cmp := func(st *State, t *Term) (own, elem string, ok bool) {
		var a, b *Term
		switch {
		case t.k == KBin && t.op == "==":
			a, b = t.args[0], t.args[1]
		case t.k == KCall && len(t.args) == 2 && (strings.HasSuffix(t.op, "IsEqual") || strings.HasSuffix(t.op, "bytes.Equal")):
			a, b = t.args[0], t.args[1]
		default:
			return
		}
		o1, e1 := side(a, st)
		o2, e2 := side(b, st)
		if o1 != "" && e2 != "" && e1 == "" && o2 == "" {
			return o1, e2, true
		}
		if o2 != "" && e1 != "" && e2 == "" && o1 == "" {
			return o2, e1, true
		}
		return
	}
	verdict := func(st *State) (eq map[string]bool, differs, undecided bool) {
		eq = map[string]bool{}
		for t, v := range st.facts {
			if own, e, ok := cmp(st, t); ok {
				if v {
					eq[e] = true
					if fields[e] == nil {
						fields[e] = map[string]bool{}
					}
					fields[e][own] = true
				} else {
					differs = true
				}
			}
			// a hash of the wrong length
			if t.k == KBin && t.op == "==" && !v && (t.args[0].isNil() || t.args[1].isNil()) && t.has(func(y *Term) bool {
				return y.k == KExtract && y.args[0].k == KCall && strings.HasSuffix(y.args[0].op, "chainhash.NewHash")
			}) {
				differs = true
			}
		}
		return
	}
	covered := func(eq map[string]bool) bool {
		for _, w := range want {
			if !eq[w] {
				return false
			}
		}
		return true
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			eq, _, _ := verdict(st)
			for e := range eq {
				st.set("eq " + e)
			}
			ev.addr.has(func(y *Term) bool {
				if _, _, ok := cmp(st, y); ok && knownTrue(st, y, false) {
					st.unset("pending")
				}
				return false
			})
			h, out := leaving(p, ev)
			if h == nil {
				return
			}
			v := sliceOf(h.Parent(), h)
			if v == nil {
				return
			}
			coll := x.collOf(st, v)
			if o := fieldOwner(coll, list); o != nil && o.k == KParam {
				for _, w := range want {
					st.unset("eq " + w)
				}
				if out {
					why := loopCounter(h.Parent(), h)
					r.check(why == "", "match", short+": range", ev.instr.Pos(), nil, "not all are compared: %s", why)
					st.set("all")
				}
			}
		case EvBack:
			v := sliceOf(ev.frame.fn, ev.frame.blk)
			if v == nil {
				return
			}
			coll := x.collOf(st, v)
			if o := fieldOwner(coll, list); o == nil || o.k != KParam {
				return
			}
			_, differs, _ := verdict(st)
			if !differs && !st.flag("pending") && len(want) == 1 {
				// compared, and looked at later
				for _, v := range ev.frame.env {
					if v != nil {
						if _, _, ok := cmp(st, v); ok {
							differs = true
							st.set("pending")
						}
					}
				}
			}
			r.check(differs, "match", short+": skipped", ev.instr.Pos(), st.path(12), "one of the %s is passed over although it isn't known to differ from what is watched", list)
		case EvReturn:
			b, known := st.facts.eval(ev.args[0])
			if c, ok := ev.args[0].isBool(); ok {
				b, known = c, true
			}
			if own, e, ok := cmp(st, ev.args[0]); !known && ok {
				// the result of the last comparison
				known, b = true, true
				st.set("eq " + e)
				if fields[e] == nil {
					fields[e] = map[string]bool{}
				}
				fields[e][own] = true
			}
			if !known {
				r.bad("match", short+": result", ev.instr.Pos(), st.path(12), "the result %s is not understood", ev.args[0])
				return
			}
			if b {
				eq, _, _ := verdict(st)
				for _, w := range want {
					eq[w] = eq[w] || st.flag("eq "+w)
				}
				r.check(covered(eq), "match", short+": true", ev.instr.Pos(), st.path(12), "a transaction matches although %s of none of its %s are known to be those watched", strings.Join(want, " and "), list)
			} else {
				r.check(st.flag("all"), "match", short+": false", ev.instr.Pos(), st.path(12), "a transaction doesn't match although not all of its %s were compared", list)
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	for e, m := range fields {
		r.check(len(m) == 1, "match", short+": field "+e, fn.Pos(), nil, "different fields of the item are compared with the same")
	}
	// what is looked for in the filter
	y := newExec(p)
	y.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvReturn {
			return
		}
		t := unconv(ev.args[0])
		ok := t.k == KLoad && t.args[0].k == KField && t.args[0].args[0].k == KParam
		name := ""
		if ok {
			name = t.args[0].fld.Name()
			sl, isS := t.typ.Underlying().(*types.Slice)
			ok = isS && sl.Elem().String() == "byte"
			if !spent {
				ok = ok && fields["Script"][name]
			}
		}
		r.check(ok, "match", fname(bytesFn), ev.instr.Pos(), nil, "what is looked for in the filter, %s, is not the script watched", t)
	}
	err = y.run(bytesFn, rootOpt{})
	r.ran(y, fname(bytesFn), err)
}

// checkMakers: the exported functions that make items.
func checkMakers(p *Prog, r *Report) {
	for _, name := range []string{"NewSpentWatchItemFromInput", "NewUnspentWatchItemFromAddress"} {
		fn := p.fun("pkg/scanner." + name)
		if fn == nil {
			r.anchorLost(name)
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == "pkg/scanner" }
		x.pure = func(op string) bool { return true }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			item := stripIface(ev.args[0])
			s := structOf(pointee(item.typ))
			if s == nil || item.isNil() {
				r.bad("item", name, ev.instr.Pos(), st.path(12), "the item is %s", item)
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				v := x.fieldOf(st, item, f.Name())
				if v == nil {
					continue
				}
				v = unconv(v)
				ok := true
				what := ""
				switch {
				case f.Type().String() == "[]byte":
					what = "the script given"
					ok = v.k == KParam && v.typ.String() == "[]byte" || v.k == KExtract && v.idx == 0 && v.args[0].k == KCall && strings.HasSuffix(v.args[0].op, "address.ToOutputScript") && v.args[0].args[0].k == KParam
				case strings.HasSuffix(f.Type().String(), "chainhash.Hash"):
					what = "the hash of the input"
					ok = v.has(func(y *Term) bool { o := fieldOwner(y, "Hash"); return o != nil && o.k == KParam })
				case f.Type().String() == "uint32":
					what = "the index of the input"
					o := fieldOwner(v, "Index")
					ok = o != nil && o.k == KParam
				}
				r.check(ok, "item", name+": "+f.Name(), ev.instr.Pos(), st.path(12), "%s is %s, not %s", f.Name(), v, what)
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, name, err)
	}
}

// checkFilter: the filter that decides whether a block is looked into.
func checkFilter(p *Prog, r *Report, fns *scanFns, fn *ssa.Function) {
	x := newExec(p)
	short := fname(fn)
	splits := p.reach(false, func(in ssa.Instruction) bool { return callsOne(in, fns.split) })
	regular := p.constOf("pkg/repository", "RegularFilter")
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/scanner" && !fns.add[f] && !fns.take[f] && !fns.split[f] && !fns.watch[f] && !fns.pick[f]
	}
	x.pure = func(op string) bool { return true }
	itemBytes := func(t *Term) *Term {
		// Bytes of the item of an element of a slice of requests: the slice
		t = unconv(t)
		if !isInvokeOf(t, "Bytes") {
			return nil
		}
		o := fieldOwner(recvOf(t), "Item")
		if o == nil {
			return nil
		}
		c, _, ok := elemOf(o)
		if !ok || !isReqs(c.typ) {
			return nil
		}
		return c
	}
	isItems := func(t types.Type) bool { return t != nil && t.String() == "[][]byte" }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStore:
			if ev.addr.k == KIndex && isItems(ev.addr.args[0].typ) {
				if c := itemBytes(ev.val); c != nil {
					_, i, _ := elemOf(fieldOwner(recvOf(unconv(ev.val)), "Item"))
					if i == ev.addr.args[1] {
						st.add(Atom{name: "item", a: c, b: ev.addr.args[0]})
					}
				}
			}
		case EvCall:
			if ev.fn != nil && fns.split[ev.fn] {
				var hash, batch *Term
				for _, a := range ev.args {
					if a.typ != nil && isReqs(a.typ) {
						batch = a
					} else if a.typ != nil && strings.HasSuffix(a.typ.String(), "chainhash.Hash") {
						hash = a
					}
				}
				ok, same, items := false, false, false
				for _, a := range st.all("asked") {
					ok = ok || st.flag("matched")
					same = same || unconv(a.b) == unconv(hash)
					items = items || a.c == batch
				}
				r.check(ok, "extract", short+": needless", ev.instr.Pos(), st.path(12), "the block is looked into although its filter isn't known to match")
				r.check(same, "filter", short+": block", ev.instr.Pos(), st.path(12), "the block looked into, %s, is not the one whose filter matched", hash)
				r.check(items, "filter", short+": batch", ev.instr.Pos(), st.path(12), "the requests tried, %s, are not those whose items were looked for in the filter", batch)
				st.set("looked")
			}
		case EvResult:
			switch {
			case ev.op == "append" && ev.res != nil && isItems(ev.res.typ):
				for _, e := range ev.args[1:] {
					if c := itemBytes(e); c != nil {
						st.add(Atom{name: "item", a: c, b: ev.res})
					}
				}
			case strings.HasSuffix(ev.op, ".GetFilter"):
				key := ev.args[len(ev.args)-1]
				h := x.fieldOf(st, key, "BlockHash")
				ft := x.fieldOf(st, key, "FilterType")
				var hash *Term
				x.reachesAll(h, func(y *Term) {
					if y.typ != nil && strings.HasSuffix(y.typ.String(), "*github.com/btcsuite/btcd/chaincfg/chainhash.Hash") && y.k != KConv && hash == nil {
						hash = y
					}
				})
				n, k := ft.isInt()
				r.check(regular != nil && k && n == *regular, "filter", short+": type", ev.instr.Pos(), st.path(12), "the filter asked for has the type %s", ft)
				r.check(hash != nil, "filter", short+": key", ev.instr.Pos(), st.path(12), "the filter asked for is that of %s", h)
				st.clear("filter")
				st.add(Atom{name: "filter", a: ev.res, b: hash})
			case strings.HasSuffix(ev.op, ".MatchAny"):
				var hash *Term
				from := false
				for _, a := range st.all("filter") {
					hash = a.b
					from = x.reaches(ev.args[0], func(y *Term) bool { return y == a.a })
				}
				r.check(from, "filter", short+": filter", ev.instr.Pos(), st.path(12), "what is searched is not the filter of the block")
				dk := false
				x.reaches(ev.args[1], func(y *Term) bool {
					if y.k == KCall && strings.HasSuffix(y.op, "DeriveKey") && len(y.args) > 0 {
						dk = dk || unconv(y.args[0]) == hash || x.reaches(y.args[0], func(z *Term) bool { return z == hash })
					}
					return false
				})
				r.check(dk, "filter", short+": derived key", ev.instr.Pos(), st.path(12), "the filter is searched with the key %s, not the one derived from its block", ev.args[1])
				var batch *Term
				for _, a := range st.all("items") {
					if a.b == ev.args[2] || a.b.k == KAppend && ev.args[2].k == KAppend && a.b.site == ev.args[2].site {
						batch = a.a
					}
				}
				if batch == nil {
					// nothing in the batch
					for _, a := range st.all("none") {
						batch = a.a
					}
				}
				r.check(batch != nil, "filter", short+": items", ev.instr.Pos(), st.path(12), "the items looked for, %s, are not those of all requests of the batch", ev.args[2])
				st.clear("asked")
				st.unset("matched")
				st.add(Atom{name: "asked", a: ev.res, b: hash, c: batch})
			}
		case EvBranch:
			for _, a := range st.all("asked") {
				if a.a == nil {
					continue
				}
				b := a.a
				if tp, ok := b.typ.(*types.Tuple); ok {
					b = mkExtract(b, 0, tp.At(0).Type())
				}
				if v, k := st.facts.eval(b); k && v {
					st.set("matched")
				}
			}
			h, out := leaving(p, ev)
			if h == nil {
				return
			}
			v := sliceOf(h.Parent(), h)
			if v == nil || !isReqs(v.Type()) {
				return
			}
			coll := x.collOf(st, v)
			if out && loopCounter(h.Parent(), h) == "" {
				put := false
				for _, a := range st.all("item") {
					if a.a == coll {
						st.clear("items")
						st.add(Atom{name: "items", a: coll, b: a.b})
						put = true
					}
				}
				if !put && p.loopMakesItems(h) {
					st.add(Atom{name: "none", a: coll})
				}
			} else if !out && p.loopMakesItems(h) {
				st.clear("item")
				st.clear("none")
			}
		case EvBack:
			h := ev.frame.blk
			v := sliceOf(ev.frame.fn, h)
			if v != nil && isReqs(v.Type()) && p.loopMakesItems(h) {
				coll := x.collOf(st, v)
				ok := false
				for _, a := range st.all("item") {
					ok = ok || a.a == coll
				}
				r.check(ok, "filter", short+": each", ev.instr.Pos(), st.path(12), "the item of a request is not looked for in the filter")
			}
			if p.scansBlock(ev.frame.fn, h, fns, splits) {
				r.check(!st.flag("matched") || st.flag("looked"), "extract", short+": missed", ev.instr.Pos(), st.path(16), "a block whose filter matches is not looked into")
				st.unset("matched")
				st.unset("looked")
				st.clear("asked")
				st.clear("filter")
				st.clear("items")
				st.clear("item")
				st.clear("none")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// loopMakesItems: the loop asks requests for what is looked for in a filter.
func (p *Prog) loopMakesItems(h *ssa.BasicBlock) bool {
	for b := range p.loop(h.Parent()).body[h] {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Bytes" && enclosingLoop(b) == h {
				return true
			}
		}
	}
	return false
}

// scansBlock: the loop's turns are about one block each.
func (p *Prog) scansBlock(f *ssa.Function, h *ssa.BasicBlock, fns *scanFns, m map[*ssa.Function]bool) bool {
	for b := range p.loop(f).body[h] {
		for _, in := range b.Instrs {
			if callsOne(in, fns.split) || callsOne(in, m) {
				return true
			}
		}
	}
	return false
}

// reachesAll visits what the value derives from.
func (x *Exec) reachesAll(t *Term, visit func(*Term)) {
	if t == nil {
		return
	}
	x.reaches(t, func(y *Term) bool { visit(y); return false })
}

// checkEvents: what the application hands on for a report.
func checkEvents(p *Prog, r *Report) {
	isEv := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "SubscriberEventReport"
	}
	sends := p.reach(false, func(in ssa.Instruction) bool { return sendsElem(in, isEv) })
	n := 0
	for _, fn := range p.innermostRoots("internal/core/application", sends, func(f *ssa.Function) bool { return hasReportChan(f) }) {
		n++
		x := newExec(p)
		short := fname(fn)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(f)) == "internal/core/application" && (sends[f] || strings.Contains(f.Signature.String(), "Report"))
		}
		x.pure = func(op string) bool { return true }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvSend || ev.addr.typ == nil || !isEv(chanElem(ev.addr.typ)) {
				return
			}
			var rep *Term
			x.reachesAll(x.fieldOf(st, ev.val, "Transaction"), func(y *Term) {
				if y.typ != nil && (y.k == KRecv || y.k == KParam) && scanType(pointee(y.typ), "Report") {
					rep = y
				}
			})
			if rep == nil {
				r.bad("event", short, ev.instr.Pos(), st.path(12), "an event is delivered without a report")
				return
			}
			req := x.fieldOf(st, rep, "Request")
			for _, c := range []struct {
				name string
				want *Term
			}{
				{"SubscriberID", x.fieldOf(st, req, "ClientID")},
				{"BlockHeight", x.fieldOf(st, rep, "BlockHeight")},
				{"BlockHash", x.fieldOf(st, rep, "BlockHash")},
				{"Transaction", x.fieldOf(st, rep, "Transaction")},
			} {
				v := x.fieldOf(st, ev.val, c.name)
				r.check(v != nil && c.want != nil && unconv(v) == unconv(c.want), "event", short+": "+c.name, ev.instr.Pos(), st.path(12), "the %s of the event is %s, not that of the report", c.name, v)
			}
			k := unconv(x.fieldOf(st, ev.val, "EventType"))
			ok := isInvokeOf(k, "EventType") && unconv(recvOf(k)) == unconv(stripIface(x.fieldOf(st, req, "Item")))
			r.check(ok, "event", short+": EventType", ev.instr.Pos(), st.path(12), "the kind of the event is %s, not that of the item reported", k)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the goroutine that hands on reports")
	}
}

func sendsElem(in ssa.Instruction, is func(types.Type) bool) bool {
	el := func(v ssa.Value) bool {
		c, ok := v.Type().Underlying().(*types.Chan)
		return ok && is(c.Elem())
	}
	switch i := in.(type) {
	case *ssa.Send:
		return el(i.Chan)
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.SendOnly && el(s.Chan) {
				return true
			}
		}
	}
	return false
}

func recvsElem(in ssa.Instruction, is func(types.Type) bool) bool {
	el := func(v ssa.Value) bool {
		c, ok := v.Type().Underlying().(*types.Chan)
		return ok && is(c.Elem())
	}
	switch i := in.(type) {
	case *ssa.UnOp:
		return i.Op.String() == "<-" && el(i.X)
	case *ssa.Select:
		for _, s := range i.States {
			if s.Dir == types.RecvOnly && el(s.Chan) {
				return true
			}
		}
	}
	return false
}

func hasReportChan(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if recvsElem(in, func(t types.Type) bool { return scanType(t, "Report") }) {
				return true
			}
		}
	}
	return false
}

// innermostRoots: functions of the package in the set that satisfy the condition.
func (p *Prog) innermostRoots(pkg string, set map[*ssa.Function]bool, is func(*ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) == pkg && set[f] && is(f) {
			r = append(r, f)
		}
	}
	return r
}

// checkResponses: what a subscriber is sent for an event.
func checkResponses(p *Prog, r *Report) {
	isEv := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "SubscriberEventReport"
	}
	n := 0
	for _, fn := range p.Funcs {
		if !strings.HasPrefix(rel(pkgPathOf(fn)), "internal/interface/") {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				has = has || recvsElem(in, isEv)
			}
		}
		if !has {
			continue
		}
		n++
		n2 := 0
		x := newExec(p)
		short := fname(fn)
		x.pure = func(op string) bool { return true }
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return strings.HasPrefix(rel(pkgPathOf(f)), "internal/interface/") && mentionsResponse(f)
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall, EvGo:
				var e *Term
				args := append([]*Term{}, ev.args...)
				if ev.call != nil && ev.call.fn != nil {
					args = append(args, ev.call.fn.args...)
				}
				if ev.kind == EvCall && ev.fn != nil && x.inline(x, st, ev.fn, ev.call) {
					return
				}
				for _, a := range args {
					if a == nil {
						continue
					}
					a = stripIface(a)
					if a.typ == nil || !isResponse(pointee(a.typ)) || a.k == KParam {
						continue
					}
					for _, f := range []string{"TxID", "EventType"} {
						x.reachesAll(x.fieldOf(st, a, f), func(y *Term) {
							if y.k == KRecv && y.typ != nil && isEv(y.typ) {
								e = y
							}
						})
					}
					if e == nil {
						r.bad("event", short+": response", ev.instr.Pos(), st.path(12), "a response is sent without an event")
						return
					}
					n2++
					v := unconv(x.fieldOf(st, a, "EventType"))
					ok := v.k == KExtract && v.idx == 0 && v.args[0].k == KCall && strings.HasSuffix(v.args[0].op, "FromScannerEventTypeToNeutrinodType") && unconv(v.args[0].args[0]) == unconv(x.fieldOf(st, e, "EventType"))
					r.check(ok, "event", short+": response kind", ev.instr.Pos(), st.path(12), "the kind of event sent is %s, not that of the event", v)
					if ok {
						r.check(errNil(st.facts, errOf(v.args[0])), "event", short+": response unknown kind", ev.instr.Pos(), st.path(12), "an event is sent although its kind could not be translated")
					}
					v = unconv(x.fieldOf(st, a, "TxID"))
					tx := x.fieldOf(st, e, "Transaction")
					ok = v.k == KCall && strings.HasSuffix(v.op, "String") && x.reaches(v, func(y *Term) bool {
						return y.k == KCall && strings.HasSuffix(y.op, "TxHash") && len(y.args) > 0 && unconv(y.args[0]) == unconv(tx)
					})
					r.check(ok, "event", short+": response transaction", ev.instr.Pos(), st.path(12), "the transaction sent is %s, not that of the event", v)
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
		if n2 == 0 {
			r.anchorLost("the response sent to subscribers in " + short)
		}
	}
	if n == 0 {
		r.anchorLost("the goroutine that sends events to subscribers")
	}
}

func isResponse(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "OnChainEventResponse"
}

func mentionsResponse(f *ssa.Function) bool {
	s := f.Signature.String()
	return strings.Contains(s, "OnChainEventResponse") || strings.Contains(s, "SubscriberEventReport")
}
