package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N02", checkN02) }

func callsStatic(pkg, name string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		t := c.Common().StaticCallee()
		return t != nil && t.Name() == name && rel(pkgPathOf(t)) == pkg
	}
}

func callsMethod(name string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == name
	}
}

// innermost: functions of pkg/node in all the sets none of whose callees (in the package) is in all of them.
func (p *Prog) innermost(pkg string, sets ...map[*ssa.Function]bool) []*ssa.Function {
	in := func(f *ssa.Function) bool {
		if rel(pkgPathOf(f)) != pkg {
			return false
		}
		for _, s := range sets {
			if !s[f] {
				return false
			}
		}
		return true
	}
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if !in(f) {
			continue
		}
		inner := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, g := range p.callees(i, false) {
					if g != f && in(g) {
						inner = true
					}
				}
			}
		}
		if !inner {
			r = append(r, f)
		}
	}
	return r
}

func returnsPeer(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "pkg/peer.Peer")
}

func isPeerType(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "pkg/peer.Peer")
}

// nodeEnv sets up an analysis of message handling code of the node: the constructors of
// messages and helpers of the node are followed, NewMessage is not.
func nodeEnv(p *Prog, x *Exec, more func(f *ssa.Function) bool) {
	makes := p.reach(false, func(in ssa.Instruction) bool {
		return callsStatic("pkg/protocol", "NewMessage")(in) || callsMethod("Write")(in) || callsStatic("pkg/binary", "Marshal")(in)
	})
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		switch rel(pkgPathOf(f)) {
		case "pkg/protocol":
			return f.Name() != "NewMessage" && f.Name() != "String" && f.Name() != "CommandString" && f.Name() != "NewUserAgent"
		case "pkg/node":
			if returnsPeer(f) {
				return false
			}
			return makes[f] || smallHelper(f) || more != nil && more(f)
		case "pkg/binary":
			return false
		}
		return false
	}
	x.pure = func(op string) bool {
		if strings.HasSuffix(op, "protocol.NewMessage") || strings.HasSuffix(op, "binary.Marshal") || strings.HasSuffix(op, "protocol.NewUserAgent") || strings.HasSuffix(op, ").CommandString") {
			return true
		}
		for _, f := range p.Funcs {
			if returnsPeer(f) && rel(pkgPathOf(f)) == "pkg/node" && strings.HasSuffix(op, "."+f.Name()) {
				return true
			}
		}
		return false
	}
}

// fieldsOf: the field values of a payload handed to NewMessage (by value or by pointer).
func (x *Exec) fieldOf(st *State, v *Term, name string) *Term {
	if v == nil || v.typ == nil && v.k != KIface {
		return nil
	}
	v = stripIface(v)
	t := v.typ
	ptr := false
	if e := pointee(t); e != nil && e != t {
		t, ptr = e, true
	}
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != name {
			continue
		}
		if ptr {
			return x.load(st, fieldAddr(v, f), f.Type())
		}
		return fieldVal(v, f)
	}
	return nil
}

func payloadType(v *Term) string {
	v = stripIface(v)
	if v.typ == nil {
		return ""
	}
	return strings.TrimPrefix(wireName(v.typ), "*")
}

// decodedField: t is the named field of the message of that type decoded in this function.
func decodedField(t *Term, typ, field string) bool {
	if t == nil {
		return false
	}
	o := fieldOwner(t, field)
	if o == nil {
		return false
	}
	return o.has(func(y *Term) bool { return y.k == KOut && strings.Contains(y.op, "Decode") }) && mentionsType(o, typ) || decodedAny(o)
}

func decodedAny(o *Term) bool {
	return o.k == KOut && strings.Contains(o.op, "Decode")
}

func checkN02(p *Prog, r *Report) {
	r.rule("mirror", "what a reply or request carries is taken from the message or stored data that caused it")
	r.rule("same-peer", "a reply is sent to the peer that asked")
	r.rule("answered", "a ping, an inventory and a request for filters are answered, or an error is reported")
	r.rule("range", "filters are sent for every block from the start to the stop of the request, at most 1000")
	r.rule("filter-request", "after a header is stored the filter of exactly that block is requested")
	r.rule("headers-request", "headers are requested from the stored tip, or from the genesis of the network if nothing is stored")
	makes := p.reach(false, callsStatic("pkg/protocol", "NewMessage"))
	_, reads := readersOfPeers(p)
	n := 0
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) != "pkg/node" || f.Parent() != nil || !takesReader(f) || reads[f] {
			continue
		}
		for _, t := range decodedIn(p, f) {
			switch wireName(t) {
			case "MsgPing":
				if !makes[f] {
					if f.Name() == "handlePing" {
						r.bad("answered", fname(f), f.Pos(), nil, "a ping is never answered")
					}
					continue // the handler of pongs
				}
				checkReply(p, r, f, "pong", "MsgPing")
				n++
			case "MsgInv":
				checkReply(p, r, f, "getdata", "MsgInv")
				n++
			case "MsgGetCFilters":
				checkReply(p, r, f, "cfilter", "MsgGetCFilters")
				n++
			}
		}
	}
	if n < 3 {
		r.anchorLost("the handlers of pings, inventories and filter requests")
	}
	writes := p.reach(false, storesHeaders)
	for _, f := range p.innermost("pkg/node", writes, makes) {
		checkFilterRequest(p, r, f)
	}
	loc := p.reach(false, callsMethod("LatestBlockLocator"))
	for _, f := range p.innermost("pkg/node", loc, makes) {
		checkHeadersRequest(p, r, f)
	}
	take(p, r, checkGenesis, map[string]string{"first locator": "headers-request"})
	r.need("filter-request", 1)
	r.need("headers-request", 1)
	r.need("mirror", 4)
	r.need("range", 1)
}

// checkReply examines a handler that answers a message of type typ with the command cmd.
func checkReply(p *Prog, r *Report, fn *ssa.Function, cmd, typ string) {
	x := newExec(p)
	nodeEnv(p, x, nil)
	short := fname(fn)
	var peerParam *Term
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStart:
			for i, pr := range fn.Params {
				if isPeerType(pr.Type()) {
					peerParam = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
				}
			}
		case EvResult:
			switch {
			case isOp(ev.op, "protocol.NewMessage"):
				if c, ok := ev.args[0].isStr(); ok && c == cmd {
					checkPayload(p, r, x, st, ev, short, cmd, typ)
					if e := errOf(ev.res); e != nil {
						st.add(Atom{name: "failed", a: e})
					}
				}
			case isOp(ev.op, ".Write") && len(ev.args) >= 2:
				m := ev.args[len(ev.args)-1].find(func(y *Term) bool { return y.k == KCall && isOp(y.op, "protocol.NewMessage") })
				if m == nil {
					m2 := x.find(ev.args[len(ev.args)-1], func(y *Term) bool { return y.k == KCall && isOp(y.op, "protocol.NewMessage") })
					m = m2
				}
				if m == nil {
					r.bad("mirror", short+": bytes written", ev.instr.Pos(), st.path(10), "what is written to the peer is no message made here")
					return
				}
				if c, _ := m.args[0].isStr(); c != cmd {
					return
				}
				conn := ev.args[0].find(func(y *Term) bool { return y.k == KCall && isOp(y.op, ".Connection") })
				ok := conn != nil && len(conn.args) > 0 && stripIface(conn.args[0]) == peerParam
				r.check(ok, "same-peer", short+": "+cmd+" sent", ev.instr.Pos(), st.path(15), "the answer is not sent over the connection of the peer that asked")
				st.set("sent")
			}
			// any failure
			if e := errOf(ev.res); e != nil && !neverFails(ev.op) {
				st.add(Atom{name: "failed", a: e})
			}
		case EvBack:
			if cmd == "cfilter" {
				answered(r, st, short, cmd, ev)
				st.unset("sent")
				st.clear("failed")
				st.unset("inloop")
			}
		case EvBranch:
			for _, a := range st.all("failed") {
				if errNil(st.facts, a.a) {
					st.del(a)
				}
			}
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			if cmd != "cfilter" {
				answered(r, st, short, cmd, ev)
				return
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if cmd == "cfilter" {
		checkFilterRange(p, r, fn)
	}
}

func answered(r *Report, st *State, short, cmd string, ev *Event) {
	ok := st.flag("sent")
	for _, a := range st.all("failed") {
		if !errNil(st.facts, a.a) {
			ok = true
		}
	}
	r.check(ok, "answered", short+": "+cmd, ev.instr.Pos(), st.path(15), "no %s is sent although nothing failed", cmd)
}

// find looks through the operands of accumulated values, too.
func (x *Exec) find(t *Term, pred func(*Term) bool) *Term {
	var hit *Term
	x.reaches(t, func(y *Term) bool {
		if hit == nil && pred(y) {
			hit = y
		}
		return hit != nil
	})
	return hit
}

func checkPayload(p *Prog, r *Report, x *Exec, st *State, ev *Event, short, cmd, typ string) {
	pl := ev.args[2]
	want := map[string]string{"pong": "MsgPong", "getdata": "MsgGetData", "cfilter": "MsgCFilter", "getcfilters": "MsgGetCFilters", "getheaders": "MsgGetHeaders"}[cmd]
	if got := payloadType(pl); got != want {
		r.bad("mirror", short+": "+cmd+" payload", ev.instr.Pos(), st.path(10), "the payload of %s is a %s", cmd, got)
		return
	}
	copyOf := func(field, from string) {
		v := x.fieldOf(st, pl, field)
		ok := v != nil && fieldOwner(v, from) != nil && decodedIs(fieldOwner(v, from), typ)
		r.check(ok, "mirror", short+": "+cmd+"."+field, ev.instr.Pos(), st.path(15), "%s.%s is %s, not the %s of the %s received", want, field, v, from, typ)
	}
	switch cmd {
	case "pong":
		copyOf("Nonce", "Nonce")
	case "getdata":
		copyOf("Inventory", "Inventory")
		copyOf("Count", "Count")
	case "cfilter":
		h := x.fieldOf(st, pl, "BlockHash")
		f := x.fieldOf(st, pl, "Filter")
		get := f
		if f != nil {
			get = x.find(f, func(y *Term) bool { return y.k == KCall && isOp(y.op, ".GetFilter") })
		}
		if ft := x.fieldOf(st, pl, "FilterType"); ft != nil {
			n, isC := ft.isInt()
			r.check(isC && n == 0 || ft.k == KZero || fieldOwner(ft, "FilterType") != nil, "mirror", short+": cfilter.FilterType", ev.instr.Pos(), st.path(10), "the filter is sent as of type %s", ft)
		}
		okh := h != nil && h.k == KExtract && h.args[0].k == KCall && isOp(h.args[0].op, ".GetBlockHashByHeight")
		r.check(okh, "mirror", short+": cfilter.BlockHash", ev.instr.Pos(), st.path(15), "the hash sent (%s) is not that of the block at a requested height", h)
		ok := get != nil && h != nil && len(get.args) > 0
		if ok {
			key := get.args[len(get.args)-1]
			kh := x.fieldOf(st, key, "BlockHash")
			kt := x.fieldOf(st, key, "FilterType")
			same := kh != nil && x.reaches(kh, func(y *Term) bool { return y == h })
			r.check(same, "mirror", short+": cfilter.Filter", ev.instr.Pos(), st.path(15), "the filter sent is that of %s, but the hash sent is %s", kh, h)
			n, isC := int64(-1), false
			if kt != nil {
				n, isC = kt.isInt()
			}
			dec := kt != nil && x.reaches(kt, func(y *Term) bool { return fieldOwner(y, "FilterType") != nil })
			r.check(isC && n == 0 || dec, "mirror", short+": filter type", ev.instr.Pos(), st.path(10), "the filter looked up is of type %s, not the one requested", kt)
		} else {
			r.bad("mirror", short+": cfilter.Filter", ev.instr.Pos(), st.path(15), "the filter sent (%s) does not come from the stored filters", f)
		}
	}
}

func decodedIs(o *Term, typ string) bool {
	d := o.find(func(y *Term) bool { return y.k == KOut })
	return d != nil && strings.Contains(d.op, "Decode") && mentionsType(o, typ)
}

// checkFilterRange: the heights whose filters are sent run from the start height of the
// request, by one, up to the height of the header stored under the stop hash.
func checkFilterRange(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	nodeEnv(p, x, nil)
	short := fname(fn)
	isStart := func(t *Term) bool {
		o := fieldOwner(t, "StartHeight")
		return o != nil && decodedIs(o, "MsgGetCFilters")
	}
	isEnd := func(t *Term) bool {
		o := fieldOwner(t, "Height")
		if o == nil {
			return false
		}
		g := o.find(func(y *Term) bool { return y.k == KCall && isOp(y.op, ".GetBlockHeader") })
		return g != nil && x.reaches(g.args[len(g.args)-1], func(y *Term) bool {
			if y.k == KField && y.fld.Name() == "StopHash" && mentionsType(y, "MsgGetCFilters") {
				return true // its address
			}
			o := fieldOwner(y, "StopHash")
			return o != nil && decodedIs(o, "MsgGetCFilters")
		})
	}
	walks := map[*ssa.BasicBlock]bool{}
	// height, as start + k or counter
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if e := errOf(ev.res); e != nil && isOp(ev.op, ".Write") {
				st.add(Atom{name: "write", a: e})
			}
		case EvBack:
			st.clear("write")
		case EvBranch:
			// the walk ends at its bound
			from := ev.instr.Block()
			to := from.Succs[1]
			if b, _ := ev.val.isBool(); b {
				to = from.Succs[0]
			}
			for h := range walks {
				body := p.loop(h.Parent()).body[h]
				if from == h || !body[from] || body[to] {
					continue
				}
				broken := false
				for _, a := range st.all("write") {
					if v, ok := st.facts.eval(mkBin(token.EQL, a.a, cNil(nil), nil)); ok && !v {
						broken = true
					}
				}
				r.check(broken, "range", short+": every height", ev.instr.Pos(), st.path(15), "the filters of the remaining blocks are not sent although the connection did not fail")
			}
			// bounds of the request
			ev.addr.has(func(y *Term) bool {
				if y.k == KBin && (y.op == "<") {
					a, b := y.args[0], y.args[1]
					if isEndMinusStart(a, isEnd, isStart) {
						if n, ok := b.isInt(); ok && n <= 1000 && knownTrue(st, y, true) {
							st.set("atmost")
						}
					}
					if isEndMinusStart(b, isEnd, isStart) {
						if n, ok := a.isInt(); ok && n <= 999 && knownTrue(st, y, false) {
							st.set("atmost")
						}
					}
				}
				return false
			})
		case EvCall:
			if isOp(ev.op, ".GetBlockHashByHeight") {
				r.check(st.flag("atmost"), "range", short+": number of blocks", ev.instr.Pos(), st.path(15), "the number of blocks between start and stop is not limited to 1000")
				h := ev.args[len(ev.args)-1]
				for i := len(st.frames) - 1; i >= 0; i-- {
					if lh := enclosingLoop(st.frames[i].blk); lh != nil {
						walks[lh] = true
						break
					}
				}
				why := heightWalk(x, st, ev, h, isStart, isEnd)
				r.check(why == "", "range", short+": heights", ev.instr.Pos(), st.path(15), "%s (height %s)", why, h)
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short+" (range)", err)
}

func knownTrue(st *State, y *Term, want bool) bool {
	v, k := st.facts.eval(y)
	return k && v == want
}

func isEndMinusStart(t *Term, isEnd, isStart func(*Term) bool) bool {
	for t.k == KConv {
		t = t.args[0]
	}
	return t.k == KBin && t.op == "-" && isEnd(t.args[0]) && isStart(t.args[1])
}

// heightWalk: in its loop the height starts at start, goes up by one and stops after end.
func heightWalk(x *Exec, st *State, ev *Event, h *Term, isStart, isEnd func(*Term) bool) string {
	lh := (*ssa.BasicBlock)(nil)
	fr := ev.frame
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr = st.frames[i]
		b := fr.blk
		if lh = enclosingLoop(b); lh != nil {
			break
		}
	}
	if lh == nil {
		return "the filters are not sent in a loop"
	}
	ctr := counterOf(lh)
	if ctr == nil || ctrStep(ctr) != 1 {
		return "the loop over the heights does not advance by one"
	}
	cond := loopCond(lh.Parent(), lh)
	if cond == nil {
		return "the loop over the heights has no bound"
	}
	// initial value and bound, in terms of start and end
	var init ssa.Value
	body := theProg.loop(lh.Parent()).body[lh]
	for i, e := range ctr.Edges {
		if !body[lh.Preds[i]] {
			init = e
		}
	}
	for h.k == KConv {
		h = h.args[0]
	}
	cv := counterVal(fr, ctr)
	offset := false // height = start + counter
	if cv == nil {
		return "the height does not follow the loop"
	}
	base, k := linear(h)
	ivt, _ := linear(cv)
	_ = ivt
	switch {
	case base != nil && isStart(base) && k == 0:
		n, isC := cv.isInt()
		if !(isC && n == 0) && !isStart(cv) {
			return "the height does not follow the loop"
		}
		offset = isC
	case h.k == KBin && h.op == "+" && (isStart(h.args[0]) && unconv(h.args[1]) == cv || isStart(h.args[1]) && unconv(h.args[0]) == cv):
		offset = true
	case h == cv:
	default:
		return "the height is not start + counter"
	}
	if c, ok := init.(*ssa.Const); ok {
		if !offset || c.Int64() != 0 {
			return "the loop does not begin at the start height"
		}
	} else if offset {
		return "the loop does not begin at the start height"
	}
	return boundOf(x, st, fr, cond, ctr, offset, isStart, isEnd)
}

func unconv(t *Term) *Term {
	for t.k == KConv {
		t = t.args[0]
	}
	return t
}

func boundOf(x *Exec, st *State, fr *Frame, cond *ssa.BinOp, ctr *ssa.Phi, offset bool, isStart, isEnd func(*Term) bool) string {
	// counter OP bound
	l, rr, op := cond.X, cond.Y, cond.Op
	if unconvV(l) != ssa.Value(ctr) {
		l, rr = rr, l
		switch op {
		case token.GEQ:
			op = token.LEQ
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.LSS:
			op = token.GTR
		}
	}
	if unconvV(l) != ssa.Value(ctr) || op != token.LEQ && op != token.LSS && op != token.NEQ {
		return "the loop does not run up to the stop block"
	}
	b := ssaShape(rr, 0)
	incl := op == token.LEQ
	want := map[bool][]string{
		true:  {"end-start"},
		false: {"end-start+1", "end+1-start"},
	}[incl]
	if !offset {
		want = map[bool][]string{true: {"end"}, false: {"end+1"}}[incl]
	}
	for _, w := range want {
		if b == w {
			return ""
		}
	}
	return "the loop stops at " + b + ", not after the stop block"
}

func unconvV(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		v = c.X
	}
}

// ssaShape writes an arithmetic expression over the start and end of the request.
func ssaShape(v ssa.Value, d int) string {
	v = unconvV(v)
	if d > 6 {
		return "?"
	}
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value == nil {
			return "?"
		}
		return i.Value.String()
	case *ssa.BinOp:
		return ssaShape(i.X, d+1) + i.Op.String() + ssaShape(i.Y, d+1)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if fa, ok := i.X.(*ssa.FieldAddr); ok {
				switch structOf(pointee(fa.X.Type())).Field(fa.Field).Name() {
				case "StartHeight":
					return "start"
				case "Height":
					return "end"
				}
			}
		}
	case *ssa.Field:
		switch structOf(i.X.Type()).Field(i.Field).Name() {
		case "StartHeight":
			return "start"
		case "Height":
			return "end"
		}
	case *ssa.Phi:
		if len(i.Edges) == 1 {
			return ssaShape(i.Edges[0], d+1)
		}
	case *ssa.Parameter:
		return "param"
	}
	return "?"
}

func checkFilterRequest(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	nodeEnv(p, x, nil)
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			if isOp(ev.op, ".WriteHeaders") && ev.call.m != nil {
				if es, ok := x.elems(st, ev.args[len(ev.args)-1]); ok && len(es) == 1 {
					st.add(Atom{name: "what", b: stripIface(es[0])})
				}
			}
		case EvResult:
			switch {
			case isOp(ev.op, ".WriteHeaders"):
				st.clear("stored")
				st.unset("sent")
				st.unset("nopeer")
				if e := errOf(ev.res); e != nil {
					at := Atom{name: "storing", a: e}
					for _, w := range st.all("what") {
						at.b = w.b
					}
					st.add(at)
				}
				st.clear("what")
			case isOp(ev.op, "protocol.NewMessage"):
				if c, ok := ev.args[0].isStr(); ok && c == "getcfilters" {
					var hdr *Term
					for _, a := range st.all("stored") {
						hdr = a.b
					}
					r.check(hdr != nil, "filter-request", short+": after storing", ev.instr.Pos(), st.path(15), "a filter is requested although no header was stored successfully")
					if hdr == nil {
						return
					}
					pl := ev.args[2]
					if payloadType(pl) != "MsgGetCFilters" {
						r.bad("filter-request", short+": payload", ev.instr.Pos(), nil, "the payload is a %s", payloadType(pl))
						return
					}
					isHdr := func(y *Term) bool { return y == hdr || x.sameValue(st, y, hdr) }
					sh := x.fieldOf(st, pl, "StartHeight")
					hv := x.fieldAny(st, hdr, "Height")
					r.check(sh != nil && (sh == hv || fieldOwner(sh, "Height") != nil && isHdr(fieldOwner(sh, "Height"))), "filter-request", short+": StartHeight", ev.instr.Pos(), st.path(15), "the filter is requested from height %s, not that of the header just stored", sh)
					sp := x.fieldOf(st, pl, "StopHash")
					hc := x.find(sp, func(y *Term) bool { return y.k == KCall && isOp(y.op, "block.Header).Hash") })
					okh := hc != nil && len(hc.args) > 0
					if okh {
						a := hc.args[0]
						okh = isHdr(a) || x.reaches(a, isHdr) || a.k == KAlloc && isHdr(x.load(st, a, hdr.typ)) || x.has2(hc, hdr)
					}
					r.check(okh, "filter-request", short+": StopHash", ev.instr.Pos(), st.path(15), "the request does not stop at the header just stored (%s)", sp)
					ft := x.fieldOf(st, pl, "FilterType")
					n, isC := ft.isInt()
					r.check(isC && n == 0 || ft.k == KZero, "filter-request", short+": FilterType", ev.instr.Pos(), nil, "the filter type requested is %s", ft)
				}
			case isOp(ev.op, ".Write"):
				if x.find(ev.args[len(ev.args)-1], func(y *Term) bool {
					if y.k != KCall || !isOp(y.op, "protocol.NewMessage") {
						return false
					}
					c, _ := y.args[0].isStr()
					return c == "getcfilters"
				}) != nil {
					st.set("sent")
				}
			}
			if e := errOf(ev.res); e != nil && !neverFails(ev.op) && !isOp(ev.op, ".WriteHeaders") {
				st.add(Atom{name: "failed", a: e})
			}
		case EvBranch:
			for _, a := range st.all("storing") {
				if errNil(st.facts, a.a) {
					st.del(a)
					st.add(Atom{name: "stored", b: a.b})
				}
			}
			for _, a := range st.all("failed") {
				if errNil(st.facts, a.a) {
					st.del(a)
				}
			}
			ev.addr.has(func(y *Term) bool {
				if y.k == KBin && y.op == "==" {
					for i := range y.args {
						if y.args[i].isNil() && isPeerType(y.args[1-i].typ) && knownTrue(st, y, true) {
							st.set("nopeer")
						}
					}
				}
				return false
			})
		case EvBack, EvReturn:
			if ev.kind == EvBack && ev.frame.fn != fn {
				return
			}
			if len(st.all("stored")) > 0 {
				ok := st.flag("sent") || st.flag("nopeer")
				for _, a := range st.all("failed") {
					if !errNil(st.facts, a.a) {
						ok = true
					}
				}
				r.check(ok, "filter-request", short+": requested", ev.instr.Pos(), st.path(15), "after a header was stored no filter is requested although there is a peer")
			}
			for _, n := range []string{"stored", "storing", "failed"} {
				st.clear(n)
			}
			st.unset("sent")
			st.unset("nopeer")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// fieldAny: a field of a struct value or of what the value was loaded from.
func (x *Exec) fieldAny(st *State, v *Term, name string) *Term { return x.fieldOf(st, v, name) }

// sameValue: the address a holds the value v.
func (x *Exec) sameValue(st *State, a, v *Term) bool {
	if a == v {
		return true
	}
	if a.typ != nil && pointee(a.typ) != nil && v.typ != nil && types.Identical(pointee(a.typ), v.typ) {
		return x.load(st, a, v.typ) == v
	}
	return false
}

func (x *Exec) has2(t, v *Term) bool { return x.reaches(t, func(y *Term) bool { return y == v }) }

func checkHeadersRequest(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	nodeEnv(p, x, nil)
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			switch {
			case isOp(ev.op, ".LatestBlockLocator"):
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "loc", a: e, b: ev.res})
				}
			case isOp(ev.op, "protocol.NewMessage"):
				if c, ok := ev.args[0].isStr(); ok && c == "getheaders" {
					pl := ev.args[2]
					if payloadType(pl) != "MsgGetHeaders" {
						r.bad("headers-request", short+": payload", ev.instr.Pos(), nil, "the payload is a %s", payloadType(pl))
						return
					}
					hs := x.fieldOf(st, pl, "HashStop")
					r.check(zeroValue(x, st, hs, 0), "headers-request", short+": HashStop", ev.instr.Pos(), st.path(10), "the request has a stop hash (%s), so that later headers are not sent", hs)
					l := x.fieldOf(st, pl, "BlockLocatorHashes")
					genesis := st.flag("nothing")
					isLoc := func(y *Term) bool { return y.k == KCall && isOp(y.op, ".LatestBlockLocator") }
					isGen := func(y *Term) bool { return y.k == KCall && isOp(y.op, "protocol.GetCheckpoints") || isCheckpoint(y) }
					empty := l == nil || l.k != KAppend && !(l.k == KStale && strings.HasPrefix(l.op, "append"))
					switch {
					case empty && st.flag("known"):
						// no entry of the stored locator on this path
					case st.flag("known"):
						r.check(x.reaches(l, isLoc), "headers-request", short+": from the tip", ev.instr.Pos(), st.path(15), "the locator sent does not come from the stored headers")
					case genesis:
						r.check(x.reaches(l, isGen) && !x.reaches(l, isLoc), "headers-request", short+": from genesis", ev.instr.Pos(), st.path(15), "with nothing stored, the request does not start from the genesis block of the network (%s)", l)
					default:
						r.bad("headers-request", short+": after a failure", ev.instr.Pos(), st.path(15), "headers are requested although the stored ones could not be read")
					}
				}
			}
		case EvBranch:
			for _, a := range st.all("loc") {
				if errNil(st.facts, a.a) {
					st.set("known")
				}
				if st.facts.isErr(a.a, "pkg/repository.ErrNoBlocksHeaders") {
					st.set("nothing")
				}
			}
		case EvBack:
			// every entry of the locator is sent
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

func isCheckpoint(y *Term) bool {
	return y.k == KGlobal && strings.HasSuffix(y.val.Name(), "Checkpoints")
}

// zeroValue: the value is the zero of its type (also a package variable that is never written and all zero).
func zeroValue(x *Exec, st *State, t *Term, d int) bool {
	if t == nil || d > 4 {
		return false
	}
	if t.k == KZero {
		return true
	}
	if n, ok := t.isInt(); ok && n == 0 {
		return true
	}
	if t.k == KConv {
		return zeroValue(x, st, t.args[0], d+1)
	}
	if t.k == KStruct || t.k == KTuple {
		for _, a := range t.args {
			if !zeroValue(x, st, a, d+1) {
				return false
			}
		}
		return true
	}
	if t.k == KLoad && t.args[0].k == KGlobal {
		return zeroGlobal(x.p, t.args[0].val.(*ssa.Global))
	}
	return false
}

func zeroGlobal(p *Prog, g *ssa.Global) bool {
	ok := true
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) { ok = ok && !storesInto(in, g) })
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				ok = ok && !storesInto(in, g)
			}
		}
	}
	return ok
}

// storesInto: the instruction stores something other than zero into the variable.
func storesInto(in ssa.Instruction, g *ssa.Global) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	a := s.Addr
	for {
		switch v := a.(type) {
		case *ssa.IndexAddr:
			a = v.X
			continue
		case *ssa.FieldAddr:
			a = v.X
			continue
		}
		break
	}
	if a != ssa.Value(g) {
		return false
	}
	c, isC := s.Val.(*ssa.Const)
	if isC && (c.Value == nil || c.Value.String() == "0") {
		return false
	}
	if u, isU := s.Val.(*ssa.UnOp); isU && u.Op == token.MUL {
		if al, isA := u.X.(*ssa.Alloc); isA {
			zero := true
			for _, b := range al.Parent().Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						base := st.Addr
						for {
							if ia, ok := base.(*ssa.IndexAddr); ok {
								base = ia.X
								continue
							}
							break
						}
						if base == ssa.Value(al) {
							if c, isC := st.Val.(*ssa.Const); !isC || c.Value != nil && c.Value.String() != "0" {
								zero = false
							}
						}
					}
				}
			}
			return !zero
		}
	}
	return true
}
