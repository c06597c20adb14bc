package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W05", checkW05) }

// isHeaderDecode: the call reads a message header from a stream.
func isHeaderDecode(op string, args []*Term) bool {
	if !strings.HasSuffix(op, "binary.Decoder).Decode") || len(args) != 2 {
		return false
	}
	a := stripIface(args[1])
	return a.typ != nil && wireName(pointee(a.typ)) == "MessageHeader"
}

func takesReader(f *ssa.Function) bool {
	return readerParam(f) && !dispatches(f)
}

func readerParam(f *ssa.Function) bool {
	// one that hands out what it read, or fills what it is given, is no handler
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isBytes(f.Signature.Results().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isBytes(f.Signature.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		t := f.Signature.Params().At(i).Type()
		if types.IsInterface(t) && hasMethod(t, "Read") || hasMethod(t, "Read") {
			return true
		}
	}
	return false
}

// dispatches: the function hands its reader to one of several functions, each of which
// decodes something else, and decodes nothing itself.
func dispatches(f *ssa.Function) bool {
	if rel(pkgPathOf(f)) != "pkg/node" {
		return false
	}
	if v, ok := dispatchers[f]; ok {
		return v
	}
	dispatchers[f] = false
	kinds := map[string]bool{}
	own := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			t := c.Call.StaticCallee()
			if t == nil {
				if !c.Call.IsInvoke() && takesReaderSig(c.Call.Signature()) {
					kinds["?"], kinds["??"] = true, true
				}
				continue
			}
			if t.Name() == "Decode" && rel(pkgPathOf(t)) == "pkg/binary" {
				own = true
			}
			if rel(pkgPathOf(t)) == "pkg/node" && readerParam(t) {
				for _, w := range decodedIn(theProg, t) {
					kinds[w.String()] = true
				}
			}
		}
	}
	dispatchers[f] = !own && len(kinds) > 1
	return dispatchers[f]
}

var dispatchers = map[*ssa.Function]bool{}

// takesReaderSig: a function of the signature is given a reader.
func takesReaderSig(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if hasMethod(s.Params().At(i).Type(), "Read") {
			return true
		}
	}
	return false
}

// decodesHeader: reads the header of a message.
func decodesHeader(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	t := c.Common().StaticCallee()
	if t == nil || t.Name() != "Decode" || rel(pkgPathOf(t)) != "pkg/binary" || len(c.Common().Args) != 2 {
		return false
	}
	mi, ok := c.Common().Args[1].(*ssa.MakeInterface)
	return ok && wireName(pointee(mi.X.Type())) == "MessageHeader"
}

// readersOfPeers: the functions started as goroutines (or exported) that read message headers.
func readersOfPeers(p *Prog) (roots []*ssa.Function, reads map[*ssa.Function]bool) {
	reads = p.reach(false, decodesHeader)
	_, _, gos := p.staticCallers()
	for _, f := range p.Funcs {
		if gos[f] && reads[f] {
			roots = append(roots, f)
		}
	}
	return
}

func checkW05(p *Prog, r *Report) {
	r.rule("intact", "a message is handled only if its magic is that of the node's network, its payload was read whole and its checksum is right")
	r.rule("payload-only", "what handles a message reads its payload only, never the connection itself")
	r.rule("framing", "after a header the payload it announces is read whole before the next header is read")
	r.rule("broken-stream", "nothing more is read from a stream that failed or does not carry messages of the network")
	r.rule("checksum", "the checksum of a message is the first four bytes of the double SHA-256 of its payload")
	roots, reads := readersOfPeers(p)
	if len(roots) == 0 {
		r.anchorLost("the goroutine that reads the messages of a peer")
	}
	for _, root := range roots {
		checkFrames(p, r, root, reads)
	}
	r.need("intact", 2)
}

func checkFrames(p *Prog, r *Report, root *ssa.Function, reads map[*ssa.Function]bool) {
	x := newExec(p)
	isAction := func(f *ssa.Function) bool {
		return rel(pkgPathOf(f)) == "pkg/node" && takesReader(f) && !reads[f] && f.Parent() == nil
	}
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		if isAction(f) {
			return false
		}
		pk := rel(pkgPathOf(f))
		return pk == "pkg/node" && reads[f] || pk == "pkg/protocol" || pk == "pkg/node" && !takesReader(f) && f.Parent() == nil
	}
	short := fname(root)
	acted := 0
	isHdr := func(t *Term, field string) bool {
		return t.k == KFieldV && t.fld != nil && t.fld.Name() == field && t.args[0].has(func(y *Term) bool {
			return y.k == KOut && isHeaderDecode(y.op, y.args)
		})
	}
	limit := int64(32 << 20)
	if c := p.constOf("pkg/protocol", "MaxPayloadLength"); c != nil && *c < 64<<20 {
		limit = *c
	}
	within := func(st *State, n *Term) {
		st.unset("unlimited")
		if st.facts.diff(n, cInt(0, n.typ)) > limit {
			st.set("unlimited")
		}
	}
	// stray: a read from the connection of something else than a header or its payload
	stray := func(st *State, ev *Event) {
		var src, n *Term
		switch {
		case opIn(ev.op, "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io/ioutil.ReadAll") && len(ev.args) > 0:
			src = ev.args[0]
			if len(ev.args) > 1 {
				n = x.lenOf(st, ev.args[1])
			}
		case opIn(ev.op, "io.Copy", "io.CopyBuffer", "io.CopyN") && len(ev.args) > 1:
			src = ev.args[1]
			if ev.op == "io.CopyN" {
				n = ev.args[2]
			}
		case strings.HasSuffix(ev.op, ").Read") && len(ev.args) > 1:
			src = ev.args[0]
			n = x.lenOf(st, ev.args[1])
		case strings.HasSuffix(ev.op, "Decoder).DecodeBytes") && len(ev.args) == 2:
			src, n = ev.args[0], ev.args[1]
		default:
			return
		}
		isConn := func(y *Term) bool { return y.k == KCall && strings.HasSuffix(y.op, "peer.Peer).Connection") }
		if !src.has(isConn) {
			return
		}
		if l := src.find(func(y *Term) bool { return y.k == KCall && y.op == "io.LimitReader" && len(y.args) == 2 }); l != nil {
			n = l.args[1]
		}
		for n != nil && n.k == KConv {
			n = n.args[0]
		}
		ok := n != nil && isHdr(n, "Length") && st.flag("hdr") && len(st.all("read")) == 0 && !st.flag("skipped")
		r.check(ok, "framing", short+": reads", ev.instr.Pos(), st.path(20), "bytes are read from the connection that are not the payload of the last header (%s)", ev.op)
		st.set("skipped")
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind == EvCall {
			stray(st, ev)
		}
		if ev.kind == EvResult && isHeaderDecode(ev.op, ev.args) {
			st.unset("skipped")
		}
		switch ev.kind {
		case EvResult:
			switch {
			case isHeaderDecode(ev.op, ev.args):
				if st.flag("hdr") {
					ok := len(st.all("read")) > 0
					r.check(ok, "framing", short+": next header", ev.instr.Pos(), st.path(20), "the next header is read although the payload of the last message was not (the read begins amid that payload)")
					r.check(st.flag("magic") && len(st.all("err")) == 0, "broken-stream", short+": next header", ev.instr.Pos(), st.path(20), "the stream is read on after a failure, or after bytes that are no message of the network")
				}
				for _, n := range []string{"read", "err", "magic", "sum"} {
					st.clear(n)
				}
				st.set("hdr")
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "err", a: e})
				}
			case ev.op == "io.ReadFull" && len(ev.args) == 2, ev.op == "io.ReadAtLeast" && len(ev.args) == 3:
				n := x.lenOf(st, ev.args[1])
				if len(ev.args) == 3 && st.facts.diff(n, ev.args[2]) > 0 {
					return
				}
				for n.k == KConv {
					n = n.args[0]
				}
				if isHdr(n, "Length") {
					st.clear("read")
					st.add(Atom{name: "read", a: payloadBase(ev.args[1])})
					within(st, n)
				}
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "err", a: e})
				}
			case strings.HasSuffix(ev.op, "Decoder).DecodeBytes") && len(ev.args) == 2:
				n := ev.args[1]
				for n.k == KConv {
					n = n.args[0]
				}
				if isHdr(n, "Length") && ev.res != nil {
					st.clear("read")
					within(st, n)
					st.add(Atom{name: "read", a: payloadBase(mkExtract(ev.res, 0, nil))})
				}
				if e := errOf(ev.res); e != nil {
					st.add(Atom{name: "err", a: e})
				}
			}
		case EvBranch:
			for _, a := range st.all("err") {
				if errNil(st.facts, a.a) {
					st.del(a)
				}
			}
			each := func(a, b *Term) {
				if isHdr(a, "Magic") && netField(b) {
					st.set("magic")
				}
				if isHdr(a, "Checksum") {
					for _, rd := range st.all("read") {
						why := checksumOf(b, func(y *Term) bool { return payloadBase(y) == rd.a || y == rd.a })
						r.check(why == "", "checksum", short+": compared", ev.instr.Pos(), st.path(15), "%s", why)
						if why == "" {
							st.set("sum")
						}
					}
				}
			}
			ev.addr.has(func(y *Term) bool {
				if (y.k == KBin && y.op == "==" || y.k == KCall && y.op == "bytes.Equal") && len(y.args) >= 2 {
					if v, ok := st.facts.eval(y); ok && v {
						a, b := bytesOf(x, st, y.args[0]), bytesOf(x, st, y.args[1])
						each(a, b)
						each(b, a)
					}
				}
				return false
			})
		case EvCall:
			t := ev.call.target()
			decode := strings.HasSuffix(ev.op, "binary.Decoder).Decode") && !isHeaderDecode(ev.op, ev.args)
			chosen := t == nil && ev.call.common != nil && !ev.call.common.IsInvoke() && ev.call.blt == "" && takesReaderSig(ev.call.common.Signature())
			if !chosen && (t == nil || !isAction(t) && !decode) {
				return
			}
			acted++
			c := short + ": handler"
			if t != nil {
				c = short + ": " + t.Name()
			}
			if decode {
				c = short + ": Decode"
			}
			why := ""
			switch {
			case !st.flag("hdr"):
				why = "no header was read"
			case !st.flag("magic"):
				why = "the magic of the message is not known to be that of the network"
			case len(st.all("read")) == 0:
				why = "its payload was not read whole"
			case len(st.all("err")) > 0:
				why = "reading it may have failed"
			case st.flag("unlimited"):
				why = "its length is not known to be within the limit"
			case !st.flag("sum"):
				why = "the checksum of its payload is not known to be right"
			}
			r.check(why == "", "intact", c, ev.instr.Pos(), st.path(25), "a message is handled although %s", why)
			for i, a := range ev.args {
				if a.typ == nil || a.isNil() {
					continue
				}
				v := stripIface(a)
				if decode {
					if i != 0 {
						continue
					}
					v = v.find(func(y *Term) bool { return y.k == KCall && strings.HasSuffix(y.op, "binary.NewDecoder") })
					if v == nil {
						continue
					}
					v = stripIface(v.args[0])
				} else if v.typ == nil || !(hasMethod(a.typ, "Read") || hasMethod(v.typ, "Read")) {
					continue
				}
				ok := v.k == KCall && opIn(v.op, "bytes.NewReader", "bytes.NewBuffer") && len(v.args) > 0
				if ok {
					ok = false
					for _, rd := range st.all("read") {
						ok = ok || payloadBase(v.args[0]) == rd.a && v.args[0].k != KSlice
					}
				}
				r.check(ok, "payload-only", c, ev.instr.Pos(), st.path(25), "what it reads from (%s) is not the payload of the message, all of it and nothing else", v)
			}
		}
	}
	err := x.run(root, rootOpt{})
	r.ran(x, short, err)
	r.check(acted > 0, "intact", short+": handles messages", root.Pos(), nil, "no message is handled")

	// nothing else in the package reads from a connection
	n := 0
	for _, fn := range p.Funcs {
		if rel(pkgPathOf(fn)) != "pkg/node" || reads[fn] && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Connection" {
					continue
				}
				n++
				if bad := readFrom(c, map[ssa.Value]bool{}); bad != nil {
					r.bad("payload-only", fname(fn)+": connection", bad.Pos(), nil, "the connection is read outside of the reading loop")
				} else {
					r.ok("payload-only", fname(fn)+": connection", in.Pos())
				}
			}
		}
	}
}

func readFrom(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch i := in.(type) {
		case *ssa.ChangeInterface:
			if hasMethod(i.Type(), "Read") && !hasMethod(i.Type(), "Write") {
				return i
			}
			if b := readFrom(i, seen); b != nil {
				return b
			}
		case *ssa.MakeInterface:
			if b := readFrom(i, seen); b != nil {
				return b
			}
		case *ssa.Phi:
			if b := readFrom(i, seen); b != nil {
				return b
			}
		case *ssa.Call:
			if i.Call.IsInvoke() && i.Call.Value == v && i.Call.Method.Name() == "Read" {
				return i
			}
		}
	}
	return nil
}

// bytesOf: the array a slice expression is the whole of.
func bytesOf(x *Exec, st *State, t *Term) *Term {
	if t.k == KSlice && t.op == "" {
		if pt := pointee(t.args[0].typ); pt != nil && t.args[0].typ != pt {
			return x.load(st, t.args[0], pt)
		}
	}
	return t
}

// payloadBase: the buffer a slice is of.
func payloadBase(t *Term) *Term {
	for t.k == KSlice || t.k == KConv {
		t = t.args[0]
	}
	return t
}

// netField: the network the node was made for.
func netField(t *Term) bool {
	for t.k == KConv {
		t = t.args[0]
	}
	v := t
	if t.k == KLoad {
		v = t.args[0]
	}
	return v.fld != nil && v.typ != nil && strings.HasSuffix(wireName(pointee(v.typ)), "Magic") && v.args[0].typ != nil && wireName(pointee(v.args[0].typ)) != "MessageHeader"
}

// checksumOf: t is the first four bytes of the double hash of the payload.
func checksumOf(t *Term, payload func(*Term) bool) string {
	isSum := func(y *Term) bool { return y.k == KCall && y.op == "crypto/sha256.Sum256" }
	isDouble := func(y *Term) bool { return y.k == KCall && strings.Contains(y.op, "chainhash.DoubleHash") }
	cut := ""
	var outer *Term
	var walk func(y *Term, d int)
	seen := map[*Term]bool{}
	walk = func(y *Term, d int) {
		if seen[y] {
			return
		}
		seen[y] = true
		if isSum(y) || isDouble(y) {
			if outer == nil {
				outer = y
			}
			return
		}
		if y.k == KSlice && y.op == "sub" {
			if o, ok := sliceOffset(y); !ok || o != 0 {
				cut = "the bytes compared are not the first of the hash"
			}
		}
		for _, a := range y.args {
			walk(a, d+1)
		}
	}
	walk(t, 0)
	if outer == nil {
		return "it is not a SHA-256 hash"
	}
	if cut != "" {
		return cut
	}
	in := outer
	if isSum(outer) {
		in = nil
		for _, a := range outer.args {
			if f := a.find(isSum); f != nil {
				in = f
			}
		}
		if in == nil {
			return "the payload is hashed once only"
		}
		for _, a := range in.args {
			if !payload(a) && a.has(isSum) {
				return "the payload is hashed more than twice"
			}
		}
	}
	if len(in.args) == 0 || !payload(in.args[0]) || in.args[0].k == KSlice && in.args[0].op == "sub" {
		return "what is hashed is not the whole payload"
	}
	return ""
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte])
}
