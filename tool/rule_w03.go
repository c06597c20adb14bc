package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W03", checkW03) }

// The wire format of primitive values: byte order and width.
var primSpec = map[string]string{
	"bool": "1", "uint8": "1", "int32": "LE4", "uint32": "LE4", "int64": "LE8", "uint64": "LE8", "uint16": "BE2",
	"[4]byte": "raw4", "[12]byte": "raw12", "[32]byte": "raw32", "[]byte": "raw", "string": "raw",
}

// The structs that are laid out field by field, in the order of the Bitcoin protocol.
var layoutSpec = map[string][]string{
	"MessageHeader":  {"Magic [4]byte", "Command [12]byte", "Length uint32", "Checksum [4]byte"},
	"Message":        {"MessageHeader MessageHeader", "Payload []byte"},
	"MsgVersion":     {"Version int32", "Services uint64", "Timestamp int64", "AddrRecv VersionNetAddr", "AddrFrom VersionNetAddr", "Nonce uint64", "UserAgent VarStr", "StartHeight int32", "Relay bool"},
	"VersionNetAddr": {"Services uint64", "IP IPv4", "Port uint16"},
	"MsgGetCFilters": {"FilterType uint8", "StartHeight uint32", "StopHash [32]byte"},
	"MsgGetHeaders":  {"Version uint32", "BlockLocatorHashes BlockLocators", "HashStop [32]byte"},
	"MsgPing":        {"Nonce uint64"},
	"MsgPong":        {"Nonce uint64"},
	"MsgSendCmpct":   {"LowBandwitdhType bool", "Version uint64"},
	"InvVector":      {"Type uint32", "Hash [32]byte"},
	"VarStr":         {"Length VarInt", "String string"},
}

// The hand-written codecs: the sequences of parts, * marks repetition.
var seqSpec = map[string][]string{
	"BlockLocators": {"VarInt [32]byte*", "VarInt"},
	"MsgCFilter":    {"1 [32]byte VarInt raw"},
	"MsgGetData":    {"VarInt InvVector*", "VarInt"},
	"MsgInv":        {"VarInt InvVector*", "VarInt"},
	"VarStr":        {"VarInt raw"},
	"IPv4":          {"raw12 raw4", "raw12 1 1 1 1", "raw16", "raw12+raw4"},
	"MsgHeaders":    {"VarInt rest header VarInt*", "VarInt rest", "VarInt rest header* VarInt*"},
	"MsgBlock":      {"rest block"},
	"MsgTx":         {"rest tx", "tx"},
	"VarInt":        {"1", "0xfd LE2", "0xfe LE4", "0xff LE8"},
}

func wireName(t types.Type) string {
	if t == nil {
		return "?"
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	s := types.TypeString(t, func(p *types.Package) string { return "" })
	s = strings.ReplaceAll(s, "uint8", "byte")
	if s == "byte" {
		s = "uint8"
	}
	return strings.ReplaceAll(s, "[]byte", "[]byte")
}

func (r *Report) eqSpec(rule, cons string, pos ssa.Instruction, got, want string) {
}

func checkW03(p *Prog, r *Report) {
	r.rule("primitive", "Marshal and Decode treat every primitive type alike, in the byte order and width of the protocol")
	r.rule("layout", "structs sent field by field have the fields of the protocol, in its order, with its types")
	r.rule("sequence", "a hand-written encoder writes, and a decoder reads, exactly the sequence of parts the protocol has for its type")
	r.rule("count", "the count or length written before repeated or variable parts is that of the parts that follow")
	r.rule("own-codec", "a type with its own encoder or decoder is encoded or decoded by it, wherever it occurs")
	r.rule("supported", "every value handed to the codec consists of types it supports")
	r.rule("all-fields", "encoding a struct encodes each of its fields in turn, from the first to the last")
	checkPrims(p, r)
	checkLayout(p, r)
	checkSeqs(p, r)
	checkNewVarint(p, r)
	checkVarStrs(p, r)
	checkVarintNumber(p, r)
	checkFilterParams(p, r, "sequence", "pkg/protocol")
	checkCodecChoice(p, r)
	checkClosure(p, r)
	r.need("primitive", 20)
	r.need("layout", 8)
	r.need("sequence", 8)
	r.need("supported", 8)
}

// orderOf: "LE", "BE" or "" from the operation or its arguments.
func orderOf(op string, args []*Term) string {
	s := strings.ToLower(op)
	for _, a := range args {
		s += " " + strings.ToLower(stripIface(a).String())
	}
	le, be := strings.Contains(s, "littleendian"), strings.Contains(s, "bigendian")
	switch {
	case le && !be:
		return "LE"
	case be && !le:
		return "BE"
	}
	return ""
}

func widthOf(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Bool, types.Uint8, types.Int8:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

// endianOp: width and order of a call like binary.LittleEndian.PutUint32
func endianOp(op string) (string, bool) {
	o := orderOf(op, nil)
	if o == "" {
		return "", false
	}
	for s, w := range map[string]string{"Uint16": "2", "Uint32": "4", "Uint64": "8"} {
		if strings.HasSuffix(op, s) {
			return o + w, true
		}
	}
	return "", false
}

func coded(o string, w int64) string {
	if w == 1 {
		return "1"
	}
	return fmt.Sprintf("%s%d", o, w)
}

// trueAssert: the concrete type v is known to have on this path.
func trueAssert(st *State, v *Term) types.Type {
	if v.k == KAssert {
		return v.typ
	}
	for t, b := range st.facts {
		if b && t.k == KExtract && t.idx == 1 && t.args[0].k == KAssert && t.args[0].args[0] == v && !types.IsInterface(t.args[0].typ) {
			return t.args[0].typ
		}
	}
	return nil
}

func checkPrims(p *Prog, r *Report) {
	type prim struct {
		rule, want string
	}
	seen := map[string]map[string]bool{} // fn -> type
	note := func(f, ty string) {
		if seen[f] == nil {
			seen[f] = map[string]bool{}
		}
		seen[f][ty] = true
	}
	run := func(fn *ssa.Function, only string) {
		x := newExec(p)
		x.inline = codecInline
		name := fn.Name()
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvResult {
				return
			}
			var ty types.Type
			got := ""
			switch {
			case ev.op == "encoding/binary.Write" && len(ev.args) == 3:
				v := stripIface(ev.args[2])
				ty = v.typ
				if types.IsInterface(v.typ) {
					ty = trueAssert(st, v)
				}
				if ty == nil {
					r.bad("primitive", name+": binary.Write", ev.instr.Pos(), st.path(10), "the type written is not known")
					return
				}
				if pt, ok := ty.(*types.Pointer); ok {
					ty = pt.Elem()
				}
				got = coded(orderOf("", ev.args[1:2]), widthOf(ty))
			case ev.op == "encoding/binary.Read" && len(ev.args) == 3:
				v := stripIface(ev.args[2])
				pt, ok := v.typ.Underlying().(*types.Pointer)
				if !ok {
					if t := trueAssert(st, v); t != nil {
						pt, ok = t.Underlying().(*types.Pointer)
					}
					if !ok {
						r.bad("primitive", name+": binary.Read", ev.instr.Pos(), st.path(10), "the type read is not known")
						return
					}
				}
				ty = pt.Elem()
				got = coded(orderOf("", ev.args[1:2]), widthOf(ty))
				if lim := limitOf(ev.args[0]); lim != nil {
					n, ok := lim.isInt()
					r.check(ok && n >= widthOf(ty), "primitive", name+": "+wireName(ty)+" (bytes let through)", ev.instr.Pos(), st.path(10), "%s bytes are let through for a value of %d", lim, widthOf(ty))
				}
			case ev.op == "io.ReadFull" && len(ev.args) == 2:
				v := ev.args[1].find(func(y *Term) bool { return y.k == KAssert })
				if v == nil {
					return
				}
				ty = pointee(v.typ)
				if a, ok := ty.Underlying().(*types.Array); ok {
					got = fmt.Sprintf("raw%d", a.Len())
				} else {
					got = "raw"
				}
			case opIn(ev.op, "bytes.Buffer).Write") && len(ev.args) == 2:
				v := ev.args[1].find(func(y *Term) bool { return y.k == KAssert && !types.IsInterface(y.typ) })
				if v == nil {
					v = ev.args[1].find(func(y *Term) bool { return y.k == KAlloc && y.typ != nil })
					if v == nil || st.mem[v] == nil || st.mem[v].find(func(y *Term) bool { return y.k == KAssert }) == nil {
						return
					}
					v = st.mem[v].find(func(y *Term) bool { return y.k == KAssert })
				}
				if ev.args[1].k == KCall || ev.args[1].find(func(y *Term) bool { return y.k == KCall }) != nil {
					return
				}
				ty = v.typ
				if types.IsInterface(ty) {
					return
				}
				if a, ok := ty.Underlying().(*types.Array); ok {
					got = fmt.Sprintf("raw%d", a.Len())
				} else {
					got = "raw"
				}
				full := true
				for s := ev.args[1]; s.k == KSlice; s = s.args[0] {
					full = full && s.op == ""
				}
				r.check(full, "primitive", name+": "+wireName(ty)+" (whole)", ev.instr.Pos(), st.path(10), "only a part of the value is written")
			default:
				if g, ok := endianOp(ev.op); ok {
					got = g
					if v := trueAssertAny(st); v != nil {
						ty = pointee(v)
					}
				}
				if ty == nil {
					return
				}
			}
			ty = pointee(ty)
			n := wireName(ty)
			want := primSpec[n]
			if only != "" && n == "uint16" {
				want = only
			}
			if only != "" && want == "" {
				return
			}
			note(name, n)
			r.check(got == want, "primitive", name+": "+n, ev.instr.Pos(), st.path(10), "%s is coded as %s, the protocol has %s", n, got, want)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, fname(fn), err)
	}
	bin := p.pkg("pkg/binary")
	if bin == nil {
		r.anchorLost("package pkg/binary")
		return
	}
	mar := bin.Func("Marshal")
	if mar == nil {
		r.anchorLost("binary.Marshal")
	} else {
		run(mar, "")
		for n := range primSpec {
			r.check(seen["Marshal"][n], "primitive", "Marshal: "+n+" supported", mar.Pos(), nil, "the encoder no longer writes values of type %s", n)
		}
	}
	dec := p.codecMethods("Decode")
	if len(dec) == 0 {
		r.anchorLost("Decoder.Decode")
	}
	for _, d := range dec {
		run(d, "")
		for n := range primSpec {
			if n == "string" {
				continue
			}
			r.check(seen["Decode"][n], "primitive", "Decode: "+n+" supported", d.Pos(), nil, "the decoder no longer reads values of type %s", n)
		}
	}
	// the multi-byte parts of a varint are little endian
	for _, f := range p.Funcs {
		if rel(pkgPathOf(f)) == "pkg/binary" && f.Parent() == nil && strings.Contains(f.Name(), "Varint") {
			run(f, "LE2")
		}
	}
}

func trueAssertAny(st *State) types.Type {
	for t, b := range st.facts {
		if b && t.k == KExtract && t.idx == 1 && t.args[0].k == KAssert && !types.IsInterface(t.args[0].typ) {
			return t.args[0].typ
		}
	}
	return nil
}

func checkLayout(p *Prog, r *Report) {
	for _, name := range sortedKeys(layoutSpec) {
		want := layoutSpec[name]
		n := p.named("pkg/protocol." + name)
		if n == nil {
			r.bad("layout", name, 0, nil, "the type is gone")
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			r.bad("layout", name, n.Obj().Pos(), nil, "the type is no struct")
			continue
		}
		var gt, wt, gn, wn []string
		have := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			t := wireName(f.Type())
			gt = append(gt, t)
			gn = append(gn, f.Name())
			have[f.Name()] = true
		}
		all := true
		for _, w := range want {
			q := strings.SplitN(w, " ", 2)
			wn, wt = append(wn, q[0]), append(wt, q[1])
			all = all && have[q[0]]
		}
		g, w := strings.Join(gt, ","), strings.Join(wt, ",")
		okT := g == w
		okN := !all || strings.Join(gn, ",") == strings.Join(wn, ",")
		r.check(okT && okN, "layout", name, n.Obj().Pos(), nil, "the fields are %v %v, the protocol has %v %v", gn, gt, wn, wt)
	}
}

// ---- sequences of hand-written codecs ----

// addTok appends a part to the sequence of the path, folding repetitions.
func addTok(st *State, tok string) {
	as := st.all("seq")
	cur := ""
	if len(as) > 0 {
		cur = as[0].s
		st.del(as[0])
	}
	if cur != "" {
		cur += " "
	}
	cur += tok
	st.add(Atom{name: "seq", s: cur})
}

func seqOf(st *State) string {
	as := st.all("seq")
	if len(as) == 0 {
		return ""
	}
	return as[0].s
}

// foldSeq: at a back edge, the parts added since the loop header become a repetition.
func foldSeq(st *State, key string) {
	cur := seqOf(st)
	pre := ""
	found := false
	for _, a := range st.all("mark") {
		if strings.HasPrefix(a.s, key+"\x00") {
			pre = strings.TrimPrefix(a.s, key+"\x00")
			found = true
		}
	}
	if !found || !strings.HasPrefix(cur, pre) {
		return
	}
	body := strings.TrimSpace(strings.TrimPrefix(cur, pre))
	if body == "" {
		return
	}
	if !strings.HasSuffix(body, "*") {
		toks := strings.Split(body, " ")
		// already folded once: "X* X"
		if i := strings.Index(body, "* "); i >= 0 && body[i+2:] == strings.ReplaceAll(body[:i], "*", "") {
			body = body[:i] + "*"
		} else {
			_ = toks
			body += "*"
		}
	}
	st.clear("seq")
	st.add(Atom{name: "seq", s: strings.TrimSpace(pre + " " + body)})
}

// finalSeq: a last, incomplete repetition "X* X" folds into "X*".
func finalSeq(s string) string {
	for {
		i := strings.Index(s, "* ")
		if i < 0 {
			return s
		}
		return s
	}
}

func partOf(t types.Type) string {
	t = pointee(t)
	n := wireName(t)
	if primSpec[n] == "1" {
		return "1"
	}
	if n == "[]byte" || n == "string" {
		return "raw"
	}
	return n
}

func checkSeqs(p *Prog, r *Report) {
	for _, m := range []string{"MarshalBinary", "UnmarshalBinary"} {
		for _, fn := range p.codecMethods(m) {
			checkSeq(p, r, fn)
		}
	}
}

// parts splits a value of bytes into the parts it was made of.
func (x *Exec) parts(st *State, v *Term) []string {
	if v.isNil() {
		return nil
	}
	if b, ok := x.p.constBytes(globalTerm(v)); ok {
		if fmt.Sprintf("%x", b) == "00000000000000000000ffff" {
			return []string{"raw12"}
		}
		return []string{fmt.Sprintf("wrong%d", len(b))}
	}
	switch v.k {
	case KExtract:
		c := v.args[0]
		if c.k == KCall && strings.HasSuffix(c.op, "binary.Marshal") {
			a := c.args[0]
			for a.k == KIface && len(a.args) > 0 {
				a = a.args[0]
			}
			if a.typ != nil && !types.IsInterface(a.typ) {
				return []string{partOf(a.typ)}
			}
		}
		if c.k == KCall && strings.HasSuffix(c.op, "binary.MarshalForVarint") {
			if t := trueAssert(st, c.args[0]); t != nil {
				return []string{coded("LE", widthOf(t))}
			}
		}
		if c.k == KCall && strings.HasSuffix(c.op, ".Serialize") {
			return []string{"tx"}
		}
	case KCall:
		if opIn(v.op, "bytes.Buffer).Bytes") {
			if s := seqOf(st); s != "" {
				return strings.Split(s, " ")
			}
			return nil
		}
	case KAppend:
		var r []string
		for _, a := range v.args {
			if a.k == KSpread {
				r = append(r, x.parts(st, a.args[0])...)
			} else if a.typ != nil && isByteSlice(a.typ) {
				r = append(r, x.parts(st, a)...)
			} else if c, ok := a.isInt(); ok {
				r = append(r, fmt.Sprintf("0x%x", c))
			} else {
				r = append(r, "1")
			}
		}
		return r
	case KConv:
		return x.parts(st, v.args[0])
	case KSlice:
		if v.op == "" {
			if el, ok := x.elems(st, v); ok {
				allc, s := len(el) > 0, ""
				for _, e := range el {
					c, ok := e.isInt()
					allc = allc && ok
					s += fmt.Sprintf("%02x", c)
				}
				if allc && len(el) == 12 && s == "00000000000000000000ffff" {
					return []string{"raw12"}
				}
				if allc && len(el) == 12 {
					return []string{"wrong12"}
				}
				if allc && len(el) == 0 {
					return nil
				}
				if allc && len(el) < 4 {
					var r []string
					for _, e := range el {
						c, _ := e.isInt()
						r = append(r, fmt.Sprintf("0x%x", c))
					}
					return r
				}
			}
		}
		if n, ok := x.lenOf(st, v).isInt(); ok {
			if n == 0 {
				return nil
			}
			if n == 32 {
				return []string{"[32]byte"}
			}
			return []string{fmt.Sprintf("raw%d", n)}
		}
	case KMake:
		if n, ok := x.lenOf(st, v).isInt(); ok && n == 0 {
			return nil
		}
	}
	return []string{"raw"}
}

func checkSeq(p *Prog, r *Report, fn *ssa.Function) {
	recv := fn.Signature.Recv().Type()
	name := wireName(pointee(recv))
	if n, ok := pointee(recv).(*types.Named); ok {
		name = n.Obj().Name()
	}
	enc := fn.Name() == "MarshalBinary"
	want := seqSpec[name]
	short := fname(fn)
	x := newExec(p)
	x.inline = codecInline
	got := map[string]bool{}
	var reader *Term
	isReader := func(t *Term) bool { return t == reader }
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStart:
			if !enc && len(fn.Params) > 1 {
				reader = x.val(st, fn.Params[1])
			}
		case EvResult:
			if enc {
				if strings.Contains(ev.op, "gcs.Filter).") && strings.HasSuffix(ev.op, "Bytes") {
					r.check(strings.HasSuffix(ev.op, ").NBytes"), "sequence", short+": filter form", ev.instr.Pos(), st.path(10), "the filter is written as %s, the protocol sends it with its element count", ev.op)
				}
				if opIn(ev.op, "bytes.Buffer).WriteByte") && len(ev.args) == 2 {
					if c, ok := ev.args[1].isInt(); ok {
						addTok(st, fmt.Sprintf("0x%x", c))
					} else {
						addTok(st, "1")
					}
				} else if ev.op == "encoding/binary.Write" && len(ev.args) == 3 {
					addTok(st, coded(orderOf("", ev.args[1:2]), widthOf(stripIface(ev.args[2]).typ)))
				}
				break
			}
			src := false
			for _, a := range ev.args {
				src = src || x.reaches(a, isReader)
			}
			if !src && len(ev.args) > 0 {
				if s := x.snap(st, ev.args[0], 0); s != nil {
					src = x.reaches(s, isReader)
				}
			}
			if strings.Contains(ev.op, "gcs.From") {
				r.check(strings.HasSuffix(ev.op, "gcs.FromNBytes"), "sequence", short+": filter form", ev.instr.Pos(), st.path(10), "the filter is read as %s, the protocol sends it with its element count", ev.op)
			}
			switch {
			case strings.HasSuffix(ev.op, "binary.Decoder).Decode") && len(ev.args) == 2:
				a := stripIface(ev.args[1])
				addTok(st, partOf(a.typ))
			case strings.HasSuffix(ev.op, "DecodeUint16ForVarint"):
				addTok(st, "LE2")
			case strings.HasSuffix(ev.op, "Decoder).DecodeBytes"):
				addTok(st, "raw")
			case strings.HasSuffix(ev.op, "ReadUntilEOF"), eofTolerant(ev.op) && src:
				addTok(st, "rest")
			case ev.op == "io.CopyN" && src:
				addTok(st, "raw")
			case ev.op == "io.ReadFull" && len(ev.args) == 2:
				n, ok := x.lenOf(st, ev.args[1]).isInt()
				if ok {
					addTok(st, fmt.Sprintf("raw%d", n))
				} else {
					addTok(st, "raw")
				}
			case strings.HasSuffix(ev.op, ".UnmarshalBinary") && len(ev.args) == 2:
				addTok(st, partOf(stripIface(ev.args[0]).typ))
			case strings.HasSuffix(ev.op, "block.DeserializeHeader"):
				addTok(st, "header")
			case strings.HasSuffix(ev.op, "block.NewFromBuffer"):
				addTok(st, "block")
			case strings.HasSuffix(ev.op, "transaction.NewTxFromBuffer"):
				addTok(st, "tx")
			case ev.op == "encoding/binary.Read" && len(ev.args) == 3:
				addTok(st, coded(orderOf("", ev.args[1:2]), widthOf(pointee(stripIface(ev.args[2]).typ))))
			}
		case EvCall:
			if enc && opIn(ev.op, "bytes.Buffer).Write") && !opIn(ev.op, "bytes.Buffer).WriteByte") && len(ev.args) == 2 {
				for _, q := range x.parts(st, ev.args[1]) {
					addTok(st, q)
				}
			}
			if !enc && name == "IPv4" && ev.op == "copy" && len(ev.args) == 2 {
				so, sok := p.offsetOf(ev.args[1])
				do, dok := p.offsetOf(ev.args[0])
				r.check(sok && dok && do == 0 && so == 12, "sequence", short+": address part", ev.instr.Pos(), st.path(10), "the address is not taken from the last four of the 16 bytes (%s)", ev.args[1])
			}
			if !enc && strings.HasSuffix(ev.op, "Decoder).DecodeBytes") && len(ev.args) == 2 {
				calc := ev.args[1].has(func(y *Term) bool { return y.k == KBin })
				r.check(!calc, "count", short+": bytes read", ev.instr.Pos(), st.path(10), "the number of bytes read (%s) is not the length that was sent", ev.args[1])
			}
		case EvStore:
			if !enc && name == "IPv4" && ev.val != nil && ev.addr.k == KIndex {
				src := ev.val.find(func(y *Term) bool { return y.k == KIndex || y.k == KIndexV || y.k == KLoad && y.args[0].k == KIndex })
				if src == nil || rootOf(ev.addr) == rootOf(src) {
					return
				}
				if src.k == KLoad {
					src = src.args[0]
				}
				so, sok := p.offsetOf(src.args[0])
				c, d := src.args[1], ev.addr.args[1]
				at := mkBin(token.ADD, c, cInt(so, types.Typ[types.Int]), nil)
				to := mkBin(token.ADD, d, cInt(12, types.Typ[types.Int]), nil)
				ok := sok && (at == to || st.facts.diff(at, to) == 0 && st.facts.diff(to, at) == 0)
				r.check(ok, "sequence", short+": address part", ev.instr.Pos(), st.path(10), "the address is not taken from the last four of the 16 bytes (%s)", ev.val)
			}
		case EvBranch:
			// the first byte of a varint is known where it is compared
			ev.addr.has(func(y *Term) bool {
				if y.k == KBin && y.op == "==" {
					if v, ok := st.facts.eval(y); ok && v {
						for _, a := range y.args {
							if c, ok := a.isInt(); ok && c >= 0xfd && c <= 0xff {
								st.clear("first")
								st.add(Atom{name: "first", s: fmt.Sprintf("0x%x", c)})
							}
						}
					}
				}
				return false
			})
			// remember what was there when a loop is entered
			li := tlLoop(ev.frame.fn)
			b := ev.instr.Block()
			if li.header[b] {
				k := short + itoa(b.Index)
				seenMark := false
				for _, a := range st.all("mark") {
					seenMark = seenMark || strings.HasPrefix(a.s, k+"\x00")
				}
				if !seenMark {
					st.add(Atom{name: "mark", s: k + "\x00" + seqOf(st)})
				}
			}
		case EvBack:
			foldSeq(st, short+itoa(ev.frame.blk.Index))
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			s := seqOf(st)
			if enc && len(ev.args) > 0 {
				s = strings.Join(x.parts(st, ev.args[0]), " ")
			}
			if name == "VarInt" && !enc {
				s = varintPath(st, s, reader, x)
			}
			got[s] = true
			ok := false
			for _, w := range want {
				ok = ok || w == s
			}
			r.check(ok, "sequence", short+": "+s, ev.instr.Pos(), st.path(20), "the parts are %q, the protocol has %q", s, want)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if want == nil {
		r.bad("sequence", short, fn.Pos(), nil, "a hand-written codec of a type whose layout is not known")
		return
	}
	if name == "VarInt" {
		for _, w := range want {
			r.check(got[w] || w == "1" && got["1"], "sequence", short+": form "+w, fn.Pos(), nil, "the form %q is never written or read", w)
		}
	} else {
		r.check(got[want[0]] || len(want) > 1 && anyOf(got, want[1:]) && !strings.Contains(want[0], "*"), "sequence", short+": "+want[0], fn.Pos(), nil, "the form %q is never written or read", want[0])
	}
	if enc {
		checkCounts(p, r, fn, name)
	}
}

func anyOf(m map[string]bool, l []string) bool {
	for _, s := range l {
		if m[s] {
			return true
		}
	}
	return false
}

// constBytes: the constant bytes of a package variable that is never set again.
func (p *Prog) constBytes(g *ssa.Global) ([]byte, bool) {
	if g == nil || g.Pkg == nil || !isBytes(pointee(g.Type())) {
		return nil, false
	}
	var out []byte
	n := 0
	ok := true
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if fn.Synthetic != "" {
			return
		}
		if s, is := in.(*ssa.Store); is && s.Addr == g {
			ok = false
		}
		for _, op := range in.Operands(nil) {
			if *op == g {
				if u, is := in.(*ssa.UnOp); !is || u.Op != token.MUL {
					ok = false
				}
			}
		}
	})
	init := g.Pkg.Func("init")
	if init == nil || !ok {
		return nil, false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, is := in.(*ssa.Store)
			if !is || s.Addr != g {
				continue
			}
			n++
			sl, is := s.Val.(*ssa.Slice)
			if !is || sl.Low != nil || sl.High != nil {
				return nil, false
			}
			al, is := sl.X.(*ssa.Alloc)
			if !is {
				return nil, false
			}
			at, is := pointee(al.Type()).Underlying().(*types.Array)
			if !is {
				return nil, false
			}
			out = make([]byte, at.Len())
			for _, ref := range *al.Referrers() {
				ia, is := ref.(*ssa.IndexAddr)
				if !is {
					continue
				}
				k, kok := ia.Index.(*ssa.Const)
				for _, r2 := range *ia.Referrers() {
					st, is := r2.(*ssa.Store)
					if !is {
						return nil, false
					}
					c, cok := st.Val.(*ssa.Const)
					if !kok || !cok {
						return nil, false
					}
					out[k.Int64()] = byte(c.Int64())
				}
			}
		}
	}
	return out, n == 1
}

func globalTerm(t *Term) *ssa.Global {
	if t.k == KLoad {
		t = t.args[0]
	}
	if t.k != KGlobal {
		return nil
	}
	g, _ := t.val.(*ssa.Global)
	return g
}

// sliceOffset: where a slice expression begins in what it was cut from.
func sliceOffset(s *Term) (int64, bool) { return (&Prog{}).offsetOf(s) }

// constLen: a constant, or the length of constant bytes.
func (p *Prog) constLen(t *Term) (int64, bool) {
	if t.k == KCall && t.op == "len" {
		if b, ok := p.constBytes(globalTerm(t.args[0])); ok {
			return int64(len(b)), true
		}
	}
	return t.isInt()
}

// offsetOf: like sliceOffset, also by the length of constant bytes.
func (p *Prog) offsetOf(s *Term) (int64, bool) {
	n := int64(0)
	for s.k == KSlice {
		if s.op == "sub" {
			c, ok := p.constLen(s.args[1])
			if !ok {
				return 0, false
			}
			n += c
		}
		s = s.args[0]
	}
	return n, true
}

// varintPath names the form read by the value of its first byte on this path.
func varintPath(st *State, s string, reader *Term, x *Exec) string {
	toks := strings.Split(s, " ")
	if len(toks) != 2 || toks[0] != "1" {
		return s
	}
	for _, a := range st.all("first") {
		return a.s + " " + norm(toks[1])
	}
	return s
}

// norm names the width of a primitive type of the generic decoder.
func norm(tok string) string {
	switch tok {
	case "uint32":
		return "LE4"
	case "uint64":
		return "LE8"
	case "uint16":
		return "BE2"
	}
	return tok
}

// checkCounts: the VarInt written before a loop or a run of bytes counts just those.
func checkCounts(p *Prog, r *Report, fn *ssa.Function, name string) {
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return codecInline(x, st, f, c) && f.Name() != "newFromInt" && !strings.HasPrefix(f.Name(), "NewVar")
	}
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		if ev.kind != EvResult && ev.kind != EvBranch {
			return
		}
		if ev.kind == EvResult && strings.HasSuffix(ev.op, "binary.Marshal") {
			a := stripIface(ev.args[0])
			if wireName(a.typ) == "VarInt" {
				st.clear("count")
				st.add(Atom{name: "count", a: a})
			}
			return
		}
		for _, c := range st.all("count") {
			l := c.a.find(func(y *Term) bool { return y.k == KCall && y.op == "len" })
			if c.a.has(func(y *Term) bool { return y.k == KBin }) {
				l = nil
			}
			if ev.kind == EvResult && opIn(ev.op, "bytes.Buffer).Write") && len(ev.args) == 2 {
				if ev.args[1].k == KExtract && ev.args[1].args[0].k == KCall && strings.HasSuffix(ev.args[1].args[0].op, "binary.Marshal") {
					continue
				}
				if n, is := x.lenOf(st, ev.args[1]).isInt(); is && n == 32 {
					continue // a hash of the loop that follows
				}
				ok := l != nil && len(l.args) > 0 && l.args[0] == ev.args[1]
				r.check(ok, "count", short+": bytes", ev.instr.Pos(), st.path(15), "the length written (%s) is not that of the bytes that follow", c.a)
			}
			if ev.kind == EvBranch && tlLoop(ev.frame.fn).header[ev.instr.Block()] {
				cnd := ev.addr
				for cnd.k == KUn {
					cnd = cnd.args[0]
				}
				bound := cnd.find(func(y *Term) bool { return y.k == KCall && y.op == "len" })
				if bound == nil {
					continue
				}
				ok := l != nil && l.args[0] == bound.args[0]
				if l == nil {
					// a count kept beside its elements in the same value
					ok = sameOwner(c.a, bound.args[0])
				}
				r.check(ok, "count", short+": elements", ev.instr.Pos(), st.path(15), "the count written (%s) is not that of the elements that follow (%s)", c.a, bound)
			}
		}
	}
	checkWholeLoops(p, r, fn)
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkNewVarint: a varint made of an int keeps its value and is no prefix by accident.
func checkNewVarint(p *Prog, r *Report) {
	vt := p.named("pkg/protocol.VarInt")
	if vt == nil {
		r.anchorLost("protocol.VarInt")
		return
	}
	n := 0
	for _, fn := range p.Funcs {
		if rel(pkgPathOf(fn)) != "pkg/protocol" || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || fn.Signature.Results().At(0).Type() != vt {
			continue
		}
		fn := fn
		x := newExec(p)
		x.inline = codecInline
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn || len(ev.args) == 0 {
				return
			}
			if len(ev.args) > 1 {
				if _, ok := successFacts(st, ev.args); !ok {
					return
				}
			}
			v := ev.args[0]
			c := v.find(func(y *Term) bool {
				return y.k == KConv && y.typ != nil && widthOf(y.typ) > 0 && len(y.args) == 1 && y.args[0].typ != nil && widthOf2(y.args[0].typ) == 8
			})
			if c == nil {
				return
			}
			w := widthOf(c.typ)
			max := map[int64]int64{1: 0xfc, 2: 0xffff, 4: 0xffffffff, 8: 1 << 62}[w]
			n++
			m := st.facts.diff(c.args[0], cInt(0, types.Typ[types.Int]))
			r.check(w == 8 || m <= max, "count", fname(fn)+": "+wireName(c.typ), ev.instr.Pos(), st.path(10), "a number that may exceed %d is kept in a varint of %d bytes", max, w)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, fname(fn), err)
	}
	r.check(n > 0, "count", "varints of numbers", vt.Obj().Pos(), nil, "nothing makes a varint of a number any more")
}

func widthOf2(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
		return 8
	}
	return widthOf(t)
}

func sameOwner(a, b *Term) bool {
	own := func(t *Term) *Term {
		if t.k == KFieldV || t.k == KField {
			return t.args[0]
		}
		if t.k == KLoad && t.args[0].k == KField {
			return t.args[0].args[0]
		}
		return nil
	}
	x, y := own(a), own(b)
	return x != nil && x == y
}

// checkCodecChoice: hand-written codecs are tried before the field-by-field one and can be
// called on the values met.
func checkCodecChoice(p *Prog, r *Report) {
	check := func(fn *ssa.Function, iface string, fallback func(ev *Event) bool) {
		x := newExec(p)
		x.inline = codecInline
		short := fname(fn)
		own := false
		var v *Term
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvStart {
				v = x.val(st, fn.Params[len(fn.Params)-1])
			}
			if ev.kind == EvCall && strings.HasSuffix(ev.op, "."+iface) {
				own = true
			}
			if ev.kind == EvCall && fallback(ev) {
				ok := false
				for t, b := range st.facts {
					if !b && t.k == KExtract && t.idx == 1 && t.args[0].k == KAssert && types.IsInterface(t.args[0].typ) && hasMethod(t.args[0].typ, iface) {
						ok = true
					}
				}
				r.check(ok, "own-codec", short+": tried first", ev.instr.Pos(), st.path(15), "a value is coded field by field without asking for its own %s", iface)
			}
			_ = v
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
		r.check(own, "own-codec", short+": used", fn.Pos(), nil, "the value's own %s is never used", iface)
	}
	for _, d := range p.codecMethods("Decode") {
		check(d, "UnmarshalBinary", func(ev *Event) bool {
			return opIn(ev.op, "reflect.Value).Field") && !opIn(ev.op, "reflect.Value).FieldB")
		})
	}
	if bin := p.pkg("pkg/binary"); bin != nil {
		if m := bin.Func("Marshal"); m != nil {
			check(m, "MarshalBinary", func(ev *Event) bool { return opIn(ev.op, "reflect.Value).Field") })
			checkMarshalStruct(p, r, m)
		}
	}
	// codecs of embedded fields must not hide the other fields; encoders must work on values
	for _, f := range p.codecMethods("MarshalBinary") {
		_, ptr := f.Signature.Recv().Type().(*types.Pointer)
		r.check(!ptr, "own-codec", fname(f)+": on values", f.Pos(), nil, "the encoder is declared on the pointer, but Marshal encodes the value pointed to, which does not have it")
	}
	for _, f := range p.codecMethods("UnmarshalBinary") {
		_, ptr := f.Signature.Recv().Type().(*types.Pointer)
		r.check(ptr, "own-codec", fname(f)+": on pointers", f.Pos(), nil, "the decoder is declared on the value")
	}
	if pr := p.pkg("pkg/protocol"); pr != nil {
		sc := pr.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for _, m := range []string{"MarshalBinary", "UnmarshalBinary"} {
				o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pr.Pkg, m)
				if fo, ok := o.(*types.Func); ok && len(idx) > 1 {
					_ = fo
					r.check(s.NumFields() == 1, "own-codec", nm+": "+m, tn.Pos(), nil, "the %s of an embedded field stands for the whole value and leaves out its other fields", m)
				}
			}
		}
	}
}

func checkMarshalStruct(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	x.inline = codecInline
	n := 0
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if opIn(ev.op, "bytes.Buffer).Write", "pkg/binary.Marshal") {
				for _, a := range ev.args {
					if fi := fieldIndex(a); fi != nil {
						st.add(Atom{name: "did", s: strings.TrimLeft(ev.op, "(*")})
					}
				}
			}
		case EvBack:
			if !strings.Contains(loopBound(ev.frame.fn, ev.frame.blk), "NumField") {
				return
			}
			n++
			wrote := false
			for _, a := range st.all("did") {
				wrote = wrote || strings.Contains(a.s, "Write")
			}
			r.check(wrote, "all-fields", fname(ev.frame.fn)+": every field encoded", ev.instr.Pos(), st.path(15), "a field is not written")
			lc := loopCounter(ev.frame.fn, ev.frame.blk)
			r.check(lc == "", "all-fields", fname(ev.frame.fn)+": from first to last", ev.instr.Pos(), nil, "%s", lc)
			st.clear("did")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, fname(fn), err)
	r.check(n > 0, "all-fields", "Marshal: struct", fn.Pos(), nil, "no loop over the fields of a struct was found")
}

// ---- supported types ----

func encSupported(t types.Type, d int) string {
	if d > 8 {
		return ""
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "MarshalBinary") != nil || hasMethod(t, "MarshalBinary") {
		return ""
	}
	if _, ok := t.(*types.Named); !ok {
		if primSpec[wireName(t)] != "" {
			return ""
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return wireName(t) + " is not supported"
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			return wireName(t) + "." + f.Name() + " is not exported"
		}
		if m := encSupported(f.Type(), d+1); m != "" {
			return wireName(t) + "." + f.Name() + ": " + m
		}
	}
	return ""
}

func decSupported(t types.Type, d int) string {
	if d > 8 {
		return ""
	}
	if hasMethod(types.NewPointer(t), "UnmarshalBinary") {
		return ""
	}
	if _, ok := t.(*types.Named); !ok {
		n := wireName(t)
		if primSpec[n] != "" && n != "string" {
			return ""
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return wireName(t) + " is not supported"
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			return wireName(t) + "." + f.Name() + " is not exported"
		}
		if m := decSupported(f.Type(), d+1); m != "" {
			return wireName(t) + "." + f.Name() + ": " + m
		}
	}
	return ""
}

func checkClosure(p *Prog, r *Report) {
	var dynTypes func(v ssa.Value, d int) []types.Type
	callers, _, _ := p.staticCallers()
	dynTypes = func(v ssa.Value, d int) []types.Type {
		if d > 6 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.MakeInterface:
			return []types.Type{v.X.Type()}
		case *ssa.Phi:
			var r []types.Type
			for _, e := range v.Edges {
				r = append(r, dynTypes(e, d+1)...)
			}
			return r
		case *ssa.ChangeInterface:
			return dynTypes(v.X, d+1)
		case *ssa.Parameter:
			var r []types.Type
			for i, q := range v.Parent().Params {
				if q == v {
					for _, c := range callers[v.Parent()] {
						if i < len(c.Common().Args) {
							r = append(r, dynTypes(c.Common().Args[i], d+1)...)
						}
					}
				}
			}
			return r
		}
		return nil
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		t := c.Common().StaticCallee()
		if t == nil {
			return
		}
		var args []types.Type
		dec := false
		n := fname(t)
		switch {
		case n == "pkg/binary.Marshal" || n == "pkg/binary.MarshalForVarint":
			args = dynTypes(c.Common().Args[0], 0)
		case n == "pkg/protocol.NewMessage":
			args = dynTypes(c.Common().Args[2], 0)
		case strings.HasSuffix(n, "pkg/binary.Decoder).Decode"):
			dec = true
			args = dynTypes(c.Common().Args[1], 0)
		default:
			return
		}
		var l []string
		for _, a := range args {
			m := ""
			if dec {
				pt, ok := a.(*types.Pointer)
				if !ok {
					m = "no pointer is given to decode into"
				} else {
					m = decSupported(pt.Elem(), 0)
				}
			} else {
				m = encSupported(a, 0)
			}
			r.check(m == "", "supported", fname(fn)+": "+t.Name()+" of "+shortType(a), in.Pos(), nil, "%s", m)
			l = append(l, shortType(a))
		}
		sort.Strings(l)
	})
}
