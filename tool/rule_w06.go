package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("W06", checkW06) }

// The message type of every command the node handles or sends.
var commandType = map[string]string{
	"version": "MsgVersion", "ping": "MsgPing", "pong": "MsgPong", "inv": "MsgInv", "getdata": "MsgGetData", "tx": "MsgTx", "block": "MsgBlock",
	"sendcmpct": "MsgSendCmpct", "getheaders": "MsgGetHeaders", "headers": "MsgHeaders", "cfilter": "MsgCFilter", "getcfilters": "MsgGetCFilters",
	"verack": "", "sendheaders": "",
}

var handledCommands = []string{"version", "verack", "ping", "pong", "inv", "tx", "block", "headers", "cfilter", "getcfilters", "getheaders", "sendcmpct"}

type netSpec struct{ magic, genesis, cfg string }

var networkSpec = map[string]netSpec{
	"liquid":  {"fabfb5da", "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003", "Liquid"},
	"testnet": {"410edd62", "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1", "Testnet"},
	"regtest": {"12345678", "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21", "Regtest"},
}

func checkW06(p *Prog, r *Report) {
	r.rule("commands", "every entry of the command table is the name it is listed under, padded to twelve bytes with zeros")
	r.rule("constructor", "a message is made with the command of the type of its payload, and that command is in the table")
	r.rule("dispatch", "a message received under a command is decoded as the type of that command")
	r.rule("envelope", "a message has the magic and command asked for, its payload, and the length and checksum of that payload")
	r.rule("networks", "every network has its own magic, which headers are accepted with, and a genesis checkpoint that is its genesis hash")
	r.rule("config", "the networks the configuration accepts are those the node supports")
	pr := p.pkg("pkg/protocol")
	if pr == nil {
		r.anchorLost("pkg/protocol")
		return
	}
	inProto := func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/protocol"
	}

	// the tables as the initialisation of the package leaves them
	type entry struct {
		key, val *Term
		in       ssa.Instruction
	}
	maps := map[*Term][]entry{}
	var mem map[*Term]*Term
	x := newExec(p)
	x.inline = inProto
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvMapUpdate:
			maps[ev.addr] = append(maps[ev.addr], entry{ev.key, ev.val, ev.instr})
		case EvReturn:
			if len(st.mem) > len(mem) {
				mem = map[*Term]*Term{}
				for k, v := range st.mem {
					mem[k] = v
				}
			}
		}
	}
	ini := pr.Func("init")
	r.ran(x, "pkg/protocol.init", x.run(ini, rootOpt{}))
	global := func(name string) *Term {
		for k, v := range mem {
			if k.k == KGlobal && k.val.Name() == name {
				return v
			}
		}
		return nil
	}

	// commands
	known := map[string]bool{}
	var table *Term
	for k, v := range mem {
		if k.k == KGlobal && v.k == KMake && len(maps[v]) > 5 {
			if mt, ok := pointee(k.typ).Underlying().(*types.Map); ok {
				if a, ok := mt.Elem().Underlying().(*types.Array); ok && a.Len() == 12 {
					table = v
				}
			}
		}
	}
	if table == nil {
		r.anchorLost("the command table")
		return
	}
	for _, e := range maps[table] {
		name, ok := e.key.isStr()
		r.check(ok && !known[name], "commands", "key "+e.key.String(), e.in.Pos(), nil, "a command is listed twice or under no constant name")
		known[name] = true
		why := packedName(e.val, name)
		r.check(why == "", "commands", "command "+name, e.in.Pos(), nil, "%s", why)
	}
	for c := range commandType {
		r.check(known[c], "commands", "command "+c+" known", ini.Pos(), nil, "the command is not in the table")
	}

	// constructors
	n := 0
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil || fname(c.Common().StaticCallee()) != "pkg/protocol.NewMessage" {
			return
		}
		k, ok := c.Common().Args[0].(*ssa.Const)
		if !ok || k.Value == nil {
			return
		}
		cmd := constant.StringVal(k.Value)
		n++
		name := fname(fn) + ": " + cmd
		r.check(known[cmd], "constructor", name+" in table", in.Pos(), nil, "%q is not in the command table: the message can never be made", cmd)
		if api := strings.ToLower(strings.NewReplacer("New", "", "Message", "", "Msg", "").Replace(fn.Name())); fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "New") && known[api] {
			r.check(api == cmd, "constructor", fname(fn)+": command", in.Pos(), nil, "%s makes a %q message", fn.Name(), cmd)
		}
		want, ok := commandType[cmd]
		if !ok {
			r.ok("constructor", name+" (no type known)", in.Pos())
			return
		}
		mi, ok := c.Common().Args[2].(*ssa.MakeInterface)
		if !ok {
			return
		}
		t := pointee(mi.X.Type())
		r.check(wireLike(p, t, want), "constructor", name, in.Pos(), nil, "the payload of the %q message is a %s", cmd, shortType(t))
	})
	r.check(n >= 5, "constructor", "constructors", ini.Pos(), nil, "only %d messages are made", n)

	checkEnvelope(p, r, pr)
	checkDispatch(p, r)

	// networks
	nets := global("Networks")
	if nets == nil || len(maps[nets]) == 0 {
		r.anchorLost("protocol.Networks")
		return
	}
	seen := map[string]string{}
	magics := map[string]*Term{}
	for _, e := range maps[nets] {
		name, _ := e.key.isStr()
		m, ok := hexOf(e.val)
		spec, is := networkSpec[name]
		if !is {
			r.bad("networks", "network "+name, e.in.Pos(), nil, "a network whose magic and genesis are not known")
			continue
		}
		r.check(ok && m == spec.magic, "networks", name+": magic", e.in.Pos(), nil, "the magic is %s, that of the network %s", m, spec.magic)
		r.check(seen[m] == "", "networks", name+": own magic", e.in.Pos(), nil, "shares its magic with %s", seen[m])
		seen[m] = name
		magics[name] = e.val
	}
	for name := range networkSpec {
		r.check(magics[name] != nil, "networks", name+": supported", ini.Pos(), nil, "the network is not in the table")
	}
	// genesis checkpoints
	gc := pr.Func("GetCheckpoints")
	hv := p.methodAny("pkg/protocol.MessageHeader", "HasValidMagic")
	for _, name := range sortedKeys(magics) {
		m := magics[name]
		if gc == nil {
			r.anchorLost("protocol.GetCheckpoints")
		} else {
			x := newExec(p)
			x.inline = inProto
			any := false
			x.on = func(x *Exec, st *State, ev *Event) {
				if ev.kind != EvReturn || len(ev.args) == 0 {
					return
				}
				any = true
				got := ""
				for _, e := range maps[ev.args[0]] {
					if k, ok := e.key.isInt(); ok && k == 0 {
						got, _ = e.val.isStr()
					}
				}
				r.check(got == networkSpec[name].genesis, "networks", name+": genesis checkpoint", ev.instr.Pos(), st.path(10), "the checkpoint at height 0 is %q, the genesis block of the network is %s", got, networkSpec[name].genesis)
			}
			conv := tt.mk(Term{k: KConv, args: []*Term{m}, typ: gc.Params[0].Type()})
			err := x.run(gc, rootOpt{mem: mem, args: []*Term{mkConv(conv.args[0], gc.Params[0].Type())}})
			r.ran(x, "GetCheckpoints("+name+")", err)
			r.check(any, "networks", name+": checkpoints", gc.Pos(), nil, "no checkpoints")
		}
		if hv == nil {
			r.anchorLost("MessageHeader.HasValidMagic")
		} else {
			x := newExec(p)
			x.inline = inProto
			any := false
			x.on = func(x *Exec, st *State, ev *Event) {
				if ev.kind != EvReturn || len(ev.args) == 0 {
					return
				}
				any = true
				v, known := st.facts.eval(ev.args[0])
				r.check(known && v, "networks", name+": accepted", ev.instr.Pos(), st.path(10), "headers with the magic of the network are not accepted (%s)", ev.args[0])
			}
			st := hv.Signature.Recv().Type()
			s := structOf(pointee(st))
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Name() == "Magic" {
					fs = append(fs, m)
				} else {
					fs = append(fs, tt.mk(Term{k: KParam, idx: 100 + i, typ: f.Type(), op: f.Name()}))
				}
			}
			o := rootOpt{mem: map[*Term]*Term{}}
			for k, v := range mem {
				o.mem[k] = v
			}
			val := tt.mk(Term{k: KStruct, op: "struct", args: fs, typ: pointee(st)})
			if _, ptr := st.(*types.Pointer); ptr {
				a := tt.mk(Term{k: KParam, idx: 99, typ: st})
				o.mem[a] = val
				o.args = []*Term{a}
			} else {
				o.args = []*Term{val}
			}
			err := x.run(hv, o)
			r.ran(x, "HasValidMagic("+name+")", err)
			r.check(any, "networks", name+": validated", hv.Pos(), nil, "the magic is not validated")
		}
	}
	for g, net := range map[string]string{"LiquidGenesisBlockHash": "liquid", "LiquidTestnetGenesisBlockHash": "testnet", "RegtestGenesisBlockHash": "regtest"} {
		if v := global(g); v != nil {
			s, _ := v.isStr()
			r.check(s == networkSpec[net].genesis, "networks", g, ini.Pos(), nil, "it is %q, the genesis block of the network is %s", s, networkSpec[net].genesis)
		}
	}
	checkConfig(p, r)
	r.need("commands", 20)
	r.need("constructor", 5)
	r.need("dispatch", 8)
	r.need("networks", 9)
}

func (p *Prog) methodAny(typ, name string) *ssa.Function {
	n := p.named(typ)
	if n == nil {
		return nil
	}
	for _, f := range p.Funcs {
		if f.Name() == name && f.Signature.Recv() != nil && pointee(f.Signature.Recv().Type()) == types.Type(n) && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

func hexOf(t *Term) (string, bool) {
	for t.k == KConv {
		t = t.args[0]
	}
	if t.k != KStruct || len(t.args) == 0 {
		return t.String(), false
	}
	s := ""
	for _, a := range t.args {
		c, ok := a.isInt()
		if (a.k == KIndexV || a.k == KLookup || a.k == KIndex) && len(a.args) == 2 {
			// a byte of a constant string
			b := a.args[0]
			for b.k == KConv {
				b = b.args[0]
			}
			str, ok1 := b.isStr()
			i, ok2 := a.args[1].isInt()
			if ok1 && ok2 && i >= 0 && int(i) < len(str) {
				c, ok = int64(str[i]), true
			}
		}
		if !ok {
			return t.String(), false
		}
		s += fmt.Sprintf("%02x", c)
	}
	return s, true
}

// packedName: v is the name followed by zeros, in an array of twelve bytes.
func packedName(v *Term, name string) string {
	if len(name) == 0 || len(name) > 12 {
		return "the name does not fit"
	}
	for v.k == KConv {
		v = v.args[0]
	}
	if h, ok := hexOf(v); ok {
		w := fmt.Sprintf("%x", name) + strings.Repeat("00", 12-len(name))
		if h != w {
			return "the packed name is " + h
		}
		return ""
	}
	if v.k != KOut || v.op != "copy" || len(v.args) < 2 {
		return "how the name is packed is not known: " + v.String()
	}
	if o, ok := sliceOffset(v.args[0]); !ok || o != 0 {
		return "the name is not at the beginning of the packed command"
	}
	return startsWith(v.args[1], name)
}

func startsWith(s *Term, name string) string {
	for s.k == KConv || s.k == KSlice && s.op == "" || s.k == KSpread {
		s = s.args[0]
	}
	if s.k == KSlice {
		if o, ok := sliceOffset(s); !ok || o != 0 {
			return "the name is cut"
		}
		return startsWith(s.args[0], name)
	}
	if v, ok := s.isStr(); ok {
		if v != name {
			return fmt.Sprintf("the packed name is %q", v)
		}
		return ""
	}
	if s.k == KAppend && len(s.args) > 0 {
		for i, a := range s.args[1:] {
			z := a
			for z.k == KSpread || z.k == KConv || z.k == KSlice {
				z = z.args[0]
			}
			if c, ok := z.isInt(); ok && c != 0 {
				return fmt.Sprintf("the padding is not zero (%d: %d)", i, c)
			} else if !ok && z.k != KMake && z.k != KAlloc && z.k != KZero && !z.isNil() {
				return "the padding is not zero: " + z.String()
			}
		}
		return startsWith(s.args[0], name)
	}
	return "how the name is packed is not known: " + s.String()
}

// wireLike: values of t are sent like those of the named message type.
func wireLike(p *Prog, t types.Type, name string) bool {
	if name == "" {
		return wireName(t) == "[]byte"
	}
	if wireName(t) == name {
		return true
	}
	w := p.named("pkg/protocol." + name)
	if w == nil || hasMethod(types.NewPointer(t), "MarshalBinary") || hasMethod(types.NewPointer(t), "UnmarshalBinary") || hasMethod(types.NewPointer(w), "UnmarshalBinary") || hasMethod(types.NewPointer(w), "MarshalBinary") {
		return false
	}
	a, ok1 := t.Underlying().(*types.Struct)
	b, ok2 := w.Underlying().(*types.Struct)
	if !ok1 || !ok2 || a.NumFields() != b.NumFields() {
		return false
	}
	for i := 0; i < a.NumFields(); i++ {
		if !types.Identical(a.Field(i).Type(), b.Field(i).Type()) {
			return false
		}
	}
	return true
}

func checkEnvelope(p *Prog, r *Report, pr *ssa.Package) {
	fn := pr.Func("NewMessage")
	if fn == nil {
		r.anchorLost("protocol.NewMessage")
		return
	}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "pkg/protocol"
	}
	var cmd, magic, payload *Term
	any := false
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStart:
			cmd, magic, payload = x.val(st, fn.Params[0]), x.val(st, fn.Params[1]), x.val(st, fn.Params[2])
		case EvResult:
			if strings.HasSuffix(ev.op, "pkg/binary.Marshal") || ev.op == "pkg/binary.Marshal" {
				st.clear("body")
				if ev.args[0] == payload {
					st.add(Atom{name: "body", a: ev.res})
				}
			}
		case EvStore:
			// facts about parameters are dropped once they are dead: judge the fields as they are set
			if ev.addr.k != KField || ev.addr.fld == nil {
				if ev.val != nil && ev.val.typ != nil {
					switch wireName(ev.val.typ) {
					case "MessageHeader":
						s := structOf(ev.val.typ)
						for i := 0; i < s.NumFields(); i++ {
							envField(x, st, r, ev, s.Field(i).Name(), fieldVal(ev.val, s.Field(i)), cmd, magic)
						}
					case "Message":
						s := structOf(ev.val.typ)
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == "Payload" {
								envField(x, st, r, ev, "Payload", fieldVal(ev.val, s.Field(i)), cmd, magic)
								continue
							}
							if h := structOf(s.Field(i).Type()); h != nil {
								hv := fieldVal(ev.val, s.Field(i))
								for j := 0; j < h.NumFields(); j++ {
									envField(x, st, r, ev, h.Field(j).Name(), fieldVal(hv, h.Field(j)), cmd, magic)
								}
							}
						}
					}
				}
				return
			}
			envField(x, st, r, ev, ev.addr.fld.Name(), ev.val, cmd, magic)
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			any = true
			for _, f := range []string{"Magic", "Command", "Length", "Checksum", "Payload"} {
				r.check(st.flag("set "+f), "envelope", "NewMessage: "+f+" set", ev.instr.Pos(), st.path(15), "the %s of the message is not, or not rightly, set", f)
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, fname(fn), err)
	r.check(any, "envelope", "NewMessage", fn.Pos(), nil, "no message is ever made")
}

func envField(x *Exec, st *State, r *Report, ev *Event, f string, v, cmd, magic *Term) {
	if v == nil {
		return
	}
	for v.k == KConv && f != "Length" {
		v = v.args[0]
	}
	var body *Term
	for _, a := range st.all("body") {
		body = a.a
	}
	isBody := func(y *Term) bool { return body != nil && y.k == KExtract && y.idx == 0 && y.args[0] == body }
	ok := false
	switch f {
	case "Magic":
		ok = v == magic
	case "Command":
		l := v.find(func(y *Term) bool { return y.k == KLookup })
		ok = l != nil && len(l.args) > 1 && l.args[1] == cmd
	case "Length":
		for v.k == KConv {
			v = v.args[0]
		}
		ok = v.k == KCall && v.op == "len" && len(v.args) > 0 && isBody(v.args[0])
	case "Checksum":
		ok = checksumOf(v, isBody) == ""
	case "Payload":
		ok = isBody(v)
	default:
		return
	}
	st.unset("set " + f)
	if ok {
		st.set("set " + f)
	}
}

func checkDispatch(p *Prog, r *Report) {
	roots, reads := readersOfPeers(p)
	if len(roots) == 0 {
		r.anchorLost("the goroutine that reads the messages of a peer")
	}
	pongs := p.reach(true, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		return f != nil && rel(pkgPathOf(f)) == "pkg/protocol" && f.Name() == "NewPongMsg"
	})
	makesPong := func(f *ssa.Function) bool {
		return pongs[f] && !reads[f] || rel(pkgPathOf(f)) == "pkg/protocol" && f.Name() == "NewPongMsg"
	}
	for _, root := range roots {
		short := fname(root)
		x := newExec(p)
		isAction := func(f *ssa.Function) bool {
			return rel(pkgPathOf(f)) == "pkg/node" && takesReader(f) && !reads[f] && f.Parent() == nil
		}
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			if isAction(f) {
				return false
			}
			pk := rel(pkgPathOf(f))
			return pk == "pkg/node" && reads[f] || pk == "pkg/protocol" || pk == "pkg/node" && !takesReader(f) && f.Parent() == nil
		}
		seen := map[string]bool{}
		decodedAs := func(c string, ts []types.Type, pos token.Pos, st *State) {
			want, ok := commandType[c]
			if !ok {
				r.ok("dispatch", short+": "+c+" (no type known)", pos)
				return
			}
			if want == "" {
				r.check(len(ts) == 0, "dispatch", short+": "+c, pos, st.path(10), "the %q message has no payload", c)
				return
			}
			for _, t := range ts {
				r.check(wireLike(p, t, want), "dispatch", short+": "+c, pos, st.path(10), "the %q message is decoded as %s", c, shortType(t))
			}
			r.check(len(ts) > 0, "dispatch", short+": "+c+" decoded", pos, st.path(10), "the payload of the %q message is not decoded", c)
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvResult:
				if isHeaderDecode(ev.op, ev.args) {
					st.clear("cmd")
				}
			case EvBranch:
				ev.addr.has(func(y *Term) bool {
					if y.k == KBin && y.op == "==" {
						for i := range y.args {
							s, ok := y.args[i].isStr()
							if !ok || !nameTerm(y.args[1-i]) {
								continue
							}
							if v, ok := st.facts.eval(y); ok && v {
								st.clear("cmd")
								st.add(Atom{name: "cmd", s: s})
								why := nameOfCommand(y.args[1-i])
								r.check(why == "", "dispatch", short+": name", ev.instr.Pos(), nil, "%s", why)
							}
						}
					}
					return false
				})
			case EvCall:
				t := ev.call.target()
				if t == nil {
					if c := ev.call; c.common == nil || c.common.IsInvoke() || c.blt != "" || !takesReaderSig(c.common.Signature()) {
						return
					}
					lk := ev.call.fn.find(func(y *Term) bool { return y.k == KLookup })
					if lk == nil || !nameTerm(lk.args[1]) {
						r.bad("dispatch", short+": handler", ev.instr.Pos(), st.path(15), "a message is handled whatever its command is")
						return
					}
					why := nameOfCommand(lk.args[1])
					r.check(why == "", "dispatch", short+": name", ev.instr.Pos(), nil, "%s", why)
					for c, fs := range p.handlerTables() {
						seen[c] = true
						for _, f := range fs {
							if c == "pong" && makesPong(f) {
								r.bad("dispatch", short+": pong", ev.instr.Pos(), st.path(15), "a pong is answered like a ping instead of being handed to the monitor that waits for it")
							}
							decodedAs(c, decodedIn(p, f), ev.instr.Pos(), st)
						}
					}
					return
				}
				for _, c := range st.all("cmd") {
					if c.s == "pong" && makesPong(t) {
						r.bad("dispatch", short+": pong", ev.instr.Pos(), st.path(15), "a pong is answered like a ping instead of being handed to the monitor that waits for it")
					}
				}
				var ts []types.Type
				if strings.HasSuffix(ev.op, "binary.Decoder).Decode") && !isHeaderDecode(ev.op, ev.args) {
					ts = []types.Type{pointee(stripIface(ev.args[1]).typ)}
				} else if isAction(t) {
					ts = decodedIn(p, t)
				} else {
					return
				}
				cs := st.all("cmd")
				if len(cs) == 0 {
					r.bad("dispatch", short+": "+t.Name(), ev.instr.Pos(), st.path(15), "a message is handled whatever its command is")
					return
				}
				for _, c := range cs {
					seen[c.s] = true
					decodedAs(c.s, ts, ev.instr.Pos(), st)
				}
			}
		}
		err := x.run(root, rootOpt{})
		r.ran(x, short, err)
		for _, c := range handledCommands {
			r.check(seen[c], "dispatch", short+": "+c+" handled", root.Pos(), nil, "messages with the command %q are not handled", c)
		}
	}
}

// nameTerm: made of the command of a message.
func nameTerm(t *Term) bool {
	return t.has(func(z *Term) bool {
		return z.fld != nil && z.fld.Name() == "Command" || z.k == KCall && strings.HasSuffix(z.op, "CommandString")
	})
}

// handlerTables: the functions kept in tables of handlers, by the name they are kept under.
func (p *Prog) handlerTables() map[string][]*ssa.Function {
	res := map[string][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := m.Key.(*ssa.Const)
				sig, isF := m.Value.Type().Underlying().(*types.Signature)
				if !ok || !isF || !takesReaderSig(sig) || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				v := m.Value
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				var g *ssa.Function
				switch c := v.(type) {
				case *ssa.MakeClosure:
					g = c.Fn.(*ssa.Function)
				case *ssa.Function:
					g = c
				}
				if g == nil {
					continue
				}
				if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
					if h := p.SSA.FuncValue(o); h != nil {
						g = h
					}
				}
				res[constant.StringVal(k.Value)] = append(res[constant.StringVal(k.Value)], g)
			}
		}
	}
	return res
}

// nameOfCommand: the name compared is the whole command without its padding.
func nameOfCommand(t *Term) string {
	bad := ""
	t.has(func(y *Term) bool {
		if y.k == KSlice && y.op == "sub" {
			if o, ok := sliceOffset(y); ok && o != 0 {
				bad = "the beginning of the command is cut off"
			} else if len(y.args) > 2 {
				if h, ok := y.args[2].isInt(); ok && h < 12 {
					bad = "the end of the command is cut off"
				}
			}
		}
		if y.k == KCall && opIn(y.op, "strings.Trim", "bytes.Trim") && len(y.args) > 1 {
			if s, ok := y.args[1].isStr(); ok && strings.Trim(s, "\x00") != "" {
				bad = fmt.Sprintf("%q is trimmed off the command", s)
			}
		}
		return false
	})
	return bad
}

// decodedIn: the types a handler decodes its payload into.
func decodedIn(p *Prog, f *ssa.Function) []types.Type {
	var r []types.Type
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || rel(pkgPathOf(f)) != "pkg/node" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				t := c.Call.StaticCallee()
				if t == nil {
					continue
				}
				if t.Name() == "Decode" && rel(pkgPathOf(t)) == "pkg/binary" && len(c.Call.Args) == 2 {
					if mi, ok := c.Call.Args[1].(*ssa.MakeInterface); ok {
						r = append(r, pointee(mi.X.Type()))
					}
				}
				if takesReader(t) {
					walk(t)
				}
			}
		}
	}
	walk(f)
	return r
}

func checkConfig(p *Prog, r *Report) {
	fn := p.fun("internal/config.LoadConfig")
	if fn == nil {
		r.anchorLost("config.LoadConfig")
		return
	}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
		return rel(pkgPathOf(f)) == "internal/config"
	}
	acc := map[string]bool{}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			ev.addr.has(func(y *Term) bool {
				if y.k == KBin && y.op == "==" {
					if v, ok := st.facts.eval(y); ok && v {
						for i := range y.args {
							if n := netName(y.args[i]); n != "" && !y.args[1-i].isNil() {
								st.add(Atom{name: "net", s: n})
							}
						}
					}
				}
				return false
			})
		case EvReturn:
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			ns := st.all("net")
			if len(ns) > 1 {
				return // one name cannot be that of two networks
			}
			r.check(len(ns) > 0, "config", "LoadConfig: network checked", ev.instr.Pos(), st.path(15), "any network name is accepted")
			for _, a := range ns {
				acc[a.s] = true
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, fname(fn), err)
	for _, n := range sortedKeys(acc) {
		_, ok := networkSpec[n]
		r.check(ok, "config", "network "+n, fn.Pos(), nil, "the configuration accepts a network the node does not support")
	}
	for _, n := range sortedKeys(networkSpec) {
		r.check(acc[n], "config", "network "+n+" accepted", fn.Pos(), nil, "the configuration refuses a network the node supports")
	}
}

// netName: the name of a network of go-elements, or a constant.
func netName(t *Term) string {
	if s, ok := t.isStr(); ok {
		return s
	}
	g := t.find(func(y *Term) bool { return y.k == KGlobal })
	if g == nil || t.fld == nil && (t.k != KLoad || t.args[0].fld == nil) {
		return ""
	}
	for n, s := range networkSpec {
		if s.cfg == g.val.Name() {
			return n
		}
	}
	return ""
}
