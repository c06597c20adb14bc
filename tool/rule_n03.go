package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("N03", checkN03) }

func isMagic(t types.Type) bool { return wireName(t) == "Magic" }

// origins: where a value comes from, followed through conversions, phis, tuples, local
// variables and the results of functions of the module.
func origins(v ssa.Value, seen map[ssa.Value]bool, leaf func(ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Convert:
		origins(i.X, seen, leaf)
	case *ssa.ChangeType:
		origins(i.X, seen, leaf)
	case *ssa.ChangeInterface:
		origins(i.X, seen, leaf)
	case *ssa.MakeInterface:
		origins(i.X, seen, leaf)
	case *ssa.Phi:
		for _, e := range i.Edges {
			origins(e, seen, leaf)
		}
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) && !seen[c] {
				for _, b := range f.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i.Index < len(rt.Results) {
						origins(rt.Results[i.Index], seen, leaf)
					}
				}
				return
			}
		}
		leaf(v)
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil && f.Blocks != nil && inModule(f) && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					origins(rt.Results[0], seen, leaf)
				}
			}
			return
		}
		leaf(v)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if al, ok := i.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						origins(st.Val, seen, leaf)
					}
				}
				return
			}
			if fv, ok := i.X.(*ssa.FreeVar); ok {
				origins(fv, seen, leaf)
				return
			}
		}
		leaf(v)
	case *ssa.FreeVar:
		// the variable captured
		fn := i.Parent()
		idx := -1
		for k, f := range fn.FreeVars {
			if f == i {
				idx = k
			}
		}
		if fn.Parent() != nil {
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						bv := mc.Bindings[idx]
						if al, ok := bv.(*ssa.Alloc); ok {
							for _, ref := range *al.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
									origins(st.Val, seen, leaf)
								}
							}
						} else {
							origins(bv, seen, leaf)
						}
					}
				}
			}
		}
	default:
		leaf(v)
	}
}

func inModule(f *ssa.Function) bool { return strings.HasPrefix(pkgPathOf(f), modPath) }

// loadedField: the field a value is read from.
func loadedField(v ssa.Value) (owner types.Type, name string) {
	switch i := v.(type) {
	case *ssa.UnOp:
		if fa, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
			t := pointee(fa.X.Type())
			return t, structOf(t).Field(fa.Field).Name()
		}
	case *ssa.Field:
		return i.X.Type(), structOf(i.X.Type()).Field(i.Field).Name()
	}
	return nil, ""
}

// networkSource: "" if the value is the configured network: the Network field of the node,
// or the entry of the table of networks for the configured name.
func networkSource(v ssa.Value) string {
	why := ""
	n := 0
	origins(v, map[ssa.Value]bool{}, func(l ssa.Value) {
		n++
		if pr, ok := l.(*ssa.Parameter); ok && isMagic(pr.Type()) {
			return // the callers are examined
		}
		if _, f := loadedField(l); f == "Network" {
			return
		}
		if lk := lookupOf(l); lk != nil {
			if g := globalOf(lk.X); g != nil && g.Name() == "Networks" {
				bad := ""
				origins(lk.Index, map[ssa.Value]bool{}, func(k ssa.Value) {
					if _, f := loadedField(k); f != "Network" {
						if _, isP := k.(*ssa.Parameter); !isP {
							bad = "the name looked up in the table of networks is " + k.String() + ", not the configured one"
						}
					}
				})
				if bad != "" {
					why = bad
				}
				return
			}
		}
		if c, ok := l.(*ssa.Const); ok && c.Value == nil {
			return // with an error
		}
		why = "the network is " + l.String() + " instead of the configured one"
	})
	if n == 0 && why == "" {
		why = "the network has no known source"
	}
	return why
}

// networkSetting: "" if the name is what the configuration holds as the network.
func (p *Prog) networkSetting(v ssa.Value) string {
	key := p.constVal("internal/config", "NetworkKey")
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Convert:
			return walk(i.X)
		case *ssa.ChangeType:
			return walk(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				if w := walk(e); w != "" {
					return w
				}
			}
			return ""
		case *ssa.Call:
			f := i.Call.StaticCallee()
			if f == nil || f.Blocks == nil || !inModule(f) {
				break
			}
			if rel(pkgPathOf(f)) == "internal/config" && len(i.Call.Args) == 1 {
				if c, ok := i.Call.Args[0].(*ssa.Const); ok && c.Value != nil && key != nil {
					if c.Value.Kind() == key.Kind() && constant.Compare(c.Value, token.EQL, key) {
						return ""
					}
					return "the network of the daemon is the setting " + c.Value.String()
				}
			}
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					if w := walk(rt.Results[0]); w != "" {
						return w
					}
				}
			}
			return ""
		case *ssa.UnOp:
			if al, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if w := walk(st.Val); w != "" {
							return w
						}
					}
				}
				return ""
			}
			if _, f := loadedField(v); f == "Network" {
				return ""
			}
		case *ssa.Field:
			if _, f := loadedField(v); f == "Network" {
				return ""
			}
		case *ssa.Parameter:
			any := false
			for _, c := range p.callsTo(i.Parent()) {
				for k, pr := range i.Parent().Params {
					if pr == i && k < len(c.Common().Args) {
						any = true
						if w := walk(c.Common().Args[k]); w != "" {
							return w
						}
					}
				}
			}
			if any {
				return ""
			}
		}
		return "the network of the daemon is " + v.String() + ", not the one of the configuration"
	}
	return walk(v)
}

// callsTo: the static calls of a function.
func (p *Prog) callsTo(f *ssa.Function) (cs []ssa.CallInstruction) {
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
			cs = append(cs, c)
		}
	})
	return
}

func lookupOf(v ssa.Value) *ssa.Lookup {
	switch i := v.(type) {
	case *ssa.Lookup:
		return i
	case *ssa.Extract:
		if lk, ok := i.Tuple.(*ssa.Lookup); ok && i.Index == 0 {
			return lk
		}
	}
	return nil
}

func globalOf(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	g, _ := v.(*ssa.Global)
	return g
}

func testOnly(f *ssa.Function) bool { return strings.Contains(pkgPathOf(f), "/testutil") }

func checkN03(p *Prog, r *Report) {
	r.rule("network", "every message is made for the configured network")
	r.rule("field", "the network of the node is the one configured, and an unknown name is refused")
	r.rule("genesis", "the genesis block used is that of the configured network")
	r.rule("envelope", "the header of a message carries the network given, and length and checksum of its payload")
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if testOnly(fn) {
			return
		}
		switch i := in.(type) {
		case ssa.CallInstruction:
			c := i.Common()
			sig := c.Signature()
			off := 0
			if t := c.StaticCallee(); t != nil {
				if t.Signature.Recv() != nil {
					off = 1
				}
				if pkgPathOf(t) == "" || !strings.HasPrefix(pkgPathOf(t), modPath) {
					return
				}
			} else {
				return
			}
			for k := 0; k < sig.Params().Len(); k++ {
				if !isMagic(sig.Params().At(k).Type()) || k+off >= len(c.Args) {
					continue
				}
				name := c.StaticCallee().Name()
				why := networkSource(c.Args[k+off])
				r.check(why == "", "network", fname(fn)+": "+name, in.Pos(), nil, "%s", why)
			}
		case *ssa.Store:
			fa, ok := i.Addr.(*ssa.FieldAddr)
			if !ok || structOf(pointee(fa.X.Type())).Field(fa.Field).Name() != "Network" {
				return
			}
			if strings.HasPrefix(rel(pkgPathOf(fn)), "cmd/neutrinod") {
				why := p.networkSetting(i.Val)
				r.check(why == "", "field", fname(fn)+": the daemon's network", in.Pos(), nil, "%s", why)
			}
			if rel(pkgPathOf(fn)) != "pkg/node" {
				return
			}
			if isMagic(i.Val.Type()) {
				why := networkSource(i.Val)
				r.check(why == "", "field", fname(fn)+": node.Network", in.Pos(), nil, "%s", why)
				// the lookup must be with ok, and not ok refused
				origins(i.Val, map[ssa.Value]bool{}, func(l ssa.Value) {
					if lk := lookupOf(l); lk != nil {
						r.check(lk.CommaOk, "field", fname(fn)+": unknown network", in.Pos(), nil, "a name that is not in the table of networks is not noticed")
					}
				})
			}
		}
	})
	// an unknown network is refused
	n := 0
	for _, fn := range p.Funcs {
		if testOnly(fn) || rel(pkgPathOf(fn)) != "pkg/node" || !hasErrResult(fn) {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if lk, ok := in.(*ssa.Lookup); ok && lk.CommaOk {
					if g := globalOf(lk.X); g != nil && g.Name() == "Networks" {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		n++
		x := newExec(p)
		short := fname(fn)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return smallHelper(f) }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			if _, ok := successFacts(st, ev.args); !ok {
				return
			}
			found := st.flag("known")
			r.check(found, "field", short+": unknown network", ev.instr.Pos(), st.path(10), "an unknown network is not refused")
		}
		on := x.on
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind == EvBranch {
				q := ev.addr.find(func(y *Term) bool {
					return y.k == KExtract && y.idx == 1 && y.args[0].has(func(z *Term) bool { return z.k == KGlobal && z.val.Name() == "Networks" })
				})
				if q != nil && knownTrue(st, q, true) {
					st.set("known")
				}
			}
			on(x, st, ev)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("the lookup of the configured network in the table of networks")
	}
	checkGenesis(p, r)
	take(p, r, checkW06, map[string]string{"networks.": "network"})
	if pr := p.pkg("pkg/protocol"); pr != nil {
		checkEnvelope(p, r, pr)
	}
	r.need("network", 6)
	r.need("field", 2)
	r.need("genesis", 2)
	r.need("envelope", 3)
}

// checkGenesis: uses of the checkpoints take the one at height 0, of the configured network;
// what the scanner and the synchronisation start from is such a checkpoint.
func checkGenesis(p *Prog, r *Report) {
	isGenesis := func(v ssa.Value) string {
		// NewHashFromStr(GetCheckpoints(net)[0])#0
		why := "no genesis block of a network"
		n := 0
		origins(v, map[ssa.Value]bool{}, func(l ssa.Value) {
			n++
			if c, ok := l.(*ssa.Const); ok && c.Value == nil {
				return
			}
			ex, ok := l.(*ssa.Extract)
			if !ok {
				why = "it is " + l.String()
				n = -1 << 20
				return
			}
			c, ok := ex.Tuple.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "NewHashFromStr" {
				why = "it is " + l.String()
				n = -1 << 20
				return
			}
			origins(c.Call.Args[0], map[ssa.Value]bool{}, func(s ssa.Value) {
				lk := lookupOf(s)
				if lk == nil {
					why = "it is the hash " + s.String()
					n = -1 << 20
					return
				}
				k, isC := lk.Index.(*ssa.Const)
				if !isC || k.Value == nil || k.Int64() != 0 {
					why = "it is not the checkpoint at height 0"
					n = -1 << 20
					return
				}
				cp, ok := lk.X.(*ssa.Call)
				if !ok || cp.Call.StaticCallee() == nil || cp.Call.StaticCallee().Name() != "GetCheckpoints" {
					why = "it is not a checkpoint"
					n = -1 << 20
				}
				// the network is examined at the call
			})
		})
		if n > 0 {
			return ""
		}
		return why
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if testOnly(fn) {
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			t := c.Common().StaticCallee()
			if t == nil || !strings.HasPrefix(pkgPathOf(t), modPath) {
				return
			}
			for k := 0; k < t.Signature.Params().Len(); k++ {
				q := t.Signature.Params().At(k)
				if strings.HasSuffix(q.Type().String(), "chainhash.Hash") && strings.Contains(strings.ToLower(q.Name()), "genesis") {
					off := 0
					if t.Signature.Recv() != nil {
						off = 1
					}
					why := isGenesis(c.Common().Args[k+off])
					r.check(why == "", "genesis", fname(fn)+": "+t.Name(), in.Pos(), nil, "scanning does not start from the genesis block of the configured network: %s", why)
				}
			}
		}
		// elements of a block locator made here
		if s, ok := in.(*ssa.Store); ok && rel(pkgPathOf(fn)) == "pkg/node" {
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(s.Val.Type().String(), "chainhash.Hash") {
				return
			}
			_ = ia
			why := isGenesis(s.Val)
			r.check(why == "", "genesis", fname(fn)+": first locator", in.Pos(), nil, "synchronising does not start from the genesis block of the configured network: %s", why)
		}
	})
}
