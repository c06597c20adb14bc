package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A08", checkA08) }

// kinds: the declared constants of the type.
func (p *Prog) kinds(n *types.Named) []constant.Value {
	var res []constant.Value
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			dup := false
			for _, v := range res {
				dup = dup || constant.Compare(v, token.EQL, c.Val())
			}
			if !dup {
				res = append(res, c.Val())
			}
		}
	}
	return res
}

// staticTable: what a map variable of a package holds that is filled when the program starts and
// never changed later.
func (p *Prog) staticTable(g *ssa.Global) (map[string]*ssa.Const, bool) {
	res := map[string]*ssa.Const{}
	for _, f := range p.Funcs {
		var made ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == ssa.Value(g) {
						if f.Name() != "init" || made != nil {
							return nil, false
						}
						made = in.Val
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						return nil, false
					}
				}
			}
		}
		if made == nil {
			continue
		}
		m, ok := made.(*ssa.MakeMap)
		if !ok {
			return nil, false
		}
		for _, u := range *m.Referrers() {
			switch u := u.(type) {
			case *ssa.MapUpdate:
				k, ok1 := u.Key.(*ssa.Const)
				v, ok2 := u.Value.(*ssa.Const)
				if !ok1 || !ok2 || u.Map != ssa.Value(m) {
					return nil, false
				}
				res[k.Value.ExactString()] = v
			case *ssa.Store:
				if u.Addr != ssa.Value(g) {
					return nil, false
				}
			case *ssa.DebugRef:
			default:
				return nil, false
			}
		}
	}
	return res, len(res) > 0
}

// lookedUp: the entry of a table filled at the start that the term is about.
func (p *Prog) lookedUp(t *Term) (g *ssa.Global, key *Term, ok bool) {
	if t.k == KExtract {
		t = t.args[0]
	}
	if t.k != KLookup || t.args[0].k != KLoad || t.args[0].args[0].k != KGlobal {
		return nil, nil, false
	}
	g, ok = t.args[0].args[0].val.(*ssa.Global)
	return g, t.args[1], ok
}

type kindTable struct {
	fn       *ssa.Function
	from, to *types.Named
	m        map[string]constant.Value // by exact string of the constant
}

// namedKind: a type of the module with declared constants.
func (p *Prog) namedKind(t types.Type) *types.Named {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || p.ByP[n.Obj().Pkg().Path()] == nil || len(p.kinds(n)) == 0 {
		return nil
	}
	return n
}

func checkA08(p *Prog, r *Report) {
	r.rule("translated", "every kind of the API translates to one of the scanner and back to itself")
	r.rule("refused", "what is no declared kind is refused with an error")
	r.rule("used", "a translation is used only if there is one")
	r.rule("watched", "an item is watched for the kind of event asked for, which is the one it is reported as")
	r.rule("delivered", "the kind of an event delivered is that of the item reported")
	var tabs []*kindTable
	for _, fn := range p.Funcs {
		s := fn.Signature
		if rel(pkgPathOf(fn)) != "pkg/neutrinod-types" || s.Params().Len() != 1 || s.Results().Len() != 2 || !token.IsExported(fn.Name()) || !hasErrResult(fn) {
			continue
		}
		from, to := p.namedKind(s.Params().At(0).Type()), p.namedKind(s.Results().At(0).Type())
		if from != nil && to != nil && from != to {
			tabs = append(tabs, &kindTable{fn: fn, from: from, to: to})
		}
	}
	if len(tabs) < 2 {
		r.anchorLost("the translations between the kinds of events of the API and the scanner")
		return
	}
	for _, t := range tabs {
		p.readTable(r, t)
	}
	for _, t := range tabs {
		api := strings.HasSuffix(t.from.Obj().Pkg().Path(), "neutrinod-types")
		for _, c := range p.kinds(t.from) {
			short := fname(t.fn) + ": " + c.ExactString()
			v := t.m[c.ExactString()]
			if v == nil {
				r.check(!api, "translated", short, t.fn.Pos(), nil, "a declared kind is refused")
				continue
			}
			declared := false
			for _, d := range p.kinds(t.to) {
				declared = declared || constant.Compare(d, token.EQL, v)
			}
			r.check(declared, "translated", short, t.fn.Pos(), nil, "the kind is translated to %s, which is none", v)
			for _, u := range tabs {
				if u.from == t.to && u.to == t.from {
					back := u.m[v.ExactString()]
					r.check(back != nil && constant.Compare(back, token.EQL, c), "translated", short+" and back", t.fn.Pos(), nil, "the kind is translated to %s, and that to %v", v, back)
				}
			}
		}
	}
	fns := map[*ssa.Function]bool{}
	for _, t := range tabs {
		fns[t.fn] = true
	}
	for _, fn := range p.Funcs {
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				uses = uses || callsOne(in, fns)
			}
		}
		if uses && !fns[fn] && !testOnly(fn) {
			checkTranslationUsed(p, r, fn, fns)
		}
	}
	// what other properties decide about the same kinds
	take(p, r, checkWalletOf, map[string]string{"event": "watched", "all": "watched"})
	take(p, r, checkItems, map[string]string{"match.": "watched"})
	take(p, r, checkEvents, map[string]string{"EventType": "delivered"})
	take(p, r, checkResponses, map[string]string{"response kind": "delivered", "response unknown kind": "delivered"})
	r.need("translated", 6)
	r.need("refused", 2)
	r.need("used", 1)
	r.need("watched", 1)
	r.need("delivered", 2)
}

// take: the obligations of another property whose constructs end with one of the names, or are of
// a rule (name with a dot).
func take(p *Prog, r *Report, f func(*Prog, *Report), names map[string]string) {
	sub := newReport(r.prop, p)
	f(p, sub)
	for rule, m := range sub.obl {
		for c := range m {
			b := sub.bads[rule+"|"+c]
			if rule == "anchor" || rule == "analysis" {
				if b != nil {
					r.bads[rule+"|"+c] = b
					r.ok(rule, c, token.NoPos)
				}
				continue
			}
			for n, to := range names {
				if n != rule+"." && !strings.HasSuffix(c, ": "+n) {
					continue
				}
				if r.obl[to] == nil {
					r.obl[to] = map[string]string{}
				}
				r.obl[to][c] = m[c]
				if b != nil {
					nb := *b
					nb.rule = to
					r.bads[to+"|"+c] = &nb
				}
			}
		}
	}
	r.stats.roots += sub.stats.roots
	r.stats.steps += sub.stats.steps
	r.stats.paths += sub.stats.paths
	r.stats.blocks += sub.stats.blocks
	for f := range sub.fns {
		r.fns[f] = true
	}
}

// readTable runs the translation on every declared kind, and on something that is none of them.
func (p *Prog) readTable(r *Report, t *kindTable) {
	t.m = map[string]constant.Value{}
	short := fname(t.fn)
	kinds := p.kinds(t.from)
	declared := func(c *Term) bool {
		for _, k := range kinds {
			if c.cst != nil && c.k == KConst && c.cst.Kind() == k.Kind() && constant.Compare(c.cst, token.EQL, k) {
				return true
			}
		}
		return false
	}
	run := func(arg *Term, ret func(st *State, ev *Event)) {
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inModule(f) }
		x.pure = func(op string) bool { return true }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvBranch:
				// entries of tables filled at the start
				cond := ev.addr
				taken, isB := ev.val.isBool()
				if !isB {
					return
				}
				for cond.k == KUn && cond.op == "!" {
					cond, taken = cond.args[0], !taken
				}
				if g, key, ok := p.lookedUp(cond); ok && cond.k == KExtract && cond.idx == 1 {
					tab, ok := p.staticTable(g)
					if !ok {
						return
					}
					key = unconv(key)
					want := false
					if key.k == KConst {
						want = tab[key.cst.ExactString()] != nil
					} else {
						for k := range tab {
							known := false
							for _, d := range kinds {
								known = known || d.ExactString() == k
							}
							want = want || !known
						}
						if want {
							return
						}
					}
					ev.prune = taken != want
				}
				if arg.k == KConst {
					return
				}
				if c := cond; c.k == KBin && (c.op == "==" || c.op == "!=") {
					for i := range c.args {
						if unconv(c.args[i]) == arg && declared(unconv(c.args[1-i])) {
							ev.prune = ev.prune || taken == (c.op == "==")
						}
					}
				}
			case EvReturn:
				if len(st.frames) <= 1 {
					ret(st, ev)
				}
			}
		}
		err := x.run(t.fn, rootOpt{args: []*Term{arg}})
		r.ran(x, short, err)
	}
	for _, c := range kinds {
		c := c
		cs := short + ": " + c.ExactString()
		arg := tt.mk(Term{k: KConst, cst: c, typ: t.from})
		run(arg, func(st *State, ev *Event) {
			_, ok := successFacts(st, ev.args)
			if !ok {
				return
			}
			v := unconv(ev.args[0])
			if g, key, is := p.lookedUp(v); is {
				if tab, ok := p.staticTable(g); ok && key.k == KConst && tab[key.cst.ExactString()] != nil {
					v = tt.mk(Term{k: KConst, cst: tab[key.cst.ExactString()].Value, typ: t.to})
				}
			}
			if v.k != KConst || v.cst == nil {
				r.bad("translated", cs, t.fn.Pos(), st.path(8), "the kind is translated to %s", v)
				return
			}
			old := t.m[c.ExactString()]
			r.check(old == nil || constant.Compare(old, token.EQL, v.cst), "translated", cs+" always", t.fn.Pos(), st.path(8), "the kind is translated to both %v and %s", old, v)
			t.m[c.ExactString()] = v.cst
		})
	}
	arg := tt.mk(Term{k: KParam, val: t.fn.Params[0], typ: t.fn.Params[0].Type(), idx: 0})
	run(arg, func(st *State, ev *Event) {
		_, ok := successFacts(st, ev.args)
		r.check(!ok, "refused", short+": unknown", t.fn.Pos(), st.path(8), "what is no declared kind may be translated to %s", ev.args[0])
	})
}

// checkTranslationUsed: the result of a translation goes anywhere only when there was one.
func checkTranslationUsed(p *Prog, r *Report, fn *ssa.Function, fns map[*ssa.Function]bool) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return false }
	x.pure = func(op string) bool { return !strings.HasPrefix(op, "encoding/") }
	check := func(st *State, ev *Event, vs ...*Term) {
		for _, v := range vs {
			if v == nil {
				continue
			}
			y := v.find(func(t *Term) bool {
				return t.k == KExtract && t.idx == 0 && t.args[0].k == KCall && t.args[0].fn != nil && fns[t.args[0].fn]
			})
			if y == nil {
				continue
			}
			r.check(errNil(st.facts, errOf(y.args[0])), "used", short+": "+fname(y.args[0].fn), ev.instr.Pos(), st.path(12), "the result of a translation is used although it may have been refused")
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvStore, EvSend:
			check(st, ev, ev.val)
		case EvMapUpdate:
			check(st, ev, ev.key, ev.val)
		case EvCall, EvGo:
			if ev.fn == nil || !fns[ev.fn] {
				check(st, ev, ev.args...)
			}
		case EvReturn:
			if len(ev.args) > 0 && hasErrResult(fn) {
				if _, ok := successFacts(st, ev.args); !ok {
					return // returned together with the error
				}
			}
			check(st, ev, ev.args...)
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}
