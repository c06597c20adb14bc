package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("R02", checkR02) }

const (
	errNoHeaders = "pkg/repository.ErrNoBlocksHeaders"
	errNoBlock   = "pkg/repository.ErrBlockNotFound"
	errNoFilter  = "pkg/repository.ErrFilterNotFound"
)

type repoRead struct {
	iface, name string
	errs        []string // the errors it distinguishes
	absent      string   // the one for a key that is absent
}

var repoReads = []repoRead{
	{"BlockHeaderRepository", "ChainTip", []string{errNoHeaders}, errNoHeaders},
	{"BlockHeaderRepository", "GetBlockHeader", []string{errNoBlock}, errNoBlock},
	{"BlockHeaderRepository", "GetBlockHashByHeight", []string{errNoBlock}, errNoBlock},
	{"BlockHeaderRepository", "LatestBlockLocator", []string{errNoHeaders, errNoBlock}, ""},
	{"BlockHeaderRepository", "HasAllAncestors", []string{errNoHeaders, errNoBlock}, ""},
	{"FilterRepository", "GetFilter", []string{errNoFilter}, errNoFilter},
}

func checkR02(p *Prog, r *Report) {
	r.rule("errors", "every implementation of an operation reports the same distinguished errors")
	r.rule("absent", "what is absent is reported with the operation's distinguished error, unwrapped")
	r.rule("value", "success comes with a value")
	r.rule("consumers", "callers test for an error that the operation can report")
	table := map[string][]string{}
	for _, rd := range repoReads {
		table[rd.name] = rd.errs
		fns := repoMethods(p, rd.iface, rd.name)
		if len(fns) < 2 {
			r.anchorLost("the implementations of " + rd.iface + "." + rd.name)
		}
		for _, fn := range fns {
			checkRead(p, r, fn, rd)
		}
	}
	n := 0
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if testOnly(fn) {
			return
		}
		var g *ssa.Global
		var other ssa.Value
		is := false
		switch i := in.(type) {
		case *ssa.BinOp:
			if i.Op != token.EQL && i.Op != token.NEQ {
				return
			}
			if g = globalOf(i.X); g != nil {
				other = i.Y
			} else if g = globalOf(i.Y); g != nil {
				other = i.X
			}
		case *ssa.Call:
			if f := i.Call.StaticCallee(); f == nil || f.RelString(nil) != "errors.Is" {
				return
			}
			is = true
			g, other = globalOf(i.Call.Args[1]), i.Call.Args[0]
		}
		if g == nil || g.Pkg == nil {
			return
		}
		name := rel(g.Pkg.Pkg.Path()) + "." + g.Name()
		if name != errNoHeaders && name != errNoBlock && name != errNoFilter {
			return
		}
		n++
		can, calls := false, []string{}
		errSources(other, is, map[ssa.Value]bool{}, func(src string) {
			if src == name {
				can = true
			}
			calls = append(calls, src)
			for _, e := range table[src] {
				if e == name {
					can = true
				}
			}
		})
		sort.Strings(calls)
		r.check(can, "consumers", fname(fn)+": "+g.Name(), in.Pos(), nil, "the error is tested for %s, but comes from %s", g.Name(), strings.Join(calls, ", "))
	})
	if n < 3 {
		r.anchorLost("the tests for the errors of the repositories")
	}
	r.need("errors", 12)
	r.need("consumers", 3)
}

// errSources: the operations of the repositories (by name) and the errors an error comes from.
func errSources(v ssa.Value, wrapped bool, seen map[ssa.Value]bool, f func(string)) {
	origins(v, seen, func(l ssa.Value) {
		if g := globalOf(l); g != nil && g.Pkg != nil {
			f(rel(g.Pkg.Pkg.Path()) + "." + g.Name())
			return
		}
		if e, ok := l.(*ssa.Extract); ok {
			l = e.Tuple
		}
		c, ok := l.(*ssa.Call)
		if !ok {
			return
		}
		if c.Call.IsInvoke() {
			f(c.Call.Method.Name())
			return
		}
		t := c.Call.StaticCallee()
		if t == nil {
			return
		}
		if wrapped && t.RelString(nil) == "fmt.Errorf" {
			// the errors it wraps
			for _, a := range c.Call.Args {
				if s, ok := a.(*ssa.Slice); ok {
					if al, ok := s.X.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if ia, ok := ref.(*ssa.IndexAddr); ok {
								for _, rr := range *ia.Referrers() {
									if st, ok := rr.(*ssa.Store); ok {
										errSources(st.Val, wrapped, seen, f)
									}
								}
							}
						}
					}
				}
			}
			return
		}
		f(fname(t))
	})
}

// isRow: a read of a single row, which fails with sql.ErrNoRows if there is none.
func isRow(t *Term) bool {
	if t.k == KExtract {
		t = t.args[0]
	}
	if t.k != KCall || len(t.args) == 0 || !strings.Contains(t.op, "sql") {
		return false
	}
	switch t.op[strings.LastIndex(t.op, ".")+1:] {
	case "Get", "GetContext", "Scan", "StructScan":
		return true
	}
	return false
}

// knownErr: what is known of an error being the named one.
func (f Facts) knownErr(e *Term, name string) (is, known bool) {
	for t, v := range f {
		var a, b *Term
		if t.k == KBin && t.op == "==" {
			a, b = t.args[0], t.args[1]
		} else if t.k == KCall && t.op == "errors.Is" && len(t.args) >= 2 {
			a, b = stripIface(t.args[0]), stripIface(t.args[1])
		} else {
			continue
		}
		if b == e {
			a, b = b, a
		}
		if a == e && sentinelName(b) == name {
			return v, true
		}
	}
	return
}

func checkRead(p *Prog, r *Report, fn *ssa.Function, rd repoRead) {
	x := newExec(p)
	repoEnv(p, x, fn)
	short := fname(fn)
	got := map[string]token.Pos{}
	wrong := func(s string) bool {
		for _, e := range rd.errs {
			if e == s {
				return false
			}
		}
		return true
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvResult:
			if e := errOf(ev.res); e != nil && !neverFails(ev.op) && !makesError(ev.op) {
				st.add(Atom{name: "failed", a: e})
			}
		case EvBranch:
			for _, a := range st.all("failed") {
				if errNil(st.facts, a.a) {
					st.del(a)
				}
			}
			// a loop over a map that holds something runs at least once
			h := ev.instr.Block()
			if _, ok := nextOf(h); ok && p.loop(h.Parent()).header[h] {
				m := ev.addr.find(func(y *Term) bool { return y.k == KNext })
				b, _ := ev.val.isBool()
				key := "entered"
				if m == nil || len(m.args) == 0 {
					return
				}
				rg := m.args[0]
				if rg.k == KRange && len(rg.args) > 0 {
					rg = rg.args[0]
				}
				if b {
					st.set(key)
				} else if !st.flag(key) {
					if v, k := st.facts.eval(mkBin(token.EQL, x.lenOf(st, rg), cInt(0, types.Typ[types.Int]), nil)); k && !v {
						ev.prune = true
					}
				}
			}
		case EvReturn:
			e := ev.args[len(ev.args)-1]
			if s := sentinelName(e); s != "" {
				got[s] = ev.instr.Pos()
				r.check(!wrong(s), "errors", short+": "+s[strings.LastIndex(s, ".")+1:], ev.instr.Pos(), st.path(12), "the operation reports %s, which its callers don't expect of it", s)
				for _, a := range st.all("failed") {
					is, known := st.facts.knownErr(a.a, "database/sql.ErrNoRows")
					r.check(known && is, "absent", short+": failure", ev.instr.Pos(), st.path(12), "a failure is reported as if what was asked for were absent")
				}
			} else if _, ok := successFacts(st, ev.args); !ok || !e.isNil() {
				// another failure
				y := findReach(x, e, func(y *Term) bool { s := sentinelName(y); return strings.HasPrefix(s, "pkg/repository.Err") })
				r.check(y == nil, "absent", short+": wrapped", ev.instr.Pos(), st.path(12), "a distinguished error is wrapped, so that callers that compare it miss it")
				if row := findReach(x, e, isRow); row != nil {
					is, known := st.facts.knownErr(row, "database/sql.ErrNoRows")
					r.check(known && !is, "absent", short+": no rows", ev.instr.Pos(), st.path(12), "an absent row is not told from a failure of the database")
				}
			}
			// what is known to be absent
			gone := false
			for t, v := range st.facts {
				if v && t.k == KBin && t.op == "==" {
					for i := range t.args {
						if sentinelName(t.args[i]) == "database/sql.ErrNoRows" && isRow(t.args[1-i]) {
							gone = true
						}
					}
				}
				if v && t.k == KCall && t.op == "errors.Is" && sentinelName(t.args[1]) == "database/sql.ErrNoRows" {
					gone = true
				}
				if !v && rd.absent != "" && t.k == KExtract && t.idx == 1 && t.args[0].k == KLookup && isStored(t.args[0].args[0].typ) && t.args[0].args[1].has(func(y *Term) bool { return y.k == KParam }) {
					gone = true
				}
			}
			if gone {
				s := sentinelName(e)
				r.check(s != "" && !wrong(s), "absent", short, ev.instr.Pos(), st.path(12), "what is absent is not reported as such")
			}
			f, ok := successFacts(st, ev.args)
			if !ok || len(ev.args) < 2 {
				return
			}
			v := stripIface(ev.args[0])
			if v.typ != nil {
				if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					return
				}
			}
			bad := v.isNil()
			if !bad {
				if z, k := f.eval(mkBin(token.EQL, v, cNil(nil), nil)); k && z {
					bad = true
				}
			}
			if y := v; !bad && y.k == KLookup || y.k == KExtract && y.idx == 0 && y.args[0].k == KLookup {
				l := y
				if y.k == KExtract {
					l = y.args[0]
				}
				found, k := f.eval(mkExtract(l, 1, types.Typ[types.Bool]))
				bad = !(k && found) && !f.nonNil(y)
			}
			if y := v; y.k == KPhi || y.k == KUnk {
				// the best of a loop: some iteration set it
				bad = bad || !st.flag("entered") && !f.nonNil(y)
			}
			for _, a := range st.all("failed") {
				bad = bad || !errNil(f, a.a)
			}
			r.check(!bad, "value", short, ev.instr.Pos(), st.path(12), "success is reported without a value")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	for _, s := range rd.errs {
		if _, ok := got[s]; !ok {
			r.bad("errors", short+": "+s[strings.LastIndex(s, ".")+1:], fn.Pos(), nil, "the operation never reports %s, as its other implementations do", s)
		} else {
			r.ok("errors", short+": reports "+s[strings.LastIndex(s, ".")+1:], fn.Pos())
		}
	}
}

func findReach(x *Exec, t *Term, pred func(*Term) bool) (res *Term) {
	x.reaches(t, func(y *Term) bool {
		if pred(y) {
			res = y
			return true
		}
		return false
	})
	return
}
