package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("R01", checkR01) }

// repoMethods: the methods of that name of every repository of the module.
func repoMethods(p *Prog, iface, name string) (fns []*ssa.Function) {
	n := p.named("pkg/repository." + iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, t := range p.implementers(it) {
		if strings.Contains(t.String(), "/testutil") {
			continue
		}
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.SSA.MethodValue(ms.At(i)); f != nil {
					if f.Synthetic != "" && f.Blocks != nil {
						// a wrapper of a method declared on the value
						if d := declared(p, f); d != nil {
							f = d
						}
					}
					fns = append(fns, f)
				}
			}
		}
	}
	return
}

func declared(p *Prog, f *ssa.Function) *ssa.Function {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if t := c.Call.StaticCallee(); t != nil && t.Name() == f.Name() {
					return t
				}
			}
		}
	}
	return nil
}

// repoEnv follows the helpers of the repository's own package.
func repoEnv(p *Prog, x *Exec, fn *ssa.Function) {
	pkg := rel(pkgPathOf(fn))
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == pkg }
	x.pure = func(op string) bool {
		for _, s := range []string{"block.Header).Hash", "block.Header).Serialize", "chainhash.Hash).String", "FilterKey).String", "block.DeserializeHeader", "chainhash.NewHash", "bytes.NewBuffer", "bytes.NewReader", "bytes.Equal", "errors.As", "errors.Is", "fmt.Errorf"} {
			if strings.HasSuffix(op, s) {
				return true
			}
		}
		return false
	}
}

func isTx(t *Term) bool {
	t = stripIface(t)
	return t != nil && t.typ != nil && (strings.HasSuffix(t.typ.String(), "sqlx.Tx") || strings.HasSuffix(t.typ.String(), "sql.Tx"))
}

func isDB(t *Term) bool {
	t = stripIface(t)
	return t != nil && t.typ != nil && (strings.HasSuffix(t.typ.String(), "sqlx.DB") || strings.HasSuffix(t.typ.String(), "sql.DB") || isTx(t))
}

// dbOp: the last part of the name of a method of the database, its connection or a transaction.
func dbOp(ev *Event) string {
	if len(ev.args) == 0 || !isDB(ev.args[0]) {
		return ""
	}
	return ev.op[strings.LastIndex(ev.op, ".")+1:]
}

func isExec(op string) bool {
	switch op {
	case "Exec", "ExecContext", "NamedExec", "NamedExecContext", "MustExec", "MustExecContext":
		return true
	}
	return false
}

func isBegin(op string) bool {
	switch op {
	case "Begin", "BeginTx", "Beginx", "BeginTxx":
		return true
	}
	return false
}

// isStored: a map of the repository that holds stored records (told by the interface's values).
func isStored(t types.Type) bool {
	m := mapOf(t)
	if m == nil {
		return false
	}
	e := m.Elem()
	if p := pointee(e); p != nil {
		e = p
	}
	if isBlockHeader(e) {
		return true
	}
	if s, ok := e.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func checkR01(p *Prog, r *Report) {
	r.rule("committed", "success is reported only when all was written without error and the transaction was committed")
	r.rule("every-item", "every item given is written")
	r.rule("closed", "a transaction that was begun is committed or rolled back, however the operation ends")
	r.rule("reported", "a failure is reported unless the same content is stored already")
	r.rule("conflict", "an item is passed over only if it is stored already with the same content")
	n := 0
	for _, m := range [][2]string{{"BlockHeaderRepository", "WriteHeaders"}, {"FilterRepository", "PutFilter"}} {
		fns := repoMethods(p, m[0], m[1])
		for _, fn := range fns {
			n++
			checkWrite(p, r, fn)
		}
		if len(fns) < 2 {
			r.anchorLost("the implementations of " + m[0] + "." + m[1])
		}
	}
	r.need("committed", 4)
	r.need("every-item", 2)
	r.need("closed", 2)
}

func checkWrite(p *Prog, r *Report, fn *ssa.Function) {
	x := newExec(p)
	repoEnv(p, x, fn)
	short := fname(fn)
	var items *Term // the slice of items, nil for a single one
	for i, pr := range fn.Params {
		if s, ok := pr.Type().Underlying().(*types.Slice); ok && isBlockHeader(s.Elem()) {
			items = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	overItems := func(h *ssa.BasicBlock) bool {
		if items == nil {
			return false
		}
		body := p.loop(h.Parent()).body[h]
		for b := range body {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && isBlockHeader(s.Elem()) {
						return true
					}
				}
			}
		}
		return false
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvCall:
			op := dbOp(ev)
			if isExec(op) {
				if open := st.all("open"); len(open) > 0 {
					r.check(ev.args[0].contains(open[0].a), "committed", short+": in the transaction", ev.instr.Pos(), st.path(15), "the item is not written within the transaction")
				} else if x.inLoop(st) {
					r.bad("committed", short+": in the transaction", ev.instr.Pos(), st.path(15), "the items are not written within one transaction, so that a failure leaves some of them")
				}
				r.check(!strings.HasPrefix(op, "Must"), "reported", short+": panics", ev.instr.Pos(), nil, "%s panics on a failure", op)
				if items != nil {
					r.check(okConflict(p, x, st, ev, short, r), "conflict", short, ev.instr.Pos(), nil, "an item is passed over in the insert although something else may be stored (see R03 for the columns)")
				} else {
					r.check(okConflict(p, x, st, ev, short, r), "conflict", short, ev.instr.Pos(), nil, "the insert reports success without writing if something else is stored under the same key")
				}
			}
			if op == "Rollback" || op == "Commit" {
				for _, a := range st.all("open") {
					// the variable is captured by the function that rolls back: what a call makes of it is not known
					if y := stripIface(ev.args[0]); y.contains(a.a) || isTx(y) && !y.has(func(z *Term) bool { return z.k == KCall && z != a.a.args[0] }) {
						st.set("closed")
						if op == "Rollback" && !st.flag("committing") {
							st.set("rolled")
						}
						if op == "Commit" {
							st.set("committing")
						}
					}
				}
			}
		case EvResult:
			op := dbOp(ev)
			e := errOf(ev.res)
			if op == "Get" || op == "GetContext" || strings.HasSuffix(ev.op, ".GetFilter") {
				st.set("read")
			}
			switch {
			case isBegin(op):
				if e != nil {
					st.add(Atom{name: "failed", a: e})
				}
				st.add(Atom{name: "open", a: mkExtract(ev.res, 0, txType(ev.res)), b: e})
				st.unset("closed")
				st.unset("committing")
			case isExec(op):
				if e != nil {
					st.add(Atom{name: "exec", a: e})
				}
				st.set("written")
			case op == "Commit":
				r.check(!st.flag("rolled"), "committed", short+": commit", ev.instr.Pos(), st.path(15), "the transaction is committed after it was rolled back")
				if e == nil {
					e = ev.res
				}
				st.add(Atom{name: "commit", a: e})
			case op == "Rollback":
			case e != nil && !neverFails(ev.op) && !makesError(ev.op) && !strings.HasSuffix(ev.op, "bytes.Equal"):
				st.add(Atom{name: "failed", a: e})
			}
		case EvMapUpdate:
			if isStored(ev.addr.typ) && ev.addr.k != KMake {
				st.set("written")
			}
		case EvBranch:
			for _, a := range st.all("open") {
				if a.b != nil && !errNil(st.facts, a.b) {
					if v, k := st.facts.eval(mkBin(token.EQL, a.b, cNil(nil), nil)); k && !v {
						st.del(a) // not begun
					}
				}
			}
			for _, n := range []string{"failed", "exec", "commit"} {
				for _, a := range st.all(n) {
					if errNil(st.facts, a.a) {
						st.del(a)
						if n == "commit" {
							st.set("committed")
						}
					}
				}
			}
			ev.addr.has(func(y *Term) bool {
				if y.k == KCall && strings.HasSuffix(y.op, "bytes.Equal") && knownTrue(st, y, true) && sameContent(x, st, y) {
					st.set("same")
				}
				if y.k == KLookup && isStored(y.args[0].typ) && st.facts.nonNil(y) && hashed(y.args[1]) {
					st.set("written")
				}
				if y.k == KExtract && y.idx == 1 && y.args[0].k == KLookup && isStored(y.args[0].args[0].typ) && knownTrue(st, y, true) {
					// what is stored already, under the hash of its content
					if hashed(y.args[0].args[1]) {
						st.set("written")
					}
				}
				return false
			})
			if h := ev.instr.Block(); overItems(h) && p.loop(h.Parent()).header[h] {
				b, _ := ev.val.isBool()
				to := h.Succs[1]
				if b {
					to = h.Succs[0]
				}
				if p.loop(h.Parent()).body[h][to] {
					st.set("inside")
				} else {
					st.unset("inside")
				}
				st.set("looped")
			}
		case EvBack:
			if overItems(ev.frame.blk) {
				r.check(st.flag("written"), "every-item", short, ev.instr.Pos(), st.path(15), "an item is passed over without having been written")
				r.check(len(st.all("exec")) == 0, "reported", short+": item", ev.instr.Pos(), st.path(15), "an item could not be written, but the operation goes on")
				st.unset("written")
			}
		case EvReturn:
			f, ok := successFacts(st, ev.args)
			nOpen := len(st.all("open"))
			if nOpen > 0 {
				r.check(st.flag("closed"), "closed", short, ev.instr.Pos(), st.path(15), "the transaction is neither committed nor rolled back")
			}
			if !ok {
				return
			}
			for _, a := range st.all("commit") {
				if errNil(f, a.a) {
					st.set("committed")
				}
			}
			same := st.flag("same")
			r.check(nOpen == 0 || st.flag("committed") || same, "committed", short, ev.instr.Pos(), st.path(15), "success is reported although the transaction was not committed")
			for _, a := range st.all("exec") {
				if !errNil(f, a.a) {
					r.check(same, "reported", short+": write", ev.instr.Pos(), st.path(15), "success is reported although the write failed")
				}
			}
			for _, a := range st.all("failed") {
				if !errNil(f, a.a) {
					r.bad("reported", short+": failure", ev.instr.Pos(), st.path(15), "success is reported although an operation failed (%s)", a.a)
				}
			}
			if items != nil {
				r.check(st.flag("looped") && !st.flag("inside"), "every-item", short+": all", ev.instr.Pos(), st.path(15), "success is reported before every item was written")
			} else {
				r.check(st.flag("written"), "every-item", short, ev.instr.Pos(), st.path(15), "success is reported although nothing was written")
			}
		case EvPanic:
			r.bad("reported", short+": panics", ev.instr.Pos(), st.path(15), "the operation panics")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	// the loop covers all items
	if items != nil {
		n := 0
		p.sameCallees(fn, func(g *ssa.Function) {
			for h := range p.loop(g).header {
				if !overItems(h) {
					continue
				}
				n++
				why := loopCounter(g, h)
				if why == "" && !strings.Contains(loopBound(g, h), "len") {
					why = "its bound is not their number"
				}
				if why == "" {
					// of the whole slice
					for b := range p.loop(g).body[h] {
						for _, in := range b.Instrs {
							if ia, ok := in.(*ssa.IndexAddr); ok {
								if _, ok := ia.X.(*ssa.Slice); ok {
									if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && isBlockHeader(s.Elem()) {
										why = "it runs over a part of them"
									}
								}
							}
						}
					}
				}
				r.check(why == "", "every-item", short+": range", h.Instrs[0].Pos(), nil, "the loop does not run over all items: %s", why)
			}
		})
		if n == 0 {
			r.bad("every-item", short+": loop", fn.Pos(), nil, "there is no loop over the items")
		}
	}
}

// sameContent: the comparison is between what is stored under the key and what is to be stored.
func sameContent(x *Exec, st *State, y *Term) bool {
	given := func(t *Term) bool {
		o := fieldOwner(t, "NBytes")
		return o != nil && (o.k == KParam || o.k == KLoad && o.args[0].k == KParam)
	}
	stored := func(t *Term) bool { return !given(t) && st.flag("read") }
	a, b := y.args[0], y.args[1]
	return given(a) && stored(b) || given(b) && stored(a)
}

// okConflict: a conflict clause of an insert passes over only what has the same content.
func okConflict(p *Prog, x *Exec, st *State, ev *Event, short string, r *Report) bool {
	q := ""
	for _, a := range ev.args[1:] {
		if s, ok := a.isStr(); ok {
			q = s
			break
		}
	}
	s := parseSQL(q)
	if s == nil || s.kind != "insert" {
		return s != nil
	}
	if s.conflict == "" {
		return true
	}
	if s.conflict == "update" {
		// every other column is set to the new value
		for _, c := range s.cols {
			if c != s.target && s.sets[c] != "excluded."+c {
				return false
			}
		}
		return s.target != ""
	}
	// nothing: only if the key is the hash of the content
	return s.table == "block_header" && s.target == "hash"
}

// sameCallees: the function and those of its package that it calls.
func (p *Prog) sameCallees(fn *ssa.Function, f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] || pkgPathOf(g) != pkgPathOf(fn) {
			return
		}
		seen[g] = true
		f(g)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, c := range p.callees(in, false) {
					rec(c)
				}
			}
		}
	}
	rec(fn)
}

// sqlStmt is what the rules need to know of a statement.
type sqlStmt struct {
	kind     string // select, insert, other
	table    string
	all      bool     // select *
	cols     []string // columns selected or inserted
	vals     []string // values inserted
	where    [][2]string
	sub      *sqlStmt // height in (select max(height) from ...)
	agg      string   // max, min of a single column
	conflict string   // "", nothing, update
	target   string
	sets     map[string]string
	order    string
	limit    bool
	limited  bool
	bad      string
}

func sqlTokens(q string) []string {
	var toks []string
	q = strings.ToLower(strings.TrimSpace(q))
	cur := ""
	flush := func() {
		if cur != "" {
			toks = append(toks, cur)
			cur = ""
		}
	}
	for _, c := range q {
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			flush()
		case strings.ContainsRune("(),=<>", c):
			flush()
			toks = append(toks, string(c))
		case c == '"':
		default:
			cur += string(c)
		}
	}
	flush()
	return toks
}

// parseSQL understands the simple statements that the repositories need.
func parseSQL(q string) *sqlStmt {
	t := sqlTokens(q)
	if len(t) == 0 {
		return nil
	}
	s, rest := parseStmt(t)
	if s != nil && len(rest) > 0 {
		s.bad = "unexpected " + strings.Join(rest, " ")
	}
	return s
}

func parseStmt(t []string) (*sqlStmt, []string) {
	s := &sqlStmt{kind: t[0], sets: map[string]string{}}
	i := 1
	at := func(w string) bool { return i < len(t) && t[i] == w }
	next := func() string {
		if i < len(t) {
			i++
			return t[i-1]
		}
		s.bad = "the statement ends early"
		return ""
	}
	list := func() (r []string) {
		// ( a , b )
		next()
		for i < len(t) && !at(")") {
			v := next()
			if v != "," {
				r = append(r, v)
			}
		}
		next()
		return
	}
	switch s.kind {
	case "select":
		for i < len(t) && !at("from") {
			c := next()
			switch {
			case c == "*":
				s.all = true
			case c == ",":
			case (c == "max" || c == "min") && at("("):
				s.agg = c
				s.cols = append(s.cols, list()...)
			default:
				s.cols = append(s.cols, c)
			}
		}
		next()
		s.table = next()
		if at("where") {
			next()
			for {
				c := next()
				op := next()
				if op == "in" || at("(") {
					if at("(") {
						next()
					}
					depth, j := 1, i
					for j < len(t) && depth > 0 {
						if t[j] == "(" {
							depth++
						} else if t[j] == ")" {
							depth--
						}
						j++
					}
					if i < j-1 {
						s.sub, _ = parseStmt(t[i : j-1])
					}
					i = j
					s.where = append(s.where, [2]string{c, "(sub)"})
				} else if op == "=" {
					s.where = append(s.where, [2]string{c, next()})
				} else {
					s.bad = "condition " + c + " " + op
					next()
				}
				if at("and") {
					next()
					continue
				}
				break
			}
		}
		if at("order") {
			next()
			next()
			s.order = next()
			if at("desc") || at("asc") {
				s.order += " " + next()
			}
		}
		if at("limit") {
			next()
			s.limit = next() == "1"
			s.limited = true
		}
	case "insert":
		next() // into
		s.table = next()
		if at("(") {
			s.cols = list()
		}
		if next() != "values" {
			s.bad = "insert without values"
		}
		s.vals = list()
		if at("on") {
			next()
			next() // conflict
			if at("(") {
				if l := list(); len(l) == 1 {
					s.target = l[0]
				}
			}
			next() // do
			s.conflict = next()
			if s.conflict == "update" {
				next() // set
				for i < len(t) {
					c := next()
					next()
					s.sets[c] = next()
					if at(",") {
						next()
					} else {
						break
					}
				}
			}
		}
	default:
		s.bad = "a statement of another kind"
		return s, nil
	}
	return s, t[i:]
}

func txType(t *Term) types.Type {
	if tp, ok := t.typ.(*types.Tuple); ok {
		return tp.At(0).Type()
	}
	return t.typ
}

// hashed: the key is the hash of a header.
func hashed(t *Term) bool {
	return t.has(func(z *Term) bool { return z.k == KCall && strings.HasSuffix(z.op, ".Hash") })
}
