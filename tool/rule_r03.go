package main

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("R03", checkR03) }

// readSchema: table -> column -> type, in the order of the columns, from the migrations.
type sqlSchema struct {
	tables map[string]map[string]string
	order  map[string][]string
	unique map[string]map[string]bool
}

func readSchema(p *Prog) *sqlSchema {
	s := &sqlSchema{map[string]map[string]string{}, map[string][]string{}, map[string]map[string]bool{}}
	var files []string
	filepath.Walk(p.Repo, func(f string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(f, ".up.sql") && !strings.Contains(f, "/testdata/") {
			files = append(files, f)
		}
		return nil
	})
	sort.Strings(files)
	re := regexp.MustCompile(`(?is)create\s+table\s+(?:if\s+not\s+exists\s+)?"?(\w+)"?\s*\((.*?)\)\s*;`)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			t := strings.ToLower(m[1])
			s.tables[t] = map[string]string{}
			s.unique[t] = map[string]bool{}
			depth, cur := 0, ""
			var cols []string
			for _, c := range m[2] {
				switch {
				case c == '(':
					depth++
				case c == ')':
					depth--
				}
				if c == ',' && depth == 0 {
					cols = append(cols, cur)
					cur = ""
					continue
				}
				cur += string(c)
			}
			for _, c := range append(cols, cur) {
				w := strings.Fields(strings.ToLower(c))
				if len(w) < 2 || w[0] == "primary" || w[0] == "unique" || w[0] == "constraint" || w[0] == "foreign" {
					continue
				}
				name := strings.Trim(w[0], `"`)
				s.tables[t][name] = w[1]
				s.order[t] = append(s.order[t], name)
				rest := strings.Join(w[2:], " ")
				if strings.Contains(rest, "unique") || strings.Contains(rest, "primary key") {
					s.unique[t][name] = true
				}
			}
		}
	}
	return s
}

// fits: a value of the Go type can be stored in and read from a column of the type.
func fits(t types.Type, col string) bool {
	if e := pointee(t); e != nil {
		t = e
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return false
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte && strings.HasPrefix(col, "bytea")
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strings.HasPrefix(col, "varchar") || strings.HasPrefix(col, "text") || strings.HasPrefix(col, "char")
		case u.Info()&types.IsInteger != 0:
			if strings.HasPrefix(col, "smallint") || strings.HasPrefix(col, "int2") {
				return u.Kind() == types.Int8 || u.Kind() == types.Uint8 || u.Kind() == types.Int16
			}
			if strings.HasPrefix(col, "int") && (u.Kind() == types.Int8 || u.Kind() == types.Uint8 || u.Kind() == types.Int16 || u.Kind() == types.Uint16) {
				return false
			}
			return strings.Contains(col, "int")
		}
	}
	return true
}

// tagged: the fields of a record type by the column they are stored in.
func tagged(t types.Type) map[string]*types.Var {
	m := map[string]*types.Var{}
	for {
		if e := pointee(t); e != t {
			t = e
			continue
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
			continue
		}
		break
	}
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		tag := reflect.StructTag(s.Tag(i)).Get("db")
		if tag == "" {
			tag = strings.ToLower(s.Field(i).Name())
		}
		m[tag] = s.Field(i)
	}
	return m
}

func checkR03(p *Prog, r *Report) {
	r.rule("filed", "what is stored is stored under the hash, height or key of itself")
	r.rule("own-copy", "every stored record is a copy of its own")
	r.rule("lookup", "what is read is looked up by the key asked for and returned as stored")
	r.rule("tip", "the tip is the stored header of the greatest height")
	r.rule("ancestors", "all ancestors are stored when that is reported")
	r.rule("schema", "statements use the tables and columns of the schema, and records of matching types")
	r.rule("filter-key", "the key of a filter tells block and type apart")
	r.rule("received", "a received filter is stored under the block hash and type it came with")
	sc := readSchema(p)
	for _, m := range [][2]string{{"BlockHeaderRepository", "WriteHeaders"}, {"FilterRepository", "PutFilter"}} {
		for _, fn := range repoMethods(p, m[0], m[1]) {
			checkFiled(p, r, fn, sc)
		}
	}
	for _, rd := range repoReads {
		for _, fn := range repoMethods(p, rd.iface, rd.name) {
			checkLookup(p, r, fn, rd, sc)
		}
	}
	checkFilterKey(p, r)
	checkReceived(p, r)
	r.need("filed", 3)
	checkCollected(p, r, "lookup", inPkgs("internal/infrastructure"), "block.Header")
	r.need("lookup", 8)
	r.need("schema", 4)
	r.need("tip", 1)
	r.need("filter-key", 1)
	r.need("received", 1)
	r.need("ancestors", 4)
}

// hashOwner: the header a hash (or its text) was computed from.
func hashOwner(t *Term) *Term {
	for t != nil {
		switch {
		case t.k == KConv || t.k == KIface:
			t = t.args[0]
		case t.k == KExtract && t.idx == 0:
			t = t.args[0]
		case t.k == KCall && strings.HasSuffix(t.op, "chainhash.Hash).String"):
			t = t.args[0]
		case t.k == KCall && strings.HasSuffix(t.op, "block.Header).Hash"):
			return t.args[0]
		default:
			return nil
		}
	}
	return nil
}

func serialOwner(t *Term) *Term {
	t = stripIface(t)
	if t.k == KExtract && t.idx == 0 {
		t = t.args[0]
	}
	if t.k == KCall && strings.HasSuffix(t.op, "block.Header).Serialize") {
		return t.args[0]
	}
	return nil
}

// keyOf: the FilterKey a text was made from.
func keyOf(t *Term) *Term {
	t = stripIface(t)
	if t.k == KCall && strings.HasSuffix(t.op, "FilterKey).String") {
		return t.args[0]
	}
	return nil
}

// columnValues: the values an insert stores, by column.
func columnValues(x *Exec, st *State, ev *Event, s *sqlStmt) (map[string]*Term, string) {
	vals := map[string]*Term{}
	var args []*Term
	for i, a := range ev.args[1:] {
		if q, ok := a.isStr(); ok && strings.Contains(strings.ToLower(q), s.table) {
			args = ev.args[i+2:]
			break
		}
	}
	if len(s.vals) != len(s.cols) {
		return nil, "the number of columns and of values differ"
	}
	if len(args) == 1 {
		if es, ok := x.elems(st, args[0]); ok {
			args = es
		}
	}
	for i, c := range s.cols {
		v := s.vals[i]
		switch {
		case strings.HasPrefix(v, ":"):
			if len(args) == 0 {
				return nil, "no record is given"
			}
			rec := stripIface(args[0])
			f := tagged(rec.typ)[v[1:]]
			if f == nil {
				return nil, "the record has no field for " + v
			}
			vals[c] = x.fieldOf(st, rec, f.Name())
		case strings.HasPrefix(v, "$"):
			n := 0
			for _, d := range v[1:] {
				n = n*10 + int(d-'0')
			}
			if n < 1 || n > len(args) {
				return nil, "no argument is given for " + v
			}
			vals[c] = stripIface(args[n-1])
		default:
			return nil, "the value " + v + " is not a parameter"
		}
	}
	return vals, ""
}

func sqlOf(ev *Event) *sqlStmt {
	for _, a := range ev.args[1:] {
		if q, ok := stripIface(a).isStr(); ok {
			return parseSQL(q)
		}
	}
	return nil
}

func checkFiled(p *Prog, r *Report, fn *ssa.Function, sc *sqlSchema) {
	x := newExec(p)
	repoEnv(p, x, fn)
	short := fname(fn)
	same := func(st *State, a, b *Term) bool {
		if a == nil || b == nil {
			return false
		}
		return a == b || x.sameValue(st, a, b) || x.sameValue(st, b, a)
	}
	entryOf := func(st *State, t *Term) *Term {
		if o := fieldOwner(t, "NBytes"); o != nil {
			return o
		}
		return nil
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvMapUpdate:
			if !isStored(ev.addr.typ) || ev.addr.k == KMake {
				return
			}
			if mp := mapOf(ev.addr.typ); isBlockHeader(pointee(mp.Elem())) {
				o := hashOwner(ev.key)
				r.check(same(st, o, ev.val), "filed", short, ev.instr.Pos(), st.path(12), "%s is stored under %s", ev.val, ev.key)
				v := stripIface(ev.val)
				r.check(v.k != KAlloc || perIteration(p, v, ev.instr), "own-copy", short, ev.instr.Pos(), st.path(12), "every header is stored as the same variable")
			} else {
				k := keyOf(ev.key)
				if k == nil && ev.key.typ != nil && wireName(ev.key.typ) == "FilterKey" {
					k = ev.key
				}
				ko := fieldOwner2(k, "Key")
				vo := entryOf(st, stripCopy(ev.val))
				r.check(ko != nil && ko == vo, "filed", short, ev.instr.Pos(), st.path(12), "%s is stored under %s", ev.val, ev.key)
			}
		case EvCall:
			if !isExec(dbOp(ev)) {
				return
			}
			s := sqlOf(ev)
			if s == nil {
				r.bad("schema", short, ev.instr.Pos(), st.path(12), "the statement is not a constant that can be understood")
				return
			}
			checkSchema(r, s, sc, short, ev.instr.Pos())
			if s.kind != "insert" {
				return
			}
			vals, why := columnValues(x, st, ev, s)
			r.check(why == "", "schema", short+": values", ev.instr.Pos(), st.path(12), "%s", why)
			if why != "" {
				return
			}
			for c := range sc.tables[s.table] {
				r.check(vals[c] != nil, "filed", short+": "+c, ev.instr.Pos(), st.path(12), "the column %s is not stored", c)
				if vals[c] != nil && vals[c].typ != nil {
					r.check(fits(vals[c].typ, sc.tables[s.table][c]), "schema", short+": "+c, ev.instr.Pos(), nil, "a %s is stored in a column of type %s", vals[c].typ, sc.tables[s.table][c])
				}
			}
			if s.table == "block_header" && vals["hash"] != nil && vals["height"] != nil && vals["header_bytes"] != nil {
				ho, so := hashOwner(vals["hash"]), serialOwner(vals["header_bytes"])
				r.check(ho != nil && same(st, ho, so), "filed", short+": bytes", ev.instr.Pos(), st.path(12), "%s is stored under the hash %s", vals["header_bytes"], vals["hash"])
				h := unconv(vals["height"])
				ok := false
				if ho != nil {
					ok = unconv(x.fieldOf(st, ho, "Height")) == h || same(st, fieldOwner(h, "Height"), ho)
				}
				r.check(ok, "filed", short+": height", ev.instr.Pos(), st.path(12), "%s is stored as the height of %s", vals["height"], vals["hash"])
			}
			if s.table == "filter" && vals["filter_key"] != nil && vals["filter_value"] != nil {
				ko := fieldOwner2(keyOf(vals["filter_key"]), "Key")
				vo := entryOf(st, vals["filter_value"])
				r.check(ko != nil && ko == vo, "filed", short, ev.instr.Pos(), st.path(12), "%s is stored under %s", vals["filter_value"], vals["filter_key"])
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// fieldOwner2 is fieldOwner for a term that may be nil.
func fieldOwner2(t *Term, name string) *Term {
	if t == nil {
		return nil
	}
	return fieldOwner(t, name)
}

// stripCopy: append([]byte(nil), v...) is a copy of v.
func stripCopy(t *Term) *Term {
	if t.k == KAppend && len(t.args) == 2 && (t.args[0].isNil() || t.args[0].k == KMake || t.args[0].k == KZero) {
		return t.args[1]
	}
	return t
}

func checkSchema(r *Report, s *sqlStmt, sc *sqlSchema, short string, pos token.Pos) {
	r.check(s.bad == "", "schema", short+": statement", pos, nil, "%s", s.bad)
	cols := sc.tables[s.table]
	r.check(cols != nil, "schema", short+": table", pos, nil, "there is no table %s in the schema", s.table)
	if cols == nil {
		return
	}
	need := append([]string{}, s.cols...)
	for _, w := range s.where {
		need = append(need, w[0])
	}
	for c := range s.sets {
		need = append(need, c)
	}
	if s.target != "" {
		need = append(need, s.target)
		r.check(sc.unique[s.table][s.target], "schema", short+": conflict", pos, nil, "the column %s is not unique", s.target)
	}
	if s.order != "" {
		need = append(need, strings.Fields(s.order)[0])
	}
	for _, c := range need {
		r.check(cols[c] != "", "schema", short+": "+c, pos, nil, "the table %s has no column %s", s.table, c)
	}
	if s.sub != nil {
		checkSchema(r, s.sub, sc, short, pos)
	}
}

func checkLookup(p *Prog, r *Report, fn *ssa.Function, rd repoRead, sc *sqlSchema) {
	x := newExec(p)
	repoEnv(p, x, fn)
	short := fname(fn)
	isKey := func(t *Term) bool {
		t = unconv(stripIface(t))
		if t.k == KCall && (strings.HasSuffix(t.op, "Hash).String") || strings.HasSuffix(t.op, "FilterKey).String")) {
			t = t.args[0]
		}
		if t.k == KLoad {
			t = t.args[0]
		}
		return t.k == KParam && t.idx > 0
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvBranch:
			if rd.name == "ChainTip" {
				checkTipLoop(p, r, x, st, ev, short)
			}
			if low, is := lowHeight(ev.instr, ev.val); is {
				if low {
					st.set("low")
				} else {
					st.unset("low")
				}
			}
		case EvLookup:
			if mp := mapOf(ev.addr.typ); mp == nil || !isStored(ev.addr.typ) || ev.key == nil {
				return
			}
			switch rd.name {
			case "GetBlockHeader", "GetFilter":
				r.check(isKey(ev.key), "lookup", short, ev.instr.Pos(), st.path(12), "the key %s looked up is not the one asked for", ev.key)
			}
		case EvMapUpdate:
			// a table made for the operation: by hash or by height of the header
			mp := mapOf(ev.addr.typ)
			if mp == nil || ev.addr.k != KMake || !isStored(ev.addr.typ) || !isBlockHeader(pointee(mp.Elem())) {
				return
			}
			if o := hashOwner(ev.key); o != nil {
				r.check(o == ev.val || x.sameValue(st, o, ev.val), "lookup", short+": table", ev.instr.Pos(), st.path(12), "%s is entered under the hash of another header", ev.val)
			} else if o := fieldOwner(ev.key, "Height"); o != nil {
				r.check(o == ev.val || x.sameValue(st, o, ev.val), "lookup", short+": table", ev.instr.Pos(), st.path(12), "%s is entered under the height of another header", ev.val)
			} else if hashKey := strings.HasSuffix(mp.Key().String(), "chainhash.Hash"); hashKey {
				r.bad("lookup", short+": table", ev.instr.Pos(), st.path(12), "%s is entered under %s", ev.val, ev.key)
			}
		case EvCall:
			op := dbOp(ev)
			if op != "Get" && op != "GetContext" && op != "Select" && op != "SelectContext" && op != "QueryRowx" && op != "Queryx" {
				return
			}
			s := sqlOf(ev)
			if s == nil || s.kind != "select" {
				r.bad("schema", short, ev.instr.Pos(), st.path(12), "the statement is not a constant that can be understood")
				return
			}
			checkSchema(r, s, sc, short, ev.instr.Pos())
			// the record read into
			if op == "Get" || op == "Select" {
				dst := stripIface(ev.args[1])
				tags := tagged(dst.typ)
				read := s.cols
				if s.all {
					read = sc.order[s.table]
				}
				for _, c := range read {
					f := tags[c]
					r.check(f != nil, "schema", short+": field "+c, ev.instr.Pos(), nil, "the record has no field for the column %s, so that reading it fails", c)
					if f != nil {
						r.check(fits(f.Type(), sc.tables[s.table][c]), "schema", short+": type of "+c, ev.instr.Pos(), nil, "the column %s of type %s is read into a %s", c, sc.tables[s.table][c], f.Type())
					}
				}
			}
			var args []*Term
			for i, a := range ev.args {
				if _, ok := stripIface(a).isStr(); ok {
					args = ev.args[i+1:]
					break
				}
			}
			if len(args) == 1 && args[0].typ != nil {
				if es, ok := x.elems(st, args[0]); ok {
					args = es
				}
			}
			want := map[string]string{"GetBlockHeader": "hash", "GetBlockHashByHeight": "height", "GetFilter": "filter_key"}[rd.name]
			if want != "" && (op == "Get" || op == "GetContext") {
				ok := len(s.where) == 1 && s.where[0][0] == want && s.where[0][1] == "$1" && len(args) > 0 && isKey(args[0])
				if ok {
					t := stripIface(args[0]).typ
					r.check(fits(t, sc.tables[s.table][want]), "schema", short+": key", ev.instr.Pos(), nil, "the column %s of type %s is compared with a %s", want, sc.tables[s.table][want], t)
				}
				r.check(ok, "lookup", short, ev.instr.Pos(), st.path(12), "the row read is not the one with the %s asked for", want)
			}
			if rd.name == "ChainTip" {
				max := len(s.where) == 1 && s.where[0][0] == "height" && s.sub != nil && s.sub.agg == "max" && s.sub.table == s.table && len(s.sub.cols) == 1 && s.sub.cols[0] == "height" && len(s.sub.where) == 0
				last := len(s.where) == 0 && s.order == "height desc" && (s.limit || op == "Get")
				r.check(max || last, "tip", short, ev.instr.Pos(), nil, "the row read is not the one of the greatest height")
			}
			if op == "Select" {
				r.check(len(s.where) == 0 && !s.limited, "lookup", short+": all", ev.instr.Pos(), nil, "not all headers are read")
			}
		case EvBack:
			if rd.name == "ChainTip" {
				checkTipLoop(p, r, x, st, ev, short)
			}
		case EvReturn:
			f, ok := successFacts(st, ev.args)
			if !ok || len(ev.args) < 2 {
				return
			}
			v := stripIface(ev.args[0])
			switch rd.name {
			case "GetFilter":
				k := x.fieldOf(st, v, "Key")
				r.check(k != nil && isKey(k), "lookup", short+": key", ev.instr.Pos(), st.path(12), "the entry returned carries the key %s, not the one asked for", k)
				n := x.fieldOf(st, v, "NBytes")
				r.check(n != nil && storedBytes(x, st, n, "filter_value"), "lookup", short+": bytes", ev.instr.Pos(), st.path(12), "the bytes returned (%s) are not those stored", n)
			case "GetBlockHeader", "ChainTip":
				r.check(v.isNil() || storedHeader(x, st, v), "lookup", short+": header", ev.instr.Pos(), st.path(12), "%s is not the stored header", v)
			case "GetBlockHashByHeight":
				o := v
				if y := x.load(st, v, pointee(v.typ)); y != nil {
					o = y
				}
				ho := hashOwner(o)
				r.check(ho != nil && storedHeader(x, st, ho), "lookup", short+": hash", ev.instr.Pos(), st.path(12), "%s is not the hash of a stored header", o)
				if ho != nil && !ho.has(func(y *Term) bool { return y.k == KCall }) {
					// picked among the stored ones
					h := x.fieldOf(st, ho, "Height")
					ok := false
					for t, b := range f {
						if b && t.k == KBin && t.op == "==" {
							for i := range t.args {
								if unconv(t.args[i]) == unconv(h) && isKey(t.args[1-i]) {
									ok = true
								}
							}
						}
					}
					r.check(ok, "lookup", short+": height", ev.instr.Pos(), st.path(12), "the header picked is not known to be of the height asked for")
				}
			case "HasAllAncestors":
				if b, k := f.eval(v); k && b {
					r.check(st.flag("low"), "ancestors", short+": down to the first", ev.instr.Pos(), st.path(12), "all ancestors are reported as stored before the first block was reached")
				}
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	if rd.name == "HasAllAncestors" {
		p.sameCallees(fn, func(g *ssa.Function) { checkParents(p, r, g) })
	}
	p.sameCallees(fn, func(g *ssa.Function) { checkAllKept(p, r, g) })
}

// lowHeight: whether the branch taken means that the height compared is at most one.
func lowHeight(in ssa.Instruction, val *Term) (low, is bool) {
	f, ok := in.(*ssa.If)
	if !ok {
		return
	}
	b, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	height := func(v ssa.Value) bool {
		_, name := loadedField(unconvV(v))
		return name == "Height"
	}
	op, x, y := b.Op, b.X, b.Y
	if height(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := unconvV(y).(*ssa.Const)
	if !ok || !height(x) || c.Value == nil {
		return
	}
	n := c.Int64()
	taken, _ := val.isBool()
	if !taken {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.LSS:
		return n <= 2, true
	case token.LEQ, token.EQL:
		return n <= 1, true
	}
	return false, true
}

// checkParents: the block gone on to is the one stored under the hash of the parent.
func checkParents(p *Prog, r *Report, fn *ssa.Function) {
	li := p.loop(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			l, ok := in.(*ssa.Lookup)
			if !ok || !isStored(l.X.Type()) || !li.inLoop[b] {
				continue
			}
			// header of the block whose parent is looked up
			var from ssa.Value
			key := l.Index
			if u, ok := key.(*ssa.UnOp); ok && u.Op == token.MUL {
				key = u.X
			}
			origins(key, map[ssa.Value]bool{}, func(v ssa.Value) {
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				c, ok := v.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasSuffix(c.Call.StaticCallee().RelString(nil), "chainhash.NewHash") {
					return
				}
				if u, ok := c.Call.Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if _, name := loadedField(u); name == "PrevBlockHash" {
							from = fa.X
						}
					}
				}
			})
			r.check(from != nil, "ancestors", fname(fn)+": parent", in.Pos(), nil, "the block gone on to is not looked up by the hash of the parent")
			if from == nil {
				continue
			}
			// the block looked up is the next one whose parent is looked up
			ok = false
			origins(from, map[ssa.Value]bool{}, func(v ssa.Value) {
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				if v == ssa.Value(l) {
					ok = true
				}
			})
			if why := startsAt(from, l, map[ssa.Value]bool{}); ok {
				r.check(why == "", "ancestors", fname(fn)+": first", in.Pos(), nil, "%s", why)
			}
			r.check(ok, "ancestors", fname(fn)+": next", in.Pos(), nil, "the block found is not the one gone on with")
		}
	}
}

// storedHeader: an element of the map of stored headers or one made of the bytes of a row.
func storedHeader(x *Exec, st *State, t *Term) bool {
	for y := t; y != nil; y = y.args[0] {
		if y.k == KStale {
			return true
		}
		if y.k != KExtract && y.k != KConv {
			break
		}
	}
	if t.k == KPhi || t.k == KUnk {
		return true // one of a loop's: see the rule about the tip
	}
	if t.k == KExtract && t.args[0].k == KCall && strings.HasSuffix(t.args[0].op, "block.DeserializeHeader") {
		return storedBytes(x, st, t.args[0], "header_bytes")
	}
	y := t
	if y.k == KExtract {
		y = y.args[0]
	}
	if y.k == KLookup || y.k == KNext {
		return isStored(y.args[0].typ) || y.k == KNext
	}
	return false
}

// storedBytes: the bytes come from that column of the record read, or from the map of stored filters.
func storedBytes(x *Exec, st *State, t *Term, col string) bool {
	if t.has(isCut) {
		return false
	}
	return x.reaches(t, func(y *Term) bool {
		if y.k == KLookup && isStored(y.args[0].typ) {
			return true
		}
		if y.k == KLoad && y.args[0].k == KField {
			f := y.args[0]
			if tg := tagged(f.args[0].typ); tg != nil && tg[col] == f.fld {
				return true
			}
		}
		if y.k == KFieldV {
			if tg := tagged(y.args[0].typ); tg != nil && tg[col] == y.fld {
				return true
			}
		}
		return y.fld != nil && tagOf(y) == col
	})
}

// isCut: a part of a slice.
func isCut(t *Term) bool {
	if t.k != KSlice || t.op != "sub" {
		return false
	}
	for i, b := range t.args[1:] {
		if b == nil || b.isNil() {
			continue
		}
		if n, ok := b.isInt(); ok && n == 0 && i == 0 {
			continue
		}
		return true
	}
	return false
}

func tagOf(t *Term) string {
	if len(t.args) == 0 || t.args[0].typ == nil {
		return ""
	}
	for c, f := range tagged(t.args[0].typ) {
		if f == t.fld {
			return c
		}
	}
	return ""
}

// checkTipLoop: at the end of an iteration over the stored headers the best one is the higher of
// the best so far and the one just looked at.
func checkTipLoop(p *Prog, r *Report, x *Exec, st *State, ev *Event, short string) {
	var h *ssa.BasicBlock
	blk := ev.frame.blk
	for b, body := range p.loop(blk.Parent()).body {
		if _, ok := nextOf(b); ok && body[blk] {
			h = b
		}
	}
	if h == nil || ev.kind == EvBack && blk != h {
		return
	}
	var best *ssa.Phi
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && isBlockHeader(pointee(ph.Type())) {
			best = ph
		}
	}
	var cv *ssa.Extract
	for _, b := range sortedBlocks(p.loop(h.Parent()).body[h]) {
		for _, in := range b.Instrs {
			if e, ok := in.(*ssa.Extract); ok && isBlockHeader(pointee(e.Type())) {
				if _, ok := e.Tuple.(*ssa.Next); ok {
					cv = e
				}
			}
		}
	}
	if best == nil || cv == nil {
		return
	}
	if ev.kind == EvBranch {
		old, cand := ev.frame.env[best], ev.frame.env[cv]
		if old == nil || cand == nil || blk == h {
			return
		}
		st.add(Atom{name: "cand", a: cand})
		if old.isNil() {
			st.set("better")
			return
		}
		oh, ch := x.fieldOf(st, old, "Height"), x.fieldOf(st, cand, "Height")
		less, lk := st.facts.eval(mkBin(token.LSS, oh, ch, nil))
		leq, ek := st.facts.eval(mkBin(token.LEQ, oh, ch, nil))
		first, fk := st.facts.eval(mkBin(token.EQL, old, cNil(nil), nil))
		if lk && less || ek && leq || fk && first {
			st.set("better")
		}
		if lk && !less || ek && !leq {
			st.set("worse")
		}
		return
	}
	pi := predIndex(h, ev.frame.prev)
	if pi < 0 {
		return
	}
	now := x.val(st, best.Edges[pi])
	if now != nil && st.has(Atom{name: "cand", a: now}) {
		r.check(st.flag("better"), "tip", short+": better", ev.instr.Pos(), st.path(12), "a header replaces the best one although it isn't known to be higher")
	} else {
		r.check(st.flag("worse"), "tip", short+": kept", ev.instr.Pos(), st.path(12), "a header is passed over although it may be higher than the best one")
	}
	st.unset("better")
	st.unset("worse")
	st.clear("cand")
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) (r []*ssa.BasicBlock) {
	for b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Index < r[j].Index })
	return
}

// checkFilterKey: the text of a key is made of all of the block hash and the type.
func checkFilterKey(p *Prog, r *Report) {
	fn := p.methodAny("pkg/repository.FilterKey", "String")
	if fn == nil {
		r.anchorLost("FilterKey.String")
		return
	}
	x := newExec(p)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return true }
	x.pure = func(op string) bool { return true }
	short := fname(fn)
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvReturn:
			for _, f := range []string{"BlockHash", "FilterType"} {
				ok := x.reaches(ev.args[0], func(y *Term) bool { return fieldOwner(y, f) != nil || y.fld != nil && y.fld.Name() == f })
				r.check(ok, "filter-key", short+": "+f, ev.instr.Pos(), st.path(12), "the key doesn't depend on %s", f)
			}
			part := x.reaches(ev.args[0], func(y *Term) bool {
				return y.k == KSlice && y.has(func(z *Term) bool { return fieldOwner(z, "BlockHash") != nil }) && !y.args[0].has(func(z *Term) bool { return z.k == KAppend || z.k == KCall })
			})
			r.check(!part, "filter-key", short+": whole hash", ev.instr.Pos(), st.path(12), "the key depends on a part of the block hash only")
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	// the entry made for a key and a filter
	if fn := p.fun("pkg/repository.NewFilterEntry"); fn != nil {
		x := newExec(p)
		short := fname(fn)
		x.pure = func(op string) bool { return strings.HasSuffix(op, "NBytes") || strings.HasSuffix(op, "Bytes") }
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvReturn {
				return
			}
			if _, ok := successFacts(st, ev.args); !ok || ev.args[0].isNil() {
				return
			}
			k := x.fieldOf(st, ev.args[0], "Key")
			r.check(k != nil && k.k == KParam, "filter-key", short+": key", ev.instr.Pos(), st.path(12), "the entry carries the key %s", k)
			n := x.fieldOf(st, ev.args[0], "NBytes")
			ok := n != nil && n.k == KExtract && n.args[0].k == KCall && strings.HasSuffix(n.args[0].op, "Filter).NBytes") && n.args[0].args[0].k == KParam
			r.check(ok, "filter-key", short+": bytes", ev.instr.Pos(), st.path(12), "the entry carries %s instead of the filter with the number of its elements", n)
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	} else {
		r.anchorLost("NewFilterEntry")
	}
}

// checkReceived: in pkg/node, filters are stored under the hash and type of the same message.
func checkReceived(p *Prog, r *Report) {
	puts := callsMethod("PutFilter")
	for _, fn := range p.innermost("pkg/node", p.reach(false, puts)) {
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return inNode(f) || rel(pkgPathOf(f)) == "pkg/repository"
		}
		x.pure = func(op string) bool {
			return strings.HasSuffix(op, "CloneBytes") || strings.HasSuffix(op, "NBytes") || strings.HasSuffix(op, "FromNBytes") || strings.Contains(op, "logrus")
		}
		short := fname(fn)
		x.on = func(x *Exec, st *State, ev *Event) {
			if ev.kind != EvCall || !isOp(ev.op, ".PutFilter") {
				return
			}
			e := ev.args[len(ev.args)-1]
			k := x.fieldOf(st, e, "Key")
			if k == nil {
				r.bad("received", short, ev.instr.Pos(), st.path(12), "what is stored is not understood")
				return
			}
			from := func(t *Term, name string) *Term {
				if t == nil {
					return nil
				}
				y := findReach(x, t, func(y *Term) bool {
					return fieldOwner(y, name) != nil && !strings.HasSuffix(fieldOwner(y, name).typ.String(), "FilterKey")
				})
				if y == nil {
					return nil
				}
				return x.msgOf(st, fieldOwner(y, name))
			}
			h := from(x.fieldOf(st, k, "BlockHash"), "BlockHash")
			ft := x.fieldOf(st, k, "FilterType")
			t := from(ft, "FilterType")
			b := from(x.fieldOf(st, e, "NBytes"), "Filter")
			r.check(h != nil && h == b, "received", short+": hash", ev.instr.Pos(), st.path(12), "a filter is stored under the hash of %s", h)
			if n, isC := unconv(ft).isInt(); !(isC && n == 0) {
				r.check(t != nil && t == b, "received", short+": type", ev.instr.Pos(), st.path(12), "a filter is stored under the type of %s", t)
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
}

// msgOf: the message itself rather than the variable that holds it.
func (x *Exec) msgOf(st *State, t *Term) *Term {
	if e := pointee(t.typ); e != t.typ {
		if v := x.load(st, t, e); v != nil && v.k == KRecv {
			return v
		}
	}
	return t
}
