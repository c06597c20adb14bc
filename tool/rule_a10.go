package main

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A10", checkA10) }

const cliContext = "(*github.com/urfave/cli/v2.Context)."

// jsonNames: the JSON name of each field of a message.
func jsonNames(t types.Type) map[string]*types.Var {
	s, ok := pointee(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]*types.Var{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			for n, v := range jsonNames(f.Type()) {
				out[n] = v
			}
			continue
		}
		n := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
		if n == "-" || !f.Exported() {
			continue
		}
		if n == "" {
			n = f.Name()
		}
		out[strings.ToLower(n)] = f
	}
	return out
}

// isMessage: a type of the API's package that has named JSON fields.
func isMessage(t types.Type) bool {
	n, ok := pointee(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	return len(jsonNames(t)) > 0
}

// decodedBy and encodedBy: the messages read from and written as JSON by the functions wanted.
func (p *Prog) jsonMessages(in func(*ssa.Function) bool, decoded bool) []types.Type {
	seen := map[string]types.Type{}
	for _, f := range p.Funcs {
		if !in(f) || testOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeInterface)
				if !ok || !isMessage(m.X.Type()) {
					continue
				}
				_, ptr := m.X.Type().Underlying().(*types.Pointer)
				for _, u := range *m.Referrers() {
					c, ok := u.(ssa.CallInstruction)
					if !ok {
						continue
					}
					callee := c.Common().StaticCallee()
					dec := false
					if callee != nil && pkgPathOf(callee) == "encoding/json" {
						dec = callee.Name() == "Unmarshal" || callee.Name() == "Decode"
					} else if callee != nil && callee.Name() == "ReadJSON" {
						dec = true
					} else if ptr || callee != nil && strings.Contains(pkgPathOf(callee), "logrus") {
						continue
					}
					if dec == decoded {
						t := pointee(m.X.Type())
						seen[t.String()] = t
					}
				}
			}
		}
	}
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []types.Type
	for _, k := range keys {
		out = append(out, seen[k])
	}
	return out
}

// documented: the JSON examples, the values listed and the addresses of the documentation.
type documented struct {
	examples  []map[string]interface{}
	values    map[string][]string
	endpoints []string
	flags     []string
}

func (p *Prog) documentation() *documented {
	text, err := os.ReadFile(filepath.Join(p.Repo, "README.md"))
	if err != nil {
		return nil
	}
	d := &documented{values: map[string][]string{}}
	s := regexp.MustCompile(`"?\{[A-Z_]+\}"?`).ReplaceAllString(string(text), `"<TEMPLATE>"`)
	for _, m := range regexp.MustCompile(`\{[^{}]*"[A-Za-z]+"\s*:[^{}]*\}`).FindAllString(s, -1) {
		m = regexp.MustCompile(`,\s*\}`).ReplaceAllString(m, "}")
		e := map[string]interface{}{}
		if json.Unmarshal([]byte(m), &e) == nil {
			d.examples = append(d.examples, e)
		}
	}
	for _, m := range regexp.MustCompile(`(?m)^Valid (\w+): (.*)$`).FindAllStringSubmatch(s, -1) {
		for _, v := range regexp.MustCompile(`"([^"]+)"`).FindAllStringSubmatch(m[2], -1) {
			k := strings.ToLower(m[1])
			d.values[k] = append(d.values[k], v[1])
		}
	}
	for _, m := range regexp.MustCompile(`(?m)^(/[a-zA-Z/]+)\s*$`).FindAllStringSubmatch(s, -1) {
		d.endpoints = append(d.endpoints, m[1])
	}
	for _, l := range regexp.MustCompile(`(?m)^\./neutrino .*$`).FindAllString(s, -1) {
		for _, m := range regexp.MustCompile(`--([a-z_]+)`).FindAllStringSubmatch(l, -1) {
			d.flags = append(d.flags, m[1])
		}
	}
	return d
}

func takesText(t types.Type) bool {
	for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if hasMethod(types.NewPointer(t), m) {
			return true
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fitsJSON: whether a documented value can be decoded into the field.
func fitsJSON(v interface{}, t types.Type) bool {
	if hasMethod(types.NewPointer(t), "UnmarshalJSON") {
		return true
	}
	switch v := v.(type) {
	case string:
		return v == "<TEMPLATE>" || takesText(t)
	case float64:
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	case []interface{}:
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		for _, e := range v {
			if !fitsJSON(e, s.Elem()) {
				return false
			}
		}
	}
	return true
}

func inHandlers(f *ssa.Function) bool {
	return strings.HasPrefix(rel(pkgPathOf(f)), "internal/interface")
}

func checkA10(p *Prog, r *Report) {
	r.rule("documented", "requests as documented are understood: names, kinds of values, values, addresses and flags")
	r.rule("distinct", "what a client is sent tells by its names which message it is")
	r.rule("declared", "each flag the CLI reads is declared, with that kind")
	r.rule("asked", "the CLI registers for the wallet, height and each event asked for")
	r.rule("shown", "the CLI shows the content of each message of the daemon")
	d := p.documentation()
	if d == nil || len(d.examples) == 0 {
		r.anchorLost("the examples of requests in README.md")
		return
	}
	p.checkDocumented(r, d)
	p.checkCLIFlags(r, d)
	p.checkClient(r)
	r.need("documented", 10)
	r.need("distinct", 2)
	r.need("declared", 4)
	r.need("asked", 4)
	r.need("shown", 3)
}

func (p *Prog) checkDocumented(r *Report, d *documented) {
	reqs := p.jsonMessages(inHandlers, true)
	if len(reqs) == 0 {
		r.anchorLost("the requests the daemon decodes")
		return
	}
	used := map[int]bool{}
	for _, t := range reqs {
		names := jsonNames(t)
		best, bestN := -1, 0
		for i, e := range d.examples {
			all := true
			for k := range e {
				if names[strings.ToLower(k)] == nil {
					all = false
				}
			}
			if all {
				used[i] = true
				if len(e) > bestN {
					best, bestN = i, len(e)
				}
			}
		}
		pos := t.(*types.Named).Obj().Pos()
		r.check(best >= 0, "documented", shortType(t)+": names", pos, nil, "no documented request has only names that %s has", shortType(t))
		if best < 0 {
			continue
		}
		for i, e := range d.examples {
			if !used[i] || len(e) != bestN {
				continue
			}
			for k, v := range e {
				if f := names[strings.ToLower(k)]; f != nil {
					r.check(fitsJSON(v, f.Type()), "documented", shortType(t)+": kind of "+k, f.Pos(), nil, "the documented value of %s can't be decoded into %s", k, f.Type())
				}
			}
		}
		for n, f := range names {
			vals := d.values[n]
			if vals == nil {
				vals = d.values[n+"s"]
			}
			ft := f.Type()
			if s, ok := ft.Underlying().(*types.Slice); ok {
				ft = s.Elem()
			}
			nt, ok := ft.(*types.Named)
			if !ok || vals == nil || !takesText(ft) {
				continue
			}
			byVal, byName := map[string]string{}, map[string]string{}
			sc := nt.Obj().Pkg().Scope()
			for _, c := range sc.Names() {
				if k, ok := sc.Lookup(c).(*types.Const); ok && types.Identical(k.Type(), ft) && k.Val().Kind() == constant.String {
					byVal[constant.StringVal(k.Val())] = c
					byName[strings.ToLower(c)] = constant.StringVal(k.Val())
				}
			}
			if len(byVal) == 0 {
				continue // no constants: the values are checked where they are used
			}
			for _, v := range vals {
				r.check(byVal[v] != "", "documented", shortType(t)+": value "+v, f.Pos(), nil, "the documented value %q of %s is none of the values known", v, n)
				other, crossed := byName[strings.ToLower(v)]
				r.check(!crossed || other == v, "documented", shortType(t)+": meaning of "+v, f.Pos(), nil, "%q is another %s than the one of that name, which is %q", v, n, other)
			}
		}
	}
	for i, e := range d.examples {
		var ks []string
		for k := range e {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.check(used[i], "documented", "request "+strings.Join(ks, ", "), token.NoPos, nil, "no request the daemon decodes has all of these names")
	}
	// the addresses
	consts := map[string]bool{}
	for _, f := range p.allFuncs() {
		if !inHandlers(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						consts[constant.StringVal(c.Value)] = true
					}
				}
			}
		}
	}
	for _, e := range d.endpoints {
		ok := consts[e]
		for a := range consts {
			for b := range consts {
				ok = ok || a+b == e && strings.HasPrefix(a, "/")
			}
		}
		r.check(ok, "documented", "address "+e, token.NoPos, nil, "the daemon has no such address")
	}
	// what the daemon sends
	names := map[string]string{}
	for _, t := range p.jsonMessages(inHandlers, false) {
		any := false
		for n, f := range jsonNames(t) {
			if types.Identical(f.Type(), types.Typ[types.String]) {
				any = true
				r.check(names[n] == "", "distinct", shortType(t)+": "+f.Name(), f.Pos(), nil, "%s is also a name of %s", n, names[n])
				names[n] = shortType(t)
			}
		}
		r.check(any, "distinct", shortType(t)+": content", t.(*types.Named).Obj().Pos(), nil, "the content of the message is not sent")
	}
}

// declaredFlags: the flags of the CLI, by name, with their kind and default.
func (p *Prog) declaredFlags() (map[string]string, map[string]*ssa.Const) {
	kinds, defaults := map[string]string{}, map[string]*ssa.Const{}
	for _, f := range p.allFuncs() {
		if !inCLI(f) {
			continue
		}
		byBase := map[ssa.Value]map[string]*ssa.Const{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				c, isC := s.Val.(*ssa.Const)
				if !ok || !isC || !strings.Contains(pointee(a.X.Type()).String(), "urfave/cli/v2.") || !strings.HasSuffix(pointee(a.X.Type()).String(), "Flag") {
					continue
				}
				if byBase[a.X] == nil {
					byBase[a.X] = map[string]*ssa.Const{}
				}
				byBase[a.X][structOf(pointee(a.X.Type())).Field(a.Field).Name()] = c
			}
		}
		for b, fs := range byBase {
			if n := fs["Name"]; n != nil && n.Value != nil {
				t := pointee(b.Type()).String()
				k := constant.StringVal(n.Value)
				kinds[k] = strings.TrimSuffix(t[strings.LastIndex(t, ".")+1:], "Flag")
				defaults[k] = fs["Value"]
			}
		}
	}
	return kinds, defaults
}

func (p *Prog) checkCLIFlags(r *Report, d *documented) {
	kinds, defaults := p.declaredFlags()
	for _, f := range d.flags {
		r.check(kinds[f] != "", "documented", "flag "+f, token.NoPos, nil, "the CLI declares no such flag")
	}
	if c := defaults["path"]; c != nil && c.Value != nil {
		v, ok := constant.StringVal(c.Value), false
		for _, e := range d.endpoints {
			ok = ok || e == v
		}
		r.check(ok, "documented", "default of path", token.NoPos, nil, "%s is no address of the daemon", v)
	}
	for _, f := range p.Funcs {
		if !inCLI(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 {
					continue
				}
				callee := c.Call.StaticCallee()
				if !strings.HasPrefix(callee.String(), cliContext) {
					continue
				}
				k, ok := c.Call.Args[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				n := constant.StringVal(k.Value)
				kind := callee.Name()
				if kind == "IsSet" || kind == "Value" || kind == "Generic" || kind == "Count" {
					kind = kinds[n]
				}
				r.check(kinds[n] != "" && kinds[n] == kind, "declared", fname(f)+": "+n, c.Pos(), nil, "%s is read as %s, but declared as %q", n, kind, kinds[n])
			}
		}
	}
}

// fromCLI: the value given for a flag, or as an argument, on the command line.
func fromCLI(t *Term, kind string) bool {
	c := unconv(t)
	return c.k == KCall && c.op == cliContext+kind
}

func isWS(op, name string) bool { return op == "(*github.com/gorilla/websocket.Conn)."+name }

func printsOut(op string) bool {
	i := strings.LastIndex(op, ".")
	if i < 0 {
		return false
	}
	n := op[i+1:]
	switch {
	case strings.Contains(op, "sirupsen/logrus"), strings.HasPrefix(op, "log."), strings.HasPrefix(op, "(*log.Logger)"):
		return !strings.HasPrefix(n, "Debug") && !strings.HasPrefix(n, "Trace") && !strings.HasPrefix(n, "With")
	case strings.HasPrefix(op, "fmt."):
		return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint")
	}
	return opIn(op, "(*os.File).Write", "(*bufio.Writer).Write", "(*encoding/json.Encoder).Encode")
}

func (p *Prog) checkClient(r *Report) {
	isWrite := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil {
			return false
		}
		op := c.Common().StaticCallee().String()
		return isWS(op, "WriteMessage") || isWS(op, "WriteJSON")
	}
	contents := map[string]*types.Var{} // JSON name -> what the daemon sends under it
	for _, t := range p.jsonMessages(inHandlers, false) {
		for n, f := range jsonNames(t) {
			if types.Identical(f.Type(), types.Typ[types.String]) {
				contents[n] = f
			}
		}
	}
	found := false
	for _, fn := range p.topOf(p.reach(false, isWrite), inCLI) {
		if fn.Name() == "main" || fn.Name() == "init" {
			continue
		}
		found = true
		p.checkSubscribe(r, fn, contents)
	}
	if !found {
		r.anchorLost("what the CLI registers with")
	}
}

func (p *Prog) checkSubscribe(r *Report, fn *ssa.Function, contents map[string]*types.Var) {
	x := newExec(p)
	short := fname(fn)
	x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return inCLI(f) }
	x.pure = func(op string) bool {
		return opIn(op, "fmt.", "github.com/urfave/cli", "github.com/sirupsen/logrus", "log.", "bytes.", "strings.")
	}
	asked := false
	request := func(st *State, ev *Event, v *Term) {
		v = stripIface(v)
		pos := ev.instr.Pos()
		act := x.fieldOf(st, v, "ActionType")
		s, ok := "", false
		if act != nil {
			s, ok = unconv(act).isStr()
		}
		r.check(ok && s == "register", "asked", short+": action", pos, st.path(8), "the action asked for is %q, not register", s)
		w := x.fieldOf(st, v, "DescriptorWallet")
		r.check(w != nil && fromCLI(w, "String"), "asked", short+": wallet", pos, st.path(8), "the wallet is not the one given")
		h := x.fieldOf(st, v, "StartBlockHeight")
		r.check(h != nil && fromCLI(h, "Int"), "asked", short+": height", pos, st.path(8), "the height is not the one given")
		es := x.fieldOf(st, v, "EventTypes")
		r.check(es != nil && es.k != KSlice, "asked", short+": list of events", pos, st.path(8), "only a part of the events is asked for")
		if es != nil && x.reaches(es, func(t *Term) bool { return fromCLI(t, "StringSlice") }) {
			asked = true
		}
	}
	x.on = func(x *Exec, st *State, ev *Event) {
		pos := fn.Pos()
		if ev.instr != nil {
			pos = ev.instr.Pos()
		}
		switch ev.kind {
		case EvCall:
			switch {
			case stopsProgram(ev.op):
				ev.prune = true
			case ev.op == "encoding/json.Marshal" && len(ev.args) == 1 && x.fieldOf(st, stripIface(ev.args[0]), "ActionType") != nil:
				request(st, ev, ev.args[0])
			case isWS(ev.op, "WriteJSON"):
				request(st, ev, ev.args[len(ev.args)-1])
				st.set("sent")
			case isWS(ev.op, "WriteMessage") && len(ev.args) == 3:
				n, ok := ev.args[1].isInt()
				r.check(ok && (n == 1 || n == 2), "asked", short+": kind of message", pos, st.path(8), "what is sent is no data message")
				d := ev.args[2]
				r.check(d.k == KExtract && d.args[0].k == KCall && d.args[0].op == "encoding/json.Marshal", "asked", short+": message", pos, st.path(8), "what is sent is not the request")
				st.set("sent")
			case isWS(ev.op, "ReadMessage"), isWS(ev.op, "ReadJSON"):
				r.check(st.flag("sent"), "asked", short+": sent", pos, st.path(8), "answers are waited for before the request is sent")
				if st.flag("read") {
					p.allShown(r, x, st, short, pos, contents)
				}
				st.set("read")
				st.clear("got")
				for n := range contents {
					st.unset("shown:" + n)
				}
			case printsOut(ev.op):
				var vals []*Term
				for _, a := range ev.args {
					vals = append(vals, a)
					es, _ := x.elems(st, a)
					vals = append(vals, es...)
				}
				for _, g := range st.all("got") {
					for n, f := range jsonNames(g.a.typ) {
						for _, v := range vals {
							if x.find(v, func(t *Term) bool {
								return t == g.a || t.k == KFieldV && t.args[0] == g.a && t.fld == f
							}) != nil {
								st.set("shown:" + n)
							}
						}
					}
				}
			}
		case EvResult:
			if (ev.op == "encoding/json.Unmarshal" || isWS(ev.op, "ReadJSON")) && len(ev.args) == 2 {
				ptr := stripIface(ev.args[1])
				t := ptr.typ
				if t == nil || pointee(t) == t {
					return
				}
				out := x.load(st, ptr, pointee(t))
				if out.typ != nil && len(jsonNames(out.typ)) > 0 {
					st.add(Atom{name: "got", a: out})
				}
			}
		case EvBranch:
			for _, g := range st.all("got") {
				for n, f := range jsonNames(g.a.typ) {
					for c, v := range st.facts {
						if c.k == KUn && c.op == "!" {
							c, v = c.args[0], !v
						}
						if l := lenOfField(c, v); l != nil && l.args[0] == g.a && l.fld == f {
							st.set("shown:" + n)
						}
						if c.k != KBin || c.op != "==" && c.op != "!=" || (c.op == "==") != v {
							continue
						}
						for i := range c.args {
							a, o := c.args[i], c.args[1-i]
							s, isS := o.isStr()
							if a == g.a || a.k == KFieldV && a.args[0] == g.a && a.fld == f && isS && s == "" {
								st.set("shown:" + n)
							}
						}
					}
				}
			}
		case EvReturn:
			if ev.frame != nil && ev.frame.fn == fn {
				if _, ok := successFacts(st, ev.args); ok && st.flag("read") {
					p.allShown(r, x, st, short, pos, contents)
				}
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
	r.check(asked, "asked", short+": events", fn.Pos(), nil, "the events given are never asked for")
	for _, f := range p.Funcs {
		if !inCLI(f) {
			continue
		}
		for h := range p.loop(f).header {
			c := overList(p, h, func(t types.Type) bool {
				s, ok := t.Underlying().(*types.Slice)
				return ok && types.Identical(s.Elem(), types.Typ[types.String])
			})
			var app *ssa.BasicBlock
			for b := range p.loop(f).body[h] {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && isAppend(call) && strings.HasSuffix(call.Type().String(), ".EventType") {
						app = b
					}
				}
			}
			if c == nil || app == nil {
				continue
			}
			why := wholeList(h, c)
			for _, l := range h.Preds {
				if p.loop(f).body[h][l] && !app.Dominates(l) {
					why = "some are left out"
				}
			}
			r.check(why == "", "asked", short+": events", loopPos(p, h), nil, "not every event given is asked for: %s", why)
		}
	}
	checkCollected(p, r, "asked", func(pkg string) bool { return pkg == "cmd/neutrino" }, "EventType")
}

func (p *Prog) allShown(r *Report, x *Exec, st *State, short string, pos token.Pos, contents map[string]*types.Var) {
	for n := range contents {
		r.check(st.flag("shown:"+n), "shown", short+": "+n, pos, st.path(20), "the %s the daemon sent may never be shown", n)
	}
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// lenOfField: the field whose length is nothing if the condition has the value.
func lenOfField(c *Term, v bool) *Term {
	if c.k != KBin || len(c.args) != 2 {
		return nil
	}
	for i, l := range c.args {
		n, ok := c.args[1-i].isInt()
		if !ok || l.k != KCall || l.op != "len" || l.args[0].k != KFieldV {
			continue
		}
		none := false
		switch c.op {
		case "==":
			none = v && n == 0
		case "!=":
			none = !v && n == 0
		case "<":
			none = i == 0 && v && n == 1 || i == 1 && !v && n == 0
		case "<=":
			none = i == 0 && v && n == 0 || i == 1 && !v && n == 1
		case ">":
			none = i == 0 && !v && n == 0 || i == 1 && v && n == 1
		case ">=":
			none = i == 0 && !v && n == 1 || i == 1 && v && n == 0
		}
		if none {
			return l.args[0]
		}
	}
	return nil
}
