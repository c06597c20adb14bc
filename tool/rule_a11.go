package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A11", checkA11) }

// isViper: a call of the named method of the settings.
func isViper(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || pkgPathOf(f) != "github.com/spf13/viper" {
		return ""
	}
	return f.Name()
}

func constText(v ssa.Value) (string, bool) {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// setting: a place where a setting is read under a constant name.
type setting struct {
	key, kind string
	call      *ssa.Call
}

// settings: the reads of settings, looking through the functions that only pass the name on.
func (p *Prog) settings() []setting {
	getters := map[*ssa.Function]string{} // functions whose parameter is the name of the setting they return
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || !strings.HasPrefix(isViper(&c.Call), "Get") || len(c.Call.Args) == 0 {
					continue
				}
				if _, isP := c.Call.Args[len(c.Call.Args)-1].(*ssa.Parameter); isP {
					getters[f] = isViper(&c.Call)
				}
			}
		}
	}
	var out []setting
	for _, f := range p.Funcs {
		if testOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || len(c.Call.Args) == 0 || c.Call.StaticCallee() == nil {
					continue
				}
				kind := isViper(&c.Call)
				if !strings.HasPrefix(kind, "Get") {
					kind = getters[c.Call.StaticCallee()]
				}
				if kind == "" {
					continue
				}
				if k, ok := constText(c.Call.Args[len(c.Call.Args)-1]); ok {
					out = append(out, setting{k, kind, c})
				}
			}
		}
	}
	return out
}

// sink: what a value is used for outside the module.
type sink struct {
	name string
	pos  token.Pos
}

// dsnLabels: what each verb of a connection string stands for.
func dsnLabels(s string) []string {
	if m := regexp.MustCompile(`^[a-z]+://(%[svd]):(%[svd])@(%[svd]):(%[svd])/(%[svd])`).FindString(s); m != "" {
		return []string{"user", "pass", "host", "port", "name"}
	}
	if !strings.Contains(s, "dbname=") {
		return nil
	}
	var out []string
	for _, m := range regexp.MustCompile(`(\w+)=%[svdq]`).FindAllStringSubmatch(s, -1) {
		out = append(out, map[string]string{"user": "user", "password": "pass", "host": "host", "port": "port", "dbname": "name"}[m[1]])
	}
	return out
}

// usesOf: what the value is used for in the end, following it through the program.
func (p *Prog) usesOf(start ssa.Value) []sink {
	calls, _, _ := p.staticCallers()
	seen := map[ssa.Value]bool{}
	fields := map[*types.Var]bool{}
	var sinks []sink
	var work []ssa.Value
	push := func(v ssa.Value) {
		if v != nil && !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	push(start)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Val != v {
					continue
				}
				switch a := u.Addr.(type) {
				case *ssa.FieldAddr:
					f := structOf(pointee(a.X.Type())).Field(a.Field)
					if strings.HasSuffix(pointee(a.X.Type()).String(), "net/http.Server") && f.Name() == "Addr" {
						sinks = append(sinks, sink{"address served", u.Pos()})
					}
					if fields[f] {
						continue
					}
					fields[f] = true
					for _, l := range p.fieldReads(f) {
						push(l)
					}
				case *ssa.IndexAddr: // an argument list
					if al, ok := a.X.(*ssa.Alloc); ok {
						p.listUse(al, a, push, &sinks)
					}
				case *ssa.Alloc:
					for _, l := range *a.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok {
							push(ld)
						}
						if mc, ok := l.(*ssa.MakeClosure); ok {
							for i, bnd := range mc.Bindings {
								if bnd == ssa.Value(a) {
									for _, r := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
										if ld, ok := r.(*ssa.UnOp); ok {
											push(ld)
										}
									}
								}
							}
						}
					}
				case *ssa.Global:
					for _, f := range p.Funcs {
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if ld, ok := in.(*ssa.UnOp); ok && ld.X == ssa.Value(a) {
									push(ld)
								}
							}
						}
					}
				}
			case *ssa.Return:
				for _, c := range calls[u.Parent()] {
					if cv, ok := c.(ssa.Value); ok {
						push(cv)
					}
				}
			case ssa.CallInstruction:
				c := u.Common()
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				for _, g := range p.callees(u, true) {
					for i, a := range args {
						if a == v && i < len(g.Params) {
							push(g.Params[i])
						}
					}
				}
				if g := c.StaticCallee(); g != nil && !inModule(g) {
					for i, a := range args {
						if a != v {
							continue
						}
						switch op := g.String(); {
						case op == "net.Dial" && i == 1, op == "net.DialTimeout" && i == 1, strings.HasPrefix(op, "(*net.Dialer).Dial") && i == len(args)-1:
							sinks = append(sinks, sink{"peer dialled", u.Pos()})
						case op == "net.Listen" && i == 1, op == "net/http.ListenAndServe" && i == 0:
							sinks = append(sinks, sink{"address served", u.Pos()})
						case op == "net/http.NewRequest" && i == 1, op == "net/http.NewRequestWithContext" && i == 2, op == "net/http.Get" && i == 0, op == "(*net/http.Client).Get" && i == 1:
							sinks = append(sinks, sink{"explorer asked", u.Pos()})
						case strings.Contains(op, "golang-migrate/migrate") && strings.Contains(g.Name(), "New") && i == 0:
							sinks = append(sinks, sink{"migrations read", u.Pos()})
						case opIn(op, "strings.", "net.JoinHostPort", "net/url.", "path.", "fmt.", "strconv.", "(*net/url.URL)"):
							if cv, ok := u.(ssa.Value); ok {
								push(cv)
							}
						}
					}
				}
			case ssa.Value:
				switch u.(type) {
				case *ssa.BinOp, *ssa.UnOp, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Extract, *ssa.Slice, *ssa.TypeAssert:
					if b, ok := u.(*ssa.BinOp); ok && b.Op != token.ADD {
						continue
					}
					push(u)
				}
			}
		}
	}
	return sinks
}

// listUse: an element of an argument list: its meaning if the list fills in a connection string, the result otherwise.
func (p *Prog) listUse(list *ssa.Alloc, elem *ssa.IndexAddr, push func(ssa.Value), sinks *[]sink) {
	for _, r := range *list.Referrers() {
		s, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *s.Referrers() {
			c, ok := u.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			if pkgPathOf(c.Call.StaticCallee()) == "fmt" && strings.HasPrefix(c.Call.StaticCallee().Name(), "Sprint") {
				if t, ok := constText(c.Call.Args[0]); ok {
					i, isC := elem.Index.(*ssa.Const)
					if l := dsnLabels(t); l != nil && isC && int(i.Int64()) < len(l) {
						*sinks = append(*sinks, sink{"database " + l[i.Int64()], c.Pos()})
						continue
					}
				}
				push(c)
			}
		}
	}
}

// fieldReads: every place the field is read.
func (p *Prog) fieldReads(f *types.Var) []ssa.Value {
	if p.reads == nil {
		p.reads = map[*types.Var][]ssa.Value{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.FieldAddr:
						v := structOf(pointee(i.X.Type())).Field(i.Field)
						for _, u := range *i.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
								p.reads[v] = append(p.reads[v], l)
							}
						}
					case *ssa.Field:
						v := structOf(i.X.Type()).Field(i.Field)
						p.reads[v] = append(p.reads[v], i)
					}
				}
			}
		}
	}
	return p.reads[f]
}

func checkA11(p *Prog, r *Report) {
	r.rule("default", "each setting that is read has one default, of the kind it is read as")
	r.rule("reaches", "each part of the daemon is configured by its own setting, and by no other")
	r.rule("documented", "the environment variables of the deployment are those the daemon reads")
	r.rule("refused", "settings are used only after they were loaded, and an invalid network is refused")
	r.rule("startup", "the daemon goes on only while every step of starting it succeeded")
	defaults := map[string]ssa.Value{}
	prefix := ""
	auto, dynamic := false, false
	for _, f := range p.Funcs {
		if testOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				switch a := c.Call.Args; isViper(&c.Call) {
				case "SetDefault":
					if k, ok := constText(a[len(a)-2]); ok {
						r.check(defaults[k] == nil, "default", k+": once", c.Pos(), nil, "the setting has two defaults, one setting replaces another")
						v := a[len(a)-1]
						if m, ok := v.(*ssa.MakeInterface); ok {
							v = m.X
						}
						defaults[k] = v
					} else {
						dynamic = true // keys come from a table
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if m, ok := in.(*ssa.MapUpdate); ok {
									if k, ok := constText(m.Key); ok {
										defaults[k] = m.Value
										if mi, ok := m.Value.(*ssa.MakeInterface); ok {
											defaults[k] = mi.X
										}
									}
								}
							}
						}
					}
				case "SetEnvPrefix":
					prefix, _ = constText(a[len(a)-1])
				case "AutomaticEnv":
					auto = true
				case "BindEnv":
					auto = true
				}
			}
		}
	}
	sets := p.settings()
	if len(defaults) == 0 && !dynamic || len(sets) == 0 {
		r.anchorLost("the settings of the daemon")
		return
	}
	r.check(auto, "documented", "environment", token.NoPos, nil, "settings are not read from the environment")
	for _, s := range sets {
		d := defaults[s.key]
		fit := false
		if d != nil {
			b, ok := d.Type().Underlying().(*types.Basic)
			switch {
			case !ok:
				fit = true
			case s.kind == "GetString":
				fit = b.Info()&types.IsString != 0
			case strings.HasPrefix(s.kind, "GetInt"), strings.HasPrefix(s.kind, "GetUint"):
				fit = b.Info()&types.IsInteger != 0
			default:
				fit = true
			}
		}
		r.check(d != nil || dynamic, "default", s.key+" in "+fname(s.call.Parent()), s.call.Pos(), nil, "the setting has no default")
		r.check(d == nil || fit, "default", s.key+" in "+fname(s.call.Parent())+": kind", s.call.Pos(), nil, "the setting is read with %s, its default is another kind of value", s.kind)
	}
	if text, err := os.ReadFile(filepath.Join(p.Repo, "docker-compose.yml")); err == nil {
		for _, m := range regexp.MustCompile(`(?m)^\s+(NEUTRINO_\w+):`).FindAllStringSubmatch(string(text), -1) {
			k := strings.TrimPrefix(m[1], prefix+"_")
			used := false
			for _, s := range sets {
				used = used || s.key == k
			}
			r.check(used, "documented", m[1], token.NoPos, nil, "no setting is read from this variable")
		}
	}
	// what each part is configured by
	want := map[string]string{
		"address served": "NEUTRINOD_URL", "peer dialled": "PEER_URL", "explorer asked": "EXPLORER_URL", "migrations read": "DB_MIGRATION_PATH",
		"database user": "DB_USER", "database pass": "DB_PASS", "database host": "DB_HOST", "database port": "DB_PORT", "database name": "DB_NAME",
	}
	got := map[string]map[string]token.Pos{}
	for _, s := range sets {
		for _, k := range p.usesOf(s.call) {
			if got[k.name] == nil {
				got[k.name] = map[string]token.Pos{}
			}
			got[k.name][s.key] = k.pos
			r.check(want[k.name] == s.key, "reaches", k.name+" by "+s.key, s.call.Pos(), nil, "the %s is configured by %s, it has its own setting %s", k.name, s.key, want[k.name])
		}
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		_, ok := got[n][want[n]]
		r.check(ok, "reaches", n, token.NoPos, nil, "setting %s does not reach the %s", want[n], n)
	}
	p.checkNetworkRefused(r)
	p.checkStartup(r)
	r.need("default", 12)
	r.need("reaches", 9)
	r.need("documented", 4)
	r.need("refused", 1)
	r.need("startup", 3)
}

// checkNetworkRefused: loading the settings succeeds only for a network known to be one of those there are.
func (p *Prog) checkNetworkRefused(r *Report) {
	loads := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && isViper(&c.Call) == "SetDefault"
	})
	n := 0
	for f := range loads {
		if strings.HasPrefix(rel(pkgPathOf(f)), "cmd/") {
			delete(loads, f)
		}
	}
	for _, fn := range p.topOf(loads, func(f *ssa.Function) bool { return true }) {
		if !hasErrResult(fn) {
			continue
		}
		n++
		x := newExec(p)
		short := fname(fn)
		pkg := pkgPathOf(fn)
		compared, accepted := map[string]bool{}, map[string]bool{}
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return pkgPathOf(f) == pkg }
		x.pure = func(op string) bool {
			return opIn(op, "fmt.", "github.com/sirupsen/logrus", "errors.", "strings.") || strings.Contains(op, "viper.Viper).Get")
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvBranch:
				for c, v := range st.facts {
					if c.k == KUn && c.op == "!" {
						c, v = c.args[0], !v
					}
					if c.k == KBin && c.op == "==" && !v {
						for i := range c.args {
							if g := unconv(c.args[i]); g.k == KCall && strings.HasSuffix(g.op, "viper.Viper).GetString") {
								compared[c.args[1-i].String()] = true
							}
						}
					}
					if c.k == KBin && c.op == "==" && v {
						for i := range c.args {
							if g := unconv(c.args[i]); g.k == KCall && strings.HasSuffix(g.op, "viper.Viper).GetString") {
								if k, ok := g.args[len(g.args)-1].isStr(); ok && k == "NETWORK" && c.args[1-i].k != KCall {
									st.set("known")
									st.add(Atom{name: "is", s: c.args[1-i].String()})
								}
							}
						}
					}
					// or an entry of a table
					if t := c; v && t.k == KExtract && t.args[0].k == KLookup && t.args[0].has(func(t *Term) bool { return strings.HasSuffix(t.op, "viper.Viper).GetString") }) {
						st.set("known")
					}
				}
			case EvReturn:
				if ev.frame != nil && ev.frame.fn != fn {
					return
				}
				if _, ok := successFacts(st, ev.args); ok {
					if is := st.all("is"); len(is) == 1 { // names differ from each other
						accepted[is[0].s] = true
					}
					pos := fn.Pos()
					if ev.instr != nil {
						pos = ev.instr.Pos()
					}
					r.check(st.flag("known"), "refused", short+": network", pos, st.path(12), "the settings are accepted although the network may be none of those there are")
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
		for v := range compared {
			r.check(accepted[v], "refused", short+": "+v, fn.Pos(), nil, "the settings are never accepted with %s, which is asked about", v)
		}
	}
	if n == 0 {
		r.anchorLost("what loads the settings")
	}
}

// checkStartup: after a step of main that can fail, the next one is taken only if it is known not to have failed.
func (p *Prog) checkStartup(r *Report) {
	n := 0
	for _, fn := range p.Funcs {
		pkg := rel(pkgPathOf(fn))
		if fn.Name() != "main" || fn.Parent() != nil || !strings.HasPrefix(pkg, "cmd/") || len(fn.Params) > 0 || !p.readsSettings(fn) {
			continue
		}
		n++
		x := newExec(p)
		short := fname(fn)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool { return rel(pkgPathOf(f)) == pkg }
		x.pure = func(op string) bool { return opIn(op, "fmt.", "github.com/sirupsen/logrus", "errors.") }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if stopsProgram(ev.op) {
					ev.prune = true
					return
				}
				if ev.call == nil || ev.inl {
					return
				}
				f := ev.call.static
				if f != nil && !inModule(f) || f == nil && ev.call.m == nil {
					return
				}
				r.check(len(st.all("step")) == 0, "startup", short+": before "+ev.op[strings.LastIndex(ev.op, ".")+1:], ev.instr.Pos(), st.path(12), "the step is taken although an earlier one may have failed")
			case EvResult:
				if e := errOf(ev.res); e != nil && ev.call != nil && (ev.call.static == nil || inModule(ev.call.static)) && !ev.inl {
					st.add(Atom{name: "step", a: e})
				}
			case EvBranch:
				for _, a := range st.all("step") {
					if errNil(st.facts, a.a) {
						st.del(a)
					}
				}
			}
		}
		err := x.run(fn, rootOpt{})
		r.ran(x, short, err)
	}
	if n == 0 {
		r.anchorLost("what starts the daemon")
	}
}

// readsSettings: a program that reads the settings of the daemon.
func (p *Prog) readsSettings(fn *ssa.Function) bool {
	return p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && isViper(&c.Call) != ""
	})[fn]
}
