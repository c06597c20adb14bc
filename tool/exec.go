package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine: a path-sensitive dataflow analysis over SSA. A state is a call stack of
// symbolic registers, a symbolic memory, the branch conditions met (facts) and the
// facts of the rule being checked (atoms). It is run to a fixpoint over program points.

type Atom struct {
	name    string
	a, b, c *Term
	s       string
}

type deferRec struct {
	instr *ssa.Defer
	call  callRec
}

type callRec struct {
	fn     *Term // function value, nil for invoke
	static *ssa.Function
	m      *types.Func
	recv   *Term
	args   []*Term
	blt    string
	common *ssa.CallCommon
	instr  ssa.Instruction
}

type Frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	env     map[ssa.Value]*Term
	defers  []deferRec
	retTo   ssa.Value // register of the caller that receives the result
	fnTerm  *Term
	isDefer bool // called by RunDefers of the frame below
	call    ssa.Instruction
	entry   map[*ssa.BasicBlock]*loopEntry // what was known when a loop was entered
	decided map[*ssa.BasicBlock]bool       // the condition of this block was a constant
}

type loopEntry struct {
	facts Facts
	mem   map[*Term]*Term
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  Facts
	atoms  map[Atom]bool
	trace  *traceNode
}

type traceNode struct {
	parent *traceNode
	what   string
	n      int
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{facts: s.facts.clone(), trace: s.trace, mem: make(map[*Term]*Term, len(s.mem)), atoms: make(map[Atom]bool, len(s.atoms))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.atoms {
		n.atoms[k] = true
	}
	for _, f := range s.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]deferRec{}, f.defers...)
		if f.decided != nil {
			c.decided = make(map[*ssa.BasicBlock]bool, len(f.decided))
			for k, v := range f.decided {
				c.decided[k] = v
			}
		}
		if f.entry != nil {
			c.entry = make(map[*ssa.BasicBlock]*loopEntry, len(f.entry))
			for k, v := range f.entry {
				c.entry[k] = v
			}
		}
		n.frames = append(n.frames, &c)
	}
	return n
}

func (s *State) add(a Atom)      { s.atoms[a] = true }
func (s *State) del(a Atom)      { delete(s.atoms, a) }
func (s *State) has(a Atom) bool { return s.atoms[a] }
func (s *State) flag(n string) bool {
	return s.atoms[Atom{name: n}]
}
func (s *State) set(n string)   { s.atoms[Atom{name: n}] = true }
func (s *State) unset(n string) { delete(s.atoms, Atom{name: n}) }
func (s *State) all(name string) []Atom {
	var r []Atom
	for a := range s.atoms {
		if a.name == name {
			r = append(r, a)
		}
	}
	sort.Slice(r, func(i, j int) bool { return atomKey(r[i]) < atomKey(r[j]) })
	return r
}
func (s *State) clear(name string) {
	for a := range s.atoms {
		if a.name == name {
			delete(s.atoms, a)
		}
	}
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func atomKey(a Atom) string {
	return fmt.Sprintf("%s|%d|%d|%d|%s", a.name, tid(a.a), tid(a.b), tid(a.c), a.s)
}

func (s *State) note(f string, a ...interface{}) {
	n := 0
	if s.trace != nil {
		n = s.trace.n
	}
	s.trace = &traceNode{parent: s.trace, what: fmt.Sprintf(f, a...), n: n + 1}
}

func (s *State) path(limit int) []string {
	var r []string
	for t := s.trace; t != nil && len(r) < limit; t = t.parent {
		r = append(r, t.what)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type EvKind int

const (
	EvCall      EvKind = iota // about to call (opaque or inlined)
	EvResult                  // an opaque call returned; res is its value
	EvEnter                   // inlined body entered
	EvExit                    // inlined body returned
	EvStore                   // addr, val
	EvLoad                    // addr, val
	EvSend                    // ch, val (also chosen select case)
	EvRecv                    // ch
	EvSelect                  // before choosing a case
	EvGo                      //
	EvDefer                   //
	EvReturn                  // root function returns; args are the results
	EvBranch                  // a condition was decided on a path
	EvMapUpdate               // addr=map, key, val
	EvLookup                  // addr=map, key
	EvBack                    // back edge taken
	EvPanic                   //
	EvIndex                   // addr=collection, key=index
	EvAssert                  // addr=value
	EvMake                    // key=size
	EvPoint                   // every instruction (if wanted)
	EvStart                   // root start
	EvTouch                   // field or element address computed
	EvGot                     // addr=channel, val=what was received
)

type Event struct {
	kind  EvKind
	instr ssa.Instruction
	call  *callRec
	fn    *ssa.Function // static target if known
	op    string        // name of the callee
	args  []*Term       // all arguments, receiver first
	res   *Term
	addr  *Term
	val   *Term
	key   *Term
	prune bool
	inl   bool // EvCall: will be inlined
	block bool // EvSelect: blocking
	sel   *ssa.Select
	chans []*Term
	dirs  []types.ChanDir
	isSel bool // EvSend/EvRecv as a case of a select
	ncase int
	frame *Frame
}

type Exec struct {
	p       *Prog
	on      func(x *Exec, st *State, ev *Event)
	inline  func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool
	resolve func(x *Exec, st *State, c *callRec) []*ssa.Function
	points  bool
	maxStep int
	steps   int
	blocks  map[*ssa.BasicBlock]bool
	fns     map[*ssa.Function]bool
	paths   int
	err     error
	work    []*State
	memo    map[string]bool
	maxInl  int
	pure    func(op string) bool
	appends map[genKey]map[*Term]bool
}

func newExec(p *Prog) *Exec {
	return &Exec{p: p, maxStep: 400000, blocks: map[*ssa.BasicBlock]bool{}, fns: map[*ssa.Function]bool{}, memo: map[string]bool{}, maxInl: 14}
}

type rootOpt struct {
	args  []*Term
	binds []*Term
	init  func(*State)
	facts Facts
	mem   map[*Term]*Term
}

func (x *Exec) run(fn *ssa.Function, o rootOpt) error {
	if fn == nil || fn.Blocks == nil {
		return fmt.Errorf("no body to analyse")
	}
	st := &State{mem: map[*Term]*Term{}, facts: Facts{}, atoms: map[Atom]bool{}}
	for k, v := range o.facts {
		st.facts[k] = v
	}
	for k, v := range o.mem {
		st.mem[k] = v
	}
	fr := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}}
	for i, pr := range fn.Params {
		if i < len(o.args) && o.args[i] != nil {
			fr.env[pr] = o.args[i]
		} else {
			fr.env[pr] = tt.mk(Term{k: KParam, val: pr, typ: pr.Type(), idx: i})
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(o.binds) && o.binds[i] != nil {
			fr.env[fv] = o.binds[i]
		} else {
			fr.env[fv] = tt.mk(Term{k: KFree, val: fv, typ: fv.Type(), idx: i})
		}
	}
	st.frames = []*Frame{fr}
	if o.init != nil {
		o.init(st)
	}
	x.emit(st, &Event{kind: EvStart, fn: fn})
	x.memo = map[string]bool{}
	x.work = []*State{st}
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.step(s)
		if x.err != nil {
			return x.err
		}
	}
	return nil
}

func (x *Exec) emit(st *State, ev *Event) bool {
	if len(st.frames) > 0 {
		ev.frame = st.top()
	}
	if x.on != nil {
		x.on(x, st, ev)
	}
	return !ev.prune
}

// step runs one state until it ends or forks.
func (x *Exec) step(st *State) {
	for {
		fr := st.top()
		if fr.idx == 0 {
			if !x.enterBlock(st) {
				return
			}
		}
		if fr.idx >= len(fr.blk.Instrs) {
			x.err = fmt.Errorf("%s: fell off block", fname(fr.fn))
			return
		}
		in := fr.blk.Instrs[fr.idx]
		x.steps++
		if x.steps > x.maxStep*40 {
			x.err = fmt.Errorf("step limit exceeded in %s", fname(fr.fn))
			return
		}
		if !x.exec(st, in) {
			return
		}
	}
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) {
	fr := st.top()
	fr.prev, fr.blk, fr.idx = fr.blk, to, 0
}

// enterBlock evaluates the phis and checks whether an equal state was seen here before.
func (x *Exec) enterBlock(st *State) bool {
	fr := st.top()
	x.blocks[fr.blk] = true
	x.fns[fr.fn] = true
	back := x.p.isBackEdge(fr.prev, fr.blk)
	if back {
		if !x.emit(st, &Event{kind: EvBack, instr: fr.blk.Instrs[0]}) {
			return false
		}
	}
	pi := -1
	if fr.prev != nil {
		pi = predIndex(fr.blk, fr.prev)
	}
	type upd struct {
		ph *ssa.Phi
		v  *Term
	}
	var us []upd
	n := 0
	for _, in := range fr.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		us = append(us, upd{ph, x.val(st, ph.Edges[pi])})
	}
	for _, u := range us {
		v := u.v
		if back && widenable(u.ph.Type()) {
			if old := fr.env[u.ph]; old == u.v {
				continue
			}
			// loops whose bounds are constants on this path are unrolled
			if n, ok := u.v.isInt(); ok && fr.decided[fr.blk] && n <= 64 && n >= -64 {
				fr.env[u.ph] = v
				continue
			}
			v = x.widen(st, u.ph, u.v, us2(us, func(q upd) *Term { return q.v }))
		} else if n, k := st.facts.eval(mkBin(token.EQL, v, cNil(nil), nil)); back && (isRef(u.ph.Type()) && (v.depth > 16 || v.k == KLookup && len(v.gens) == 0 && k && !n) || v.depth > 16 && (v.k == KCall || v.k == KExtract)) {
			// reached from the value of the last turn, and so on
			v = x.widen(st, u.ph, u.v, nil)
			if k {
				st.facts[mkBin(token.EQL, v, cNil(nil), nil)] = n
			}
		}
		fr.env[u.ph] = v
	}
	fr.idx = n
	if x.p.loop(fr.fn).header[fr.blk] {
		x.loopForget(st, fr, back)
	}
	x.gc(st)
	k := x.key(st)
	if x.memo[k] {
		return false
	}
	x.memo[k] = true
	x.debugState(st)
	if len(x.memo) > x.maxStep {
		x.err = fmt.Errorf("state limit exceeded in %s", fname(fr.fn))
		return false
	}
	return true
}

// loopForget drops, on a back edge, what the iteration learnt about memory and conditions
// that are not tied to a value still in use.
func (x *Exec) loopForget(st *State, fr *Frame, back bool) {
	if !back {
		if fr.entry == nil {
			fr.entry = map[*ssa.BasicBlock]*loopEntry{}
		}
		e := &loopEntry{facts: Facts{}, mem: map[*Term]*Term{}}
		for k, v := range st.facts {
			if len(k.gens) == 0 {
				e.facts[k] = v
			}
		}
		for k, v := range st.mem {
			if len(k.gens) == 0 {
				e.mem[k] = v
			}
		}
		fr.entry[fr.blk] = e
		return
	}
	e := fr.entry[fr.blk]
	if e == nil {
		return
	}
	for k := range st.facts {
		if len(k.gens) == 0 {
			if _, ok := e.facts[k]; !ok {
				delete(st.facts, k)
			}
		}
	}
	var gone []*Term
	for k, v := range st.mem {
		if len(k.gens) == 0 && e.mem[k] != v {
			delete(st.mem, k)
			gone = append(gone, k)
		}
	}
	if len(gone) > 0 {
		x.forgetLoads(st, gone)
	}
}

// forgetLoads renames what was read from memory that has changed since, so that it is not
// taken for what is read from it later.
func (x *Exec) forgetLoads(st *State, gone []*Term) {
	hit := func(t *Term) bool {
		return t.k == KLoad && func() bool {
			for _, g := range gone {
				if t.args[0] == g || hasPrefix(t.args[0], g) {
					return true
				}
			}
			return false
		}()
	}
	memo := map[*Term]*Term{}
	var sub func(t *Term) *Term
	sub = func(t *Term) *Term {
		if t == nil || len(t.args) == 0 {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		memo[t] = t
		if hit(t) {
			r := tt.mk(Term{k: KUnk, op: "old", args: t.args, typ: t.typ})
			memo[t] = r
			return r
		}
		var as []*Term
		ch := false
		for _, a := range t.args {
			b := sub(a)
			if b != a {
				ch = true
			}
			as = append(as, b)
		}
		if !ch {
			return t
		}
		n := *t
		n.args = as
		n.gens = nil
		n.depth = 0
		if n.k == KBin && n.op == "==" && as[0].id > as[1].id {
			as[0], as[1] = as[1], as[0]
		}
		r := tt.mk(n)
		memo[t] = r
		return r
	}
	for _, t := range st.terms() {
		sub(t)
	}
	nf := Facts{}
	for k, v := range st.facts {
		if sub(k) == k {
			nf[k] = v
		}
	}
	st.facts = nf
	x.mapTerms(st, sub)
}

// mapTerms rewrites the registers, memory and atoms of a state.
func (x *Exec) mapTerms(st *State, sub func(*Term) *Term) {
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
		for i := range f.defers {
			c := &f.defers[i].call
			if c.fn != nil {
				c.fn = sub(c.fn)
			}
			if c.recv != nil {
				c.recv = sub(c.recv)
			}
			na := make([]*Term, len(c.args))
			for j, a := range c.args {
				na[j] = sub(a)
			}
			c.args = na
		}
	}
	nm := make(map[*Term]*Term, len(st.mem))
	for _, k := range byID(st.mem) {
		nm[sub(k)] = sub(st.mem[k])
	}
	st.mem = nm
	na := make(map[Atom]bool, len(st.atoms))
	for a := range st.atoms {
		a.a, a.b, a.c = sub(a.a), sub(a.b), sub(a.c)
		na[a] = true
	}
	st.atoms = na
}

// byID: the keys in the order they were created, so that runs can be repeated exactly.
func byID[V any](m map[*Term]V) []*Term {
	r := make([]*Term, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// terms lists every term of a state in the order of creation.
func (s *State) terms() []*Term {
	m := map[*Term]bool{}
	for _, f := range s.frames {
		for _, v := range f.env {
			m[v] = true
		}
		for _, d := range f.defers {
			m[d.call.fn], m[d.call.recv] = true, true
			for _, a := range d.call.args {
				m[a] = true
			}
		}
	}
	for k, v := range s.mem {
		m[k], m[v] = true, true
	}
	for k := range s.facts {
		m[k] = true
	}
	for a := range s.atoms {
		m[a.a], m[a.b], m[a.c] = true, true, true
	}
	delete(m, nil)
	return byID(m)
}

func us2[T any](in []T, f func(T) *Term) []*Term {
	var r []*Term
	for _, x := range in {
		r = append(r, f(x))
	}
	return r
}

func widenable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsString) != 0
}

// widen replaces the value of a loop variable on a back edge by an unknown, keeping the
// lower (upper) bounds of its former value when it only grows (shrinks).
func (x *Exec) widen(st *State, ph *ssa.Phi, nv *Term, _ []*Term) *Term {
	fr := st.top()
	old := fr.env[ph]
	if old == nil && isIntType(ph.Type()) { // only its successor is still in use
		if i := predIndex(fr.blk, fr.prev); i >= 0 {
			if b, ok := ph.Edges[i].(*ssa.BinOp); ok && b.X == ssa.Value(ph) && (b.Op == token.ADD || b.Op == token.SUB) {
				if k, ok := b.Y.(*ssa.Const); ok {
					op := token.SUB
					if b.Op == token.SUB {
						op = token.ADD
					}
					old = mkBin(op, nv, cInt(k.Int64(), ph.Type()), ph.Type())
				}
			}
		}
	}
	var lower, upper []Atom // a: bound term, s: "<" or "<="
	if old != nil && isIntType(ph.Type()) {
		ob, oo := linear(old)
		nb, no := linear(nv)
		grow := ob == nb && no > oo
		shrink := ob == nb && no < oo
		if grow || shrink {
			cands := map[*Term]bool{}
			for f := range st.facts {
				if f.k == KBin && (f.op == "<" || f.op == "==") && isIntTerm(f.args[0]) {
					for _, a := range f.args {
						b, _ := linear(a)
						if b != nil && b != ob {
							cands[b] = true
						}
					}
				}
			}
			if ob != nil && !ob.gens[genKey{KPhi, ph, fr.ctx}] {
				cands[ob] = true
			}
			cands[cInt(0, ph.Type())] = true
			again := old.gens[genKey{KPhi, ph, fr.ctx}] // not the first turn: what holds already goes on to hold
			for _, c := range byID(cands) {
				if c.gens[genKey{KPhi, ph, fr.ctx}] {
					continue
				}
				if again {
					for f, v := range st.facts {
						if v || f.k != KBin || f.op != "<" {
							continue
						}
						// f: not l < r, r <= l
						lb, lo := linear(f.args[0])
						rb, ro := linear(f.args[1])
						cb, co := linear(c)
						if grow && lb == ob && rb == cb {
							// c <= old + d
							d := lo - oo - (ro - co)
							if d <= 0 {
								lower = append(lower, Atom{a: c, s: fmt.Sprint(d), name: "ge"})
							}
						} else if shrink && rb == ob && lb == cb {
							if d := lo - co - ro + oo; d <= 0 {
								upper = append(upper, Atom{a: c, s: fmt.Sprint(d)})
							}
						}
					}
					continue
				}
				if grow {
					from := old
					if _, isC := old.isInt(); isC && shortStep(ob, nb) {
						from = nv // at least one turn was made
					}
					if d := st.facts.diff(c, from); d <= 0 && d > -inf {
						lower = append(lower, Atom{a: c, s: fmt.Sprint(d), name: "ge"})
					}
				} else {
					if d := st.facts.diff(old, c); d <= 0 && d > -inf {
						upper = append(upper, Atom{a: c, s: fmt.Sprint(d)})
					}
				}
			}
		}
	}
	x.stale(st, genKey{KPhi, ph, fr.ctx})
	v := tt.mk(Term{k: KPhi, site: ph, ctx: fr.ctx, typ: ph.Type()})
	add := func(bs []Atom, lo bool) {
		for _, b := range bs {
			var d int64
			fmt.Sscan(b.s, &d)
			bound := mkBin(token.SUB, b.a, cInt(d, b.a.typ), b.a.typ)
			if !lo {
				bound = mkBin(token.ADD, b.a, cInt(d, b.a.typ), b.a.typ)
			}
			if lo { // bound <= v
				st.facts[mkBin(token.LSS, v, bound, nil)] = false
			} else {
				st.facts[mkBin(token.LSS, bound, v, nil)] = false
			}
		}
	}
	add(lower, true)
	add(upper, false)
	for f, val := range st.facts { // folding of constants may have produced trivial facts
		if _, ok := f.isBool(); ok {
			_ = val
			delete(st.facts, f)
		}
	}
	return v
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// shortStep: both values are constants.
func shortStep(a, b *Term) bool { return a == nil && b == nil }

func isIntTerm(t *Term) bool { return t.typ != nil && isIntType(t.typ) }

// ---- stale substitution ----

func (x *Exec) anyGen(st *State, g genKey) bool {
	for _, f := range st.frames {
		for _, v := range f.env {
			if v.gens[g] {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.call.args {
				if a.gens[g] {
					return true
				}
			}
			if d.call.fn != nil && d.call.fn.gens[g] || d.call.recv != nil && d.call.recv.gens[g] {
				return true
			}
		}
	}
	for k, v := range st.mem {
		if k.gens[g] || v.gens[g] {
			return true
		}
	}
	for k := range st.facts {
		if k.gens[g] {
			return true
		}
	}
	for a := range st.atoms {
		if a.a != nil && a.a.gens[g] || a.b != nil && a.b.gens[g] || a.c != nil && a.c.gens[g] {
			return true
		}
	}
	return false
}

func isStaleOf(t *Term, g genKey) bool {
	return t.gens[genKey{KStale, g.site, g.ctx}]
}

func (x *Exec) stale(st *State, g genKey) {
	if !x.anyGen(st, g) {
		return
	}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term { return subst(t, g, memo) }
	for _, t := range st.terms() {
		if t.gens[g] {
			sub(t)
		}
	}
	for f := range st.facts {
		if isStaleOf(f, g) {
			delete(st.facts, f)
		}
	}
	for k := range st.mem {
		if isStaleOf(k, g) {
			delete(st.mem, k)
		}
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			if v.gens[g] {
				f.env[k] = sub(v)
			}
		}
		for i := range f.defers {
			c := &f.defers[i].call
			if c.fn != nil {
				c.fn = sub(c.fn)
			}
			if c.recv != nil {
				c.recv = sub(c.recv)
			}
			na := make([]*Term, len(c.args))
			for j, a := range c.args {
				na[j] = sub(a)
			}
			c.args = na
		}
	}
	nm := make(map[*Term]*Term, len(st.mem))
	for _, k := range byID(st.mem) {
		nm[sub(k)] = sub(st.mem[k])
	}
	st.mem = nm
	nf := make(Facts, len(st.facts))
	for _, k := range byID(st.facts) {
		nf[sub(k)] = st.facts[k]
	}
	st.facts = nf
	na := make(map[Atom]bool, len(st.atoms))
	for a := range st.atoms {
		if a.a != nil {
			a.a = sub(a.a)
		}
		if a.b != nil {
			a.b = sub(a.b)
		}
		if a.c != nil {
			a.c = sub(a.c)
		}
		na[a] = true
	}
	st.atoms = na
}

func subst(t *Term, g genKey, memo map[*Term]*Term) *Term {
	if !t.gens[g] {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	var r *Term
	if t.k == g.k && t.site == g.site && t.ctx == g.ctx {
		r = tt.mk(Term{k: KStale, op: kindName[t.k] + t.op, site: t.site, ctx: t.ctx, typ: t.typ, idx: t.idx})
	} else {
		n := *t
		n.args = make([]*Term, len(t.args))
		for i, a := range t.args {
			n.args[i] = subst(a, g, memo)
		}
		if n.k == KBin && n.op == "==" && n.args[0].id > n.args[1].id {
			n.args[0], n.args[1] = n.args[1], n.args[0]
		}
		n.gens = nil
		n.depth = 0
		r = tt.mk(n)
	}
	memo[t] = r
	return r
}

// inLoop: can the instruction about to run be run again in this calling context?
func (x *Exec) inLoop(st *State) bool {
	for _, f := range st.frames {
		if x.p.loop(f.fn).inLoop[f.blk] {
			return true
		}
	}
	return false
}

// fresh makes a generative term for the current instruction.
func (x *Exec) fresh(st *State, t Term) *Term {
	t.ctx = st.top().ctx
	if x.inLoop(st) {
		x.stale(st, genKey{t.k, t.site, t.ctx})
	}
	return tt.mk(t)
}

// ---- garbage collection and state keys ----

func rootOf(t *Term) *Term {
	for {
		switch t.k {
		case KField, KIndex, KSlice, KConv, KFieldV, KIndexV:
			t = t.args[0]
		default:
			return t
		}
	}
}

func (x *Exec) gc(st *State) {
	for i, f := range st.frames {
		var live map[ssa.Value]bool
		if i == len(st.frames)-1 {
			live = x.p.liveness(f.fn).in[f.blk]
			for v := range f.env {
				if live[v] {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == f.blk {
					continue
				}
				delete(f.env, v)
			}
		} else {
			live = x.p.liveAfter(f.blk, f.idx-1)
			for v := range f.env {
				if !live[v] {
					delete(f.env, v)
				}
			}
		}
	}
	gens := map[genKey]bool{}
	addG := func(t *Term) {
		if t == nil {
			return
		}
		for g := range t.gens {
			gens[g] = true
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			addG(v)
		}
		for _, d := range f.defers {
			for _, a := range d.call.args {
				addG(a)
			}
			addG(d.call.fn)
			addG(d.call.recv)
		}
	}
	for a := range st.atoms {
		addG(a.a)
		addG(a.b)
		addG(a.c)
	}
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			ok := true
			for g := range k.gens {
				if !gens[g] {
					ok = false
				}
			}
			if ok {
				for g := range v.gens {
					if !gens[g] {
						gens[g] = true
						changed = true
					}
				}
			}
		}
	}
	allIn := func(t *Term) bool {
		for g := range t.gens {
			if !gens[g] {
				return false
			}
		}
		return true
	}
	for k := range st.mem {
		if !allIn(k) {
			delete(st.mem, k)
		}
	}
	var sub map[*Term]bool
	for k := range st.facts {
		if !allIn(k) {
			delete(st.facts, k)
			continue
		}
		if hasStale(k) {
			// what is known of values of former iterations is kept only while those very values are in use
			if sub == nil {
				sub = x.subterms(st)
			}
			keep := true
			if k.k == KBin {
				for _, a := range k.args {
					if hasStale(a) {
						b, _ := linear(a)
						if !sub[b] {
							keep = false
						}
					}
				}
			} else if !sub[k] && !(k.k == KExtract && sub[k.args[0]]) {
				keep = false
			}
			if !keep {
				delete(st.facts, k)
			}
		}
	}
}

func hasStale(t *Term) bool { return t.stale }

func (x *Exec) subterms(st *State) map[*Term]bool {
	m := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || m[t] {
			return
		}
		m[t] = true
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			rec(v)
		}
		for _, d := range f.defers {
			for _, a := range d.call.args {
				rec(a)
			}
			rec(d.call.fn)
			rec(d.call.recv)
		}
	}
	for k, v := range st.mem {
		rec(k)
		rec(v)
	}
	for a := range st.atoms {
		rec(a.a)
		rec(a.b)
		rec(a.c)
	}
	return m
}

func (x *Exec) key(st *State) string {
	var sb strings.Builder
	for i, f := range st.frames {
		cid := 0
		if f.ctx != nil {
			cid = f.ctx.id
		}
		fmt.Fprintf(&sb, "#%d,%d,%d,%d", tt.sid(f.fn), cid, f.blk.Index, tt.sid2v(f.retTo))
		if i < len(st.frames)-1 {
			fmt.Fprintf(&sb, "@%d", f.idx)
		}
		var ks []string
		for v, t := range f.env {
			ks = append(ks, fmt.Sprintf("%d=%d", tt.sid(v), t.id))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";d%d:%d:%d", tt.sid(d.instr), tid(d.call.fn), tid(d.call.recv))
			for _, a := range d.call.args {
				fmt.Fprintf(&sb, ".%d", a.id)
			}
		}
	}
	var ks []string
	for k, v := range st.mem {
		ks = append(ks, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(ks)
	sb.WriteString("|M")
	sb.WriteString(strings.Join(ks, ","))
	ks = ks[:0]
	for k, v := range st.facts {
		ks = append(ks, fmt.Sprintf("%d=%v", k.id, v))
	}
	sort.Strings(ks)
	sb.WriteString("|F")
	sb.WriteString(strings.Join(ks, ","))
	ks = ks[:0]
	for a := range st.atoms {
		ks = append(ks, atomKey(a))
	}
	sort.Strings(ks)
	sb.WriteString("|A")
	sb.WriteString(strings.Join(ks, ","))
	return sb.String()
}

// ---- values ----

func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
				return cNil(c.Type())
			case *types.Basic:
				if b := c.Type().Underlying().(*types.Basic); b.Kind() == types.UntypedNil || b.Kind() == types.UnsafePointer {
					return cNil(c.Type())
				}
			}
			return zeroOf(c.Type())
		}
		cv := c.Value
		if cv.Kind() == constant.Float {
			if i := constant.ToInt(cv); i.Kind() == constant.Int && isIntType(c.Type()) {
				cv = i
			}
		}
		return tt.mk(Term{k: KConst, typ: c.Type(), cst: cv})
	case *ssa.Global:
		return tt.mk(Term{k: KGlobal, val: c, typ: c.Type()})
	case *ssa.Function:
		return tt.mk(Term{k: KFunc, val: c, fn: c, typ: c.Type()})
	case *ssa.Builtin:
		return tt.mk(Term{k: KBuiltin, op: c.Name()})
	}
	fr := st.top()
	if t := fr.env[v]; t != nil {
		return t
	}
	return tt.mk(Term{k: KUnk, op: "undef", val: v, typ: v.Type()})
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(i)
}

func fieldAddr(base *Term, f *types.Var) *Term {
	return tt.mk(Term{k: KField, args: []*Term{base}, fld: f, typ: types.NewPointer(f.Type())})
}

func indexAddr(base, i *Term, elem types.Type) *Term {
	// an element of a[:] is an element of a
	for base.k == KSlice && base.op == "" {
		base = base.args[0]
	}
	return tt.mk(Term{k: KIndex, args: []*Term{base, i}, typ: types.NewPointer(elem)})
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldVal(v *Term, f *types.Var) *Term {
	switch v.k {
	case KStruct:
		s := structOf(v.typ)
		if s != nil {
			for i := 0; i < s.NumFields() && i < len(v.args); i++ {
				if s.Field(i) == f {
					return v.args[i]
				}
			}
		}
	case KZero:
		return zeroOf(f.Type())
	case KLoad:
		return tt.mk(Term{k: KLoad, args: []*Term{fieldAddr(v.args[0], f)}, typ: f.Type()})
	case KConv:
		// conversion between struct types with identical fields
		if s, o := structOf(v.typ), structOf(v.args[0].typ); s != nil && o != nil && s.NumFields() == o.NumFields() {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == f {
					return fieldVal(v.args[0], o.Field(i))
				}
			}
		}
	}
	return tt.mk(Term{k: KFieldV, args: []*Term{v}, fld: f, typ: f.Type()})
}

func isFreshRoot(t *Term) bool {
	return t.k == KAlloc || (t.k == KMake)
}

// hasPrefix: address a lies inside the object at address p
func hasPrefix(a, p *Term) bool {
	for a.k == KField || a.k == KIndex {
		a = a.args[0]
		if a == p {
			return true
		}
	}
	return false
}

// load reads the memory at an address.
func (x *Exec) load(st *State, addr *Term, typ types.Type) *Term {
	if addr.k == KClosure || addr.k == KFunc {
		return addr
	}
	// struct with separately written fields
	if s := structOf(typ); s != nil {
		any := false
		for k := range st.mem {
			if hasPrefix(k, addr) {
				any = true
				break
			}
		}
		if any {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, x.load(st, fieldAddr(addr, s.Field(i)), s.Field(i).Type()))
			}
			return tt.mk(Term{k: KStruct, args: fs, typ: typ})
		}
	}
	if v := st.mem[addr]; v != nil {
		return v
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 {
		any := false
		for k := range st.mem {
			if hasPrefix(k, addr) {
				any = true
				break
			}
		}
		if any {
			var fs []*Term
			for i := int64(0); i < a.Len(); i++ {
				fs = append(fs, x.load(st, indexAddr(addr, cInt(i, nil), a.Elem()), a.Elem()))
			}
			return tt.mk(Term{k: KStruct, op: "array", args: fs, typ: typ})
		}
	}
	// inside an object whose whole value is known
	if addr.k == KField || addr.k == KIndex {
		base := addr.args[0]
		if v := x.whole(st, base); v != nil {
			if addr.k == KField {
				return fieldVal(v, addr.fld)
			}
			return x.indexVal(v, addr.args[1], typ)
		}
	}
	r := rootOf(addr)
	if r.k == KAlloc {
		// fresh memory nobody wrote to
		if !x.symWrites(st, addr) {
			return zeroOf(typ)
		}
	}
	return tt.mk(Term{k: KLoad, args: []*Term{addr}, typ: typ})
}

func (x *Exec) symWrites(st *State, addr *Term) bool {
	if addr.k != KIndex {
		return false
	}
	for k := range st.mem {
		if k.k == KIndex && k.args[0] == addr.args[0] && k != addr {
			_, c1 := k.args[1].isInt()
			_, c2 := addr.args[1].isInt()
			if !c1 || !c2 {
				return true
			}
		}
	}
	return false
}

// whole: the known value of the whole object at addr, if any
func (x *Exec) whole(st *State, addr *Term) *Term {
	if v := st.mem[addr]; v != nil {
		return v
	}
	if addr.k == KField || addr.k == KIndex {
		if v := x.whole(st, addr.args[0]); v != nil {
			if addr.k == KField {
				return fieldVal(v, addr.fld)
			}
			if pt, ok := addr.typ.(*types.Pointer); ok {
				return x.indexVal(v, addr.args[1], pt.Elem())
			}
		}
	}
	return nil
}

func (x *Exec) indexVal(v, i *Term, typ types.Type) *Term {
	if v.k == KStruct && v.op == "array" {
		if n, ok := i.isInt(); ok && n >= 0 && int(n) < len(v.args) {
			return v.args[n]
		}
	}
	if v.k == KZero {
		return zeroOf(typ)
	}
	return tt.mk(Term{k: KIndexV, args: []*Term{v, i}, typ: typ})
}

func (x *Exec) store(st *State, addr, v *Term, in ssa.Instruction) {
	for k := range st.mem {
		if k == addr {
			continue
		}
		if hasPrefix(k, addr) {
			delete(st.mem, k)
			continue
		}
		if mayAlias(k, addr) {
			st.mem[k] = tt.mk(Term{k: KUnk, op: "alias", args: []*Term{k}, typ: st.mem[k].typ})
		}
	}
	st.mem[addr] = v
}

func mayAlias(a, b *Term) bool {
	if a.k != b.k {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	if isFreshRoot(ra) && ra != rb || isFreshRoot(rb) && ra != rb {
		return false
	}
	switch a.k {
	case KField:
		if a.fld != b.fld {
			return false
		}
		return a.args[0] == b.args[0] || mayAliasBase(a.args[0], b.args[0])
	case KIndex:
		i, ok1 := a.args[1].isInt()
		j, ok2 := b.args[1].isInt()
		if ok1 && ok2 && i != j {
			return false
		}
		return a.args[0] == b.args[0]
	}
	return false
}

func mayAliasBase(a, b *Term) bool {
	if a.k == KField && b.k == KField {
		return mayAlias(a, b)
	}
	if a.k == KGlobal || b.k == KGlobal {
		return false
	}
	return true
}

// snap describes what is known of the memory an argument points to.
func (x *Exec) snap(st *State, a *Term, d int) *Term {
	b := a
	for b.k == KIface || b.k == KConv {
		b = b.args[0]
	}
	var pt *Term = b
	for pt.k == KSlice {
		pt = pt.args[0]
	}
	if pt.k != KAlloc && pt.k != KMake && pt.k != KParam && pt.k != KAppend && pt.k != KField && pt.k != KIndex {
		return nil
	}
	var keys []*Term
	for k := range st.mem {
		if k == pt || hasPrefix(k, pt) {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var as []*Term
	for _, k := range keys {
		as = append(as, st.mem[k])
		if d < 3 {
			if s := x.snap(st, st.mem[k], d+1); s != nil {
				as = append(as, s)
			}
		}
	}
	return tt.mk(Term{k: KSnap, args: as})
}

// elems returns the elements of a slice built as a literal or from variadic arguments.
func (x *Exec) elems(st *State, s *Term) ([]*Term, bool) {
	if s.isNil() {
		return nil, true
	}
	if s.k == KAppend && !strings.HasPrefix(s.op, "loop") && len(s.args) > 0 {
		r, ok := x.elems(st, s.args[0])
		if !ok {
			return nil, false
		}
		r = append([]*Term{}, r...)
		for _, a := range s.args[1:] {
			if a.k != KSpread {
				r = append(r, a)
				continue
			}
			m, ok := x.elems(st, a.args[0])
			if !ok {
				return nil, false
			}
			r = append(r, m...)
		}
		return r, true
	}
	if s.k != KSlice || s.op != "" {
		return nil, false
	}
	a := s.args[0]
	pt, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	arr, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || a.k != KAlloc || arr.Len() > 256 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < arr.Len(); i++ {
		r = append(r, x.load(st, indexAddr(a, cInt(i, nil), arr.Elem()), arr.Elem()))
	}
	return r, true
}
