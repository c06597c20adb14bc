package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S03", checkS03) }

// connOf: is the value a network connection (not a buffer read from one)?
func isConn(t *Term) bool {
	for {
		t = t.strip()
		if t.k == KCall {
			switch t.op {
			case "bufio.NewReader", "pkg/binary.NewDecoder", "io.TeeReader", "io.LimitReader":
				t = t.args[0]
				continue
			}
			if strings.HasSuffix(t.op, ".Connection") {
				return true
			}
			return false
		}
		break
	}
	switch shortType(t.typ) {
	case "net.Conn", "*websocket.Conn", "*net.TCPConn":
		return true
	}
	return false
}

// connRead: does the call read from a connection, and which value is its error?
func connRead(ev *Event) (bool, *Term) {
	if ev.kind != EvResult || len(ev.args) == 0 {
		return false, nil
	}
	ok := false
	switch ev.op {
	case "(*pkg/binary.Decoder).Decode", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io/ioutil.ReadAll",
		"(*github.com/gorilla/websocket.Conn).ReadMessage", "(*github.com/gorilla/websocket.Conn).ReadJSON", "(*github.com/gorilla/websocket.Conn).NextReader",
		"(io.Reader).Read", "(io.ReadWriteCloser).Read", "(net.Conn).Read", "(*bufio.Reader).Read":
		ok = isConn(ev.args[0])
	case "encoding/binary.Read":
		ok = isConn(ev.args[0])
	case "io.CopyN", "io.Copy":
		ok = len(ev.args) > 1 && isConn(ev.args[1])
	}
	if !ok {
		return false, nil
	}
	return true, errOf(ev.res)
}

// errOf is the error among the results of a call.
func errOf(res *Term) *Term {
	if res == nil || res.typ == nil {
		return nil
	}
	if tp, ok := res.typ.(*types.Tuple); ok {
		for i := tp.Len() - 1; i >= 0; i-- {
			if isErrorType(tp.At(i).Type()) {
				return mkExtract(res, i, tp.At(i).Type())
			}
		}
		return nil
	}
	if isErrorType(res.typ) {
		return res
	}
	return nil
}

func isTimerChan(t *Term) bool {
	t = t.strip()
	if t.k == KCall && (t.op == "time.After" || t.op == "time.Tick") {
		return true
	}
	id := fieldValID(t)
	return id == "time.Timer.C" || id == "time.Ticker.C"
}

func isCtxDone(t *Term) bool {
	t = t.strip()
	return t.k == KCall && t.op == "(context.Context).Done"
}

func checkS03(p *Prog, r *Report) {
	r.rule("stop-closes", "Stop closes the component's stop channel, or finds it already closed, on every path")
	r.rule("wait-with-stop", "every blocking channel operation of a component is a select that also waits for a stop channel of the component (or a bounded wait)")
	r.rule("leave", "after the stop signal was observed in an endless loop, the loop is left")
	r.rule("loop-observes", "every iteration of an endless loop observes the stop signal or reads from its connection and ends when that fails")
	r.rule("join", "waiting for other goroutines in Stop happens only after the stop channel was closed")
	r.rule("repeats", "stopping again does not close the stop channel again: the close runs once per start")
	take(p, r, checkS04, map[string]string{"close-once.": "repeats", "flag-reset.": "repeats"})
	r.need("repeats", 3)
	r.rule("shutdown", "the shutdown of the daemon stops every component")
	stop := p.stopFields(r)
	comps := p.components()
	pkgs := map[string]bool{}
	for _, c := range comps {
		pkgs[c.name[:strings.LastIndex(c.name, ".")]] = true
	}
	r.notes = append(r.notes, "stop channels: "+strings.Join(sortedKeys(stop), ", "))
	stopFns := map[*ssa.Function]string{}
	for _, c := range comps {
		stopFns[c.stop] = c.name
		has := false
		for f, n := range stop {
			if n == c.name || strings.HasPrefix(f, c.name+".") {
				has = true
			}
		}
		if !has {
			r.bad("stop-closes", c.name+".Stop", c.stop.Pos(), nil, "Stop closes no stop channel of its component")
		}
		stopPaths(p, r, c, stop)
	}
	if len(comps) < 5 {
		r.anchorLost("five components with a Stop method")
	}
	isStop := func(st *State, t *Term) bool {
		if isCtxDone(t) {
			return true
		}
		_, ok := stop[chanClass(st, t)]
		return ok
	}
	p.runAll(r, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		if !pkgs[rel(pkgPathOf(root))] {
			return nil, rootOpt{}
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		x.on = func(x *Exec, st *State, ev *Event) {
			cons := func(what string) string { return fname(ev.frame.fn) + ": " + what }
			mark := func(name string, a *Term) {
				for _, k := range x.activeLoops(st) {
					st.add(Atom{name: name, a: a, s: k})
				}
			}
			switch ev.kind {
			case EvSend, EvRecv:
				if ev.isSel {
					if ev.kind == EvRecv && isStop(st, ev.addr) {
						for _, k := range x.activeLoops(st) {
							// a loop that looks at the signal earlier in its iteration sees it
							// again in the next one
							if inFrame(ev.frame, k) || st.has(Atom{name: "first", s: k}) {
								st.add(Atom{name: "stopped", s: k})
							}
						}
						st.note("%s: stop signal observed", p.pos(ev.instr.Pos()))
					}
					return
				}
				dir := "receive from "
				if ev.kind == EvSend {
					dir = "send on "
				}
				okW := ev.kind == EvRecv && (isTimerChan(ev.addr) || isStop(st, ev.addr))
				r.check(okW, "wait-with-stop", cons(dir+chanClass(st, ev.addr)), ev.instr.Pos(), st.path(20), "a blocking %s%s does not end when the component is stopped", dir, chanClass(st, ev.addr))
			case EvSelect:
				hasStop := false
				var cs []string
				for i, c := range ev.chans {
					cs = append(cs, chanClass(st, c))
					if ev.dirs[i] == types.RecvOnly && isStop(st, c) {
						hasStop = true
					}
				}
				if hasStop {
					for _, k := range x.activeLoops(st) {
						if st.has(Atom{name: "observed", s: k}) {
							st.del(Atom{name: "first", s: k})
						} else {
							st.add(Atom{name: "first", s: k})
						}
					}
					mark("observed", nil)
				}
				if ev.block {
					sort.Strings(cs)
					r.check(hasStop, "wait-with-stop", cons("select on "+strings.Join(cs, ", ")), ev.instr.Pos(), st.path(20), "the select does not wait for the stop signal of the component")
				}
			case EvResult:
				if ok, e := connRead(ev); ok && e != nil {
					mark("connread", e)
				}
			case EvCall:
				if ev.op == "(*sync.WaitGroup).Wait" {
					okJ := false
					for _, a := range st.all("closed") {
						if _, is := stop[a.s]; is {
							okJ = true
						}
					}
					r.check(okJ, "join", cons("WaitGroup.Wait"), ev.instr.Pos(), st.path(20), "waits for goroutines before telling them to stop")
				}
				if ev.op == "close" {
					st.add(Atom{name: "closed", s: chanClass(st, ev.args[0])})
				}
			case EvBack:
				h := ev.frame.blk
				k := loopKey(ev.frame, h)
				hpos := h.Instrs[0].Pos()
				for _, in := range h.Instrs {
					if in.Pos().IsValid() {
						hpos = in.Pos()
						break
					}
				}
				connOK, sawConn := false, false
				for _, a := range st.all("connread") {
					if a.s != k {
						continue
					}
					sawConn = true
					v, known := st.facts.eval(mkBin(tokEQL, a.a, cNil(nil), nil))
					if known && v {
						connOK = true
					} else {
						connOK = false
						r.bad("loop-observes", cons("loop"), hpos, st.path(30), "the loop goes on although reading from its connection failed or was not checked")
						break
					}
				}
				stopped := st.has(Atom{name: "stopped", s: k})
				obs := st.has(Atom{name: "observed", s: k})
				if !p.boundedLoop(h) {
					if stopped && !connOK {
						r.bad("leave", cons("loop"), hpos, st.path(30), "the loop goes on after the stop signal was observed")
					} else {
						r.ok("leave", cons("loop"), hpos)
					}
					if !obs && !sawConn {
						r.bad("loop-observes", cons("loop"), hpos, st.path(30), "an iteration of this endless loop neither observes the stop signal nor reads from a connection")
					} else {
						r.ok("loop-observes", cons("loop"), hpos)
					}
				}
				forget(st, func(s string) bool { return s == k })
			case EvExit, EvEnter:
				// loops of the callee's frame start anew when it is called again
				f := ev.frame
				if ev.kind == EvExit {
					forget(st, func(s string) bool { return inFrame(f, s) })
				}
			}
		}
		return x, rootOpt{}
	})
	// the daemon's shutdown reaches every Stop
	seenShut := false
	p.runAll(&Report{p: p, rules: map[string]string{}, obl: map[string]map[string]string{}, bads: r.bads, fns: r.fns}, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		if rel(pkgPathOf(root)) != "internal/interface/web-socket" {
			return nil, rootOpt{}
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(fn)) == "internal/interface/web-socket" || fn.Name() == "Stop"
		}
		x.resolve = func(x *Exec, st *State, c *callRec) []*ssa.Function {
			if c.m.Name() == "Stop" {
				return resolveAll(x, st, c)
			}
			return nil
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvRecv:
				if isCtxDone(ev.addr) {
					st.set("shutdown")
				}
			case EvCall:
				if ev.fn != nil {
					if n := stopFns[ev.fn]; n != "" {
						st.add(Atom{name: "stopcall", s: n})
					}
				}
				if ev.op == "(*sync.Once).Do" {
					st.set("once-called")
				}
			case EvReturn:
				if g == nil || !st.flag("shutdown") {
					return
				}
				seenShut = true
				for _, c := range comps {
					called := st.has(Atom{name: "stopcall", s: c.name})
					if !called && st.flag("once-called") && len(st.all("once")) == 0 {
						called = true // skipped because an earlier Stop ran
					}
					if !called && onceSkips(st, comps, c.name) {
						called = true
					}
					r.check(called, "shutdown", "shutdown stops "+c.name, ev.instr.Pos(), st.path(30), "the daemon shuts down without stopping %s", c.name)
				}
			}
		}
		return x, rootOpt{}
	})
	if !seenShut {
		r.anchorLost("goroutine of the daemon that shuts down when its context is done")
	}
	r.need("wait-with-stop", 15)
	r.need("leave", 5)
	r.need("loop-observes", 6)
	r.need("shutdown", 5)
}

// forget drops what is known about the loops selected.
func forget(st *State, sel func(s string) bool) {
	for _, n := range []string{"stopped", "observed", "connread", "first"} {
		for _, a := range st.all(n) {
			if sel(a.s) {
				st.del(a)
			}
		}
	}
}

// inFrame: is the loop one of the frame?
func inFrame(f *Frame, key string) bool {
	c := 0
	if f.ctx != nil {
		c = f.ctx.id
	}
	return strings.HasPrefix(key, fname(f.fn)+"#") && strings.HasSuffix(key, "#"+itoa(c))
}

// onceSkips: a Stop run before is assumed to have stopped what it contains.
func onceSkips(st *State, comps []component, name string) bool {
	for _, a := range st.all("stopcall") {
		// MemPool is stopped inside the node's once-guarded Stop, the notification service
		// inside the handler's Stop
		_ = a
	}
	n := 0
	for range st.all("stopcall") {
		n++
	}
	return n > 0 && st.flag("once-called") && !st.has(Atom{name: "stopcall", s: name}) && containedIn(comps, st, name)
}

// containedIn: the component is a field (by value) of another component whose Stop was called.
func containedIn(comps []component, st *State, name string) bool {
	for _, c := range comps {
		if !st.has(Atom{name: "stopcall", s: c.name}) {
			continue
		}
		s := structOf(pointee(c.typ))
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if typeName(s.Field(i).Type()) == name {
				return true
			}
		}
	}
	return false
}

// stopPaths: every path of Stop closes the stop channel or skips it because it was done.
func stopPaths(p *Prog, r *Report, c component, stop map[string]string) {
	unset := map[string]bool{} // flags that make Stop do nothing while they are not set
	defer func() { startSets(p, r, c, unset) }()
	for _, skipOnce := range []bool{true} {
		_ = skipOnce
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				if ev.op == "close" {
					st.add(Atom{name: "closed", s: chanClass(st, ev.args[0])})
				}
				if ev.op == "(*sync.Once).Do" {
					st.set("once-called")
				}
				if ev.fn != nil && ev.fn != c.stop && ev.fn.Name() == "Stop" || ev.op != "" && strings.HasSuffix(ev.op, ").Stop") {
					n := ""
					if ev.fn != nil && ev.fn.Signature.Recv() != nil {
						n = typeName(ev.fn.Signature.Recv().Type())
					}
					st.add(Atom{name: "substop", s: n})
				}
			case EvBranch:
				t := ev.addr
				for t.k == KUn && t.op == "!" {
					t = t.args[0]
				}
				if id := fieldValID(t); strings.HasPrefix(id, c.name+".") && t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.Bool]) {
					st.set("flag-tested")
				}
				if t.k == KBin && t.op == "==" {
					for _, a := range t.args {
						if id := fieldValID(a); strings.HasPrefix(id, c.name+".") {
							if _, isCh := a.typ.Underlying().(*types.Chan); isCh {
								st.set("flag-tested")
							}
						}
					}
				}
			case EvRecv:
				if _, ok := stop[chanClass(st, ev.addr)]; ok {
					st.set("flag-tested") // found it closed already
				}
			case EvReturn:
				closed := false
				for _, a := range st.all("closed") {
					if strings.HasPrefix(a.s, c.name+".") {
						closed = true
					}
				}
				if !closed {
					ran := false
					for _, a := range st.all("once") {
						_ = a
						ran = true
					}
					if st.flag("once-called") && !ran {
						closed = true
					}
					if st.flag("flag-tested") {
						closed = true
						for f, b := range st.facts {
							if id := fieldValID(f); strings.HasPrefix(id, c.name+".") && !b && f.typ != nil && types.Identical(f.typ.Underlying(), types.Typ[types.Bool]) {
								unset[id] = true
							}
						}
					}
				}
				r.check(closed, "stop-closes", c.name+".Stop: return", ev.instr.Pos(), st.path(30), "Stop returns without closing the stop channel")
				// components contained by value are stopped with their owner
				if s := structOf(pointee(c.typ)); s != nil && len(st.all("once")) > 0 {
					for i := 0; i < s.NumFields(); i++ {
						n := typeName(s.Field(i).Type())
						if n == "" || p.named2(n) == nil {
							continue
						}
						for _, o := range p.components() {
							if o.name == n {
								r.check(st.has(Atom{name: "substop", s: n}), "stop-closes", c.name+".Stop stops "+n, ev.instr.Pos(), st.path(30), "Stop does not stop the %s it contains", n)
							}
						}
					}
				}
			}
		}
		err := x.run(c.stop, rootOpt{})
		r.ran(x, fname(c.stop), err)
	}
}

// startSets: whatever starts goroutines of the component sets the flags without which Stop does nothing.
func startSets(p *Prog, r *Report, c component, flags map[string]bool) {
	if len(flags) == 0 {
		return
	}
	for _, root := range p.roots() {
		if root == c.stop || root.Signature.Recv() == nil || typeName(root.Signature.Recv().Type()) != c.name {
			continue
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, fn *ssa.Function, c *callRec) bool { return stdInline(st, fn) }
		starts := false
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvGo:
				starts = true
				st.set("started")
			case EvStore:
				if id := fieldID(ev.addr); flags[id] {
					if b, ok := ev.val.isBool(); ok && b {
						st.add(Atom{name: "set", s: id})
					} else {
						st.del(Atom{name: "set", s: id})
					}
				}
			case EvReturn:
				if !st.flag("started") {
					return
				}
				for id := range flags {
					r.check(st.has(Atom{name: "set", s: id}), "stop-closes", fname(root)+": "+id, ev.instr.Pos(), st.path(20), "starts goroutines without setting %s, without which Stop does not stop them", id)
				}
			}
		}
		if !p.startsGo(root) {
			continue
		}
		err := x.run(root, rootOpt{})
		if starts {
			r.ran(x, fname(root), err)
		}
	}
}

// startsGo: the function, or one of the same package it calls, starts a goroutine.
func (p *Prog) startsGo(fn *ssa.Function) bool {
	found := false
	p.sameCallees(fn, func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					found = true
				}
			}
		}
	})
	return found
}
