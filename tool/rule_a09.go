package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("A09", checkA09) }

func checkA09(p *Prog, r *Report) {
	r.rule("made", "the channels and tables a component uses are made when it is created")
	r.rule("same", "a channel handed out is one that the component sends on")
	r.rule("returns", "starting a component leaves its endless loops to goroutines")
	r.rule("forwards", "a middleware hands every request on to what it wraps, once")
	r.rule("routes", "every endpoint leads to its own handler")
	r.rule("ends", "after the shutdown signal the error channel that the daemon waits on is closed")
	r.rule("hang-up", "the connection of a web-socket client is closed when serving it ends")
	r.rule("valid", "a subscription that asks for nothing, or from a height that doesn't exist, is refused")
	checkValid(p, r)
	checkMade(p, r)
	checkSame(p, r)
	checkReturns(p, r)
	checkForwards(p, r)
	checkRoutes(p, r)
	checkEnds(p, r)
	for _, fn := range p.wsRoots() {
		checkHangUp(p, r, fn)
	}
	r.need("valid", 3)
	r.need("made", 8)
	r.need("same", 2)
	r.need("returns", 3)
	r.need("forwards", 2)
	r.need("routes", 2)
	r.need("ends", 1)
	r.need("hang-up", 1)
}

// structField: the named struct type and field that the address is of.
func structField(a *ssa.FieldAddr) (*types.Named, *types.Var) {
	n, ok := pointee(a.X.Type()).(*types.Named)
	if !ok {
		return nil, nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return n, s.Field(a.Field)
}

func isChanOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Chan, *types.Map:
		return true
	}
	return false
}

// checkMade: where a component is created, each channel and table it uses is made.
func checkMade(p *Prog, r *Report) {
	used := map[*types.Var]bool{}   // sent on, received from, closed or written
	remade := map[*types.Var]bool{} // set by an operation of the component itself
	loadOf := func(v ssa.Value) *types.Var {
		for {
			switch i := v.(type) {
			case *ssa.ChangeType:
				v = i.X
				continue
			case *ssa.UnOp:
				if i.Op == token.MUL {
					if a, ok := i.X.(*ssa.FieldAddr); ok {
						_, f := structField(a)
						return f
					}
				}
			}
			return nil
		}
	}
	use := func(v ssa.Value) {
		if f := loadOf(v); f != nil {
			used[f] = true
		}
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.Send:
			use(i.Chan)
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				use(i.X)
			}
		case *ssa.Select:
			for _, s := range i.States {
				use(s.Chan)
			}
		case *ssa.MapUpdate:
			use(i.Map)
		case ssa.CallInstruction:
			for _, a := range i.Common().Args {
				if isChanOrMap(a.Type()) {
					use(a)
				}
			}
		case *ssa.Return:
			for _, a := range i.Results {
				if isChanOrMap(a.Type()) {
					use(a)
				}
			}
		case *ssa.Store:
			if a, ok := i.Addr.(*ssa.FieldAddr); ok && isChanOrMap(pointee(a.Type())) {
				if _, local := a.X.(*ssa.Alloc); !local {
					if _, f := structField(a); f != nil && !isNilConst(i.Val) {
						remade[f] = true
					}
				}
			}
		}
	})
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		al, ok := in.(*ssa.Alloc)
		if !ok || testOnly(fn) {
			return
		}
		n, ok := pointee(al.Type()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !inScope(n.Obj().Pkg().Path()) {
			return
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		stored := map[int][]ssa.Value{}
		whole := false
		for _, u := range *al.Referrers() {
			switch i := u.(type) {
			case *ssa.Store:
				if i.Addr == ssa.Value(al) {
					whole = true // a copy
				}
			case *ssa.FieldAddr:
				for _, w := range *i.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(i) {
						stored[i.Field] = append(stored[i.Field], st.Val)
					}
				}
			}
		}
		if whole {
			return
		}
		for k := 0; k < s.NumFields(); k++ {
			f := s.Field(k)
			if !isChanOrMap(f.Type()) || !used[f] {
				continue
			}
			vs := stored[k]
			bad := len(vs) == 0
			for _, v := range vs {
				bad = bad || isNilConst(v)
			}
			if bad && remade[f] && !isMapT(f.Type()) {
				r.ok("made", n.Obj().Name()+"."+f.Name()+" (by an operation)", al.Pos())
				continue
			}
			r.check(!bad, "made", n.Obj().Name()+"."+f.Name(), al.Pos(), nil, "%s is created without its %s, so that whoever uses it waits forever or fails", n.Obj().Name(), f.Name())
		}
	})
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func isNilConst(v ssa.Value) bool {
	for {
		switch i := v.(type) {
		case *ssa.ChangeType:
			v = i.X
			continue
		case *ssa.Const:
			return i.IsNil()
		}
		return false
	}
}

// checkSame: what an operation hands out as a channel is a channel of the component that is sent on.
func checkSame(p *Prog, r *Report) {
	sent := map[*types.Var]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		switch i := v.(type) {
		case *ssa.ChangeType:
			mark(i.X)
		case *ssa.UnOp:
			if a, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
				if _, f := structField(a); f != nil {
					sent[f] = true
				}
			}
		case *ssa.Phi:
			for _, e := range i.Edges {
				if _, ok := e.(*ssa.Phi); !ok {
					mark(e)
				}
			}
		}
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.Send:
			mark(i.Chan)
		case *ssa.Select:
			for _, s := range i.States {
				if s.Dir == types.SendOnly {
					mark(s.Chan)
				}
			}
		case ssa.CallInstruction:
			for _, a := range i.Common().Args {
				if _, ok := a.Type().Underlying().(*types.Chan); ok {
					mark(a)
				}
			}
		}
	})
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || testOnly(fn) || fn.Parent() != nil {
			return
		}
		for _, v := range ret.Results {
			if _, ok := v.Type().Underlying().(*types.Chan); !ok {
				continue
			}
			for _, o := range chanOrigins(v) {
				switch i := o.(type) {
				case *ssa.MakeChan:
					n := 0
					for _, u := range *i.Referrers() {
						switch w := u.(type) {
						case *ssa.Return:
						case *ssa.ChangeType:
							if !onlyReturned(w) {
								n++
							}
						case *ssa.Store:
							if a, ok := w.Addr.(*ssa.Alloc); !ok || !allocOnlyReturned(a) {
								n++
							}
						default:
							n++
						}
					}
					r.check(n > 0, "same", fname(fn)+": made", ret.Pos(), nil, "a channel is handed out that nobody sends on")
				case *ssa.UnOp:
					if a, ok := i.X.(*ssa.FieldAddr); ok {
						if _, f := structField(a); f != nil {
							r.check(sent[f], "same", fname(fn)+": "+f.Name(), ret.Pos(), nil, "the channel %s is handed out, but nobody sends on it", f.Name())
						}
					}
				}
			}
		}
	})
}

func onlyReturned(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		if s, is := u.(*ssa.Store); is && s.Val == v {
			if a, ok := s.Addr.(*ssa.Alloc); ok && allocOnlyReturned(a) {
				continue
			}
		}
		if _, is := u.(*ssa.Return); !is {
			return false
		}
	}
	return true
}

// allocOnlyReturned: the variable is only set and returned.
func allocOnlyReturned(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		switch i := u.(type) {
		case *ssa.Store:
			if i.Addr != ssa.Value(a) {
				return false
			}
		case *ssa.UnOp:
			if !onlyReturned(i) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func chanOrigins(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var res []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if a, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						walk(s.Val)
					}
				}
				return
			}
			res = append(res, v)
		default:
			res = append(res, v)
		}
	}
	walk(v)
	return res
}

// waitsForStop: the function has a loop that nothing but a stop signal, a
// closed channel or a failed read ends: no exit edge of it leaves on a
// condition other than what a select or receive yielded.
func endlessLoop(p *Prog, f *ssa.Function) bool {
	li := p.loop(f)
	for h, body := range li.body {
		if p.boundedLoop(h) {
			continue
		}
		selects, exits := false, false
		for b := range body {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Select); ok && s.Blocking {
					selects = true
				}
			}
			for _, s := range b.Succs {
				if body[s] {
					continue
				}
				if !leavesBySelect(b) {
					exits = true
				}
			}
		}
		if selects && !exits {
			return true
		}
	}
	return false
}

// leavesBySelect: the block is only reached, or left, by which case of a select was chosen.
func leavesBySelect(b *ssa.BasicBlock) bool {
	for n := 0; b != nil && n < 8; n++ {
		if len(b.Instrs) == 0 {
			return false
		}
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && n >= 0 {
			if x, ok := c.Cond.(*ssa.BinOp); ok && x.Op == token.EQL {
				if e, ok := x.X.(*ssa.Extract); ok && e.Index == 0 {
					if _, ok := e.Tuple.(*ssa.Select); ok {
						return true
					}
				}
			}
			if n == 0 {
				return false
			}
			return false
		}
		if len(b.Preds) != 1 {
			return false
		}
		b = b.Preds[0]
	}
	return false
}

// checkReturns: no Start runs an endless loop itself.
func checkReturns(p *Prog, r *Report) {
	endless := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !testOnly(f) && endlessLoop(p, f) {
			endless[f] = true
		}
	}
	// the loop that waits for scan requests
	pick := p.scanFns().pick
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if callsOne(in, pick) && enclosingLoop(b) != nil {
					endless[f] = true
				}
			}
		}
	}
	// called synchronously
	reach := map[*ssa.Function]bool{}
	for f := range endless {
		reach[f] = true
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					for _, g := range p.callees(in, false) {
						if reach[g] && !reach[f] {
							reach[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if testOnly(f) || f.Name() != "Start" || f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		r.check(!reach[f], "returns", fname(f), f.Pos(), nil, "starting the component runs an endless loop of it, so that Start never returns")
	}
	if len(endless) < 2 {
		r.anchorLost("the endless loops of the components")
	}
}

func isHandlerFunc(t types.Type) bool {
	if namedIs(t, "net/http.HandlerFunc") {
		return true
	}
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && s.Results().Len() == 0 && namedIs(s.Params().At(0).Type(), "net/http.ResponseWriter") && namedIs(s.Params().At(1).Type(), "*net/http.Request")
}

// checkForwards: the functions made by middlewares call what they wrap, on every path, once.
func checkForwards(p *Prog, r *Report) {
	for _, fn := range p.Funcs {
		if !inIface(fn) || testOnly(fn) {
			continue
		}
		if fn.Parent() != nil && isHandlerFunc(fn.Signature) {
			// a closure over the handler wrapped
			var next []ssa.Value
			for _, v := range fn.FreeVars {
				if isHandlerFunc(v.Type()) || isHandlerFunc(pointee(v.Type())) {
					next = append(next, v)
				}
			}
			if len(next) == 0 {
				continue
			}
			calls := map[*ssa.BasicBlock]int{}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					v := c.Call.Value
					if g := c.Call.StaticCallee(); g != nil && g.Name() == "ServeHTTP" && len(c.Call.Args) > 0 {
						v = c.Call.Args[0]
					}
					if ofFree(v, next) {
						calls[b]++
					}
				}
			}
			miss, twice := pathsCalling(fn, calls)
			r.check(!miss, "forwards", fname(fn), fn.Pos(), nil, "a request may be dropped by the middleware instead of being handed on to the handler")
			r.check(!twice, "forwards", fname(fn)+": once", fn.Pos(), nil, "a request may be handed on to the handler twice")
			continue
		}
		// wraps a handler in a list of middlewares
		var list *ssa.Parameter
		var hf *ssa.Parameter
		for _, v := range fn.Params {
			if s, ok := v.Type().Underlying().(*types.Slice); ok {
				if g, ok := s.Elem().Underlying().(*types.Signature); ok && g.Params().Len() == 1 && g.Results().Len() == 1 && isHandlerFunc(g.Params().At(0).Type()) && isHandlerFunc(g.Results().At(0).Type()) {
					list = v
				}
			}
			if isHandlerFunc(v.Type()) {
				hf = v
			}
		}
		if list == nil && hf != nil && fn.Signature.Results().Len() == 1 && isHandlerFunc(fn.Signature.Results().At(0).Type()) {
			for _, b := range fn.Blocks {
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					r.check(wraps(i.Results[0], hf, map[ssa.Value]bool{}), "forwards", fname(fn)+": wraps", i.Pos(), nil, "the middleware drops the handler it is put around")
				}
			}
		}
		if list == nil || hf == nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Return:
					r.check(wraps(i.Results[0], hf, map[ssa.Value]bool{}), "forwards", fname(fn)+": result", i.Pos(), nil, "what is returned does not wrap the handler given")
				case *ssa.Call:
					if i.Call.StaticCallee() != nil || i.Call.IsInvoke() || len(i.Call.Args) != 1 || !isHandlerFunc(i.Call.Args[0].Type()) || !isHandlerFunc(i.Type()) {
						continue
					}
					h := enclosingLoop(b)
					if h == nil {
						continue
					}
					ph, ok := stripChange(i.Call.Args[0]).(*ssa.Phi)
					ok = ok && p.loop(fn).body[h][ph.Block()]
					if !ok {
						if l, is := stripChange(i.Call.Args[0]).(*ssa.UnOp); is && l.Op == token.MUL {
							ok = true // a variable
						}
					}
					r.check(ok, "forwards", fname(fn)+": chain", i.Pos(), nil, "a middleware is put around the handler itself instead of around what the others wrapped, which are dropped")
				}
			}
		}
	}
}

func stripChange(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = c.X
	}
}

func ofFree(v ssa.Value, next []ssa.Value) bool {
	for {
		switch i := v.(type) {
		case *ssa.ChangeType:
			v = i.X
			continue
		case *ssa.MakeInterface:
			v = i.X
			continue
		case *ssa.UnOp:
			v = i.X
			continue
		}
		break
	}
	for _, n := range next {
		if v == n {
			return true
		}
	}
	return false
}

// wraps: the value is the handler, or made of it by calls.
func wraps(v ssa.Value, hf ssa.Value, seen map[ssa.Value]bool) bool {
	v = stripChange(v)
	if v == hf {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			if !wraps(e, hf, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, a := range i.Call.Args {
			if isHandlerFunc(a.Type()) && wraps(a, hf, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if a, ok := i.X.(*ssa.Alloc); ok && i.Op == token.MUL {
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) && !wraps(s.Val, hf, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.MakeClosure:
		for _, b := range i.Bindings {
			if isHandlerFunc(b.Type()) && wraps(b, hf, seen) {
				return true
			}
			if a, ok := b.(*ssa.Alloc); ok && isHandlerFunc(pointee(a.Type())) {
				return true
			}
		}
	}
	return false
}

// pathsCalling: whether a path returns without passing a call, or passes two.
func pathsCalling(fn *ssa.Function, calls map[*ssa.BasicBlock]int) (miss, twice bool) {
	type node struct {
		b *ssa.BasicBlock
		n int
	}
	seen := map[node]bool{}
	var walk func(b *ssa.BasicBlock, n int)
	walk = func(b *ssa.BasicBlock, n int) {
		n += calls[b]
		if n > 1 {
			twice = true
			return
		}
		k := node{b, n}
		if seen[k] {
			return
		}
		seen[k] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && n == 0 {
				miss = true
			}
		}
		for _, s := range b.Succs {
			walk(s, n)
		}
	}
	walk(fn.Blocks[0], 0) // the block entered on recovery is reached from none
	return miss, twice
}

// checkRoutes: each endpoint leads to the handler of its own kind.
func checkRoutes(p *Prog, r *Report) {
	kinds := map[string]map[*ssa.Function]bool{"ws": {}, "http": {}}
	for _, f := range p.httpRoots() {
		kinds["http"][f] = true
	}
	// a web-socket endpoint hands its connection to a goroutine that serves it
	serves := p.reach(true, readsMessage)
	for _, f := range p.Funcs {
		if inIface(f) && serves[f] && f.Signature.Recv() != nil && isHandlerFunc(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), false)) {
			kinds["ws"][f] = true
		}
	}
	found := map[string]int{}  // routes by kind
	named := map[string]bool{} // kinds whose path is mentioned
	pair := func(path string, pos token.Pos, vs []ssa.Value) {
		got := map[*ssa.Function]bool{}
		for _, v := range vs {
			handlersIn(p, v, got, map[ssa.Value]bool{})
		}
		for k, fs := range kinds {
			if !strings.HasSuffix(path, "/"+k) {
				continue
			}
			ok, other := false, false
			for f := range got {
				ok = ok || fs[f]
				for o, gs := range kinds {
					other = other || o != k && gs[f] && !fs[f]
				}
			}
			if !ok && !other {
				continue // not understood
			}
			found[k]++
			r.check(ok && !other, "routes", path, pos, nil, "requests to %s don't reach the handler for them", path)
		}
	}
	str := func(v ssa.Value) string {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return ""
	}
	var handlers func(v ssa.Value) bool
	handlers = func(v ssa.Value) bool {
		if m, ok := v.(*ssa.MakeInterface); ok {
			return handlers(m.X)
		}
		return isHandlerFunc(v.Type()) || isHandlerFunc(pointee(v.Type()))
	}
	p.allInstrs(func(fn *ssa.Function, in ssa.Instruction) {
		if !inIface(fn) {
			return
		}
		for _, o := range in.Operands(nil) {
			if o != nil && *o != nil {
				for k := range kinds {
					named[k] = named[k] || strings.HasPrefix(str(*o), "/") && strings.HasSuffix(str(*o), "/"+k)
				}
			}
		}
		switch i := in.(type) {
		case *ssa.MapUpdate:
			if s := str(i.Key); s != "" && handlers(i.Value) {
				pair(s, i.Pos(), []ssa.Value{i.Value})
			}
		case *ssa.Store:
			// a field of a description of the route
			s := str(i.Val)
			a, ok := i.Addr.(*ssa.FieldAddr)
			if s == "" || !ok {
				return
			}
			var vs []ssa.Value
			for _, u := range *a.X.Referrers() {
				if b, ok := u.(*ssa.FieldAddr); ok {
					for _, w := range *b.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(b) && handlers(st.Val) {
							vs = append(vs, st.Val)
						}
					}
				}
			}
			pair(s, i.Pos(), vs)
		case *ssa.Call:
			path := ""
			var vs []ssa.Value
			for _, a := range i.Call.Args {
				if s := str(a); strings.HasPrefix(s, "/") {
					path = s
				}
				if handlers(a) {
					vs = append(vs, a)
				}
				if c, ok := a.(*ssa.Call); ok && path == "" {
					for _, b := range c.Call.Args {
						if s := str(b); strings.HasPrefix(s, "/") {
							path = s
						}
					}
				}
			}
			if path != "" && len(vs) > 0 {
				pair(path, i.Pos(), vs)
			}
		}
	})
	for _, k := range []string{"ws", "http"} {
		r.check(found[k] > 0 || named[k], "routes", "/neutrino/subscribe/"+k, token.NoPos, nil, "there is no endpoint %s", "/neutrino/subscribe/"+k)
	}
}

// handlersIn: the module's functions that a handler value was made of.
func handlersIn(p *Prog, v ssa.Value, got map[*ssa.Function]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	add := func(f *ssa.Function) {
		got[f] = true
		for _, b := range f.Blocks {
			if f.Synthetic == "" && f.Parent() == nil {
				break
			}
			for _, in := range b.Instrs {
				for _, g := range p.callees(in, false) {
					got[g] = true
				}
			}
		}
	}
	switch i := v.(type) {
	case *ssa.Function:
		add(i)
	case *ssa.MakeClosure:
		add(i.Fn.(*ssa.Function))
		for _, b := range i.Bindings {
			handlersIn(p, b, got, seen)
		}
	case *ssa.ChangeType:
		handlersIn(p, i.X, got, seen)
	case *ssa.MakeInterface:
		handlersIn(p, i.X, got, seen)
	case *ssa.UnOp:
		handlersIn(p, i.X, got, seen)
	case *ssa.Alloc:
		for _, u := range *i.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
				handlersIn(p, s.Val, got, seen)
			}
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			handlersIn(p, e, got, seen)
		}
	case *ssa.Call:
		for _, a := range i.Call.Args {
			if isHandlerFunc(a.Type()) {
				handlersIn(p, a, got, seen)
			}
		}
	}
}

// checkEnds: a goroutine that waits for the shutdown signal closes the
// channel of errors on every path, deferred functions included.
func checkEnds(p *Prog, r *Report) {
	type verdict struct {
		waits, ok bool
		path      []string
		pos       token.Pos
	}
	all := map[*ssa.Function]*verdict{}
	p.runAll(r, func(root *ssa.Function, g *goRun) (*Exec, rootOpt) {
		if !inIface(root) {
			return nil, rootOpt{}
		}
		if res := root.Signature.Results(); g == nil && (root.Parent() != nil || res.Len() != 1 || !isErrChan(res.At(0).Type())) {
			return nil, rootOpt{}
		}
		x := newExec(p)
		x.inline = func(x *Exec, st *State, f *ssa.Function, c *callRec) bool {
			return rel(pkgPathOf(f)) == rel(pkgPathOf(root))
		}
		x.pure = func(op string) bool { return true }
		if g == nil {
			return x, rootOpt{}
		}
		v := all[root]
		if v == nil {
			v = &verdict{ok: true, pos: root.Pos()}
			all[root] = v
		}
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvRecv:
				if isCtxDone(ev.addr) {
					v.waits = true
					st.set("waited")
				}
			case EvCall:
				if ev.op == "close" && isErrChan(ev.args[0].typ) {
					st.set("closed")
				}
			case EvReturn:
				if len(st.frames) == 1 && !st.flag("closed") && v.ok {
					v.ok = false
					v.path = st.path(14)
				}
			}
		}
		return x, rootOpt{}
	})
	var worst *verdict
	name := ""
	for f, v := range all {
		if !v.waits {
			continue
		}
		if v.ok {
			r.ok("ends", fname(f), v.pos)
			return
		}
		if worst == nil || fname(f) < name {
			worst, name = v, fname(f)
		}
	}
	if worst == nil {
		r.anchorLost("the goroutine that shuts the daemon down")
		return
	}
	r.bad("ends", name, worst.pos, worst.path, "after the shutdown signal the error channel is not closed, so that the daemon waits forever")
}

// checkHangUp: the connection is closed on every way out of serving it, panics included.
func checkHangUp(p *Prog, r *Report, fn *ssa.Function) {
	x := ifaceExec(p)
	short := fname(fn)
	closes := p.reach(false, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		return g != nil && strings.HasSuffix(g.String(), "websocket.Conn).Close")
	})
	x.on = func(x *Exec, st *State, ev *Event) {
		switch ev.kind {
		case EvDefer:
			if ev.fn != nil && closes[ev.fn] || strings.HasSuffix(ev.op, "websocket.Conn).Close") {
				st.set("deferred")
			}
			if ev.call != nil && ev.call.fn != nil && ev.call.fn.fn != nil && closes[ev.call.fn.fn] {
				st.set("deferred")
			}
		case EvCall:
			if strings.HasSuffix(ev.op, "websocket.Conn).ReadMessage") {
				r.check(st.flag("deferred"), "hang-up", short+": panic", ev.instr.Pos(), st.path(12), "the connection is not closed if serving it panics")
			}
			if strings.HasSuffix(ev.op, "websocket.Conn).Close") {
				st.set("closed")
			}
		case EvReturn:
			if len(st.frames) == 1 {
				r.check(st.flag("closed"), "hang-up", short, ev.instr.Pos(), st.path(12), "the connection of a client is left open when serving it ends")
			}
		}
	}
	err := x.run(fn, rootOpt{})
	r.ran(x, short, err)
}

// checkValid: a subscription without descriptor or kinds of event, or with a
// negative start, is looked for before it is accepted.
func checkValid(p *Prog, r *Report) {
	isSub := func(t types.Type) bool { return strings.HasSuffix(pointee(t).String(), "application.Subscriber") }
	fieldOf := func(v ssa.Value) string {
		for n := 0; n < 6; n++ {
			switch i := v.(type) {
			case *ssa.MakeInterface:
				v = i.X
				continue
			case *ssa.ChangeType:
				v = i.X
				continue
			case *ssa.Convert:
				v = i.X
				continue
			case *ssa.UnOp:
				v = i.X
				continue
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					v = i.Call.Args[0]
					continue
				}
				if g := i.Call.StaticCallee(); g != nil && strings.HasPrefix(g.String(), "strings.Trim") {
					v = i.Call.Args[0]
					continue
				}
			case *ssa.FieldAddr:
				if n, f := structField(i); n != nil && isSub(n) {
					return f.Name()
				}
			case *ssa.Field:
				if n, ok := i.X.Type().(*types.Named); ok && isSub(n) {
					return n.Underlying().(*types.Struct).Field(i.Field).Name()
				}
			}
			return ""
		}
		return ""
	}
	n := 0
	for _, root := range p.Funcs {
		if root.Name() != "Subscribe" || root.Signature.Recv() == nil || rel(pkgPathOf(root)) != "internal/core/application" || root.Synthetic != "" {
			continue
		}
		n++
		seen := map[*ssa.Function]bool{}
		ruled := map[string]map[string]bool{} // field -> rules
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			note := func(fld, rule string) {
				if fld == "" {
					return
				}
				if ruled[fld] == nil {
					ruled[fld] = map[string]bool{}
				}
				ruled[fld][rule] = true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.BinOp); ok {
						switch c.Op {
						case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
							for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
								if _, k := pr[1].(*ssa.Const); k {
									note(fieldOf(pr[0]), "cmp")
								}
							}
						}
					}
					if c, ok := in.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil && strings.HasSuffix(g.String(), "ozzo-validation/v4.Field") {
							fld := fieldOf(c.Call.Args[0])
							for _, e := range varargs(c.Call.Args[len(c.Call.Args)-1]) {
								// with another message
								if m, ok := e.(*ssa.Call); ok && len(m.Call.Args) > 0 {
									if g := m.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil {
										e = m.Call.Args[0]
									}
								}
								if u, ok := e.(*ssa.UnOp); ok {
									if gl, ok := u.X.(*ssa.Global); ok {
										note(fld, gl.Name())
									}
								}
								if m, ok := e.(*ssa.Call); ok {
									if g := m.Call.StaticCallee(); g != nil && g.Name() == "Min" {
										if mi, ok := m.Call.Args[0].(*ssa.MakeInterface); ok {
											if k, ok := mi.X.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) >= 0 {
												note(fld, "Min")
											}
										}
									}
								}
							}
						}
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, g := range p.callees(in, false) {
						if inModule(g) {
							walk(g)
						}
					}
				}
			}
		}
		walk(root)
		short := fname(root)
		for f, what := range map[string]string{"WalletDescriptor": "a descriptor", "Events": "kinds of event"} {
			ok := ruled[f]["Required"] || ruled[f]["cmp"]
			r.check(ok, "valid", short+": "+f, root.Pos(), nil, "a subscription without %s, which watches nothing, is accepted", what)
		}
		ok := ruled["BlockHeight"]["Min"] || ruled["BlockHeight"]["cmp"]
		r.check(ok, "valid", short+": BlockHeight", root.Pos(), nil, "a subscription from a negative height, which is never reached, is accepted")
	}
	if n == 0 {
		r.anchorLost("NotificationService.Subscribe")
	}
}

// varargs: the values a variadic argument was made of, interfaces removed.
func varargs(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var res []ssa.Value
	for _, u := range *a.Referrers() {
		i, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *i.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				e := st.Val
				for {
					if m, ok := e.(*ssa.MakeInterface); ok {
						e = m.X
						continue
					}
					if m, ok := e.(*ssa.ChangeInterface); ok {
						e = m.X
						continue
					}
					break
				}
				res = append(res, e)
			}
		}
	}
	return res
}
