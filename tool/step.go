package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) exec(st *State, in ssa.Instruction) bool {
	fr := st.top()
	if x.points {
		if !x.emit(st, &Event{kind: EvPoint, instr: in}) {
			return false
		}
	}
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch i := in.(type) {
	case *ssa.Phi:
		fr.idx++
		return true
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.fresh(st, Term{k: KAlloc, site: i, typ: i.Type()})
		set(i, t)
	case *ssa.BinOp:
		a, b := x.val(st, i.X), x.val(st, i.Y)
		set(i, mkBin(i.Op, a, b, i.Type()))
	case *ssa.UnOp:
		a := x.val(st, i.X)
		switch i.Op {
		case token.MUL:
			v := x.load(st, a, i.Type())
			set(i, v)
			if !x.emit(st, &Event{kind: EvLoad, instr: i, addr: a, val: v}) {
				return false
			}
		case token.ARROW:
			ev := &Event{kind: EvRecv, instr: i, addr: a}
			if !x.emit(st, ev) {
				return false
			}
			ct := a.typ
			et := i.Type()
			if tp, ok := et.(*types.Tuple); ok {
				et = tp.At(0).Type()
			}
			_ = ct
			r := x.fresh(st, Term{k: KRecv, site: i, args: []*Term{a}, typ: et})
			if i.CommaOk {
				ok := x.fresh(st, Term{k: KUnk, op: "recvok", site: i, args: []*Term{a}, typ: types.Typ[types.Bool]})
				set(i, tt.mk(Term{k: KTuple, args: []*Term{r, ok}}))
			} else {
				set(i, r)
			}
			if !x.emit(st, &Event{kind: EvGot, instr: i, addr: a, val: r}) {
				return false
			}
		case token.NOT:
			set(i, mkNot(a))
		default:
			if c := a; c.k == KConst && c.cst != nil && (i.Op == token.SUB || i.Op == token.XOR) && c.cst.Kind() == constant.Int && i.Op == token.SUB {
				set(i, tt.mk(Term{k: KConst, typ: i.Type(), cst: constant.UnaryOp(token.SUB, c.cst, 0)}))
			} else {
				set(i, tt.mk(Term{k: KUn, op: i.Op.String(), args: []*Term{a}, typ: i.Type()}))
			}
		}
	case *ssa.Call:
		fr.idx++
		return x.doCall(st, x.rec(st, &i.Call, i), i, false)
	case *ssa.ChangeInterface:
		set(i, x.val(st, i.X))
	case *ssa.ChangeType:
		set(i, mkConv(x.val(st, i.X), i.Type()))
	case *ssa.Convert:
		set(i, mkConv(x.val(st, i.X), i.Type()))
	case *ssa.MultiConvert:
		set(i, mkConv(x.val(st, i.X), i.Type()))
	case *ssa.SliceToArrayPointer:
		set(i, mkConv(x.val(st, i.X), i.Type()))
	case *ssa.Defer:
		r := x.rec(st, &i.Call, i)
		if !x.emit(st, &Event{kind: EvDefer, instr: i, call: &r, op: r.op(), args: r.all(), fn: r.target()}) {
			return false
		}
		fr.defers = append(fr.defers, deferRec{i, r})
	case *ssa.Extract:
		t := x.val(st, i.Tuple)
		set(i, mkExtract(t, i.Index, i.Type()))
	case *ssa.Field:
		v := x.val(st, i.X)
		set(i, fieldVal(v, fieldVar(i.X.Type(), i.Field)))
	case *ssa.FieldAddr:
		b := x.val(st, i.X)
		a := fieldAddr(b, fieldVar(i.X.Type(), i.Field))
		set(i, a)
		if !x.emit(st, &Event{kind: EvTouch, instr: i, addr: b, val: a}) {
			return false
		}
	case *ssa.Go:
		r := x.rec(st, &i.Call, i)
		if !x.emit(st, &Event{kind: EvGo, instr: i, call: &r, op: r.op(), args: r.all(), fn: r.target()}) {
			return false
		}
	case *ssa.If:
		c := x.val(st, i.Cond)
		v, known := st.facts.eval(c)
		if x.p.loop(fr.fn).header[fr.blk] {
			if fr.decided == nil {
				fr.decided = map[*ssa.BasicBlock]bool{}
			}
			fr.decided[fr.blk] = c.k == KConst
		}
		if known {
			k := 1
			if v {
				k = 0
			}
			if !x.emit(st, &Event{kind: EvBranch, instr: i, addr: c, val: cBool(v)}) {
				return false
			}
			x.jump(st, fr.blk.Succs[k])
			return true
		}
		ot := st.clone()
		if ot.facts.assume(c, false) {
			ot.note("%s: %s is false", x.p.pos(condPos(i)), c)
			if x.emit(ot, &Event{kind: EvBranch, instr: i, addr: c, val: cBool(false)}) {
				x.jump(ot, ot.top().blk.Succs[1])
				x.work = append(x.work, ot)
			}
		}
		if !st.facts.assume(c, true) {
			return false
		}
		st.note("%s: %s is true", x.p.pos(condPos(i)), c)
		if !x.emit(st, &Event{kind: EvBranch, instr: i, addr: c, val: cBool(true)}) {
			return false
		}
		x.jump(st, fr.blk.Succs[0])
		return true
	case *ssa.Index:
		v, k := x.val(st, i.X), x.val(st, i.Index)
		set(i, x.indexVal(v, k, i.Type()))
		if !x.emit(st, &Event{kind: EvIndex, instr: i, addr: v, key: k}) {
			return false
		}
	case *ssa.IndexAddr:
		b, k := x.val(st, i.X), x.val(st, i.Index)
		el := i.Type().(*types.Pointer).Elem()
		set(i, indexAddr(b, k, el))
		if !x.emit(st, &Event{kind: EvIndex, instr: i, addr: b, key: k}) {
			return false
		}
	case *ssa.Jump:
		x.jump(st, fr.blk.Succs[0])
		return true
	case *ssa.Lookup:
		m, k := x.val(st, i.X), x.val(st, i.Index)
		var t *Term
		et := i.Type()
		if tp, ok := et.(*types.Tuple); ok {
			et = tp.At(0).Type()
		}
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			as := []*Term{m, k}
			if v := st.mem[m]; v != nil {
				as = append(as, v)
			}
			t = tt.mk(Term{k: KLookup, args: as, typ: et})
		} else {
			t = tt.mk(Term{k: KIndexV, args: []*Term{m, k}, typ: et})
		}
		if i.CommaOk {
			ok := tt.mk(Term{k: KExtract, idx: 1, args: []*Term{t}, typ: types.Typ[types.Bool]})
			set(i, tt.mk(Term{k: KTuple, args: []*Term{t, ok}}))
		} else {
			set(i, t)
		}
		if !x.emit(st, &Event{kind: EvLookup, instr: i, addr: m, key: k, val: t}) {
			return false
		}
	case *ssa.MakeChan:
		t := x.fresh(st, Term{k: KMake, op: "chan", site: i, args: []*Term{x.val(st, i.Size)}, typ: i.Type()})
		set(i, t)
	case *ssa.MakeMap:
		var as []*Term
		if i.Reserve != nil {
			as = append(as, x.val(st, i.Reserve))
		}
		t := x.fresh(st, Term{k: KMake, op: "map", site: i, args: as, typ: i.Type()})
		set(i, t)
		if len(as) > 0 && !x.emit(st, &Event{kind: EvMake, instr: i, key: as[0], val: t}) {
			return false
		}
	case *ssa.MakeSlice:
		n, cp := x.val(st, i.Len), x.val(st, i.Cap)
		t := x.fresh(st, Term{k: KMake, op: "slice", site: i, args: []*Term{n}, typ: i.Type()})
		set(i, t)
		if !x.emit(st, &Event{kind: EvMake, instr: i, key: cp, val: t}) {
			return false
		}
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range i.Bindings {
			as = append(as, x.val(st, b))
		}
		set(i, tt.mk(Term{k: KClosure, fn: i.Fn.(*ssa.Function), args: as, typ: i.Type()}))
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		if v.typ == nil || !types.Identical(v.typ, i.X.Type()) {
			v = mkConv(v, i.X.Type())
		}
		set(i, tt.mk(Term{k: KIface, args: []*Term{v}, typ: i.Type()}))
	case *ssa.MapUpdate:
		m, k, v := x.val(st, i.Map), x.val(st, i.Key), x.val(st, i.Value)
		if !x.emit(st, &Event{kind: EvMapUpdate, instr: i, addr: m, key: k, val: v}) {
			return false
		}
		st.mem[m] = x.fresh(st, Term{k: KUnk, op: "mapver", site: i, typ: m.typ, args: []*Term{k, v}})
	case *ssa.Next:
		r := x.val(st, i.Iter)
		coll := r
		if len(r.args) > 0 {
			coll = r.args[0]
		}
		if !x.emit(st, &Event{kind: EvLookup, instr: i, addr: coll}) {
			return false
		}
		set(i, x.fresh(st, Term{k: KNext, site: i, args: []*Term{coll}, typ: i.Type()}))
	case *ssa.Panic:
		x.emit(st, &Event{kind: EvPanic, instr: i, val: x.val(st, i.X)})
		return false
	case *ssa.Range:
		m := x.val(st, i.X)
		set(i, x.fresh(st, Term{k: KRange, site: i, args: []*Term{m}, typ: i.Type()}))
	case *ssa.Return:
		return x.doReturn(st, i)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return x.doCall(st, d.call, nil, true)
		}
	case *ssa.Select:
		return x.doSelect(st, i)
	case *ssa.Send:
		c, v := x.val(st, i.Chan), x.val(st, i.X)
		if !x.emit(st, &Event{kind: EvSend, instr: i, addr: c, val: v}) {
			return false
		}
	case *ssa.Slice:
		set(i, x.slice(st, i))
		if !x.emit(st, &Event{kind: EvIndex, instr: i, addr: x.val(st, i.X)}) {
			return false
		}
	case *ssa.Store:
		a, v := x.val(st, i.Addr), x.val(st, i.Val)
		if bo, ok := i.Val.(*ssa.BinOp); ok && widenable(bo.Type()) && x.inLoop(st) {
			switch bo.Op {
			case token.ADD, token.SUB, token.MUL:
				old := x.load(st, a, bo.Type())
				ob, _ := linear(old)
				nb, _ := linear(v)
				if ob == nb || v.contains(old) {
					v = x.fresh(st, Term{k: KUnk, op: "ctr", site: i, typ: bo.Type()})
				}
			}
		}
		if !x.emit(st, &Event{kind: EvStore, instr: i, addr: a, val: v}) {
			return false
		}
		x.store(st, a, v, i)
	case *ssa.TypeAssert:
		v := x.val(st, i.X)
		base := v
		if i.CommaOk {
			a := tt.mk(Term{k: KAssert, args: []*Term{base}, typ: i.AssertedType})
			okT := tt.mk(Term{k: KExtract, idx: 1, args: []*Term{a}, typ: types.Typ[types.Bool]})
			val := a
			if base.k == KIface {
				ct := base.args[0].typ
				if types.IsInterface(i.AssertedType) {
					if types.Implements(ct, i.AssertedType.Underlying().(*types.Interface)) {
						okT, val = cBool(true), base
					} else {
						okT, val = cBool(false), zeroOf(i.AssertedType)
					}
				} else if types.Identical(ct, i.AssertedType) {
					okT, val = cBool(true), base.args[0]
				} else {
					okT, val = cBool(false), zeroOf(i.AssertedType)
				}
			} else if base.isNil() {
				okT, val = cBool(false), zeroOf(i.AssertedType)
			}
			set(i, tt.mk(Term{k: KTuple, args: []*Term{val, okT}}))
		} else {
			if !x.emit(st, &Event{kind: EvAssert, instr: i, addr: base}) {
				return false
			}
			if base.k == KIface && !types.IsInterface(i.AssertedType) && types.Identical(base.args[0].typ, i.AssertedType) {
				set(i, base.args[0])
			} else if types.IsInterface(i.AssertedType) {
				set(i, base)
			} else {
				set(i, tt.mk(Term{k: KAssert, args: []*Term{base}, typ: i.AssertedType}))
			}
		}
	default:
		x.err = fmt.Errorf("unhandled instruction %T", in)
		return false
	}
	fr.idx++
	return true
}

func condPos(i *ssa.If) token.Pos {
	if i.Cond.Pos().IsValid() {
		return i.Cond.Pos()
	}
	if v, ok := i.Cond.(ssa.Instruction); ok {
		for _, op := range v.Operands(nil) {
			if (*op) != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	for _, in := range i.Block().Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func mkConv(v *Term, t types.Type) *Term {
	if v.typ != nil && types.Identical(v.typ, t) {
		return v
	}
	if v.k == KConst {
		if v.cst == nil {
			return cNil(t)
		}
		if isIntType(t) && v.cst.Kind() == constant.Int || v.cst.Kind() == constant.Bool {
			return tt.mk(Term{k: KConst, typ: t, cst: v.cst})
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.cst.Kind() == constant.String {
			return tt.mk(Term{k: KConst, typ: t, cst: v.cst})
		}
	}
	if v.k == KConv && v.args[0].typ != nil && types.Identical(v.args[0].typ, t) && types.Identical(v.typ.Underlying(), t.Underlying()) {
		return v.args[0]
	}
	return tt.mk(Term{k: KConv, args: []*Term{v}, typ: t})
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.k == KTuple && i < len(t.args) {
		return t.args[i]
	}
	return tt.mk(Term{k: KExtract, args: []*Term{t}, idx: i, typ: typ})
}

func (x *Exec) slice(st *State, i *ssa.Slice) *Term {
	b := x.val(st, i.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(st, v)
	}
	lo, hi := opt(i.Low), opt(i.High)
	if lo != nil {
		if n, ok := lo.isInt(); ok && n == 0 {
			lo = nil
		}
	}
	_, isPtr := i.X.Type().Underlying().(*types.Pointer)
	if hi != nil && isPtr {
		if a, ok := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if n, k := hi.isInt(); k && n == a.Len() {
				hi = nil
			}
		}
	}
	if lo == nil && hi == nil {
		if isPtr {
			return tt.mk(Term{k: KSlice, args: []*Term{b}, typ: i.Type()})
		}
		return b
	}
	e := cNil(nil)
	if lo == nil {
		lo = cInt(0, nil)
	}
	if hi == nil {
		hi = e
	}
	return tt.mk(Term{k: KSlice, op: "sub", args: []*Term{b, lo, hi}, typ: i.Type()})
}

// lenOf is the length of a value as a term.
func (x *Exec) lenOf(st *State, v *Term) *Term {
	it := types.Typ[types.Int]
	switch v.k {
	case KConst:
		if v.cst == nil {
			return cInt(0, it)
		}
		if s, ok := v.isStr(); ok {
			return cInt(int64(len(s)), it)
		}
	case KMake:
		if v.op == "slice" && len(v.args) > 0 {
			return mkConv(v.args[0], it)
		}
	case KConv:
		if s, ok := v.typ.Underlying().(*types.Slice); ok && widthOf(s.Elem()) > 1 {
			if _, same := v.args[0].typ.Underlying().(*types.Slice); !same {
				break // the characters of a string are not as many as its bytes
			}
		}
		if b, ok := v.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return x.lenOf(st, v.args[0])
		}
	case KSlice:
		if v.op == "" {
			if pt, ok := v.args[0].typ.Underlying().(*types.Pointer); ok {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok {
					return cInt(a.Len(), it)
				}
			}
		} else {
			hi := v.args[2]
			if hi.isNil() {
				hi = x.lenOf(st, v.args[0])
			}
			return mkBin(token.SUB, hi, v.args[1], it)
		}
	case KAppend:
		if v.op == "" {
			return mkBin(token.ADD, x.lenOf(st, v.args[0]), cInt(int64(len(v.args)-1), it), it)
		}
	}
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Array:
			return cInt(u.Len(), it)
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return cInt(a.Len(), it)
			}
		case *types.Map, *types.Chan:
			as := []*Term{v}
			if c := st.mem[v]; c != nil {
				as = append(as, c)
			}
			return tt.mk(Term{k: KCall, op: "len", args: as, typ: it})
		}
	}
	return tt.mk(Term{k: KCall, op: "len", args: []*Term{v}, typ: it})
}

// ---- calls ----

func (x *Exec) rec(st *State, c *ssa.CallCommon, in ssa.Instruction) callRec {
	r := callRec{common: c, instr: in}
	for _, a := range c.Args {
		r.args = append(r.args, x.val(st, a))
	}
	if c.IsInvoke() {
		r.m = c.Method
		r.recv = x.val(st, c.Value)
		return r
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r.blt = b.Name()
		return r
	}
	if f := c.StaticCallee(); f != nil {
		r.static = f
	}
	r.fn = x.val(st, c.Value)
	return r
}

func (r *callRec) target() *ssa.Function {
	if r.static != nil {
		return r.static
	}
	if r.fn != nil {
		f := stripIface(r.fn)
		if f.k == KFunc || f.k == KClosure {
			return f.fn
		}
	}
	return nil
}

func (r *callRec) all() []*Term {
	if r.recv != nil {
		return append([]*Term{r.recv}, r.args...)
	}
	return r.args
}

func (r *callRec) op() string {
	if r.blt != "" {
		return r.blt
	}
	if r.m != nil {
		return methodName(r.m)
	}
	if f := r.target(); f != nil {
		return fname(f)
	}
	return "dyn"
}

func methodName(m *types.Func) string {
	return strings.ReplaceAll(m.FullName(), modPath+"/", "")
}

// hasPkgPrefix: does the callee belong to one of the packages?
func opIn(op string, prefixes ...string) bool {
	o := strings.TrimLeft(op, "(*")
	for _, p := range prefixes {
		if strings.HasPrefix(o, p) {
			return true
		}
	}
	return false
}

// readOnly: external functions that do not write through their arguments
func readOnly(op string) bool {
	return opIn(op, "github.com/sirupsen/logrus", "fmt.Err", "fmt.Sp", "fmt.Pr", "errors.Is", "errors.New", "errors.Unwrap", "errors.Join", "strings.", "sync.", "encoding/hex.Enc", "encoding/json.Marshal", "time.", "log.",
		"os.", "bytes.Equal", "bytes.NewReader", "bytes.NewBuffer", "bytes.Compare", "crypto/sha256.Sum", "net/http.New", "context.", "github.com/btcsuite/btcd/chaincfg/chainhash.Hash", "sort.Search", "strconv.", "path", "net.")
}

// pureOp: deterministic external functions without effects; two calls with equal arguments are equal
func pureOp(op string) bool {
	if opIn(op, "errors.Is", "strings.", "bytes.Equal", "bytes.Compare", "fmt.Sprint", "encoding/hex.", "strconv.", "path/filepath.", "github.com/btcsuite/btcd/chaincfg/chainhash.") {
		return !strings.HasPrefix(op, "strings.New") && !strings.Contains(op, ".Set")
	}
	if i := strings.LastIndex(op, "."); i >= 0 && !strings.HasPrefix(op, "(pkg/") && !strings.HasPrefix(op, "(*pkg/") && !strings.HasPrefix(op, "pkg/") && !strings.HasPrefix(op, "internal/") {
		switch op[i+1:] {
		case "Hash", "TxHash", "BlockHash", "IsEqual", "String", "Error", "HasWitness", "HashForBlock", "CloneBytes", "UTC", "Unix":
			return strings.HasPrefix(op, "(")
		}
	}
	return false
}

func (x *Exec) doCall(st *State, r callRec, ret ssa.Value, isDefer bool) bool {
	fr := st.top()
	var site ssa.Instruction = r.instr
	setRes := func(t *Term) {
		if ret != nil {
			fr.env[ret] = t
		}
	}
	if r.blt != "" {
		return x.builtin(st, r, ret, site)
	}
	fn := r.target()
	var binds []*Term
	var callArgs []*Term = r.all()
	if r.fn != nil {
		if f := stripIface(r.fn); f.k == KClosure {
			binds = f.args
		}
	}
	if r.m != nil {
		recv := r.recv
		for recv.k == KConv {
			recv = recv.args[0]
		}
		if recv.k == KIface && recv.args[0].typ != nil && !types.IsInterface(recv.args[0].typ) {
			if f := x.lookupMethod(recv.args[0].typ, r.m); f != nil {
				fn = f
				callArgs = append([]*Term{recv.args[0]}, r.args...)
			}
		} else if x.resolve != nil {
			fs := x.resolve(x, st, &r)
			if len(fs) > 0 {
				base := st
				for i, f := range fs {
					s2 := base
					if i < len(fs)-1 {
						s2 = base.clone()
					}
					rt := f.Params[0].Type()
					ca := append([]*Term{tt.mk(Term{k: KAssert, args: []*Term{recv}, typ: rt})}, r.args...)
					if x.invoke(s2, r, f, ca, nil, ret, isDefer, site) {
						if i < len(fs)-1 {
							x.work = append(x.work, s2)
						} else {
							return true
						}
					}
				}
				return false
			}
		}
	}
	if r.static != nil && fname(r.static) == "(*sync.Once).Do" && len(r.args) == 2 {
		ev := &Event{kind: EvCall, instr: site, call: &r, op: "(*sync.Once).Do", args: r.args, fn: fn}
		if !x.emit(st, ev) {
			return false
		}
		f := stripIface(r.args[1])
		if f.k == KClosure || f.k == KFunc {
			skip := st.clone()
			skip.note("%s: Once already done", x.p.pos(site.Pos()))
			x.work = append(x.work, skip)
			if isDefer {
				// the frame continues at RunDefers
			}
			st.add(Atom{name: "once", a: r.args[0]})
			rr := callRec{fn: f, instr: site}
			if f.k == KFunc {
				rr.static = f.fn
			}
			return x.doCall(st, rr, nil, isDefer)
		}
	}
	_ = setRes
	return x.invoke(st, r, fn, callArgs, binds, ret, isDefer, site)
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := x.p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.p.SSA.MethodValue(sel)
}

func (x *Exec) canInline(st *State, fn *ssa.Function, r *callRec) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	pp := pkgPathOf(fn)
	if fn.Synthetic == "" || fn.Origin() != nil {
		if !strings.HasPrefix(pp, modPath) {
			return false
		}
	}
	if len(st.frames) >= x.maxInl {
		return false
	}
	for _, f := range st.frames {
		if f.fn == fn {
			return false
		}
	}
	if x.inline != nil {
		return x.inline(x, st, fn, r)
	}
	return true
}

func (x *Exec) invoke(st *State, r callRec, fn *ssa.Function, args, binds []*Term, ret ssa.Value, isDefer bool, site ssa.Instruction) bool {
	fr := st.top()
	op := r.op()
	if fn != nil && r.m == nil {
		op = fname(fn)
	}
	inl := x.canInline(st, fn, &r)
	ev := &Event{kind: EvCall, instr: site, call: &r, op: op, args: args, fn: fn, inl: inl}
	if !x.emit(st, ev) {
		return false
	}
	if ev.res != nil { // the rule supplied the result
		if ret != nil {
			fr.env[ret] = ev.res
		}
		return true
	}
	if inl {
		ctx := tt.pushCtx(fr.ctx, site)
		nf := &Frame{fn: fn, ctx: ctx, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, retTo: ret, isDefer: isDefer, call: site}
		for i, p := range fn.Params {
			if i < len(args) {
				nf.env[p] = args[i]
			} else {
				nf.env[p] = tt.mk(Term{k: KUnk, op: "arg", val: p, typ: p.Type()})
			}
		}
		for i, fv := range fn.FreeVars {
			if i < len(binds) {
				nf.env[fv] = binds[i]
			} else {
				nf.env[fv] = tt.mk(Term{k: KFree, val: fv, typ: fv.Type()})
			}
		}
		st.frames = append(st.frames, nf)
		return x.emit(st, &Event{kind: EvEnter, instr: site, fn: fn, op: op, args: args, call: &r})
	}
	// opaque
	var rt types.Type
	if r.common != nil {
		res := r.common.Signature().Results()
		if res.Len() == 1 {
			rt = res.At(0).Type()
		} else {
			rt = res
		}
	} else if fn != nil {
		res := fn.Signature.Results()
		if res.Len() == 1 {
			rt = res.At(0).Type()
		} else {
			rt = res
		}
	}
	targs := append([]*Term{}, args...)
	if r.fn != nil && fn == nil {
		targs = append([]*Term{r.fn}, targs...)
	}
	var exp []*Term
	for i, a := range targs {
		// variadic literals are shown element by element
		if r.common != nil && r.common.Signature().Variadic() && i == len(targs)-1 {
			if es, ok := x.elems(st, a); ok {
				exp = append(exp, es...)
				for _, e := range es {
					if s := x.snap(st, e, 0); s != nil {
						exp = append(exp, s)
					}
				}
				continue
			}
		}
		exp = append(exp, a)
	}
	for _, a := range targs {
		if s := x.snap(st, a, 0); s != nil {
			exp = append(exp, s)
		}
	}
	t := Term{k: KCall, op: op, args: exp, fn: fn, m: r.m, typ: rt}
	isPure := pureOp(op) || x.pure != nil && x.pure(op)
	var res *Term
	if isPure {
		res = tt.mk(t)
	} else {
		t.site = site
		res = x.fresh(st, t)
		if !readOnly(op) {
			x.havoc(st, args, res, site, op)
		}
	}
	if ret != nil {
		st.top().env[ret] = res
	}
	return x.emit(st, &Event{kind: EvResult, instr: site, call: &r, op: op, args: args, fn: fn, res: res})
}

func (x *Exec) noteAppend(g genKey, as []*Term) {
	k := tt.mk(Term{k: KTuple, args: as})
	if x.appends == nil {
		x.appends = map[genKey]map[*Term]bool{}
	}
	if x.appends[g] == nil {
		x.appends[g] = map[*Term]bool{}
	}
	x.appends[g][k] = true
}

// operands of a term, looking through accumulations in loops
func (x *Exec) operands(t *Term) []*Term {
	if t.k == KAppend && strings.HasPrefix(t.op, "loop") {
		var r []*Term
		for k := range x.appends[genKey{KAppend, t.site, t.ctx}] {
			r = append(r, k.args...)
		}
		return r
	}
	if t.k == KStale && strings.HasPrefix(t.op, "appendloop") {
		var r []*Term
		for k := range x.appends[genKey{KAppend, t.site, t.ctx}] {
			r = append(r, k.args...)
		}
		return r
	}
	return t.args
}

// reaches: does the value derive from something that satisfies pred?
func (x *Exec) reaches(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if y == nil || seen[y] {
			return false
		}
		seen[y] = true
		if pred(y) {
			return true
		}
		for _, a := range x.operands(y) {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) havoc(st *State, args []*Term, call *Term, site ssa.Instruction, op string) {
	for i, a := range args {
		b := a
		for b.k == KIface || b.k == KConv {
			b = b.args[0]
		}
		if b.k == KSlice {
			b = rootOf(b)
		}
		if b.typ == nil {
			continue
		}
		switch u := b.typ.Underlying().(type) {
		case *types.Pointer:
			if isSyncType(u.Elem()) {
				continue
			}
		case *types.Slice:
		case *types.Map:
		default:
			continue
		}
		touched := false
		for k := range st.mem {
			if k == b || hasPrefix(k, b) {
				touched = true
				delete(st.mem, k)
			}
		}
		switch b.k {
		case KAlloc, KMake, KAppend, KField, KIndex:
			touched = true
		case KParam:
			if strings.Contains(typeName(b.typ), "pkg/protocol.") {
				touched = true
			}
		}
		if touched {
			as := call.args
			if n := typeName(pointee(b.typ)); moduleOp(op) && !strings.HasPrefix(strings.TrimLeft(op, "(*"), "pkg/binary.") && !strings.HasPrefix(n, "pkg/protocol.") && !strings.HasPrefix(n, "pkg/binary.") {
				as = nil // state of the module: what it was before does not matter
			}
			g := genKey{KOut, site, st.top().ctx}
			again := x.anyGen(st, g)
			for _, a := range as {
				again = again || a != nil && a.gens[g]
			}
			if again {
				x.stale(st, g)
				memo := map[*Term]*Term{}
				as = us2(as, func(t *Term) *Term { return subst(t, g, memo) })
			}
			st.mem[b] = tt.mk(Term{k: KOut, op: op, args: as, site: site, ctx: st.top().ctx, idx: i, typ: pointee(b.typ)})
		}
	}
}

func moduleOp(op string) bool {
	op = strings.TrimLeft(op, "(*")
	return strings.HasPrefix(op, "pkg/") || strings.HasPrefix(op, "internal/") || strings.HasPrefix(op, "cmd/")
}

func isSyncType(t types.Type) bool {
	n := typeName(t)
	return strings.HasPrefix(n, "sync.")
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) builtin(st *State, r callRec, ret ssa.Value, site ssa.Instruction) bool {
	fr := st.top()
	var res *Term
	switch r.blt {
	case "len":
		res = x.lenOf(st, r.args[0])
	case "cap":
		res = tt.mk(Term{k: KCall, op: "cap", args: r.args, typ: types.Typ[types.Int]})
	case "append":
		as := []*Term{r.args[0]}
		op := ""
		if len(r.args) > 1 {
			if es, ok := x.elems(st, r.args[1]); ok {
				as = append(as, es...)
			} else {
				as = append(as, tt.mk(Term{k: KSpread, args: []*Term{r.args[1]}}))
				op = "spread"
				if s := x.snap(st, r.args[1], 0); s != nil {
					as = append(as, s)
				}
			}
		}
		if !x.emit(st, &Event{kind: EvCall, instr: site, call: &r, op: "append", args: as}) {
			return false
		}
		if len(as) == 1 {
			res = as[0]
		} else {
			cur := st.top().ctx
			var ty types.Type
			if ret != nil {
				ty = ret.Type()
			}
			if x.inLoop(st) {
				// accumulation in a loop: the operands of all iterations go to a side table
				g := genKey{KAppend, site, cur}
				x.stale(st, g)
				memo := map[*Term]*Term{}
				for i := range as {
					as[i] = subst(as[i], g, memo)
				}
				x.noteAppend(g, as)
				if madeHere(as[0], site, cur) {
					// one append to a slice made in the same turn
					res = tt.mk(Term{k: KAppend, op: op, site: site, ctx: cur, args: as, typ: ty})
				} else {
					res = tt.mk(Term{k: KAppend, op: "loop" + op, site: site, ctx: cur, typ: ty})
				}
			} else {
				res = tt.mk(Term{k: KAppend, op: op, site: site, ctx: cur, args: as, typ: ty})
			}
		}
		if ret != nil {
			fr.env[ret] = res
		}
		return x.emit(st, &Event{kind: EvResult, instr: site, call: &r, op: "append", args: as, res: res})
	case "ssa:wrapnilchk":
		res = r.args[0]
	case "recover":
		res = cNil(types.NewInterfaceType(nil, nil))
		if !x.emit(st, &Event{kind: EvCall, instr: site, call: &r, op: "recover"}) {
			return false
		}
	default:
		if !x.emit(st, &Event{kind: EvCall, instr: site, call: &r, op: r.blt, args: r.args}) {
			return false
		}
		switch r.blt {
		case "copy":
			dst := rootOf(r.args[0])
			as := append([]*Term{}, r.args...)
			if s := x.snap(st, r.args[1], 0); s != nil {
				as = append(as, s)
			}
			for k := range st.mem {
				if hasPrefix(k, dst) {
					delete(st.mem, k)
				}
			}
			st.mem[dst] = tt.mk(Term{k: KOut, op: "copy", args: as, site: site, ctx: fr.ctx, typ: pointee(dst.typ)})
		case "delete":
			st.mem[r.args[0]] = x.fresh(st, Term{k: KUnk, op: "mapver", site: site, typ: r.args[0].typ})
		}
		if ret != nil {
			res = x.fresh(st, Term{k: KCall, op: r.blt, args: r.args, site: site, typ: ret.Type()})
		}
	}
	if ret != nil && res != nil {
		fr.env[ret] = res
	}
	return true
}

func (x *Exec) doReturn(st *State, i *ssa.Return) bool {
	fr := st.top()
	var rs []*Term
	for _, r := range i.Results {
		rs = append(rs, x.val(st, r))
	}
	if len(st.frames) == 1 {
		x.paths++
		x.emit(st, &Event{kind: EvReturn, instr: i, args: rs, fn: fr.fn})
		return false
	}
	if !x.emit(st, &Event{kind: EvExit, instr: i, args: rs, fn: fr.fn}) {
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.retTo != nil {
		var res *Term
		if len(rs) == 1 {
			res = rs[0]
		} else {
			res = tt.mk(Term{k: KTuple, args: rs})
		}
		st.top().env[fr.retTo] = res
	}
	return true
}

func (x *Exec) doSelect(st *State, i *ssa.Select) bool {
	fr := st.top()
	ev := &Event{kind: EvSelect, instr: i, sel: i, block: i.Blocking}
	for _, s := range i.States {
		ev.chans = append(ev.chans, x.val(st, s.Chan))
		ev.dirs = append(ev.dirs, s.Dir)
	}
	if !x.emit(st, ev) {
		return false
	}
	tup := i.Type().(*types.Tuple)
	n := len(i.States)
	first := 0
	if !i.Blocking {
		first = -1
	}
	_ = fr
	for c := n - 1; c >= first; c-- {
		s := st.clone()
		f := s.top()
		var as []*Term
		as = append(as, cInt(int64(c), types.Typ[types.Int]))
		if c >= 0 {
			stt := i.States[c]
			s.note("%s: select takes case %d (%s)", x.p.pos(i.Pos()), c, ev.chans[c])
			var okT = cBool(false)
			if stt.Dir == types.RecvOnly {
				okT = x.fresh(s, Term{k: KUnk, op: "recvok", site: i, args: []*Term{ev.chans[c]}, typ: types.Typ[types.Bool]})
			}
			as = append(as, okT)
			e2 := &Event{instr: i, addr: ev.chans[c], isSel: true, ncase: c}
			if stt.Dir == types.RecvOnly {
				e2.kind = EvRecv
			} else {
				e2.kind = EvSend
				e2.val = x.val(s, stt.Send)
			}
			if !x.emit(s, e2) {
				continue
			}
		} else {
			s.note("%s: select takes default", x.p.pos(i.Pos()))
			as = append(as, cBool(false))
		}
		k := 2
		var got *Term
		for j, q := range i.States {
			if q.Dir != types.RecvOnly {
				continue
			}
			et := tup.At(k).Type()
			if j == c {
				got = x.fresh(s, Term{k: KRecv, site: i, idx: j, args: []*Term{ev.chans[c]}, typ: et})
				as = append(as, got)
			} else {
				as = append(as, zeroOf(et))
			}
			k++
		}
		f.env[i] = tt.mk(Term{k: KTuple, args: as})
		f.idx++
		if got != nil && !x.emit(s, &Event{kind: EvGot, instr: i, addr: got.args[0], val: got, isSel: true, ncase: c}) {
			continue
		}
		x.work = append(x.work, s)
	}
	return false
}

// madeHere: the slice is a literal of the same turn of the innermost loop.
func madeHere(t *Term, site ssa.Instruction, cur *Ctx) bool {
	var at ssa.Instruction
	switch {
	case t.k == KSlice && t.op == "" && t.args[0].k == KAlloc:
		at = t.args[0].site
		t = t.args[0]
	case t.k == KAppend && !strings.HasPrefix(t.op, "loop"):
		at = t.site
	default:
		return false
	}
	return at != nil && t.ctx == cur && at.Parent() == site.Parent() && enclosingLoop(at.Block()) == enclosingLoop(site.Block())
}
