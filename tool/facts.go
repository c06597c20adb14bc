package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// ---- construction of predicate and arithmetic terms in normal form ----

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// linear returns base and offset of an integer term: t = base + off. base nil means a constant.
func linear(t *Term) (*Term, int64) {
	switch t.k {
	case KConst:
		if v, ok := t.isInt(); ok {
			return nil, v
		}
	case KConv:
		if t.typ != nil && isIntType(t.typ) && t.args[0].typ != nil && isIntType(t.args[0].typ) {
			return linear(t.args[0])
		}
	case KBin:
		if t.op == "+" {
			if c, ok := t.args[1].isInt(); ok {
				b, o := linear(t.args[0])
				return b, o + c
			}
		}
	}
	return t, 0
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	// constant folding
	if a.k == KConst && b.k == KConst && a.cst != nil && b.cst != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.cst.Kind() == b.cst.Kind() || (a.cst.Kind() == constant.Int && b.cst.Kind() == constant.Float) {
				return cBool(constant.Compare(a.cst, op, b.cst))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.cst.Kind() == b.cst.Kind() && a.cst.Kind() != constant.Bool {
				if a.cst.Kind() != constant.String || op == token.ADD {
					return tt.mk(Term{k: KConst, typ: typ, cst: constant.BinaryOp(a.cst, op, b.cst)})
				}
			}
		case token.SHL, token.SHR:
			if s, ok := b.isInt(); ok && s >= 0 && s < 512 && a.cst.Kind() == constant.Int {
				return tt.mk(Term{k: KConst, typ: typ, cst: constant.Shift(a.cst, op, uint(s))})
			}
		}
	}
	switch op {
	case token.NEQ:
		return mkNot(mkBin(token.EQL, a, b, typ))
	case token.GTR:
		return mkBin(token.LSS, b, a, typ)
	case token.GEQ:
		return mkBin(token.LEQ, b, a, typ)
	case token.EQL:
		if a.isNil() {
			a = cNil(nil)
		}
		if b.isNil() {
			b = cNil(nil)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk(Term{k: KBin, op: "==", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
	case token.LSS:
		return tt.mk(Term{k: KBin, op: "<", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
	case token.LEQ:
		if a.typ != nil && isIntType(a.typ) {
			return mkNot(mkBin(token.LSS, b, a, typ))
		}
		return tt.mk(Term{k: KBin, op: "<=", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
	case token.ADD, token.SUB:
		if typ != nil && isIntType(typ) {
			ab, ao := linear(a)
			bb, bo := linear(b)
			if op == token.SUB {
				bo = -bo
			}
			if bb == nil {
				if ab == nil {
					return cInt(ao+bo, typ)
				}
				if ao+bo == 0 && ab.typ == typ {
					return ab
				}
				return tt.mk(Term{k: KBin, op: "+", args: []*Term{ab, cInt(ao+bo, nil)}, typ: typ})
			}
			if ab == nil && op == token.ADD {
				return tt.mk(Term{k: KBin, op: "+", args: []*Term{bb, cInt(ao+bo, nil)}, typ: typ})
			}
		}
	}
	return tt.mk(Term{k: KBin, op: op.String(), args: []*Term{a, b}, typ: typ})
}

func mkNot(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return cBool(!b)
	}
	if t.k == KUn && t.op == "!" {
		return t.args[0]
	}
	return tt.mk(Term{k: KUn, op: "!", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

// ---- queries ----

// surelyNonNil: values that cannot be nil by construction.
func surelyNonNil(t *Term) bool {
	switch t.k {
	case KAlloc, KField, KIndex, KFunc, KClosure, KMake, KGlobal, KIface:
		if t.k == KIndex {
			return true
		}
		return true
	case KAppend:
		return len(t.args) > 1 && t.op == "" || t.op == "loop"
	case KConv:
		return surelyNonNil(t.args[0])
	case KSlice:
		return surelyNonNil(t.args[0])
	case KCall:
		switch t.op {
		case "errors.New", "fmt.Errorf":
			return true
		}
		if strings.HasPrefix(t.op, "net/http.New") || strings.HasPrefix(t.op, "time.New") || t.op == "bytes.NewReader" || t.op == "bytes.NewBuffer" || t.op == "github.com/pkg/errors.New" || t.op == "github.com/pkg/errors.Errorf" {
			return true
		}
	case KLoad:
		// package-level error values are set once
		if t.args[0].k == KGlobal && t.typ != nil && isErrorType(t.typ) {
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isSentinel(t *Term) bool {
	return t.k == KLoad && t.args[0].k == KGlobal && t.typ != nil && isErrorType(t.typ)
}

// distinct: two values that cannot be equal.
func distinct(a, b *Term) bool {
	a, b = stripIface(a), stripIface(b)
	if a == b {
		return false
	}
	if a.k == KConst && b.k == KConst && a.cst != nil && b.cst != nil && a.cst.Kind() == b.cst.Kind() {
		return !constant.Compare(a.cst, token.EQL, b.cst)
	}
	if a.k == KStruct && b.k == KStruct && len(a.args) == len(b.args) {
		for i := range a.args {
			if distinct(a.args[i], b.args[i]) {
				return true
			}
		}
		return false
	}
	fresh := func(t *Term) bool {
		return t.k == KAlloc || t.k == KGlobal || t.k == KMake || (t.k == KCall && (t.op == "errors.New" || t.op == "fmt.Errorf")) || isSentinel(t)
	}
	if fresh(a) && fresh(b) {
		return true
	}
	return false
}

func stripIface(t *Term) *Term {
	for t.k == KIface || (t.k == KConv && !isIntType(t.typ)) {
		t = t.args[0]
	}
	return t
}

type Facts map[*Term]bool

// eval decides a predicate from the facts of the path; known is false if it can be either.
func (f Facts) eval(t *Term) (val, known bool) {
	if b, ok := t.isBool(); ok {
		return b, true
	}
	if t.k == KUn && t.op == "!" {
		v, k := f.eval(t.args[0])
		return !v, k
	}
	if v, ok := f[t]; ok {
		return v, true
	}
	switch t.k {
	case KBin:
		a, b := t.args[0], t.args[1]
		switch t.op {
		case "==":
			if isDeep(a) || isDeep(b) {
				return false, false
			}
			if a == b {
				return true, true
			}
			if a.isNil() || b.isNil() {
				x := a
				if a.isNil() {
					x = b
				}
				if x.isNil() {
					return true, true
				}
				if f.nonNil(x) {
					return false, true
				}
				if f.isNilF(x) {
					return true, true
				}
				return false, false
			}
			if distinct(a, b) {
				return false, true
			}
			if sa := stripIface(a); sa.k == KStruct && sa == stripIface(b) {
				return true, true
			}
			if bv, ok := a.isBool(); ok {
				v, k := f.eval(b)
				return v == bv, k
			}
			if bv, ok := b.isBool(); ok {
				v, k := f.eval(a)
				return v == bv, k
			}
			if a.typ != nil && (isIntType(a.typ)) {
				hi := f.diff(a, b)
				lo := f.diff(b, a)
				if hi < 0 || lo < 0 {
					return false, true
				}
				if hi == 0 && lo == 0 {
					return true, true
				}
			} else {
				// equality of anything: a == const c1 known and b another const
				if v, k := f.eqConst(a, b); k {
					return v, true
				}
			}
		case "<":
			if a.typ != nil && isIntType(a.typ) {
				if f.diff(a, b) <= -1 {
					return true, true
				}
				if f.diff(b, a) <= 0 {
					return false, true
				}
			}
		}
	case KCall:
		if t.op == "errors.Is" && len(t.args) >= 2 {
			e, s := stripIface(t.args[0]), stripIface(t.args[1])
			if e.isNil() || f.isNilF(e) || f.isNilF(t.args[0]) {
				return s.isNil(), true
			}
			if e == s {
				return true, true
			}
			if isSentinel(s) {
				if isSentinel(e) {
					return false, true
				}
				if e.k == KCall && e.op == "errors.New" {
					return false, true
				}
				if e.k == KCall && e.op == "fmt.Errorf" {
					if fs, ok := e.args[0].isStr(); ok && !strings.Contains(fs, "%w") {
						return false, true
					}
				}
				if v, ok := f[mkBin(token.EQL, e, s, nil)]; ok && v {
					return true, true
				}
			}
		}
	case KExtract:
		// type assertions with different concrete types exclude each other
		if x := t.args[0]; x.k == KAssert && t.idx == 1 {
			base := x.args[0]
			if f.isNilF(base) || base.isNil() {
				return false, true
			}
			if base.k == KIface && !types.IsInterface(x.typ) {
				return types.Identical(base.args[0].typ, x.typ), true
			}
			for o, v := range f {
				if v && o.k == KExtract && o.idx == 1 && o.args[0].k == KAssert && o.args[0].args[0] == base && o != t {
					if !types.IsInterface(o.args[0].typ) && !types.IsInterface(x.typ) && !types.Identical(o.args[0].typ, x.typ) {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

func (f Facts) eqConst(a, b *Term) (bool, bool) {
	if a.k == KConst && b.k != KConst {
		a, b = b, a
	}
	if b.k != KConst || b.cst == nil {
		return false, false
	}
	for o, v := range f {
		if v && o.k == KBin && o.op == "==" {
			if o.args[0] == a || o.args[1] == a {
				c := o.args[0]
				if c == a {
					c = o.args[1]
				}
				if c.k == KConst && c.cst != nil && c.cst.Kind() == b.cst.Kind() {
					return constant.Compare(c.cst, token.EQL, b.cst), true
				}
			}
		}
	}
	return false, false
}

func (f Facts) nonNil(t *Term) bool {
	if surelyNonNil(t) {
		return true
	}
	if v, ok := f[mkBin(token.EQL, t, cNilOf(t), nil)]; ok && !v {
		return true
	}
	if t.k == KConv {
		return f.nonNil(t.args[0])
	}
	return false
}

func cNilOf(t *Term) *Term { return cNil(nil) }

func (f Facts) isNilF(t *Term) bool {
	if t.isNil() {
		return true
	}
	if v, ok := f[mkBin(token.EQL, t, cNilOf(t), nil)]; ok && v {
		return true
	}
	if t.k == KConv {
		return f.isNilF(t.args[0])
	}
	return false
}

const inf = int64(1) << 40

// diff returns the smallest c known with a - b <= c.
func (f Facts) diff(a, b *Term) int64 {
	ab, ao := linear(a)
	bb, bo := linear(b)
	if isDeep(ab) || isDeep(bb) {
		return inf
	}
	if ab == bb {
		return ao - bo
	}
	type edge struct {
		from, to *Term
		w        int64
	} // value(to) - value(from) <= w
	var es []edge
	nodes := map[*Term]bool{ab: true, bb: true, nil: true}
	addn := func(x *Term) {
		nodes[x] = true
	}
	var ne [][2]*Term
	for t, v := range f {
		if t.k != KBin {
			continue
		}
		x, y := t.args[0], t.args[1]
		if x.typ == nil || !isIntType(x.typ) {
			continue
		}
		xb, xo := linear(x)
		yb, yo := linear(y)
		if xb == yb {
			continue
		}
		le := func(pb *Term, po int64, qb *Term, qo int64, c int64) { // p - q <= c
			es = append(es, edge{qb, pb, c - po + qo})
		}
		switch t.op {
		case "<":
			if v {
				le(xb, xo, yb, yo, -1)
			} else {
				le(yb, yo, xb, xo, 0)
			}
		case "==":
			if v {
				le(xb, xo, yb, yo, 0)
				le(yb, yo, xb, xo, 0)
			} else {
				ne = append(ne, [2]*Term{x, y})
			}
		default:
			continue
		}
		addn(xb)
		addn(yb)
	}
	for n := range nodes {
		if n != nil && nonNegative(n) {
			es = append(es, edge{n, nil, 0}) // 0 - n <= 0
		}
		if n != nil {
			if m, ok := maxOf(n); ok {
				es = append(es, edge{nil, n, m})
			}
		}
	}
	run := func(from *Term) map[*Term]int64 {
		d := map[*Term]int64{}
		for n := range nodes {
			d[n] = inf
		}
		d[from] = 0
		for i := 0; ; i++ {
			ch := false
			for _, e := range es {
				if d[e.from] < inf && d[e.from]+e.w < d[e.to] {
					d[e.to] = d[e.from] + e.w
					ch = true
				}
			}
			if !ch {
				break
			}
			if i > len(nodes) { // contradictory conditions: nothing is concluded
				for n := range d {
					d[n] = inf
				}
				break
			}
		}
		return d
	}
	// sharpen with disequalities: p<=q and p!=q gives p<q
	for again := true; again; {
		again = false
		for i, n := range ne {
			if n[0] == nil {
				continue
			}
			xb, xo := linear(n[0])
			yb, yo := linear(n[1])
			if d := run(yb)[xb]; d < inf && d+xo-yo == 0 { // x-y <= 0
				es = append(es, edge{yb, xb, -1 - xo + yo})
				ne[i][0], again = nil, true
			} else if d := run(xb)[yb]; d < inf && d+yo-xo == 0 {
				es = append(es, edge{xb, yb, -1 - yo + xo})
				ne[i][0], again = nil, true
			}
		}
	}
	d := run(bb)[ab]
	if d >= inf {
		return inf
	}
	return d + ao - bo
}

func nonNegative(t *Term) bool {
	if t.k == KCall && (t.op == "len" || t.op == "cap") {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// maxOf: bound by the type alone for small unsigned types
func maxOf(t *Term) (int64, bool) {
	if t.k == KBin && (t.op == "%" || t.op == "&") {
		if c, ok := t.args[1].isInt(); ok && c > 0 && nonNegative(t) {
			if t.op == "%" {
				return c - 1, true
			}
			return c, true
		}
	}
	if t.typ == nil {
		return 0, false
	}
	if b, ok := t.typ.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 255, true
		case types.Uint16:
			return 65535, true
		}
	}
	return 0, false
}

// assume adds a fact; false if it contradicts what is known.
func (f Facts) assume(t *Term, val bool) bool {
	if v, k := f.eval(t); k {
		if v != val {
			return false
		}
		if _, isc := t.isBool(); isc {
			return true
		}
	}
	if t.k == KUn && t.op == "!" {
		return f.assume(t.args[0], !val)
	}
	if t.has(isDeep) {
		return true // nothing is kept of values whose structure was forgotten
	}
	f[t] = val
	if t.k == KBin && t.op == "==" {
		a, b := t.args[0], t.args[1]
		if bv, ok := a.isBool(); ok {
			return f.assume(b, bv == val)
		}
		if bv, ok := b.isBool(); ok {
			return f.assume(a, bv == val)
		}
		if val && isErrSide(a, b) { // equal to a non-nil value
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if f.nonNil(p[0]) && !p[1].isNil() {
					f[mkBin(token.EQL, p[1], cNil(nil), nil)] = false
				}
			}
		}
	}
	if t.k == KCall && t.op == "errors.Is" && val && len(t.args) >= 2 {
		if !f.assume(mkBin(token.EQL, t.args[0], cNil(nil), nil), false) {
			return false
		}
	}
	if t.k == KExtract && t.idx == 1 && val && t.args[0].k == KAssert {
		f[mkBin(token.EQL, t.args[0].args[0], cNil(nil), nil)] = false
	}
	return true
}

// isDeep: a value too deep to be named, two of them need not be equal.
func isDeep(t *Term) bool { return t != nil && t.k == KUnk && t.op == "deep" }

func isErrSide(a, b *Term) bool { return !a.isNil() && !b.isNil() }

func (f Facts) clone() Facts {
	n := make(Facts, len(f)+2)
	for k, v := range f {
		n[k] = v
	}
	return n
}
