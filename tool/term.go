package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a calling context: the chain of inlined call sites.
type Ctx struct {
	parent *Ctx
	site   ssa.Instruction
	depth  int
	id     int
}

// genKey names the program point (in its calling context) that creates a fresh value.
type genKey struct {
	k    Kind
	site ssa.Instruction
	ctx  *Ctx
}

// Kind of a term (value number).
type Kind uint8

const (
	KConst Kind = iota
	KZero
	KParam
	KFree
	KGlobal // address of a package variable
	KFunc
	KBuiltin
	KAlloc // address of a fresh object
	KField // address of a field
	KIndex // address of an element
	KLoad  // value loaded from memory not written on this path
	KFieldV
	KIndexV
	KCall // result (tuple) of an opaque call; args[0] is the callee/receiver
	KExtract
	KBin
	KUn
	KConv
	KIface
	KClosure
	KLookup
	KNext
	KRange
	KSlice
	KMake
	KAssert
	KRecv
	KStruct
	KOut // content written through a pointer by an opaque call
	KPhi
	KUnk
	KStale
	KAppend
	KSelect
	KTuple
	KSpread
	KSnap
)

var kindName = map[Kind]string{KConst: "const", KZero: "zero", KParam: "param", KFree: "free", KGlobal: "global", KFunc: "func", KBuiltin: "builtin",
	KAlloc: "alloc", KField: "&field", KIndex: "&index", KLoad: "load", KFieldV: "field", KIndexV: "index", KCall: "call", KExtract: "extract",
	KBin: "bin", KUn: "un", KConv: "conv", KIface: "iface", KClosure: "closure", KLookup: "lookup", KNext: "next", KRange: "range", KSlice: "slice",
	KMake: "make", KAssert: "assert", KRecv: "recv", KStruct: "struct", KOut: "out", KPhi: "phi", KUnk: "unknown", KStale: "stale", KAppend: "append", KSelect: "select", KTuple: "tuple", KSpread: "spread", KSnap: "snap"}

// Term is a hash-consed symbolic name of a value: how it was computed on the path,
// down to parameters, fresh objects and results of opaque calls.
type Term struct {
	id    int
	k     Kind
	op    string          // operator, name of a builtin, ...
	args  []*Term         // operands
	site  ssa.Instruction // for generative terms: where it was created
	val   ssa.Value       // parameter, free variable, global, function
	ctx   *Ctx
	typ   types.Type
	cst   constant.Value // KConst, nil for the nil constant
	fld   *types.Var     // KField, KFieldV
	fn    *ssa.Function  // KCall: static callee if known
	m     *types.Func    // KCall: interface method if an invoke
	idx   int            // KExtract, KOut (argument index), KParam
	depth int
	gens  map[genKey]bool // generative terms inside
	stale bool            // mentions a value of a former iteration
}

type termTable struct {
	m    map[string]*Term
	ctxs map[string]*Ctx
	n    int
	tids map[types.Type]int
	ityp []types.Type
	sids map[interface{}]int
}

var tt = &termTable{m: map[string]*Term{}, ctxs: map[string]*Ctx{}, sids: map[interface{}]int{}}

func (t *termTable) sid(x interface{}) int {
	if x == nil {
		return 0
	}
	if v, ok := t.sids[x]; ok {
		return v
	}
	v := len(t.sids) + 1
	t.sids[x] = v
	return v
}

func (t *termTable) tid(ty types.Type) int {
	if ty == nil {
		return -1
	}
	if t.tids == nil {
		t.tids = map[types.Type]int{}
	}
	if v, ok := t.tids[ty]; ok {
		return v
	}
	for i, o := range t.ityp {
		if types.Identical(o, ty) {
			t.tids[ty] = i
			return i
		}
	}
	t.ityp = append(t.ityp, ty)
	t.tids[ty] = len(t.ityp) - 1
	return len(t.ityp) - 1
}

func (t *termTable) pushCtx(parent *Ctx, site ssa.Instruction) *Ctx {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth
	}
	k := fmt.Sprintf("%d/%d", pid, t.sid(site))
	if c := t.ctxs[k]; c != nil {
		return c
	}
	c := &Ctx{parent: parent, site: site, depth: d + 1, id: len(t.ctxs) + 1}
	t.ctxs[k] = c
	return c
}

const maxTermDepth = 40

func generative(k Kind) bool {
	switch k {
	case KAlloc, KCall, KRecv, KNext, KMake, KOut, KPhi, KUnk, KAppend, KSelect, KRange:
		return true
	}
	return false
}

func (t *termTable) mk(x Term) *Term {
	var sb strings.Builder
	cid := 0
	if x.ctx != nil {
		cid = x.ctx.id
	}
	fmt.Fprintf(&sb, "%d|%s|%d|%d|%d|%d|%d|", x.k, x.op, t.sid2(x.site), t.sid2v(x.val), cid, x.idx, t.tid(x.typ))
	if x.cst != nil {
		sb.WriteString(x.cst.ExactString())
	}
	sb.WriteByte('|')
	if x.fld != nil {
		fmt.Fprintf(&sb, "f%d", t.sid(x.fld))
	}
	if x.fn != nil {
		fmt.Fprintf(&sb, "F%d", t.sid(x.fn))
	}
	for _, a := range x.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if o := t.m[k]; o != nil {
		return o
	}
	t.n++
	n := new(Term)
	*n = x
	n.id = t.n
	n.gens = map[genKey]bool{}
	n.stale = n.k == KStale || (n.k == KUnk && n.op == "old")
	for _, a := range n.args {
		n.stale = n.stale || a.stale
		if a.depth+1 > n.depth {
			n.depth = a.depth + 1
		}
		for g := range a.gens {
			n.gens[g] = true
		}
	}
	if generative(n.k) && n.site != nil {
		n.gens[genKey{n.k, n.site, n.ctx}] = true
	}
	t.m[k] = n
	if n.depth > maxTermDepth {
		// widen: forget the structure
		w := t.mk(Term{k: KUnk, op: "deep", typ: x.typ, site: x.site, ctx: x.ctx})
		t.m[k] = w
		return w
	}
	return n
}

func (t *termTable) sid2(s ssa.Instruction) int {
	if s == nil {
		return 0
	}
	return t.sid(s)
}
func (t *termTable) sid2v(s ssa.Value) int {
	if s == nil {
		return 0
	}
	return t.sid(s)
}

func cNil(typ types.Type) *Term { return tt.mk(Term{k: KConst, typ: typ, op: "nil"}) }
func cBool(b bool) *Term {
	return tt.mk(Term{k: KConst, typ: types.Typ[types.Bool], cst: constant.MakeBool(b)})
}
func cInt(i int64, typ types.Type) *Term {
	if typ == nil {
		typ = types.Typ[types.Int]
	}
	return tt.mk(Term{k: KConst, typ: typ, cst: constant.MakeInt64(i)})
}

func zeroOf(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.mk(Term{k: KConst, typ: typ, cst: constant.MakeBool(false)})
		case u.Info()&types.IsString != 0:
			return tt.mk(Term{k: KConst, typ: typ, cst: constant.MakeString("")})
		case u.Info()&types.IsNumeric != 0:
			return tt.mk(Term{k: KConst, typ: typ, cst: constant.MakeInt64(0)})
		}
		return cNil(typ)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return cNil(typ)
	}
	return tt.mk(Term{k: KZero, typ: typ})
}

func (t *Term) isNil() bool { return t.k == KConst && t.cst == nil }
func (t *Term) isBool() (bool, bool) {
	if t.k == KConst && t.cst != nil && t.cst.Kind() == constant.Bool {
		return constant.BoolVal(t.cst), true
	}
	return false, false
}
func (t *Term) isInt() (int64, bool) {
	if t.k == KConst && t.cst != nil && t.cst.Kind() == constant.Int {
		if v, ok := constant.Int64Val(t.cst); ok {
			return v, true
		}
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) {
	if t.k == KConst && t.cst != nil && t.cst.Kind() == constant.String {
		return constant.StringVal(t.cst), true
	}
	return "", false
}

// strip removes conversions and interface wrapping.
func (t *Term) strip() *Term {
	for t.k == KConv || t.k == KIface || (t.k == KAssert && t.op == "") {
		t = t.args[0]
	}
	return t
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool { return t.has(func(y *Term) bool { return y == x }) }

func (t *Term) has(pred func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if seen[y.id] {
			return false
		}
		seen[y.id] = true
		if pred(y) {
			return true
		}
		for _, a := range y.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// find returns the first subterm that satisfies pred, outermost first.
func (t *Term) find(pred func(*Term) bool) *Term {
	var r *Term
	t.has(func(y *Term) bool {
		if pred(y) {
			r = y
			return true
		}
		return false
	})
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case KConst:
		if t.cst == nil {
			return "nil"
		}
		return t.cst.String()
	case KZero:
		return "zero(" + shortType(t.typ) + ")"
	case KParam, KFree:
		return t.val.Name()
	case KGlobal:
		return "&" + t.val.Name()
	case KFunc:
		return t.val.Name()
	case KAlloc:
		return "new(" + shortType(t.typ) + ")"
	case KField:
		return "&" + t.args[0].str(d+1) + "." + t.fld.Name()
	case KFieldV:
		return t.args[0].str(d+1) + "." + t.fld.Name()
	case KLoad:
		s := t.args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case KCall:
		n := t.op
		return n + "(" + as() + ")"
	case KExtract:
		return t.args[0].str(d+1) + "#" + fmt.Sprint(t.idx)
	case KBin:
		return "(" + t.args[0].str(d+1) + " " + t.op + " " + t.args[1].str(d+1) + ")"
	case KConv:
		return shortType(t.typ) + "(" + t.args[0].str(d+1) + ")"
	case KIface:
		return t.args[0].str(d + 1)
	case KStale:
		return "prev"
	}
	return kindName[t.k] + t.op + "(" + as() + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// typeName returns "pkgpath.Name" of the (pointed-to) named type, module prefix removed.
func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return rel(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
