package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// carriesTx: a wire type that carries a whole transaction.
func carriesTx(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := structOf(t)
	if s == nil || isTransaction(t) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && isTransaction(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// isText: the forms a transaction id is given in.
func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// checkIdentity: what a wire transaction tells as its hash is the id the mempool, the
// scanner and the other peers know it by, which leaves the witnesses out.
func checkIdentity(p *Prog, r *Report) {
	r.rule("identity", "the hash a wire transaction tells is its transaction id")
	for _, f := range p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "pkg/protocol") || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		if sig.Recv() == nil || !carriesTx(sig.Recv().Type()) || !f.Object().Exported() || sig.Params().Len() > 0 ||
			sig.Results().Len() == 0 || !isText(sig.Results().At(0).Type()) || !strings.Contains(f.Name(), "Hash") && !strings.Contains(strings.ToLower(f.Name()), "id") {
			continue
		}
		if f.Name() == "MarshalBinary" || strings.Contains(f.Name(), "Witness") {
			continue
		}
		short := fname(f)
		x := newExec(p)
		x.inline = func(x *Exec, st *State, g *ssa.Function, c *callRec) bool { return inModule(g) }
		x.on = func(x *Exec, st *State, ev *Event) {
			switch ev.kind {
			case EvCall:
				switch {
				case strings.HasSuffix(ev.op, "Transaction).TxHash"):
					st.set("id")
				case strings.HasSuffix(ev.op, "Transaction).Serialize"), strings.HasSuffix(ev.op, "Transaction).WitnessHash"):
					st.set("whole")
				}
			case EvReturn:
				if _, ok := successFacts(st, ev.args); !ok {
					return
				}
				r.check(st.flag("id") && !st.flag("whole"), "identity", short, ev.instr.Pos(), st.path(20), "the hash told is not the transaction id: it is not the one TxHash computes, which leaves the witnesses out")
			}
		}
		r.ran(x, short, x.run(f, rootOpt{}))
	}
	r.need("identity", 1)
}
