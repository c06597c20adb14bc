package main

import (
	"fmt"
	"os"
	"sort"
)

func (x *Exec) dump(st *State) string {
	s := ""
	for _, f := range st.frames {
		s += fmt.Sprintf("FRAME %s b%d\n", fname(f.fn), f.blk.Index)
		var l []string
		for v, t := range f.env {
			l = append(l, fmt.Sprintf("  %s = %s [%d]", v.Name(), t, t.id))
		}
		sort.Strings(l)
		for _, q := range l {
			s += q + "\n"
		}
	}
	var l []string
	for k, v := range st.mem {
		l = append(l, fmt.Sprintf("  MEM %s[%d] = %s[%d]", k, k.id, v, v.id))
	}
	for k, v := range st.facts {
		l = append(l, fmt.Sprintf("  FACT %s[%d] %v", k, k.id, v))
	}
	for a := range st.atoms {
		l = append(l, fmt.Sprintf("  ATOM %s %v %v %v %s", a.name, a.a, a.b, a.c, a.s))
	}
	sort.Strings(l)
	for _, q := range l {
		s += q + "\n"
	}
	return s
}

var dbg = os.Getenv("NC_DEBUG") != ""
var dbgN = 0

func (x *Exec) debugState(st *State) {
	if dbg {
		dbgN++
		if dbgN > 30000 && dbgN < 30000+6000 && dbgN%1500 == 0 {
			fmt.Println("=====", dbgN)
			fmt.Println(x.dump(st))
		}
	}
}
