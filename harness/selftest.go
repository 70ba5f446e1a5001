package main

import "fmt"

// selftest validates the harness's own oracles against each other: the
// reference CDCL solver and its encodings against brute-force truth tables.
func selftest() int {
	n := 0
	for i := 0; i < 4000; i++ {
		r := NewRng(7, "selftest", i)
		nv := r.Range(1, 8)
		c := stdCfg(r, nv)
		c.CC, c.PB = r.Intn(4), r.Intn(4)
		c.CCClean = r.Bool()
		g := Gen(r, c)
		want := g.TT(nv)
		for a := uint64(0); a < 1<<uint(nv); a++ {
			if want.Get(a) != g.Eval(a) {
				fmt.Println("selftest: TT/Eval mismatch", g)
				return 2
			}
		}
		e := NewRefEnc()
		e.Assert(g)
		sat, _ := e.S.Solve()
		if sat != !want.IsFalse() {
			fmt.Println("selftest: RefSat mismatch", i, g)
			return 2
		}
		if got := ProjTTNodes(nv, false, g); !got.Eq(want) {
			fmt.Println("selftest: projection mismatch", i, g)
			return 2
		}
		n++
	}
	for i := 0; i < 300; i++ {
		r := NewRng(9, "selftest2", i)
		nv := r.Range(10, 16)
		cls := GenClauses(r, nv, int(4.3*float64(nv)), 3, 3)
		g := clausesNode(cls)
		e := NewRefEnc()
		e.Assert(g)
		sat, _ := e.S.Solve()
		if sat != !g.TT(nv).IsFalse() {
			fmt.Println("selftest: RefSat 3-SAT mismatch", i)
			return 2
		}
		n++
	}
	fmt.Println("selftest ok:", n, "instances")
	return 0
}
