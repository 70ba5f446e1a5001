package main

import (
	"fmt"
	"sort"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
)

func runP29(c *Ctx) {
	switch c.R.Intn(6) {
	case 0, 1:
		p29graph(c)
	case 2:
		p29hyper(c)
	case 3, 4:
		p29order(c)
	default:
		p29cover(c)
	}
}

func sprintVars(w *World, vs []f.Variable) (out []string) {
	for _, v := range vs {
		out = append(out, v.Sprint(w.F))
	}
	return
}

func p29formulas(r *Rng, nv int) []*Node {
	var out []*Node
	k := r.Range(0, nv+2)
	for i := 0; i < k; i++ {
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 3)
		if r.P(30) {
			g.CC, g.PB, g.MaxCC = 3, 2, 4
		}
		n := Gen(r, g)
		if r.P(60) { // few variables: more components
			sub := shuffled(r, seqInts(0, nv-1))[:r.Range(1, min(3, nv))]
			n = mapLits(n, func(l PLit) PLit { return PLit{sub[l.V%len(sub)], l.Pos} })
			for _, k := range constraintsOf(n) { // constraints over distinct variables only
				k.Lits = k.Lits[:1]
				if k.Coefs != nil {
					k.Coefs = k.Coefs[:1]
				}
			}
		}
		out = append(out, n)
	}
	return out
}

func p29graph(c *Ctx) {
	r := c.R
	nv := r.Range(1, 16)
	w := NewWorld(r, nv, r.P(25))
	fac := w.F
	ns := p29formulas(r, nv)
	var fs []f.Formula
	for i, n := range ns {
		fs = append(fs, w.Build(n))
		ns[i] = w.From(fs[i])
		c.Logf("formula %s", fs[i].Sprint(fac))
	}
	what := fmt.Sprint(len(fs), " formulas")
	g := graph.GenerateConstraintGraph(fac, fs...)
	adj := map[[2]int]bool{}
	present := map[int]bool{}
	for _, n := range ns {
		vs := n.Vars()
		for _, a := range vs {
			present[a] = true
			for _, b := range vs {
				if a != b {
					adj[[2]int{a, b}] = true
				}
			}
		}
	}
	nodes := map[int]bool{}
	for _, x := range g.Nodes() {
		c.Check(x.Sort() == f.SortLiteral && x.IsPos(), "node %s", x.Sprint(fac))
		v := w.PLit(f.Literal(x)).V
		c.Check(!nodes[v] && present[v], "%s: node %s twice or without need", what, x.Sprint(fac))
		nodes[v] = true
		nb := map[int]bool{}
		for _, y := range g.Neighbours(x) {
			u := w.PLit(f.Literal(y)).V
			c.Check(!nb[u], "%s: neighbour %s of %s twice", what, y.Sprint(fac), x.Sprint(fac))
			nb[u] = true
			c.Check(adj[[2]int{v, u}], "%s: edge between %s and %s", what, x.Sprint(fac), y.Sprint(fac))
		}
		for e := range adj {
			c.Check(e[0] != v || nb[e[1]], "%s: no edge between %s and variable %d", what, x.Sprint(fac), e[1])
		}
		c.Obs("graph edges", len(nb))
	}
	c.Check(len(nodes) == len(present), "%s: %d nodes instead of %d", what, len(nodes), len(present))
	c.Check(len(g.Neighbours(w.F.Variable("surely unknown"))) == 0, "unknown node has neighbours")
	// components: union-find
	comp := map[int]int{}
	for v := range present {
		comp[v] = v
	}
	for changed := true; changed; {
		changed = false
		for e := range adj {
			if comp[e[0]] < comp[e[1]] {
				comp[e[1]] = comp[e[0]]
				changed = true
			}
		}
	}
	ids := map[int]bool{}
	for _, k := range comp {
		ids[k] = true
	}
	cs := graph.ComputeConnectedComponents(g)
	c.Check(len(cs) == len(ids), "%s: %d components instead of %d", what, len(cs), len(ids))
	seen := map[int]bool{}
	for _, k := range cs {
		c.Check(len(k) > 0, "%s: empty component", what)
		ix := w.VarIdxSet(k)
		c.Check(len(ix) == len(k), "%s: component %v has repetitions", what, sprintVars(w, k))
		for _, v := range ix {
			c.Check(!seen[v] && comp[v] == comp[ix[0]], "%s: component %v", what, sprintVars(w, k))
			seen[v] = true
		}
	}
	c.Check(len(seen) == len(present), "%s: components miss variables", what)
	if len(cs) > 1 {
		c.Obs("graphs with several components", 1)
	}
	// splitting
	parts := graph.SplitFormulasByComponent(fac, fs, cs)
	count := map[f.Formula]int{}
	falses := 0
	for i, p := range parts {
		for _, x := range p {
			n := w.From(x)
			if len(n.Vars()) == 0 {
				c.Check(i >= len(cs) && !n.Eval(0) && len(p) == 1, "%s: constant %s in part %d", what, x.Sprint(fac), i)
				falses++
				continue
			}
			count[x]++
			c.Check(i < len(cs), "%s: formula %s in an extra part", what, x.Sprint(fac))
			in := map[int]bool{}
			for _, v := range w.VarIdxSet(cs[i]) {
				in[v] = true
			}
			for _, v := range n.Vars() {
				c.Check(in[v], "%s: formula %s in the part of %v", what, x.Sprint(fac), sprintVars(w, cs[i]))
			}
		}
	}
	wantF := 0
	want := map[f.Formula]int{}
	for i, x := range fs {
		if len(ns[i].Vars()) > 0 {
			want[x]++
		} else if !ns[i].Eval(0) {
			wantF++
		}
	}
	c.Check(fmt.Sprint(want) == fmt.Sprint(count), "%s: splitting loses or repeats formulas", what)
	c.Check(falses == wantF, "%s: %d false formulas instead of %d", what, falses, wantF)
	c.Obs("splits", 1)
	c.NT(fmt.Sprint(len(present), len(adj), fs))
}

func p29hyper(c *Ctx) {
	r := c.R
	nv := r.Range(1, 10)
	w := NewWorld(r, nv, r.P(25))
	fac := w.F
	cls := GenClauses(r, nv, r.Range(1, 10), 1, min(4, nv))
	var fs []f.Formula
	for _, cl := range cls {
		fs = append(fs, w.Build(clNode(cl)))
	}
	byClauses := r.Bool()
	var g *graph.Hypergraph
	var err error
	if byClauses {
		if r.P(20) {
			fs = append(fs, fac.Verum())
		}
		bad := r.P(15)
		if bad {
			x := w.Build(Gen(r, stdCfg(r, nv)))
			bad = x.Sort() > f.SortLiteral && x.Sort() != f.SortOr
			if bad {
				fs = append(fs, x)
			}
		}
		if n := len(fs) - 1; bad {
			i := r.Intn(n + 1)
			fs[i], fs[n] = fs[n], fs[i]
		}
		c.Logf("hypergraph of %d clauses", len(fs))
		g, err = graph.HypergraphFromClauses(fac, fs...)
		c.Check((err != nil) == bad, "hypergraph from clauses: error %v", err)
	} else {
		x := fac.And(fs...)
		if r.P(20) {
			x = w.Build(Gen(r, stdCfg(r, nv)))
		}
		c.Logf("hypergraph of %s", cut(x.Sprint(fac), 300))
		n := w.From(x)
		ok := n.K == KTrue || n.K == KFalse || isCNFN(n)
		g, err = graph.HypergraphFromCNF(fac, x)
		c.Check((err == nil) == ok, "hypergraph from %s: error %v", cut(x.Sprint(fac), 300), err)
		if ok {
			fs = nil
			if n.K == KAnd {
				fs = fac.Operands(x)
			} else if n.K != KTrue && n.K != KFalse {
				fs = []f.Formula{x}
			}
		}
	}
	if err != nil {
		c.Obs("hypergraphs refused", 1)
		return
	}
	var want, got []string
	inc := map[int]int{}
	for _, x := range fs {
		vs := w.From(x).Vars()
		if len(vs) == 0 {
			continue
		}
		want = append(want, fmt.Sprint(vs))
		for _, v := range vs {
			inc[v]++
		}
	}
	node := map[*graph.HypergraphNode]bool{}
	seen := map[int]bool{}
	for _, n := range g.Nodes {
		v := w.VarIdxSet([]f.Variable{n.Content})[0]
		c.Check(!seen[v], "hypergraph node twice")
		seen[v] = true
		node[n] = true
		c.Check(len(n.Edges) == inc[v], "variable %d on %d instead of %d hyperedges", v, len(n.Edges), inc[v])
		for _, e := range n.Edges {
			in := false
			for _, m := range e.Nodes {
				in = in || m == n
			}
			c.Check(in, "node lists a foreign hyperedge")
		}
	}
	c.Check(len(seen) == len(inc), "%d hypergraph nodes instead of %d", len(seen), len(inc))
	for _, e := range g.Edges {
		var vs []f.Variable
		for _, n := range e.Nodes {
			c.Check(node[n], "hyperedge over a foreign node")
			vs = append(vs, n.Content)
		}
		ix := w.VarIdxSet(vs)
		c.Check(len(ix) == len(vs), "hyperedge repeats a node")
		got = append(got, fmt.Sprint(ix))
	}
	sort.Strings(want)
	sort.Strings(got)
	c.Check(fmt.Sprint(want) == fmt.Sprint(got), "hyperedges %v instead of %v", got, want)
	c.Obs("hyperedges", len(got))
	c.NT(fmt.Sprint(got))
}

// firstOccurrences lists the variables by first occurrence, depth or breadth
// first, where a negated variable is below its negation.
func firstOccurrences(n *Node, bfs bool) (out []int) {
	type item struct {
		n *Node
		v int
	}
	seen := map[int]bool{}
	add := func(v int) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	work := []item{{n, 0}}
	for len(work) > 0 {
		var x item
		if bfs {
			x, work = work[0], work[1:]
		} else {
			x, work = work[len(work)-1], work[:len(work)-1]
		}
		var next []item
		switch {
		case x.n == nil:
			add(x.v)
		case x.n.K == KLit && x.n.L.Pos:
			add(x.n.L.V)
		case x.n.K == KLit:
			next = append(next, item{nil, x.n.L.V})
		case x.n.K == KCC || x.n.K == KPBC:
			for _, l := range x.n.Lits {
				add(l.V)
			}
		default:
			for _, o := range x.n.Ops {
				next = append(next, item{o, 0})
			}
		}
		if !bfs {
			for i := 0; i < len(next)/2; i++ {
				j := len(next) - 1 - i
				next[i], next[j] = next[j], next[i]
			}
		}
		work = append(work, next...)
	}
	return
}

func p29order(c *Ctx) {
	r := c.R
	nv := r.Range(1, 8)
	if r.P(50) {
		nv = r.Range(9, 30)
	}
	w := NewWorld(r, nv, r.P(25))
	fac := w.F
	var n *Node
	switch r.Intn(4) {
	case 0:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 5)
		g.CC, g.PB, g.MaxCC = 1, 1, min(nv, 5)
		n = Gen(r, g)
	case 1:
		g := stdCfg(r, nv)
		g.Depth = r.Range(0, 5)
		n = Gen(r, g)
	default:
		n = clausesNode(GenClauses(r, nv, r.Range(1, 2*nv+2), 1, min(4, nv)))
	}
	x := w.Build(n)
	n = w.From(x)
	what := cut(x.Sprint(fac), 300)
	c.Logf("orders of %s", what)
	dfs, bfs := firstOccurrences(n, false), firstOccurrences(n, true)
	occ := map[int]int{}
	for _, l := range litOccurrences(n) {
		occ[l.V]++
	}
	up := append([]int{}, dfs...)
	sort.SliceStable(up, func(i, j int) bool { return occ[up[i]] < occ[up[j]] })
	down := append([]int{}, dfs...)
	sort.SliceStable(down, func(i, j int) bool { return occ[down[i]] > occ[down[j]] })
	idx := func(vs []f.Variable) (out []int) {
		for _, v := range vs {
			out = append(out, w.VarIdxSet([]f.Variable{v})[0])
		}
		return
	}
	ties := map[int]bool{}
	for _, o := range occ {
		ties[o] = true
	}
	for _, o := range []struct {
		name string
		fn   func(f.Factory, f.Formula) []f.Variable
		want []int
	}{{"DFS", bdd.DFSOrder, dfs}, {"BFS", bdd.BFSOrder, bfs}, {"MinToMax", bdd.MinToMaxOrder, up}, {"MaxToMin", bdd.MaxToMinOrder, down}} {
		got := idx(o.fn(fac, x))
		c.Check(fmt.Sprint(got) == fmt.Sprint(o.want), "%s order of %s is %v instead of %v", o.name, what, got, o.want)
		c.Obs("orders judged", 1)
		if len(dfs) > 12 && len(ties) < len(dfs) {
			c.Obs("orders of many variables with equal occurrences", 1)
		}
	}
	if factSize(n, true, true) > 200 {
		return
	}
	nnf := w.From(normalform.NNF(fac, x))
	got := idx(bdd.ForceOrder(fac, x))
	seen := map[int]bool{}
	for _, v := range got {
		c.Check(!seen[v], "FORCE order of %s repeats a variable", what)
		seen[v] = true
		c.Check(v < nv || n.HasPB(), "FORCE order of %s contains a new variable", what)
	}
	for v := range occ {
		c.Check(seen[v], "FORCE order of %s misses a variable", what)
	}
	allowed := map[int]bool{}
	for _, v := range append(nnf.Vars(), n.Vars()...) {
		allowed[v] = true
	}
	for v := range seen {
		c.Check(allowed[v], "FORCE order of %s contains variable %d", what, v)
	}
	again := idx(bdd.ForceOrder(fac, x))
	c.Check(fmt.Sprint(got) == fmt.Sprint(again), "FORCE order of %s differs when computed again: %v, %v", what, got, again)
	c.Obs("FORCE orders judged", 1)
	c.NT(x.Sprint(fac))
}

// p29intervals: covers by intervals of a line, where the greedy choice is
// known to be a smallest one.
func p29intervals(c *Ctx) {
	r := c.R
	n, k := r.Range(10, 60), r.Range(12, 70)
	var ivs [][2]int
	covered := make([]bool, n)
	for i := 0; i < k; i++ {
		a := r.Intn(n)
		b := min(n-1, a+r.Intn(max(2, n/6)))
		ivs = append(ivs, [2]int{a, b})
		for e := a; e <= b; e++ {
			covered[e] = true
		}
	}
	best := 0
	for e := 0; e < n; {
		if !covered[e] {
			e++
			continue
		}
		far := e
		for _, iv := range ivs {
			if iv[0] <= e {
				far = max(far, iv[1])
			}
		}
		best++
		e = far + 1
	}
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	perm = shuffled(r, perm)
	var sets [][]int
	known := map[string]bool{}
	for _, iv := range ivs {
		s := []int{}
		for e := iv[0]; e <= iv[1]; e++ {
			s = append(s, perm[e])
		}
		s = shuffled(r, s)
		known[fmt.Sprint(s)] = true
		sets = append(sets, s)
	}
	c.Logf("intervals %v", ivs)
	got := np.MinimumSetCover(sets)
	seen := map[int]bool{}
	for _, s := range got {
		c.Check(known[fmt.Sprint(s)], "cover by intervals contains the unknown set %v", s)
		for _, e := range s {
			seen[e] = true
		}
	}
	for e := range covered {
		c.Check(!covered[e] || seen[perm[e]], "cover by intervals %v misses an element", ivs)
	}
	c.Check(len(got) == best, "cover by intervals %v has %d sets, %d suffice", ivs, len(got), best)
	c.Obs("large set covers", 1)
	c.NT(fmt.Sprint(ivs))
}

func p29cover(c *Ctx) {
	r := c.R
	if r.P(4) {
		p29intervals(c)
		return
	}
	ne := r.Range(1, 8)
	k := r.Range(0, 9)
	var sets [][]int
	var masks []int
	all := 0
	for i := 0; i < k; i++ {
		var s []int
		m := 0
		for e := 0; e < ne; e++ {
			if r.P(35) {
				s = append(s, e*7)
				m |= 1 << uint(e)
				if r.P(5) {
					s = append(s, e*7)
				}
			}
		}
		if i > 0 && r.P(10) {
			s, m = append([]int{}, sets[i-1]...), masks[i-1]
		}
		sets = append(sets, shuffled(r, s))
		masks = append(masks, m)
		all |= m
	}
	c.Logf("cover %v", sets)
	best := k + 1
	for q := 0; q < 1<<uint(k); q++ {
		u, n := 0, 0
		for i := 0; i < k; i++ {
			if q>>uint(i)&1 == 1 {
				u |= masks[i]
				n++
			}
		}
		if u == all {
			best = min(best, n)
		}
	}
	judge := func(got [][]string, in [][]string) {
		u := map[string]bool{}
		for _, s := range got {
			listed := false
			for _, t := range in {
				listed = listed || fmt.Sprint(s) == fmt.Sprint(t)
			}
			c.Check(listed, "cover of %v contains %v", sets, s)
			for _, e := range s {
				u[e] = true
			}
		}
		n := 0
		for m := all; m != 0; m &= m - 1 {
			n++
		}
		c.Check(len(u) == n, "cover %v of %v is incomplete", got, sets)
		c.Check(len(got) == best, "cover %v of %v, %d sets suffice", got, sets, best)
	}
	str := func(x [][]int) (out [][]string) {
		for _, s := range x {
			t := []string{}
			for _, e := range s {
				t = append(t, fmt.Sprint(e))
			}
			out = append(out, t)
		}
		return
	}
	if r.Bool() {
		judge(str(np.MinimumSetCover(sets)), str(sets))
	} else {
		judge(np.MinimumSetCover(str(sets)), str(sets))
	}
	c.Obs("set covers", 1)
	c.Obs(fmt.Sprintf("set covers of size %d", best), 1)
	c.NT(fmt.Sprint(sets))
}

func init() {
	probe("occurrence-order-ties", "P29", func(c *Ctx) {
		w := NewWorldPlain(40, false)
		var ls []*Node
		for v := 0; v < 40; v++ {
			ls = append(ls, nLit(v, true))
		}
		x := w.Build(nOr(append(ls, nAnd(nLit(20, true), nLit(39, true)))...))
		dfs := bdd.DFSOrder(w.F, x)
		up := bdd.MinToMaxOrder(w.F, x)
		j := 0
		for i, v := range dfs {
			if i == 20 || i == 39 {
				continue
			}
			c.Check(up[j] == v, "variables with equally many occurrences are not in DFS order: %v", sprintVars(w, up))
			j++
		}
	})
	register(&PropDef{ID: "P29", Quick: 60000, Thorough: 1500000, Run: runP29,
		Rule: "constraint graphs, components and splittings of formula lists over up to 16 variables; hypergraphs of clause lists; all ordering heuristics on formulas and clause sets over up to 30 variables; set systems of up to 9 sets",
		Need: []string{"graph edges", "graphs with several components", "splits", "hyperedges", "hypergraphs refused", "orders judged", "orders of many variables with equal occurrences", "FORCE orders judged", "set covers", "large set covers"}})
}
