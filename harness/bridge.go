package main

import (
	"fmt"
	"sort"

	f "github.com/booleworks/logicng-go/formula"
)

// World couples one library factory with the index space of the model.
type World struct {
	F     f.Factory
	N     int
	vars  []f.Variable
	name  []string
	idx   map[string]int
	memo  map[f.Formula]*Node
	Extra []string // names of foreign variables, index N+i
	Cons  bool
}

// NewWorld creates a factory with nv base variables, created in random order
// with random gaps so that variable IDs do not follow the index order.
func NewWorld(r *Rng, nv int, conserve bool) *World {
	w := &World{N: nv, idx: map[string]int{}, memo: map[f.Formula]*Node{}, Cons: conserve}
	if conserve {
		w.F = f.NewFactory(true)
	} else if r.Bool() {
		w.F = f.NewFactory(false)
	} else {
		w.F = f.NewFactory()
	}
	w.name = make([]string, nv)
	w.vars = make([]f.Variable, nv)
	perm := r.Perm(nv)
	style := r.Intn(3)
	for i := 0; i < nv; i++ {
		switch style {
		case 0:
			w.name[i] = fmt.Sprintf("v%d", i)
		case 1:
			w.name[i] = fmt.Sprintf("x%d", perm[i])
		default:
			w.name[i] = fmt.Sprintf("%c%d", 'A'+byte(perm[i]%26), i)
		}
	}
	for _, p := range r.Perm(nv) {
		if r.P(20) {
			w.F.Variable(fmt.Sprintf("gap%d", r.Intn(1000)))
		}
		w.vars[p] = w.F.Var(w.name[p])
	}
	for i, n := range w.name {
		w.idx[n] = i
	}
	storeConfigs(w)
	return w
}

// NewWorldPlain has names v0.. in index order.
func NewWorldPlain(nv int, conserve bool) *World {
	w := &World{N: nv, idx: map[string]int{}, memo: map[f.Formula]*Node{}, Cons: conserve, F: f.NewFactory(conserve)}
	for i := 0; i < nv; i++ {
		w.name = append(w.name, vname(i))
		w.vars = append(w.vars, w.F.Var(vname(i)))
		w.idx[vname(i)] = i
	}
	storeConfigs(w)
	return w
}

// Twin is a fresh factory with the same names.
func (w *World) Twin() *World {
	t := &World{N: w.N, idx: map[string]int{}, memo: map[f.Formula]*Node{}, Cons: w.Cons, F: f.NewFactory(w.Cons)}
	for i := 0; i < w.N; i++ {
		t.name = append(t.name, w.name[i])
		t.vars = append(t.vars, t.F.Var(w.name[i]))
		t.idx[w.name[i]] = i
	}
	copyConfigs(w.F, t.F)
	return t
}

func (w *World) Var(v int) f.Variable { return w.vars[v] }
func (w *World) Vars() []f.Variable   { return append([]f.Variable{}, w.vars...) }
func (w *World) Lit(l PLit) f.Literal { return w.F.Lit(w.name[l.V], l.Pos) }
func (w *World) Lits(ls []PLit) []f.Literal {
	var out []f.Literal
	for _, l := range ls {
		out = append(out, w.Lit(l))
	}
	return out
}
func (w *World) VarsOf(idx []int) []f.Variable {
	out := make([]f.Variable, 0, len(idx))
	for _, i := range idx {
		out = append(out, w.vars[i])
	}
	return out
}

var csorts = [...]f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}

func cmpOf(c f.CSort) Cmp {
	for i, s := range csorts {
		if s == c {
			return Cmp(i)
		}
	}
	return -1
}

// Build constructs the library formula of a model node.
func (w *World) Build(n *Node) f.Formula {
	fac := w.F
	switch n.K {
	case KFalse:
		return fac.Falsum()
	case KTrue:
		return fac.Verum()
	case KLit:
		return fac.Literal(w.name[n.L.V], n.L.Pos)
	case KNot:
		return fac.Not(w.Build(n.Ops[0]))
	case KImpl:
		return fac.Implication(w.Build(n.Ops[0]), w.Build(n.Ops[1]))
	case KEquiv:
		return fac.Equivalence(w.Build(n.Ops[0]), w.Build(n.Ops[1]))
	case KAnd, KOr:
		ops := make([]f.Formula, len(n.Ops))
		for i, o := range n.Ops {
			ops[i] = w.Build(o)
		}
		if n.K == KAnd {
			return fac.And(ops...)
		}
		return fac.Or(ops...)
	case KCC:
		vs := make([]f.Variable, len(n.Lits))
		for i, l := range n.Lits {
			vs[i] = w.vars[l.V]
		}
		return fac.CC(csorts[n.Cmp], uint32(n.Rhs), vs...)
	}
	ls := make([]f.Literal, len(n.Lits))
	for i, l := range n.Lits {
		ls[i] = w.Lit(l)
	}
	return fac.PBC(csorts[n.Cmp], n.Rhs, ls, append([]int{}, n.Coefs...))
}

func (w *World) BuildAll(ns []*Node) []f.Formula {
	out := make([]f.Formula, len(ns))
	for i, n := range ns {
		out[i] = w.Build(n)
	}
	return out
}

// Idx maps a name to its index, allocating foreign (auxiliary) variables.
func (w *World) Idx(name string) int {
	if i, ok := w.idx[name]; ok {
		return i
	}
	i := w.N + len(w.Extra)
	w.Extra = append(w.Extra, name)
	w.idx[name] = i
	return i
}

func (w *World) PLit(l f.Literal) PLit {
	name, phase, ok := w.F.LitNamePhase(l)
	if !ok {
		panic(Violation{fmt.Sprintf("literal %d is unknown to its factory", l)})
	}
	return PLit{w.Idx(name), phase}
}

// From reads a library formula back through the public accessors.
func (w *World) From(g f.Formula) *Node {
	if n, ok := w.memo[g]; ok {
		return n
	}
	n := w.from(g)
	w.memo[g] = n
	return n
}

func (w *World) from(g f.Formula) *Node {
	fac := w.F
	bad := func(what string) *Node {
		panic(Violation{fmt.Sprintf("formula %d of sort %s cannot be read back (%s)", g, g.Sort(), what)})
	}
	switch g.Sort() {
	case f.SortFalse:
		return &Node{K: KFalse}
	case f.SortTrue:
		return &Node{K: KTrue}
	case f.SortLiteral:
		name, phase, ok := fac.LiteralNamePhase(g)
		if !ok {
			return bad("literal")
		}
		return nLit(w.Idx(name), phase)
	case f.SortNot:
		op, ok := fac.NotOperand(g)
		if !ok {
			return bad("not")
		}
		return nNot(w.From(op))
	case f.SortImpl, f.SortEquiv:
		l, r, ok := fac.BinaryLeftRight(g)
		if !ok {
			return bad("binary")
		}
		k := KImpl
		if g.Sort() == f.SortEquiv {
			k = KEquiv
		}
		return &Node{K: k, Ops: []*Node{w.From(l), w.From(r)}}
	case f.SortAnd, f.SortOr:
		ops, ok := fac.NaryOperands(g)
		if !ok {
			return bad("nary")
		}
		k := KAnd
		if g.Sort() == f.SortOr {
			k = KOr
		}
		n := &Node{K: k}
		for _, o := range ops {
			n.Ops = append(n.Ops, w.From(o))
		}
		return n
	case f.SortCC, f.SortPBC:
		c, rhs, lits, coefs, ok := fac.PBCOps(g)
		if !ok || len(lits) != len(coefs) {
			return bad("pbc")
		}
		n := &Node{K: KPBC, Cmp: cmpOf(c), Rhs: rhs, Coefs: append([]int{}, coefs...)}
		if g.Sort() == f.SortCC {
			n.K = KCC
		}
		for _, l := range lits {
			n.Lits = append(n.Lits, w.PLit(l))
		}
		return n
	}
	return bad("unknown sort")
}

// OnlyBase reports whether the formula uses only base variables.
func (w *World) OnlyBase(n *Node) bool {
	for _, v := range n.Vars() {
		if v >= w.N {
			return false
		}
	}
	return true
}

// TTOf is the truth table of a library formula without foreign variables.
func (w *World) TTOf(g f.Formula) TT {
	n := w.From(g)
	if !w.OnlyBase(n) {
		panic(Violation{fmt.Sprintf("formula %s contains foreign variables", cut(g.Sprint(w.F), 300))})
	}
	return n.TT(w.N)
}

// ProjTT is the set of base assignments that extend to a model of the
// conjunction of the given library formulas.
func (w *World) ProjTT(gs ...f.Formula) TT {
	ns := make([]*Node, len(gs))
	base := true
	for i, g := range gs {
		ns[i] = w.From(g)
		base = base && w.OnlyBase(ns[i])
	}
	return ProjTTNodes(w.N, base, ns...)
}

func ProjTTNodes(nv int, base bool, ns ...*Node) TT {
	if base {
		t := TTConst(nv, true)
		for _, n := range ns {
			t = t.And(n.TT(nv))
		}
		return t
	}
	e := NewRefEnc()
	for _, n := range ns {
		e.Assert(n)
	}
	t := NewTT(nv)
	if ok, _ := e.S.Solve(); !ok {
		return t
	}
	asm := make([]int32, nv)
	// learn base values quickly: iterate over all assignments under assumptions
	for a := uint64(0); a < 1<<uint(nv); a++ {
		for v := 0; v < nv; v++ {
			asm[v] = rl(e.Var(v), a>>uint(v)&1 == 1)
		}
		if ok, _ := e.S.Solve(asm...); ok {
			t.Set(a)
		}
	}
	return t
}

// LitsAsg turns a list of library literals into (mask, values) over the base
// variables; complementary or duplicate variables are reported.
func (w *World) LitsAsg(lits []f.Literal) (mask, val uint64, err string) {
	for _, l := range lits {
		p := w.PLit(l)
		if p.V >= w.N {
			return mask, val, "foreign variable " + w.Extra[p.V-w.N]
		}
		if mask>>uint(p.V)&1 == 1 {
			return mask, val, "variable " + w.name[p.V] + " assigned twice"
		}
		mask |= 1 << uint(p.V)
		if p.Pos {
			val |= 1 << uint(p.V)
		}
	}
	return
}

func (w *World) VarIdxSet(vs []f.Variable) []int {
	m := map[int]bool{}
	for _, v := range vs {
		n, ok := w.F.VarName(v)
		if !ok {
			panic(Violation{fmt.Sprintf("variable %d is unknown to its factory", v)})
		}
		m[w.Idx(n)] = true
	}
	return sortedKeys(m)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedInts(x []int) []int {
	y := append([]int{}, x...)
	sort.Ints(y)
	return y
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
