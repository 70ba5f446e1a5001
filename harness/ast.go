package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// ---- independent formula model -------------------------------------------

type Kind int

const (
	KFalse Kind = iota
	KTrue
	KLit
	KNot
	KImpl
	KEquiv
	KAnd
	KOr
	KCC  // cardinality constraint (positive variables, coefficient 1)
	KPBC // pseudo-Boolean constraint
)

type Cmp int

const (
	EQ Cmp = iota
	LE
	LT
	GE
	GT
)

func (c Cmp) String() string { return [...]string{"=", "<=", "<", ">=", ">"}[c] }

func (c Cmp) Eval(l, r int) bool {
	switch c {
	case EQ:
		return l == r
	case LE:
		return l <= r
	case LT:
		return l < r
	case GE:
		return l >= r
	}
	return l > r
}

// PLit is a literal over variable index V.
type PLit struct {
	V   int
	Pos bool
}

type Node struct {
	K     Kind
	L     PLit
	Ops   []*Node
	Cmp   Cmp
	Rhs   int
	Lits  []PLit
	Coefs []int
}

func vname(v int) string { return fmt.Sprintf("v%d", v) }

func (n *Node) String() string {
	switch n.K {
	case KFalse:
		return "$false"
	case KTrue:
		return "$true"
	case KLit:
		if n.L.Pos {
			return vname(n.L.V)
		}
		return "~" + vname(n.L.V)
	case KNot:
		return "~(" + n.Ops[0].String() + ")"
	case KImpl:
		return "(" + n.Ops[0].String() + " => " + n.Ops[1].String() + ")"
	case KEquiv:
		return "(" + n.Ops[0].String() + " <=> " + n.Ops[1].String() + ")"
	case KAnd, KOr:
		op := " & "
		if n.K == KOr {
			op = " | "
		}
		var ss []string
		for _, o := range n.Ops {
			ss = append(ss, o.String())
		}
		if len(ss) == 0 {
			return "(empty" + op + ")"
		}
		return "(" + strings.Join(ss, op) + ")"
	}
	var ss []string
	for i, l := range n.Lits {
		s := vname(l.V)
		if !l.Pos {
			s = "~" + s
		}
		if n.K == KPBC {
			s = fmt.Sprintf("%d*%s", n.Coefs[i], s)
		}
		ss = append(ss, s)
	}
	return fmt.Sprintf("(%s %s %d)", strings.Join(ss, " + "), n.Cmp, n.Rhs)
}

func nLit(v int, pos bool) *Node { return &Node{K: KLit, L: PLit{v, pos}} }
func nNot(a *Node) *Node         { return &Node{K: KNot, Ops: []*Node{a}} }
func nAnd(a ...*Node) *Node      { return &Node{K: KAnd, Ops: a} }
func nOr(a ...*Node) *Node       { return &Node{K: KOr, Ops: a} }

func (n *Node) Eval(asg uint64) bool {
	switch n.K {
	case KFalse:
		return false
	case KTrue:
		return true
	case KLit:
		return (asg>>uint(n.L.V)&1 == 1) == n.L.Pos
	case KNot:
		return !n.Ops[0].Eval(asg)
	case KImpl:
		return !n.Ops[0].Eval(asg) || n.Ops[1].Eval(asg)
	case KEquiv:
		return n.Ops[0].Eval(asg) == n.Ops[1].Eval(asg)
	case KAnd:
		for _, o := range n.Ops {
			if !o.Eval(asg) {
				return false
			}
		}
		return true
	case KOr:
		for _, o := range n.Ops {
			if o.Eval(asg) {
				return true
			}
		}
		return false
	}
	sum := 0
	for i, l := range n.Lits {
		if (asg>>uint(l.V)&1 == 1) == l.Pos {
			if n.K == KCC {
				sum++
			} else {
				sum += n.Coefs[i]
			}
		}
	}
	return n.Cmp.Eval(sum, n.Rhs)
}

func (n *Node) vars(m map[int]bool) {
	if n.K == KLit {
		m[n.L.V] = true
	}
	for _, l := range n.Lits {
		m[l.V] = true
	}
	for _, o := range n.Ops {
		o.vars(m)
	}
}

// Vars returns the sorted variable indices.
func (n *Node) Vars() []int {
	m := map[int]bool{}
	n.vars(m)
	return sortedKeys(m)
}

func sortedKeys(m map[int]bool) []int {
	var out []int
	for v := range m {
		out = append(out, v)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (n *Node) Size() int {
	s := 1
	for _, o := range n.Ops {
		s += o.Size()
	}
	return s
}

func (n *Node) HasPB() bool {
	if n.K == KCC || n.K == KPBC {
		return true
	}
	for _, o := range n.Ops {
		if o.HasPB() {
			return true
		}
	}
	return false
}

// ---- truth tables ----------------------------------------------------------

// TT is the truth table over variables 0..n-1; bit a is the value under the
// assignment whose bit v is the value of variable v.
type TT struct {
	n int
	w []uint64
}

var varMasks = [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}

func NewTT(n int) TT {
	l := 1
	if n > 6 {
		l = 1 << uint(n-6)
	}
	return TT{n, make([]uint64, l)}
}

func (t TT) tailMask() uint64 {
	if t.n >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (uint(1) << uint(t.n))) - 1
}

func TTConst(n int, b bool) TT {
	t := NewTT(n)
	if b {
		for i := range t.w {
			t.w[i] = ^uint64(0)
		}
		t.w[0] &= t.tailMask()
	}
	return t
}

func TTVar(n, v int) TT {
	t := NewTT(n)
	for i := range t.w {
		if v < 6 {
			t.w[i] = varMasks[v]
		} else if i>>(uint(v)-6)&1 == 1 {
			t.w[i] = ^uint64(0)
		}
	}
	t.w[0] &= t.tailMask()
	return t
}

func (t TT) Not() TT {
	r := NewTT(t.n)
	for i := range t.w {
		r.w[i] = ^t.w[i]
	}
	r.w[0] &= t.tailMask()
	return r
}

func (t TT) And(o TT) TT {
	r := NewTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] & o.w[i]
	}
	return r
}

func (t TT) Or(o TT) TT {
	r := NewTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] | o.w[i]
	}
	return r
}

func (t TT) Xor(o TT) TT {
	r := NewTT(t.n)
	for i := range t.w {
		r.w[i] = t.w[i] ^ o.w[i]
	}
	return r
}

func (t TT) Equiv(o TT) TT { return t.Xor(o).Not() }

func (t TT) Eq(o TT) bool {
	if t.n != o.n {
		return false
	}
	for i := range t.w {
		if t.w[i] != o.w[i] {
			return false
		}
	}
	return true
}

func (t TT) Count() int {
	c := 0
	for _, w := range t.w {
		c += bits.OnesCount64(w)
	}
	return c
}

func (t TT) IsFalse() bool { return t.Count() == 0 }
func (t TT) IsTrue() bool  { return t.Count() == 1<<uint(t.n) }
func (t TT) Get(a uint64) bool {
	return t.w[a>>6]>>(a&63)&1 == 1
}

func (t TT) Set(a uint64) { t.w[a>>6] |= 1 << (a & 63) }

// Implies reports t => o.
func (t TT) Implies(o TT) bool {
	for i := range t.w {
		if t.w[i]&^o.w[i] != 0 {
			return false
		}
	}
	return true
}

// Cof is the cofactor with variable v fixed (result independent of v).
func (t TT) Cof(v int, b bool) TT {
	r := NewTT(t.n)
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		x := a &^ (1 << uint(v))
		if b {
			x |= 1 << uint(v)
		}
		if t.Get(x) {
			r.Set(a)
		}
	}
	return r
}

func (t TT) Exists(v int) TT { return t.Cof(v, false).Or(t.Cof(v, true)) }
func (t TT) Forall(v int) TT { return t.Cof(v, false).And(t.Cof(v, true)) }
func (t TT) Depends(v int) bool {
	return !t.Cof(v, false).Eq(t.Cof(v, true))
}

func (t TT) FirstDiff(o TT) (uint64, bool) {
	for i := range t.w {
		if d := t.w[i] ^ o.w[i]; d != 0 {
			return uint64(i)<<6 | uint64(bits.TrailingZeros64(d)), true
		}
	}
	return 0, false
}

func (t TT) Models() []uint64 {
	var out []uint64
	for a := uint64(0); a < 1<<uint(t.n); a++ {
		if t.Get(a) {
			out = append(out, a)
		}
	}
	return out
}

func (n *Node) TT(nv int) TT {
	switch n.K {
	case KFalse:
		return TTConst(nv, false)
	case KTrue:
		return TTConst(nv, true)
	case KLit:
		t := TTVar(nv, n.L.V)
		if !n.L.Pos {
			t = t.Not()
		}
		return t
	case KNot:
		return n.Ops[0].TT(nv).Not()
	case KImpl:
		return n.Ops[0].TT(nv).Not().Or(n.Ops[1].TT(nv))
	case KEquiv:
		return n.Ops[0].TT(nv).Equiv(n.Ops[1].TT(nv))
	case KAnd:
		t := TTConst(nv, true)
		for _, o := range n.Ops {
			t = t.And(o.TT(nv))
		}
		return t
	case KOr:
		t := TTConst(nv, false)
		for _, o := range n.Ops {
			t = t.Or(o.TT(nv))
		}
		return t
	}
	t := NewTT(nv)
	for a := uint64(0); a < 1<<uint(nv); a++ {
		if n.Eval(a) {
			t.Set(a)
		}
	}
	return t
}

// ---- generator --------------------------------------------------------------

// GenCfg describes the random formula distribution.
type GenCfg struct {
	NV      int // variables 0..NV-1
	Depth   int
	MaxOps  int
	PB      int // weight of PBC leaves (0 = none)
	CC      int // weight of CC leaves
	Consts  int // weight of constants
	Lit     int // weight of literals at inner levels
	NotW    int
	ImplW   int
	EquivW  int
	AndW    int
	OrW     int
	CCClean bool // distinct variables in constraints
	MaxCC   int
	MaxCoef int
	Huge    int // percentage of boundary coefficients
}

var boundaryCoefs = []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1 << 56}

func stdCfg(r *Rng, nv int) GenCfg {
	return GenCfg{NV: nv, Depth: r.Range(1, 4), MaxOps: r.Range(2, 4), Consts: 1, Lit: 6,
		NotW: r.Range(1, 4), ImplW: r.Range(0, 4), EquivW: r.Range(0, 4), AndW: 6, OrW: 6, MaxCC: 5, MaxCoef: 4, CCClean: true}
}

func Gen(r *Rng, c GenCfg) *Node { return gen(r, c, c.Depth) }

func gen(r *Rng, c GenCfg, d int) *Node {
	if d == 0 {
		return genLeaf(r, c)
	}
	tot := c.Lit + c.Consts + c.CC + c.PB + c.NotW + c.ImplW + c.EquivW + c.AndW + c.OrW
	x := r.Intn(tot)
	if x < c.Lit+c.Consts+c.CC+c.PB {
		return genLeaf(r, c)
	}
	x -= c.Lit + c.Consts + c.CC + c.PB
	if x < c.NotW {
		return nNot(gen(r, c, d-1))
	}
	x -= c.NotW
	if x < c.ImplW {
		return &Node{K: KImpl, Ops: []*Node{gen(r, c, d-1), gen(r, c, d-1)}}
	}
	x -= c.ImplW
	if x < c.EquivW {
		return &Node{K: KEquiv, Ops: []*Node{gen(r, c, d-1), gen(r, c, d-1)}}
	}
	x -= c.EquivW
	k := KAnd
	if x >= c.AndW {
		k = KOr
	}
	n := &Node{K: k}
	cnt := r.Range(2, max(2, c.MaxOps))
	if r.P(3) {
		cnt = r.Intn(2)
	}
	for i := 0; i < cnt; i++ {
		n.Ops = append(n.Ops, gen(r, c, d-1))
	}
	return n
}

func genLeaf(r *Rng, c GenCfg) *Node {
	x := r.Intn(c.Lit + 1 + c.Consts + c.CC + c.PB)
	if x < c.CC {
		return genCC(r, c)
	}
	x -= c.CC
	if x < c.PB {
		return genPBC(r, c)
	}
	x -= c.PB
	if x < c.Consts {
		if r.Bool() {
			return &Node{K: KTrue}
		}
		return &Node{K: KFalse}
	}
	return nLit(r.Intn(c.NV), r.Bool())
}

func genCC(r *Rng, c GenCfg) *Node {
	k := r.Range(1, max(1, min(c.MaxCC, c.NV)))
	p := r.Perm(c.NV)
	n := &Node{K: KCC, Cmp: Cmp(r.Intn(5))}
	for i := 0; i < k; i++ {
		v := p[i]
		if !c.CCClean && r.P(15) {
			v = r.Intn(c.NV)
		}
		n.Lits = append(n.Lits, PLit{v, true})
	}
	n.Rhs = r.Range(0, k+1)
	if r.P(35) {
		n.Rhs = 1
		n.Cmp = pick(r, LE, EQ)
	}
	return n
}

func genPBC(r *Rng, c GenCfg) *Node {
	k := r.Range(1, max(1, min(c.MaxCC, c.NV)))
	p := r.Perm(c.NV)
	n := &Node{K: KPBC, Cmp: Cmp(r.Intn(5))}
	lo, hi := 0, 0
	for i := 0; i < k; i++ {
		v := p[i]
		if !c.CCClean && r.P(20) {
			v = r.Intn(c.NV)
		}
		n.Lits = append(n.Lits, PLit{v, r.P(60)})
		co := r.Range(-c.MaxCoef, c.MaxCoef)
		if c.Huge > 0 && r.P(c.Huge) {
			co = boundaryCoefs[r.Intn(len(boundaryCoefs))]
			if r.Bool() {
				co = -co
			}
		}
		if c.CCClean && co == 0 {
			co = 1
		}
		n.Coefs = append(n.Coefs, co)
		if co > 0 {
			hi += co
		} else {
			lo += co
		}
	}
	n.Rhs = r.Range(lo-1, hi+1)
	if c.Huge > 0 && r.P(60) { // at a sum the constraint can attain
		n.Rhs = r.Range(-1, 1)
		for _, co := range n.Coefs {
			if r.Bool() {
				n.Rhs += co
			}
		}
	}
	return n
}

// GenClauses returns a random k-CNF as literal lists.
func GenClauses(r *Rng, nv, nc, kmin, kmax int) [][]PLit {
	var out [][]PLit
	for i := 0; i < nc; i++ {
		k := min(nv, r.Range(kmin, kmax))
		p := r.Perm(nv)
		var cl []PLit
		for j := 0; j < k; j++ {
			cl = append(cl, PLit{p[j], r.Bool()})
		}
		out = append(out, cl)
	}
	return out
}

func clausesNode(cls [][]PLit) *Node {
	n := &Node{K: KAnd}
	for _, c := range cls {
		o := &Node{K: KOr}
		for _, l := range c {
			o.Ops = append(o.Ops, nLit(l.V, l.Pos))
		}
		n.Ops = append(n.Ops, o)
	}
	return n
}
