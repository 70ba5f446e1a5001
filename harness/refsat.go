package main

// RefSat is an independent CDCL solver used as the satisfiability oracle for
// instances too large for truth tables.  Literals are 2*v (positive) and
// 2*v+1 (negative).
type RefSat struct {
	nv      int
	clauses [][]int32
	watches [][]int32 // literal -> clause indices watching it
	val     []int8    // per var: 0 undef, 1 true, -1 false
	level   []int32
	reason  []int32
	trail   []int32
	lim     []int32
	qhead   int
	act     []float64
	inc     float64
	phase   []int8
	unsat   bool
	Budget  int // conflicts; <=0 unlimited
	gaveUp  bool
}

func NewRefSat(nv int) *RefSat {
	s := &RefSat{inc: 1}
	s.Grow(nv)
	return s
}

func (s *RefSat) Grow(nv int) {
	for s.nv < nv {
		s.nv++
		s.watches = append(s.watches, nil, nil)
		s.val = append(s.val, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, -1)
		s.act = append(s.act, 0)
		s.phase = append(s.phase, -1)
	}
}

func (s *RefSat) NewVar() int { s.Grow(s.nv + 1); return s.nv - 1 }

func rl(v int, pos bool) int32 {
	if pos {
		return int32(2 * v)
	}
	return int32(2*v + 1)
}

func (s *RefSat) lval(l int32) int8 {
	v := s.val[l>>1]
	if l&1 == 1 {
		return -v
	}
	return v
}

// Add adds a clause; must be called at decision level 0.
func (s *RefSat) Add(lits ...int32) {
	if s.unsat {
		return
	}
	s.cancel(0)
	var cl []int32
	for _, l := range lits {
		s.Grow(int(l>>1) + 1)
		dup, taut := false, false
		for _, k := range cl {
			if k == l {
				dup = true
			}
			if k == l^1 {
				taut = true
			}
		}
		if taut || s.lval(l) == 1 {
			return
		}
		if !dup && s.lval(l) == 0 {
			cl = append(cl, l)
		}
	}
	switch len(cl) {
	case 0:
		s.unsat = true
	case 1:
		s.enqueue(cl[0], -1)
		if s.propagate() >= 0 {
			s.unsat = true
		}
	default:
		s.attach(cl)
	}
}

func (s *RefSat) attach(cl []int32) int32 {
	id := int32(len(s.clauses))
	s.clauses = append(s.clauses, cl)
	s.watches[cl[0]] = append(s.watches[cl[0]], id)
	s.watches[cl[1]] = append(s.watches[cl[1]], id)
	return id
}

func (s *RefSat) enqueue(l int32, reason int32) {
	v := l >> 1
	if l&1 == 0 {
		s.val[v] = 1
	} else {
		s.val[v] = -1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = reason
	s.trail = append(s.trail, l)
}

func (s *RefSat) propagate() int32 {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		fl := p ^ 1
		ws := s.watches[fl]
		j := 0
		for i := 0; i < len(ws); i++ {
			ci := ws[i]
			c := s.clauses[ci]
			if c[0] == fl {
				c[0], c[1] = c[1], c[0]
			}
			if s.lval(c[0]) == 1 {
				ws[j] = ci
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.lval(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watches[c[1]] = append(s.watches[c[1]], ci)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = ci
			j++
			if s.lval(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[fl] = ws[:j]
				return ci
			}
			s.enqueue(c[0], ci)
		}
		s.watches[fl] = ws[:j]
	}
	return -1
}

func (s *RefSat) cancel(lvl int) {
	if len(s.lim) <= lvl {
		return
	}
	b := int(s.lim[lvl])
	for i := len(s.trail) - 1; i >= b; i-- {
		v := s.trail[i] >> 1
		s.phase[v] = s.val[v]
		s.val[v] = 0
		s.reason[v] = -1
	}
	s.trail = s.trail[:b]
	s.lim = s.lim[:lvl]
	s.qhead = b
}

func (s *RefSat) analyze(confl int32) ([]int32, int) {
	seen := make(map[int32]bool)
	learnt := []int32{0}
	cnt := 0
	var p int32 = -1
	idx := len(s.trail) - 1
	for {
		for _, q := range s.clauses[confl] {
			if q == p {
				continue
			}
			v := q >> 1
			if !seen[v] && s.level[v] > 0 {
				seen[v] = true
				s.act[v] += s.inc
				if int(s.level[v]) == len(s.lim) {
					cnt++
				} else {
					learnt = append(learnt, q)
				}
			}
		}
		for !seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		confl = s.reason[p>>1]
		cnt--
		if cnt == 0 {
			break
		}
	}
	learnt[0] = p ^ 1
	bt := 0
	for i := 1; i < len(learnt); i++ {
		if int(s.level[learnt[i]>>1]) > bt {
			bt = int(s.level[learnt[i]>>1])
			learnt[1], learnt[i] = learnt[i], learnt[1]
		}
	}
	s.inc *= 1.05
	if s.inc > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	return learnt, bt
}

// Solve returns (sat, decided).
func (s *RefSat) Solve(assume ...int32) (bool, bool) {
	if s.unsat {
		return false, true
	}
	for _, a := range assume {
		s.Grow(int(a>>1) + 1)
	}
	s.cancel(0)
	if s.propagate() >= 0 {
		s.unsat = true
		return false, true
	}
	conflicts := 0
	restart := 100
	for {
		confl := s.propagate()
		if confl >= 0 {
			conflicts++
			if len(s.lim) == 0 {
				s.unsat = true
				return false, true
			}
			learnt, bt := s.analyze(confl)
			s.cancel(bt)
			if len(learnt) == 1 {
				s.enqueue(learnt[0], -1)
			} else {
				id := s.attach(learnt)
				s.enqueue(learnt[0], id)
			}
			if s.Budget > 0 && conflicts > s.Budget {
				s.cancel(0)
				return false, false
			}
			restart--
			continue
		}
		if restart <= 0 {
			restart = 100 + conflicts/4
			s.cancel(0)
			continue
		}
		var next int32 = -1
		for len(s.lim) < len(assume) {
			a := assume[len(s.lim)]
			va := s.lval(a)
			if va == 1 {
				s.lim = append(s.lim, int32(len(s.trail)))
				continue
			}
			if va == -1 {
				s.cancel(0)
				return false, true
			}
			next = a
			break
		}
		if next < 0 {
			best := -1.0
			bv := -1
			for v := 0; v < s.nv; v++ {
				if s.val[v] == 0 && s.act[v] > best {
					best = s.act[v]
					bv = v
				}
			}
			if bv < 0 {
				return true, true
			}
			next = rl(bv, s.phase[bv] == 1)
		}
		s.lim = append(s.lim, int32(len(s.trail)))
		s.enqueue(next, -1)
	}
}

// Val gives the model value after a satisfiable Solve.
func (s *RefSat) Val(v int) bool { return v < s.nv && s.val[v] == 1 }

// AddNode adds the constraint "n is true"; variables 0.. are mapped by vm
// (index -> RefSat variable), created on demand.
type RefEnc struct {
	S  *RefSat
	vm map[int]int
}

func NewRefEnc() *RefEnc { return &RefEnc{S: NewRefSat(0), vm: map[int]int{}} }

func (e *RefEnc) Var(v int) int {
	x, ok := e.vm[v]
	if !ok {
		x = e.S.NewVar()
		e.vm[v] = x
	}
	return x
}

func (e *RefEnc) PL(l PLit) int32 { return rl(e.Var(l.V), l.Pos) }

func (e *RefEnc) Assert(n *Node) {
	switch n.K {
	case KAnd:
		for _, o := range n.Ops {
			e.Assert(o)
		}
		return
	case KOr:
		var cl []int32
		for _, o := range n.Ops {
			cl = append(cl, e.Lit(o))
		}
		e.S.Add(cl...)
		return
	}
	e.S.Add(e.Lit(n))
}

// Lit returns a literal equivalent to n (full Tseitin).
func (e *RefEnc) Lit(n *Node) int32 {
	switch n.K {
	case KTrue, KFalse:
		x := rl(e.S.NewVar(), true)
		if n.K == KTrue {
			e.S.Add(x)
		} else {
			e.S.Add(x ^ 1)
		}
		return x
	case KLit:
		return e.PL(n.L)
	case KNot:
		return e.Lit(n.Ops[0]) ^ 1
	case KImpl:
		return e.orLit(e.Lit(n.Ops[0])^1, e.Lit(n.Ops[1]))
	case KEquiv:
		a, b := e.Lit(n.Ops[0]), e.Lit(n.Ops[1])
		x := rl(e.S.NewVar(), true)
		e.S.Add(x^1, a^1, b)
		e.S.Add(x^1, a, b^1)
		e.S.Add(x, a, b)
		e.S.Add(x, a^1, b^1)
		return x
	case KAnd:
		var ls []int32
		for _, o := range n.Ops {
			ls = append(ls, e.Lit(o)^1)
		}
		return e.orLit(ls...) ^ 1
	case KOr:
		var ls []int32
		for _, o := range n.Ops {
			ls = append(ls, e.Lit(o))
		}
		return e.orLit(ls...)
	}
	// sum as a memoised decision diagram over (position, partial sum)
	memo := map[[2]int]int32{}
	var T, F int32 = -1, -1
	konst := func(b bool) int32 {
		if b {
			if T < 0 {
				T = rl(e.S.NewVar(), true)
				e.S.Add(T)
			}
			return T
		}
		if F < 0 {
			F = rl(e.S.NewVar(), true)
			e.S.Add(F ^ 1)
		}
		return F
	}
	var rec func(i, sum int) int32
	rec = func(i, sum int) int32 {
		if i == len(n.Lits) {
			return konst(n.Cmp.Eval(sum, n.Rhs))
		}
		if l, ok := memo[[2]int{i, sum}]; ok {
			return l
		}
		c := 1
		if n.K == KPBC {
			c = n.Coefs[i]
		}
		hi, lo := rec(i+1, sum+c), rec(i+1, sum)
		s := e.PL(n.Lits[i])
		x := rl(e.S.NewVar(), true)
		e.S.Add(s^1, x^1, hi)
		e.S.Add(s^1, x, hi^1)
		e.S.Add(s, x^1, lo)
		e.S.Add(s, x, lo^1)
		memo[[2]int{i, sum}] = x
		return x
	}
	return rec(0, 0)
}

func (e *RefEnc) orLit(ls ...int32) int32 {
	x := rl(e.S.NewVar(), true)
	cl := []int32{x ^ 1}
	for _, l := range ls {
		e.S.Add(x, l^1)
		cl = append(cl, l)
	}
	e.S.Add(cl...)
	return x
}
