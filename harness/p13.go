package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

// bigSH puts a larger structured problem on a solver history, optionally with
// only a part of its formulas, and returns the formulas left.
func bigSH(c *Ctx, sc *sat.Config, scale int, part int) (*SH, []*Node) {
	r := c.R
	p := genBig(r, scale)
	h := newSH(c, sc, max(p.nv, 9))
	h.pb = false
	nodes := p.nodes
	cutAt := len(nodes)
	if part < 100 {
		cutAt = len(nodes) * part / 100
	}
	h.logf("%s, %d of %d formulas", p.name, cutAt, len(nodes))
	for _, n := range nodes[:cutAt] {
		h.addNode(n)
	}
	return h, nodes[cutAt:]
}

func (h *SH) addNode(n *Node) {
	if h.sc.ProofGeneration {
		h.addProp(n)
		return
	}
	g := h.w.Build(n)
	h.logf("add %s", cut(g.Sprint(h.w.F), 200))
	h.s.Add(g)
	h.push(n, nil, g)
}

func runP13(c *Ctx) {
	r := c.R
	var sc *sat.Config
	if r.P(60) {
		sc = hotSatConfig(r)
	} else {
		sc = randSatConfig(r)
	}
	sc.ProofGeneration = true
	if r.P(12) { // cores of hard problems
		h, rest := bigSH(c, sc, 0, pick(r, 100, 100, 70, 85))
		if r.P(40) {
			h.save()
		}
		h.call(true)
		for i := 0; i < r.Range(1, 4); i++ {
			for j := 0; j < len(rest)/2+1 && len(rest) > 0; j++ {
				h.addNode(rest[0])
				rest = rest[1:]
			}
			if r.P(50) {
				h.call(true)
			}
			if r.P(30) {
				h.load()
			} else if r.P(30) {
				h.save()
			}
		}
		h.call(true)
		h.call(false)
		c.Obs("large problems", 1)
		return
	}
	nv, steps := r.Range(2, 7), r.Range(5, 20)
	if r.P(20) {
		nv, steps = r.Range(12, 25), r.Range(8, 30)
	}
	h := newSH(c, sc, nv)
	if r.P(50) {
		h.pb = false
	}
	for i := 0; i < steps; i++ {
		switch x := r.Intn(100); {
		case x < 34:
			if len(h.acts) < h.maxAct {
				if r.P(75) {
					h.addProp(h.genNode())
				} else {
					h.add()
				}
			} else {
				h.load()
			}
		case x < 40:
			if h.pb {
				h.addInc()
			}
		case x < 44:
			h.tighten()
		case x < 53:
			h.save()
		case x < 64:
			h.load()
		case x < 66:
			h.enumerate()
		case x < 69:
			h.backbone()
		case x < 71:
			h.optimise()
		default:
			h.call(true)
		}
	}
	h.call(true)
	h.call(false)
	c.Sample("%s", fmt.Sprint(h.hist))
}

func runP14(c *Ctx) {
	r := c.R
	sc := randSatConfig(r)
	if r.P(50) {
		sc = hotSatConfig(r)
	}
	if r.P(10) {
		h, rest := bigSH(c, sc, -10, pick(r, 40, 60, 80, 100))
		h.backbone()
		if len(rest) > 0 && r.P(50) {
			h.save()
			for _, n := range rest[:r.Intn(len(rest))+1] {
				h.addNode(n)
			}
			h.backbone()
			h.load()
		}
		h.backbone()
		h.call(false)
		c.Obs("large problems", 1)
		return
	}
	nv, steps := r.Range(1, 8), r.Range(4, 14)
	if r.P(15) {
		nv, steps = r.Range(12, 25), r.Range(6, 20)
	}
	h := newSH(c, sc, nv)
	if r.P(60) {
		h.maxAct = 4
	}
	for i := 0; i < r.Range(1, 3); i++ {
		h.add()
	}
	for i := 0; i < steps; i++ {
		switch x := r.Intn(100); {
		case x < 20:
			if len(h.acts) < h.maxAct {
				h.add()
			} else {
				h.load()
			}
		case x < 24:
			if h.pb {
				h.addInc()
			}
		case x < 27:
			h.tighten()
		case x < 35:
			h.save()
		case x < 45:
			h.load()
		case x < 55:
			h.call(false)
		case x < 58:
			h.optimise()
		default:
			h.backbone()
		}
	}
	h.backbone()
	h.call(false)
	h.readback()
	c.NT(h.what())
	c.Sample("%s", fmt.Sprint(h.hist))
}

func runP15(c *Ctx) {
	r := c.R
	sc := randSatConfig(r)
	if r.P(50) {
		sc = hotSatConfig(r)
	}
	if r.P(10) {
		h, _ := bigSH(c, sc, -15, pick(r, 20, 40, 60, 80, 100))
		for i := 0; i < r.Range(1, 3); i++ {
			h.optimise()
		}
		h.call(false)
		c.Obs("large problems", 1)
		return
	}
	nv, steps := r.Range(1, 8), r.Range(3, 12)
	if r.P(15) {
		nv, steps = r.Range(12, 25), r.Range(6, 16)
	}
	h := newSH(c, sc, nv)
	for i := 0; i < r.Range(1, 4); i++ {
		h.add()
	}
	for i := 0; i < steps; i++ {
		switch x := r.Intn(100); {
		case x < 15:
			if len(h.acts) < h.maxAct {
				h.add()
			} else {
				h.load()
			}
		case x < 19:
			if h.pb {
				h.addInc()
			}
		case x < 22:
			h.tighten()
		case x < 28:
			h.save()
		case x < 35:
			h.load()
		case x < 45:
			h.call(false)
		case x < 48:
			h.backbone()
		default:
			h.optimise()
		}
	}
	h.optimise()
	h.call(false)
	h.readback()
	c.Sample("%s", fmt.Sprint(h.hist))
}

func init() {
	register(&PropDef{ID: "P13", Quick: 35000, Thorough: 600000, Run: runP13, CPU: 300,
		Rule: "random histories on proof tracing solvers with core extraction at most calls, and larger unsatisfiable problems (3-SAT at the threshold, pigeons, parity, cardinality) with clause deletion forced; every core is checked against an independent CDCL solver",
		Need: []string{"extended propositions in cores", "unsatisfiable calls", "satisfiable calls", "cores judged", "cores of own propositions", "cores of several own propositions", "cores among plain formulas", "states loaded", "large problems"},
	})
	register(&PropDef{ID: "P14", Quick: 90000, Thorough: 600000, Run: runP14, CPU: 300,
		Rule: "backbones of all polarity kinds over random variable sets (also unknown ones) inside random solver histories; judged per variable by satisfiability of both literals in the reference",
		Need: []string{"backbones", "backbone literals", "optional variables", "backbones of unsatisfiable solvers", "cancelled backbones", "states loaded", "large problems"},
	})
	register(&PropDef{ID: "P15", Quick: 70000, Thorough: 500000, Run: runP15, CPU: 300,
		Rule: "minimisations and maximisations over random literal lists inside random solver histories; the value is compared with the optimum by truth table or refuted by the reference solver",
		Need: []string{"optimisations", "non-trivial optima", "cancelled optimisations", "states loaded", "large problems"},
	})
	probe("backbone-repeated-atmost", "P14", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(true).InitPhase(false))
		a, b := fac.Var("a"), fac.Var("b")
		s.Add(a.AsFormula(), fac.CC(f.LE, 1, b, b))
		bb := s.ComputeBackbone(fac, []f.Variable{a, b})
		c.Check(bb.Sat && len(bb.Negative) == 1, "backbone of a & b + b <= 1: %+v", bb)
	})
}
