package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
)

// gStyle is what a text says about a node's or an edge's looks.
type gStyle struct {
	shape               string // box, ellipse, circle
	stroke, text, fill  string
	line                string // "", solid, dotted, bold
	label               string // edges
	lineColor           string
	terminal, seenStyle bool
}

type gNode struct {
	id, label string
	st        gStyle
	in        int
	out       []*gEdge
}

type gEdge struct {
	src, dst *gNode
	st       gStyle
}

// gDoc is a parsed DOT or Mermaid text.
type gDoc struct {
	directed bool
	bg       string
	nodes    []*gNode
	byID     map[string]*gNode
	edges    []*gEdge
	ranked   map[string]bool // nodes inside a "rank = same" block
	hasRank  bool
}

var (
	dotNodeRe = regexp.MustCompile(`^\s*(\w+)\s*\[label="((?:[^"\\]|\\.)*)"(.*)\]\s*;?$`)
	dotEdgeRe = regexp.MustCompile(`^\s*(\w+)\s*(->|--)\s*(\w+)\s*(?:\[(.*)\])?\s*;?$`)
	dotAttrRe = regexp.MustCompile(`^\s*,?\s*(\w+)=(?:"((?:[^"\\]|\\.)*)"|(\w+))`)
	mmNodeRe  = regexp.MustCompile(`^\s*(\w+)(\(\[|\(\(|\[)"([^"]*)"(\]\)|\)\)|\])$`)
	mmEdgeRe  = regexp.MustCompile(`^\s*(\w+) (-->|---)(?:\|"([^"]*)"\|)? (\w+)$`)
	mmStyleRe = regexp.MustCompile(`^\s*style (\w+) (\S+)$`)
	mmLinkRe  = regexp.MustCompile(`^\s*linkStyle (\d+) (\S+)$`)
)

func (d *gDoc) node(id, label string, st gStyle) error {
	if d.byID[id] != nil {
		return fmt.Errorf("node %s twice", id)
	}
	n := &gNode{id: id, label: label, st: st}
	d.byID[id] = n
	d.nodes = append(d.nodes, n)
	return nil
}

func (d *gDoc) edge(src, dst string, st gStyle) error {
	a, b := d.byID[src], d.byID[dst]
	if a == nil || b == nil {
		return fmt.Errorf("edge between %s and %s: unknown node", src, dst)
	}
	e := &gEdge{a, b, st}
	a.out = append(a.out, e)
	b.in++
	d.edges = append(d.edges, e)
	return nil
}

func parseDot(text string) (*gDoc, error) {
	d := &gDoc{byID: map[string]*gNode{}, ranked: map[string]bool{}}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	switch strings.TrimSpace(lines[0]) {
	case "digraph G {":
		d.directed = true
	case "strict graph {", "graph {":
	default:
		return nil, fmt.Errorf("first line %q", lines[0])
	}
	if strings.TrimSpace(lines[len(lines)-1]) != "}" {
		return nil, fmt.Errorf("last line %q", lines[len(lines)-1])
	}
	attrs := func(s string) (map[string]string, error) {
		m := map[string]string{}
		for strings.TrimSpace(s) != "" {
			x := dotAttrRe.FindStringSubmatch(s)
			if x == nil {
				return nil, fmt.Errorf("attributes %q", s)
			}
			if _, dup := m[x[1]]; dup {
				return nil, fmt.Errorf("attribute %s twice", x[1])
			}
			m[x[1]] = strings.ReplaceAll(x[2], `\"`, `"`) + x[3]
			s = s[len(x[0]):]
		}
		return m, nil
	}
	inRank := false
	for _, l := range lines[1 : len(lines)-1] {
		t := strings.TrimSpace(l)
		switch {
		case t == "":
		case strings.HasPrefix(t, "bgcolor="):
			d.bg = strings.Trim(t[8:], `";`)
		case strings.HasPrefix(t, "{ rank = same"):
			if d.hasRank {
				return nil, errors.New("two rank blocks")
			}
			inRank, d.hasRank = true, true
		case t == "}" && inRank:
			inRank = false
		default:
			if x := dotNodeRe.FindStringSubmatch(l); x != nil {
				m, err := attrs(x[3])
				if err != nil {
					return nil, err
				}
				st := gStyle{shape: m["shape"], stroke: m["color"], text: m["fontcolor"], fill: m["fillcolor"], terminal: inRank}
				if (m["style"] == "filled") != (st.fill != "") {
					return nil, fmt.Errorf("fill style in %q", l)
				}
				if err := d.node(x[1], strings.ReplaceAll(x[2], `\"`, `"`), st); err != nil {
					return nil, err
				}
				d.ranked[x[1]] = inRank
			} else if x := dotEdgeRe.FindStringSubmatch(l); x != nil {
				if strings.HasPrefix(strings.TrimSpace(x[4]), ",") {
					return nil, fmt.Errorf("leading comma in %q", l)
				}
				m, err := attrs(x[4])
				if err != nil {
					return nil, err
				}
				if (x[2] == "->") != d.directed {
					return nil, fmt.Errorf("edge symbol in %q", l)
				}
				if m["color"] != m["fontcolor"] {
					return nil, fmt.Errorf("colors in %q", l)
				}
				if err := d.edge(x[1], x[3], gStyle{line: m["style"], lineColor: m["color"], label: m["label"]}); err != nil {
					return nil, err
				}
			} else {
				return nil, fmt.Errorf("line %q", l)
			}
		}
	}
	return d, nil
}

func parseMermaid(text string) (*gDoc, error) {
	d := &gDoc{byID: map[string]*gNode{}, ranked: map[string]bool{}}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if strings.TrimSpace(lines[0]) != "graph TD" {
		return nil, fmt.Errorf("first line %q", lines[0])
	}
	unq := func(s string) string { return strings.ReplaceAll(s, "#quot;", `"`) }
	arrows := map[string]int{}
	for _, l := range lines[1:] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if x := mmStyleRe.FindStringSubmatch(l); x != nil {
			n := d.byID[x[1]]
			if n == nil || n.st.seenStyle {
				return nil, fmt.Errorf("style line %q", l)
			}
			n.st.seenStyle = true
			for _, p := range strings.Split(x[2], ",") {
				k, v, _ := strings.Cut(p, ":")
				switch k {
				case "stroke":
					n.st.stroke = v
				case "color":
					n.st.text = v
				case "fill":
					n.st.fill = v
				default:
					return nil, fmt.Errorf("style line %q", l)
				}
			}
		} else if x := mmLinkRe.FindStringSubmatch(l); x != nil {
			i, _ := strconv.Atoi(x[1])
			if i >= len(d.edges) || d.edges[i].st.seenStyle {
				return nil, fmt.Errorf("link style line %q after %d edges", l, len(d.edges))
			}
			st := &d.edges[i].st
			st.seenStyle = true
			width, dash := "", ""
			for _, p := range strings.Split(x[2], ",") {
				k, v, _ := strings.Cut(p, ":")
				switch k {
				case "stroke":
					st.lineColor = v
				case "stroke-width":
					width = v
				case "stroke-dasharray":
					dash = v
				default:
					return nil, fmt.Errorf("link style line %q", l)
				}
			}
			st.line = map[string]string{"|": "", "2|": "solid", "4|": "bold", "2|3": "dotted"}[width+"|"+dash]
		} else if x := mmEdgeRe.FindStringSubmatch(l); x != nil {
			if err := d.edge(x[1], x[4], gStyle{label: unq(x[3])}); err != nil {
				return nil, err
			}
			arrows[x[2]]++
		} else if x := mmNodeRe.FindStringSubmatch(l); x != nil {
			shape := map[string]string{"(])": "", "([|])": "ellipse", "((|))": "circle", "[|]": "box"}[x[2]+"|"+x[4]]
			if shape == "" {
				return nil, fmt.Errorf("node line %q", l)
			}
			if err := d.node(x[1], unq(x[3]), gStyle{shape: shape}); err != nil {
				return nil, err
			}
		} else {
			return nil, fmt.Errorf("line %q", l)
		}
	}
	if len(arrows) > 1 {
		return nil, errors.New("directed and undirected edges")
	}
	d.directed = arrows["-->"] > 0
	return d, nil
}

// ---- styles ---------------------------------------------------------------

// looks is a style drawn by the harness with what the texts have to say.
type looks struct {
	node *graphical.NodeStyle
	edge *graphical.EdgeStyle
	st   gStyle // shape "" = default, line "" = default
}

func randColor(r *Rng) graphical.Color {
	if r.P(35) {
		return ""
	}
	if r.P(50) {
		return pick(r, graphical.ColorBlack, graphical.ColorBlue, graphical.ColorRed, graphical.ColorCyan)
	}
	return graphical.ColorFromHex(fmt.Sprintf("#%06x", r.Intn(1<<24)))
}

func nodeLooks(r *Rng) looks {
	a, b, d := randColor(r), randColor(r), randColor(r)
	l := looks{st: gStyle{stroke: string(a), text: string(b), fill: string(d)}}
	switch r.Intn(6) {
	case 0:
		l.node, l.st.shape = graphical.Circle(a, b, d), "circle"
	case 1:
		l.node, l.st.shape = graphical.Ellipse(a, b, d), "ellipse"
	case 2:
		l.node, l.st.shape = graphical.Rectangle(a, b, d), "box"
	case 3:
		l.node, l.st = graphical.NoNodeStyle(), gStyle{}
	case 4:
		l.node = graphical.NewNodeStyle(graphical.ShapeDefault, a, b, d)
	default:
		l.node, l.st.shape = graphical.NewNodeStyle(graphical.ShapeCircle, a, b, d), "circle"
	}
	return l
}

func edgeLooks(r *Rng) looks {
	a := randColor(r)
	l := looks{st: gStyle{lineColor: string(a)}}
	switch r.Intn(5) {
	case 0:
		l.edge, l.st.line = graphical.Solid(a), "solid"
	case 1:
		l.edge, l.st.line = graphical.Dotted(a), "dotted"
	case 2:
		l.edge, l.st.line = graphical.Bold(a), "bold"
	case 3:
		l.edge, l.st = graphical.NoEdgeStyle(), gStyle{}
	default:
		l.edge = graphical.NewEdgeStyle(graphical.EdgeDefault, a)
	}
	return l
}

// judge compares a parsed node with the looks wanted.
func (d *gDoc) judgeNode(c *Ctx, mermaid bool, n *gNode, l looks) {
	want := l.st
	if mermaid && want.shape == "" {
		want.shape = "ellipse"
	}
	got := n.st
	got.terminal, got.seenStyle = false, false
	c.Check(got == want, "node %s %q looks like %+v instead of %+v", n.id, n.label, got, want)
}

func (d *gDoc) judgeEdge(c *Ctx, e *gEdge, l looks, label string) {
	want := l.st
	want.label = label
	got := e.st
	got.seenStyle = false
	c.Check(got == want, "edge %s -> %s looks like %+v instead of %+v", e.src.id, e.dst.id, got, want)
}

// ---- writing --------------------------------------------------------------

// limited fails after n bytes, at all later writes or once.
type limited struct {
	buf    bytes.Buffer
	n      int
	once   bool
	failed bool
}

func (l *limited) Write(p []byte) (int, error) {
	if (!l.failed || !l.once) && l.buf.Len()+len(p) > l.n {
		l.failed = true
		k := l.n - l.buf.Len()
		l.buf.Write(p[:k])
		return k, errors.New("injected write error")
	}
	return l.buf.Write(p)
}

// p32text exports a representation in both formats by every way there is and
// returns the parsed texts.
func p32text(c *Ctx, rep *graphical.Representation) (docs [2]*gDoc) {
	r := c.R
	for i := range docs {
		var text string
		var err error
		name := []string{"DOT", "Mermaid"}[i]
		if i == 0 {
			text = graphical.WriteDotToString(rep)
			docs[i], err = parseDot(text)
		} else {
			text = graphical.WriteMermaidToString(rep)
			docs[i], err = parseMermaid(text)
		}
		c.Check(err == nil, "%s text is malformed: %v\n%s", name, err, cut(text, 600))
		c.Obs("texts", 1)
		c.Obs("nodes", len(docs[i].nodes))
		c.Obs("edges", len(docs[i].edges))
		if r.P(40) {
			l := &limited{n: r.Intn(len(text) + 1), once: r.P(30)}
			if i == 0 {
				err = graphical.WriteDotToWriter(l, rep)
			} else {
				err = graphical.WriteMermaidToWriter(l, rep)
			}
			if l.n < len(text) {
				c.Check(err != nil, "%s: write error after %d of %d bytes (once: %v) not reported", name, l.n, len(text), l.once)
				c.Obs("write errors", 1)
			} else {
				c.Check(err == nil, "%s: error %v without a write error", name, err)
				c.Check(l.buf.String() == text, "%s: writer got other text", name)
			}
		}
		if r.P(2) {
			dir, err := os.MkdirTemp("", "lngp32")
			c.Check(err == nil, "temporary directory: %v", err)
			path := filepath.Join(dir, "x")
			toFile := r.Bool()
			if toFile {
				fh, _ := os.Create(path)
				if i == 0 {
					err = graphical.WriteDotToFile(fh, rep)
				} else {
					err = graphical.WriteMermaidToFile(fh, rep)
				}
			} else if i == 0 {
				err = graphical.WriteDotToFileName(path, rep)
			} else {
				err = graphical.WriteMermaidToFileName(path, rep)
			}
			got, _ := os.ReadFile(path)
			var bad error
			if i == 0 {
				bad = graphical.WriteDotToFileName(filepath.Join(dir, "no", "x"), rep)
			} else {
				bad = graphical.WriteMermaidToFileName(filepath.Join(dir, "no", "x"), rep)
			}
			os.Remove(path)
			os.Remove(dir)
			c.Check(err == nil && string(got) == text, "%s: file: %v\n%s", name, err, cut(string(got), 300))
			c.Check(bad != nil, "%s: writing into a missing directory succeeds", name)
			c.Obs("files", 1)
		}
	}
	return
}

func p32world(r *Rng, nv int) *World {
	w := &World{N: nv, idx: map[string]int{}, memo: map[f.Formula]*Node{}, Cons: r.P(20)}
	w.F = f.NewFactory(w.Cons)
	odd := shuffled(r, []string{`a"b`, `"`, "x y", "id0", "id1", "label", "ü", "a]b", "a[b", "style", "$true", "A|B", "q(", `""z`, "¬a", "true"})
	for i := 0; i < nv; i++ {
		n := fmt.Sprintf("v%d", i)
		if r.P(25) {
			n = odd[i%len(odd)]
		}
		if _, dup := w.idx[n]; dup {
			n = fmt.Sprintf("v%d", i)
		}
		w.name = append(w.name, n)
		w.vars = append(w.vars, w.F.Var(n))
		w.idx[n] = i
	}
	return w
}

// ---- formulas -------------------------------------------------------------

type p32gen struct {
	g          *graphical.Generator[f.Formula]
	label      func(f.Formula) string // nil: default
	nodes      []looks                // by sort, or one
	edges      []looks
	nodeBySort bool
	edgeBySort bool
}

func p32generator(r *Rng) *p32gen {
	p := &p32gen{g: &graphical.Generator[f.Formula]{}}
	if r.P(30) {
		p.g = f.DefaultFormulaGraphicalGenerator()
		p.nodes, p.edges = []looks{{}}, []looks{{}}
	} else {
		switch r.Intn(3) {
		case 0:
			p.nodes = []looks{{}}
		case 1:
			p.nodes = []looks{nodeLooks(r)}
			p.g.DefaultNodeStyle = p.nodes[0].node
		default:
			for i := 0; i < 16; i++ {
				p.nodes = append(p.nodes, nodeLooks(r))
			}
			p.nodeBySort = true
			p.g.ComputeNodeStyle = func(x f.Formula) *graphical.NodeStyle { return p.nodes[int(x.Sort())%16].node }
			if r.Bool() {
				p.g.DefaultNodeStyle = nodeLooks(r).node
			}
		}
		switch r.Intn(3) {
		case 0:
			p.edges = []looks{{}}
		case 1:
			p.edges = []looks{edgeLooks(r)}
			p.g.DefaultEdgeStyle = p.edges[0].edge
		default:
			for i := 0; i < 16; i++ {
				p.edges = append(p.edges, edgeLooks(r))
			}
			p.edgeBySort = true
			p.g.ComputeEdgeStyle = func(a, b f.Formula) *graphical.EdgeStyle { return p.edges[p32edgeKey(a, b)].edge }
			if r.Bool() {
				p.g.DefaultEdgeStyle = edgeLooks(r).edge
			}
		}
	}
	if r.P(35) {
		p.label = func(x f.Formula) string { return fmt.Sprintf("F%d", uint32(x)) }
		p.g.ComputeLabel = p.label
	}
	p.g.AlignTerminals = r.P(40)
	p.g.BackgroundColor = randColor(r)
	return p
}

func p32edgeKey(a, b f.Formula) int { return (int(a.Sort())*5 + int(b.Sort())) % 16 }

func (p *p32gen) nodeLooks(x f.Formula) looks {
	if p.nodeBySort {
		return p.nodes[int(x.Sort())%16]
	}
	return p.nodes[0]
}

func (p *p32gen) edgeLooks(a, b f.Formula) looks {
	if p.edgeBySort {
		return p.edges[p32edgeKey(a, b)]
	}
	return p.edges[0]
}

func p32label(fac f.Factory, x f.Formula) string {
	switch x.Sort() {
	case f.SortLiteral:
		name, pos, _ := fac.LitNamePhase(f.Literal(x))
		if pos {
			return name
		}
		return "¬" + name
	case f.SortNot:
		return "¬"
	case f.SortAnd:
		return "∧"
	case f.SortOr:
		return "∨"
	case f.SortImpl:
		return "⇒"
	case f.SortEquiv:
		return "⇔"
	}
	return x.Sprint(fac)
}

func p32children(fac f.Factory, x f.Formula) (out []f.Formula) {
	switch x.Sort() {
	case f.SortCC, f.SortPBC:
		_, _, lits, _, _ := fac.PBCOps(x)
		for _, l := range lits {
			out = append(out, l.AsFormula())
		}
	case f.SortLiteral, f.SortFalse, f.SortTrue:
	default:
		out = fac.Operands(x)
	}
	return
}

func p32formula(c *Ctx) {
	r := c.R
	nv := r.Range(1, 7)
	w := p32world(r, nv)
	fac := w.F
	g := stdCfg(r, nv)
	g.Depth = r.Range(0, 5)
	if r.P(40) {
		g.CC, g.PB, g.MaxCC = 3, 2, 4
	}
	x := w.Build(Gen(r, g))
	if r.P(40) { // shared parts
		y := w.Build(Gen(r, g))
		x = pick(r, fac.Equivalence(fac.And(x, y), fac.Or(y, x)), fac.And(fac.Not(x), fac.Implication(x, y)), fac.Or(fac.Implication(y, x), fac.Not(y)))
	}
	p := p32generator(r)
	dag := r.Bool()
	c.Logf("formula %s, shared %v", x.Sprint(fac), dag)
	var rep *graphical.Representation
	if dag {
		rep = f.GenerateGraphicalFormulaDAG(fac, x, p.g)
	} else {
		rep = f.GenerateGraphicalFormulaAST(fac, x, p.g)
	}
	for i, d := range p32text(c, rep) {
		c.Check(d.directed || len(d.edges) == 0, "edges are undirected")
		if i == 0 {
			c.Check(d.directed, "graph is undirected")
			c.Check(d.bg == string(p.g.BackgroundColor), "background %q instead of %q", d.bg, p.g.BackgroundColor)
			c.Check(d.hasRank == p.g.AlignTerminals, "aligned terminals: %v instead of %v", d.hasRank, p.g.AlignTerminals)
		}
		var root *gNode
		for _, n := range d.nodes {
			if n.in == 0 {
				c.Check(root == nil, "nodes %s and %s have no predecessor", n.id, cut(fmt.Sprint(root), 60))
				root = n
			}
		}
		c.Check(root != nil, "no root among %d nodes", len(d.nodes))
		ofNode, ofFormula := map[*gNode]f.Formula{}, map[f.Formula]*gNode{}
		edges := 0
		var match func(n *gNode, y f.Formula)
		match = func(n *gNode, y f.Formula) {
			if prev, ok := ofNode[n]; ok {
				c.Check(dag && prev == y, "node %s stands for %s and %s", n.id, cut(prev.Sprint(fac), 80), cut(y.Sprint(fac), 80))
				return
			}
			if dag {
				c.Check(ofFormula[y] == nil, "%s has two nodes", cut(y.Sprint(fac), 80))
			}
			ofNode[n], ofFormula[y] = y, n
			want := p32label(fac, y)
			if p.label != nil {
				want = p.label(y)
			}
			c.Check(n.label == want, "label %q instead of %q for %s", n.label, want, cut(y.Sprint(fac), 80))
			d.judgeNode(c, i == 1, n, p.nodeLooks(y))
			atom := y.Sort() == f.SortLiteral || y.Sort() == f.SortTrue || y.Sort() == f.SortFalse
			if d.hasRank {
				c.Check(n.st.terminal == atom, "%s aligned with the terminals: %v", cut(y.Sprint(fac), 80), n.st.terminal)
			}
			kids := p32children(fac, y)
			c.Check(len(kids) == len(n.out), "%d edges from the node of %s", len(n.out), cut(y.Sprint(fac), 80))
			edges += len(kids)
			for j, k := range kids {
				label := ""
				if y.Sort() == f.SortImpl {
					label = []string{"l", "r"}[j]
				}
				d.judgeEdge(c, n.out[j], p.edgeLooks(y, k), label)
				match(n.out[j].dst, k)
			}
		}
		match(root, x)
		c.Check(len(ofNode) == len(d.nodes), "%d of %d nodes belong to the formula", len(ofNode), len(d.nodes))
		c.Check(edges == len(d.edges), "%d of %d edges belong to the formula", edges, len(d.edges))
		if !dag && i == 0 {
			c.Obs("syntax trees", 1)
		}
		if dag && i == 0 {
			c.Obs("shared formulas", 1)
			if len(d.edges) >= len(d.nodes) {
				c.Obs("formulas with shared parts", 1)
			}
		}
	}
	c.NT(x.Sprint(fac))
}

// ---- BDDs -----------------------------------------------------------------

func p32bdd(c *Ctx) {
	r := c.R
	nv := r.Range(1, 7)
	w := p32world(r, nv)
	fac := w.F
	k := bdd.NewKernelWithOrdering(fac, w.VarsOf(r.Perm(nv)), int32(pick(r, 10, 100, 500)), int32(pick(r, 10, 100)))
	var b *bdd.BDD
	var t TT
	for i := r.Range(1, 3); i > 0; i-- {
		g := stdCfg(r, nv)
		g.CC, g.PB = 0, 0
		n := Gen(r, g)
		y := bdd.CompileWithKernel(fac, w.Build(n), k)
		if b == nil || r.P(20) {
			b, t = y, n.TT(nv)
		} else if r.Bool() {
			b, t = b.And(y), t.And(n.TT(nv))
		} else {
			b, t = b.Or(y), t.Or(n.TT(nv))
		}
	}
	if r.P(40) && nv > 1 {
		for i := r.Range(1, 4); i > 0; i-- {
			p := r.Perm(nv)
			k.SwapVariables(w.Var(p[0]), w.Var(p[1]))
		}
		c.Obs("reordered diagrams", 1)
	}
	c.Logf("diagram of %s", cut(b.ToFormula(fac).Sprint(fac), 400))
	gen := bdd.DefaultGenerator()
	pos, neg := looks{st: gStyle{line: "solid", lineColor: string(graphical.ColorGreen)}}, looks{st: gStyle{line: "dotted", lineColor: string(graphical.ColorRed)}}
	custom, distinct := r.P(50), true
	labels := false
	var nodeLook func(idx int) looks
	if custom {
		gen = &bdd.GraphicalGenerator{Generator: &graphical.Generator[int32]{}}
		pos, neg = looks{}, looks{}
		if r.P(80) {
			pos = edgeLooks(r)
			if r.Bool() {
				gen.DefaultEdgeStyle = pos.edge
			} else {
				gen.ComputeEdgeStyle = func(int32, int32) *graphical.EdgeStyle { return pos.edge }
			}
		}
		if r.P(80) {
			neg = edgeLooks(r)
			if r.Bool() {
				gen.DefaultNegativeEdgeStyle = neg.edge
			} else {
				gen.ComputeNegativeEdgeStyle = func(int32, int32) *graphical.EdgeStyle { return neg.edge }
			}
		}
		distinct = pos.st != neg.st
		pal := []looks{nodeLooks(r), nodeLooks(r), nodeLooks(r)}
		nodeLook = func(idx int) looks { return pal[idx%3] }
		gen.ComputeNodeStyle = func(i int32) *graphical.NodeStyle { return pal[i%3].node }
		if r.P(40) {
			labels = true
			gen.ComputeLabel = func(i int32) string { return fmt.Sprintf("N%d", i) }
		}
	}
	gen.AlignTerminals = r.P(40)
	gen.BackgroundColor = randColor(r)
	rep := bdd.GenerateGraphical(b, gen)
	for i, d := range p32text(c, rep) {
		if i == 0 {
			c.Check(d.directed && d.bg == string(gen.BackgroundColor) && d.hasRank == gen.AlignTerminals, "directed %v background %q rank %v", d.directed, d.bg, d.hasRank)
		}
		var root *gNode
		inner := map[string]bool{}
		terms := map[string]*gNode{}
		for _, n := range d.nodes {
			if n.in == 0 {
				c.Check(root == nil, "two nodes without predecessor")
				root = n
			}
			if len(n.out) == 0 {
				c.Check(terms[n.label] == nil, "terminal %s twice", n.label)
				terms[n.label] = n
			} else {
				c.Check(len(n.out) == 2, "%d edges from node %s", len(n.out), n.id)
				inner[n.id] = true
			}
			if d.hasRank {
				c.Check(n.st.terminal == (len(n.out) == 0), "node %s aligned with the terminals: %v", n.label, n.st.terminal)
			}
			if labels {
				c.Check(n.label == "N"+strings.TrimPrefix(n.id, "id") || len(n.out) == 0, "node %s is labelled %s", n.id, n.label)
			}
			if custom && labels {
				idx, err := strconv.Atoi(n.label[1:])
				c.Check(err == nil, "label %s", n.label)
				d.judgeNode(c, i == 1, n, nodeLook(idx))
			}
		}
		c.Check(root != nil, "no root")
		c.Check(len(inner) == b.NodeCount(), "%d inner nodes, the diagram has %d", len(inner), b.NodeCount())
		one, zero := "true", "false"
		if labels {
			one, zero = "N1", "N0"
		}
		wantTerms := 2
		if b.IsTautology() || b.IsContradiction() {
			wantTerms = 1
		}
		c.Check(len(terms) == wantTerms && (terms[one] != nil || b.IsContradiction()) && (terms[zero] != nil || b.IsTautology()), "terminals %v", len(terms))
		c.Check(len(d.edges) == 2*len(inner), "%d edges from %d nodes", len(d.edges), len(inner))
		for _, n := range d.nodes {
			if len(n.out) != 2 {
				continue
			}
			a, b := n.out[0].st, n.out[1].st
			a.seenStyle, b.seenStyle = false, false
			c.Check(a == neg.st && b == pos.st || a == pos.st && b == neg.st, "edges of %s look like %+v and %+v", n.id, a, b)
		}
		if distinct && !labels {
			memo := map[*gNode]TT{}
			var tt func(n *gNode) TT
			tt = func(n *gNode) TT {
				if v, ok := memo[n]; ok {
					return v
				}
				if len(n.out) == 0 {
					return TTConst(nv, n.label == "true")
				}
				lo, hi := n.out[0].dst, n.out[1].dst
				s := n.out[0].st
				s.seenStyle = false
				if s == pos.st {
					lo, hi = hi, lo
				}
				v, ok := w.idx[n.label]
				c.Check(ok, "node label %q", n.label)
				tv := TTVar(nv, v)
				res := tv.And(tt(hi)).Or(tv.Not().And(tt(lo)))
				memo[n] = res
				return res
			}
			c.Check(tt(root).Eq(t), "the drawn diagram is not equivalent to its formula")
			c.Check(len(memo) == len(inner), "%d of %d nodes belong to the diagram", len(memo), len(inner))
			c.Obs("diagram functions", 1)
		}
	}
	c.Obs("diagrams", 1)
	c.NT(b.ToFormula(fac).Sprint(fac))
}

// ---- graphs ---------------------------------------------------------------

func p32graph(c *Ctx) {
	r := c.R
	nv := r.Range(1, 10)
	w := p32world(r, nv)
	fac := w.F
	var fs []f.Formula
	adj := map[[2]string]bool{}
	nodes := map[string]bool{}
	for _, n := range p29formulas(r, nv) {
		x := w.Build(n)
		fs = append(fs, x)
		vs := w.From(x).Vars()
		for _, a := range vs {
			nodes[w.name[a]] = true
			for _, b := range vs {
				if a != b {
					adj[[2]string{w.name[a], w.name[b]}] = true
				}
			}
		}
		c.Logf("formula %s", x.Sprint(fac))
	}
	p := p32generator(r)
	if p.label != nil {
		p.g.ComputeLabel = func(x f.Formula) string { return "L" + x.Sprint(fac) }
	}
	rep := graph.GenerateGraphicalFormulaGraph(fac, graph.GenerateConstraintGraph(fac, fs...), p.g)
	lit := w.Lit(PLit{0, true}).AsFormula()
	for i, d := range p32text(c, rep) {
		c.Check(!d.directed && !d.hasRank, "directed %v, aligned %v", d.directed, d.hasRank)
		if i == 0 {
			c.Check(d.bg == string(p.g.BackgroundColor), "background %q", d.bg)
		}
		seen := map[string]bool{}
		name := func(n *gNode) string {
			if p.label != nil {
				c.Check(strings.HasPrefix(n.label, "L"), "label %q", n.label)
				return n.label[1:]
			}
			return n.label
		}
		for _, n := range d.nodes {
			c.Check(nodes[name(n)] && !seen[name(n)], "node %q", n.label)
			seen[name(n)] = true
			d.judgeNode(c, i == 1, n, p.nodeLooks(lit))
		}
		c.Check(len(seen) == len(nodes), "%d nodes instead of %d", len(seen), len(nodes))
		es := map[[2]string]bool{}
		for _, e := range d.edges {
			a, b := name(e.src), name(e.dst)
			c.Check(adj[[2]string{a, b}], "edge between %q and %q", a, b)
			c.Check(!es[[2]string{a, b}], "edge between %q and %q twice", a, b)
			es[[2]string{a, b}], es[[2]string{b, a}] = true, true
			d.judgeEdge(c, e, p.edgeLooks(lit, lit), "")
		}
		c.Check(len(es) == len(adj), "%d edges instead of %d", len(d.edges), len(adj)/2)
	}
	c.Obs("graphs", 1)
	c.NT(fmt.Sprint(len(adj), len(nodes)))
}

// ---- own representations --------------------------------------------------

func p32own(c *Ctx) {
	r := c.R
	align, directed, bg := r.Bool(), r.Bool(), randColor(r)
	rep := graphical.NewGraphicalRepresentation(align, directed, bg)
	type wn struct {
		id, label string
		l         looks
		term      bool
	}
	type we struct {
		s, d  int
		l     looks
		label string
	}
	var ns []wn
	var es []we
	var gs []*graphical.Node
	text := func() string {
		return pick(r, "", "a", "l", `say "x"`, "a b", "x1 & ~y", "⇒", "1 <= 2", "label", fmt.Sprint("n", r.Intn(50)))
	}
	for i := r.Range(0, 9); i > 0; i-- {
		x := wn{id: fmt.Sprintf("n%d", len(ns)), label: text(), l: nodeLooks(r)}
		var g *graphical.Node
		if r.P(30) {
			g = graphical.NewNode(x.id, x.label, x.l.node)
		} else {
			x.term = r.Bool()
			g = graphical.NewNode(x.id, x.label, x.l.node, x.term)
		}
		ns, gs = append(ns, x), append(gs, g)
		if r.P(70) {
			rep.AddNode(g)
			if r.P(60) && len(rep.Nodes()) == len(gs) {
				a, b := r.Intn(len(ns)), r.Intn(len(ns))
				e := we{a, b, edgeLooks(r), ""}
				var ge *graphical.Edge
				if r.Bool() {
					e.label = text()
					ge = graphical.NewEdge(gs[a], gs[b], e.l.edge, e.label)
				} else {
					ge = graphical.NewEdge(gs[a], gs[b], e.l.edge)
				}
				es = append(es, e)
				rep.AddEdge(ge)
			}
		} else {
			more := []*graphical.Node{g}
			y := wn{id: fmt.Sprintf("n%d", len(ns)), label: text(), l: nodeLooks(r)}
			g2 := graphical.NewNode(y.id, y.label, y.l.node)
			ns, gs = append(ns, y), append(gs, g2)
			rep.AddNode(append(more, g2)...)
		}
	}
	terms := 0
	for _, x := range ns {
		if x.term {
			terms++
		}
	}
	c.Check(len(rep.Nodes()) == len(ns), "%d nodes instead of %d", len(rep.Nodes()), len(ns))
	c.Check(len(rep.TerminalNodes()) == terms && len(rep.NonTerminalNodes()) == len(ns)-terms, "%d terminal and %d other nodes", len(rep.TerminalNodes()), len(rep.NonTerminalNodes()))
	for i, d := range p32text(c, rep) {
		if i == 0 {
			c.Check(d.directed == directed && d.bg == string(bg) && d.hasRank == align, "directed %v background %q aligned %v", d.directed, d.bg, d.hasRank)
		} else {
			c.Check(d.directed == directed || len(es) == 0, "directed %v", d.directed)
		}
		c.Check(len(d.nodes) == len(ns), "%d nodes instead of %d", len(d.nodes), len(ns))
		for _, x := range ns {
			n := d.byID[x.id]
			c.Check(n != nil, "no node %s", x.id)
			c.Check(n.label == x.label, "node %s: label %q instead of %q", x.id, n.label, x.label)
			d.judgeNode(c, i == 1, n, x.l)
			if d.hasRank {
				c.Check(n.st.terminal == x.term, "node %s aligned: %v", x.id, n.st.terminal)
			}
		}
		c.Check(len(d.edges) == len(es), "%d edges instead of %d", len(d.edges), len(es))
		for j, e := range es {
			g := d.edges[j]
			c.Check(g.src.id == ns[e.s].id && g.dst.id == ns[e.d].id, "edge %d: %s -> %s", j, g.src.id, g.dst.id)
			d.judgeEdge(c, g, e.l, e.label)
		}
	}
	c.Obs("own representations", 1)
	x, y, z := r.Range(-3, 260), r.Range(-3, 260), r.Range(-3, 260)
	col, err := graphical.ColorFromRgb(x, y, z)
	valid := min(x, y, z) >= 0 && max(x, y, z) <= 255
	c.Check((err == nil) == valid, "color %d, %d, %d: %v", x, y, z, err)
	if valid {
		c.Check(strings.EqualFold(string(col), fmt.Sprintf("#%02x%02x%02x", x, y, z)), "color %d, %d, %d: %s", x, y, z, col)
	}
}

func runP32(c *Ctx) {
	switch c.R.Intn(8) {
	case 0, 1, 2:
		p32formula(c)
	case 3, 4:
		p32bdd(c)
	case 5:
		p32graph(c)
	default:
		p32own(c)
	}
}

func init() {
	register(&PropDef{ID: "P32", Quick: 40000, Thorough: 800000,
		Rule: "the DOT and Mermaid texts are parsed back and matched with the structure exported: formula walked alongside, function of the drawn diagram against its truth table, adjacency sets, styles and labels; write faults injected at random bytes",
		Need: []string{"syntax trees", "formulas with shared parts", "diagram functions", "reordered diagrams", "graphs", "own representations", "write errors", "files"},
		Assume: []string{
			"labels without backslashes and newlines; at most one root per formula or diagram",
		},
		Run: runP32})
	probe("graphical-dag-labels", "P32", func(c *Ctx) {
		fac := f.NewFactory()
		g := f.DefaultFormulaGraphicalGenerator()
		g.ComputeLabel = func(x f.Formula) string { return "L" + x.Sprint(fac) }
		rep := f.GenerateGraphicalFormulaDAG(fac, fac.And(fac.Variable("a"), fac.Variable("b")), g)
		d, err := parseDot(graphical.WriteDotToString(rep))
		c.Check(err == nil, "%v", err)
		for _, n := range d.nodes {
			c.Check(strings.HasPrefix(n.label, "L"), "label %q is not the computed one", n.label)
		}
	})
	probe("graphical-write-errors", "P32", func(c *Ctx) {
		fac := f.NewFactory()
		rep := f.GenerateGraphicalFormulaAST(fac, fac.And(fac.Variable("a"), fac.Variable("b")), f.DefaultFormulaGraphicalGenerator())
		n := len(graphical.WriteMermaidToString(rep))
		for i := 0; i < n; i++ {
			c.Check(graphical.WriteMermaidToWriter(&limited{n: i}, rep) != nil, "write error after %d of %d bytes is not reported", i, n)
		}
	})
	probe("graphical-quotes", "P32", func(c *Ctx) {
		fac := f.NewFactory()
		rep := f.GenerateGraphicalFormulaAST(fac, fac.Variable(`a"b`), f.DefaultFormulaGraphicalGenerator())
		_, err := parseDot(graphical.WriteDotToString(rep))
		c.Check(err == nil, "DOT: %v", err)
		_, err = parseMermaid(graphical.WriteMermaidToString(rep))
		c.Check(err == nil, "Mermaid: %v", err)
	})
}
