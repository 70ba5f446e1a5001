package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
)

// layout writes number lists (each ended by 0) in a random legal layout.
func layout(r *Rng, header string, lists [][]int, comments bool) string {
	nl := "\n"
	if r.P(15) {
		nl = "\r\n"
	}
	var b strings.Builder
	junk := func() {
		for comments && r.P(15) {
			b.WriteString(pick(r, "c", "c a comment 1 2 0", "c p cnf 3 4", "comment", "c\t") + nl)
		}
		for r.P(10) {
			b.WriteString(pick(r, "", " ", "\t") + nl)
		}
	}
	sep := func() string { return pick(r, " ", " ", " ", " ", "  ", "\t", " \t ") }
	multi := r.P(30) // clauses and lines do not correspond
	junk()
	b.WriteString(header + nl)
	junk()
	for i, l := range lists {
		lead := ""
		if r.P(15) {
			lead = sep()
		}
		b.WriteString(lead)
		for _, x := range l {
			if r.P(3) && x > 0 {
				b.WriteString("+")
			}
			b.WriteString(strconv.Itoa(x))
			if multi && r.P(20) {
				b.WriteString(nl)
				junk()
			} else {
				b.WriteString(sep())
			}
		}
		b.WriteString("0")
		if r.P(10) {
			b.WriteString(sep())
		}
		if multi && r.P(40) {
			b.WriteString(sep())
			continue
		}
		if i == len(lists)-1 && r.P(20) {
			continue // no newline at the end
		}
		b.WriteString(nl)
		junk()
	}
	return b.String()
}

func spoil(r *Rng, s string) string {
	bs := []byte(s)
	for k := r.Range(1, 4); k > 0 && len(bs) > 0; k-- {
		i := r.Intn(len(bs))
		switch r.Intn(4) {
		case 0:
			bs[i] = pick(r, byte(' '), 'x', '-', '0', '\n', '(', '&', 0, 200, '$', '~', '1')
		case 1:
			bs = append(bs[:i], bs[i+1:]...)
		case 2:
			bs = append(bs[:i], append([]byte(pick(r, "-", " - ", "a", "99999999999999999999", "\n\n", "p", "~", "| ", ")")), bs[i:]...)...)
		default:
			bs = bs[:i]
		}
	}
	return string(bs)
}

func runP28(c *Ctx) {
	if c.Idx%101 == 11 {
		wide28(c)
		return
	}
	r := c.R
	dir, err := os.MkdirTemp("", "lngio")
	c.Check(err == nil, "scratch directory: %v", err)
	defer os.RemoveAll(dir)
	switch r.Intn(8) {
	case 0, 1:
		p28dimacsWrite(c, dir)
	case 2, 3:
		p28dimacsRead(c, dir)
	case 4, 5:
		p28formulas(c, dir)
	case 6:
		p28maxsat(c, dir)
	default:
		p28broken(c, dir)
	}
}

// dimacsText parses strict DIMACS text as the writer must produce it.
func dimacsText(c *Ctx, text string) (vars int, clauses [][]int) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	h := strings.Fields(lines[0])
	c.Check(len(h) == 4 && h[0] == "p" && h[1] == "cnf", "header %q", lines[0])
	vars, e1 := strconv.Atoi(h[2])
	num, e2 := strconv.Atoi(h[3])
	c.Check(e1 == nil && e2 == nil, "header %q", lines[0])
	c.Check(num == len(lines)-1, "header announces %d clauses, there are %d", num, len(lines)-1)
	for _, l := range lines[1:] {
		fs := strings.Fields(l)
		c.Check(len(fs) > 0 && fs[len(fs)-1] == "0", "line %q is not ended by 0", l)
		var cl []int
		for _, x := range fs[:len(fs)-1] {
			n, err := strconv.Atoi(x)
			c.Check(err == nil && n != 0 && n >= -vars && n <= vars, "literal %q in line %q", x, l)
			cl = append(cl, n)
		}
		clauses = append(clauses, cl)
	}
	return
}

func intsKey(l []int) string {
	l = append([]int{}, l...)
	sort.Ints(l)
	return fmt.Sprint(l)
}

func p28dimacsWrite(c *Ctx, dir string) {
	r := c.R
	nv := r.Range(1, 8)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	var g f.Formula
	switch r.Intn(6) {
	case 0:
		g = w.Build(Gen(r, stdCfg(r, nv)))
		if r.Bool() {
			g = normalform.CNF(fac, g)
		}
	case 1:
		g = w.Build(pick(r, nLit(r.Intn(nv), r.Bool()), &Node{K: KTrue}, &Node{K: KFalse}))
	default:
		g = w.Build(clausesNode(GenClauses(r, nv, r.Range(1, 10), 1, min(5, nv))))
	}
	in := w.From(g)
	c.NT(g.Sprint(fac))
	c.Logf("write %s", cut(g.Sprint(fac), 300))
	var buf bytes.Buffer
	name := filepath.Join(dir, "x")
	var ids map[f.Variable]int
	var err error
	var text string
	mode := r.Intn(3)
	switch mode {
	case 0:
		ids, err = lio.WriteDimacsToWriter(fac, &buf, g)
		text = buf.String()
		os.WriteFile(name+".cnf", buf.Bytes(), 0o600)
	case 1:
		ids, err = lio.WriteDimacs(fac, name+pick(r, "", ".cnf"), g)
	default:
		file, e := os.Create(name + ".cnf")
		c.Check(e == nil, "%v", e)
		ids, err = lio.WriteDimacsToFile(fac, file, g)
		file.Close()
	}
	isCNF := in.K == KTrue || in.K == KFalse || isCNFN(in)
	c.Check((err == nil) == isCNF, "writing %s: error %v", cut(g.Sprint(fac), 300), err)
	if err != nil {
		c.Obs("formulas refused by the writer", 1)
		return
	}
	bs, err := os.ReadFile(name + ".cnf")
	c.Check(err == nil, "file was not written: %v", err)
	text = string(bs)
	vars, cls := dimacsText(c, text)
	occ := f.Variables(fac, g).Content()
	c.Check(vars == len(occ) && len(ids) == len(occ), "%d variables announced, %d mapped, %d present", vars, len(ids), len(occ))
	seen := map[int]bool{}
	for _, v := range occ {
		id, ok := ids[v]
		c.Check(ok && id >= 1 && id <= len(occ) && !seen[id], "variable number %d of %s", id, cut(g.Sprint(fac), 300))
		seen[id] = true
	}
	// expected clauses
	var want []string
	var orig [][]PLit
	if in.K == KFalse {
		orig = [][]PLit{{}}
	} else if in.K != KTrue {
		orig = termsOfN(in, KAnd)
	}
	idOf := map[int]int{}
	for _, v := range occ {
		n, _ := fac.VarName(v)
		idOf[w.Idx(n)] = ids[v]
	}
	for _, cl := range orig {
		var l []int
		for _, q := range cl {
			if q.Pos {
				l = append(l, idOf[q.V])
			} else {
				l = append(l, -idOf[q.V])
			}
		}
		want = append(want, intsKey(l))
	}
	var got []string
	for _, cl := range cls {
		got = append(got, intsKey(cl))
	}
	sort.Strings(want)
	sort.Strings(got)
	c.Check(fmt.Sprint(want) == fmt.Sprint(got), "written %s as %q", cut(g.Sprint(fac), 300), text)
	// and back
	fac2 := f.NewFactory(w.Cons)
	back, err := lio.ReadDimacs(fac2, name+".cnf", "y")
	c.Check(err == nil, "reading back: %v", err)
	c.Check(len(*back) == len(cls), "read %d clauses, written %d", len(*back), len(cls))
	for i, cl := range cls {
		c.Check((*back)[i] == orOf(fac2, "y", cl), "clause %v read back as %s", cl, (*back)[i].Sprint(fac2))
	}
	c.Obs("DIMACS files written and read", 1)
	c.Obs("clauses written and read", len(cls))
}

func orOf(fac f.Factory, prefix string, cl []int) f.Formula {
	var ls []f.Formula
	for _, x := range cl {
		if x > 0 {
			ls = append(ls, fac.Literal(prefix+strconv.Itoa(x), true))
		} else {
			ls = append(ls, fac.Literal(prefix+strconv.Itoa(-x), false))
		}
	}
	return fac.Or(ls...)
}

func randLists(r *Rng, nv, n, lo, hi int) [][]int {
	var out [][]int
	for ; n > 0; n-- {
		var cl []int
		for k := r.Range(lo, hi); k > 0; k-- {
			x := r.Range(1, nv)
			if r.Bool() {
				x = -x
			}
			cl = append(cl, x)
		}
		out = append(out, cl)
	}
	return out
}

func p28dimacsRead(c *Ctx, dir string) {
	r := c.R
	nv := r.Range(1, 60)
	lists := randLists(r, nv, r.Range(0, 12), 0, 6)
	if r.P(1) { // a very long line
		lists = append(lists, randLists(r, 30000, 1, 12000, 20000)...)
	}
	text := layout(r, fmt.Sprintf("p cnf %d %d", nv, len(lists)), lists, true)
	name := filepath.Join(dir, "in.cnf")
	c.Check(os.WriteFile(name, []byte(text), 0o600) == nil, "scratch file")
	c.Logf("read %q", cut(text, 600))
	c.NT(text)
	fac := f.NewFactory(r.P(30))
	prefix := "v"
	var got *[]f.Formula
	var err error
	if r.Bool() {
		if r.Bool() {
			prefix = pick(r, "", "x", "var_")
			got, err = lio.ReadDimacs(fac, name, prefix)
		} else {
			got, err = lio.ReadDimacs(fac, name)
		}
	} else {
		file, e := os.Open(name)
		c.Check(e == nil, "%v", e)
		defer file.Close()
		got, err = lio.ReadDimacsFile(fac, file, prefix)
	}
	c.Check(err == nil, "reading %q: %v", cut(text, 600), err)
	c.Check(len(*got) == len(lists), "reading %q: %d clauses instead of %d", cut(text, 600), len(*got), len(lists))
	for i, cl := range lists {
		c.Check((*got)[i] == orOf(fac, prefix, cl), "reading %q: clause %v is %s", cut(text, 600), cl, (*got)[i].Sprint(fac))
	}
	c.Obs("DIMACS texts read", 1)
	c.Obs("clauses read", len(lists))
}

func p28formulas(c *Ctx, dir string) {
	r := c.R
	nv := r.Range(1, 6)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	g := stdCfg(r, nv)
	if r.P(30) {
		g.CC, g.PB, g.MaxCC = 2, 2, nv
	}
	n := Gen(r, g)
	if r.Bool() {
		var ops []*Node
		for i := r.Range(2, 5); i > 0; i-- {
			ops = append(ops, Gen(r, g))
		}
		n = nAnd(ops...)
	}
	x := w.Build(n)
	in := w.From(x)
	name := filepath.Join(dir, "formula.txt")
	split := r.Bool()
	c.Logf("write %s split=%v", cut(x.Sprint(fac), 300), split)
	c.NT(x.Sprint(fac))
	what := cut(x.Sprint(fac), 300)
	var err error
	switch r.Intn(3) {
	case 0:
		err = lio.WriteFormula(fac, name, x, split)
	case 1:
		file, e := os.Create(name)
		c.Check(e == nil, "%v", e)
		err = lio.WriteFormulaToFile(fac, file, x, split)
		file.Close()
	default:
		var buf bytes.Buffer
		if split {
			err = lio.WriteFormulaToWriter(fac, &buf, x, true)
		} else {
			err = lio.WriteFormulaToWriter(fac, &buf, x)
		}
		os.WriteFile(name, buf.Bytes(), 0o600)
	}
	c.Check(err == nil, "writing %s: %v", what, err)
	bs, _ := os.ReadFile(name)
	lines := strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n")
	parts := []f.Formula{x}
	if split && in.K == KAnd {
		parts = fac.Operands(x)
	}
	c.Check(len(lines) == len(parts), "%s written in %d lines", what, len(lines))
	for i, p := range parts {
		c.Check(lines[i] == p.Sprint(fac), "line %d of the file of %s is %q", i, what, lines[i])
	}
	// the same factory
	y, err := lio.ReadFormula(fac, name)
	c.Check(err == nil && y == x, "%s read back as %s (%v)", what, cut(sprintOr(fac, y, err), 300), err)
	ys, err := lio.ReadFormulas(fac, name)
	c.Check(err == nil && len(ys) == len(parts), "%s read back as %d formulas (%v)", what, len(ys), err)
	for i := range parts {
		c.Check(ys[i] == parts[i], "%s read back as %s", parts[i].Sprint(fac), ys[i].Sprint(fac))
	}
	// another factory
	t := w.Twin()
	file, e := os.Open(name)
	c.Check(e == nil, "%v", e)
	if r.Bool() {
		y, err = lio.ReadFormulaFile(t.F, file)
		c.Check(err == nil && sameNode(t.From(y), in), "%s read by another factory: %s (%v)", what, cut(sprintOr(t.F, y, err), 300), err)
	} else {
		ys, err = lio.ReadFormulasFile(t.F, file)
		c.Check(err == nil && len(ys) == len(parts), "%s read by another factory: %d formulas (%v)", what, len(ys), err)
		for i := range ys {
			c.Check(sameNode(t.From(ys[i]), w.From(parts[i])), "%s read by another factory: %s", parts[i].Sprint(fac), ys[i].Sprint(t.F))
		}
	}
	file.Close()
	c.Obs("formula files written and read", 1)
	if len(parts) > 1 {
		c.Obs("split conjunctions", 1)
	}
}

func sprintOr(fac f.Factory, x f.Formula, err error) string {
	if err != nil {
		return "error"
	}
	return x.Sprint(fac)
}

func p28maxsat(c *Ctx, dir string) {
	r := c.R
	nv := r.Range(1, 6)
	type soft struct {
		cl []int
		w  int
	}
	var hard [][]int
	var softs []soft
	var lists [][]int
	header := ""
	weighted, pure := false, r.P(25)
	nc := r.Range(1, 10)
	cls := randLists(r, nv, nc, 1, 3)
	if pure {
		for _, cl := range cls {
			softs = append(softs, soft{cl, 1})
			lists = append(lists, cl)
		}
		header = fmt.Sprintf("p%scnf %d %d", pick(r, " ", " ", "  ", "\t"), nv, nc)
	} else {
		top := r.Range(20, 1000)
		partial := r.P(80)
		weighted = r.P(60)
		for _, cl := range cls {
			if partial && r.P(40) {
				hard = append(hard, cl)
				lists = append(lists, append([]int{top}, cl...))
			} else {
				wt := 1
				if weighted {
					wt = r.Range(1, 9)
				}
				softs = append(softs, soft{cl, wt})
				lists = append(lists, append([]int{wt}, cl...))
			}
		}
		sp := func() string { return pick(r, " ", " ", " ", "  ", "\t") }
		header = "p" + sp() + "wcnf" + sp() + strconv.Itoa(nv) + sp() + strconv.Itoa(nc)
		if partial {
			header += sp() + strconv.Itoa(top)
		}
		weighted = false
		for _, s := range softs {
			weighted = weighted || s.w > 1
		}
	}
	text := layout(r, header, lists, true)
	name := filepath.Join(dir, "in.wcnf")
	c.Check(os.WriteFile(name, []byte(text), 0o600) == nil, "scratch file")
	c.NT(text)
	fac := f.NewFactory()
	var s *maxsat.Solver
	if weighted {
		s = pick(r, maxsat.OLL, maxsat.WBO, maxsat.IncWBO, maxsat.LinearSU, maxsat.WMSU3)(fac)
	} else {
		s = pick(r, maxsat.OLL, maxsat.WBO, maxsat.IncWBO, maxsat.LinearSU, maxsat.LinearUS, maxsat.MSU3)(fac)
	}
	c.Logf("load %q", cut(text, 600))
	what := cut(text, 600)
	err := maxsat.ReadDimacsToSolver(fac, s, name)
	c.Check(err == nil, "loading %q: %v", what, err)
	if len(softs) == 0 {
		c.Obs("MaxSAT texts without soft clauses", 1)
	}
	holds := func(a uint64, cl []int) bool {
		for _, x := range cl {
			if x > 0 && a>>uint(x)&1 == 1 || x < 0 && a>>uint(-x)&1 == 0 {
				return true
			}
		}
		return false
	}
	cost := func(a uint64) (int, bool) {
		for _, cl := range hard {
			if !holds(a, cl) {
				return 0, false
			}
		}
		k := 0
		for _, s := range softs {
			if !holds(a, s.cl) {
				k += s.w
			}
		}
		return k, true
	}
	best, ok := 0, false
	for a := uint64(0); a < 2<<uint(nv); a += 2 {
		if k, h := cost(a); h && (!ok || k < best) {
			best, ok = k, true
		}
	}
	res := s.Solve()
	c.Check(res.Satisfiable == ok, "%q: satisfiable %v", what, res.Satisfiable)
	if ok {
		c.Check(res.Optimum == best, "%q: optimum %d instead of %d", what, res.Optimum, best)
		var a uint64
		for _, v := range res.Model.PosVars() {
			n, _ := fac.VarName(v)
			if id, err := strconv.Atoi(strings.TrimPrefix(n, "v")); err == nil && id <= nv {
				a |= 1 << uint(id)
			}
		}
		k, h := cost(a)
		c.Check(h && k == best, "%q: model of cost %d, optimum %d", what, k, best)
	}
	c.Obs("MaxSAT texts loaded", 1)
	if len(hard) > 0 && len(softs) > 0 {
		c.Obs("partial MaxSAT texts", 1)
	}
}

func p28broken(c *Ctx, dir string) {
	r := c.R
	name := filepath.Join(dir, "in")
	write := func(text string) {
		c.Logf("text %q", cut(text, 600))
		c.NT(text)
		c.Check(os.WriteFile(name, []byte(text), 0o600) == nil, "scratch file")
	}
	dimacs := func(must bool) {
		fac := f.NewFactory()
		var got *[]f.Formula
		var err error
		e := caught(func() { got, err = lio.ReadDimacs(fac, name) })
		c.Check(e == nil, "reading DIMACS panics: %v", e)
		c.Check((got == nil) == (err != nil), "reading DIMACS gives %v and %v", got, err)
		c.Check(!must || err != nil, "malformed DIMACS is accepted")
	}
	formulas := func(must bool) {
		fac := f.NewFactory()
		var err error
		var got []f.Formula
		e := caught(func() { got, err = lio.ReadFormulas(fac, name) })
		c.Check(e == nil, "reading formulas panics: %v", e)
		c.Check(!must || err != nil, "malformed formulas are accepted: %d", len(got))
		e = caught(func() { _, err = lio.ReadFormula(fac, name) })
		c.Check(e == nil, "reading a formula panics: %v", e)
		c.Check(!must || err != nil, "malformed formula is accepted")
	}
	wcnf := func(must bool) {
		fac := f.NewFactory()
		var err error
		e := caught(func() { err = maxsat.ReadDimacsToSolver(fac, maxsat.OLL(fac), name) })
		c.Check(e == nil, "loading MaxSAT panics: %v", e)
		c.Check(!must || err != nil, "malformed MaxSAT text is accepted")
	}
	nv := r.Range(1, 9)
	lists := randLists(r, nv, r.Range(1, 6), 1, 4)
	switch r.Intn(7) {
	case 0: // nothing there
		c.Logf("missing files")
		name = filepath.Join(dir, "missing", "file")
		dimacs(true)
		formulas(true)
		wcnf(true)
		fac := f.NewFactory()
		_, err := lio.WriteDimacs(fac, name, fac.Variable("a"))
		c.Check(err != nil, "writing to a missing folder reports no error")
		c.Check(lio.WriteFormula(fac, name, fac.Variable("a")) != nil, "writing to a missing folder reports no error")
		c.Obs("missing files", 1)
	case 1: // the last 0 is missing
		text := strings.TrimRight(layout(r, fmt.Sprintf("p cnf %d %d", nv, len(lists)), lists, false), " \t\r\n")
		write(text[:len(text)-1])
		dimacs(true)
		c.Obs("malformed texts", 1)
	case 2: // no number
		text := layout(r, fmt.Sprintf("p cnf %d %d", nv, len(lists)), lists, false)
		write(strings.TrimRight(text, " \t\r\n") + "\n" + pick(r, "x", "1 - 2", "%", "--3", "1.5", "99999999999999999999") + " 0\n")
		dimacs(true)
		c.Obs("malformed texts", 1)
	case 3:
		var wl [][]int
		for _, l := range lists {
			wl = append(wl, append([]int{r.Range(1, 9)}, l...))
		}
		text := strings.TrimRight(layout(r, fmt.Sprintf("p wcnf %d %d %d", nv, len(lists), 100), wl, false), " \t\r\n")
		switch r.Intn(4) {
		case 0:
			text = text[:len(text)-1]
		case 1:
			text += "\n" + pick(r, "x 1 0", "3 1 - 0", "0 1 0", "-2 1 0", "1 99999999999999999999 0", "3 a 0", "100 1 2")
		case 2:
			text = text[strings.Index(text, "\n")+1:]
			for strings.Contains(text, "wcnf") {
				text = text[strings.Index(text, "\n")+1:]
			}
		default:
			text = strings.Replace(text, " 100", " x", 1)
		}
		write(text)
		wcnf(true)
		c.Obs("malformed texts", 1)
	case 4: // no formula
		w := NewWorld(r, nv, false)
		good := w.Build(Gen(r, stdCfg(r, nv))).Sprint(w.F)
		bad := pick(r, "a &", "(a | b", "| a", "a & & b", "=> b", "a <=>", "3 * <= 2", "a + <= 1", "~", "§", "(a))(", "a <= ") // only such that fail at the start rule
		if bad == "(a))(" {
			bad = "((a)"
		}
		write(pick(r, good+"\n", "") + bad + "\n" + pick(r, good+"\n", ""))
		_, err := parser.New(f.NewFactory()).Parse(bad)
		c.Check(err != nil, "%q is parsed", bad)
		formulas(true)
		c.Obs("malformed texts", 1)
	default: // anything
		text := layout(r, fmt.Sprintf("p %s %d %d 10", pick(r, "cnf", "wcnf"), nv, len(lists)), lists, true)
		if r.P(30) {
			w := NewWorld(r, nv, false)
			g := stdCfg(r, nv)
			g.CC, g.PB = 2, 2
			text = w.Build(Gen(r, g)).Sprint(w.F) + "\n" + w.Build(Gen(r, g)).Sprint(w.F)
		}
		write(spoil(r, text))
		dimacs(false)
		formulas(false)
		wcnf(false)
		c.Obs("arbitrary texts", 1)
	}
}

func init() {
	probeText := func(text string, fn func(c *Ctx, name string)) func(*Ctx) {
		return func(c *Ctx) {
			dir, err := os.MkdirTemp("", "lngio")
			c.Check(err == nil, "scratch directory: %v", err)
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "in")
			os.WriteFile(name, []byte(text), 0o600)
			fn(c, name)
		}
	}
	probe("formula-file-malformed", "P28", probeText("a & b\n(a |\n", func(c *Ctx, name string) {
		fac := f.NewFactory()
		var err error
		e := caught(func() { _, err = lio.ReadFormulas(fac, name) })
		c.Check(e == nil, "reading a malformed file panics: %v", e)
		c.Check(err != nil, "malformed file accepted")
	}))
	probe("dimacs-clauses-per-line", "P28", probeText("p cnf 3 2\n1 2 0 -3 0\n", func(c *Ctx, name string) {
		fac := f.NewFactory()
		got, err := lio.ReadDimacs(fac, name)
		c.Check(err == nil && len(*got) == 2 && (*got)[1] == fac.Literal("v3", false), "two clauses in one line are read as %v (%v)", got, err)
	}))
	probe("dimacs-clause-over-lines", "P28", probeText("p cnf 3 1\n1 2\n-3 0\n", func(c *Ctx, name string) {
		fac := f.NewFactory()
		got, err := lio.ReadDimacs(fac, name)
		c.Check(err == nil && len(*got) == 1, "a clause in two lines is read as %v (%v)", got, err)
	}))
	probe("dimacs-long-line", "P28", probeText("p cnf 20000 1\n"+strings.Repeat("12345 -12346 ", 8000)+"0\n", func(c *Ctx, name string) {
		_, err := lio.ReadDimacs(f.NewFactory(true), name)
		c.Check(err == nil, "a long clause is not read: %v", err)
	}))
	probe("maxsat-reader-layout", "P28", probeText("c comment\np  wcnf 2 3 10\nc comment\n\n10 1  2 0\n3 -1 0\n4\t-2 0\n", func(c *Ctx, name string) {
		fac := f.NewFactory()
		s := maxsat.OLL(fac)
		err := maxsat.ReadDimacsToSolver(fac, s, name)
		c.Check(err == nil, "%v", err)
		res := s.Solve()
		c.Check(res.Satisfiable && res.Optimum == 3, "optimum %d instead of 3", res.Optimum)
	}))
	probe("maxsat-reader-malformed", "P28", probeText("p wcnf 2 1 10\n10 1 2\n", func(c *Ctx, name string) {
		fac := f.NewFactory()
		err := maxsat.ReadDimacsToSolver(fac, maxsat.OLL(fac), name)
		c.Check(err != nil, "unterminated clause is accepted")
	}))
	register(&PropDef{ID: "P28", Quick: 16000, Thorough: 300000, Run: runP28,
		Rule: "clause sets and formulas written and read back by the same and other factories; DIMACS and weighted CNF texts in random legal layouts; malformed, spoiled and missing files",
		Need: []string{"DIMACS files written and read", "formulas refused by the writer", "DIMACS texts read", "clauses read", "formula files written and read", "split conjunctions", "MaxSAT texts loaded", "partial MaxSAT texts", "malformed texts", "arbitrary texts", "missing files"}})
}
