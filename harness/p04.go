package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
)

// ---- independent lexer and recursive-descent parser of the documented grammar

type tok struct {
	k string // NUM LIT or the symbol itself
	s string
}

func isDigit(b rune) bool { return b >= '0' && b <= '9' }
func isStart(b rune) bool {
	return b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' || isDigit(b) || b == '_' || b == '@' || b == '#'
}
func isRest(b rune) bool { return isStart(b) && b != '@' }

func lexAll(s string) ([]tok, bool) {
	rs := []rune(s)
	if !utf8.ValidString(s) {
		return nil, false
	}
	var out []tok
	for i := 0; i < len(rs); {
		c := rs[i]
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			i++
			continue
		}
		// longest NUMBER
		num := 0
		j := i
		if c == '-' {
			j++
		}
		k := j
		for k < len(rs) && isDigit(rs[k]) {
			k++
		}
		if k > j {
			num = k - i
		}
		lit := 0
		j = i
		if c == '~' {
			j++
		}
		if j < len(rs) && isStart(rs[j]) {
			k = j + 1
			for k < len(rs) && isRest(rs[k]) {
				k++
			}
			lit = k - i
		}
		sym := ""
		rest := string(rs[i:min(len(rs), i+6)])
		for _, y := range []string{"$false", "$true", "<=>", "=>", "<=", ">=", "(", ")", "~", "&", "|", "*", "+", "=", "<", ">"} {
			if strings.HasPrefix(rest, y) {
				sym = y
				break
			}
		}
		switch {
		case num > 0 && num >= lit && num >= len(sym):
			out = append(out, tok{"NUM", string(rs[i : i+num])})
			i += num
		case lit > 0 && lit >= len(sym):
			out = append(out, tok{"LIT", string(rs[i : i+lit])})
			i += lit
		case sym != "":
			out = append(out, tok{sym, sym})
			i += len(sym)
		default:
			return nil, false
		}
	}
	return out, true
}

type rdp struct {
	t  []tok
	p  int
	ok bool
	// builds through the factory so that the expected handle is exact
	fac f.Factory
	// lenient: a literal that starts no comparison is a literal
	lenient bool
}

func (r *rdp) peek() string {
	if r.p < len(r.t) {
		return r.t[r.p].k
	}
	return "EOF"
}
func (r *rdp) take(k string) bool {
	if r.peek() == k {
		r.p++
		return true
	}
	return false
}
func (r *rdp) fail() f.Formula { r.ok = false; return r.fac.Falsum() }

func (r *rdp) equiv() f.Formula {
	a := r.impl()
	if r.ok && r.take("<=>") {
		b := r.equiv()
		if r.ok {
			return r.fac.Equivalence(a, b)
		}
	}
	return a
}
func (r *rdp) impl() f.Formula {
	a := r.disj()
	if r.ok && r.take("=>") {
		b := r.impl()
		if r.ok {
			return r.fac.Implication(a, b)
		}
	}
	return a
}
func (r *rdp) nary(op string, sub func() f.Formula, mk func(...f.Formula) f.Formula) f.Formula {
	ops := []f.Formula{sub()}
	for r.ok && r.take(op) {
		ops = append(ops, sub())
	}
	if !r.ok || len(ops) == 1 {
		return ops[0]
	}
	return mk(ops...)
}
func (r *rdp) disj() f.Formula { return r.nary("|", r.conj, r.fac.Or) }
func (r *rdp) conj() f.Formula { return r.nary("&", r.lit, r.fac.And) }
func (r *rdp) lit() f.Formula {
	if r.take("~") {
		x := r.lit()
		if r.ok {
			return r.fac.Not(x)
		}
		return x
	}
	return r.simp()
}
func litOf(fac f.Factory, s string) f.Literal {
	if strings.HasPrefix(s, "~") {
		return fac.Lit(s[1:], false)
	}
	return fac.Lit(s, true)
}
func (r *rdp) simp() f.Formula {
	switch r.peek() {
	case "(":
		r.p++
		x := r.equiv()
		if !r.ok || !r.take(")") {
			return r.fail()
		}
		return x
	case "$true":
		r.p++
		return r.fac.Verum()
	case "$false":
		r.p++
		return r.fac.Falsum()
	case "NUM", "LIT":
		// comparison iff a mul/add prefix is followed by an operator of it
		if r.p+1 < len(r.t) {
			switch r.t[r.p+1].k {
			case "*", "+", "=", "<=", "<", ">=", ">":
				at := r.p
				x := r.comparison()
				if r.ok || !r.lenient {
					return x
				}
				r.p, r.ok = at, true
			}
		}
		s := r.t[r.p].s
		r.p++
		return litOf(r.fac, s).AsFormula()
	}
	return r.fail()
}
func (r *rdp) comparison() f.Formula {
	var ls []f.Literal
	var cs []int
	for {
		co := 1
		switch {
		case r.peek() == "NUM" && r.p+1 < len(r.t) && r.t[r.p+1].k == "*":
			n, err := strconv.Atoi(r.t[r.p].s)
			if err != nil {
				return r.fail()
			}
			co = n
			r.p += 2
			if r.peek() != "NUM" && r.peek() != "LIT" {
				return r.fail()
			}
		case r.peek() == "NUM" || r.peek() == "LIT":
		default:
			return r.fail()
		}
		ls = append(ls, litOf(r.fac, r.t[r.p].s))
		cs = append(cs, co)
		r.p++
		if !r.take("+") {
			break
		}
	}
	cmp := map[string]f.CSort{"=": f.EQ, "<=": f.LE, "<": f.LT, ">=": f.GE, ">": f.GT}
	s, ok := cmp[r.peek()]
	if !ok {
		return r.fail()
	}
	r.p++
	if r.peek() != "NUM" {
		return r.fail()
	}
	n, err := strconv.Atoi(r.t[r.p].s)
	if err != nil {
		return r.fail()
	}
	r.p++
	return r.fac.PBC(s, n, ls, cs)
}

// refParse is the reference: (formula, true) or (_, false) for text outside
// the language.
func refParse(fac f.Factory, s string) (f.Formula, bool) {
	if strings.TrimSpace(s) == "" {
		return fac.Verum(), true
	}
	t, ok := lexAll(s)
	if !ok {
		return 0, false
	}
	if len(t) == 0 {
		return 0, false
	}
	r := &rdp{t: t, ok: true, fac: fac}
	x := r.equiv()
	return x, r.ok && r.p == len(t)
}

// refParsePrefix parses the longest sentence the text starts with (at least one
// token); the lexer stops at the first illegal character.
func refParsePrefix(fac f.Factory, s string) (f.Formula, bool) {
	var t []tok
	for n := len(s); n > 0; n-- {
		if u, ok := lexAll(s[:n]); ok {
			t = u
			break
		}
	}
	if len(t) == 0 {
		return 0, false
	}
	r := &rdp{t: t, ok: true, fac: fac, lenient: true}
	x := r.equiv()
	return x, r.ok
}

// ---- text generation ---------------------------------------------------------

var p04names = []string{"a", "B", "c1", "x_y", "@n", "#", "A#B", "_", "12", "0", "007", "9z", "true", "Ab_3#", "1e5"}

func genText(r *Rng, d int) string {
	ws := func() string { return pick(r, "", "", " ", "  ", "\t", "\n", "\r\n ") }
	name := func() string { return pick(r, p04names...) }
	switch x := r.Intn(12); {
	case d == 0 || x < 2:
		switch r.Intn(9) {
		case 0:
			return "$true"
		case 1:
			return "$false"
		case 2, 3:
			return "~" + name()
		case 4:
			return genCmpText(r)
		default:
			return name()
		}
	case x < 3:
		return "~" + ws() + genText(r, d-1)
	case x < 5:
		return "(" + ws() + genText(r, d-1) + ws() + ")"
	case x < 6:
		return "~(" + genText(r, d-1) + ")"
	default:
		op := pick(r, "&", "&", "|", "|", "=>", "<=>")
		s := genText(r, d-1)
		for i := r.Range(1, 2); i > 0; i-- {
			s += " " + ws() + op + ws() + genText(r, d-1)
		}
		return s
	}
}

func genCmpText(r *Rng) string {
	var b strings.Builder
	for i := r.Range(1, 3); i > 0; i-- {
		if r.P(60) {
			fmt.Fprintf(&b, "%d%s*%s", r.Range(-20, 20), pick(r, "", " "), pick(r, "", " "))
		}
		if r.P(30) {
			b.WriteString("~")
		}
		b.WriteString(pick(r, p04names...))
		if i > 1 {
			b.WriteString(pick(r, " + ", "+", " +"))
		}
	}
	fmt.Fprintf(&b, " %s %d", pick(r, "=", "<=", "<", ">=", ">"), r.Range(-30, 30))
	return b.String()
}

func mutate(r *Rng, s string) string {
	bs := []byte(s)
	alpha := []string{"(", ")", "~", "&", "|", "=", "=>", "<=>", "<", ">", "*", "+", "-", "$", "$true", "$false", "a", "12", " ", "@", "#", ".", "!", "\x00", "\xff", "ä", ",", "99999999999999999999", "-", "\n", "->", "true", "^"}
	for i := r.Range(1, 3); i > 0; i-- {
		p := r.Intn(len(bs) + 1)
		switch r.Intn(5) {
		case 0:
			if p < len(bs) {
				bs = append(bs[:p], bs[p+1:]...)
			}
		case 1:
			bs = bs[:p]
		case 2:
			q := r.Intn(len(bs) + 1)
			if q < p {
				p, q = q, p
			}
			if q-p < 12 { // duplicate a piece
				bs = append(bs[:q:q], append(append([]byte{}, bs[p:q]...), bs[q:]...)...)
			}
		default:
			ins := pick(r, alpha...)
			bs = append(bs[:p:p], append([]byte(ins), bs[p:]...)...)
		}
	}
	return string(bs)
}

func runP04(c *Ctx) {
	if c.Idx%81 == 11 {
		wide04(c)
		return
	}
	r := c.R
	if c.Idx%2 == 0 {
		p04roundtrip(c)
		return
	}
	fac := f.NewFactory(r.P(25))
	ref := fac
	p := parser.New(fac)
	for k := 0; k < 12; k++ {
		s := genText(r, r.Range(0, 3))
		kind := "generated"
		switch r.Intn(4) {
		case 0, 1:
			s = mutate(r, s)
			kind = "mutated"
		case 2:
			if r.P(20) {
				n := r.Range(0, 12)
				b := make([]byte, n)
				for i := range b {
					b[i] = pick(r, []byte("ab1 ()~&|=<>*+-$@#.\xc3\x00")...)
				}
				s = string(b)
				kind = "random bytes"
			}
		}
		c.Logf("parse %q", s)
		want, ok := refParse(ref, s)
		got, err := p.Parse(s)
		if !ok && err == nil {
			// known finding parser-trailing-input: a sentence followed by
			// anything is accepted; everything else must be refused
			pre, preOK := refParsePrefix(ref, s)
			c.Check(preOK && pre == got, "%s text %q is not in the language and no prefix of it denotes the returned %s", kind, s, got.Sprint(fac))
			c.Obs("sentence with trailing input", 1)
			continue
		}
		c.Check((err == nil) == ok, "%s text %q: in the language: %v, parser error: %v", kind, s, ok, err)
		if ok {
			c.Check(got == want, "%s text %q parses to %s, expected %s", kind, s, got.Sprint(fac), want.Sprint(fac))
			c.Obs("accepted texts", 1)
		} else {
			c.Obs("rejected texts", 1)
		}
		func() {
			defer func() {
				if x := recover(); x != nil && ok {
					c.Failf("ParseUnsafe panics on legal %q: %v", s, x)
				}
			}()
			if ok || r.P(10) {
				g := p.ParseUnsafe(s)
				c.Check(ok && g == want, "ParseUnsafe accepts %q", s)
			}
		}()
		if len(s) > 3 {
			c.NT(s)
		}
		if k == 0 {
			c.Sample("%q legal=%v", s, ok)
		}
	}
}

func p04roundtrip(c *Ctx) {
	r := c.R
	nv := r.Range(2, 8)
	w := NewWorld(r, nv, r.P(30))
	if r.P(40) { // numeric and unusual names
		names := shuffled(r, p04names)
		cons := w.Cons
		w = &World{N: nv, idx: map[string]int{}, memo: map[f.Formula]*Node{}, Cons: cons, F: f.NewFactory(cons)}
		for i := 0; i < nv; i++ {
			w.name = append(w.name, names[i])
			w.vars = append(w.vars, w.F.Var(names[i]))
			w.idx[names[i]] = i
		}
	}
	fac := w.F
	p := parser.New(fac)
	for k := 0; k < 6; k++ {
		cfg := stdCfg(r, nv)
		cfg.ImplW, cfg.EquivW, cfg.NotW = 4, 4, 3
		cfg.CC, cfg.PB, cfg.Consts = r.Intn(3), r.Intn(3), r.Intn(2)
		cfg.MaxCoef = pick(r, 3, 1000)
		cfg.Huge = pick(r, 0, 20)
		n := Gen(r, cfg)
		g := w.Build(n)
		s := g.Sprint(fac)
		c.Logf("round trip %q", s)
		h, err := p.Parse(s)
		c.Check(err == nil, "printed text %q is not parsed: %v", s, err)
		c.Check(h == g, "%q parses to a different formula %s", s, h.Sprint(fac))
		t := w.Twin()
		h2, err := parser.New(t.F).Parse(s)
		c.Check(err == nil && h2.Sprint(t.F) == s, "%q parses on another factory to %s (%v)", s, h2.Sprint(t.F), err)
		c.Check(t.From(h2).String() == w.From(g).String(), "%q has a different structure on another factory: %s", s, t.From(h2))
		c.EqTT(t.From(h2).TT(nv), n.TT(nv), "%q parsed on another factory", s)
		c.Obs("round trips", 1)
		if w.From(g).Size() > 2 {
			c.NT(s)
		}
		// own symbols: printing with custom symbols only exchanges the symbols
		if r.P(20) {
			sy := f.DefaultSymbols()
			sy.And, sy.Or, sy.Not, sy.Implication, sy.Equivalence = " AND ", " OR ", "!", " -> ", " <-> "
			sy.LeftBracket, sy.RightBracket = "[", "]"
			sy.Verum, sy.Falsum = "TT", "FF"
			fac.SetPrintSymbols(sy)
			s2 := g.Sprint(fac)
			fac.SetPrintSymbols(f.DefaultSymbols())
			want := strings.NewReplacer(" & ", " AND ", " | ", " OR ", "~", "!", " <=> ", " <-> ", " => ", " -> ", "(", "[", ")", "]", "$true", "TT", "$false", "FF").Replace(s)
			c.Check(s2 == want, "with other symbols %q is printed %q", s, s2)
			c.Obs("custom symbols", 1)
		}
	}
}

func init() {
	register(&PropDef{ID: "P04", Quick: 16000, Thorough: 250000, Run: runP04,
		Rule: "one case = 6 random formulas printed, re-parsed on the same and on a fresh factory, or 12 generated / mutated / random texts judged by an independent lexer and recursive-descent parser of the documented grammar; non-trivial = distinct texts longer than 3 bytes",
		Need: []string{"round trips", "accepted texts", "rejected texts", "custom symbols"}})
	probe("parser-malformed", "P04", func(c *Ctx) {
		fac := f.NewFactory()
		p := parser.New(fac)
		for _, s := range []string{"a + >= 2", "3 * >= 1", "* a <= 1", "a + b", "(a + b) <= 1", "a <= 99999999999999999999", "99999999999999999999*a <= 1", "a &", "( a | b"} {
			_, err := p.Parse(s)
			c.Check(err != nil, "malformed text %q is accepted", s)
		}
	})
	probe("parser-trailing-input", "P04", func(c *Ctx) {
		p := parser.New(f.NewFactory())
		for _, s := range []string{"a b", "a & b)", "a (b", "5 >= 2 3", "a | b c"} {
			_, err := p.Parse(s)
			c.Check(err != nil, "malformed text %q is accepted", s)
		}
	})
	probe("parser-numeric-names", "P04", func(c *Ctx) {
		fac := f.NewFactory()
		p := parser.New(fac)
		g := fac.PBC(f.GE, 2, []f.Literal{fac.Lit("5", true), fac.Lit("7", true)}, []int{3, 1})
		h, err := p.Parse(g.Sprint(fac))
		c.Check(err == nil && g == h, "%s is parsed as %s (%v)", g.Sprint(fac), h.Sprint(fac), err)
	})
}
