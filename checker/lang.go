package main

import (
	"fmt"
	"sort"
	"strings"
)

// Output languages. The abstract output of a command and the expected output are regular languages over letters
// (runes and input atoms); they are compared as languages, so how the code groups its writes does not matter.

// nfa is a nondeterministic automaton with empty moves.
type nfa struct {
	eps   [][]int
	trans []map[string][]int
	start int
	end   int
	bad   []string // parts whose text is unknown
}

func (n *nfa) state() int {
	n.eps = append(n.eps, nil)
	n.trans = append(n.trans, nil)
	return len(n.eps) - 1
}
func (n *nfa) e(a, b int) { n.eps[a] = append(n.eps[a], b) }
func (n *nfa) t(a int, l string, b int) {
	if n.trans[a] == nil {
		n.trans[a] = map[string][]int{}
	}
	n.trans[a][l] = append(n.trans[a][l], b)
}

func (n *nfa) str(a int, s string) int {
	for _, r := range s {
		b := n.state()
		n.t(a, string(r), b)
		a = b
	}
	return a
}

func (n *nfa) letter(a int, l string) int {
	b := n.state()
	n.t(a, l, b)
	return b
}

func (n *nfa) parts(a int, ps []Val) int {
	for _, p := range ps {
		a = n.part(a, p)
	}
	return a
}

func ordMark(r *Rep) string {
	if r.Unord {
		return "unordered"
	}
	return ""
}

func (n *nfa) part(a int, p Val) int {
	switch x := p.(type) {
	case *Const:
		return n.str(a, render(x))
	case *Cat:
		return n.parts(a, x.Parts)
	case *El:
		return n.part(a, x.V)
	case *Seq:
		return n.parts(a, x.Items)
	case *Rep:
		if len(x.Body) == 0 {
			return a
		}
		m := ordMark(x)
		if m != "" {
			a = n.letter(a, "«"+m+"»")
		}
		for i := 0; i < x.Min; i++ {
			a = n.parts(a, x.Body)
		}
		h := n.state()
		n.e(a, h)
		b := n.parts(h, x.Body)
		n.e(b, h)
		o := n.state()
		n.e(h, o)
		if m != "" {
			o = n.letter(o, "«end»")
		}
		return o
	case *AltP:
		o := n.state()
		for _, op := range x.Opts {
			s := n.state()
			n.e(a, s)
			n.e(n.parts(s, op), o)
		}
		return o
	case *Alt:
		o := n.state()
		for _, v := range x.Vals {
			s := n.state()
			n.e(a, s)
			n.e(n.part(s, v), o)
		}
		return o
	case *TopV:
		n.bad = append(n.bad, x.Why)
		return n.letter(a, "«⊤»")
	case *LVar:
		n.bad = append(n.bad, "loop-carried text "+x.ID)
		return n.letter(a, "«⊤»")
	case *Splice:
		return n.parts(a, x.Parts)
	case *Eff:
		return n.effect(a, x)
	case *Sym, *App, *Lin, *LenOf, *Iter:
		if x, ok := p.(*Sym); ok && (x.Name == "⟪" || x.Name == "⟫") {
			return n.letter(a, x.Name)
		}
		if x, ok := p.(*App); ok && x.F == "itoa" {
			return n.part(a, x.Args[0])
		}
		if hasTop(p) {
			n.bad = append(n.bad, render(p))
		}
		if isAtomApp(p) {
			return n.letter(a, render(p))
		}
		return n.letter(a, "«"+strings.Trim(render(p), "«»")+"»")
	}
	n.bad = append(n.bad, fmt.Sprintf("text of %T", p))
	return n.letter(a, "«⊤»")
}

func isAtomApp(p Val) bool {
	switch p.(type) {
	case *Sym, *App:
		return true
	}
	return false
}

func hasTop(v Val) bool {
	found := false
	mapVal(v, func(x Val) Val {
		switch x := x.(type) {
		case *TopV, *LVar:
			found = true
		case *Sym:
			// named after a value that is unknown
			found = found || strings.Contains(x.Name, "(top:") || strings.Contains(x.Name, "(LV:") || strings.Contains(x.Name, ",(LV:")
		}
		return nil
	})
	return found
}

func (n *nfa) effect(a int, e *Eff) int {
	switch e.Kind {
	case "read", "decode", "mkdir", "log", "print", "fault", "runerror":
		return a
	case "append":
		return n.part(a, e.Args[1])
	case "create":
		a = n.letter(a, "⟪")
		a = n.part(a, e.Args[0])
		return n.letter(a, "⟫")
	case "writefile":
		a = n.letter(a, "⟪")
		a = n.part(a, e.Args[0])
		a = n.letter(a, "⟫")
		return n.part(a, e.Args[1])
	}
	a = n.letter(a, "⟪")
	a = n.str(a, e.Kind+" ")
	for i, x := range e.Args {
		if i > 0 {
			a = n.str(a, " ")
		}
		a = n.part(a, x)
	}
	return n.letter(a, "⟫")
}

func nfaOfParts(ps []Val) *nfa {
	n := &nfa{}
	n.start = n.state()
	n.end = n.parts(n.start, ps)
	return n
}

// ordIssues lists repetitions whose elements do not come in the order of the input: reversed ones, and sorted ones
// other than the table lists (which are put in order when a schema is loaded).
func ordIssues(ps []Val, out map[string]bool) {
	for _, p := range ps {
		switch x := p.(type) {
		case *El:
			ordIssues([]Val{x.V}, out)
		case *Eff:
			ordIssues(x.Args, out)
		case *Cat:
			ordIssues(x.Parts, out)
		case *Seq:
			ordIssues(x.Items, out)
		case *Alt:
			ordIssues(x.Vals, out)
		case *Rep:
			if x.Unord {
				out["unordered "+x.Loop] = true
			}
			base := x.Loop[strings.LastIndex(x.Loop, ":")+1:]
			switch x.ord() {
			case "reversed":
				out["reversed "+base] = true
			case "sorted":
				if strings.Contains(base, ".columns[") || strings.Contains(base, ".indices[") || strings.Contains(base, ".values[") {
					out["sorted "+base] = true
				}
			}
			ordIssues(x.Body, out)
		case *AltP:
			for _, o := range x.Opts {
				ordIssues(o, out)
			}
		}
	}
}

// parseNotation reads the notation of render: «atom», ⟦…⟧* (any number), ⟦…⟧+ (at least one), ‹a¦b› alternatives.
// A repetition may start with ^ (sorted), ~ (unordered).
func parseNotation(s string) ([]Val, error) {
	p := &notation{r: []rune(s)}
	ps := p.seq()
	if p.i < len(p.r) && p.err == nil {
		p.err = fmt.Errorf("unexpected %q at %d", p.r[p.i], p.i)
	}
	return ps, p.err
}

type notation struct {
	r   []rune
	i   int
	err error
}

func (p *notation) seq() []Val {
	var out []Val
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			out = append(out, S(lit.String()))
			lit.Reset()
		}
	}
	for p.i < len(p.r) && p.err == nil {
		c := p.r[p.i]
		switch c {
		case '«':
			flush()
			depth, j := 0, p.i
			for ; j < len(p.r); j++ {
				if p.r[j] == '«' {
					depth++
				}
				if p.r[j] == '»' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j == len(p.r) {
				p.err = fmt.Errorf("unterminated atom")
				return nil
			}
			out = append(out, &Sym{Name: string(p.r[p.i+1 : j])})
			p.i = j + 1
		case '⟪', '⟫':
			flush()
			out = append(out, &Sym{Name: string(c)})
			p.i++
		case '⟦':
			flush()
			p.i++
			r := &Rep{}
			if p.i < len(p.r) && p.r[p.i] == '^' {
				r.Loop = "sorted:"
				p.i++
			} else if p.i < len(p.r) && p.r[p.i] == '~' {
				r.Unord = true
				p.i++
			}
			r.Body = p.seq()
			if p.i+1 >= len(p.r) || p.r[p.i] != '⟧' {
				p.err = fmt.Errorf("unterminated repetition")
				return nil
			}
			if p.r[p.i+1] == '+' {
				r.Min = 1
			}
			p.i += 2
			out = append(out, r)
		case '‹':
			flush()
			a := &AltP{}
			for {
				p.i++
				a.Opts = append(a.Opts, p.seq())
				if p.err != nil {
					return nil
				}
				if p.i >= len(p.r) {
					p.err = fmt.Errorf("unterminated alternative")
					return nil
				}
				if p.r[p.i] == '¦' {
					continue
				}
				if p.r[p.i] != '›' {
					p.err = fmt.Errorf("bad alternative")
					return nil
				}
				p.i++
				break
			}
			out = append(out, a)
		case '⟧', '¦', '›':
			flush()
			return out
		default:
			lit.WriteRune(c)
			p.i++
		}
	}
	flush()
	return out
}

// Norm is a whitespace convention.
type Norm struct {
	Flat  bool   // with Lines: indentation does not matter
	Lines bool   // line structure and indentation matter; blank lines and trailing blanks do not
	Punct string // whitespace next to these characters is ignored (not with Lines)
	Exact bool
	Rules bool // how long a line of dashes is does not matter
}

var normRules = &Norm{Lines: true, Flat: true, Rules: true}

// rule is the transducer that shortens a run of dashes at the start of a line.
func rule(mode, l string) (string, []string) {
	switch {
	case l == "-" || strings.HasPrefix(l, "«strings.Repeat(-,len") || strings.HasPrefix(l, "«bytes.Repeat(-,len"):
		switch mode {
		case "s":
			return "d", []string{"-"}
		case "d":
			return "d", nil
		}
	case l == "\n" || l == "⟫":
		return "s", []string{l}
	}
	return "x", []string{l}
}

var normCode = &Norm{Punct: "(),;`'\"{}[]<>=:|&*+-/!@\n⟪⟫"}
var normPlain = &Norm{Lines: true, Flat: true}
var normLines = &Norm{Lines: true}
var normExact = &Norm{Exact: true}

// normal composes the automaton with the whitespace transducer of the convention.
func (n *nfa) normal(w *Norm) *nfa {
	if w == nil || w.Exact {
		return n
	}
	if w.Rules {
		n = n.through("s", rule, nil)
	}
	return n.through("P", w.step, nil)
}

// View leaves out the stretches of the output between two marks, so that a check judges only what its property speaks of.
// With Keep it leaves out everything else, but for the tokens.
type View struct {
	Name        string
	Open, Close string
	Keep        bool
	Tokens      []string
}

// step is the transducer: modes are "o" and what was read of a mark so far, or "c" inside.
func (v *View) step(mode, l string) (string, []string) {
	if mode == "c" {
		if l == v.Close {
			return "o", []string{l}
		}
		if v.Keep {
			return mode, []string{l}
		}
		return mode, nil
	}
	read := append(letters(mode[1:]), l)
	s := strings.Join(read, "")
	if strings.HasSuffix(s, v.Open) {
		if v.Keep {
			read = letters(v.Open)
		}
		return "c", read
	}
	for _, t := range v.Tokens {
		if strings.HasSuffix(s, t) {
			return "o", letters(t)
		}
	}
	var out []string
	for len(read) > 0 {
		s := strings.Join(read, "")
		for _, t := range append([]string{v.Open}, v.Tokens...) {
			if strings.HasPrefix(t, s) {
				if v.Keep {
					out = nil
				}
				return "o" + s, out
			}
		}
		out, read = append(out, read[0]), read[1:]
	}
	if v.Keep {
		out = nil
	}
	return "o", out
}

func letters(s string) []string { return strings.Split(s, "") }

func (v *View) rest(mode string) []string {
	if v.Keep || mode == "c" {
		return nil
	}
	return letters(mode[1:])
}

func (n *nfa) view(v *View) *nfa {
	if v == nil {
		return n
	}
	return n.through("o", v.step, v.rest)
}

// through composes the automaton with a transducer; rest is what the transducer still has to write at the end.
func (n *nfa) through(start string, step func(mode, l string) (string, []string), rest func(mode string) []string) *nfa {
	type key struct {
		q    int
		mode string
	}
	m := &nfa{bad: n.bad}
	ids := map[key]int{}
	var work []key
	get := func(k key) int {
		if i, ok := ids[k]; ok {
			return i
		}
		i := m.state()
		ids[k] = i
		work = append(work, k)
		return i
	}
	m.start = get(key{n.start, start})
	m.end = m.state()
	emit := func(a int, ls []string, b int) {
		if len(ls) == 0 {
			m.e(a, b)
			return
		}
		for i, l := range ls {
			nx := b
			if i < len(ls)-1 {
				nx = m.state()
			}
			m.t(a, l, nx)
			a = nx
		}
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		a := ids[k]
		if k.q == n.end {
			if rest != nil {
				emit(a, rest(k.mode), m.end)
			} else {
				m.e(a, m.end)
			}
		}
		for _, b := range n.eps[k.q] {
			m.e(a, get(key{b, k.mode}))
		}
		for l, bs := range n.trans[k.q] {
			mode, out := step(k.mode, l)
			for _, b := range bs {
				emit(a, out, get(key{b, mode}))
			}
		}
	}
	return m
}

// step is the transducer: modes are P (at the start or after punctuation), N (after text), W (blank after text);
// with Lines: P (line start), "I<n>" (indentation n at line start), N, "W<n>" (n blanks after text), L (line ended).
func (w *Norm) step(mode, l string) (string, []string) {
	ws := l == " " || l == "\t" || l == "\r" || l == "\n"
	if w.Lines {
		nblank := func(s string) int { return len(s) - 1 }
		switch {
		case l == "\r":
			return mode, nil
		case l == "\n":
			switch mode[0] {
			case 'P', 'I':
				return "P", nil
			case 'L', 'J':
				return "L", nil
			}
			return "L", nil
		case l == " " || l == "\t":
			switch mode[0] {
			case 'P':
				if w.Flat {
					return mode, nil
				}
				return "I" + "x", nil
			case 'L':
				if w.Flat {
					return mode, nil
				}
				return "J" + "x", nil
			case 'N':
				return "W" + "x", nil
			}
			if len(mode) > 60 {
				return mode, nil
			}
			return mode + "x", nil
		}
		if l == "⟫" { // what follows is the start of a file
			switch mode[0] {
			case 'W':
				return "P", append(rep(" ", nblank(mode)), l)
			}
			return "P", []string{l}
		}
		switch mode[0] {
		case 'I':
			return "N", append(rep(" ", nblank(mode)), l)
		case 'J':
			return "N", append(append([]string{"\n"}, rep(" ", nblank(mode))...), l)
		case 'L':
			return "N", []string{"\n", l}
		case 'W':
			return "N", append(rep(" ", nblank(mode)), l)
		}
		return "N", []string{l}
	}
	punct := l == "⟪" || l == "⟫" || (len(l) > 0 && !strings.HasPrefix(l, "«") && strings.Contains(w.Punct, l))
	switch {
	case ws:
		if mode == "N" {
			return "W", nil
		}
		return mode, nil
	case punct:
		return "P", []string{l}
	case mode == "W":
		return "N", []string{" ", l}
	}
	return "N", []string{l}
}

func rep(s string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, s)
	}
	return r
}

type set struct {
	q   []int
	key string
}

func (n *nfa) closure(q []int) set {
	seen := map[int]bool{}
	var st []int
	for _, x := range q {
		if !seen[x] {
			seen[x] = true
			st = append(st, x)
		}
	}
	for i := 0; i < len(st); i++ {
		for _, y := range n.eps[st[i]] {
			if !seen[y] {
				seen[y] = true
				st = append(st, y)
			}
		}
	}
	// only states with moves, and the end, matter
	var keep []int
	for _, x := range st {
		if len(n.trans[x]) > 0 || x == n.end {
			keep = append(keep, x)
		}
	}
	sort.Ints(keep)
	var sb strings.Builder
	for _, x := range keep {
		fmt.Fprintf(&sb, "%d,", x)
	}
	return set{keep, sb.String()}
}

func (n *nfa) acc(s set) bool {
	for _, x := range s.q {
		if x == n.end {
			return true
		}
	}
	return false
}

func (n *nfa) move(s set, l string) set {
	var q []int
	for _, x := range s.q {
		q = append(q, n.trans[x][l]...)
	}
	return n.closure(q)
}

func (n *nfa) letters(s set, m map[string]bool) {
	for _, x := range s.q {
		for l := range n.trans[x] {
			m[l] = true
		}
	}
}

// Cmp is the outcome of comparing an actual with an expected language.
type Cmp struct {
	missing []string // shortest expected word that cannot be produced
	extra   []string // shortest producible word that is not expected
	hasMiss bool
	hasXtra bool
	missAt  int // how long the missing word's longest producible prefix is
	states  int
	unknown []string
}

func compareLang(act, exp *nfa, w *Norm) *Cmp {
	a, e := act.normal(w), exp.normal(w)
	c := &Cmp{unknown: a.bad}
	type node struct {
		a, e   set
		prev   int
		letter string
	}
	nodes := []node{{a.closure([]int{a.start}), e.closure([]int{e.start}), -1, ""}}
	seen := map[string]bool{nodes[0].a.key + "|" + nodes[0].e.key: true}
	word := func(i int) []string {
		var w []string
		for ; i > 0; i = nodes[i].prev {
			w = append([]string{nodes[i].letter}, w...)
		}
		return w
	}
	live := map[string]int{}
	_ = live
	for i := 0; i < len(nodes); i++ {
		nd := nodes[i]
		aa, ee := a.acc(nd.a), e.acc(nd.e)
		if aa && !ee && !c.hasXtra {
			c.hasXtra, c.extra = true, word(i)
		}
		if ee && !aa && !c.hasMiss {
			c.hasMiss, c.missing = true, word(i)
		}
		if c.hasXtra && c.hasMiss {
			break
		}
		ls := map[string]bool{}
		a.letters(nd.a, ls)
		e.letters(nd.e, ls)
		for _, l := range sortedKeys(ls) {
			na, ne := a.move(nd.a, l), e.move(nd.e, l)
			if len(na.q) == 0 && len(ne.q) == 0 || len(na.q) == 0 && c.hasMiss || len(ne.q) == 0 && c.hasXtra {
				continue
			}
			k := na.key + "|" + ne.key
			if seen[k] {
				continue
			}
			seen[k] = true
			nodes = append(nodes, node{na, ne, i, l})
			if len(nodes) > 400000 {
				c.unknown = append(c.unknown, "comparison too large")
				c.states = len(nodes)
				return c
			}
		}
	}
	c.states = len(nodes)
	return c
}

func wordStr(w []string) string {
	s := strings.Join(w, "")
	return s
}

// diffAt describes where two words part.
func diffAt(act, exp []string) string {
	i := 0
	for i < len(act) && i < len(exp) && act[i] == exp[i] {
		i++
	}
	from := max(0, i-40)
	cut := func(w []string) string {
		t := min(len(w), i+60)
		if from > t {
			return ""
		}
		return strings.Join(w[from:t], "")
	}
	return fmt.Sprintf("expected …%s…, produced …%s…", cut(exp), cut(act))
}
