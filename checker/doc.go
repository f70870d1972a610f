package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// Documents of the analysis contexts: schemas of any number of tables and columns, described by classes. All text is in
// the notation of parseNotation, so a name may be an atom, a literal or a mixture.

type Ref struct{ Table, Column, Rel string }

type Col struct {
	Class                               string
	Star                                bool
	Min                                 int
	Name, Type, Desc, Default, OnUpdate string
	Size, Scale                         string
	NN, PK, UQ, AI                      bool
	Values                              []string // a trailing * repeats
	Ref                                 *Ref
}

type Idx struct {
	Class string
	Star  bool
	Name  string
	Cols  []string // a trailing * repeats
}

type Tab struct {
	Class                        string
	Star                         bool
	Min                          int
	Name, Desc, Group, ClassName string
	Cols                         []*Col
	Idx                          []*Idx
}

type Doc struct {
	Author, Name, Version string
	Tabs                  []*Tab
}

func nv(s string) Val {
	ps, err := parseNotation(s)
	if err != nil {
		panic(fmt.Sprintf("bad notation %q: %v", s, err))
	}
	for i, p := range ps {
		if x, ok := p.(*Sym); ok {
			ps[i] = &Sym{Name: x.Name, T: tString, Gen: true}
		}
	}
	return mkCat(ps...)
}

func nint(s string, t types.Type) Val {
	if s == "" {
		return I(0)
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return I(n)
	}
	return &Sym{Name: strings.Trim(s, "«»"), T: t, Pos: true}
}

func classPath(base, class string, star bool) string {
	if star {
		class += "*"
	}
	return base + "[" + class + "]"
}

func listOf(ctx *Ctx, path string, els []string) {
	sh := []ShapeItem{}
	for i, e := range els {
		star := strings.HasSuffix(e, "*")
		e = strings.TrimSuffix(e, "*")
		p := classPath(path, strconv.Itoa(i), star)
		ctx.Vals[p] = nv(e)
		sh = append(sh, ShapeItem{Names: []string{p}, Star: star})
	}
	ctx.Shapes[path] = sh
}

func (d *Doc) apply(ctx *Ctx, root string) {
	ctx.Vals[root+".author"] = nv(d.Author)
	ctx.Vals[root+".name"] = nv(d.Name)
	ctx.Vals[root+".version"] = nv(d.Version)
	tp := root + ".tables"
	shape := []ShapeItem{}
	for i, t := range d.Tabs {
		p := classPath(tp, orIdx(t.Class, "t", i), t.Star)
		shape = append(shape, ShapeItem{Names: []string{p}, Star: t.Star, Min: t.Min})
		ctx.Nils[p] = false
		ctx.Vals[p+".name"] = nv(t.Name)
		ctx.Vals[p+".desc"] = nv(t.Desc)
		ctx.Vals[p+".group"] = nv(t.Group)
		ctx.Vals[p+".className"] = nv(t.ClassName)
		csh := []ShapeItem{}
		for j, c := range t.Cols {
			q := classPath(p+".columns", orIdx(c.Class, "c", j), c.Star)
			csh = append(csh, ShapeItem{Names: []string{q}, Star: c.Star, Min: c.Min})
			c.apply(ctx, q)
		}
		ctx.Shapes[p+".columns"] = csh
		ish := []ShapeItem{}
		for j, x := range t.Idx {
			q := classPath(p+".indices", orIdx(x.Class, "i", j), x.Star)
			ish = append(ish, ShapeItem{Names: []string{q}, Star: x.Star})
			ctx.Vals[q+".name"] = nv(x.Name)
			listOf(ctx, q+".columns", x.Cols)
		}
		ctx.Shapes[p+".indices"] = ish
	}
	ctx.Shapes[tp] = shape
}

func (c *Col) apply(ctx *Ctx, q string) {
	ctx.Nils[q] = false
	for k, v := range map[string]string{"name": c.Name, "type": c.Type, "desc": c.Desc, "default": c.Default, "onupdate": c.OnUpdate} {
		ctx.Vals[q+"."+k] = nv(v)
	}
	ctx.Vals[q+".size"] = nint(c.Size, types.Typ[types.Uint16])
	ctx.Vals[q+".scale"] = nint(c.Scale, types.Typ[types.Uint16])
	for k, v := range map[string]bool{"notnull": c.NN, "pk": c.PK, "unique": c.UQ, "autoinc": c.AI} {
		ctx.Vals[q+"."+k] = B(v)
	}
	listOf(ctx, q+".values", c.Values)
	if c.Ref == nil {
		ctx.Nils[q+".ref"] = true
	} else {
		ctx.Nils[q+".ref"] = false
		ctx.Vals[q+".ref.table"] = nv(c.Ref.Table)
		ctx.Vals[q+".ref.column"] = nv(c.Ref.Column)
		ctx.Vals[q+".ref.relationship"] = nv(c.Ref.Rel)
	}
}

func orIdx(c, p string, i int) string {
	if c != "" {
		return c
	}
	return p + strconv.Itoa(i)
}

// mapDoc rewrites every text of the document.
func (d *Doc) subst(f func(string) string) *Doc {
	n := &Doc{f(d.Author), f(d.Name), f(d.Version), nil}
	fl := func(l []string) []string {
		var r []string
		for _, x := range l {
			if strings.HasSuffix(x, "*") {
				r = append(r, f(strings.TrimSuffix(x, "*"))+"*")
			} else {
				r = append(r, f(x))
			}
		}
		return r
	}
	for _, t := range d.Tabs {
		u := *t
		u.Name, u.Desc, u.Group, u.ClassName = f(t.Name), f(t.Desc), f(t.Group), f(t.ClassName)
		u.Cols, u.Idx = nil, nil
		if u.Star && !strings.Contains(u.Name, "«") {
			u.Star = false
		}
		for _, c := range t.Cols {
			e := *c
			e.Name, e.Desc, e.Default, e.OnUpdate = f(c.Name), f(c.Desc), f(c.Default), f(c.OnUpdate)
			e.Size, e.Scale = f(c.Size), f(c.Scale)
			if e.Star && !strings.Contains(e.Name, "«") {
				e.Star = false
			}
			e.Values = fl(c.Values)
			if c.Ref != nil {
				e.Ref = &Ref{f(c.Ref.Table), f(c.Ref.Column), c.Ref.Rel}
			}
			u.Cols = append(u.Cols, &e)
		}
		for _, x := range t.Idx {
			e := *x
			e.Name, e.Cols = f(x.Name), fl(x.Cols)
			if e.Star && !strings.Contains(e.Name, "«") {
				e.Star = false
			}
			u.Idx = append(u.Idx, &e)
		}
		n.Tabs = append(n.Tabs, &u)
	}
	return n
}

// Case is one analysis context of a command together with what it must produce.
type Case struct {
	Name     string
	Cmd      string
	Docs     map[string]*Doc
	Flags    map[string]string // notation; true/false for switches
	Set      func(c *Case, ctx *Ctx)
	Norm     *Norm
	Expect   func(c *Case) string // notation of the effects; "!error" when the command must fail
	Stdout   bool
	AnyOrder bool // the order of the output is not that of the input
	NoInst   bool // the input is not given by the documents
	NoLit    bool // do not follow comparisons with literals
	Only     func(e *Eff) bool
	Known    []KnownOut
	Sub      [][2]string // texts put in for atoms
	View     *View
	Fit      func(d *Doc) bool // whether the format can express the document
}

// trimming lists the commands that drop blanks around texts: their contexts have texts without any.
var trimming = map[string]bool{"import xlsx": true, "export xlsx": true, "import staruml": true}

func (c *Case) ctx() *Ctx {
	ctx := newCtx(c.Name)
	ctx.Default = genDefault
	for _, root := range sortedKeys(c.Docs) {
		c.Docs[root].apply(ctx, root)
		ctx.Vals["flag:"+root] = mkCat(&Sym{Name: "flag:" + root, T: tString, Gen: true}, S(".json"))
	}
	for k, v := range c.Flags {
		switch v {
		case "true", "false":
			ctx.Vals["flag:"+k] = B(v == "true")
		default:
			ctx.Vals["flag:"+k] = nv(v)
		}
	}
	if !trimming[c.Cmd] {
		ctx.Edges = map[string]bool{}
		for _, d := range c.Docs {
			d.subst(func(s string) string {
				for _, p := range strings.Split(s, "«")[1:] {
					if a, _, ok := strings.Cut(p, "»"); ok {
						ctx.Edges[a] = true
					}
				}
				return s
			})
		}
	}
	if c.Set != nil {
		c.Set(c, ctx)
	}
	return ctx
}

func (c *Case) subst(atom, lit string) *Case {
	f := func(s string) string { return strings.ReplaceAll(s, "«"+atom+"»", lit) }
	n := *c
	n.Name = c.Name + " with " + atom + "=" + lit
	n.Sub = append(append([][2]string{}, c.Sub...), [2]string{"«" + atom + "»", lit})
	n.Docs = map[string]*Doc{}
	for k, d := range c.Docs {
		n.Docs[k] = d.subst(f)
	}
	n.Flags = map[string]string{}
	for k, v := range c.Flags {
		n.Flags[k] = f(v)
	}
	return &n
}

// unroll gives every list exactly n elements of each repeated class.
func (d *Doc) unroll(n int) *Doc {
	mark := func(s string, i int) string { return strings.ReplaceAll(s, "»", "#"+strconv.Itoa(i)+"»") }
	fl := func(l []string) []string {
		var r []string
		for _, x := range l {
			if b, ok := strings.CutSuffix(x, "*"); ok {
				for i := 0; i < n; i++ {
					r = append(r, mark(b, i))
				}
			} else {
				r = append(r, x)
			}
		}
		return r
	}
	o := &Doc{d.Author, d.Name, d.Version, nil}
	for _, t := range d.Tabs {
		k := 1
		if t.Star {
			k = max(n, t.Min)
		}
		for i := 0; i < k; i++ {
			u := *t
			u.Star, u.Cols, u.Idx = false, nil, nil
			if t.Star {
				u.Class += "." + strconv.Itoa(i)
				for _, p := range []*string{&u.Desc, &u.ClassName} {
					*p = mark(*p, i)
				}
				if strings.Contains(u.Name, "«") {
					u.Name = fmt.Sprintf("t%02d", i)
				}
			}
			for _, c := range t.Cols {
				m := 1
				if c.Star {
					m = max(n, c.Min)
				}
				for j := 0; j < m; j++ {
					e := *c
					e.Star = false
					e.Values = fl(c.Values)
					if c.Star {
						e.Class += "." + strconv.Itoa(j)
						for _, p := range []*string{&e.Name, &e.Desc, &e.Default, &e.OnUpdate} {
							*p = mark(*p, j)
						}
					}
					u.Cols = append(u.Cols, &e)
				}
			}
			for _, x := range t.Idx {
				m := 1
				if x.Star {
					m = n
				}
				for j := 0; j < m; j++ {
					e := *x
					e.Star = false
					e.Cols = fl(x.Cols)
					if x.Star {
						e.Class += "." + strconv.Itoa(j)
						e.Name = mark(e.Name, j)
					}
					u.Idx = append(u.Idx, &e)
				}
			}
			o.Tabs = append(o.Tabs, &u)
		}
	}
	return o
}

// valid: names are unique where the format requires it.
func (d *Doc) valid() bool {
	ts := map[string]bool{}
	for _, t := range d.Tabs {
		if ts[t.Name] {
			return false
		}
		ts[t.Name] = true
		cs := map[string]bool{}
		for _, c := range t.Cols {
			if cs[c.Name] {
				return false
			}
			cs[c.Name] = true
		}
		is := map[string]bool{}
		for _, x := range t.Idx {
			if is[x.Name] {
				return false
			}
			is[x.Name] = true
		}
	}
	return true
}

func (c *Case) unroll(n int) *Case {
	m := *c
	m.Name = fmt.Sprintf("%s with %d elements", c.Name, n)
	m.Docs = map[string]*Doc{}
	for k, d := range c.Docs {
		m.Docs[k] = d.unroll(n)
	}
	return &m
}

var optionWord = regexp.MustCompile(`^[A-Za-z0-9_]+$`)

// follow lists the contexts that a comparison met in this one calls for.
func (c *Case) follow(l string) []*Case {
	f := strings.SplitN(l, "|", 3)
	kind, atom, arg := f[0], f[1], f[2]
	if kind == "count" {
		n, _ := strconv.Atoi(arg)
		var r []*Case
		for i := max(0, n-2); i <= n+1 && i <= 80; i++ {
			r = append(r, c.unroll(i))
		}
		return r
	}
	inDocs, inFlags := c.has(atom)
	if inFlags && !inDocs && !optionWord.MatchString(arg) {
		return nil // the structure of an option is given by the case
	}
	if !inDocs && !inFlags || strings.HasPrefix(atom, "flag:") || strings.ContainsAny(arg, "⟦⟧‹›¦⟪⟫«»") {
		return nil
	}
	var lits []string
	if strings.HasPrefix(atom, "s_") {
		// snake-case atoms are replaced by whole names
		switch kind {
		case "prefix":
			kind, lits = "", []string{arg + "abc", arg, strings.ToLower(arg) + "_abc", strings.ToLower(arg) + "_abc_" + strings.ToLower(arg)}
		case "suffix":
			kind, lits = "", []string{"abc" + arg, arg, "abc_" + strings.ToLower(arg), strings.ToLower(arg), strings.ToLower(arg) + "_abc_" + strings.ToLower(arg)}
		case "contains":
			kind, lits = "", []string{"abc" + arg + "def", arg, strings.ToLower(arg) + "_abc_" + strings.ToLower(arg) + "_def"}
		case "any":
			kind, lits = "", []string{"abc", "x_y_z", "Abc", "q1", "1abc", "12", "xY"}
		}
	}
	switch kind {
	case "fragment":
		a := strings.ToLower(arg)
		lits = []string{a, "abc_" + a, a + "_abc", a + "_abc_" + a, "abc_" + a + "_def_" + a + "ghi"}
	case "prefix":
		lits = []string{arg + "«" + atom + "'»", arg}
	case "suffix":
		lits = []string{"«" + atom + "'»" + arg, arg}
	case "contains":
		lits = []string{"«" + atom + "'»" + arg + "«" + atom + "\"»", arg}
	case "eq":
		lits = []string{arg}
	case "int":
		n, _ := strconv.Atoi(arg)
		for i := n - 1; i <= n+1; i++ {
			if i >= 1 && i <= 65535 {
				lits = append(lits, strconv.Itoa(i))
			}
		}
	case "len":
		n, _ := strconv.Atoi(arg)
		for i := n - 1; i <= n+1; i++ {
			if i >= 1 && i <= 300 {
				lits = append(lits, strings.Repeat("n", i))
			}
		}
	case "any":
		if c.isNum(atom) {
			for _, i := range []int{1, 2, 3, 7, 8, 255, 256, 65535} {
				lits = append(lits, strconv.Itoa(i))
			}
		} else {
			lits = []string{"abc", "x_y_z", "Abc", "q1"}
		}
	case "pair":
		if b, f := c.has(arg); !b && !f {
			return nil
		}
		var ps [][2]string
		switch {
		case c.isNum(atom) && c.isNum(arg):
			ps = [][2]string{{"5", "5"}, {"5", "3"}, {"3", "5"}}
		case c.isNum(atom) || c.isNum(arg):
			return nil
		default:
			ps = [][2]string{{"same", "same"}, {"abc", "abd"}, {"abd", "abc"}}
		}
		var r []*Case
		for _, p := range ps {
			r = append(r, c.subst(atom, p[0]).subst(arg, p[1]))
		}
		return r
	}
	var r []*Case
	for _, l := range lits {
		r = append(r, c.subst(atom, l))
	}
	return r
}

func (c *Case) isNum(atom string) bool {
	for _, d := range c.Docs {
		for _, t := range d.Tabs {
			for _, x := range t.Cols {
				if strings.Contains(x.Size+x.Scale, "«"+atom+"»") {
					return true
				}
			}
		}
	}
	return false
}

func (c *Case) doc() *Doc { return c.Docs["input"] }

// It is an item of a list in an expected output.
type It struct {
	Text string
	Star bool
	Min  int
}

// joinIts is the notation of a separated list.
func joinIts(items []It, sep string) string {
	// from item i on, given that something precedes (pre) or not
	var gen func(i int, pre bool) string
	gen = func(i int, pre bool) string {
		if i == len(items) {
			return ""
		}
		x := items[i]
		s := ""
		if pre {
			s = sep
		}
		if !x.Star {
			return s + x.Text + gen(i+1, true)
		}
		if pre {
			m := "*"
			if x.Min > 0 {
				m = "+"
			}
			return "⟦" + sep + x.Text + "⟧" + m + gen(i+1, true)
		}
		some := x.Text + "⟦" + sep + x.Text + "⟧*" + gen(i+1, true)
		if x.Min > 0 {
			return some
		}
		return "‹" + gen(i+1, false) + "¦" + some + "›"
	}
	return gen(0, false)
}

func star(s string, st bool, min int) string {
	if !st {
		return s
	}
	if min > 0 {
		return "⟦" + s + "⟧+"
	}
	return "⟦" + s + "⟧*"
}

func eachTab(d *Doc, f func(t *Tab) string) string {
	var sb strings.Builder
	for _, t := range d.Tabs {
		s := f(t)
		sb.WriteString(star(s, t.Star, t.Min))
	}
	return sb.String()
}

func eachCol(t *Tab, f func(c *Col) string) string {
	var sb strings.Builder
	for _, c := range t.Cols {
		s := f(c)
		if s != "" {
			sb.WriteString(star(s, c.Star, c.Min))
		}
	}
	return sb.String()
}

func colIts(t *Tab, f func(c *Col) string) []It {
	var r []It
	for _, c := range t.Cols {
		if s := f(c); s != "" {
			r = append(r, It{s, c.Star, c.Min})
		}
	}
	return r
}

func strIts(l []string, f func(string) string) []It {
	var r []It
	for _, s := range l {
		st := strings.HasSuffix(s, "*")
		r = append(r, It{f(strings.TrimSuffix(s, "*")), st, 0})
	}
	return r
}

func writes(path, content string) string { return "⟪" + path + "⟫" + content }

// outFile is a write of the whole output to the requested path.
func outFile(content string) string { return writes("«flag:output»", content) }

var instWords = []string{"mid", "alp", "zet", "kap", "bet", "yin", "jot", "cat", "xen", "ink", "dot", "wax", "hex", "egg", "van", "gum", "fig", "urn", "sun", "oak", "lid", "pet", "rod", "tin", "net", "bag", "cup", "hat", "ice", "jar"}

// instance is the case with n elements in every repeated list and given names; tables keep their order, columns are not
// in the order of their names.
func (c *Case) instance(n int) *Case {
	m := c.unroll(n)
	lit := map[string]string{}
	var order []string
	cnt := map[string]int{}
	add := func(s, kind string) {
		for {
			i := strings.Index(s, "«")
			if i < 0 {
				return
			}
			j := strings.Index(s[i:], "»")
			if j < 0 {
				return
			}
			a := s[i+len("«") : i+j]
			s = s[i+j+len("»"):]
			if _, ok := lit[a]; ok || strings.HasPrefix(a, "flag:") || strings.Contains(a, "(") {
				continue
			}
			x := cnt[kind]
			cnt[kind]++
			w := instWords[x%len(instWords)]
			if x >= len(instWords) {
				w += instWords[x/len(instWords)%len(instWords)]
			}
			switch kind {
			case "table":
				w = "t" + string(rune('a'+x/26%26)) + string(rune('a'+x%26)) + "_" + w
			case "class":
				w = strings.ToUpper(w[:1]) + w[1:] + "Class"
			case "group":
				w = "g" + string(rune('a'+x%26)) + w
			case "index":
				w = "ix_" + w
			case "size":
				w = strconv.Itoa(20 + x)
			case "scale":
				w = strconv.Itoa(3 + x)
			case "number":
				w = strconv.Itoa(7 + x)
			case "text":
				w = "Text of " + w
			case "value":
				w = "v" + w
			}
			lit[a] = w
			order = append(order, a)
		}
	}
	var ds []*Doc
	for _, k := range sortedKeys(m.Docs) {
		ds = append(ds, m.Docs[k])
	}
	for _, d := range ds {
		for _, t := range d.Tabs {
			add(t.Name, "table")
			add(t.Group, "group")
			add(t.ClassName, "class")
		}
	}
	for _, d := range ds {
		for _, t := range d.Tabs {
			for _, c := range t.Cols {
				add(c.Name, "column")
				add(c.Size, "size")
				add(c.Scale, "scale")
				for _, v := range c.Values {
					add(v, "value")
				}
				add(c.Default, "number")
				add(c.OnUpdate, "number")
				add(c.Desc, "text")
				if c.Ref != nil {
					add(c.Ref.Table, "table")
					add(c.Ref.Column, "column")
				}
			}
			for _, x := range t.Idx {
				add(x.Name, "index")
				for _, e := range x.Cols {
					add(e, "column")
				}
			}
			add(t.Desc, "text")
		}
		add(d.Author+d.Name+d.Version, "text")
	}
	for _, f := range sortedKeys(m.Flags) {
		add(m.Flags[f], "option")
	}
	for _, a := range order {
		m = m.subst(a, lit[a])
	}
	m.Name = c.Name + ", instance of size " + strconv.Itoa(n)
	return m
}
