package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Rules about all commands: documents, normalisation, validation, selection, order, effects.

// ---- octopus documents ----

func q(s string) string { return "\"" + s + "\"" }

func docOpt(b *strings.Builder, key, v string) {
	if v != "" {
		b.WriteString(key + ":" + q(v) + " ")
	}
}

func docBool(b *strings.Builder, key string, v bool) {
	if v {
		b.WriteString(key + ":true ")
	}
}

func docList(l []string) string {
	r := ""
	for _, s := range l {
		r += star(q(strings.TrimSuffix(s, "*"))+" ", strings.HasSuffix(s, "*"), 0)
	}
	return "[" + r + "]"
}

// optList is a list that is left out when it is empty.
func optList(key string, items []It) string {
	if len(items) == 0 {
		return ""
	}
	body, empty := "", true
	for _, x := range items {
		body += star(x.Text, x.Star, x.Min)
		empty = empty && x.Star && x.Min == 0
	}
	if !empty {
		return key + ":[" + body + "] "
	}
	if len(items) > 1 {
		panic("optList")
	}
	return "‹¦" + key + ":[" + star(items[0].Text, true, 1) + "] ›"
}

func docCol(c *Col) string {
	var b strings.Builder
	docBool(&b, "autoinc", c.AI && isIntType8(canonical(c.Type)))
	docOpt(&b, "default", c.Default)
	docOpt(&b, "desc", c.Desc)
	b.WriteString("name:" + q(c.Name) + " ")
	docBool(&b, "notnull", c.NN)
	docOpt(&b, "onupdate", c.OnUpdate)
	docBool(&b, "pk", c.PK)
	if c.Ref != nil {
		b.WriteString("ref:{")
		docOpt(&b, "column", c.Ref.Column)
		docOpt(&b, "relationship", c.Ref.Rel)
		docOpt(&b, "table", c.Ref.Table)
		b.WriteString("} ")
	}
	if c.Scale != "" {
		b.WriteString("scale:" + c.Scale + " ")
	}
	if c.Size != "" {
		b.WriteString("size:" + c.Size + " ")
	}
	b.WriteString("type:" + q(canonical(c.Type)) + " ")
	docBool(&b, "unique", c.UQ)
	b.WriteString(optList("values", strIts(c.Values, func(s string) string { return q(s) + " " })))
	return "{" + b.String() + "} "
}

func docTab(t *Tab) string {
	var b strings.Builder
	docOpt(&b, "className", t.ClassName)
	b.WriteString(optList("columns", colIts(t, docCol)))
	docOpt(&b, "desc", t.Desc)
	docOpt(&b, "group", t.Group)
	var ix []It
	for _, x := range t.Idx {
		ix = append(ix, It{"{columns:" + docList(x.Cols) + " name:" + q(x.Name) + " } ", x.Star, 0})
	}
	b.WriteString(optList("indices", ix))
	docOpt(&b, "name", t.Name)
	return "{" + b.String() + "} "
}

// docText is the octopus document of d, keys sorted, tables in their defined order.
func docText(d *Doc) string {
	var b strings.Builder
	docOpt(&b, "author", d.Author)
	docOpt(&b, "name", d.Name)
	var ts []It
	for _, t := range sortedDoc(d).Tabs {
		ts = append(ts, It{docTab(t), t.Star, t.Min})
	}
	b.WriteString(optList("tables", ts))
	docOpt(&b, "version", d.Version)
	return "{" + b.String() + "}"
}

// sortedDoc puts tables with literal names in their defined order: by group, then by name.
func sortedDoc(d *Doc) *Doc {
	for _, t := range d.Tabs {
		if strings.Contains(t.Group+t.Name, "«") {
			return d
		}
	}
	n := *d
	n.Tabs = append([]*Tab{}, d.Tabs...)
	sort.SliceStable(n.Tabs, func(i, j int) bool {
		a, b := n.Tabs[i], n.Tabs[j]
		return a.Group < b.Group || a.Group == b.Group && a.Name < b.Name
	})
	return &n
}

var aliases = map[string]string{
	"string": "varchar", "tinyint": "int8", "smallint": "int16", "mediumint": "int24", "int": "int32", "integer": "int32",
	"bigint": "int64", "long": "int64", "numeric": "decimal", "real": "double", "timestamp": "datetime",
	"tinyblob": "blob8", "blob": "blob16", "mediumblob": "blob24", "longblob": "blob32",
	"tinytext": "text8", "text": "text16", "mediumtext": "text24", "longtext": "text32",
}

func canonical(t string) string {
	t = strings.ToLower(t)
	if c, ok := aliases[t]; ok {
		return c
	}
	return t
}

func isCanonical(t string) bool {
	for _, m := range mysqlTypes {
		if m.Name == t {
			return true
		}
	}
	return false
}

// docValid tells whether a document is acceptable.
func docValid(d *Doc) bool {
	for _, t := range d.Tabs {
		for _, c := range t.Cols {
			ty := canonical(c.Type)
			n := 0
			for _, v := range c.Values {
				if !strings.HasSuffix(v, "*") {
					n++
				}
			}
			if c.Name == "" || !isCanonical(ty) || ty == "set" && (n < 1 || n > 64) || ty == "enum" && n < 1 {
				return false
			}
		}
	}
	return true
}

func docExpect(c *Case) string {
	if !docValid(c.doc()) {
		return "!error"
	}
	return outFile(docText(c.doc()))
}

// ---- commands ----

// loading lists the commands that load octopus documents.
func (k *Check) loading() []string {
	var r []string
	for _, c := range sortedKeys(k.prog.cmds) {
		for _, p := range []string{"export ", "generate ", "diff "} {
			if strings.HasPrefix(c, p) {
				r = append(r, c)
			}
		}
	}
	return r
}

func (k *Check) hasFlag(cmd, flag string) bool {
	c := k.prog.cmds[cmd]
	if c == nil {
		return false
	}
	for _, f := range c.Flags {
		for _, n := range f.Names {
			if n == flag {
				return true
			}
		}
	}
	return false
}

// outputs are the kinds of output path a command distinguishes.
func outputs(cmd string) []string {
	switch cmd {
	case "generate gorm":
		return []string{"«OUT».go", "«OUT»/dir"}
	case "generate graphql":
		return []string{"«OUT»/dir"}
	case "generate kt":
		return []string{"«OUT»/dir"}
	case "generate plantuml":
		return []string{"«OUT».puml", "«OUT»/dir"}
	case "generate sqlalchemy":
		return []string{"«OUT».py", "«OUT»/dir"}
	}
	return []string{"«flag:output»"}
}

// accepts: the command has no failing outcome.
func (k *Check) accepts(c *Case) {
	construct := k.entry(c.Cmd)
	r, err := k.analyse(c.Cmd, c.ctx())
	if err != nil {
		k.undecided(construct, c.Name, "%v", err)
		return
	}
	good, bad := r.split()
	why, crashed := r.crash()
	k.oblige(len(good) > 0 && len(bad) == 0 && !crashed, construct, c.Name, "the document is not accepted %s", why)
}

// spelledOutputs are other forms of outputs that name a single file.
func spelledOutputs(cmd string) []string {
	var l []string
	switch cmd {
	case "generate gorm":
		l = []string{".GO", ".Go", ".x.go"}
	case "generate plantuml":
		for _, e := range []string{"wsd", "pu", "puml", "plantuml", "iuml"} {
			l = append(l, "."+e, "."+strings.ToUpper(e))
		}
	case "generate sqlalchemy":
		l = []string{".PY", ".Py", ".x.py"}
	}
	for i := range l {
		l[i] = "«OUT»" + l[i]
	}
	return l
}

// loadCase is a case of a document loading command.
func loadCase(cmd, name string, d *Doc, flags map[string]string) *Case {
	c := &Case{Name: name, Cmd: cmd, Norm: normCode, Flags: map[string]string{}, Docs: map[string]*Doc{"input": d}}
	if strings.HasPrefix(cmd, "diff ") {
		c.Docs = map[string]*Doc{"from": {Version: "«V0»"}, "to": d}
	}
	if cmd != docCmd {
		c.Flags["output"] = outputs(cmd)[0]
	}
	for k, v := range flags {
		c.Flags[k] = v
	}
	return c
}

// same obliges two cases of one command to have the same outcome.
func (k *Check) same(a, b *Case) {
	construct := k.entry(a.Cmd)
	ra, err := k.analyse(a.Cmd, a.ctx())
	if err != nil {
		k.undecided(construct, a.Name, "%v", err)
		return
	}
	rb, err := k.analyse(b.Cmd, b.ctx())
	if err != nil {
		k.undecided(construct, b.Name, "%v", err)
		return
	}
	oka, bada := ra.split()
	okb, badb := rb.split()
	imprecise := len(ra.in.undecided)+len(ra.in.problems)+len(rb.in.undecided)+len(rb.in.problems) > 0
	notes := func() string {
		var u []string
		for _, r := range []*Result{ra, rb} {
			for _, p := range sortedKeys(r.in.undecided) {
				u = append(u, p+": "+r.in.undecided[p])
			}
			u = append(u, r.in.problemList()...)
		}
		return cut(strings.Join(u, "; "), 600)
	}
	if (len(oka) > 0) != (len(okb) > 0) || (len(bada) > 0) != (len(badb) > 0) {
		if imprecise && len(oka) > 0 && len(okb) > 0 {
			k.undecided(construct, a.Name, "%s", notes())
			return
		}
		show := func(ok, bad []*Outcome) string {
			switch {
			case len(ok) > 0 && len(bad) > 0:
				return "may fail"
			case len(ok) > 0:
				return "succeeds"
			case len(bad) > 0:
				return "fails: " + renderParts(bad[0].vals)
			}
			return "does not return"
		}
		k.oblige(false, construct, a.Name, "the command %s, but for %s it %s", show(oka, bada), b.Name, show(okb, badb))
		return
	}
	if len(oka) == 0 {
		k.oblige(true, construct, a.Name, "")
		return
	}
	ea, eb := ra.effects(oka), rb.effects(okb)
	if a.Only != nil {
		ea, eb = filterEff(ea, a.Only), filterEff(eb, a.Only)
	}
	if !imprecise && len(ea) > 0 && partsKey(ea) == partsKey(eb) && os.Getenv("OCT_DUMP") == "" {
		k.mu.Lock()
		k.States++
		k.mu.Unlock()
		k.oblige(true, construct, a.Name, "")
		return
	}
	na, nb := nfaOfParts(ea), nfaOfParts(eb)
	var cmp *Cmp
	timed("compare "+a.Cmd, func() { cmp = compareLang(na, nb, a.Norm) })
	if d := os.Getenv("OCT_DUMP"); d != "" && strings.Contains(a.Name, d) {
		fmt.Println("=== " + a.Cmd + " | " + a.Name + "\n" + cut(ra.dump(), 6000) + "\n--- " + b.Name + "\n" + cut(rb.dump(), 6000))
	}
	k.mu.Lock()
	k.States += cmp.states
	if len(k.Samples) < 8 {
		k.Samples = append(k.Samples, a.Cmd+" | "+a.Name+" = "+b.Name)
	}
	k.mu.Unlock()
	site := construct
	if p := writePos(ea); p != "" {
		site = p + " reached from " + construct
	}
	switch {
	case !cmp.hasMiss && !cmp.hasXtra && len(cmp.unknown) == 0 && !imprecise:
		k.oblige(true, construct, a.Name, "")
	case (cmp.hasMiss || cmp.hasXtra) && !imprecise && len(cmp.unknown) == 0:
		w, n := cmp.missing, na
		if !cmp.hasMiss {
			w, n = cmp.extra, nb
		}
		k.oblige(false, site, a.Name, "the output differs from that for %s: %s", b.Name, cut(around(w, n, a.Norm), 500))
	default:
		k.undecided(construct, a.Name, "%s %s", strings.Join(cmp.unknown, "; "), notes())
	}
}

func (k *Check) each(n int, f func(i int)) {
	sem := make(chan bool, 8)
	done := make(chan bool)
	for i := 0; i < n; i++ {
		go func(i int) {
			sem <- true
			f(i)
			<-sem
			done <- true
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
}

func (k *Check) sames(ps [][2]*Case) {
	if f := os.Getenv("OCT_CMD"); f != "" { // debugging aid
		var r [][2]*Case
		for _, p := range ps {
			if strings.Contains(p[0].Cmd+" "+p[0].Name, f) {
				r = append(r, p)
			}
		}
		ps = r
	}
	k.each(len(ps), func(i int) { k.same(ps[i][0], ps[i][1]) })
}

func caseForms(s string) []string {
	alt := []byte(s)
	for i := range alt {
		if i%2 == 1 {
			alt[i] = strings.ToUpper(s)[i]
		}
	}
	m := map[string]bool{s: true, strings.ToUpper(s): true, strings.ToUpper(s[:1]) + s[1:]: true, string(alt): true}
	return sortedKeys(m)
}

func values(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("v%d", i))
	}
	return r
}

func colOfType(t string) *Col {
	c := &Col{Class: "c", Name: "ccc", Type: t}
	if s := canonical(t); s == "enum" || s == "set" {
		c.Values = []string{"v0", "v1"}
	}
	return c
}

// a complete little schema; tables in the order of perm
func sampleTabs() []*Tab {
	id := func() *Col {
		return &Col{Class: "id", Name: "id", Type: "int64", PK: true, NN: true, AI: true, Desc: "unique id"}
	}
	return []*Tab{
		{Class: "a", Name: "alpha", Group: "ga", Desc: "First", Cols: []*Col{id(), {Class: "n", Name: "name", Type: "varchar", Size: "40", UQ: true, NN: true, Desc: "the name"}, {Class: "z", Name: "zip", Type: "int32"}, {Class: "y", Name: "code", Type: "char", Size: "2"}}},
		{Class: "b", Name: "beta", Group: "ga", Cols: []*Col{id(), {Class: "r", Name: "alpha_id", Type: "int64", Ref: &Ref{"alpha", "id", "n:1"}}, {Class: "d", Name: "price", Type: "decimal", Size: "10", Scale: "2", Default: "0"}}, Idx: []*Idx{{Class: "x", Name: "beta_idx", Cols: []string{"alpha_id", "price"}}}},
		{Class: "g", Name: "gamma", Group: "gb", ClassName: "Third", Cols: []*Col{{Class: "k1", Name: "k1", Type: "int32", PK: true, NN: true}, {Class: "k2", Name: "k2", Type: "int32", PK: true, NN: true}, {Class: "e", Name: "kind", Type: "enum", Values: []string{"x", "y"}}}},
		{Class: "h", Name: "aaa", Group: "gb", Cols: []*Col{id(), {Class: "t", Name: "created_at", Type: "datetime", Default: "fn::NOW"}}},
	}
}

func init() {
	checks["C06"] = func(k *Check) {
		k.rule("the document written by ToFile after LoadSchema is compared, as a language over all schemas, with the document that was read, under the documented keys, for every attribute.")
		cs := allCases(docCmd, normExact, docExpect, nil)
		for _, c := range mysqlExportCases() {
			cs = append(cs, &Case{Name: "column " + c.Name, Cmd: docCmd, Norm: normExact, Docs: c.Docs, Expect: docExpect})
		}
		full := &Doc{Author: "«AU»", Name: "«NM»", Version: "«VER»", Tabs: []*Tab{{Class: "t", Star: true, Name: "«T»", Desc: "«TD»", Group: "«G»", ClassName: "«CN»",
			Cols: []*Col{pkCol("«ID»"), {Class: "m", Star: true, Name: "«C»", Type: "varchar", Size: "«SZ»", Desc: "«D»", Ref: &Ref{"«RT»", "«RC»", "n:1"}}},
			Idx:  []*Idx{{Class: "x", Name: "«IX»", Cols: []string{"«IC1»", "«IC»*", "«IC2»"}}, {Class: "s", Star: true, Name: "«IS»", Cols: []string{"«IC3»"}}}}}}
		cs = append(cs, &Case{Name: "every attribute", Cmd: docCmd, Norm: normExact, Docs: map[string]*Doc{"input": full}, Expect: docExpect})
		for i := 1; i < 8; i++ {
			d := &Doc{}
			if i&1 > 0 {
				d.Author = "«AU»"
			}
			if i&2 > 0 {
				d.Name = "«NM»"
			}
			if i&4 > 0 {
				d.Version = "«VER»"
			}
			d.Tabs = sampleTabs()
			cs = append(cs, &Case{Name: fmt.Sprintf("schema attributes %d", i), Cmd: docCmd, Norm: normExact, Docs: map[string]*Doc{"input": d}, Expect: docExpect})
		}
		cs = append(cs, mixedCases(docCmd, normExact, docExpect, nil, mysqlTypes, 300)...)
		k.cases(cs)
	}
	checks["C07"] = func(k *Check) {
		k.rule("for every documented alias and canonical type name in several letter cases, the document saved after loading names the canonical type, and every command that loads a schema gives the same result as for the canonical name.")
		var cs []*Case
		var ps [][2]*Case
		all := map[string]bool{}
		for a := range aliases {
			all[a] = true
		}
		for _, t := range mysqlTypes {
			all[t.Name] = true
		}
		for _, a := range sortedKeys(all) {
			for _, f := range caseForms(a) {
				for _, ai := range []bool{false, true} {
					c := colOfType(f)
					c.AI, c.Star, c.Min, c.Name = ai, true, 1, "«C»"
					cs = append(cs, &Case{Name: fmt.Sprintf("type %s, autoinc %v", f, ai), Cmd: docCmd, Norm: normExact,
						Docs: docOf(&Tab{Class: "t", Star: true, Name: "«T»", Cols: []*Col{pkCol("«A»"), c, {Class: "z", Name: "«Z»", Type: "int32"}}}), Expect: docExpect})
				}
				if f == canonical(f) {
					continue
				}
				mk := func(cmd, ty string, from bool) *Case {
					c := colOfType(ty)
					c.Size, c.Scale, c.Desc, c.Default = "9", "2", "desc", "5"
					d := &Doc{Version: "«V1»", Tabs: []*Tab{{Class: "t", Name: "ttt", Cols: []*Col{pkCol("id"), c}}}}
					x := loadCase(cmd, "type "+ty, d, nil)
					if from {
						e := *c
						e.Size = "8"
						x.Docs["from"] = &Doc{Version: "«V0»", Tabs: []*Tab{{Class: "t", Name: "ttt", Cols: []*Col{pkCol("id"), &e}}}}
					}
					return x
				}
				for _, cmd := range k.loading() {
					ps = append(ps, [2]*Case{mk(cmd, f, false), mk(cmd, canonical(f), false)})
					if strings.HasPrefix(cmd, "diff ") {
						ps = append(ps, [2]*Case{mk(cmd, f, true), mk(cmd, canonical(f), true)})
					}
				}
			}
		}
		k.cases(cs)
		k.sames(ps)
	}
	checks["C08"] = func(k *Check) {
		k.rule("for every loading command and for loading and saving a document: each kind of invalid column, in any position, makes the command fail on every path; each boundary of validity is accepted; auto-increment is kept exactly on integer types.")
		var cs []*Case
		type bad struct {
			name string
			col  *Col
		}
		var bads []bad
		for _, t := range []string{"", "unknown", "varchar2", "int128", "int 32", "int4", "float8", "texts", "char "} {
			bads = append(bads, bad{fmt.Sprintf("type %q", t), &Col{Class: "c", Name: "ccc", Type: t}})
		}
		for _, t := range mysqlTypes {
			c := colOfType(t.Name)
			c.Name = ""
			bads = append(bads, bad{"no name, type " + t.Name, c})
		}
		for _, n := range []int{0, 65, 66, 100} {
			bads = append(bads, bad{fmt.Sprintf("set with %d values", n), &Col{Class: "c", Name: "ccc", Type: "set", Values: values(n)}})
		}
		same, blank, twice := values(65), values(65), values(66)
		for i := range same {
			same[i] = "v"
			if i%2 > 0 {
				blank[i] = ""
			}
		}
		twice[65] = twice[0]
		for n, l := range map[string][]string{"equal": same, "empty": blank, "repeated": twice[1:], "repeated first": append([]string{"v0"}, values(64)...)} {
			bads = append(bads, bad{"set with 65 values, some " + n, &Col{Class: "c", Name: "ccc", Type: "set", Values: l}})
		}
		bads = append(bads, bad{"SET with 65 values", &Col{Class: "c", Name: "ccc", Type: "SET", Values: values(65)}})
		bads = append(bads, bad{"enum without values", &Col{Class: "c", Name: "ccc", Type: "enum"}}, bad{"Enum without values", &Col{Class: "c", Name: "ccc", Type: "Enum"}})
		for _, b := range bads[:len(bads):len(bads)] {
			c := *b.col
			c.Desc, c.Default, c.OnUpdate, c.Size, c.NN, c.PK, c.UQ = "d", "fn::now", "fn::now", "20", true, true, true
			bads = append(bads, bad{b.name + ", with attributes", &c})
			e := c
			e.AI, e.Default, e.Scale = true, "1", "3"
			e.Ref = &Ref{"tt", "aa", "n:1"}
			bads = append(bads, bad{b.name + ", with auto-increment", &e})
		}
		good := func(n string) *Col { return &Col{Class: n, Name: n, Type: "int32"} }
		expErr := func(*Case) string { return "!error" }
		for _, b := range bads {
			for pos := 0; pos < 3; pos++ {
				c1, c2 := []*Col{good("aa"), good("bb")}, []*Col{good("aa"), good("bb")}
				switch pos {
				case 0:
					c1 = append([]*Col{b.col}, c1...)
				case 1:
					c1 = append(c1, b.col)
				case 2:
					c2 = append(c2, b.col)
				}
				d := &Doc{Tabs: []*Tab{{Class: "t", Name: "tt", Cols: c1}, {Class: "u", Name: "uu", Group: "g", Cols: c2}}}
				cs = append(cs, &Case{Name: b.name + fmt.Sprintf(" at %d", pos), Cmd: docCmd, Docs: map[string]*Doc{"input": d}, Expect: expErr, NoLit: true})
				if strings.Contains(b.name, ", with") && pos != 1 {
					continue
				}
				for _, cmd := range k.loading() {
					x := loadCase(cmd, fmt.Sprintf("%s at %d", b.name, pos), d, nil)
					x.Expect, x.NoLit = expErr, true
					cs = append(cs, x)
					if strings.HasPrefix(cmd, "diff ") {
						x := loadCase(cmd, fmt.Sprintf("%s at %d in from", b.name, pos), &Doc{}, nil)
						x.Docs["from"] = d
						x.Expect, x.NoLit = expErr, true
						cs = append(cs, x)
					}
				}
			}
		}
		ok := func(n string, c *Col) {
			cs = append(cs, &Case{Name: n, Cmd: docCmd, Norm: normExact, Expect: docExpect,
				Docs: docOf(&Tab{Class: "t", Name: "tt", Cols: []*Col{good("aa"), c, good("bb")}}, &Tab{Class: "u", Name: "uu"})})
		}
		for _, t := range mysqlTypes {
			for _, f := range caseForms(t.Name) {
				c := colOfType(f)
				c.AI = true
				ok("autoinc "+f, c)
				c = colOfType(f)
				c.Name = "«C»"
				ok("name "+f, c)
			}
			if t.Name != "set" && t.Name != "enum" {
				c := colOfType(t.Name)
				c.Values = values(70)
				ok("values of "+t.Name, c)
			}
		}
		for _, ext := range []string{".JSON", ".Json", ".x.json"} {
			for _, cmd := range k.loading() {
				x := loadCase(cmd, "document named *"+ext, &Doc{Version: "«V1»", Tabs: []*Tab{{Class: "t", Name: "tt", Cols: []*Col{good("aa")}}}}, nil)
				y := x.withSet(func(ctx *Ctx) {
					for n := range x.Docs {
						ctx.Vals["flag:"+n] = mkCat(&Sym{Name: "flag:" + n, T: tString, Gen: true}, S(ext))
					}
				})
				k.accepts(y)
			}
		}
		for _, n := range []int{1, 2, 33, 63, 64} {
			ok(fmt.Sprintf("set with %d values", n), &Col{Class: "c", Name: "ccc", Type: "set", Values: values(n)})
		}
		for _, n := range []int{1, 2, 64, 65, 100} {
			ok(fmt.Sprintf("enum with %d values", n), &Col{Class: "c", Name: "ccc", Type: "enum", Values: values(n)})
		}
		for _, t := range []string{"set", "enum"} {
			for i, l := range [][]string{{""}, {"", ""}, {"a", "a"}, {"", "a"}, {"a", "", "b"}, {" "}, {"a,b"}, {"A", "a"}, append(values(63), ""), append(values(63), "v0")} {
				ok(fmt.Sprintf("%s with values %d", t, i), &Col{Class: "c", Name: "ccc", Type: t, Values: l})
			}
		}
		k.cases(cs)
	}
	checks["C09"] = func(k *Check) {
		k.rule("for every command with a groups option and every selection, the result equals the result, without the option, for the document that holds exactly the tables of the listed groups.")
		var ps [][2]*Case
		groups := []string{"ga", "gb", "gab", "GA", "", "a b"}
		others := []string{"ga.x", "ga/x", "ga-x", "ga_x", "x.ga", "g*", "*", ".*", "%", "ga;gb", "ga|gb", "ga1", "Ga", "a", "b", "zz,", "gaga", "g"}
		tabs := func(sel map[string]bool, rev bool) []*Tab {
			var r []*Tab
			for i, g := range append(groups, others...) {
				for j := 0; j < 2 && (j == 0 || i < len(groups)); j++ {
					if sel != nil && !sel[g] {
						continue
					}
					n := fmt.Sprintf("t%d%d", i, j)
					t := &Tab{Class: n, Name: n, Group: g, Desc: "d" + n, Cols: []*Col{pkCol("id" + n), {Class: "n", Name: "name" + n, Type: "varchar", Size: "20", UQ: true, Desc: "«D»"}, {Class: "z", Name: "last" + n, Type: "int32"}}}
					if j == 1 {
						t.Cols = append(t.Cols, &Col{Class: "r", Name: "ref" + n, Type: "int64", Ref: &Ref{fmt.Sprintf("t%d0", i), fmt.Sprintf("idt%d0", i), "n:1"}})
					}
					if rev {
						r = append([]*Tab{t}, r...)
					} else {
						r = append(r, t)
					}
				}
			}
			return r
		}
		n := 0
		for _, cmd := range sortedKeys(k.prog.cmds) {
			if !k.hasFlag(cmd, "groups") {
				continue
			}
			n++
			for _, sel := range []string{"ga", "gab", "GA", "g", "zz", "gb,ga", "ga,gab", "zz,gb", "a b", "ga,ga", "ga,gb,gab,GA,a b", "ga.x", "g*", "*", ".*,gb", "%", "ga;gb", "ga|gb", "zz,ga1,gab,Ga,GA", "a,b"} {
				set := map[string]bool{}
				for _, s := range strings.Split(sel, ",") {
					set[s] = true
				}
				for vi, out := range outputs(cmd) {
					for v := 0; v < 3; v++ {
						a := loadCase(cmd, fmt.Sprintf("groups=%s (%d.%d)", sel, vi, v), &Doc{Version: "«V1»", Tabs: tabs(nil, v == 1)}, map[string]string{"groups": sel, "output": out})
						b := loadCase(cmd, "the tables of groups "+sel, &Doc{Version: "«V1»", Tabs: tabs(set, v == 1)}, map[string]string{"output": out})
						if strings.HasPrefix(cmd, "diff ") {
							all, some := tabs(nil, false), tabs(set, false)
							alter := func(ts []*Tab) {
								for _, t := range ts {
									switch v {
									case 1:
										t.Cols[0].Type, t.Cols[0].Desc = "int32", "other"
										t.Cols = t.Cols[:len(t.Cols)-1]
									case 2:
										if strings.HasSuffix(t.Name, "1") {
											t.Name += "x"
										}
									}
								}
							}
							if v > 0 {
								alter(all)
								alter(some)
								a.Docs["from"], b.Docs["from"] = &Doc{Version: "«V0»", Tabs: all}, &Doc{Version: "«V0»", Tabs: some}
							}
						} else if v == 2 {
							continue
						}
						ps = append(ps, [2]*Case{a, b})
					}
				}
			}
		}
		k.oblige(n >= 9, "main.go", "commands with a groups option", "only %d commands have a groups option; the documentation gives one to dbml, mysql, gorm, kt, liquibase, pb, sqlalchemy and the diff commands", n)
		k.sames(append(ps, k.mixedGroups(150)...))
	}
	checks["C10"] = func(k *Check) {
		k.rule("every command gives the same result for every order of the tables of a document as for the order by group and name, and the saved document has the tables in that order.")
		var cs []*Case
		var ps [][2]*Case
		tabs := sampleTabs()
		var perms [][]*Tab
		var rec func(i int)
		p := append([]*Tab{}, tabs...)
		rec = func(i int) {
			if i == len(p) {
				perms = append(perms, append([]*Tab{}, p...))
				return
			}
			for j := i; j < len(p); j++ {
				p[i], p[j] = p[j], p[i]
				rec(i + 1)
				p[i], p[j] = p[j], p[i]
			}
		}
		rec(0)
		for pi, pm := range perms {
			d := &Doc{Version: "«V1»", Tabs: pm}
			cs = append(cs, &Case{Name: fmt.Sprintf("order %d", pi), Cmd: docCmd, Norm: normExact, Docs: map[string]*Doc{"input": d}, Expect: docExpect})
			for _, cmd := range k.loading() {
				for _, out := range outputs(cmd) {
					a := loadCase(cmd, fmt.Sprintf("order %d to %s", pi, out), d, map[string]string{"output": out})
					b := loadCase(cmd, "the sorted document", sortedDoc(d), map[string]string{"output": out})
					ps = append(ps, [2]*Case{a, b})
				}
			}
		}
		k.cases(cs)
		k.sames(append(ps, k.mixedOrders(150)...))
		k.together()
	}
}

// colKinds are columns that every generator supports.
func colKinds() []*Col {
	return []*Col{
		{Class: "z", Name: "zip", Type: "int32"},
		{Class: "n", Name: "name", Type: "varchar", Size: "40", NN: true, UQ: true, Desc: "the name"},
		{Class: "p", Name: "price", Type: "decimal", Size: "10", Scale: "2", Default: "0"},
		{Class: "a", Name: "active", Type: "boolean", NN: true},
		{Class: "r", Name: "owner_id", Type: "int64", NN: true, Ref: &Ref{"owner", "id", "n:1"}},
		{Class: "c", Name: "created_at", Type: "datetime", NN: true, Desc: "created"},
		{Class: "b", Name: "birth_day", Type: "date"},
		{Class: "k", Name: "body", Type: "text16"},
		{Class: "m", Name: "mail", Type: "varchar", Size: "30", UQ: true},
		{Class: "f", Name: "factor", Type: "double"},
		{Class: "e", Name: "k2", Type: "int64", PK: true, NN: true},
		{Class: "w", Name: "weight", Type: "float"},
		{Class: "v", Name: "visits", Type: "int64", Default: "0", Desc: "number of visits"},
	}
}

func idCol() *Col { return &Col{Class: "id", Name: "id", Type: "int64", PK: true, NN: true, AI: true} }

func ownerTab() *Tab { return &Tab{Class: "o", Name: "owner", Group: "gm", Cols: []*Col{idCol()}} }

// together: where each kind of column matches the oracle on its own, so do all of them in one table, in any
// order, and in several tables, in any order.
func (k *Check) together() {
	doc := func(ts ...*Tab) *Doc {
		d := &Doc{Name: "sample", Version: "«V1»"}
		for _, t := range ts {
			if t != nil {
				d.Tabs = append(d.Tabs, t)
			}
		}
		return d
	}
	tab := func(name, group string, cols []*Col) *Tab {
		return &Tab{Class: name, Name: name, Group: group, Desc: "Table " + name, Cols: append([]*Col{idCol()}, cols...)}
	}
	orc := map[string]cmdOracle{"export xlsx": {normCode, xlsxExpect, nil}, docCmd: {normCode, docExpect, nil}}
	for c, o := range oracles {
		orc[c] = o
	}
	cmds := []string{}
	for _, cmd := range sortedKeys(orc) {
		if cmd == docCmd || k.prog.cmds[cmd] != nil {
			cmds = append(cmds, cmd)
		}
	}
	mk := func(cmd, name string, d *Doc) *Case {
		o := orc[cmd]
		c := loadCase(cmd, name, d, o.flags)
		if cmd == docCmd {
			c = &Case{Name: name, Cmd: cmd, Docs: map[string]*Doc{"input": d}}
		} else if o.flags["output"] == "" {
			delete(c.Flags, "output")
		}
		if strings.HasPrefix(cmd, "diff ") {
			c.Docs["from"] = &Doc{Version: "«V0»"}
		}
		c.Norm, c.NoLit = o.norm, true
		c.Expect = func(c *Case) string {
			x := *c
			x.Docs = map[string]*Doc{}
			for n, d := range c.Docs {
				x.Docs[n] = sortedDoc(d)
			}
			return o.expect(&x)
		}
		return c
	}
	k.each(len(cmds), func(ci int) {
		cmd := cmds[ci]
		if ok, _ := k.holds(mk(cmd, "one table", doc(tab("tab", "gm", nil)))); !ok {
			return // not a matter of order or number
		}
		var cols, rev []*Col
		refs := false
		for _, c := range colKinds() {
			t := tab("tab", "gm", []*Col{c})
			d := doc(t)
			if c.Ref != nil {
				d = doc(ownerTab(), t)
			}
			if ok, _ := k.holds(mk(cmd, c.Name, d)); ok {
				cols = append(cols, c)
				rev = append([]*Col{c}, rev...)
				refs = refs || c.Ref != nil
			}
		}
		if len(cols) == 0 {
			return
		}
		var owner *Tab
		if refs {
			owner = ownerTab()
		}
		half, pairs := len(cols)/2, append([]*Col{}, cols...)
		for i := 0; i+1 < len(pairs); i += 2 {
			pairs[i], pairs[i+1] = pairs[i+1], pairs[i]
		}
		var cs []*Case
		for i, l := range [][]*Col{cols, rev, pairs, cols[half:], rev[half:]} {
			cs = append(cs, mk(cmd, fmt.Sprintf("columns together %d", i), doc(owner, tab("tab", "gm", l))))
		}
		// tables of one and of several groups; the same columns in several of them
		for i, g := range [][4]string{{"gb", "ga", "ga", "gc"}, {"ga", "ga", "ga", "ga"}, {"", "", "", ""}, {"", "ga", "", "gb"}} {
			a, b, c, e := tab("mmm", g[0], cols), tab("zzz", g[1], cols[half:]), tab("aaa", g[2], rev[half:]), tab("bbb", g[3], nil)
			a.ClassName, b.Desc, e.Desc = "Special", "", ""
			a.Idx = []*Idx{{Class: "x", Name: "mmm_idx", Cols: []string{cols[0].Name, "id"}}}
			for j, ts := range [][]*Tab{{a, b, c, e}, {e, c, b, a}, {b, e, a, c}, {c, a, e, b}} {
				cs = append(cs, mk(cmd, fmt.Sprintf("tables together %d, order %d", i, j), doc(append([]*Tab{owner}, ts...)...)))
			}
		}
		k.cases(cs)
	})
}
