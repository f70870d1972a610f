package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Mixed documents as the inputs of the importers, and the round trip of documents.

func newMixer(seed string) *mixer {
	m := &mixer{hashOf(seed) | 1}
	for i := 0; i < 8; i++ {
		m.n(2)
	}
	return m
}

// plainTypes are the types without permitted values.
func plainTypes() []typeSpec {
	var r []typeSpec
	for _, t := range mysqlTypes {
		if t.Name != "enum" && t.Name != "set" {
			r = append(r, t)
		}
	}
	return r
}

// literal gives the sizes, scales and index names of a document fixed values.
func literal(m *mixer, d *Doc) *Doc {
	for _, t := range d.Tabs {
		for _, c := range t.Cols {
			if strings.Contains(c.Size, "«") {
				c.Size = m.pick([]string{"1", "3", "16", "40", "200", "65535"})
			}
			if strings.Contains(c.Scale, "«") {
				c.Scale = m.pick([]string{"1", "2", "11"})
			}
		}
		names := m.some([]string{"ix", "iy", t.Name + "_ix", "a"}, 4)
		for i, x := range t.Idx {
			x.Name = names[i]
		}
	}
	return d
}

// ---- spreadsheets ----

func mixedBooks(cmd string, n int) (ds []*Doc) {
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprint("mixed book ", cmd, i)
		m := newMixer(name)
		d := literal(m, mixedDoc(name, plainTypes()))
		// tables without columns
		for _, t := range d.Tabs {
			if m.n(6) == 0 {
				t.Cols, t.Idx = nil, nil
			}
			for _, c := range t.Cols {
				if c.Ref != nil && c.Ref.Rel == "" {
					c.Ref.Rel = "n:1"
				}
			}
		}
		ds = append(ds, sortedDoc(d))
	}
	return
}

func mixedExports(n int) []*Case {
	var cs []*Case
	for i, d := range mixedBooks("export", n) {
		cs = append(cs, &Case{Name: fmt.Sprintf("mixed document %d", i), Cmd: "export xlsx", Norm: normExact, NoLit: true, Docs: map[string]*Doc{"input": d}, Flags: map[string]string{"useNullColumn": fmt.Sprint(i%3 == 0)}, Expect: xlsxExpect})
	}
	return cs
}

func mixedImports(n int) []*Case {
	var cs []*Case
	for i, d := range mixedBooks("import", n) {
		f := xForms[i%len(xForms)]
		cs = append(cs, &Case{Name: fmt.Sprintf("mixed document %d", i), Cmd: "import xlsx", Norm: normExact, NoLit: true, Docs: map[string]*Doc{"want": grouped(d)}, Expect: wantDoc,
			Set: xSet(func(c *Case) []*xSheet {
				return append([]*xSheet{metaSheet(c.Docs["want"])}, docSheets(c.Docs["want"], f)...)
			})})
	}
	return cs
}

// ---- MySQL DDL ----

// mixedDDL: n scripts with tables of columns of the given types, options in any order, keys declared inline or as
// constraints, and excluded tables.
func (k *Check) mixedDDL(pool []ddlType, n int) []*Case {
	var cs []*Case
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprintf("mixed script %d", i)
		m := newMixer(name)
		src := literal(m, mixedDoc(name, plainTypes()))
		var ts []*dTab
		excl := map[string]bool{}
		for a, t := range src.Tabs {
			u := &dTab{Tab: Tab{Name: t.Name}}
			if m.n(4) == 0 {
				excl[t.Name] = true
			}
			if t.Desc != "" {
				u.Desc = t.Desc
				u.opts = append(u.opts, dOpt{"TableOptionComment", t.Desc})
			}
			for _, o := range []string{"TableOptionEngine", "TableOptionCharset"} {
				if m.n(2) == 0 {
					u.opts = append(u.opts, dOpt{o, "xy"})
				}
			}
			for b := len(u.opts) - 1; b > 0; b-- {
				c := m.n(b + 1)
				u.opts[b], u.opts[c] = u.opts[c], u.opts[b]
			}
			inline := m.n(2) == 0
			var pk, uq []string
			for b, c := range t.Cols {
				tag := fmt.Sprintf("_%d%d»", a, b)
				d := &dCol{Col: Col{Name: c.Name}, ddl: pool[m.n(len(pool))]}
				if d.ddl.flen == "n" {
					d.ddl.flen = m.pick([]string{"2", "17", "200"})
				}
				if d.ddl.dec == "m" {
					d.ddl.dec = m.pick([]string{"1", "2", "7"})
				}
				if d.ddl.values {
					d.Values = []string{"«V1" + tag, "«V2" + tag}
				}
				opt := func(tp, val string) { d.opts = append(d.opts, dOpt{"ColumnOption" + tp, val}) }
				null := true
				if c.PK && inline {
					opt("PrimaryKey", "")
					null = false
				}
				if c.NN {
					opt("NotNull", "")
					null = false
				}
				if c.AI {
					opt("AutoIncrement", "")
					null = false
				}
				if c.UQ && m.n(2) == 0 {
					opt("UniqKey", "")
				} else if c.UQ {
					uq = append(uq, c.Name)
				}
				if c.PK && !inline {
					pk = append(pk, c.Name)
					null = false
				}
				if null && m.n(2) == 0 {
					opt("Null", "")
				}
				if c.Default != "" {
					opt("DefaultValue", m.pick([]string{"text:«DEF" + tag, "int:«DEF" + tag, "fn:«FN" + tag, "minus:«DEF" + tag, "int:0"}))
				}
				if c.OnUpdate != "" {
					opt("OnUpdate", "fn:«UFN"+tag)
				}
				if c.Desc != "" {
					opt("Comment", "text:«D"+tag)
				}
				for _, o := range []string{"Collate", "ColumnFormat", "Reference"} {
					if m.n(5) == 0 {
						opt(o, "")
					}
				}
				for x := len(d.opts) - 1; x > 0; x-- {
					y := m.n(x + 1)
					d.opts[x], d.opts[y] = d.opts[y], d.opts[x]
				}
				d.meaning()
				if c.PK {
					d.PK, d.NN = true, true
				}
				d.UQ = d.UQ || c.UQ
				u.cols = append(u.cols, d)
			}
			if len(pk) > 0 {
				u.keys = append(u.keys, dKey{"ConstraintPrimaryKey", "", pk})
			}
			if len(uq) > 1 && m.n(2) == 0 {
				u.keys = append(u.keys, dKey{"ConstraintUniq", "u1", uq[:1]}, dKey{"ConstraintUniq", "u2", uq[1:]})
			} else if len(uq) > 0 {
				u.keys = append(u.keys, dKey{"ConstraintUniq", "u", uq})
			}
			for _, x := range t.Idx {
				u.keys = append(u.keys, dKey{"ConstraintIndex", x.Name, x.Cols})
			}
			if len(t.Cols) > 0 && m.n(3) == 0 {
				u.keys = append(u.keys, dKey{"ConstraintForeignKey", "fk", []string{t.Cols[0].Name}})
			}
			for b := len(u.keys) - 1; b > 0; b-- {
				c := m.n(b + 1)
				u.keys[b], u.keys[c] = u.keys[c], u.keys[b]
			}
			ts = append(ts, u)
		}
		c := k.ddlCase(name, ts...)
		c.NoLit = true
		if len(excl) > 0 && m.n(2) == 0 {
			var keep []*Tab
			for _, t := range c.Docs["want"].Tabs {
				if !excl[t.Name] {
					keep = append(keep, t)
				}
			}
			c.Docs["want"].Tabs = keep
			c.Flags["excludes"] = strings.Join(sortedKeys(excl), ",")
		}
		cs = append(cs, c)
	}
	return cs
}

// ---- version 1 ----

func mixedV1(n int) []*Case {
	names := append(sortedKeys(v1Types), v1Others()...)
	cs := mixedCases("import ojson", normExact, v1Expect, nil, plainTypes(), n)
	for i, c := range cs {
		c.Set = v1Set
		m := newMixer(fmt.Sprint("version 1 ", i))
		for _, t := range c.doc().Tabs {
			t.Idx = nil
			for _, x := range t.Cols {
				fs := caseForms(m.pick(names))
				x.Type = fs[m.n(len(fs))]
				x.AI = m.n(4) == 0
				x.OnUpdate, x.Values = "", nil
				if x.Ref != nil {
					x.Ref.Rel = ""
				}
			}
		}
	}
	return cs
}

// ---- StarUML ----

func mixedModels(n int) []*Case {
	var cs []*Case
	names := map[string]string{}
	for a, b := range aliases {
		names[a] = b
	}
	for _, t := range plainTypes() {
		names[t.Name] = t.Name
	}
	list := sortedKeys(names)
	sort.Strings(list)
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprintf("mixed model %d", i)
		m := newMixer(name)
		src := mixedDoc(name, plainTypes())
		id := map[string]string{}
		for a, t := range src.Tabs {
			for b, c := range t.Cols {
				id[t.Name+"."+c.Name] = fmt.Sprintf("c%d_%d", a, b)
			}
		}
		var models [][]*sTab
		for a, t := range src.Tabs {
			u := &sTab{id: "e" + strconv.Itoa(a), name: t.Name}
			if t.Desc != "" {
				u.doc = m.pick([]string{"about " + t.Name, " about " + t.Name + "\n", "two\nlines"})
			}
			for _, c := range t.Cols {
				s := &sCol{id: id[t.Name+"."+c.Name], name: c.Name, PK: c.PK, UQ: c.UQ, null: !c.NN}
				ty := m.pick(list)
				s.typ, s.etype = ty, names[ty]
				if m.n(2) == 0 {
					s.typ = strings.ToUpper(ty)
				}
				if c.Desc != "" {
					s.doc = m.pick([]string{"about " + c.Name, " about\t", "a, b"})
				}
				switch m.n(7) {
				case 0:
					s.typ += "(17)"
					s.esize = "17"
				case 1:
					s.typ += "(12,4)"
					s.esize, s.escale = "12", "4"
				case 2:
					s.length, s.esize = "20", "20"
				case 3:
					s.length, s.esize = float64(33), "33"
				case 4:
					s.length = ""
				case 5:
					s.typ, s.escale = s.typ+m.pick([]string{"(17)", "(30)", "(12,4)"}), ""
					if strings.HasSuffix(s.typ, ",4)") {
						s.escale = "4"
					}
					s.esize = m.pick([]string{"1", "8", "17", "40"})
					s.length = s.esize
				}
				if r := c.Ref; r != nil {
					if to, ok := id[r.Table+"."+r.Column]; ok && m.n(6) > 0 {
						s.to, s.ref = to, &Ref{r.Table, r.Column, ""}
					} else {
						s.to = "gone"
					}
				}
				u.cols = append(u.cols, s)
			}
			if a == 0 || m.n(3) == 0 {
				models = append(models, nil)
			}
			models[len(models)-1] = append(models[len(models)-1], u)
		}
		c := sCase(name, models...)
		c.NoLit = true
		cs = append(cs, c)
	}
	return cs
}

// pick keeps the tables of the given groups. References are dropped on both sides: they may lead out of the selection.
func (d *Doc) pick(groups map[string]bool) *Doc {
	n := d.subst(func(s string) string { return s })
	dropRefs(n)
	if groups != nil {
		var ts []*Tab
		for _, t := range n.Tabs {
			if groups[t.Group] {
				ts = append(ts, t)
			}
		}
		n.Tabs = ts
	}
	return n
}

// mixedGroups: mixed documents with a selection of groups, next to other options, and the documents of the selected tables.
func (k *Check) mixedGroups(n int) (ps [][2]*Case) {
	for _, cmd := range sortedKeys(k.prog.cmds) {
		if !k.hasFlag(cmd, "groups") {
			continue
		}
		sets := k.optionSets(cmd)
		pairs := mixedPairs(n)
		for i := 0; i < n*mixFactor; i++ {
			m := &mixer{hashOf(fmt.Sprintf("groups %s %d", cmd, i)) | 1}
			sel := m.some([]string{"g1", "g2", "g3", "g4", "g"}, 1+m.n(3))
			set := map[string]bool{}
			for _, s := range sel {
				set[s] = true
			}
			fl := copyFlags(sets[i%len(sets)])
			delete(fl, "groups")
			if _, ok := fl["output"]; !ok {
				outs := outputs(cmd)
				fl["output"] = outs[i%len(outs)]
			}
			name := fmt.Sprintf("mixed document %d", i)
			doc := mixedDoc(name+cmd, supportedTypes(cmd))
			if strings.HasPrefix(cmd, "diff ") {
				doc = pairs[i].to
			}
			a := loadCase(cmd, fmt.Sprintf("%s, groups=%s", name, strings.Join(sel, ",")), doc, fl)
			if strings.HasPrefix(cmd, "diff ") {
				a.Docs["from"] = pairs[i].from
			}
			a = fixed(a)
			b := a.withDocs("the tables of groups "+strings.Join(sel, ","), func(d *Doc) *Doc { return d.pick(set) })
			a = a.withDocs(a.Name, func(d *Doc) *Doc { return d.pick(nil) })
			a.Flags["groups"] = strings.Join(sel, ",")
			ps = append(ps, [2]*Case{a, b})
		}
	}
	return ps
}

// mixedOrders: mixed documents with their tables in another order.
func (k *Check) mixedOrders(n int) (ps [][2]*Case) {
	for _, cmd := range k.loading() {
		sets := k.optionSets(cmd)
		pairs := mixedPairs(n)
		for i := 0; i < n*mixFactor; i++ {
			m := &mixer{hashOf(fmt.Sprintf("order %s %d", cmd, i)) | 1}
			fl := copyFlags(sets[i%len(sets)])
			if _, ok := fl["output"]; !ok {
				outs := outputs(cmd)
				fl["output"] = outs[i%len(outs)]
			}
			name := fmt.Sprintf("mixed document %d", i)
			doc := mixedDoc(name+cmd, supportedTypes(cmd))
			if strings.HasPrefix(cmd, "diff ") {
				doc = pairs[i].to
			}
			shuffled := func(d *Doc) *Doc {
				x := *d
				x.Tabs = append([]*Tab{}, d.Tabs...)
				for j := range x.Tabs {
					l := j + m.n(len(x.Tabs)-j)
					x.Tabs[j], x.Tabs[l] = x.Tabs[l], x.Tabs[j]
				}
				return &x
			}
			a := loadCase(cmd, name, doc, fl)
			if strings.HasPrefix(cmd, "diff ") {
				a.Docs["from"] = pairs[i].from
			}
			a = fixed(a)
			ps = append(ps, [2]*Case{a.withDocs(name, shuffled), a.withDocs("the sorted document", sortedDoc)})
		}
	}
	return ps
}

// fixed is the case with its open-ended parts instantiated.
func fixed(c *Case) *Case {
	x := c.instance(1)
	x.Name, x.NoLit = c.Name, true
	if o, ok := c.Flags["output"]; ok {
		x.Flags["output"] = o
	}
	return x
}

func (c *Case) withDocs(name string, f func(d *Doc) *Doc) *Case {
	x := *c
	x.Name, x.Docs, x.Flags = name, map[string]*Doc{}, copyFlags(c.Flags)
	for _, n := range sortedKeys(c.Docs) {
		x.Docs[n] = f(c.Docs[n])
	}
	return &x
}

// optionPool: values that the options of the export and generate commands take next to each other.
var optionPool = map[string][]string{
	"annotation": {"@Anno", "g1:@One,g2:@Two;@Three", "g3:@Three", "«ANNO»"}, "comments": {"true", "false"}, "embed": {"Base:id,name", "gorm.Model:", "gorm.Model:id,created_at", "Audit:created_at,updated_at", "C:valid"},
	"goPackage": {"«GP»", "a/b;c"}, "idEntity": {"IdEntity", "«IDE»"}, "package": {"ent", "com.ent.x", "pkgname"}, "pointerAssociation": {"true", "false"}, "prefix": {"g1:Pre", "Pre", "g1:Pa,g2:Pb", "g3:Q"},
	"relation": {"VRelation"}, "relationTagDecr": {"true", "false"}, "relationTagStart": {"-1", "3", "6", "100"}, "removePrefix": {"tb_", "tb_,x_", "user_,Z", "o"}, "reposPackage": {"repos", "com.ent.x", "com.repos"},
	"uniqueNameSuffix": {"_uk", "«SUF»"}, "useUTC": {"true", "false"},
}

// optionMixes: mixed documents, each under its own choice of options.
func (k *Check) optionMixes(cmd string, norm *Norm, expect func(c *Case) string, outs []string, types []typeSpec, n int) []*Case {
	var cs []*Case
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprintf("mixed document %d with options", i)
		m := &mixer{hashOf(name+cmd) | 1}
		f := map[string]string{}
		for _, o := range sortedKeys(optionPool) {
			if k.hasFlag(cmd, o) && m.n(2) == 0 {
				f[o] = m.pick(optionPool[o])
			}
		}
		if len(outs) > 0 {
			f["output"] = m.pick(outs)
		}
		c := mixedCases(cmd, norm, expect, f, types, 1)[0]
		c.Name, c.Docs = name+fmt.Sprint(f), map[string]*Doc{"input": mixedDoc(name+cmd, types)}
		cs = append(cs, c)
	}
	return cs
}
