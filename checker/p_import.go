package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Importers of version 1 documents and StarUML models.

// J is a JSON object of an analysis context; texts are notation.
type J map[string]any

// JNum is a number, JLower a lower-cased text, JAny a text or number in an interface.
type (
	JNum   string
	JLower string
	JAny   struct {
		T types.Type
		V string
	}
)

// JI is an element of a JSON list.
type JI struct {
	Class string
	Star  bool
	V     J
}

// zeroDefault: everything that is not given is absent.
func zeroDefault(path string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return S("")
		case u.Info()&types.IsBoolean != 0:
			return falseV
		case u.Info()&types.IsInteger != 0:
			return I(0)
		}
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
		return nilV
	}
	return nil
}

// filled puts the texts of the case into a JSON object.
func (c *Case) filled(j J) J {
	f := func(s string) string {
		for _, x := range c.Sub {
			s = strings.ReplaceAll(s, x[0], x[1])
		}
		return s
	}
	n := J{}
	for k, v := range j {
		switch x := v.(type) {
		case string:
			n[k] = f(x)
		case JNum:
			n[k] = JNum(f(string(x)))
		case JLower:
			n[k] = JLower(f(string(x)))
		case JAny:
			n[k] = JAny{x.T, f(x.V)}
		case J:
			n[k] = c.filled(x)
		case []JI:
			l := []JI{}
			for _, e := range x {
				y := JI{e.Class, e.Star, c.filled(e.V)}
				if s, ok := y.V["name"].(string); ok && !strings.Contains(s, "«") {
					y.Star = false
				}
				l = append(l, y)
			}
			n[k] = l
		default:
			n[k] = v
		}
	}
	return n
}

func setJ(ctx *Ctx, p string, j J) {
	for _, k := range sortedKeys(j) {
		q := p + "." + k
		switch {
		case k == "":
			q = p
		case k == "@type":
			ctx.Dyn[p] = j[k].(string)
			ctx.Nils[p] = false
			continue
		case k == "@value":
			q = p
		case k[0] == '@':
			q = p + "." + k[1:] + "()"
		}
		switch x := j[k].(type) {
		case string:
			ctx.Vals[q] = nv(x)
		case bool:
			ctx.Vals[q] = B(x)
		case int:
			ctx.Vals[q] = I(int64(x))
		case JNum:
			ctx.Vals[q] = nint(string(x), types.Typ[types.Int])
		case JLower:
			if strings.Contains(string(x), "«") {
				ctx.Vals[q] = &App{F: "strings.ToLower", Args: []Val{nv(string(x))}, T: tString}
			} else {
				ctx.Vals[q] = S(strings.ToLower(string(x)))
			}
		case JAny:
			if x.T == tString {
				ctx.Vals[q] = &Iface{x.T, nv(x.V)}
			} else {
				ctx.Vals[q] = &Iface{x.T, nint(x.V, x.T)}
			}
		case Val:
			ctx.Vals[q] = x
		case J:
			ctx.Nils[q] = false
			ctx.Vals[q] = nil
			delete(ctx.Vals, q)
			setJ(ctx, q, x)
		case []JI:
			sh := []ShapeItem{}
			for i, e := range x {
				c := classPath(q, orIdx(e.Class, "e", i), e.Star)
				ctx.Nils[c] = false
				sh = append(sh, ShapeItem{Names: []string{c}, Star: e.Star})
				setJ(ctx, c, e.V)
			}
			ctx.Shapes[q] = sh
		default:
			panic(fmt.Sprintf("setJ %T", x))
		}
	}
}

// given tells whether the context says something about a path.
func (ctx *Ctx) given(p string) bool {
	_, a := ctx.Vals[p]
	_, b := ctx.Shapes[p]
	n, c := ctx.Nils[p]
	_, d := ctx.Dyn[p]
	return a || b || c && !n || d
}

// absent makes everything that the context does not give absent.
func (ctx *Ctx) absent() {
	ctx.Default = func(p string, t types.Type) Val {
		if ctx.given(p) {
			return nil
		}
		if strings.HasPrefix(p, "flag:") {
			return genDefault(p, t)
		}
		return zeroDefault(p, t)
	}
}

// ---- version 1 ----

// the types of version 1 and the version 2 types of the same meaning
var v1Types = map[string]string{
	"string": "varchar", "varchar": "varchar", "char": "varchar", "int": "int32", "integer": "int32", "smallint": "int32",
	"long": "int64", "bigint": "int64", "datetime": "datetime", "bool": "boolean", "boolean": "boolean", "number": "decimal", "double": "decimal",
	"decimal": "decimal", "float": "float", "text": "text16", "date": "date", "time": "time", "blob": "blob16",
}

// v1Type is the version 2 type of a type of a version 1 document; types that version 1 does not name are kept.
func v1Type(typ string) string {
	l := strings.ToLower(typ)
	if t, ok := v1Types[l]; ok {
		return t
	}
	if t, ok := aliases[l]; ok {
		return t
	}
	return l
}

// v1Others are the types of version 2 that version 1 does not name.
func v1Others() []string {
	var r []string
	add := func(s string) {
		if _, ok := v1Types[s]; !ok && s != "enum" && s != "set" {
			r = append(r, s)
		}
	}
	for _, a := range sortedKeys(aliases) {
		add(a)
	}
	for _, t := range mysqlTypes {
		add(t.Name)
	}
	return r
}

func v1Expect(c *Case) string {
	d := *c.doc()
	d.Tabs = nil
	for _, t := range c.doc().Tabs {
		u := *t
		u.Cols = nil
		for _, x := range t.Cols {
			e := *x
			e.Type = v1Type(x.Type)
			if !strings.HasPrefix(e.Type, "int") {
				e.AI = false
			}
			u.Cols = append(u.Cols, &e)
		}
		d.Tabs = append(d.Tabs, &u)
	}
	return outFile(docText(&d))
}

// v1Set: version 1 columns have their description under another key than tables.
func v1Set(c *Case, ctx *Ctx) {
	for _, p := range sortedKeys(ctx.Vals) {
		if b, ok := strings.CutSuffix(p, ".desc"); ok && strings.Contains(b, ".columns[") {
			ctx.Vals[b+".description"] = ctx.Vals[p]
			delete(ctx.Vals, p)
		}
	}
}

func v1Cases() []*Case {
	var cs []*Case
	add := func(n string, tabs ...*Tab) *Case {
		c := &Case{Name: n, Cmd: "import ojson", Norm: normExact, Docs: docOf(tabs...), Expect: v1Expect, Set: v1Set}
		cs = append(cs, c)
		return c
	}
	for _, t := range append(sortedKeys(v1Types), v1Others()...) {
		for _, f := range caseForms(t) {
			for i := 0; i < 64; i++ {
				c := &Col{Class: "c", Star: true, Name: "«C»", Type: f, NN: i&1 > 0, PK: i&2 > 0, UQ: i&4 > 0, AI: i&8 > 0}
				if i&16 > 0 {
					c.Desc, c.Size = "«D»", "«SZ»"
				}
				if i&32 > 0 {
					c.Default, c.Scale = "«DEF»", "«SC»"
				}
				if i >= 8 && f != t {
					continue
				}
				add(fmt.Sprintf("type %s, attributes %d", f, i), &Tab{Class: "t", Star: true, Name: "«T»", Cols: []*Col{{Class: "k", Name: "«K»", Type: "int", PK: true, NN: true}, c, {Class: "z", Name: "«Z»", Type: "date"}}})
			}
		}
	}
	for _, r := range []*Ref{{"«RT»", "«RC»", ""}, {"«RT»", "", ""}, {"", "«RC»", ""}} {
		add("reference", &Tab{Class: "t", Star: true, Name: "«T»", Cols: []*Col{{Class: "k", Name: "«K»", Type: "int", Ref: r}, {Class: "m", Star: true, Name: "«M»", Type: "string", Ref: r, Default: "«DEF»"}, {Class: "z", Name: "«Z»", Type: "long"}}})
	}
	for i := 0; i < 8; i++ {
		t := &Tab{Class: "t", Star: true, Name: "«T»", Cols: []*Col{{Class: "k", Name: "«K»", Type: "int"}}}
		if i&1 > 0 {
			t.Desc = "«TD»"
		}
		if i&2 > 0 {
			t.Group = "«G»"
		}
		if i&4 > 0 {
			t.ClassName = "«CN»"
		}
		c := add(fmt.Sprintf("table attributes %d", i), t)
		d := c.doc()
		if i&1 > 0 {
			d.Author = "«AU»"
		}
		if i&2 > 0 {
			d.Name = "«NM»"
		}
		if i&4 > 0 {
			d.Version = "«VER»"
		}
	}
	add("no tables")
	add("no columns", &Tab{Class: "t", Name: "«T»"})
	var ts []*Tab
	for _, t := range sampleTabs() {
		for _, c := range t.Cols {
			c.Type = map[string]string{"int64": "long", "int32": "int", "varchar": "string", "enum": "text"}[c.Type]
			if c.Type == "" {
				c.Type = "number"
			}
			c.OnUpdate, c.Values = "", nil
			if c.Ref != nil {
				c.Ref.Rel = ""
			}
		}
		t.Idx = nil
		ts = append(ts, t)
	}
	add("sample", ts...)
	for i := range ts {
		rot := append(append([]*Tab{}, ts[i:]...), ts[:i]...)
		add(fmt.Sprintf("sample from %d", i), rot...)
	}
	return cs
}

// ---- StarUML ----

type sCol struct {
	id, name, typ string
	length        any
	PK, UQ, null  bool
	doc           string
	to            string // id of the referenced column
	star          bool
	// what it means
	etype, esize, escale string
	ref                  *Ref
}

type sTab struct {
	id, name, doc string
	cols          []*sCol
	star          bool
}

func (t *sTab) json() J {
	cols := []JI{{Class: "x0", V: J{"_type": "ERDTag", "_id": "x0" + t.id, "name": "notacolumn", "type": "INT"}}}
	for i, c := range t.cols {
		j := J{"_type": "ERDColumn", "_id": c.id, "_parent": J{"$ref": t.id}, "name": c.name, "type": c.typ, "primaryKey": c.PK, "unique": c.UQ, "nullable": c.null, "documentation": c.doc}
		switch l := c.length.(type) {
		case string:
			j["length"] = Val(&Iface{tString, nv(l)})
		case float64:
			j["length"] = Val(&Iface{types.Typ[types.Float64], &Const{V: l}})
		}
		if c.to != "" {
			j["referenceTo"] = J{"$ref": c.to}
		}
		cols = append(cols, JI{fmt.Sprintf("c%d", i), c.star, j})
	}
	return J{"_type": "ERDEntity", "_id": t.id, "name": t.name, "documentation": t.doc, "columns": cols,
		"ownedElements": []JI{{Class: "r", V: J{"_type": "ERDRelationship", "_id": "rel" + t.id, "name": "rel"}}}}
}

func (t *sTab) tab() *Tab {
	r := &Tab{Name: t.name, Desc: strings.TrimSpace(t.doc), Star: t.star}
	for _, c := range t.cols {
		r.Cols = append(r.Cols, &Col{Name: c.name, Type: c.etype, Size: c.esize, Scale: c.escale, PK: c.PK, UQ: c.UQ, NN: !c.null, Desc: strings.TrimSpace(c.doc), Ref: c.ref, Star: c.star})
	}
	return r
}

func wantDoc(c *Case) string { return outFile(docText(c.Docs["want"])) }

// sCase builds the model: diagrams and other elements between the entities; entities in one or two data models.
func sCase(name string, models ...[]*sTab) *Case {
	root := []JI{{Class: "d0", V: J{"_type": "ERDDiagram", "_id": "d0", "name": "diagram"}}}
	d := &Doc{Version: "«PROJECT»"}
	for i, m := range models {
		els := []JI{{Class: "d1", V: J{"_type": "ERDDiagram", "_id": fmt.Sprint("d1", i), "name": "diagram"}}}
		for k, t := range m {
			els = append(els, JI{fmt.Sprintf("t%d", k), t.star, t.json()})
			d.Tabs = append(d.Tabs, t.tab())
		}
		els = append(els, JI{"z", false, J{"_type": "UMLModel", "_id": fmt.Sprint("z", i), "name": "other"}})
		root = append(root, JI{fmt.Sprintf("m%d", i), false, J{"_type": "ERDDataModel", "_id": fmt.Sprint("m", i), "name": "model", "ownedElements": els}})
	}
	root = append(root, JI{"u", false, J{"_type": "UMLModel", "_id": "um", "name": "uml"}})
	return &Case{Name: name, Cmd: "import staruml", NoInst: true, Norm: normExact, Docs: map[string]*Doc{"want": d},
		Set: func(c *Case, ctx *Ctx) {
			ctx.Vals["flag:input"] = nv("«flag:input».mdj")
			ctx.absent()
			setJ(ctx, "input", c.filled(J{"_type": "Project", "_id": "p", "name": "«PROJECT»", "ownedElements": root}))
		},
		Expect: wantDoc}
}

func starumlCases() []*Case {
	var cs []*Case
	type ty struct {
		typ                  string
		length               any
		etype, esize, escale string
	}
	var tys []ty
	all := map[string]string{}
	for a, b := range aliases {
		all[a] = b
	}
	for _, t := range mysqlTypes {
		if t.Name != "enum" && t.Name != "set" {
			all[t.Name] = t.Name
		}
	}
	for _, a := range sortedKeys(all) {
		for i, f := range []string{strings.ToUpper(a), a} {
			tys = append(tys, ty{f, nil, all[a], "", ""}, ty{f, "", all[a], "", ""}, ty{f, "20", all[a], "20", ""}, ty{f, float64(33), all[a], "33", ""}, ty{f, float64(0), all[a], "", ""})
			if i == 0 {
				tys = append(tys, ty{f + "(17)", nil, all[a], "17", ""}, ty{f + "(17)", "", all[a], "17", ""}, ty{f + "(17)", float64(0), all[a], "17", ""}, ty{f + "(12,4)", nil, all[a], "12", "4"}, ty{f + "(12, 4)", "0", all[a], "12", "4"}, ty{f + "(17)", "17", all[a], "17", ""},
					ty{f + "(17)", float64(33), all[a], "33", ""}, ty{f + "(12,4)", "20", all[a], "20", "4"}, ty{f + "(12,4)", float64(12), all[a], "12", "4"},
					ty{f + "(17)", "9", all[a], "9", ""}, ty{f + "(17)", float64(3), all[a], "3", ""}, ty{f + "(12,4)", "5", all[a], "5", "4"}, ty{f + "(17)", "1", all[a], "1", ""})
			}
		}
	}
	for i, x := range tys {
		cs = append(cs, sCase(fmt.Sprintf("type %s, length %v", x.typ, x.length), []*sTab{{id: "«TID»", name: "«T»", star: true, cols: []*sCol{
			{id: "«CID»", name: "«C»", typ: x.typ, length: x.length, star: true, PK: i%2 > 0, UQ: i%3 > 0, null: i%5 > 1, etype: x.etype, esize: x.esize, escale: x.escale}}}}))
	}
	for i := 0; i < 16; i++ {
		c := &sCol{id: "«CID»", name: "«C»", typ: "VARCHAR", length: "9", star: true, PK: i&1 > 0, UQ: i&2 > 0, null: i&4 > 0, etype: "varchar", esize: "9"}
		td := ""
		if i&8 > 0 {
			c.doc, td = " the column\n", "the entity "
		}
		cs = append(cs, sCase(fmt.Sprintf("attributes %d", i), []*sTab{{id: "«TID»", name: "«T»", doc: td, star: true, cols: []*sCol{
			{id: "«KID»", name: "«K»", typ: "BIGINT", etype: "int64", PK: true}, c, {id: "«ZID»", name: "«Z»", typ: "INT", etype: "int32", null: true, doc: "last"}}}}))
	}
	mk := func(t, n string, star bool) *sTab {
		return &sTab{id: t, name: n, cols: []*sCol{{id: t + "k", name: n + "id", typ: "INT", etype: "int32", PK: true}, {id: t + "v", name: n + "v", typ: "DATE", etype: "date", null: true}}}
	}
	for _, target := range []string{"a", "m", "z"} {
		for _, col := range []string{"k", "v", "gone"} {
			ts := []*sTab{mk("a", "aaa", false), mk("m", "mmm", false), mk("z", "zzz", false)}
			r := &sCol{id: "mr", name: "ref", typ: "INT", etype: "int32", to: target + col, doc: "r"}
			tn := map[string]string{"a": "aaa", "m": "mmm", "z": "zzz"}[target]
			if col == "k" {
				r.ref = &Ref{tn, tn + "id", ""}
			} else if col == "v" {
				r.ref = &Ref{tn, tn + "v", ""}
			}
			ts[1].cols = append(ts[1].cols, r, &sCol{id: "mz", name: "end", typ: "TIME", etype: "time"})
			cs = append(cs, sCase("reference to "+target+col, ts))
			cs = append(cs, sCase("reference to "+target+col+" in two models", ts[:2], ts[2:]))
		}
	}
	// a reference to a column that is a reference itself
	for _, self := range []bool{false, true} {
		ts := []*sTab{mk("a", "aaa", false), mk("m", "mmm", false), mk("z", "zzz", false)}
		to := "m1"
		if self {
			to = "z1"
		}
		ts[0].cols = append(ts[0].cols, &sCol{id: "a1", name: "first", typ: "INT", etype: "int32", to: "m1", ref: &Ref{"mmm", "second", ""}})
		ts[1].cols = append(ts[1].cols, &sCol{id: "m1", name: "second", typ: "INT", etype: "int32", to: "z1", ref: &Ref{"zzz", "third", ""}})
		ts[2].cols = append(ts[2].cols, &sCol{id: "z1", name: "third", typ: "INT", etype: "int32", to: to, ref: &Ref{map[bool]string{false: "mmm", true: "zzz"}[self], map[bool]string{false: "second", true: "third"}[self], ""}, PK: true})
		cs = append(cs, sCase(fmt.Sprintf("references to references, to itself %v", self), ts))
	}
	for i, w := range []string{"\n%s\n", "\t%s", "%s \r\n", "\n\n%s\n  more\n\n"} {
		ts := []*sTab{mk("a", "aaa", false)}
		ts[0].doc, ts[0].cols[0].doc = fmt.Sprintf(w, "the table"), fmt.Sprintf(w, "the column")
		cs = append(cs, sCase(fmt.Sprintf("blanks around texts %d", i), ts))
	}
	cs = append(cs, sCase("no entities", nil), sCase("no columns", []*sTab{{id: "e", name: "«T»"}}))
	no := sCase("no data model")
	no.Expect = func(*Case) string { return "!error" }
	return append(cs, no)
}

func init() {
	checks["I01"] = func(k *Check) {
		k.rule("the version 2 document written by 'import ojson' is compared, as a language over all version 1 documents, with the document that has every attribute of version 1 under its version 2 key.")
		k.cases(append(v1Cases(), mixedV1(600)...))
	}
	checks["I02"] = func(k *Check) {
		k.rule("the document written by 'import staruml' is compared with the one that has a table per entity and a column per column element of the model, for every type, length form, attribute combination and reference target.")
		k.cases(append(starumlCases(), mixedModels(1000)...))
	}
}
