package main

import (
	"fmt"
	"strings"
)

// Workbooks: the layout of docs/xlsx.md, read and written.

// xRow is a row of a sheet: its cells, in notation.
type xRow struct {
	cells []string
	star  bool
}

type xSheet struct {
	name string
	rows []xRow
}

func row(cells ...string) xRow     { return xRow{cells, false} }
func starRow(cells ...string) xRow { return xRow{cells, true} }

var refMarks = map[string]string{"n:1": ">", "1:n": "<", "1:1": "-"}

func colFormat(c *Col) string {
	switch {
	case c.Size != "" && c.Scale != "":
		return c.Type + "(" + c.Size + "," + c.Scale + ")"
	case c.Size != "":
		return c.Type + "(" + c.Size + ")"
	}
	return c.Type
}

// colAttrs are the attributes of a column in the order of the layout.
func colAttrs(c *Col, auto string) []string {
	var r []string
	if c.AI {
		r = append(r, auto)
	}
	if c.Default != "" {
		r = append(r, "default="+c.Default)
	}
	if c.OnUpdate != "" {
		r = append(r, "onUpdate="+c.OnUpdate)
	}
	return r
}

type xForm struct {
	nullable bool   // which header
	auto     string // spelling of the auto-increment attribute
	sep      string // between attributes
	pad      string // around cell texts
	blank    bool   // an empty row before each table
}

func header(f xForm) xRow {
	h := "not null"
	if f.nullable {
		h = "nullable"
	}
	return row("table/ref.", "column", "type", "key", h, "attributes", "description")
}

func ifs(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

// tabRows is the row block of a table.
func tabRows(t *Tab, f xForm) []xRow {
	var r []xRow
	p := func(s string) string {
		if s == "" {
			return ""
		}
		return f.pad + s + f.pad
	}
	if f.blank {
		r = append(r, row("", ""))
	}
	attr := ""
	if t.ClassName != "" {
		attr = "class=" + t.ClassName
	}
	r = append(r, row(p(t.Name), "", p("table"), "", "", p(attr), p(t.Desc)))
	for _, c := range t.Cols {
		key := ""
		switch {
		case c.PK:
			key = "P"
		case c.UQ:
			key = "U"
		}
		ref := ""
		if c.Ref != nil {
			ref = refMarks[c.Ref.Rel] + c.Ref.Table + "." + c.Ref.Column
		}
		r = append(r, xRow{[]string{p(ref), p(c.Name), p(colFormat(c)), p(key), p(ifs(c.NN != f.nullable, "O")), p(strings.Join(colAttrs(c, f.auto), f.sep)), p(c.Desc)}, c.Star})
	}
	for _, x := range t.Idx {
		for _, s := range x.Cols {
			b, st := strings.CutSuffix(s, "*")
			r = append(r, xRow{[]string{p(x.Name), p(b), "", p("I")}, st})
		}
	}
	return r
}

// sheets are the data sheets of a document: one per group.
func docSheets(d *Doc, f xForm) []*xSheet {
	var r []*xSheet
	for _, t := range sortedDoc(d).Tabs {
		g := t.Group
		if g == "" {
			g = "Common"
		}
		if len(r) == 0 || r[len(r)-1].name != g {
			r = append(r, &xSheet{g, []xRow{header(f)}})
		}
		s := r[len(r)-1]
		s.rows = append(s.rows, tabRows(t, f)...)
	}
	return r
}

func metaSheet(d *Doc) *xSheet {
	return &xSheet{"Meta", []xRow{row("author", d.Author), row("name", d.Name), row("version", d.Version)}}
}

// bookText is the text of a workbook; trailing empty cells and empty rows do not matter.
func bookText(sheets ...*xSheet) string {
	var b strings.Builder
	for _, s := range sheets {
		b.WriteString("[sheet " + s.name + ":\n")
		for _, r := range s.rows {
			n := len(r.cells)
			for n > 0 && r.cells[n-1] == "" {
				n--
			}
			if n > 0 {
				b.WriteString(star("["+strings.Join(r.cells[:n], "|")+"|]\n", r.star, 0))
			}
		}
		b.WriteString("]\n")
	}
	return b.String()
}

func bookJ(sheets ...*xSheet) J {
	var ss []JI
	for i, s := range sheets {
		rs := []JI{}
		for j, r := range s.rows {
			cs := []JI{}
			for _, c := range r.cells {
				cs = append(cs, JI{V: J{"Value": c}})
			}
			rs = append(rs, JI{Class: fmt.Sprintf("r%d", j), Star: r.star, V: J{"Cells": cs}})
		}
		ss = append(ss, JI{Class: fmt.Sprintf("s%d", i), V: J{"Name": s.name, "Rows": rs}})
	}
	return J{"Sheets": ss}
}

func xSet(sheets func(c *Case) []*xSheet) func(c *Case, ctx *Ctx) {
	return func(c *Case, ctx *Ctx) {
		ctx.Vals["flag:input"] = nv("«flag:input».xlsx")
		ctx.absent()
		setJ(ctx, "input", c.filled(bookJ(sheets(c)...)))
	}
}

func xCase(name string, d *Doc, sheets ...*xSheet) *Case {
	return &Case{Name: name, Cmd: "import xlsx", Norm: normExact, Docs: map[string]*Doc{"want": d}, Set: xSet(func(*Case) []*xSheet { return sheets }), Expect: wantDoc, Fit: xFit}
}

// xFit: what a workbook can express.
func xFit(d *Doc) bool {
	bad := func(s, chars string) bool { return strings.TrimSpace(s) != s || strings.ContainsAny(s, chars) }
	for _, t := range d.Tabs {
		if t.Group == "Meta" || bad(t.Name, "") || bad(t.Desc, "") || bad(t.ClassName, ",") {
			return false
		}
		for _, c := range t.Cols {
			if bad(c.Name, "") || bad(c.Default, ",") || bad(c.OnUpdate, ",") || bad(c.Desc, "") {
				return false
			}
			if r := c.Ref; r != nil && (r.Table == "" || r.Column == "" || strings.HasPrefix(r.Table, "<") || strings.HasPrefix(r.Table, ">") || strings.HasPrefix(r.Table, "-") || bad(r.Table, ".") || bad(r.Column, ".")) {
				return false
			}
		}
		for _, x := range t.Idx {
			if bad(x.Name, "") {
				return false
			}
			for _, s := range x.Cols {
				if bad(s, "") {
					return false
				}
			}
		}
	}
	return true
}

// grouped gives every table without group the group of its sheet.
func grouped(d *Doc) *Doc {
	n := *d
	n.Tabs = nil
	for _, t := range d.Tabs {
		u := *t
		if u.Group == "" {
			u.Group = "Common"
		}
		u.Cols = nil
		for _, c := range t.Cols {
			v := *c
			v.UQ = c.UQ && !c.PK // one key cell: the primary key is the mark
			u.Cols = append(u.Cols, &v)
		}
		n.Tabs = append(n.Tabs, &u)
	}
	return &n
}

// xCols are columns of every type, size form and attribute combination that a row can express.
func xCols() []*Col {
	var cs []*Col
	for _, m := range mysqlTypes {
		for i, s := range [][2]string{{"", ""}, {"40", ""}, {"12", "4"}} {
			c := &Col{Class: "c", Star: true, Name: "«C»", Type: m.Name, Size: s[0], Scale: s[1], NN: i == 1, PK: i == 2, UQ: i == 0}
			if m.Name == "enum" || m.Name == "set" {
				c.Star, c.Values = false, []string{"«V1»", "«V2»"}
			}
			cs = append(cs, c)
		}
	}
	for i := 0; i < 64; i++ {
		c := &Col{Class: "c", Star: true, Name: "«C»", Type: "int64", NN: i&1 > 0, PK: i&2 > 0, UQ: i&4 > 0, AI: i&8 > 0}
		if i&16 > 0 {
			c.Default, c.Desc = "«DEF»", "«D»"
		}
		if i&32 > 0 {
			c.OnUpdate = "«OU»"
		}
		cs = append(cs, c)
	}
	for _, t := range []string{"varchar", "decimal", "int64"} {
		for _, s := range [][2]string{{"«SZ»", ""}, {"«SZ»", "«SC»"}, {"1", ""}, {"9", ""}, {"10", "9"}, {"255", ""}, {"256", ""}, {"1000", "2"}, {"65535", ""}, {"65535", "10"}} {
			cs = append(cs, &Col{Class: "c", Star: true, Name: "«C»", Type: t, Size: s[0], Scale: s[1], Desc: "«D»"})
		}
	}
	for _, d := range [][2]string{{"fn::now", "fn::now"}, {"fn::CURRENT_TIMESTAMP", "fn::«F»"}, {"a=b", "c=d"}, {"", "fn::now"}, {"0", ""}} {
		cs = append(cs, &Col{Class: "c", Star: true, Name: "«C»", Type: "datetime", Default: d[0], OnUpdate: d[1]})
	}
	for i := 0; i < 16; i++ {
		for _, rel := range []string{"n:1", "1:n", "1:1"} {
			c := &Col{Class: "c", Star: i&8 == 0, Name: "«C»", Type: "int32", NN: i&1 > 0, PK: i&2 > 0, UQ: i&4 > 0, Ref: &Ref{"«RT»", "«RC»", rel}}
			if i&8 > 0 {
				c.AI, c.Default, c.Desc, c.Ref = i&1 > 0, "«DEF»", "«D»", &Ref{"group", "id", rel}
			}
			cs = append(cs, c)
		}
	}
	return cs
}

func xDocs() map[string]*Doc {
	ds := map[string]*Doc{}
	add := func(n string, tabs ...*Tab) *Doc {
		d := &Doc{Author: "«AU»", Name: "«NM»", Version: "«VER»", Tabs: tabs}
		ds[n] = d
		return d
	}
	key := func() *Col { return &Col{Class: "k", Name: "«K»", Type: "int64", PK: true, NN: true, AI: true} }
	end := func() *Col { return &Col{Class: "z", Name: "«Z»", Type: "date", Desc: "«ZD»"} }
	for i, c := range xCols() {
		add(fmt.Sprintf("column %d: %s", i, colFormat(c)), &Tab{Name: "«T»", Group: "«G»", Cols: []*Col{key(), c, end()}})
	}
	for i := 0; i < 8; i++ {
		t := &Tab{Name: "«T»", Cols: []*Col{key()}}
		if i&1 > 0 {
			t.Desc = "«TD»"
		}
		if i&2 > 0 {
			t.ClassName = "«CN»"
		}
		if i&4 > 0 {
			t.Group = "«G»"
		}
		d := add(fmt.Sprintf("table %d", i), t)
		if i&1 > 0 {
			d.Author = ""
		}
		if i&2 > 0 {
			d.Name = ""
		}
		if i&4 > 0 {
			d.Version = ""
		}
	}
	add("indexes", &Tab{Name: "«T»", Group: "«G»", Cols: []*Col{key(), end()}, Idx: []*Idx{{Name: "«IX»", Cols: []string{"«K»", "«Z»"}}, {Name: "«IY»", Cols: []string{"«Z»"}}}})
	for _, n := range []int{3, 5} {
		x := &Idx{Name: "«IX»"}
		for i := 0; i < n; i++ {
			x.Cols = append(x.Cols, fmt.Sprintf("«X%d»", i))
		}
		add(fmt.Sprintf("%d index columns", n), &Tab{Name: "«T»", Group: "«G»", Cols: []*Col{key(), end()}, Idx: []*Idx{{Name: "«IW»", Cols: []string{"«K»"}}, x}})
	}
	add("many index columns", &Tab{Name: "«T»", Group: "«G»", Cols: []*Col{key(), end()}, Idx: []*Idx{{Name: "«IX»", Cols: []string{"«X»*"}}}})
	mk := func(n, g string) *Tab {
		t := &Tab{Name: n, Group: g, Desc: "«TD" + n + "»", Cols: []*Col{{Name: n + "id", Type: "int64", PK: true, NN: true, AI: true}, {Class: "c", Star: true, Name: "«" + n + "c»", Type: "varchar", Size: "40", Desc: "«D»"}, {Name: n + "end", Type: "decimal", Size: "12", Scale: "4", UQ: true, NN: true}},
			Idx: []*Idx{{Name: "ix", Cols: []string{n + "id"}}}}
		if n != "mmm" {
			t.ClassName = "«CN" + n + "»"
		}
		return t
	}
	add("one group", mk("aaa", "g"), mk("mmm", "g"), mk("zzz", "g"))
	add("no group", mk("aaa", ""), mk("mmm", ""))
	add("groups", mk("zzz", ""), mk("aaa", "a"), mk("mmm", "a"), mk("bbb", "z"))
	add("groups, interleaved", mk("aaa", "z"), mk("bbb", "a"), mk("mmm", "z"), mk("zzz", "a"))
	add("no tables")
	add("no columns", &Tab{Name: "«T»", Group: "«G»"})
	return ds
}

func xlsxExpect(c *Case) string {
	return outFile(bookText(append([]*xSheet{metaSheet(c.doc())}, docSheets(c.doc(), xForm{nullable: c.Flags["useNullColumn"] == "true", auto: "autoInc", sep: ", "})...)...))
}

func xlsxExports() []*Case {
	var cs []*Case
	for n, d := range xDocs() {
		for _, null := range []bool{false, true} {
			c := &Case{Name: fmt.Sprintf("%s, nullable header %v", n, null), Cmd: "export xlsx", Norm: normExact, Docs: map[string]*Doc{"input": d}, Fit: xFit,
				Flags: map[string]string{"useNullColumn": fmt.Sprint(null)},
				Expect: func(c *Case) string {
					return outFile(bookText(append([]*xSheet{metaSheet(c.doc())}, docSheets(c.doc(), xForm{nullable: null, auto: "autoInc", sep: ", "})...)...))
				}}
			cs = append(cs, c)
		}
	}
	return cs
}

func xlsxImports(forms []xForm) []*Case {
	var cs []*Case
	for n, d := range xDocs() {
		if n == "many index columns" {
			continue // the rows of an index are merged one by one: decided for lists of fixed length
		}
		if strings.Contains(n, "«SZ»") {
			continue // a size read from a cell is a number: decided for literal ones
		}
		for i, f := range forms {
			c := &Case{Name: fmt.Sprintf("%s, form %d", n, i), Cmd: "import xlsx", Norm: normExact, Docs: map[string]*Doc{"want": grouped(d)}, Expect: wantDoc, Fit: xFit,
				Set: xSet(func(c *Case) []*xSheet {
					return append([]*xSheet{metaSheet(c.Docs["want"])}, docSheets(c.Docs["want"], f)...)
				})}
			if t := d.Tabs; len(t) > 0 && len(t[0].Cols) > 1 && (t[0].Cols[1].Type == "enum" || t[0].Cols[1].Type == "set") {
				c.Known = []KnownOut{{"enum-and-set", func(*Case) string { return "!error" }}}
			}
			cs = append(cs, c)
		}
	}
	return cs
}

var xForms = []xForm{
	{false, "autoInc", ", ", "", false}, {true, "autoInc", ", ", "", false}, {false, "autoinc", ",", "", true}, {true, "autoinc", " , ", " ", true}, {false, "autoInc", ",", "  ", false},
}

// xlsxNotation are workbooks with the notations that the exporter does not write.
func xlsxNotation() []*Case {
	var cs []*Case
	add := func(n string, d *Doc, sheets ...*xSheet) {
		cs = append(cs, xCase(n, d, sheets...))
	}
	f := xForm{auto: "autoinc", sep: ","}
	id := func() *Col { return &Col{Name: "id", Type: "int64", PK: true, NN: true, AI: true} }
	idRow := row("", "id", "int64", "P", "O", "autoinc", "")
	tr := row("«T»", "", "table")
	tab := func(cols ...*Col) *Tab { return &Tab{Name: "«T»", Group: "«G»", Cols: cols} }
	doc := func(ts ...*Tab) *Doc { return &Doc{Tabs: ts} }
	sh := func(rows ...xRow) *xSheet { return &xSheet{"«G»", append([]xRow{header(f)}, rows...)} }
	// types
	for _, a := range sortedKeys(aliases) {
		for _, form := range []string{a, strings.ToUpper(a), a + "(17)", a + "(12,4)", a + "(12, 4)"} {
			c := &Col{Name: "«C»", Type: a, NN: true}
			if strings.Contains(form, "17") {
				c.Size = "17"
			}
			if strings.Contains(form, "12") {
				c.Size, c.Scale = "12", "4"
			}
			add("type "+form, doc(tab(id(), c)), sh(tr, idRow, row("", "«C»", form, "", "O")))
		}
	}
	// short rows, blank rows, rows before the first table
	add("short rows", doc(tab(id(), &Col{Name: "«C»", Type: "date"})), sh(tr, idRow, row("", "«C»", "date")))
	add("short rows, nullable", doc(tab(&Col{Name: "«C»", Type: "date", NN: true}, &Col{Name: "«D»", Type: "time"})), &xSheet{"«G»", []xRow{header(xForm{nullable: true}), tr, row("", "«C»", "date"), row("", "«D»", "time", "", "O")}})
	add("blank rows", doc(tab(id(), &Col{Name: "«C»", Type: "date"})), sh(row(), row("", "x"), row("«N»", "", ""), tr, row(), idRow, row("", "", "varchar"), row("", "«C»", "date"), row()))
	no := xCase("table without name", doc(), sh(row("", "", "table"), idRow))
	no.Expect = func(*Case) string { return "!error" }
	cs = append(cs, no)
	// references
	for _, r := range []struct {
		cell string
		ref  *Ref
	}{{"«RT».«RC»", &Ref{"«RT»", "«RC»", "n:1"}}, {">«RT».«RC»", &Ref{"«RT»", "«RC»", "n:1"}}, {"<group.id", &Ref{"group", "id", "1:n"}}, {"-group.id", &Ref{"group", "id", "1:1"}}, {"", nil}} {
		add("reference "+r.cell, doc(tab(id(), &Col{Name: "«C»", Type: "int64", NN: true, Ref: r.ref})), sh(tr, idRow, row(r.cell, "«C»", "long", "", "O")))
	}
	// attributes in any order
	for i, a := range []string{"default=«DEF»,onUpdate=«OU»,autoinc", "onUpdate=«OU»,autoInc,default=«DEF»", " autoinc ,  default=«DEF» , onUpdate=«OU» ", "unknown,autoinc,default=«DEF»,other=x,onUpdate=«OU»"} {
		add(fmt.Sprintf("attributes %d", i), doc(tab(&Col{Name: "«C»", Type: "int32", AI: true, Default: "«DEF»", OnUpdate: "«OU»", NN: true}, &Col{Name: "«D»", Type: "int32"})), sh(tr, row("", "«C»", "int", "", "O", a, ""), row("", "«D»", "int", "", "", "", "")))
	}
	// index rows of one name, apart from each other
	t := tab(id(), &Col{Name: "«C»", Type: "date"})
	t.Idx = []*Idx{{Name: "ia", Cols: []string{"id", "«C»"}}, {Name: "ib", Cols: []string{"«C»"}}}
	add("combined index", doc(t), sh(tr, idRow, row("", "«C»", "date"), row("ia", "id", "", "I"), row("ib", "«C»", "", "I"), row("ia", "«C»", "", "I")))
	add("index between columns", doc(t), sh(tr, idRow, row("ia", "id", "", "I"), row("ib", "«C»", "", "I"), row("", "«C»", "date"), row("ia", "«C»", "", "I")))
	// sheets: header per sheet, place of the meta sheet
	d := &Doc{Author: "«AU»", Name: "«NM»", Version: "«VER»", Tabs: []*Tab{{Name: "ta", Group: "ga", Cols: []*Col{{Name: "«C»", Type: "date", NN: true}}}, {Name: "tb", Group: "gb", Cols: []*Col{{Name: "«D»", Type: "date"}}}, {Name: "tc", Group: "gc", Cols: []*Col{{Name: "«E»", Type: "date", NN: true}}}}}
	s := []*xSheet{{"ga", []xRow{header(xForm{nullable: true}), row("ta", "", "table"), row("", "«C»", "date")}}, {"gb", []xRow{header(f), row("tb", "", "table"), row("", "«D»", "date")}}, {"gc", []xRow{header(f), row("tc", "", "table"), row("", "«E»", "date", "", "O")}}}
	m := &xSheet{"Meta", []xRow{row("version", "«VER»"), row("author", "«AU»"), row(), row("remark"), row("name", "«NM»")}}
	add("meta sheet first", d, m, s[0], s[1], s[2])
	add("meta sheet between", d, s[1], m, s[0], s[2])
	add("meta sheet last", d, s[2], s[1], s[0], m)
	nd := *d
	nd.Author, nd.Name, nd.Version = "", "", ""
	add("no meta sheet", &nd, s[1], s[2], s[0])
	add("empty sheets", &nd, &xSheet{"x", nil}, s[1], &xSheet{"y", []xRow{header(f)}}, s[2], s[0])
	return cs
}

func init() {
	checks["X01"] = func(k *Check) {
		k.rule("the workbook written by 'export xlsx' is compared, as a language over all schemas, with the documented layout, and the document that 'import xlsx' writes for that layout with the schema itself.")
		k.cases(append(append(append(xlsxExports(), xlsxImports(xForms[:2])...), mixedExports(500)...), mixedImports(500)...))
	}
	checks["X02"] = func(k *Check) {
		k.rule("the document written by 'import xlsx' is compared with the documented meaning of the workbook, for every cell notation of the format.")
		k.cases(append(append(xlsxImports(xForms[2:]), xlsxNotation()...), mixedImports(800)...))
	}
}
