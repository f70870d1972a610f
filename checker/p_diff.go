package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Oracle of the schema diffs: the changes that lead from one schema to the other, rendered for each of the three formats.

// change is one difference: what is on tab, or leads from old to tab, and from oldCol to col.
type change struct {
	kind        string
	tab, old    *Tab
	col, oldCol *Col
	after       string // the column before an added one
	name        string // the name of the unique constraint
	number      string // the number of the change set group
}

type chset struct {
	id      string
	changes []change
}

type differ struct {
	lqScope
	lq    bool
	major int
	minor int
	out   []chset
}

func (d *differ) id() string {
	if d.minor == 0 {
		return fmt.Sprint(d.major)
	}
	return fmt.Sprintf("%d-%d", d.major, d.minor)
}

// next adds a change set with the following number.
func (d *differ) next(cs ...change) {
	d.minor++
	d.out = append(d.out, chset{d.id(), cs})
}

func colByName(t *Tab, n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func sameNames(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

func sameType(a, b *Col) bool {
	return a.Type == b.Type && num(a.Size) == num(b.Size) && num(a.Scale) == num(b.Scale) && sameNames(a.Values, b.Values)
}

// isRenamed: the columns differ in nothing but their names.
func (d *differ) isRenamed(a, b *Col) bool {
	return sameType(a, b) && (!d.Comments || a.Desc == b.Desc) && a.NN == b.NN && a.PK == b.PK && a.UQ == b.UQ && a.AI == b.AI && a.Default == b.Default && a.OnUpdate == b.OnUpdate
}

func sameCols(a, b *Tab) bool {
	if len(a.Cols) != len(b.Cols) {
		return false
	}
	for i, x := range a.Cols {
		y := *b.Cols[i]
		y.Class = x.Class
		if len(x.Values) == 0 && len(y.Values) == 0 { // the documents do not tell absent from empty
			y.Values = x.Values
		}
		if !reflect.DeepEqual(*x, y) {
			return false
		}
	}
	return true
}

func (d *differ) columns(t, o *Tab) {
	if d.Comments && t.Desc != o.Desc {
		d.next(change{kind: "table comment", tab: t, old: o})
	}
	gone := map[string]*Col{}
	for _, c := range o.Cols {
		gone[c.Name] = c
	}
	var added []*Col
	for _, c := range t.Cols {
		p := colByName(o, c.Name)
		if p == nil {
			added = append(added, c)
			continue
		}
		delete(gone, c.Name)
		ch := change{tab: t, old: o, col: c, oldCol: p}
		add := func(kind string, ok bool) {
			if ok {
				x := ch
				x.kind = kind
				d.next(x)
			}
		}
		add("type", !sameType(c, p))
		add("comment", d.Comments && c.Desc != p.Desc)
		add("nullable", c.NN != p.NN)
		add("autoinc", c.AI != p.AI && !(d.lq && !c.AI))
		add("default", c.Default != p.Default)
	}
	renamed := map[*Col]*Col{}
	for _, c := range added {
		for _, n := range sortedKeys(gone) {
			if d.isRenamed(c, gone[n]) {
				renamed[c] = gone[n]
				delete(gone, n)
				break
			}
		}
	}
	uq := !sameNames(uqNames(t), uqNames(o))
	if uq && len(uqNames(o)) > 0 {
		d.next(change{kind: "drop unique", tab: o, name: t.Name + d.Suffix})
	}
	for _, n := range sortedKeys(gone) {
		d.next(change{kind: "drop column", tab: t, col: gone[n]})
	}
	for _, c := range added {
		if p := renamed[c]; p != nil {
			d.next(change{kind: "rename column", tab: t, col: c, oldCol: p})
			if d.lq && p.NN {
				d.next(change{kind: "nullable", tab: t, col: c})
			}
		}
	}
	var fresh []change
	for _, c := range added {
		if renamed[c] == nil {
			x := change{kind: "add column", tab: t, col: c}
			for i, y := range t.Cols {
				if y == c && i > 0 {
					x.after = t.Cols[i-1].Name
				}
			}
			fresh = append(fresh, x)
		}
	}
	if len(fresh) > 0 {
		d.next(fresh...)
	}
	if !sameNames(pkNames(t), pkNames(o)) {
		d.next(change{kind: "primary key", tab: t, old: o})
	}
	if uq && len(uqNames(t)) > 0 {
		d.next(change{kind: "create unique", tab: t, name: t.Name + d.Suffix})
	}
}

// schemaDiff lists the change sets from one document to the other.
func schemaDiff(c *Case, lq bool) *differ {
	from, to := sortedDoc(c.Docs["from"]), sortedDoc(c.Docs["to"])
	d := &differ{lqScope: lqScopeOf(c, to), lq: lq}
	old := map[string]*Tab{}
	gone := map[string]*Tab{}
	for _, t := range from.Tabs {
		old[t.Name] = t
		if inGroups(c, t) {
			gone[t.Name] = t
		}
	}
	var added []*Tab
	for _, t := range to.Tabs {
		delete(gone, t.Name)
		if !inGroups(c, t) {
			continue
		}
		o := old[t.Name]
		if o == nil {
			added = append(added, t)
			continue
		}
		d.major++
		d.minor = 0
		n := len(d.out)
		d.columns(t, o)
		if len(d.out) == n {
			d.major--
		}
	}
	renamed := map[*Tab]*Tab{}
	for _, t := range added {
		for _, n := range sortedKeys(gone) {
			if sameCols(t, gone[n]) {
				renamed[t] = gone[n]
				delete(gone, n)
				break
			}
		}
	}
	group := func() {
		d.major++
		d.minor = 0
	}
	for _, n := range sortedKeys(gone) {
		group()
		d.out = append(d.out, chset{d.id(), []change{{kind: "drop table", tab: gone[n]}}})
	}
	for _, t := range added {
		o := renamed[t]
		if o == nil {
			continue
		}
		group()
		if len(uqNames(o)) > 0 {
			d.out = append(d.out, chset{d.id(), []change{{kind: "drop unique", tab: o, name: o.Name + d.Suffix}}})
		}
		d.next(change{kind: "rename table", tab: t, old: o})
		if len(uqNames(t)) > 0 {
			d.next(change{kind: "create unique", tab: t, name: t.Name + d.Suffix})
		}
	}
	for _, t := range added {
		if renamed[t] == nil {
			group()
			d.out = append(d.out, chset{d.id(), []change{{kind: "create table", tab: t, number: d.id()}}})
		}
	}
	return d
}

// ---- MySQL ----

func (d *differ) sql(x change) string {
	alter := "ALTER TABLE " + x.tab.Name + " "
	switch x.kind {
	case "table comment":
		return alter + "COMMENT = '" + x.tab.Desc + "';\n"
	case "type", "comment", "nullable", "autoinc", "default":
		return alter + "MODIFY COLUMN " + mysqlColDef(x.col) + ";\n"
	case "add column":
		return alter + "ADD COLUMN " + mysqlColDef(x.col) + ";\n"
	case "drop column":
		return alter + "DROP COLUMN " + x.col.Name + ";\n"
	case "rename column":
		return alter + "CHANGE COLUMN " + x.oldCol.Name + " " + mysqlColDef(x.col) + ";\n"
	case "primary key":
		r := ""
		if len(pkNames(x.old)) > 0 {
			r += alter + "DROP PRIMARY KEY;\n"
		}
		if n := pkNames(x.tab); len(n) > 0 {
			r += alter + "ADD PRIMARY KEY (" + strings.Join(n, ",") + ");\n"
		}
		return r
	case "drop unique":
		return alter + "DROP INDEX `" + x.name + "`;\n"
	case "create unique":
		return alter + "ADD UNIQUE KEY `" + x.name + "` (" + strings.Join(uqNames(x.tab), ",") + ");\n"
	case "drop table":
		return "DROP TABLE " + x.tab.Name + ";\n"
	case "rename table":
		return "RENAME TABLE " + x.old.Name + " TO " + x.tab.Name + ";\n"
	case "create table":
		return mysqlTable(x.tab, d.Suffix)
	}
	panic(x.kind)
}

func flywayExpect(c *Case) string {
	d := schemaDiff(c, false)
	r := ""
	for _, s := range d.out {
		for _, x := range s.changes {
			r += d.sql(x)
		}
		r += "\n"
	}
	return outFile(r)
}

// ---- liquibase ----

func (d *differ) yaml(x change) string {
	tn := []string{"tableName", ystr(x.tab.Name)}
	with := func(kind string, kv ...string) string { return lqChange(kind, append(kv, tn...)...) }
	col := func(kind string, kv ...string) string {
		return with(kind, append(kv, "columnName", ystr(x.col.Name), "columnDataType", ystr(lqType(x.col)))...)
	}
	switch x.kind {
	case "table comment":
		return with("setTableRemarks", "remarks", ystr(x.tab.Desc))
	case "type":
		return with("modifyDataType", "columnName", ystr(x.col.Name), "newDataType", ystr(lqType(x.col)))
	case "comment":
		return with("setColumnRemarks", "columnName", ystr(x.col.Name), "remarks", ystr(x.col.Desc))
	case "nullable":
		if !x.col.NN {
			return col("dropNotNullConstraint")
		}
		def := x.col.Default
		if strings.HasPrefix(def, "fn::") {
			def = ""
		}
		return col("addNotNullConstraint", "defaultNullValue", ystr(def))
	case "autoinc":
		return col("addAutoIncrement")
	case "default":
		if x.col.Default == "" {
			return col("dropDefaultValue")
		}
		k, v := lqDefault(x.col)
		return col("addDefaultValue", k, v)
	case "drop column":
		return with("dropColumn", "columnName", ystr(x.col.Name))
	case "rename column":
		return with("renameColumn", "columnDataType", ystr(lqType(x.col)), "newColumnName", ystr(x.col.Name), "oldColumnName", ystr(x.oldCol.Name))
	case "primary key":
		var l []string
		if len(pkNames(x.old)) > 0 {
			l = append(l, with("dropPrimaryKey"))
		}
		if len(pkNames(x.tab)) > 0 {
			l = append(l, lqAddPK(x.tab))
		}
		return strings.Join(l, " ")
	case "drop unique":
		return with("dropUniqueConstraint", "constraintName", ystr(x.name))
	case "create unique":
		return lqAddUnique(x.tab, d.lqScope)
	case "drop table":
		return with("dropTable")
	case "rename table":
		return lqChange("renameTable", "newTableName", ystr(x.tab.Name), "oldTableName", ystr(x.old.Name))
	}
	panic(x.kind)
}

func lqDiffExpect(c *Case) string {
	d := schemaDiff(c, true)
	r := ""
	for _, s := range d.out {
		switch s.changes[0].kind {
		case "create table":
			r += lqCreate(s.changes[0].tab, d.lqScope, s.id)
		case "add column":
			cols := ""
			for _, x := range s.changes {
				cols += lqColumn(x.col, d.lqScope, false, false, x.after) + " "
			}
			r += lqSet(d.lqScope, s.id, false, lqChange("addColumn", "tableName", ystr(s.changes[0].tab.Name), "columns", "["+cols+"]"))
		default:
			var l []string
			for _, x := range s.changes {
				l = append(l, d.yaml(x))
			}
			r += lqSet(d.lqScope, s.id, false, l...)
		}
	}
	return outFile(lqLog(r))
}

// ---- markdown ----

func mdType(c *Col) string {
	if len(c.Values) > 0 {
		return sizeText(c.Type, c, true, true) + "(" + joinIts(strIts(c.Values, func(s string) string { return "'" + s + "'" }), ", ") + ")"
	}
	return sizeText(c.Type, c, true, true)
}

func mdLine(x change) string {
	list := func(l []string) string { return "[" + strings.Join(l, ", ") + "]" }
	tick := func(s string) string { return "`" + s + "`" }
	either := func(b bool, y, n string) string {
		if b {
			return y
		}
		return n
	}
	switch x.kind {
	case "table comment":
		return "update table comment: " + tick(x.tab.Desc)
	case "type":
		return "change column type: " + tick(x.col.Name) + " :" + tick(mdType(x.oldCol)) + " → " + tick(mdType(x.col))
	case "comment":
		return "update column comment: " + tick(x.col.Name) + " :" + tick(x.col.Desc)
	case "nullable":
		return either(x.col.NN, "set not null: ", "set nullable: ") + tick(x.col.Name)
	case "autoinc":
		return either(x.col.AI, "set auto incremental: ", "remove auto incremental: ") + tick(x.col.Name)
	case "default":
		if x.col.Default == "" {
			return "remove default value: " + tick(x.col.Name)
		}
		return "update default value: " + tick(x.col.Name) + " : " + tick(x.col.Default)
	case "add column":
		return "add column: " + tick(x.col.Name)
	case "drop column":
		return "drop column: " + tick(x.col.Name)
	case "rename column":
		return "rename column: " + tick(x.oldCol.Name) + " → " + tick(x.col.Name)
	case "primary key":
		return "update PK: " + list(pkNames(x.old)) + " → " + list(pkNames(x.tab))
	case "drop unique":
		return "drop unique constraint: " + list(uqNames(x.tab))
	case "create unique":
		return "create unique constraint: " + list(uqNames(x.tab))
	case "drop table":
		return "drop table"
	case "rename table":
		return "rename table " + tick(x.old.Name) + " → " + tick(x.tab.Name)
	case "create table":
		return "create table"
	}
	panic(x.kind)
}

func mdExpect(c *Case) string {
	d := schemaDiff(c, false)
	byTable := map[string][]string{}
	for _, s := range d.out {
		for _, x := range s.changes {
			n := x.tab.Name
			if x.kind == "rename table" || x.kind == "primary key" {
				n = x.old.Name
			}
			byTable[n] = append(byTable[n], "* "+mdLine(x)+"\n")
		}
	}
	r := "# DB Schema changes\n\n* from: `" + c.Docs["from"].Version + "`\n* to: `" + c.Docs["to"].Version + "`\n"
	for _, n := range sortedKeys(byTable) {
		r += "\n## " + n + "\n" + strings.Join(byTable[n], "")
	}
	return outFile(r)
}

var diffFormats = []struct {
	cmd    string
	expect func(c *Case) string
	norm   *Norm
}{{"diff flyway", flywayExpect, normCode}, {"diff liquibase", lqDiffExpect, normExact}, {"diff md", mdExpect, normPlain}}

type pair struct {
	name     string
	from, to *Doc
	flags    map[string]string
}

// diffCases renders each pair of documents with each of the commands.
func diffCases(ps []pair, view *View, cmds ...string) []*Case {
	var cs []*Case
	for _, p := range ps {
		for _, f := range diffFormats {
			use := len(cmds) == 0
			for _, n := range cmds {
				use = use || n == f.cmd
			}
			if !use {
				continue
			}
			v := view
			if f.cmd == "diff liquibase" && v == nil {
				v = dropIDs
			}
			cs = append(cs, &Case{Name: p.name, Cmd: f.cmd, Norm: f.norm, Flags: p.flags, View: v, NoLit: true,
				Docs: map[string]*Doc{"from": p.from, "to": p.to}, Expect: f.expect})
		}
	}
	return cs
}

func flagsOf(kv ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			m[kv[i]] = kv[i+1]
		}
	}
	return m
}

// inSchema puts a column between others, and its table between others.
func inSchema(ver, desc string, c *Col) *Doc {
	x := *c
	x.Class, x.Name = "m", "c_mid"
	plain := func(n string) *Tab {
		return &Tab{Class: n, Name: n, Cols: []*Col{{Class: "id", Name: "id", Type: "int64", PK: true, NN: true}, {Class: "n", Name: "n", Type: "varchar", Size: "20", UQ: true}}}
	}
	return &Doc{Version: ver, Author: "«AU»", Tabs: []*Tab{plain("t_aa"), {Class: "t", Name: "t_mm", Desc: desc,
		Cols: []*Col{{Class: "a", Name: "c_id", Type: "int64", PK: true, NN: true}, &x, {Class: "z", Name: "c_end", Type: "varchar", Size: "20"}}}, plain("t_zz")}}
}

// attrVariants are the columns a column may be changed into.
func attrVariants(typ string) map[string]*Col {
	m := map[string]*Col{}
	t := typeOf(typ)
	add := func(n string, f func(c *Col)) {
		c := colOfType(typ)
		f(c)
		m[n] = c
	}
	add("plain", func(c *Col) {})
	add("notnull", func(c *Col) { c.NN = true })
	defs := []string{"«D1»", "«D2»"}
	switch typ {
	case "decimal", "float", "double":
		defs = []string{"0", "1.5"}
	case "boolean":
		defs = []string{"true", "false"}
	}
	add("default 1", func(c *Col) { c.Default = defs[0] })
	add("default 2", func(c *Col) { c.Default = defs[1] })
	add("default function", func(c *Col) { c.Default = "fn::«FN»" })
	add("comment 1", func(c *Col) { c.Desc = "«C1»" })
	add("comment 2", func(c *Col) { c.Desc = "«C2»" })
	if t.Size {
		add("size 1", func(c *Col) { c.Size = "10" })
		add("size 2", func(c *Col) { c.Size = "12" })
	}
	if t.Scale {
		add("scale 1", func(c *Col) { c.Size, c.Scale = "12", "1" })
		add("scale 2", func(c *Col) { c.Size, c.Scale = "12", "2" })
	}
	if isIntType8(typ) {
		add("autoinc", func(c *Col) { c.AI = true })
		add("autoinc notnull", func(c *Col) { c.AI, c.NN = true, true })
	}
	if typ == "enum" || typ == "set" {
		add("members 2", func(c *Col) { c.Values = []string{"x", "y"} })
		add("members 3", func(c *Col) { c.Values = []string{"y", "x"} })
		add("members 4", func(c *Col) { c.Values = []string{"x", "y", "z"} })
	}
	if typ == "varchar" {
		add("size 3", func(c *Col) { c.Size = "266" })
		add("default 3", func(c *Col) { c.Default = "x " })
		add("default 4", func(c *Col) { c.Default = "x" })
		add("default 5", func(c *Col) { c.Default = "X" })
		add("comment 3", func(c *Col) { c.Desc = " x" })
		add("comment 4", func(c *Col) { c.Desc = "x" })
		add("comment 5", func(c *Col) { c.Desc = "X" })
	}
	add("all 1", func(c *Col) {
		c.NN, c.Default, c.Desc = true, defs[0], "«C1»"
		if t.Size {
			c.Size = "10"
		}
	})
	add("all 2", func(c *Col) {
		c.NN, c.Default, c.Desc = true, defs[1], "«C2»"
		if t.Scale {
			c.Size, c.Scale = "12", "2"
		}
	})
	return m
}

func attrPairs(types []string) []pair {
	var ps []pair
	for _, typ := range types {
		vs := attrVariants(typ)
		for _, a := range sortedKeys(vs) {
			for _, b := range sortedKeys(vs) {
				for _, com := range []string{"", "true"} {
					ps = append(ps, pair{fmt.Sprintf("%s, %s to %s, comments %q", typ, a, b, com), inSchema("«V0»", "«TD»", vs[a]), inSchema("«V1»", "«TD»", vs[b]), flagsOf("comments", com)})
				}
			}
		}
	}
	return ps
}

type crossAttr struct {
	name string
	set  [3]func(c *Col) // nil: leaves the column as it is
}

func (a crossAttr) states() int {
	if a.set[2] == nil {
		return 2
	}
	return 3
}

func crossAttrs(typ string) []crossAttr {
	flag := func(name string, f func(c *Col)) crossAttr { return crossAttr{name, [3]func(c *Col){nil, f, nil}} }
	other, lit := "int64", [2]string{"7", "12"}
	if typ == "varchar" {
		other, lit = "char", [2]string{"x", "y"}
	}
	attrs := []crossAttr{flag("not null", func(c *Col) { c.NN = true }), flag("pk", func(c *Col) { c.PK = true }), flag("unique", func(c *Col) { c.UQ = true }),
		flag("type", func(c *Col) { c.Type = other }), flag("reference", func(c *Col) { c.Ref = &Ref{"t_aa", "id", "n:1"} }), flag("on update", func(c *Col) { c.OnUpdate = "«OU»" }),
		{"default", [3]func(c *Col){nil, func(c *Col) { c.Default = lit[0] }, func(c *Col) { c.Default = lit[1] }}},
		{"comment", [3]func(c *Col){nil, func(c *Col) { c.Desc = "«C1»" }, func(c *Col) { c.Desc = "«C2»" }}},
		{"size", [3]func(c *Col){nil, func(c *Col) { c.Size = "10" }, func(c *Col) { c.Size = "20" }}}}
	if typ == "int32" {
		attrs = append(attrs, flag("autoinc", func(c *Col) { c.AI = true }))
	}
	return attrs
}

// renameCross: a column under another name that differs in up to one attribute (of three states), next to another attribute.
func renameCross() []pair {
	var ps []pair
	for _, typ := range []string{"int32", "varchar"} {
		attrs := crossAttrs(typ)
		for i, x := range attrs {
			for j, y := range attrs {
				if i == j {
					continue
				}
				for _, rest := range []bool{false, true} {
					mk := func(name string, vx, vy int) []*Tab {
						c := &Col{Class: "m", Name: name, Type: typ}
						for l, o := range attrs {
							switch {
							case l == i && vx > 0:
								o.set[vx](c)
							case l == j && vy > 0:
								o.set[vy](c)
							case l != i && l != j && rest && o.name != "type" && o.name != "reference":
								o.set[1](c)
							}
						}
						return []*Tab{{Class: "t", Name: "t_mm", Cols: []*Col{{Class: "a", Name: "c_1", Type: "int8"}, c, {Class: "z", Name: "c_2", Type: "int16"}}}}
					}
					for x0 := 0; x0 < x.states(); x0++ {
						for x1 := 0; x1 < x.states(); x1++ {
							com := []string{"", "true"}[(i+j+x0)%2]
							if x0 == x1 && j != (i+1)%len(attrs) {
								continue
							}
							ps = append(ps, pairOf(fmt.Sprintf("%s renamed, %s %d to %d next to %s, others %v, comments %q", typ, x.name, x0, x1, y.name, rest, com), mk("c_old", x0, 1), mk("c_new", x1, 1), flagsOf("comments", com)))
						}
					}
				}
			}
		}
	}
	return ps
}

// sizePairs: sizes that a database takes for a type by default, and others.
func sizePairs() []pair {
	var ps []pair
	sizes := []string{"", "1", "10", "11", "20", "254", "255", "65535"}
	for _, typ := range []string{"varchar", "char", "varbinary", "bit", "int32", "int64", "decimal", "double", "datetime", "text16"} {
		for _, a := range sizes {
			for _, b := range sizes {
				if t := typeOf(typ); t.Size || a == b || a == "" || b == "" {
					ps = append(ps, pair{fmt.Sprintf("%s, size %q to %q", typ, a, b), inSchema("«V0»", "«TD»", &Col{Type: typ, Size: a}), inSchema("«V1»", "«TD»", &Col{Type: typ, Size: b}), nil})
				}
			}
		}
	}
	return ps
}

// crossPairs: columns that differ in up to two attributes (of three states each), among equal ones.
func crossPairs() []pair {
	var ps []pair
	for _, typ := range []string{"int32", "varchar"} {
		attrs := crossAttrs(typ)
		n := func(a crossAttr) int {
			if a.set[2] == nil {
				return 2
			}
			return 3
		}
		for i, x := range attrs {
			for j, y := range attrs[:i] {
				for _, rest := range []bool{false, true} {
					mk := func(vx, vy int) *Col {
						c := &Col{Type: typ}
						for l, o := range attrs {
							switch {
							case l == i && vx > 0:
								o.set[vx](c)
							case l == j && vy > 0:
								o.set[vy](c)
							case l != i && l != j && rest && o.name != "type":
								o.set[1](c)
							}
						}
						return c
					}
					for v := 0; v < n(x)*n(x)*n(y)*n(y); v++ {
						w := v
						take := func(k int) int { r := w % k; w /= k; return r }
						x0, x1, y0, y1 := take(n(x)), take(n(x)), take(n(y)), take(n(y))
						if x0 == x1 && y0 == y1 {
							continue
						}
						for _, com := range []string{"", "true"} {
							if com == "" && (x.name == "comment") == (y.name == "comment") && (i+j)%3 > 0 {
								continue
							}
							ps = append(ps, pair{fmt.Sprintf("%s, %s %d to %d, %s %d to %d, others %v, comments %q", typ, x.name, x0, x1, y.name, y0, y1, rest, com), inSchema("«V0»", "«TD»", mk(x0, y0)), inSchema("«V1»", "«TD»", mk(x1, y1)), flagsOf("comments", com)})
						}
					}
				}
			}
		}
	}
	return ps
}

// typePairs: every type changed into every other.
func typePairs() []pair {
	var ps []pair
	for _, a := range mysqlTypes {
		for _, b := range mysqlTypes {
			x, y := colOfType(a.Name), colOfType(b.Name)
			ps = append(ps, pair{a.Name + " to " + b.Name, inSchema("«V0»", "", x), inSchema("«V1»", "", y), flagsOf()})
		}
	}
	return ps
}

func tableCommentPairs() []pair {
	var ps []pair
	for _, a := range []string{"", "«E1»", "«E2»"} {
		for _, b := range []string{"", "«E1»", "«E2»"} {
			for _, com := range []string{"", "true"} {
				ps = append(ps, pair{fmt.Sprintf("table comment %q to %q, comments %q", a, b, com), inSchema("«V0»", a, colOfType("int8")), inSchema("«V1»", b, colOfType("int16")), flagsOf("comments", com)})
			}
		}
	}
	return ps
}

func pairOf(name string, from, to []*Tab, fl map[string]string) pair {
	return pair{name, &Doc{Version: "«V0»", Author: "«A0»", Tabs: from}, &Doc{Version: "«V1»", Author: "«AU»", Tabs: to}, fl}
}

// keyPairs: every change of the keys of three columns.
func keyPairs() []pair {
	var ps []pair
	tab := func(m int, uq bool) []*Tab {
		t := &Tab{Class: "t", Name: "t_mm"}
		for j, n := range []string{"k_b", "k_a", "k_c"} {
			on := m>>j&1 > 0
			t.Cols = append(t.Cols, &Col{Class: n, Name: n, Type: "int32", PK: on && !uq, UQ: on && uq || !uq && j == 2})
		}
		return []*Tab{t}
	}
	for _, uq := range []bool{false, true} {
		for a := 0; a < 8; a++ {
			for b := 0; b < 8; b++ {
				for _, suf := range []string{"", "«SUF»"} {
					ps = append(ps, pairOf(fmt.Sprintf("key %03b to %03b, unique %v, suffix %q", a, b, uq, suf), tab(a, uq), tab(b, uq), flagsOf("uniqueNameSuffix", suf)))
				}
			}
		}
	}
	return ps
}

// columnPairs: columns that come, go and change their names.
func columnPairs() []pair {
	pool := []*Col{
		{Name: "c_a", Type: "int32"}, {Name: "c_b", Type: "int32"}, {Name: "c_c", Type: "int32", Desc: "«C1»"},
		{Name: "c_d", Type: "varchar", Size: "9", NN: true, UQ: true, Default: "«D1»"}, {Name: "c_e", Type: "varchar", Size: "9", NN: true, UQ: true, Default: "«D1»"}, {Name: "c_f", Type: "int64", PK: true, NN: true, AI: true},
	}
	tab := func(m int) []*Tab {
		t := &Tab{Class: "t", Name: "t_mm", Cols: []*Col{{Class: "o", Name: "c_c0", Type: "date"}}}
		for j, c := range pool {
			if m>>j&1 > 0 {
				x := *c
				x.Class = c.Name
				t.Cols = append(t.Cols, &x)
			}
		}
		sort.SliceStable(t.Cols, func(i, j int) bool { return t.Cols[i].Type > t.Cols[j].Type })
		return []*Tab{t}
	}
	var ps []pair
	for a := 0; a < 64; a++ {
		for b := 0; b < 64; b++ {
			if (a*64+b)%3 != 0 && a != 0 && b != 0 && a != 63 && b != 63 {
				continue
			}
			com := ""
			if (a+b)%2 == 0 {
				com = "true"
			}
			ps = append(ps, pairOf(fmt.Sprintf("columns %06b to %06b, comments %q", a, b, com), tab(a), tab(b), flagsOf("comments", com)))
		}
	}
	return ps
}

// renamePairs: a column with another name that differs in one attribute is no renamed column.
func renamePairs() []pair {
	var ps []pair
	for _, typ := range []string{"int32", "varchar", "decimal", "enum"} {
		vs := attrVariants(typ)
		vs["pk"] = &Col{Type: typ, PK: true, Values: colOfType(typ).Values}
		vs["unique"] = &Col{Type: typ, UQ: true, Values: colOfType(typ).Values}
		vs["on update"] = &Col{Type: typ, OnUpdate: "«U1»", Values: colOfType(typ).Values}
		for _, a := range sortedKeys(vs) {
			for _, b := range sortedKeys(vs) {
				com := ""
				if len(a) > len(b) {
					com = "true"
				}
				x, y := *vs[a], *vs[b]
				x.Name, x.Class, y.Name, y.Class = "c_old", "m", "c_new", "m"
				in := func(c *Col) []*Tab {
					return []*Tab{{Class: "t", Name: "t_mm", Cols: []*Col{{Class: "a", Name: "c_1", Type: "int8"}, c, {Class: "z", Name: "c_2", Type: "int16"}}}}
				}
				ps = append(ps, pairOf(fmt.Sprintf("%s, %s renamed to %s, comments %q", typ, a, b, com), in(&x), in(&y), flagsOf("comments", com)))
			}
		}
	}
	return ps
}

// tablePairs: tables that come, go, change their names or their groups, with any selection of groups.
func tablePairs() []pair {
	one := func() []*Col {
		return []*Col{{Class: "a", Name: "id", Type: "int64", PK: true, NN: true}, {Class: "b", Name: "b", Type: "varchar", Size: "5", Desc: "«C1»", UQ: true}, {Class: "c", Name: "c", Type: "decimal", Size: "9"}}
	}
	two := func() []*Col {
		return []*Col{{Class: "a", Name: "id", Type: "int64", PK: true, NN: true}, {Class: "b", Name: "ref", Type: "int64", Ref: &Ref{"t_b", "id", "n:1"}}}
	}
	pool := []*Tab{
		{Name: "t_a", Group: "g1", Cols: one()}, {Name: "t_b", Group: "g1", Desc: "«TD»", Cols: one()}, {Name: "t_c", Group: "g2", Cols: one()},
		{Name: "t_d", Cols: two()}, {Name: "t_e", Group: "g2", Cols: two(), Idx: []*Idx{{Class: "x", Name: "ix", Cols: []string{"ref"}}}},
	}
	set := func(m int) []*Tab {
		var r []*Tab
		for j, t := range pool {
			if m>>j&1 > 0 {
				x := *t
				x.Class = t.Name
				r = append(r, &x)
			}
		}
		return r
	}
	var ps []pair
	for a := 0; a < 32; a++ {
		for b := 0; b < 32; b++ {
			for i, g := range []string{"", "g1", "g2", "g1,g2"} {
				if (a+b+i)%2 != 0 && a != 0 && b != 0 {
					continue
				}
				au := ""
				if (a+b)%4 == 1 {
					au = "«AF»"
				}
				suf := ""
				if (a^b)&4 > 0 {
					suf = "«SUF»"
				}
				ps = append(ps, pairOf(fmt.Sprintf("tables %05b to %05b, groups %q", a, b, g), set(a), set(b), flagsOf("groups", g, "author", au, "uniqueNameSuffix", suf)))
			}
		}
	}
	// a table that moves to another group
	for _, g := range []string{"", "g1", "g2", "g1,g2"} {
		for _, from := range []string{"", "g1", "g2"} {
			for _, to := range []string{"", "g1", "g2"} {
				x, y := *pool[0], *pool[0]
				x.Class, x.Group, y.Class, y.Group = "x", from, "x", to
				y.Cols = two()
				ps = append(ps, pairOf(fmt.Sprintf("group %q to %q, groups %q", from, to, g), []*Tab{&x}, []*Tab{&y}, flagsOf("groups", g)))
			}
		}
	}
	// tables of other sizes and keys
	for n := 1; n < 5; n++ {
		for i := 0; i < 8; i++ {
			mk := func(name string) []*Tab {
				t := &Tab{Class: name, Name: name, Desc: "«TD»"}
				for j := 0; j < n; j++ {
					t.Cols = append(t.Cols, &Col{Class: fmt.Sprint(j), Name: fmt.Sprintf("c%d", 9-j), Type: "int32", PK: i&1 > 0 && j < 2, UQ: i&2 > 0 && j != 1})
				}
				if i&4 > 0 {
					t.ClassName, t.Group = "Cls"+name, "g"
					t.Idx = []*Idx{{Class: "x", Name: "ix", Cols: []string{"c9"}}}
				}
				return []*Tab{t}
			}
			a, b := mk("t_x"), mk("t_y")
			for j, p := range [][2][]*Tab{{a, b}, {b, a}, {nil, a}, {a, nil}, {a, append(append([]*Tab{}, a...), b...)}, {append(append([]*Tab{}, b...), mk("t_w")...), append(append([]*Tab{}, a...), mk("t_z")...)}} {
				ps = append(ps, pairOf(fmt.Sprintf("%d columns, keys %03b, %d", n, i, j), p[0], p[1], flagsOf("uniqueNameSuffix", "_uk")))
			}
		}
	}
	// tables with equal columns but for one attribute
	for _, f := range []func(c *Col){func(c *Col) {}, func(c *Col) { c.Name = "q" }, func(c *Col) { c.Desc = "«C2»" }, func(c *Col) { c.NN = true }, func(c *Col) { c.Size = "6" },
		func(c *Col) { c.PK = true }, func(c *Col) { c.UQ = false }, func(c *Col) { c.Default = "«D1»" }, func(c *Col) { c.OnUpdate = "«U1»" },
		func(c *Col) { c.Ref = &Ref{"t_a", "id", "n:1"} }, func(c *Col) { c.Type = "char" }} {
		x, y := *pool[0], *pool[1]
		x.Class, y.Class, y.Cols = "x", "y", one()
		f(y.Cols[1])
		ps = append(ps, pairOf(fmt.Sprintf("table of %+v", *y.Cols[1]), []*Tab{&x}, []*Tab{&y}, flagsOf()))
		ps = append(ps, pairOf(fmt.Sprintf("table of %+v, back", *y.Cols[1]), []*Tab{&y}, []*Tab{&x}, flagsOf()))
	}
	x, y := *pool[0], *pool[1]
	x.Class, y.Class, y.Cols = "x", "y", one()
	y.Cols[2].Scale = "2"
	ps = append(ps, pairOf("table of another scale", []*Tab{&x}, []*Tab{&y}, flagsOf()))
	return ps
}

// spellings: names that differ in letter case, and names that contain each other.
func spellingPairs() []pair {
	var ps []pair
	names := []string{"name", "Name", "NAME", "name2", "na", "n", "_name"}
	tab := func(t, c string, typ string) []*Tab {
		return []*Tab{{Class: "t", Name: t, Cols: []*Col{{Class: "i", Name: "id", Type: "int64"}, {Class: "c", Name: c, Type: typ, Size: "9"}}}}
	}
	for _, a := range names {
		for _, b := range names {
			for _, typ := range []string{"varchar", "char"} {
				ps = append(ps, pairOf("column "+a+" to "+b+" "+typ, tab("t", a, "varchar"), tab("t", b, typ), nil))
				ps = append(ps, pairOf("table "+a+" to "+b+" "+typ, tab(a, "c", "varchar"), tab(b, "c", typ), nil))
			}
			if a == b {
				continue
			}
			two := &Tab{Class: "t", Name: "t", Cols: []*Col{{Class: "a", Name: a, Type: "int8"}, {Class: "b", Name: b, Type: "int16", UQ: true}}}
			one := &Tab{Class: "t", Name: "t", Cols: []*Col{{Class: "b", Name: b, Type: "int32", PK: true}}}
			ps = append(ps, pairOf("columns "+a+" and "+b, []*Tab{two}, []*Tab{one}, nil), pairOf("column "+b+" and "+a, []*Tab{one}, []*Tab{two}, nil))
			ts := []*Tab{{Class: "a", Name: a, Group: "g", Cols: one.Cols}, {Class: "b", Name: b, Group: "G", Cols: two.Cols}}
			for _, g := range []string{"", "g", "G"} {
				ps = append(ps, pairOf("tables "+a+" and "+b+" in "+g, ts, ts[:1], flagsOf("groups", g)), pairOf("table "+a+" and tables in "+g, ts[1:], ts, flagsOf("groups", g)))
			}
		}
	}
	return ps
}

// manyPairs: more changes than ids have digits for.
func manyPairs() []pair {
	var from, to []*Tab
	for i := 0; i < 13; i++ {
		n := fmt.Sprintf("t%02d", i)
		x, y := &Tab{Class: n, Name: n}, &Tab{Class: n, Name: n}
		for j := 0; j < 1+i; j++ {
			c := fmt.Sprintf("c%02d", j)
			x.Cols = append(x.Cols, &Col{Class: c, Name: c, Type: "int32"})
			y.Cols = append(y.Cols, &Col{Class: c, Name: c, Type: "int32", NN: i%4 != 3})
		}
		from, to = append(from, x), append(to, y)
	}
	return []pair{pairOf("many changes", from, to, nil), pairOf("many removed", from, to[:1], nil), pairOf("many added", from[3:4], to, nil)}
}

func samePairs() []pair {
	var ps []pair
	for i := 0; i < 16; i++ {
		a, b := inSchema(ifs(i&1 > 0, "«V0»"), "", colOfType("int32")), inSchema(ifs(i&2 > 0, "«V1»"), "", colOfType("int64"))
		a.Author, b.Author = ifs(i&4 > 0, "«A0»"), ifs(i&8 > 0, "«A1»")
		ps = append(ps, pair{fmt.Sprintf("versions and authors %04b", i), a, b, nil})
		a.Name, b.Name = "«N0»", "«N1»"
	}
	for _, com := range []string{"", "true"} {
		ps = append(ps, pair{"a schema and itself, comments " + com, richDoc(), richDoc(), flagsOf("comments", com)})
	}
	return ps
}

var diffTypes = []string{"int32", "int64", "varchar", "decimal", "boolean", "enum", "datetime", "text16", "char", "double", "set", "json"}

func init() {
	checks["D01"] = func(k *Check) {
		k.rule("the output of the three diff commands is compared with the changes between the two schemas, for every pair of attribute variants of a column and every pair of types.")
		k.cases(diffCases(attrPairs(diffTypes), nil))
		k.cases(diffCases(crossPairs(), nil))
		k.cases(diffCases(sizePairs(), nil))
		k.cases(diffCases(typePairs(), nil))
		k.cases(diffCases(tableCommentPairs(), nil))
		k.cases(diffCases(samePairs(), nil))
		k.cases(diffCases(mixedPairs(300), nil))
	}
	checks["D02"] = func(k *Check) {
		k.rule("the output of the three diff commands is compared with the changes between the two schemas, for pairs of table sets, column sets, key distributions and group selections.")
		k.cases(diffCases(keyPairs(), nil))
		k.cases(diffCases(columnPairs(), nil))
		k.cases(diffCases(append(renamePairs(), renameCross()...), nil))
		k.cases(diffCases(tablePairs(), nil))
		k.cases(diffCases(spellingPairs(), nil))
		k.cases(diffCases(manyPairs(), nil))
		k.cases(diffCases(mixedPairs(300), nil))
	}
	checks["D03"] = func(k *Check) {
		k.rule("the ids of the change sets of 'generate liquibase' and 'diff liquibase' are compared with the ordered numbering, and every id must follow changes.")
		k.cases(lqKeyCases("generate liquibase", onlyIDs))
		k.cases(lqTableCases("generate liquibase", onlyIDs))
		for _, ps := range [][]pair{crossPairs(), keyPairs(), columnPairs(), tablePairs(), spellingPairs(), manyPairs(), mixedPairs(300), attrPairs([]string{"int32", "varchar"}), tableCommentPairs(), samePairs(), {{"everything", oldDoc(), richDoc(), flagsOf("comments", "true")}}} {
			k.cases(diffCases(ps, onlyIDs, "diff liquibase"))
		}
	}
	checks["D04"] = func(k *Check) {
		k.rule("the SQL written by 'diff flyway' is compared with the MySQL statements of the changes, for every kind of change, type and attribute variant.")
		k.cases(diffCases(attrPairs([]string{"int32", "varchar", "decimal", "enum", "datetime"}), nil, "diff flyway"))
		for _, ps := range [][]pair{crossPairs(), typePairs(), keyPairs(), columnPairs(), renamePairs(), tablePairs(), tableCommentPairs(), samePairs(), spellingPairs(), manyPairs(), mixedPairs(300)} {
			k.cases(diffCases(ps, nil, "diff flyway"))
		}
	}
	checks["D05"] = func(k *Check) {
		k.rule("the report written by 'diff md' is compared with the changes between the two schemas, for every kind of change, type and attribute variant.")
		k.cases(diffCases(attrPairs([]string{"int32", "varchar", "decimal", "enum", "datetime"}), nil, "diff md"))
		for _, ps := range [][]pair{crossPairs(), typePairs(), keyPairs(), columnPairs(), renamePairs(), tablePairs(), tableCommentPairs(), samePairs(), spellingPairs(), manyPairs(), mixedPairs(300)} {
			k.cases(diffCases(ps, nil, "diff md"))
		}
	}
}
