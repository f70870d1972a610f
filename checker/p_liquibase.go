package main

import (
	"fmt"
	"sort"
	"strings"
)

// Oracle of the liquibase changelogs, written in the schematic form of encoded documents: {key:value …} with the keys in
// order, [element …].

// lqScope is what an oracle needs to know about the options.
type lqScope struct {
	Author, Suffix string
	Comments       bool
}

func lqScopeOf(c *Case, d *Doc) lqScope {
	s := lqScope{c.Flags["author"], c.Flags["uniqueNameSuffix"], c.Flags["comments"] == "true"}
	if s.Author == "" {
		s.Author = d.Author
	}
	return s
}

// ymap is a mapping; empty values are left out.
func ymap(kv ...string) string {
	var l []string
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != "" {
			l = append(l, kv[i]+":"+kv[i+1]+" ")
		}
	}
	sort.Strings(l)
	return "{" + strings.Join(l, "") + "}"
}

// ystr is a text, left out when empty.
func ystr(s string) string {
	if s == "" {
		return ""
	}
	return `"` + s + `"`
}

var lqTypes = map[string]string{"text8": "clob", "text16": "clob", "text24": "clob", "text32": "clob", "int8": "tinyint", "int16": "smallint",
	"int24": "mediumint", "int32": "int", "int64": "bigint", "blob8": "blob", "blob16": "blob", "blob24": "blob", "blob32": "blob"}

func lqType(c *Col) string {
	if c.Type == "enum" || c.Type == "set" {
		return c.Type + "(" + joinIts(strIts(c.Values, func(s string) string { return "'" + s + "'" }), ", ") + ")"
	}
	n := c.Type
	if m, ok := lqTypes[n]; ok {
		n = m
	}
	return sizeText(n, c, true, true)
}

// lqDefault gives the key and the value of a default value.
func lqDefault(c *Col) (string, string) {
	v := c.Default
	switch {
	case v == "":
		return "defaultValue", ""
	case strings.HasPrefix(v, "fn::"):
		return "defaultValueComputed", ystr(v[4:])
	}
	switch c.Type {
	case "boolean":
		return "defaultValueBoolean", fmt.Sprint(v == "true")
	case "decimal", "float", "double":
		return "defaultValueNumeric", v
	case "date", "datetime":
		return "defaultValueDate", ystr(v)
	}
	return "defaultValue", ystr(v)
}

func lqColumn(c *Col, s lqScope, inlinePK, inlineUQ bool, after string) string {
	kv := []string{"name", ystr(c.Name), "type", ystr(lqType(c)), "afterColumn", ystr(after)}
	if s.Comments {
		kv = append(kv, "remarks", ystr(c.Desc))
	}
	if c.AI {
		kv = append(kv, "autoIncrement", "true")
	}
	var con []string
	if c.PK && inlinePK {
		con = append(con, "primaryKey", "true")
	} else if c.NN {
		con = append(con, "nullable", "false")
	}
	if c.UQ && inlineUQ {
		con = append(con, "unique", "true")
	}
	if len(con) > 0 {
		kv = append(kv, "constraints", ymap(con...))
	}
	k, v := lqDefault(c)
	kv = append(kv, k, v)
	return ymap("column", ymap(kv...))
}

// keyNames are the names of the columns that satisfy p, in the order of their names.
func keyNames(t *Tab, p func(c *Col) bool) []string {
	var l []string
	for _, c := range t.Cols {
		if p(c) {
			l = append(l, c.Name)
		}
	}
	sort.Strings(l)
	return l
}

func pkNames(t *Tab) []string { return keyNames(t, func(c *Col) bool { return c.PK }) }
func uqNames(t *Tab) []string { return keyNames(t, func(c *Col) bool { return c.UQ }) }

// lqChange is one change of a change set.
func lqChange(kind string, kv ...string) string { return ymap(kind, ymap(kv...)) }

func lqSet(s lqScope, id string, pre bool, changes ...string) string {
	p := ""
	if pre {
		p = ymap("dbms", ymap("type", ystr("derby, h2, mssql, mariadb, mysql, postgresql, sqlite")), "onError", ystr("CONTINUE"), "onFail", ystr("CONTINUE"))
	}
	return ymap("changeSet", ymap("author", ystr(s.Author), "id", ystr(id), "preConditions", p, "changes", "["+strings.Join(changes, " ")+" ]")) + " "
}

func lqAddUnique(t *Tab, s lqScope) string {
	return lqChange("addUniqueConstraint", "tableName", ystr(t.Name), "columnNames", ystr(strings.Join(uqNames(t), ", ")), "constraintName", ystr(t.Name+s.Suffix))
}

func lqAddPK(t *Tab) string {
	return lqChange("addPrimaryKey", "tableName", ystr(t.Name), "columnNames", ystr(strings.Join(pkNames(t), ", ")))
}

// lqCreate are the change sets that create a table; n is the number of the table.
func lqCreate(t *Tab, s lqScope, n string) string {
	pk, uq := pkNames(t), uqNames(t)
	minor := 0
	id := func() string { minor++; return fmt.Sprintf("%s-%d", n, minor) }
	r := lqSet(s, id(), false, lqChange("createTable", "tableName", ystr(t.Name), "remarks", ystr(t.Desc),
		"columns", "["+eachCol(t, func(c *Col) string { return lqColumn(c, s, len(pk) == 1, len(uq) == 1, "") + " " })+"]"))
	if len(pk) > 1 {
		r += lqSet(s, id(), false, lqAddPK(t))
	}
	if len(uq) > 0 {
		r += lqSet(s, id(), len(uq) == 1, lqAddUnique(t, s))
	}
	return r
}

func lqLog(sets string) string {
	return ymap("databaseChangeLog", "["+ymap("objectQuotingStrategy", ystr("QUOTE_ALL_OBJECTS"))+" "+sets+"]")
}

// inGroups: the table belongs to the selected groups.
func inGroups(c *Case, t *Tab) bool {
	g := c.Flags["groups"]
	if g == "" {
		return true
	}
	for _, x := range strings.Split(g, ",") {
		if x == t.Group {
			return true
		}
	}
	return false
}

func lqExpect(c *Case) string {
	d := sortedDoc(c.doc())
	s := lqScopeOf(c, d)
	n := 0
	return outFile(lqLog(eachTab(d, func(t *Tab) string {
		if !inGroups(c, t) {
			return ""
		}
		n++
		return lqCreate(t, s, fmt.Sprint(n))
	})))
}

// dropIDs leaves the ids of change sets out.
var dropIDs = &View{Name: "without ids", Open: `id:"`, Close: `"`}

// onlyIDs keeps the ids of change sets and the start of their changes.
var onlyIDs = &View{Name: "ids", Open: `id:"`, Close: `"`, Keep: true, Tokens: []string{"changes:[{"}}

// lqDefaults are default values that suit the type.
func lqDefaults(typ string) []string {
	switch typ {
	case "boolean":
		return []string{"true", "false", "«DEF»"}
	case "decimal", "float", "double":
		return []string{"0", "7", "1.5", "-12.25", "0.1", "123456.789"}
	case "int8", "int16", "int24", "int32", "int64":
		return []string{"0", "7", "-3", "2147483647", "«DEF»"}
	}
	return []string{"«DEF»"}
}

func lqTypeCases(cmd string) []*Case {
	var cs []*Case
	for _, t := range mysqlTypes {
		vs := colVariants(t.Name)
		t.Size, t.Scale = t.Name != "enum" && t.Name != "set", true
		if t.Size {
			c := colOfType(t.Name)
			c.Name, c.Size = "«C»", "«SZ»"
			vs["size"] = c
			x := *c
			x.Scale = "«SC»"
			vs["size and scale"] = &x
		}
		for _, n := range sortedKeys(vs) {
			defs := []string{""}
			if v := vs[n]; v.Default != "" && !strings.HasPrefix(v.Default, "fn::") {
				defs = lqDefaults(t.Name)
			}
			for _, def := range defs {
				for _, com := range []string{"", "true"} {
					v := *vs[n]
					if def != "" {
						v.Default = def
					}
					cols := wrapCols(&v)
					if v.PK || v.UQ {
						cols = alone(&v)
					}
					fl := map[string]string{}
					if com != "" {
						fl["comments"] = com
					}
					cs = append(cs, &Case{Name: fmt.Sprintf("type %s, %s %s, comments %q", t.Name, n, def, com), Cmd: cmd, Norm: normExact, Flags: fl, View: dropIDs,
						Docs: map[string]*Doc{"input": {Author: "«AU»", Tabs: []*Tab{{Class: "t", Star: true, Name: "«T»", Desc: "«TD»", Cols: cols}}}}, Expect: lqExpect})
				}
			}
		}
	}
	return cs
}

// lqKeyCases: every distribution of primary key and unique columns over three columns.
func lqKeyCases(cmd string, view *View) []*Case {
	var cs []*Case
	for i := 0; i < 64; i++ {
		for _, suf := range []string{"", "«SUF»"} {
			var cols []*Col
			for j, n := range []string{"k_b", "k_a", "k_c"} {
				pk, uq := i>>(2*j)&1 > 0, i>>(2*j)&2 > 0
				cols = append(cols, &Col{Class: n, Name: n, Type: "int32", PK: pk, UQ: uq, NN: pk || j == 1})
			}
			cols = append(cols, &Col{Class: "s", Star: true, Name: "«S»", Type: "varchar"})
			fl := map[string]string{}
			if suf != "" {
				fl["uniqueNameSuffix"] = suf
			}
			cs = append(cs, &Case{Name: fmt.Sprintf("keys %06b, suffix %q", i, suf), Cmd: cmd, Norm: normExact, Flags: fl, View: view,
				Docs: map[string]*Doc{"input": {Author: "«AU»", Tabs: []*Tab{{Class: "t", Star: view == dropIDs, Name: "«T»", Cols: cols}}}}, Expect: lqExpect})
		}
	}
	return cs
}

// groupedTabs are tables of three groups with different keys.
func groupedTabs() []*Tab {
	col := func(n string, pk, uq bool) *Col {
		return &Col{Class: n, Name: n, Type: "int64", PK: pk, UQ: uq, NN: pk}
	}
	return []*Tab{
		{Class: "1", Name: "t_one", Group: "g2", Cols: []*Col{col("a", true, false), col("b", true, false), col("c", false, true)}},
		{Class: "2", Name: "t_two", Group: "g1", Desc: "«TD»", Cols: []*Col{col("a", true, false), col("b", false, false)}},
		{Class: "3", Name: "t_zero", Group: "", Cols: []*Col{col("a", false, true), col("b", false, true)}},
		{Class: "4", Name: "t_four", Group: "g2", Cols: []*Col{col("a", false, false)}},
	}
}

func lqTableCases(cmd string, view *View) []*Case {
	var cs []*Case
	for m := 0; m < 16; m++ {
		for _, g := range []string{"", "g1", "g2", "g1,g2", "other"} {
			d := &Doc{Author: "«AU»"}
			for i, t := range groupedTabs() {
				if m>>i&1 > 0 {
					d.Tabs = append(d.Tabs, t)
				}
			}
			fl := map[string]string{}
			if g != "" {
				fl["groups"] = g
			}
			cs = append(cs, &Case{Name: fmt.Sprintf("tables %04b, groups %q", m, g), Cmd: cmd, Norm: normExact, Flags: fl, View: view, Docs: map[string]*Doc{"input": d}, Expect: lqExpect})
		}
	}
	return cs
}

func init() {
	checks["L01"] = func(k *Check) {
		k.rule("the changelog written by 'generate liquibase', apart from its ids, is compared, as a language over all table and column lists, with the documented changelog for every type, attribute variant, key distribution and group selection.")
		k.cases(lqTypeCases("generate liquibase"))
		k.cases(lqKeyCases("generate liquibase", dropIDs))
		k.cases(lqTableCases("generate liquibase", dropIDs))
		var cs []*Case
		for _, f := range []map[string]string{nil, {"comments": "true", "uniqueNameSuffix": "«SUF»"}, {"groups": "g1,g2"}, {"groups": "g3", "comments": "true"}} {
			for _, c := range mixedCases("generate liquibase", normCode, lqExpect, f, mysqlTypes, 300) {
				c.View = dropIDs
				cs = append(cs, c)
			}
		}
		for _, c := range k.optionMixes("generate liquibase", normCode, lqExpect, nil, mysqlTypes, 300) {
			c.View = dropIDs
			cs = append(cs, c)
		}
		k.cases(cs)
	}
}
