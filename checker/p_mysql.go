package main

import (
	"fmt"
	"strings"
)

// Oracle of the MySQL DDL exporter.

type typeSpec struct {
	Name  string // canonical octopus type
	Mysql string
	Size  bool // takes a length
	Scale bool // takes a scale
}

// the canonical types of the documentation and the MySQL types of the same meaning
var mysqlTypes = []typeSpec{
	{"binary", "binary", true, false}, {"bit", "bit", true, false},
	{"blob8", "tinyblob", false, false}, {"blob16", "blob", false, false}, {"blob24", "mediumblob", false, false}, {"blob32", "longblob", false, false},
	{"boolean", "bit(1)", false, false}, {"char", "char", true, false}, {"date", "date", false, false}, {"datetime", "datetime", false, false},
	{"decimal", "decimal", true, true}, {"double", "double", true, true}, {"enum", "enum", false, false}, {"float", "float", true, true},
	{"geometry", "geometry", false, false}, {"int8", "tinyint", true, false}, {"int16", "smallint", true, false}, {"int24", "mediumint", true, false},
	{"int32", "int", true, false}, {"int64", "bigint", true, false}, {"json", "json", false, false}, {"point", "point", false, false},
	{"set", "set", false, false}, {"text8", "tinytext", false, false}, {"text16", "text", false, false}, {"text24", "mediumtext", false, false},
	{"text32", "longtext", false, false}, {"time", "time", false, false}, {"varbinary", "varbinary", true, false}, {"varchar", "varchar", true, false},
	{"year", "year", false, false},
}

func typeOf(name string) typeSpec {
	for _, t := range mysqlTypes {
		if t.Name == name {
			return t
		}
	}
	panic("type " + name)
}

func num(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

func sizeText(base string, c *Col, size, scale bool) string {
	if !size || c.Size == "" {
		return base
	}
	if scale && c.Scale != "" {
		return fmt.Sprintf("%s(%s,%s)", base, num(c.Size), num(c.Scale))
	}
	return fmt.Sprintf("%s(%s)", base, num(c.Size))
}

func mysqlColType(c *Col) string {
	t := typeOf(c.Type)
	if c.Type == "enum" || c.Type == "set" {
		return t.Mysql + "(" + joinIts(strIts(c.Values, func(s string) string { return "'" + s + "'" }), ", ") + ")"
	}
	return sizeText(t.Mysql, c, t.Size, t.Scale)
}

func isTextType(t string) bool { return t == "char" || t == "varchar" }

func mysqlValue(c *Col, v string) string {
	if strings.HasPrefix(v, "fn::") {
		return v[4:] + "()"
	}
	if isTextType(c.Type) {
		return "'" + v + "'"
	}
	return v
}

func mysqlColDef(c *Col) string {
	s := c.Name + " " + mysqlColType(c)
	if c.NN {
		s += " NOT NULL"
	}
	if c.AI {
		s += " AUTO_INCREMENT"
	}
	if c.Default != "" {
		s += " DEFAULT " + mysqlValue(c, c.Default)
	}
	if c.OnUpdate != "" {
		s += " ON UPDATE " + mysqlValue(c, c.OnUpdate)
	}
	if c.Desc != "" {
		s += " COMMENT '" + c.Desc + "'"
	}
	return s
}

func mysqlTable(t *Tab, suffix string) string {
	its := colIts(t, mysqlColDef)
	q := func(c *Col) string { return "`" + c.Name + "`" }
	if pk := colIts(t, func(c *Col) string {
		if c.PK {
			return q(c)
		}
		return ""
	}); len(pk) > 0 {
		its = append(its, It{"PRIMARY KEY (" + joinIts(pk, ", ") + ")", false, 0})
	}
	if uq := colIts(t, func(c *Col) string {
		if c.UQ {
			return q(c)
		}
		return ""
	}); len(uq) > 0 {
		its = append(its, It{"UNIQUE KEY `" + t.Name + suffix + "` (" + joinIts(uq, ", ") + ")", false, 0})
	}
	for _, x := range t.Idx {
		its = append(its, It{"INDEX `" + x.Name + "` (" + joinIts(strIts(x.Cols, func(s string) string { return "`" + s + "`" }), ", ") + ")", x.Star, 0})
	}
	return "CREATE TABLE IF NOT EXISTS " + t.Name + " (\n" + joinIts(its, ",\n") + "\n);\n"
}

func mysqlExpect(c *Case) string {
	return outFile(eachTab(c.doc(), func(t *Tab) string { return mysqlTable(t, c.Flags["uniqueNameSuffix"]) }))
}

// attribute variants of a column
func colVariants(typ string) map[string]*Col {
	t := typeOf(typ)
	base := func() *Col {
		c := &Col{Name: "«C»", Type: typ}
		if typ == "enum" || typ == "set" {
			c.Values = []string{"«V1»", "«V»*", "«V2»"}
		}
		return c
	}
	m := map[string]*Col{}
	// attributes, one of each group at most
	type attr struct {
		name  string
		group int
		set   func(c *Col)
	}
	attrs := []attr{
		{"notnull", 1, func(c *Col) { c.NN = true }},
		{"default", 2, func(c *Col) { c.Default = "«DEF»" }},
		{"default function", 2, func(c *Col) { c.Default = "fn::«FN»" }},
		{"on update", 3, func(c *Col) { c.OnUpdate = "«UPD»" }},
		{"on update function", 3, func(c *Col) { c.OnUpdate = "fn::«UFN»" }},
		{"description", 4, func(c *Col) { c.Desc = "«D»" }},
		{"unique", 5, func(c *Col) { c.UQ = true }},
		{"pk", 6, func(c *Col) { c.PK = true }},
	}
	if isIntType8(typ) {
		attrs = append(attrs, attr{"autoinc", 7, func(c *Col) { c.AI = true }})
	}
	if t.Size {
		attrs = append(attrs, attr{"size", 8, func(c *Col) { c.Size = "«SZ»" }})
	}
	if t.Scale {
		attrs = append(attrs, attr{"size and scale", 8, func(c *Col) { c.Size, c.Scale = "«SZ»", "«SC»" }}, attr{"scale as size", 8, func(c *Col) { c.Size, c.Scale = "5", "5" }})
	}
	// the sets of up to two attributes and of all but one; every set for two types
	last := attrs[len(attrs)-1].group
	groups := map[int]bool{}
	for _, a := range attrs {
		groups[a.group] = true
	}
	var rec func(g int, names []string, c Col)
	rec = func(g int, names []string, c Col) {
		if g > last {
			n := len(names)
			if n <= 2 || n >= len(groups)-1 || typ == "int64" || typ == "varchar" {
				if n == 0 {
					names = []string{"plain"}
				}
				m[strings.Join(names, ", ")] = &c
			}
			return
		}
		rec(g+1, names, c)
		for _, a := range attrs {
			if a.group == g {
				x := c
				a.set(&x)
				rec(g+1, append(append([]string{}, names...), a.name), x)
			}
		}
	}
	rec(1, nil, *base())
	return m
}

func isIntType8(t string) bool {
	switch t {
	case "int8", "int16", "int24", "int32", "int64":
		return true
	}
	return false
}

// around puts a column between plain neighbours, the middle one standing for any number of columns.
func wrapCols(c *Col) []*Col {
	x := *c
	x.Class, x.Star, x.Min = "m", true, 1
	return []*Col{{Class: "a", Name: "«A»", Type: "int32"}, &x, {Class: "z", Name: "«Z»", Type: "varchar", Size: "20"}}
}

func docOf(tabs ...*Tab) map[string]*Doc {
	for _, t := range tabs {
		for _, c := range t.Cols {
			if (c.Type == "enum" || c.Type == "set") && c.Values == nil {
				c.Values = []string{"«V1»"}
			}
		}
	}
	return map[string]*Doc{"input": {Tabs: tabs}}
}

func mysqlExportCases() []*Case {
	var cs []*Case
	for _, t := range mysqlTypes {
		vs := colVariants(t.Name)
		switch t.Name {
		case "blob8", "blob24", "blob32", "boolean", "date", "geometry", "json", "point", "text8", "text24", "text32":
			vs["meaningless size"] = &Col{Name: "«C»", Type: t.Name, Size: "«SZ»"}
		}
		for _, vn := range sortedKeys(vs) {
			cs = append(cs, &Case{Name: "type " + t.Name + ", " + vn, Cmd: "export mysql", Norm: normCode,
				Docs: docOf(&Tab{Class: "t", Star: true, Name: "«T»", Cols: wrapCols(vs[vn])}), Expect: mysqlExpect})
		}
	}
	return cs
}

func init() {
	checks["M01"] = func(k *Check) {
		k.rule("the DDL written by 'export mysql' is compared, as a language over all table and column lists, with the documented DDL for every type and attribute variant.")
		k.cases(append(mysqlExportCases(), mixedCases("export mysql", normCode, mysqlExpect, map[string]string{"uniqueNameSuffix": "«SUF»"}, mysqlTypes, 600)...))
		k.cases(k.optionMixes("export mysql", normCode, mysqlExpect, nil, mysqlTypes, 300))
	}
	checks["M02"] = func(k *Check) {
		k.rule("the key and index clauses of the DDL written by 'export mysql' are compared, as a language over all column and index lists, with the documented clauses for every distribution of key columns.")
		var cs []*Case
		col := func(cl string, pk, uq, st bool) *Col {
			return &Col{Class: cl, Name: "«" + cl + "»", Type: "int32", PK: pk, UQ: uq, Star: st}
		}
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				for _, ix := range []string{"none", "one", "many"} {
					for _, suf := range []string{"", "«SUF»"} {
						t := &Tab{Class: "t", Star: true, Name: "«T»", Cols: []*Col{col("A", i&1 > 0, i&2 > 0, false), col("M", j&1 > 0, j&2 > 0, true), col("P", true, true, false), col("Z", j&2 > 0, i&1 > 0, false)}}
						if i == 0 && j == 0 {
							t.Cols = []*Col{col("A", false, false, false), col("M", false, false, true)}
						}
						switch ix {
						case "one":
							t.Idx = []*Idx{{Class: "x", Name: "«IX»", Cols: []string{"«IC»"}}}
						case "many":
							t.Idx = []*Idx{{Class: "x", Name: "«IX»", Cols: []string{"«IC1»", "«IC»*", "«IC2»"}}, {Class: "s", Star: true, Name: "«IS»", Cols: []string{"«IC3»"}}, {Class: "y", Name: "«IY»", Cols: []string{"«IC4»", "«IC5»"}}}
						}
						fl := map[string]string{}
						if suf != "" {
							fl["uniqueNameSuffix"] = suf
						}
						cs = append(cs, &Case{Name: fmt.Sprintf("keys %d%d, indexes %s, suffix %q", i, j, ix, suf), Cmd: "export mysql", Norm: normCode, Flags: fl,
							Docs: docOf(t), Expect: mysqlExpect})
					}
				}
			}
		}
		for _, v := range []*View{{Name: "keys", Open: "KEY", Close: ")", Keep: true, Tokens: []string{"CREATE", "PRIMARY", "UNIQUE"}}, {Name: "indexes", Open: "INDEX", Close: ")", Keep: true, Tokens: []string{"CREATE"}}} {
			for _, c := range k.optionMixes("export mysql", normCode, mysqlExpect, nil, mysqlTypes, 400) {
				c.Name, c.View = c.Name+", "+v.Name, v
				cs = append(cs, c)
			}
		}
		k.cases(cs)
	}
}
