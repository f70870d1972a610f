package main

import (
	"fmt"
	"strconv"
	"strings"

	"octcheck/internal/pluralize"
	"octcheck/internal/strcase"
)

// Oracles of the class generators that map columns to fields one by one: GraphQL, Protobuf.

// names, in notation

func nameFn(fn string, f func(string) string, s string) string {
	if strings.Contains(s, "«") {
		return "«" + fn + "(" + s + ")»"
	}
	return f(s)
}

func camel(s string) string      { return nameFn("strcase.ToCamel", strcase.ToCamel, s) }
func lowerCamel(s string) string { return nameFn("strcase.ToLowerCamel", strcase.ToLowerCamel, s) }
func plural(s string) string     { return nameFn("pluralize.Plural", pluralize.NewClient().Plural, s) }

// lowerSnake: atoms named s_… are snake-case names.
func lowerSnake(s string) string {
	if strings.HasPrefix(s, "«s_") && strings.Index(s, "»") == len(s)-len("»") {
		return s
	}
	if strings.Contains(s, "«") {
		return "«strcase.ToSnake(«strings.ToLower(" + s + ")»)»"
	}
	return strcase.ToSnake(strings.ToLower(s))
}

// classOf is the name of the class of a table: the explicit one, or the camel-cased table name without the prefixes to
// remove, with the prefix of the group of the table.
func classOf(c *Case, t *Tab) string {
	if t.ClassName != "" {
		return t.ClassName
	}
	return derivedName(c, t)
}

func derivedName(c *Case, t *Tab) string {
	n := t.Name
	for _, p := range strings.Split(c.Flags["removePrefix"], ",") {
		n = strings.TrimPrefix(n, p)
	}
	return groupPrefix(c.Flags["prefix"], t.Group) + camel(n)
}

// groupPrefix: "P" applies to every group, "g1:P,g2:Q" to the groups it names.
func groupPrefix(option, group string) string {
	if !strings.Contains(option, ":") {
		return option
	}
	r := ""
	for _, p := range strings.Split(option, ",") {
		if g, v, _ := strings.Cut(p, ":"); g == group {
			r = v
		}
	}
	return r
}

// alone: the column stands for itself, not for any number of columns.
func alone(c *Col) []*Col {
	x := *c
	x.Class, x.Star = "m", false
	return []*Col{{Class: "a", Name: "«A»", Type: "int32"}, &x, {Class: "z", Name: "«Z»", Type: "varchar", Size: "20"}}
}

// classTypeCases: one context per type and attribute variant; columns that are not keys stand for any number of columns.
func classTypeCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string, types []typeSpec, stars, tabs bool) []*Case {
	var cs []*Case
	for _, t := range types {
		vs := colVariants(t.Name)
		for i, vn := range sortedKeys(vs) {
			cols := wrapCols(vs[vn])
			if vs[vn].PK || vs[vn].UQ || !stars {
				cols = alone(vs[vn])
			}
			cns := []string{[]string{"", "«CN»"}[i%2]}
			if vn == "plain" {
				cns = []string{"", "«CN»"}
			}
			for _, cn := range cns {
				cs = append(cs, &Case{Name: "type " + t.Name + ", " + vn + ", class " + cn, Cmd: cmd, Norm: norm, Flags: flags,
					Docs: map[string]*Doc{"input": {Name: "«SN»", Version: "«SV»", Tabs: []*Tab{{Class: "t", Star: tabs, Name: "«T»", Desc: "«TD»", ClassName: cn, Cols: cols}}}}, Expect: expect})
			}
		}
	}
	return cs
}

// keyCases: every distribution of the primary key over three columns.
func keyCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	var cs []*Case
	for i := 0; i < 8; i++ {
		for _, typ := range []string{"int64", "varchar"} {
			var cols []*Col
			for j, n := range []string{"«A»", "«B»", "«C»"} {
				pk := i>>j&1 > 0
				cols = append(cols, &Col{Class: fmt.Sprint(j), Name: n, Type: typ, PK: pk, NN: pk || j == 1})
			}
			cols = append(cols, &Col{Class: "s", Star: true, Name: "«S»", Type: "int32"})
			cs = append(cs, &Case{Name: fmt.Sprintf("key %03b of %s", i, typ), Cmd: cmd, Norm: norm, Flags: flags,
				Docs: docOf(&Tab{Class: "t", Star: true, Name: "«T»", Cols: cols}), Expect: expect})
		}
	}
	return cs
}

func graphqlType(c *Col) string {
	switch c.Type {
	case "boolean":
		return "Boolean"
	case "int8", "int16", "int24", "int32", "int64":
		return "Int"
	case "decimal", "float", "double":
		return "Float"
	}
	return "String"
}

func graphqlExpect(c *Case) string {
	d := c.doc()
	q := eachTab(d, func(t *Tab) string { return plural(lowerCamel(classOf(c, t))) + ": [" + classOf(c, t) + "]\n" })
	body := eachTab(d, func(t *Tab) string {
		pk := 0
		for _, x := range t.Cols {
			if x.PK {
				pk++
			}
		}
		return "type " + classOf(c, t) + " {\n" + eachCol(t, func(x *Col) string {
			ty := graphqlType(x)
			if x.PK && pk == 1 {
				ty = "ID!"
			} else if x.NN {
				ty += "!"
			}
			return lowerCamel(x.Name) + ": " + ty + "\n"
		}) + "}\n"
	})
	return writes("«flag:output»/"+d.Name+"-"+d.Version+".graphqls", "schema {\nquery: Query\n}\ntype Query {\n"+q+"}\n"+body)
}

var pbTypes = map[string]string{"char": "string", "varchar": "string", "text8": "string", "text16": "string", "text24": "string", "text32": "string",
	"boolean": "bool", "int8": "int32", "int16": "int32", "int24": "int32", "int32": "int32", "int64": "int64",
	"decimal": "double", "float": "float", "double": "double", "datetime": "google.protobuf.Timestamp"}

func typesIn(m map[string]string) []typeSpec {
	var r []typeSpec
	for _, t := range mysqlTypes {
		if m[t.Name] != "" {
			r = append(r, t)
		}
	}
	return r
}

func pbExpect(c *Case) string {
	d := c.doc()
	s := "syntax = \"proto3\";\n"
	if p := c.Flags["package"]; p != "" {
		s += "package " + p + ";\n"
	}
	if p := c.Flags["goPackage"]; p != "" {
		s += "option go_package = \"" + p + "\";\n"
	}
	stamp := false
	known := map[string]*Tab{}
	for _, t := range d.Tabs {
		known[t.Name] = t
		for _, x := range t.Cols {
			stamp = stamp || x.Type == "datetime"
		}
	}
	if stamp {
		s += "import \"google/protobuf/timestamp.proto\";\n"
	}
	start, _ := strconv.Atoi(num(c.Flags["relationTagStart"]))
	decr := c.Flags["relationTagDecr"] == "true"
	return outFile(s + eachTab(d, func(t *Tab) string {
		o := "message " + derivedName(c, t) + " {\n"
		var rels []string
		for i, x := range t.Cols {
			o += pbTypes[x.Type] + " " + lowerCamel(x.Name) + " = " + strconv.Itoa(i+1) + ";\n"
			if x.Ref != nil && known[x.Ref.Table] != nil {
				rep := ""
				if x.Ref.Rel == "1:n" {
					rep = "repeated "
				}
				rels = append(rels, rep+derivedName(c, known[x.Ref.Table])+" "+lowerCamel(derivedName(c, known[x.Ref.Table])))
			}
		}
		n, first := len(t.Cols), start
		switch {
		case decr && start-len(rels)+1 <= n:
			first = n + len(rels)
		case !decr && start <= n:
			first = n + 1
		}
		for i, r := range rels {
			tag := first + i
			if decr {
				tag = first - i
			}
			o += r + " = " + strconv.Itoa(tag) + ";\n"
		}
		return o + "}\n"
	}))
}

// noStars: the columns are numbered, so the contexts list them one by one.
func noStars(cs []*Case) []*Case {
	for _, c := range cs {
		for _, t := range c.doc().Tabs {
			for _, x := range t.Cols {
				x.Star = false
			}
		}
	}
	return cs
}

func init() {
	checks["Q01"] = func(k *Check) {
		k.rule("the types written by 'generate graphql' are compared, as a language over all table and column lists, with the documented types for every column type, attribute and key variant.")
		cs := classTypeCases("generate graphql", normCode, graphqlExpect, nil, mysqlTypes, true, true)
		cs = append(cs, keyCases("generate graphql", normCode, graphqlExpect, nil)...)
		cs = append(cs, refCases("generate graphql", normCode, graphqlExpect, nil)...)
		cs = append(cs, mixedCases("generate graphql", normCode, graphqlExpect, nil, mysqlTypes, 600)...)
		k.cases(append(cs, shapeCases("generate graphql", normCode, graphqlExpect, nil)...))
	}
	checks["P01"] = func(k *Check) {
		k.rule("the messages written by 'generate pb' are compared with the documented messages for every column type, key and relation numbering variant, as a language over all table lists.")
		cmd := "generate pb"
		var cs []*Case
		for _, f := range []map[string]string{nil, {"package": "«PKG»"}, {"goPackage": "«GOPKG»"}, {"package": "«PKG»", "goPackage": "«GOPKG»"}} {
			cs = append(cs, classTypeCases(cmd, normCode, pbExpect, f, typesIn(pbTypes), false, false)...)
			cs = append(cs, shapeCases(cmd, normCode, pbExpect, f)...)
		}
		for _, f := range []map[string]string{nil, {"relationTagStart": "-1"}, {"relationTagStart": "4"}, {"relationTagStart": "5"}, {"relationTagStart": "6"}, {"relationTagStart": "100"},
			{"relationTagDecr": "true"}, {"relationTagDecr": "true", "relationTagStart": "-1"}, {"relationTagDecr": "true", "relationTagStart": "5"},
			{"relationTagDecr": "true", "relationTagStart": "6"}, {"relationTagDecr": "true", "relationTagStart": "100"}} {
			cs = append(cs, noStars(refCases(cmd, normCode, pbExpect, f))...)
			cs = append(cs, mixedCases(cmd, normCode, pbExpect, f, typesIn(pbTypes), 200)...)
		}
		cs = append(cs, k.optionMixes(cmd, normCode, pbExpect, nil, typesIn(pbTypes), 400)...)
		k.cases(cs)
	}
}
