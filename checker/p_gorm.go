package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"octcheck/internal/strcase"
)

// Oracle of the GORM generator.

var gormTypes = map[string][2]string{ // not null, nullable
	"char": {"string", "null.String"}, "varchar": {"string", "null.String"}, "text8": {"string", "null.String"}, "text16": {"string", "null.String"},
	"text24": {"string", "null.String"}, "text32": {"string", "null.String"}, "boolean": {"bool", "null.Bool"},
	"int8": {"int8", "null.Int"}, "int16": {"int16", "null.Int"}, "int24": {"int32", "null.Int"}, "int32": {"int32", "null.Int"}, "int64": {"int64", "null.Int"},
	"decimal": {"decimal.Decimal", "decimal.NullDecimal"}, "float": {"float32", "null.Float"}, "double": {"float64", "null.Float"},
	"datetime": {"time.Time", "null.Time"}, "date": {"time.Time", "null.Time"}, "time": {"time.Time", "null.Time"},
	"blob8": {"[]byte", "[]byte"}, "blob16": {"[]byte", "[]byte"}, "blob24": {"[]byte", "[]byte"}, "blob32": {"[]byte", "[]byte"},
	"bit": {"byte", "*byte"}, "enum": {"string", "string"},
}

var digitFirst = regexp.MustCompile(`^\d`)

// goName: the field name, and whether the column name has to be given.
func goName(n string) (string, bool) {
	if strings.Contains(n, "«") {
		return camel(n), false
	}
	f := strcase.ToCamel(n)
	over := strcase.ToSnake(f) != n
	if b, ok := strings.CutSuffix(f, "Id"); ok {
		f = b + "ID"
	}
	if digitFirst.MatchString(f) {
		return "_" + f, true
	}
	return f, over
}

func gormTag(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return " `gorm:\"" + strings.Join(p, ";") + "\"`"
}

func gormType(x *Col) string {
	t, ok := gormTypes[x.Type]
	if !ok {
		return "interface{}"
	}
	if x.NN {
		return t[0]
	}
	return t[1]
}

func gormField(t *Tab, x *Col, uq string) string {
	name, over := goName(x.Name)
	var p []string
	add := func(b bool, s string) {
		if b {
			p = append(p, s)
		}
	}
	add(over, "column:"+x.Name)
	switch x.Type {
	case "bit", "char", "varchar":
		add(x.Size != "", "type:"+x.Type+"("+x.Size+")")
	case "decimal", "float", "double":
		add(x.Size != "" && x.Scale != "", "type:"+x.Type+"("+x.Size+","+x.Scale+")")
	}
	add(x.PK, "primary_key")
	if uq == "" {
		add(x.UQ, "unique")
	} else {
		add(x.UQ, "unique_index:"+uq)
	}
	for _, ix := range t.Idx {
		for i, n := range ix.Cols {
			if n == x.Name {
				if len(ix.Cols) == 1 {
					p = append(p, "index:"+ix.Name)
				} else {
					p = append(p, fmt.Sprintf("index:%s,priority:%d", ix.Name, i+1))
				}
				break
			}
		}
	}
	add(x.AI, "auto_increment")
	add(x.NN && !x.AI, "not null")
	return name + " " + gormType(x) + gormTag(p) + "\n"
}

// embedded lists the models that replace columns of the table and the columns they replace.
func embedded(c *Case, t *Tab) (names []string, cols map[string]bool) {
	models := map[string][]string{"gorm.Model": {"id", "created_at", "updated_at", "deleted_at"}}
	if m := regexp.MustCompile(`^([a-zA-Z0-9._]+):(.*)$`).FindStringSubmatch(c.Flags["embed"]); m != nil {
		models[m[1]] = nil
		if m[2] != "" {
			models[m[1]] = strings.Split(m[2], ",")
		}
	}
	have := map[string]bool{}
	for _, x := range t.Cols {
		have[x.Name] = true
	}
	cols = map[string]bool{}
	for _, n := range sortedKeys(models) {
		all := len(models[n]) > 0
		for _, k := range models[n] {
			all = all && have[k]
		}
		if all {
			names = append(names, n)
			for _, k := range models[n] {
				delete(have, k)
				cols[k] = true
			}
		}
	}
	return
}

func gormExpect(c *Case) string {
	d := c.doc()
	imports := map[string]bool{}
	body := eachTab(d, func(t *Tab) string {
		names, gone := embedded(c, t)
		s := "type " + classOf(c, t) + " struct {\n"
		for _, n := range names {
			s += n + "\n"
			if n == "gorm.Model" {
				imports["github.com/jinzhu/gorm"] = true
			}
		}
		uq, n := "", 0
		for _, x := range t.Cols {
			if x.UQ {
				n++
			}
		}
		if n > 1 {
			uq = t.Name + c.Flags["uniqueNameSuffix"]
		}
		s += eachCol(t, func(x *Col) string {
			if gone[x.Name] {
				return ""
			}
			switch ty := gormType(x); {
			case strings.HasPrefix(ty, "null."):
				imports["gopkg.in/guregu/null.v4"] = true
			case strings.HasPrefix(ty, "decimal."):
				imports["github.com/shopspring/decimal"] = true
			case ty == "time.Time":
				imports["time"] = true
			}
			return gormField(t, x, uq)
		})
		s += eachCol(t, func(x *Col) string {
			if x.Ref == nil {
				return ""
			}
			for _, u := range d.Tabs {
				for _, y := range u.Cols {
					if u.Name == x.Ref.Table && y.Name == x.Ref.Column {
						ty := classOf(c, u)
						if x.Ref.Rel == "1:n" {
							ty = "[]" + ty
						}
						if c.Flags["pointerAssociation"] == "true" {
							ty = "*" + ty
						}
						fk, _ := goName(x.Name)
						rn, _ := goName(y.Name)
						return classOf(c, u) + " " + ty + gormTag([]string{"foreignKey:" + fk, "references:" + rn}) + "\n"
					}
				}
			}
			return ""
		})
		return s + "}\nfunc (c *" + classOf(c, t) + ") TableName() string { return \"" + t.Name + "\" }\n"
	})
	pkg := c.Flags["package"]
	if pkg == "" {
		pkg = "main"
	}
	h := "package " + pkg + "\nimport (\n"
	is := sortedKeys(imports)
	sort.Strings(is)
	for _, i := range is {
		h += "\"" + i + "\"\n"
	}
	out := c.Flags["output"]
	if !strings.HasSuffix(strings.ToLower(out), ".go") {
		out += "/output.go"
	}
	return writes(out, h+")\n"+body)
}

func gormFlags(out string) []map[string]string {
	return []map[string]string{{"output": out}, {"output": out, "package": "«PKG»", "pointerAssociation": "true", "uniqueNameSuffix": "«SUF»"}}
}

// indexCases: indexes of one and more columns, shared columns, repeated columns.
func indexCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	var cs []*Case
	sets := [][]*Idx{
		{{Class: "x", Name: "«IX»", Cols: []string{"b"}}},
		{{Class: "x", Name: "«IX»", Cols: []string{"a", "b"}}},
		{{Class: "x", Name: "«IX»", Cols: []string{"c", "a", "b"}}, {Class: "y", Name: "«IY»", Cols: []string{"b"}}},
		{{Class: "x", Name: "«IX»", Cols: []string{"b", "c"}}, {Class: "y", Name: "«IY»", Cols: []string{"c", "b"}}, {Class: "z", Name: "«IZ»", Cols: []string{"c"}}},
		{{Class: "x", Name: "«IX»", Cols: []string{"a", "b", "a"}}},
		{{Class: "x", Name: "«IX»", Cols: []string{"zz"}}, {Class: "y", Name: "«IY»"}},
	}
	for i, ix := range sets {
		for _, uq := range []bool{false, true} {
			cs = append(cs, &Case{Name: fmt.Sprintf("indexes %d, unique %v", i, uq), Cmd: cmd, Norm: norm, Flags: flags,
				Docs: docOf(&Tab{Class: "t", Name: "ttt", Idx: ix, Cols: []*Col{{Class: "a", Name: "a", Type: "int64", PK: true, NN: true}, {Class: "b", Name: "b", Type: "varchar", UQ: uq, NN: uq}, {Class: "c", Name: "c", Type: "varchar", Size: "«SZ»", UQ: true}}}), Expect: expect})
		}
	}
	return cs
}

// multiKeyCases: every distribution of primary and unique keys over three columns.
func multiKeyCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	var cs []*Case
	for i := 0; i < 64; i++ {
		var cols []*Col
		for j, n := range []string{"aa", "bb", "cc"} {
			pk, uq := i>>(2*j)&1 > 0, i>>(2*j)&2 > 0
			cols = append(cols, &Col{Class: n, Name: n, Type: []string{"int64", "varchar", "int32"}[j], PK: pk, UQ: uq, NN: pk || j == 1, AI: pk && j == 0})
		}
		cs = append(cs, &Case{Name: fmt.Sprintf("keys %06b", i), Cmd: cmd, Norm: norm, Flags: flags, Docs: docOf(&Tab{Class: "t", Name: "ttt", Desc: "«TD»", Cols: cols}), Expect: expect})
	}
	return cs
}

// namedCols are columns of the given names, each of another type.
func namedCols(names string, types ...string) []*Col {
	var r []*Col
	for i, n := range strings.Fields(names) {
		r = append(r, &Col{Class: n, Name: n, Type: types[i%len(types)], NN: true})
	}
	return r
}

func init() {
	cmd := "generate gorm"
	checks["G01"] = func(k *Check) {
		k.rule("the structs written by 'generate gorm' are compared, as a language over all column lists, with the documented structs for every column type, attribute, name, index and key variant.")
		var cs []*Case
		for _, f := range gormFlags("«OUT».go") {
			cs = append(cs, atLeastOne(snakeNames(classTypeCases(cmd, normPlain, gormExpect, f, mysqlTypes, true, false)))...)
			cs = append(cs, nameCases(cmd, normPlain, gormExpect, f, []string{"id", "ID", "Id", "user_id", "userId", "userid", "identity", "id_card", "1_decimal", "2nd", "x2", "x_2", "user_name", "UserName", "user-name", "a"}, []string{"varchar", "decimal"})...)
			cs = append(cs, indexCases(cmd, normPlain, gormExpect, f)...)
			cs = append(cs, multiKeyCases(cmd, normPlain, gormExpect, f)...)
			cs = append(cs, mixedCases(cmd, normPlain, gormExpect, f, mysqlTypes, 400)...)
		}
		cs = append(cs, k.optionMixes(cmd, normPlain, gormExpect, []string{"«OUT».go", "«OUT»/dir"}, mysqlTypes, 400)...)
		k.cases(cs)
	}
	checks["G02"] = func(k *Check) {
		k.rule("the head and the table name methods of the source written by 'generate gorm' are compared with the packages the fields refer to, for every pair of column types, nullability and embedding, and for every form of the output path.")
		var cs []*Case
		for _, out := range []string{"«OUT».go", "«OUT».GO", "out/dir", "«OUT».d"} {
			for _, f := range gormFlags(out) {
				if strings.HasSuffix(out, ".go") {
					cs = append(cs, twoTables(cmd, normPlain, gormExpect, f, mysqlTypes)...)
				}
				cs = append(cs, mixedCases(cmd, normPlain, gormExpect, f, mysqlTypes, 150)...)
				cs = append(cs, snakeNames(shapeCases(cmd, normPlain, gormExpect, f))...)
				for _, t := range mysqlTypes {
					for _, nn := range []bool{false, true} {
						mk := func(s string, cols ...*Col) *Case {
							return &Case{Name: fmt.Sprintf("%s of %s, not null %v", s, t.Name, nn), Cmd: cmd, Norm: normPlain, Flags: f, NoLit: true, Docs: docOf(&Tab{Class: "t", Name: "«T»", ClassName: "«CN»", Cols: cols}), Expect: gormExpect}
						}
						one := &Col{Class: "x", Name: "x", Type: t.Name, NN: nn}
						// what only embedded columns need is not imported
						emb := namedCols("id created_at updated_at deleted_at", t.Name)
						for _, e := range emb {
							e.NN = nn
						}
						key := namedCols("id created_at updated_at deleted_at", t.Name, "int64", "int64", "int64")
						key[0].PK, key[0].AI, key[1].UQ, key[2].UQ = true, isIntType8(t.Name), true, true
						uqs := namedCols("id created_at updated_at deleted_at", "int64", "int64", t.Name, "int64")
						uqs[2].UQ = true
						other := namedCols("other", "int64")
						cs = append(cs, mk("embedded key", key...), mk("embedded key and other", append(key, other...)...), mk("embedded unique and other", append(uqs, other...)...))
						cs = append(cs, mk("only", one), mk("embedded", emb...), mk("partly embedded", append(emb, one)...), mk("incomplete", emb[:3]...))
					}
				}
			}
		}
		k.cases(cs)
	}
	checks["G03"] = func(k *Check) {
		k.rule("the association fields and embedded models written by 'generate gorm' are compared with those the references and the embed option call for, for every relationship, target and embedding.")
		var cs []*Case
		for _, f := range gormFlags("«OUT».go") {
			cs = append(cs, atLeastOne(snakeNames(refCases(cmd, normPlain, gormExpect, f)))...)
			for _, rel := range relations {
				for _, ref := range []Ref{{"uuu", "id", rel}, {"uuu", "user_id", rel}, {"uuu", "nope", rel}, {"nope", "id", rel}, {"ttt", "self_id", rel}, {"vvv", "1_x", rel}} {
					for _, cn := range []string{"", "Klass"} {
						r := ref
						t := &Tab{Class: "t", Name: "ttt", Cols: append(namedCols("id self_id", "int64"), &Col{Class: "r", Name: "ref_id", Type: "int64", Ref: &r}, &Col{Class: "r2", Name: "refName", Type: "varchar", Ref: &r, UQ: true})}
						cs = append(cs, &Case{Name: fmt.Sprintf("reference to %s.%s as %q, class %q", ref.Table, ref.Column, rel, cn), Cmd: cmd, Norm: normPlain, Flags: f,
							Docs: docOf(t, &Tab{Class: "u", Name: "uuu", ClassName: cn, Cols: namedCols("id user_id created_at updated_at deleted_at", "int64", "datetime")}, &Tab{Class: "v", Name: "vvv", Cols: namedCols("1_x", "int64")}), Expect: gormExpect})
					}
				}
			}
		}
		for _, e := range []string{"", "IdName:id,name", "IdName:name", "A.B:name,id", "gorm.Model:", "gorm.Model:id,created_at", "Audit:created_at,updated_at", "Zed:id,zed", "Zed:zed", "None:nope", "Part:id,nope", "bad", "bad name:id", "Many:id,name,created_at,updated_at,deleted_at,zed", "Cap:ID,Zed", "Low:id,zed", "a:b:id", "x.y_9:id,,name", "S: id", "D:id,id"} {
			f := map[string]string{"output": "«OUT».go"}
			if e != "" {
				f["embed"] = e
			}
			for _, names := range []string{"id name created_at updated_at deleted_at zed", "name zed updated_at deleted_at created_at id", "id name", "id created_at updated_at name", "zed", "id created_at updated_at deleted_at", "id ID Zed zed name", "ID Zed Name"} {
				cs = append(cs, &Case{Name: "embed " + e + " into " + names, Cmd: cmd, Norm: normPlain, Flags: f,
					Docs: docOf(&Tab{Class: "t", Name: "ttt", Cols: namedCols(names, "int64", "varchar", "datetime")}, &Tab{Class: "u", Name: "uuu", Cols: namedCols("id name other", "int64", "varchar")}), Expect: gormExpect})
			}
		}
		for _, e := range []string{"", "Audit:created_at,updated_at", "B:id,name", "C:valid", "gorm.Model:id"} {
			for _, p := range []string{"", "true"} {
				f := map[string]string{"output": "«OUT».go", "removePrefix": "tb_", "prefix": "g1:Pre"}
				if e != "" {
					f["embed"] = e
				}
				if p != "" {
					f["pointerAssociation"] = p
				}
				cs = append(cs, mixedCases(cmd, normPlain, gormExpect, f, mysqlTypes, 150)...)
			}
		}
		k.cases(cs)
	}
}
