package main

import (
	"strings"
)

// Oracle of the SQLAlchemy generator.

var saTypes = map[string]string{"char": "String", "varchar": "String", "text8": "String", "text16": "String", "text24": "String", "text32": "String",
	"boolean": "Boolean", "int8": "Integer", "int16": "Integer", "int24": "Integer", "int32": "Integer", "int64": "BigInteger",
	"decimal": "Numeric", "float": "Float", "double": "Float", "datetime": "DateTime", "date": "Date", "time": "Time",
	"blob8": "LargeBinary", "blob16": "LargeBinary", "blob24": "LargeBinary", "blob32": "LargeBinary"}

var pyWords = " and as assert async await break class continue def del elif else except False finally for from global if import in is lambda None nonlocal not or pass raise return True try while with yield "

func saColumn(c *Case, x *Col, sa, imp map[string]bool) string {
	utc := c.Flags["useUTC"] == "true"
	name := lowerSnake(x.Name)
	word := strings.Contains(pyWords, " "+name+" ")
	var p []string
	if word || name != x.Name {
		p = append(p, "'"+x.Name+"'")
	}
	if word {
		name += "_"
	}
	ty := saTypes[x.Type]
	sa[ty] = true
	switch x.Type {
	case "char", "varchar":
		p = append(p, sizeText(ty, x, true, false))
	case "decimal", "float", "double":
		var a []string
		if x.Size != "" {
			a = append(a, "precision="+x.Size)
		}
		if x.Scale != "" {
			a = append(a, "scale="+x.Scale)
		}
		p = append(p, ty+"("+strings.Join(a, ", ")+")")
	case "datetime":
		imp["from datetime import datetime"] = true
		now := "datetime.now"
		if utc {
			now = "datetime.utcnow"
		}
		switch {
		case x.Name == "created_at":
			p = append(p, ty, "default="+now)
		case x.Name == "updated_at":
			p = append(p, ty, "default="+now, "onupdate="+now)
		case utc:
			p = append(p, "TZDateTime")
			sa["TypeDecorator"] = true
			imp["from datetime import timezone"] = true
		default:
			p = append(p, ty)
		}
	default:
		p = append(p, ty)
	}
	add := func(b bool, s string) {
		if b {
			p = append(p, s)
		}
	}
	add(x.PK, "primary_key=True")
	add(x.UQ, "unique=True")
	add(x.AI, "autoincrement=True")
	add(x.NN && !x.AI, "nullable=False")
	return "    " + name + " = Column(" + strings.Join(p, ", ") + ")\n"
}

func saTable(c *Case, t *Tab, sa, imp map[string]bool) string {
	s := "class " + classOf(c, t) + "(Base):\n    __tablename__ = '" + t.Name + "'\n"
	uq := colIts(t, func(x *Col) string {
		if x.UQ {
			return "'" + x.Name + "'"
		}
		return ""
	})
	if len(uq) > 1 {
		s += "    UniqueConstraint(" + joinIts(uq, ", ") + ", name='" + t.Name + c.Flags["uniqueNameSuffix"] + "')\n"
		sa["UniqueConstraint"] = true
	}
	return s + eachCol(t, func(x *Col) string { return saColumn(c, x, sa, imp) })
}

func saHeader(sa, imp map[string]bool) string {
	s := ""
	for _, i := range sortedKeys(imp) {
		s += i + "\n"
	}
	sa["Column"] = true
	s += "from sqlalchemy import " + strings.Join(sortedKeys(sa), ", ") + "\nfrom sqlalchemy.ext.declarative import declarative_base\nfrom sqlalchemy_repr import RepresentableBase\n\nBase = declarative_base(cls=RepresentableBase)\n"
	if imp["from datetime import timezone"] {
		s += `class TZDateTime(TypeDecorator):
    impl = DateTime
    def process_bind_param(self, value, dialect):
        if value is not None:
            if not value.tzinfo:
                raise TypeError("tzinfo is required")
            value = value.astimezone(timezone.utc).replace(tzinfo=None)
        return value
    def process_result_value(self, value, dialect):
        if value is not None:
            value = value.replace(tzinfo=timezone.utc)
        return value
`
	}
	return s
}

func saExpect(c *Case) string {
	out := c.Flags["output"]
	if strings.HasSuffix(strings.ToLower(out), ".py") {
		sa, imp := map[string]bool{}, map[string]bool{}
		body := eachTab(c.doc(), func(t *Tab) string { return saTable(c, t, sa, imp) })
		return writes(out, saHeader(sa, imp)+body)
	}
	return eachTab(c.doc(), func(t *Tab) string {
		sa, imp := map[string]bool{}, map[string]bool{}
		body := saTable(c, t, sa, imp)
		return writes(out+"/"+t.Name+".py", saHeader(sa, imp)+body)
	})
}

// snakeNames gives the columns snake-case names.
func snakeNames(cs []*Case) []*Case {
	for _, c := range cs {
		for i, d := range c.Docs {
			c.Docs[i] = d.subst(func(s string) string {
				if s == "«T»" || strings.HasPrefix(s, "«S") || s == "«CN»" {
					return s
				}
				return strings.ReplaceAll(s, "«", "«s_")
			})
		}
	}
	return cs
}

// atLeastOne: columns that stand for any number of columns occur at least once, so that what they need is needed.
func atLeastOne(cs []*Case) []*Case {
	for _, c := range cs {
		for _, t := range c.doc().Tabs {
			for _, x := range t.Cols {
				x.Min = 1
			}
		}
	}
	return cs
}

// nameCases: columns whose names need care, of every type that has a rule for names.
func nameCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string, names, types []string) []*Case {
	var cs []*Case
	for _, n := range names {
		for _, ty := range types {
			cs = append(cs, &Case{Name: "column " + n + " of " + ty, Cmd: cmd, Norm: norm, Flags: flags,
				Docs: docOf(&Tab{Class: "t", Name: "«T»", Cols: []*Col{{Class: "a", Name: n, Type: ty, NN: true}, {Class: "z", Name: "zzz", Type: "int64"}}}), Expect: expect})
		}
	}
	return cs
}

// twoTables: what one table needs does not leak into or get lost for another.
func twoTables(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string, types []typeSpec) []*Case {
	var cs []*Case
	for _, a := range types {
		for _, b := range types {
			cs = append(cs, &Case{Name: "tables with " + a.Name + " and " + b.Name, Cmd: cmd, Norm: norm, Flags: flags, NoLit: true,
				Docs: docOf(&Tab{Class: "t", Name: "aaa", Cols: []*Col{pkCol("id"), {Class: "x", Name: "x", Type: a.Name, Size: "2", UQ: true}, {Class: "u", Name: "u", Type: a.Name, UQ: true}}},
					&Tab{Class: "u", Name: "bbb", Cols: []*Col{{Class: "x", Name: "x", Type: b.Name}}}, &Tab{Class: "v", Name: "ccc", Cols: []*Col{{Class: "x", Name: "x", Type: "boolean", PK: true}}}), Expect: expect})
		}
	}
	return cs
}

func init() {
	checks["S01"] = func(k *Check) {
		k.rule("the classes written by 'generate sqlalchemy' are compared, as a language over all column lists, with the documented classes for every column type, attribute, name, key and table combination, for a single file and for a directory.")
		cmd := "generate sqlalchemy"
		var cs []*Case
		for _, out := range []string{"«OUT».py", "«OUT».PY", "out"} {
			for _, utc := range []string{"false", "true"} {
				for _, suf := range []string{"", "«SUF»"} {
					f := map[string]string{"output": out, "useUTC": utc}
					if suf != "" {
						f["uniqueNameSuffix"] = suf
					}
					cs = append(cs, snakeNames(classTypeCases(cmd, normLines, saExpect, f, typesIn(saTypes), true, false))...)
					cs = append(cs, atLeastOne(snakeNames(refCases(cmd, normLines, saExpect, f)))...)
					cs = append(cs, snakeNames(shapeCases(cmd, normLines, saExpect, f))...)
				}
				f := map[string]string{"output": out, "useUTC": utc}
				cs = append(cs, nameCases(cmd, normLines, saExpect, f, append(strings.Fields(pyWords), "userName", "ID", "user_id", "Class", "created_at", "updated_at", "createdAt", "CREATED_AT", "a1", "x_2y"), []string{"datetime", "varchar", "int64"})...)
				cs = append(cs, twoTables(cmd, normLines, saExpect, f, typesIn(saTypes))...)
				cs = append(cs, mixedCases(cmd, normLines, saExpect, f, typesIn(saTypes), 200)...)
			}
		}
		cs = append(cs, k.optionMixes(cmd, normLines, saExpect, []string{"«OUT».py", "out"}, typesIn(saTypes), 400)...)
		k.cases(cs)
	}
}
