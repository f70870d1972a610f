package main

import (
	"fmt"
	"strings"
)

// Oracles of the diagram exporters: DBML, QuickDBD, PlantUML.

var relations = []string{"n:1", "1:n", "1:1", ""}

// typeCases: one context per type and attribute variant, the column standing for any number of columns of any table.
func typeCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	var cs []*Case
	for _, t := range mysqlTypes {
		vs := colVariants(t.Name)
		for _, vn := range sortedKeys(vs) {
			cs = append(cs, &Case{Name: "type " + t.Name + ", " + vn, Cmd: cmd, Norm: norm, Flags: flags,
				Docs: docOf(&Tab{Class: "t", Star: true, Name: "«T»", Desc: "«TD»", Cols: wrapCols(vs[vn])}), Expect: expect})
		}
	}
	return cs
}

func pkCol(name string) *Col { return &Col{Class: "id", Name: name, Type: "int64", PK: true, NN: true} }

// refCases: references to an earlier table, a later table and the same table, from any number of columns.
func refCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	var cs []*Case
	for _, rel := range relations {
		for _, target := range []string{"aaa", "mmm", "zzz"} {
			for i := 0; i < 16; i++ {
				nn := i&1 > 0
				ref := &Ref{target, "«RC»", rel}
				if target == "mmm" {
					ref.Column = "«PM»"
				}
				r1 := &Col{Class: "r1", Name: "«R1»", Type: "int64", NN: nn, Ref: ref}
				r2 := &Col{Class: "r2", Name: "«R2»", Type: "int64", NN: nn, UQ: i&2 > 0, Ref: ref}
				if i&4 > 0 {
					r2.Desc, r2.Default = "«D»", "«DEF»"
				}
				if i&8 > 0 {
					r1.PK, r2.PK = i&2 > 0, true
				}
				m := []*Col{pkCol("«PM»"), r1, {Class: "m", Name: "«M»", Type: "varchar", Size: "10", Star: true}, r2}
				cs = append(cs, &Case{Name: fmt.Sprintf("reference %q to %s, attributes %04b", rel, target, i), Cmd: cmd, Norm: norm, Flags: flags,
					Docs: docOf(&Tab{Class: "a", Name: "aaa", Cols: []*Col{pkCol("«RC»"), {Class: "n", Name: "«N»", Type: "int32"}}},
						&Tab{Class: "m", Name: "mmm", Desc: "«TD»", Cols: m}, &Tab{Class: "z", Name: "zzz", Cols: []*Col{pkCol("«RC»")}}), Expect: expect})
			}
		}
	}
	return cs
}

// shapeCases: empty schemas, tables without columns, single columns.
func shapeCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	mk := func(n string, tabs ...*Tab) *Case {
		return &Case{Name: n, Cmd: cmd, Norm: norm, Flags: flags, Docs: docOf(tabs...), Expect: expect}
	}
	plain := func(n string) *Col { return &Col{Class: n, Name: "«" + n + "»", Type: "int32"} }
	return []*Case{
		mk("no table"),
		mk("a table without columns", &Tab{Class: "t", Name: "«T»"}),
		mk("one column", &Tab{Class: "t", Name: "«T»", Cols: []*Col{plain("A")}}),
		mk("one key column", &Tab{Class: "t", Name: "«T»", Cols: []*Col{pkCol("«A»")}}),
		mk("two tables", &Tab{Class: "t", Name: "aaa", Cols: []*Col{pkCol("«A»"), plain("B")}}, &Tab{Class: "u", Name: "bbb", Desc: "«UD»", Cols: []*Col{plain("X"), pkCol("«Y»")}}),
	}
}

func allCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string) []*Case {
	cs := typeCases(cmd, norm, expect, flags)
	cs = append(cs, refCases(cmd, norm, expect, flags)...)
	cs = append(cs, mixedCases(cmd, norm, expect, flags, mysqlTypes, 600)...)
	return append(cs, shapeCases(cmd, norm, expect, flags)...)
}

func relSym(rel, n1, one2n, one string) string {
	switch rel {
	case "1:n":
		return one2n
	case "1:1":
		return one
	}
	return n1
}

func dbmlExpect(c *Case) string {
	var refs []string
	defined := map[string]bool{}
	body := eachTab(c.doc(), func(t *Tab) string {
		s := "Table " + t.Name + " {\n" + eachCol(t, func(x *Col) string {
			var p []string
			add := func(b bool, s string) {
				if b {
					p = append(p, s)
				}
			}
			add(x.PK, "pk")
			add(x.UQ, "unique")
			add(x.NN, "not null")
			if x.Default != "" {
				v := x.Default
				if isTextType(x.Type) {
					v = "'" + v + "'"
				}
				p = append(p, "default: "+v)
			}
			if x.Ref != nil {
				sym := relSym(x.Ref.Rel, ">", "<", "-")
				if defined[x.Ref.Table] {
					p = append(p, "ref: "+sym+" "+x.Ref.Table+"."+x.Ref.Column)
				} else {
					refs = append(refs, "Ref: "+t.Name+"."+x.Name+" "+sym+" "+x.Ref.Table+"."+x.Ref.Column+"\n")
				}
			}
			add(x.Desc != "", "note: \""+x.Desc+"\"")
			l := x.Name + " " + sizeText(x.Type, x, true, true)
			if len(p) > 0 {
				l += " [" + strings.Join(p, ", ") + "]"
			}
			return l + "\n"
		}) + "}\n\n"
		defined[t.Name] = true
		return s
	})
	return outFile(body + strings.Join(refs, ""))
}

func quickdbdExpect(c *Case) string {
	return outFile(eachTab(c.doc(), func(t *Tab) string {
		s := t.Name
		if t.Desc != "" {
			s += " # " + t.Desc
		}
		s += "\n" + dashes(t.Name) + "\n"
		return s + eachCol(t, func(x *Col) string {
			l := x.Name + " " + x.Type
			add := func(b bool, s string) {
				if b {
					l += " " + s
				}
			}
			add(x.PK, "PK")
			add(x.UQ, "UNIQUE")
			add(x.AI, "AUTOINCREMENT")
			add(!x.NN, "NULLABLE")
			add(x.Default != "", "default="+x.Default)
			if x.Ref != nil {
				l += " FK " + relSym(x.Ref.Rel, ">-", "-<", "-") + " " + x.Ref.Table + "." + x.Ref.Column
			}
			add(x.Desc != "", "# "+x.Desc)
			return l + "\n"
		}) + "\n"
	}))
}

func dashes(n string) string {
	if strings.Contains(n, "«") {
		return "«strings.Repeat(-,len" + n + ")»"
	}
	return strings.Repeat("-", len(n))
}

func plantumlExpect(c *Case) string {
	refs := ""
	body := eachTab(c.doc(), func(t *Tab) string {
		sep := false
		return "entity " + t.Name + " {\n" + eachCol(t, func(x *Col) string {
			l := ""
			if !x.PK && !sep {
				sep = true
				l = "    --\n"
			}
			l += "    "
			if x.NN {
				l += "* "
			}
			l += x.Name + ": " + x.Type
			if x.PK {
				l += " <<PK>>"
			}
			if x.UQ {
				l += " <<UQ>>"
			}
			if x.Ref != nil {
				l += " <<FK>>"
				refs += t.Name + " " + relSym(x.Ref.Rel, "}o-||", "||-o{", "||-||") + " " + x.Ref.Table + "\n"
			}
			return l + "\n"
		}) + "}\n"
	})
	return writes(c.Flags["output"], "@startuml\n"+body+refs+"@enduml\n")
}

func init() {
	checks["B01"] = func(k *Check) {
		k.rule("the DBML written by 'export dbml' is compared, as a language over all table and column lists, with the documented text for every type, attribute and reference variant.")
		k.cases(allCases("export dbml", normPlain, dbmlExpect, nil))
	}
	checks["B02"] = func(k *Check) {
		k.rule("the text written by 'export quickdbd' is compared, as a language over all table and column lists, with the documented text for every type, attribute and reference variant.")
		k.cases(allCases("export quickdbd", normRules, quickdbdExpect, nil))
	}
	checks["U01"] = func(k *Check) {
		k.rule("the diagram written by 'generate plantuml' is compared, as a language over all table and column lists, with the documented text for every type, attribute and reference variant.")
		k.cases(allCases("generate plantuml", normPlain, plantumlExpect, map[string]string{"output": "«OUT».puml"}))
	}
}
