package main

import (
	"fmt"
	"path"
	"strings"

	"octcheck/internal/strcase"
)

// Oracle of the Kotlin JPA generator.

type ktSpec struct{ Type, Default, Import string }

var ktTypes = map[string]ktSpec{
	"char": {"String", `""`, ""}, "varchar": {"String", `""`, ""}, "text8": {"String", `""`, ""}, "text16": {"String", `""`, ""}, "text24": {"String", `""`, ""}, "text32": {"String", `""`, ""},
	"boolean": {"Boolean", "false", ""}, "int8": {"Int", "0", ""}, "int16": {"Int", "0", ""}, "int24": {"Int", "0", ""}, "int32": {"Int", "0", ""}, "int64": {"Long", "0L", ""},
	"decimal": {"BigDecimal", "BigDecimal.ZERO", "java.math.BigDecimal"}, "float": {"Float", "0.0F", ""}, "double": {"Double", "0.0", ""},
	"datetime": {"Timestamp", "Timestamp(System.currentTimeMillis())", "java.sql.Timestamp"}, "date": {"LocalDate", "LocalDate.now()", "java.time.LocalDate"},
	"time":  {"LocalTime", "LocalTime.now()", "java.time.LocalTime"},
	"blob8": {"Blob", "", "java.sql.Blob"}, "blob16": {"Blob", "", "java.sql.Blob"}, "blob24": {"Blob", "", "java.sql.Blob"}, "blob32": {"Blob", "", "java.sql.Blob"},
}

func ktSupported() []typeSpec {
	var r []typeSpec
	for _, t := range mysqlTypes {
		if _, ok := ktTypes[t.Name]; ok {
			r = append(r, t)
		}
	}
	return r
}

func ktName(n string) (string, bool) {
	if strings.Contains(n, "«") {
		return lowerCamel(n), false
	}
	f := strcase.ToLowerCamel(n)
	return f, strcase.ToSnake(f) != n
}

// ktVar: the declaration of a property without a separator.
func ktVar(x *Col) string {
	n, _ := ktName(x.Name)
	sp, ok := ktTypes[x.Type]
	if !ok {
		sp.Type = "Any"
	}
	s := "var " + n + ": " + sp.Type
	if !x.NN {
		return s + "?"
	}
	if sp.Default != "" {
		s += " = " + sp.Default
	}
	return s
}

func ktType(x *Col) string {
	t := "Any"
	if sp, ok := ktTypes[x.Type]; ok {
		t = sp.Type
	}
	if !x.NN {
		t += "?"
	}
	return t
}

func ktAnnotations(c *Case, x *Col) string {
	d := c.doc()
	s := ""
	var attr []string
	name, over := ktName(x.Name)
	add := func(b bool, a string) {
		if b {
			attr = append(attr, a)
		}
	}
	if x.PK {
		s += "@Id\n"
	}
	if x.AI {
		s += "@GeneratedValue(strategy = GenerationType.AUTO)\n"
	}
	if strings.HasPrefix(x.Type, "text") {
		s += "@Lob\n"
	}
	if c.Flags["relation"] == "VRelation" && x.Ref != nil {
		for _, t := range d.Tabs {
			if t.Name == x.Ref.Table {
				rn, _ := ktName(x.Ref.Column)
				s += "@VRelation(cls = \"" + ktClass(c, t) + "\", field = \"" + rn + "\")\n"
			}
		}
	}
	add(over, "name = \""+x.Name+"\"")
	add(x.NN, "nullable = false")
	add((strings.HasPrefix(x.Type, "text") || isTextType(x.Type)) && x.Size != "", "length = "+x.Size)
	num := x.Type == "decimal" || x.Type == "float" || x.Type == "double"
	add(num && x.Size != "", "precision = "+x.Size)
	add(num && x.Scale != "", "scale = "+x.Scale)
	if x.Type == "datetime" && name == "createdAt" {
		s += "@CreationTimestamp\n"
		add(true, "updatable = false")
	}
	if x.Type == "datetime" && name == "updatedAt" {
		s += "@UpdateTimestamp\n"
	}
	if len(attr) > 0 {
		s += "@Column(" + strings.Join(attr, ", ") + ")\n"
	}
	return s
}

// ktClass is the class name; the contexts with prefix options are those of N01.
func ktClass(c *Case, t *Tab) string { return classOf(c, t) }

func pkOf(t *Tab) []*Col {
	var r []*Col
	for _, x := range t.Cols {
		if x.PK {
			r = append(r, x)
		}
	}
	return r
}

func pkgDir(c *Case, pkg string) string {
	out := c.Flags["output"]
	if !strings.Contains(out, "«") {
		out = path.Clean(out)
	}
	if pkg == "" {
		return out
	}
	return out + "/" + strings.ReplaceAll(pkg, ".", "/")
}

// annotationsOf is the text of the custom annotations of the group of a table.
func annotationsOf(c *Case, t *Tab) string {
	a := c.Flags["annotation"]
	if !strings.Contains(a, ":") {
		return a
	}
	for _, p := range strings.Split(a, ",") {
		if g, v, _ := strings.Cut(p, ":"); g == t.Group {
			a = strings.ReplaceAll(v, ";", "")
			return a
		}
	}
	return ""
}

func ktEntity(c *Case, t *Tab) string {
	cl := ktClass(c, t)
	pk := pkOf(t)
	s := ""
	pkg := c.Flags["package"]
	if pkg != "" {
		s += "package " + pkg + "\n"
	}
	hib, java := map[string]bool{}, map[string]bool{"javax.persistence.*": true}
	var uq []It
	for _, x := range t.Cols {
		n, _ := ktName(x.Name)
		if i := ktTypes[x.Type].Import; i != "" {
			java[i] = true
		}
		if x.Type == "datetime" && n == "createdAt" {
			hib["org.hibernate.annotations.CreationTimestamp"] = true
		}
		if x.Type == "datetime" && n == "updatedAt" {
			hib["org.hibernate.annotations.UpdateTimestamp"] = true
		}
		if x.UQ {
			uq = append(uq, It{"\"" + x.Name + "\"", x.Star, x.Min})
		}
	}
	if len(pk) > 1 {
		java["java.io.Serializable"] = true
	}
	for _, m := range []map[string]bool{hib, java} {
		for _, i := range sortedKeys(m) {
			s += "import " + i + "\n"
		}
	}
	if a := annotationsOf(c, t); a != "" {
		s += a + "\n"
	}
	s += "@Entity\n"
	if len(uq) > 0 {
		s += "@Table(name=\"" + t.Name + "\", uniqueConstraints = [\nUniqueConstraint(name = \"" + t.Name + c.Flags["uniqueNameSuffix"] + "\", columnNames = [" + joinIts(uq, ", ") + "])\n])\n"
	} else {
		s += "@Table(name = \"" + t.Name + "\")\n"
	}
	if len(pk) > 1 {
		s += "@IdClass(" + cl + "PK::class)\n"
	}
	var idField *Col
	if c.Flags["idEntity"] != "" && len(pk) == 1 {
		if n, _ := ktName(pk[0].Name); n == "id" {
			idField = pk[0]
		}
	}
	s += "data class " + cl + "(\n"
	s += joinIts(colIts(t, func(x *Col) string {
		v := ktVar(x)
		if x == idField && x.NN {
			v = "override " + v
			if x == t.Cols[len(t.Cols)-1] {
				v += ","
			}
		}
		return ktAnnotations(c, x) + v
	}), ",\n") + "\n)"
	if idField != nil {
		s += ": " + c.Flags["idEntity"] + "<" + ktType(idField) + ">"
	}
	s += "\n"
	if len(pk) > 1 {
		s += "data class " + cl + "PK(\n" + joinIts(colIts(&Tab{Cols: pk}, ktVar), ",\n") + "\n): Serializable\n"
	}
	return writes(pkgDir(c, pkg)+"/"+cl+".kt", s)
}

func ktRepository(c *Case, t *Tab) string {
	cl := ktClass(c, t)
	pk := pkOf(t)
	if len(pk) == 0 {
		return ""
	}
	id := cl + "PK"
	if len(pk) == 1 {
		id = ktType(pk[0])
	}
	rp := c.Flags["reposPackage"]
	s := "package " + rp + "\n"
	if p := c.Flags["package"]; p != "" {
		s += "import " + p + ".*\n"
	}
	s += "import org.springframework.data.jpa.repository.JpaRepository\nimport org.springframework.stereotype.Repository\n@Repository\ninterface " + cl + "Repository : JpaRepository<" + cl + ", " + id + ">\n"
	return writes(pkgDir(c, rp)+"/"+cl+"Repository.kt", s)
}

func ktExpect(c *Case) string {
	s := eachTab(c.doc(), func(t *Tab) string { return ktEntity(c, t) })
	if c.Flags["reposPackage"] != "" {
		s += eachTab(c.doc(), func(t *Tab) string { return ktRepository(c, t) })
	}
	return s
}

func init() {
	cmd := "generate kt"
	flags := []map[string]string{
		{"output": "out", "package": "com.ent"},
		{"output": "out/src", "package": "ent", "reposPackage": "a.b.repos", "idEntity": "«IDE»", "uniqueNameSuffix": "«SUF»", "annotation": "«ANNO»"},
		{"output": "out", "reposPackage": "repos", "relation": "VRelation", "useUTC": "true"},
	}
	checks["K01"] = func(k *Check) {
		k.rule("the entities written by 'generate kt' are compared, as a language over all column lists, with the documented entities for every column type, attribute, name and key variant.")
		var cs []*Case
		for _, f := range flags {
			cs = append(cs, atLeastOne(snakeNames(classTypeCases(cmd, normPlain, ktExpect, f, ktSupported(), true, false)))...)
			cs = append(cs, nameCases(cmd, normPlain, ktExpect, f, []string{"id", "ID", "user_id", "userId", "created_at", "updated_at", "createdAt", "updatedAt", "CREATED_AT", "x2", "x_2", "1st", "UserName", "user-name", "a"}, []string{"datetime", "varchar", "date", "int64"})...)
			cs = append(cs, multiKeyCases(cmd, normPlain, ktExpect, f)...)
			cs = append(cs, mixedCases(cmd, normPlain, ktExpect, f, ktSupported(), 300)...)
		}
		cs = append(cs, k.optionMixes(cmd, normPlain, ktExpect, []string{"out", "out/src", "«OUT»"}, ktSupported(), 400)...)
		k.cases(cs)
	}
	checks["K02"] = func(k *Check) {
		k.rule("the files written by 'generate kt' are compared with the packages, imports, id classes, repositories and file names the schema and options call for, for every pair of column types, key and option combination.")
		var cs []*Case
		for _, f := range flags {
			cs = append(cs, twoTables(cmd, normPlain, ktExpect, f, ktSupported())...)
			for _, ty := range ktSupported() {
				for i := 0; i < 4; i++ {
					cs = append(cs, &Case{Name: fmt.Sprintf("key of %s, %02b", ty.Name, i), Cmd: cmd, Norm: normPlain, Flags: f,
						Docs: docOf(&Tab{Class: "t", Name: "ttt", Cols: []*Col{{Class: "i", Name: "id", Type: ty.Name, PK: true, NN: i&1 > 0}, {Class: "n", Name: "name", Type: "varchar", PK: i&2 > 0}}}), Expect: ktExpect})
				}
			}
			cs = append(cs, atLeastOne(snakeNames(refCases(cmd, normPlain, ktExpect, f)))...)
		}
		for _, out := range []string{"out", "out/src", "./out", "«OUT»"} {
			for _, pkg := range []string{"", "ent", "com.ent.x"} {
				for _, rp := range []string{"", "repos", "com.ent.x", "com.repos"} {
					for _, ide := range []string{"", "IdEntity"} {
						for _, an := range []string{"", "@Anno", "g1:@One,g2:@Two;@Three", "g2:@Two", "g3:@Three", "g1:@One(\"a:b\")"} {
							f := map[string]string{"output": out}
							for n, v := range map[string]string{"package": pkg, "reposPackage": rp, "idEntity": ide, "annotation": an} {
								if v != "" {
									f[n] = v
								}
							}
							cs = append(cs, &Case{Name: fmt.Sprintf("options %v", f), Cmd: cmd, Norm: normPlain, Flags: f, NoLit: true,
								Docs: docOf(&Tab{Class: "t", Name: "ttt", Group: "g1", Cols: []*Col{pkCol("id"), {Class: "n", Name: "name", Type: "varchar", UQ: true}}},
									&Tab{Class: "u", Name: "user_group", Group: "g2", ClassName: "Klass", Cols: []*Col{pkCol("a"), {Class: "b", Name: "b", Type: "varchar", PK: true, NN: true}, {Class: "d", Name: "d", Type: "decimal"}}},
									&Tab{Class: "v", Name: "vvv", Cols: []*Col{{Class: "d", Name: "d", Type: "date", NN: true}}}, &Tab{Class: "w", Name: "www", Group: "g1", Cols: []*Col{{Class: "d", Name: "d", Type: "date", NN: true}, pkCol("id")}}), Expect: ktExpect})
						}
					}
				}
			}
		}
		for _, pkg := range []string{"", "com.ent.x"} {
			for _, rp := range []string{"", "repos", "com.ent.x"} {
				for _, ide := range []string{"", "IdEntity"} {
					f := map[string]string{"output": "out", "annotation": "g1:@One,g2:@Two;@Three", "prefix": "g1:Pre,g2:Q", "removePrefix": "tb_,x_", "uniqueNameSuffix": "_uq"}
					for n, v := range map[string]string{"package": pkg, "reposPackage": rp, "idEntity": ide} {
						if v != "" {
							f[n] = v
						}
					}
					cs = append(cs, mixedCases(cmd, normPlain, ktExpect, f, ktSupported(), 100)...)
				}
			}
		}
		k.cases(cs)
	}
}
