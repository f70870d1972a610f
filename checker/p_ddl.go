package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// MySQL DDL as the parser library presents it, and what it means.

const (
	pParser = "github.com/pingcap/parser"
	pAst    = pParser + "/ast"
	pMysql  = pParser + "/mysql"
	pDriver = pParser + "/test_driver"
	pOpcode = pParser + "/opcode"
)

// libConst is the value of a constant of a library.
func (k *Check) libConst(pkg, name string) int {
	if p := k.prog.typesAll[pkg]; p != nil {
		if c, ok := p.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				return int(n)
			}
		}
	}
	panic("constant " + pkg + "." + name)
}

// ddlType is a MySQL column type: how the parser presents it and the octopus type of the same meaning.
type ddlType struct {
	sql        string // as in DDL; n and m stand for length and scale
	tp         string // constant of the parser
	flen, dec  string // "" unspecified, "n"/"m" the given ones, else a number
	bin        bool   // binary character set
	flag       bool   // BINARY attribute
	typ        string // octopus type
	size       bool   // the octopus type takes the length
	scale      bool
	unsigned   bool
	values     bool
	importOnly bool // not written by the exporter
}

var ddlTypes = []ddlType{
	{sql: "tinyint", tp: "TypeTiny", typ: "int8"}, {sql: "tinyint(2)", tp: "TypeTiny", flen: "2", typ: "int8", size: true}, {sql: "tinyint(4)", tp: "TypeTiny", flen: "4", typ: "int8", size: true}, {sql: "tinyint(1)", tp: "TypeTiny", flen: "1", typ: "boolean"},
	{sql: "bool", tp: "TypeTiny", flen: "1", typ: "boolean"},
	{sql: "smallint", tp: "TypeShort", typ: "int16"}, {sql: "smallint(n)", tp: "TypeShort", flen: "n", typ: "int16", size: true}, {sql: "smallint(1)", tp: "TypeShort", flen: "1", typ: "int16", size: true},
	{sql: "mediumint", tp: "TypeInt24", typ: "int24"}, {sql: "mediumint(n)", tp: "TypeInt24", flen: "n", typ: "int24", size: true},
	{sql: "int", tp: "TypeLong", typ: "int32"}, {sql: "int(n)", tp: "TypeLong", flen: "n", typ: "int32", size: true}, {sql: "int(n) unsigned", tp: "TypeLong", flen: "n", typ: "int32", size: true, unsigned: true}, {sql: "int unsigned", tp: "TypeLong", typ: "int32", unsigned: true},
	{sql: "bigint", tp: "TypeLonglong", typ: "int64"}, {sql: "bigint(n)", tp: "TypeLonglong", flen: "n", typ: "int64", size: true}, {sql: "bigint unsigned", tp: "TypeLonglong", typ: "int64", unsigned: true},
	{sql: "decimal", tp: "TypeNewDecimal", typ: "decimal"}, {sql: "decimal(n)", tp: "TypeNewDecimal", flen: "n", typ: "decimal", size: true}, {sql: "decimal(n,m)", tp: "TypeNewDecimal", flen: "n", dec: "m", typ: "decimal", size: true, scale: true}, {sql: "decimal(n,0)", tp: "TypeNewDecimal", flen: "n", dec: "0", typ: "decimal", size: true},
	{sql: "float", tp: "TypeFloat", typ: "float"}, {sql: "float(n,m)", tp: "TypeFloat", flen: "n", dec: "m", typ: "float", size: true, scale: true},
	{sql: "double", tp: "TypeDouble", typ: "double"}, {sql: "double(n,m)", tp: "TypeDouble", flen: "n", dec: "m", typ: "double", size: true, scale: true},
	{sql: "bit", tp: "TypeBit", flen: "1", typ: "boolean", importOnly: true}, {sql: "bit(1)", tp: "TypeBit", flen: "1", typ: "boolean"}, {sql: "bit(2)", tp: "TypeBit", flen: "2", typ: "bit", size: true}, {sql: "bit(8)", tp: "TypeBit", flen: "8", typ: "bit", size: true}, {sql: "bit(64)", tp: "TypeBit", flen: "64", typ: "bit", size: true},
	{sql: "date", tp: "TypeDate", typ: "date"}, {sql: "datetime", tp: "TypeDatetime", typ: "datetime"}, {sql: "datetime(6)", tp: "TypeDatetime", dec: "6", typ: "datetime"}, {sql: "timestamp", tp: "TypeTimestamp", typ: "datetime"}, {sql: "timestamp(3)", tp: "TypeTimestamp", dec: "3", typ: "datetime"},
	{sql: "time", tp: "TypeDuration", typ: "time"}, {sql: "time(2)", tp: "TypeDuration", dec: "2", typ: "time"}, {sql: "year", tp: "TypeYear", typ: "year"}, {sql: "year(4)", tp: "TypeYear", flen: "4", typ: "year"},
	{sql: "char", tp: "TypeString", typ: "char"}, {sql: "char(n)", tp: "TypeString", flen: "n", typ: "char", size: true}, {sql: "char(n) binary", tp: "TypeString", flen: "n", typ: "char", size: true, flag: true},
	{sql: "varchar(n)", tp: "TypeVarchar", flen: "n", typ: "varchar", size: true}, {sql: "varchar(n) binary", tp: "TypeVarchar", flen: "n", typ: "varchar", size: true, flag: true}, {sql: "varchar(255)", tp: "TypeVarchar", flen: "255", typ: "varchar", size: true},
	{sql: "binary", tp: "TypeString", typ: "binary", bin: true, flag: true}, {sql: "binary(n)", tp: "TypeString", flen: "n", typ: "binary", size: true, bin: true, flag: true}, {sql: "varbinary(n)", tp: "TypeVarchar", flen: "n", typ: "varbinary", size: true, bin: true, flag: true},
	{sql: "tinyblob", tp: "TypeTinyBlob", typ: "blob8", bin: true, flag: true}, {sql: "blob", tp: "TypeBlob", typ: "blob16", bin: true, flag: true}, {sql: "blob(100)", tp: "TypeBlob", flen: "100", typ: "blob16", bin: true, flag: true}, {sql: "mediumblob", tp: "TypeMediumBlob", typ: "blob24", bin: true, flag: true}, {sql: "longblob", tp: "TypeLongBlob", typ: "blob32", bin: true, flag: true},
	{sql: "tinytext", tp: "TypeTinyBlob", typ: "text8"}, {sql: "text", tp: "TypeBlob", typ: "text16"}, {sql: "text(100)", tp: "TypeBlob", flen: "100", typ: "text16"}, {sql: "mediumtext", tp: "TypeMediumBlob", typ: "text24"}, {sql: "longtext", tp: "TypeLongBlob", typ: "text32"}, {sql: "longtext binary", tp: "TypeLongBlob", typ: "text32", flag: true},
	{sql: "enum", tp: "TypeEnum", typ: "enum", values: true}, {sql: "set", tp: "TypeSet", typ: "set", values: true}, {sql: "json", tp: "TypeJSON", typ: "json", dec: "0", bin: true},
}

// dCol is a column definition: its options in the given order.
type dCol struct {
	Col
	ddl  ddlType
	opts []dOpt
}

// dOpt is a column option; val is of the form "text:…", "int:…", "null", "fn:…", "minus:…", "plus:…".
type dOpt struct{ tp, val string }

type dKey struct {
	tp, name string
	cols     []string
}

type dTab struct {
	Tab
	cols    []*dCol
	keys    []dKey
	comment bool
	opts    []dOpt
}

// col is the meaning of a column definition.
func (d *dCol) col() *Col {
	c := d.Col
	c.Type = d.ddl.typ
	if d.ddl.size {
		c.Size = d.ddl.flen
		if c.Size == "n" {
			c.Size = "«SZ»"
		}
	}
	if d.ddl.scale {
		c.Scale = d.ddl.dec
		if c.Scale == "m" || c.Scale == "" {
			c.Scale = "«SC»"
		}
	}
	return &c
}

func (t *dTab) tab() *Tab {
	u := t.Tab
	u.Cols, u.Idx = nil, nil
	for _, d := range t.cols {
		u.Cols = append(u.Cols, d.col())
	}
	for _, x := range t.keys {
		switch x.tp {
		case "ConstraintIndex":
			u.Idx = append(u.Idx, &Idx{Name: x.name, Cols: x.cols})
		}
	}
	return &u
}

func ciStr(s string) J {
	return J{"O": s, "L": JLower(s)}
}

func (k *Check) exprJ(v string) J {
	kind, arg, _ := strings.Cut(v, ":")
	value := func(x any) J { return J{"@type": "*" + pDriver + ".ValueExpr", "Datum": J{"@GetValue": x}} }
	switch kind {
	case "text":
		return value(JAny{tString, arg})
	case "int":
		return value(JAny{types.Typ[types.Int64], arg})
	case "null":
		return value(Val(nilV))
	case "fn":
		return J{"@type": "*" + pAst + ".FuncCallExpr", "FnName": ciStr(arg)}
	case "minus":
		return J{"@type": "*" + pAst + ".UnaryOperationExpr", "Op": k.libConst(pOpcode, "Minus"), "V": k.exprJ("int:" + arg)}
	case "plus":
		return J{"@type": "*" + pAst + ".UnaryOperationExpr", "Op": k.libConst(pOpcode, "Plus"), "V": k.exprJ("int:" + arg)}
	}
	panic("exprJ " + v)
}

func (k *Check) dColJ(d *dCol) J {
	num := func(s string) JNum {
		switch s {
		case "":
			return "-1"
		case "n":
			return "«SZ»"
		case "m":
			return "«SC»"
		}
		return JNum(s)
	}
	flag := 0
	if d.ddl.flag {
		flag |= k.libConst(pMysql, "BinaryFlag")
	}
	if d.ddl.unsigned {
		flag |= k.libConst(pMysql, "UnsignedFlag")
	}
	cs := ""
	if d.ddl.bin {
		cs = "binary"
	}
	name, _, _ := strings.Cut(d.ddl.sql, "(")
	els := []JI{}
	for _, v := range d.Values {
		b, st := strings.CutSuffix(v, "*")
		els = append(els, JI{Class: "v" + fmt.Sprint(len(els)), Star: st, V: J{"@value": b}})
	}
	opts := []JI{}
	for _, o := range d.opts {
		j := J{"Tp": k.libConst(pAst, o.tp)}
		if o.val != "" {
			j["Expr"] = k.exprJ(o.val)
		}
		opts = append(opts, JI{V: j})
	}
	return J{"Name": J{"Name": ciStr(d.Name), "@String": d.Name}, "Options": opts,
		"Tp": J{"Tp": k.libConst(pMysql, d.ddl.tp), "Flen": num(d.ddl.flen), "Decimal": num(d.ddl.dec), "Flag": flag, "Charset": cs, "Collate": cs, "Elems": els,
			"@String": d.ddl.sql, "@CompactStr": d.ddl.sql, "@InfoSchemaStr": name}}
}

func (k *Check) dTabJ(t *dTab) J {
	cols, keys, opts := []JI{}, []JI{}, []JI{}
	for i, c := range t.cols {
		cols = append(cols, JI{Class: fmt.Sprintf("c%d", i), Star: c.Star, V: k.dColJ(c)})
	}
	for i, x := range t.keys {
		ks := []JI{}
		for _, c := range x.cols {
			ks = append(ks, JI{V: J{"Column": J{"Name": ciStr(c), "@String": c}}})
		}
		keys = append(keys, JI{Class: fmt.Sprintf("k%d", i), V: J{"Tp": k.libConst(pAst, x.tp), "Name": x.name, "Keys": ks}})
	}
	for _, o := range t.opts {
		opts = append(opts, JI{V: J{"Tp": k.libConst(pAst, o.tp), "StrValue": o.val}})
	}
	return J{"@type": "*" + pAst + ".CreateTableStmt", "name": t.Name, "Table": J{"Name": ciStr(t.Name), "@String": t.Name}, "Cols": cols, "Constraints": keys, "Options": opts}
}

func (k *Check) ddlCase(name string, tabs ...*dTab) *Case {
	d := &Doc{Author: "«AU»", Version: "«VER»"}
	for _, t := range tabs {
		d.Tabs = append(d.Tabs, t.tab())
	}
	var els []JI
	els = append(els, JI{Class: "s0", V: J{"@type": "*" + pAst + ".DropTableStmt"}})
	for i, t := range tabs {
		els = append(els, JI{Class: fmt.Sprintf("t%d", i), Star: t.Star, V: k.dTabJ(t)})
	}
	els = append(els, JI{Class: "s1", V: J{"@type": "*" + pAst + ".SetStmt"}})
	return &Case{Name: name, Cmd: "import mysql", NoInst: true, Norm: normExact, Docs: map[string]*Doc{"want": d}, Expect: wantDoc,
		Flags: map[string]string{"author": "«AU»", "version": "«VER»"},
		Set: func(c *Case, ctx *Ctx) {
			ctx.Vals["flag:input"] = nv("«flag:input».sql")
			ctx.absent()
			ctx.Nils["input"] = false
			j := c.filled(J{"": els})
			setJ(ctx, "input", j)
		}}
}

func (k *Check) ddlTypeCases() []*Case {
	var cs []*Case
	for _, t := range ddlTypes {
		for i := 0; i < 2; i++ {
			d := &dCol{Col: Col{Name: "«C»"}, ddl: t}
			if t.values {
				d.Values = []string{"«V1»", "«V»*", "«V2»"}
				if t.typ == "set" {
					d.Values = []string{"«V1»", "«V2»"}
				}
			}
			if i == 1 {
				d.NN, d.opts = true, []dOpt{{"ColumnOptionNotNull", ""}}
			}
			cs = append(cs, k.ddlCase(fmt.Sprintf("type %s, %d", t.sql, i), &dTab{Tab: Tab{Name: "«T»"}, cols: []*dCol{{Col: Col{Name: "«K»"}, ddl: ddl("int")}, d, {Col: Col{Name: "«Z»"}, ddl: ddl("text")}}}))
		}
	}
	return cs
}

func ddl(sql string) ddlType {
	for _, t := range ddlTypes {
		if t.sql == sql {
			return t
		}
	}
	panic("ddl " + sql)
}

func rev[T any](l []T) []T {
	var r []T
	for i := len(l) - 1; i >= 0; i-- {
		r = append(r, l[i])
	}
	return r
}

// attributes gives the column the meaning of its options.
func (d *dCol) meaning() *dCol {
	for _, o := range d.opts {
		kind, arg, _ := strings.Cut(o.val, ":")
		v := arg
		switch kind {
		case "fn":
			v = "fn::" + arg
		case "minus":
			v = "-" + arg
		}
		switch o.tp {
		case "ColumnOptionPrimaryKey":
			d.PK, d.NN = true, true
		case "ColumnOptionNotNull":
			d.NN = true
		case "ColumnOptionAutoIncrement":
			d.AI, d.NN = true, true
		case "ColumnOptionUniqKey":
			d.UQ = true
		case "ColumnOptionDefaultValue":
			d.Default = v
		case "ColumnOptionOnUpdate":
			d.OnUpdate = v
		case "ColumnOptionComment":
			d.Desc = v
		}
	}
	return d
}

func (k *Check) ddlCases() []*Case {
	var cs []*Case
	id := func() *dCol {
		return (&dCol{Col: Col{Name: "«K»"}, ddl: ddl("bigint"), opts: []dOpt{{"ColumnOptionNotNull", ""}, {"ColumnOptionAutoIncrement", ""}}}).meaning()
	}
	end := func() *dCol {
		return (&dCol{Col: Col{Name: "«Z»"}, ddl: ddl("varchar(n)"), opts: []dOpt{{"ColumnOptionDefaultValue", "text:«ZDEF»"}, {"ColumnOptionComment", "text:«ZD»"}}}).meaning()
	}
	tab := func(cols ...*dCol) *dTab { return &dTab{Tab: Tab{Name: "«T»"}, cols: cols} }
	one := func(name, typ string, opts ...dOpt) {
		for i := 0; i < 2; i++ {
			d := (&dCol{Col: Col{Name: "«C»", Star: true}, ddl: ddl(typ), opts: opts}).meaning()
			cs = append(cs, k.ddlCase(fmt.Sprintf("%s, %d", name, i), tab(id(), d, end())))
			opts = rev(opts)
			if len(opts) < 2 {
				break
			}
		}
	}
	for i := 0; i < 64; i++ {
		var o []dOpt
		add := func(bit int, tp, val string) {
			if i&bit > 0 {
				o = append(o, dOpt{"ColumnOption" + tp, val})
			}
		}
		add(1, "NotNull", "")
		add(2, "DefaultValue", "int:«DEF»")
		add(4, "AutoIncrement", "")
		add(8, "UniqKey", "")
		add(16, "PrimaryKey", "")
		add(32, "Comment", "text:«D»")
		one(fmt.Sprintf("options %d", i), "int", o...)
	}
	for _, v := range []string{"text:«DEF»", "int:«DEF»", "int:5", "null", "fn:CURRENT_TIMESTAMP", "fn:«FN»", "minus:«DEF»", "plus:«DEF»", "text:a b"} {
		one("default "+v, "varchar(n)", dOpt{"ColumnOptionNull", ""}, dOpt{"ColumnOptionDefaultValue", v})
		one("default "+v+" not null", "int", dOpt{"ColumnOptionNotNull", ""}, dOpt{"ColumnOptionDefaultValue", v}, dOpt{"ColumnOptionCollate", ""}, dOpt{"ColumnOptionComment", "text:«D»"})
	}
	for _, v := range []string{"fn:CURRENT_TIMESTAMP", "fn:«FN»", "text:«OU»"} {
		one("on update "+v, "datetime", dOpt{"ColumnOptionOnUpdate", v})
		one("default and on update "+v, "timestamp", dOpt{"ColumnOptionNotNull", ""}, dOpt{"ColumnOptionDefaultValue", "fn:«FN2»"}, dOpt{"ColumnOptionOnUpdate", v}, dOpt{"ColumnOptionComment", "text:«D»"})
	}
	// table constraints: every distribution of two keys over three columns
	mk := func(n string) *dTab {
		t := &dTab{Tab: Tab{Name: n}}
		for _, c := range []string{"aa", "bb", "cc"} {
			t.cols = append(t.cols, &dCol{Col: Col{Name: c}, ddl: ddl("int")})
		}
		return t
	}
	subset := func(t *dTab, m int) (r []string) {
		for i, c := range t.cols {
			if m&(1<<i) > 0 {
				r = append(r, c.Name)
			}
		}
		return
	}
	key := func(t *dTab, tp, name string, m int) {
		if m == 0 {
			return
		}
		t.keys = append(t.keys, dKey{tp, name, subset(t, m)})
		for i, c := range t.cols {
			if m&(1<<i) > 0 {
				switch tp {
				case "ConstraintPrimaryKey":
					c.PK, c.NN = true, true
				case "ConstraintUniq":
					c.UQ = true
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			t := mk("«T»")
			key(t, "ConstraintPrimaryKey", "", i)
			key(t, "ConstraintForeignKey", "«FK»", 7-i)
			key(t, "ConstraintUniq", "«UN»", j)
			key(t, "ConstraintIndex", "«IX»", i^j)
			cs = append(cs, k.ddlCase(fmt.Sprintf("keys %d %d", i, j), t))
			t = mk("ta")
			key(t, "ConstraintIndex", "«IX»", j)
			key(t, "ConstraintUniq", "«UN»", i&j)
			key(t, "ConstraintUniq", "«UM»", i&^j)
			key(t, "ConstraintPrimaryKey", "«PN»", j)
			key(t, "ConstraintIndex", "«IY»", i)
			u := mk("tb")
			key(u, "ConstraintUniq", "«UN»", 7-i)
			key(u, "ConstraintPrimaryKey", "", 7-j)
			cs = append(cs, k.ddlCase(fmt.Sprintf("keys %d %d of two tables", i, j), t, u), k.ddlCase(fmt.Sprintf("keys %d %d of two tables, reversed", i, j), u, t))
		}
	}
	t := mk("«T»")
	t.keys = []dKey{{"ConstraintIndex", "«IX»", []string{"cc", "aa", "bb"}}, {"ConstraintIndex", "«IY»", []string{"bb"}}, {"ConstraintIndex", "«IZ»", []string{"aa", "cc"}}}
	cs = append(cs, k.ddlCase("index column order", t))
	// table comments
	for i, o := range [][]dOpt{{{"TableOptionComment", "«TD»"}}, {{"TableOptionEngine", "InnoDB"}, {"TableOptionComment", "«TD»"}, {"TableOptionCharset", "utf8"}}, {{"TableOptionEngine", "InnoDB"}, {"TableOptionCharset", "utf8"}, {"TableOptionComment", "«TD»"}}, {{"TableOptionEngine", "InnoDB"}}} {
		t, u := mk("ta"), mk("tb")
		t.opts = o
		if i < 3 {
			t.Desc = "«TD»"
		}
		cs = append(cs, k.ddlCase(fmt.Sprintf("table options %d", i), t, u), k.ddlCase(fmt.Sprintf("table options %d, reversed", i), u, t))
	}
	// exclusion
	for _, x := range []string{"", "user", "user_group", "group,user", "user_group,user,group", "USER", "none", "use", "r,user", "aa"} {
		var ts []*dTab
		var keep []*Tab
		for i, n := range []string{"user", "group", "user_group", "users"} {
			t := mk(n)
			key(t, "ConstraintPrimaryKey", "", i)
			key(t, "ConstraintUniq", "u", 3-i)
			key(t, "ConstraintIndex", n+"ix", i+1)
			ts = append(ts, t)
			ok := true
			for _, e := range strings.Split(x, ",") {
				ok = ok && e != n
			}
			if ok {
				keep = append(keep, t.tab())
			}
		}
		c := k.ddlCase("excludes "+x, ts...)
		c.Docs["want"].Tabs = keep
		if x != "" {
			c.Flags["excludes"] = x
		}
		cs = append(cs, c)
	}
	cs = append(cs, k.ddlCase("no tables"))
	no := k.ddlCase("no author", mk("«T»"))
	no.Flags = nil
	no.Docs["want"].Author, no.Docs["want"].Version = "", ""
	for _, f := range []string{"author", "version"} {
		x := *no
		x.Name = "only " + f
		x.Flags = map[string]string{f: "«X»"}
		d := *no.Docs["want"]
		if f == "author" {
			d.Author = "«X»"
		} else {
			d.Version = "«X»"
		}
		x.Docs = map[string]*Doc{"want": &d}
		cs = append(cs, &x)
	}
	return append(cs, no)
}

// exportedType is the DDL type that 'export mysql' writes for a column, found among the types of MySQL.
func (k *Check) exportedType(c *Col) (string, bool) {
	cs := &Case{Name: "exported type of " + colFormat(c), Cmd: "export mysql", Norm: normCode, Docs: docOf(&Tab{Name: "«T»", Cols: []*Col{c}})}
	r, err := k.analyse(cs.Cmd, cs.ctx())
	if err != nil {
		k.undecided("export mysql", cs.Name, "%v", err)
		return "", false
	}
	outs, _ := r.split()
	act := nfaOfParts(r.effects(outs))
	for _, d := range ddlTypes {
		sql := strings.ReplaceAll(d.sql, "(n", "(«SZ»")
		if d.scale {
			sql = strings.ReplaceAll(sql, ",m)", ",«SC»)")
		}
		if d.values {
			sql += "('«V1»', '«V2»')"
		}
		want, err := parseNotation(outFile("CREATE TABLE IF NOT EXISTS «T» (\n«C» " + sql + "\n);\n"))
		if err != nil {
			panic(err)
		}
		cmp := compareLang(act, nfaOfParts(want), normCode)
		if !cmp.hasMiss && !cmp.hasXtra && len(cmp.unknown) == 0 {
			return d.sql, true
		}
	}
	imprecise := len(r.in.undecided) > 0 || len(r.in.problems) > 0
	if imprecise {
		k.undecided("export mysql", cs.Name, "the exported type is not known")
	} else {
		k.oblige(false, k.entry("export mysql"), cs.Name, "the exported column type is not one that MySQL has for it: %s", cut(renderParts(r.effects(outs)), 300))
	}
	return "", false
}

func init() {
	checks["M04"] = func(k *Check) {
		k.rule("the octopus document written by 'import mysql' is compared with the documented meaning of the DDL, for every combination of column options, table constraints, table options and excluded tables.")
		k.cases(append(k.ddlCases(), k.mixedDDL(ddlTypes, 1000)...))
	}
	checks["M05"] = func(k *Check) {
		k.rule("for every canonical type the column type written by 'export mysql' is determined and 'import mysql' of that column type must give the canonical type back.")
		var cs []*Case
		var pool []ddlType
		for _, m := range mysqlTypes {
			for _, s := range [][2]string{{"", ""}, {"«SZ»", ""}, {"«SZ»", "«SC»"}} {
				if m.Name == "geometry" || m.Name == "point" || m.Name == "bit" || s[0] != "" && !m.Size || s[1] != "" && !m.Scale || m.Name == "int8" && s[0] != "" || m.Name == "float" && s[0] != "" && s[1] == "" || m.Name == "double" && s[0] != "" && s[1] == "" || (m.Name == "varchar" || m.Name == "varbinary") && s[0] == "" {
					continue
				}
				c := &Col{Name: "«C»", Type: m.Name, Size: s[0], Scale: s[1]}
				if m.Name == "enum" || m.Name == "set" {
					c.Values = []string{"«V1»", "«V2»"}
				}
				sql, ok := k.exportedType(c)
				if !ok {
					continue
				}
				d := &dCol{Col: Col{Name: "«C»", Values: c.Values}, ddl: ddl(sql)}
				d.ddl.typ, d.ddl.size, d.ddl.scale = m.Name, s[0] != "", s[1] != ""
				pool = append(pool, d.ddl)
				cs = append(cs, k.ddlCase(fmt.Sprintf("%s, exported as %s", colFormat(c), sql), &dTab{Tab: Tab{Name: "«T»"}, cols: []*dCol{d}}))
			}
		}
		for _, x := range []struct{ typ, size string }{{"bit", "2"}, {"bit", "8"}, {"bit", "64"}, {"int8", "2"}, {"int8", "4"}} {
			c := &Col{Name: "«C»", Type: x.typ, Size: x.size}
			if sql, ok := k.exportedType(c); ok {
				d := &dCol{Col: Col{Name: "«C»"}, ddl: ddl(sql)}
				d.ddl.typ, d.ddl.size = x.typ, true
				pool = append(pool, d.ddl)
				cs = append(cs, k.ddlCase(fmt.Sprintf("%s, exported as %s", colFormat(c), sql), &dTab{Tab: Tab{Name: "«T»"}, cols: []*dCol{d}}))
			}
		}
		if len(pool) > 0 {
			cs = append(cs, k.mixedDDL(pool, 1000)...)
		}
		k.cases(cs)
	}
	checks["M03"] = func(k *Check) {
		k.rule("the octopus document written by 'import mysql' is compared with the documented meaning of the DDL, for every column type form of the MySQL parser.")
		k.cases(append(k.ddlTypeCases(), k.mixedDDL(ddlTypes, 1000)...))
	}
}
