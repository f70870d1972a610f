package main

import (
	"fmt"
	"sort"
	"strings"
)

// The command line of the user guide.

type docOption struct {
	Long, Short, Env, Kind string   // Kind: string, bool, int
	Values                 []string // values to try; none when the option is judged elsewhere in the check
}

func opt(long, short, kind string, values ...string) docOption {
	env := "OCTOPUS_"
	for i, r := range strings.ReplaceAll(long, "UTC", "Utc") {
		if r >= 'A' && r <= 'Z' && i > 0 {
			env += "_"
		}
		env += strings.ToUpper(string(r))
	}
	return docOption{long, short, env, kind, values}
}

var optIn, optOut, optGroups = opt("input", "i", "string"), opt("output", "o", "string"), opt("groups", "g", "string")
var optSuffix = opt("uniqueNameSuffix", "u", "string", "_uk")

var diffOptions = []docOption{opt("author", "a", "string", "«AF»"), opt("from", "f", "string"), optGroups, optOut, opt("to", "t", "string"), optSuffix, opt("comments", "c", "bool", "true")}

// the commands of docs/ and their options
var docCommands = map[string][]docOption{
	"init":             {optOut},
	"import mysql":     {optIn, optOut, opt("author", "a", "string"), opt("excludes", "x", "string"), opt("version", "v", "string")},
	"import ojson":     {optIn, optOut},
	"import staruml":   {optIn, optOut},
	"import xlsx":      {optIn, optOut},
	"export dbml":      {optIn, optOut, optGroups},
	"export quickdbd":  {optIn, optOut},
	"export mysql":     {optIn, optOut, optGroups, optSuffix},
	"export xlsx":      {optIn, optOut, opt("useNullColumn", "", "bool")},
	"generate gorm":    {optIn, optOut, opt("pointerAssociation", "a", "bool", "true"), opt("embed", "e", "string", "gorm.Model:id,created_at,updated_at,deleted_at"), optGroups, opt("package", "k", "string", "pkgname"), opt("prefix", "p", "string", "ga:Pa,gb:Pb"), opt("removePrefix", "r", "string", "tbl_"), optSuffix},
	"generate graphql": {optIn, optOut, opt("graphqlPackage", "p", "string", "«PKG»")},
	"generate kt": {optIn, optOut, opt("annotation", "a", "string", "ga:@One;@Two,gb:@Three"), optGroups, opt("idEntity", "e", "string", "IdEntity"), opt("package", "p", "string", "com.ent"), opt("prefix", "f", "string", "ga:Pa,gb:Pb"),
		opt("relation", "l", "string", "VRelation"), opt("removePrefix", "d", "string", "tbl_"), opt("reposPackage", "r", "string", "com.repos"), opt("uniqueNameSuffix", "q", "string", "_uk"), opt("useUTC", "u", "bool", "true")},
	"generate liquibase":  {optIn, optOut, optGroups, optSuffix, opt("comments", "c", "bool", "true")},
	"generate plantuml":   {optIn, optOut},
	"generate pb":         {optIn, optOut, opt("goPackage", "", "string", "«GP»"), optGroups, opt("package", "p", "string", "«PKG»"), opt("prefix", "f", "string", "ga:Pa,gb:Pb"), opt("removePrefix", "d", "string", "tbl_"), opt("relationTagDecr", "", "bool", "true"), opt("relationTagStart", "", "int", "90")},
	"generate sqlalchemy": {optIn, optOut, optGroups, opt("prefix", "p", "string", "ga:Pa,gb:Pb"), opt("removePrefix", "r", "string", "tbl_"), optSuffix, opt("useUTC", "t", "bool", "true")},
	"diff flyway":         diffOptions,
	"diff liquibase":      diffOptions,
	"diff md":             diffOptions,
}

// fixed options of a case and the oracle of the command's output
type cmdOracle struct {
	norm   *Norm
	expect func(c *Case) string
	flags  map[string]string
}

var oracles = map[string]cmdOracle{
	"export dbml": {normCode, dbmlExpect, nil}, "export quickdbd": {normCode, quickdbdExpect, nil}, "export mysql": {normCode, mysqlExpect, nil},
	"generate gorm": {normPlain, gormExpect, flagsOf("output", "«OUT».go")}, "generate graphql": {normCode, graphqlExpect, nil},
	"generate kt": {normPlain, ktExpect, flagsOf("output", "out")}, "generate liquibase": {normExact, lqExpect, nil}, "generate plantuml": {normCode, plantumlExpect, flagsOf("output", "«OUT».puml")},
	"generate pb": {normCode, pbExpect, nil}, "generate sqlalchemy": {normCode, saExpect, flagsOf("output", "«OUT».py")},
	"diff flyway": {normCode, flywayExpect, nil}, "diff liquibase": {normExact, lqDiffExpect, nil}, "diff md": {normPlain, mdExpect, nil},
}

// optionDoc has something for every option to show.
func optionDoc() *Doc {
	return &Doc{Name: "sample", Version: "«V1»", Author: "«A1»", Tabs: []*Tab{
		{Class: "1", Name: "tbl_user", Group: "ga", Desc: "«TD»", Cols: []*Col{{Class: "i", Name: "id", Type: "int64", PK: true, NN: true, AI: true}, {Class: "n", Name: "name", Type: "varchar", Size: "20", NN: true, UQ: true, Desc: "«D1»"},
			{Class: "b", Name: "nick", Type: "varchar", Size: "20", UQ: true}, {Class: "c", Name: "created_at", Type: "datetime", NN: true}, {Class: "u", Name: "updated_at", Type: "datetime", NN: true}, {Class: "d", Name: "deleted_at", Type: "datetime"}}},
		{Class: "2", Name: "tbl_item", Group: "gb", Cols: []*Col{{Class: "i", Name: "id", Type: "int64", PK: true, NN: true}, {Class: "r", Name: "user_id", Type: "int64", Ref: &Ref{"tbl_user", "id", "n:1"}}, {Class: "d", Name: "note", Type: "varchar", Size: "30"}}},
		{Class: "3", Name: "plain", Group: "gc", Cols: []*Col{{Class: "d", Name: "day", Type: "varchar", Size: "8", NN: true}}},
	}}
}

// olderDoc is what optionDoc is compared with.
func olderDoc() *Doc {
	d := optionDoc()
	d.Version, d.Author = "«V0»", "«A0»"
	d.Tabs[0].Desc, d.Tabs[0].Cols[1].Desc, d.Tabs[0].Cols[2].UQ, d.Tabs[0].Cols[3].NN = "«TE»", "«D0»", false, false
	d.Tabs[1].Cols[2].Size = "31"
	d.Tabs = d.Tabs[:2]
	return d
}

func optionCase(cmd, name string, flags map[string]string) *Case {
	o := oracles[cmd]
	c := loadCase(cmd, name, optionDoc(), o.flags)
	if o.flags["output"] == "" {
		delete(c.Flags, "output")
	}
	if strings.HasPrefix(cmd, "diff ") {
		c.Docs["from"] = olderDoc()
	}
	for k, v := range flags {
		c.Flags[k] = v
	}
	c.Norm, c.Expect, c.NoLit = o.norm, o.expect, true
	return c
}

// holds tells whether a case yields what its oracle demands; findings are not kept.
func (k *Check) holds(c *Case) (bool, *Finding) {
	sub := &Check{prog: k.prog, Known: map[string]string{}, knownHit: map[string]bool{}, Funcs: k.Funcs, cmds: k.cmds}
	construct := k.entry(c.Cmd)
	r, err := k.analyse(c.Cmd, c.ctx())
	if err != nil {
		return false, &Finding{Kind: "undecided", Construct: construct, Case: c.Name, Msg: err.Error()}
	}
	sub.judge1(c, r, construct, c.Expect(c))
	k.mu.Lock()
	k.States += sub.States
	k.mu.Unlock()
	if sub.Held == sub.Oblig {
		return true, nil
	}
	f := sub.Findings[0]
	return false, &f
}

// differs reports whether an option changes what the command does.
func (k *Check) differs(a, b *Case) (bool, error) {
	ra, err := k.analyse(a.Cmd, a.ctx())
	if err != nil {
		return false, err
	}
	rb, err := k.analyse(b.Cmd, b.ctx())
	if err != nil {
		return false, err
	}
	oka, _ := ra.split()
	okb, _ := rb.split()
	return renderParts(filterEff(ra.effects(oka), notLog)) != renderParts(filterEff(rb.effects(okb), notLog)), nil
}

func notLog(e *Eff) bool { return e.Kind != "log" && e.Kind != "print" }

// imports are simple cases of the import commands.
func (k *Check) imports(cmd string) []*Case {
	var cs []*Case
	add := func(l []*Case) {
		for _, c := range l {
			if c.Cmd == cmd {
				cs = append(cs, c)
			}
		}
	}
	switch cmd {
	case "import mysql":
		add(k.ddlCases())
	case "import ojson":
		add(v1Cases())
	case "import staruml":
		add(starumlCases())
	case "import xlsx":
		add(xlsxNotation())
		add(xlsxImports(xForms[:1]))
	case "export xlsx":
		add(xlsxExports())
	case "init":
		add([]*Case{initCase("«OUT».json")})
	}
	return cs
}

func (k *Check) cliRules() {
	for _, cmd := range sortedKeys(docCommands) {
		c := k.prog.cmds[cmd]
		if c == nil {
			k.oblige(false, "main.go", cmd, "the documented command %q does not exist", cmd)
			continue
		}
		k.oblige(true, "main.go", cmd, "")
		where := k.entry(cmd)
		seen := map[string]bool{}
		for _, f := range c.Flags {
			for _, n := range f.Names {
				k.oblige(!seen[n], where, cmd+" --"+n, "two options of %q share the name %q", cmd, n)
				seen[n] = true
			}
		}
		for _, o := range docCommands[cmd] {
			var f *Flag
			for _, g := range c.Flags {
				for _, n := range g.Names {
					if n == o.Long {
						f = g
					}
				}
			}
			name := cmd + " --" + o.Long
			if f == nil {
				k.oblige(false, where, name, "the documented option --%s of %q is not accepted", o.Long, cmd)
				continue
			}
			k.oblige(true, where, name, "")
			has := func(l []string, s string) bool {
				for _, x := range l {
					if x == s {
						return true
					}
				}
				return s == ""
			}
			k.oblige(has(f.Names, o.Short), where, name, "the documented short option -%s of --%s is not accepted by %q", o.Short, o.Long, cmd)
			k.oblige(has(f.EnvVars, o.Env), where, name, "the documented environment variable %s of --%s is not read by %q", o.Env, o.Long, cmd)
			kind := strings.ToLower(strings.TrimSuffix(f.Kind, "Flag"))
			k.oblige(o.Kind == "bool" == (kind == "bool"), where, name, "option --%s of %q is a %s option, documented as %s", o.Long, cmd, kind, o.Kind)
			switch o.Long {
			case "input", "output", "from", "to":
			default:
				k.oblige(!f.Required, where, name, "the optional option --%s of %q is required", o.Long, cmd)
			}
		}
	}
}

func init() {
	checks["C01"] = func(k *Check) {
		k.rule("every command and option of the user guide is declared with its names, environment variable and kind; no command reads an option it does not declare; for every command some conversion matches its oracle, and where the conversion without an option matches, so does the one with it.")
		k.cliRules()
		type job func()
		var jobs []job
		var cmds []string
		for _, cmd := range sortedKeys(docCommands) {
			if k.prog.cmds[cmd] != nil {
				cmds = append(cmds, cmd)
			}
		}
		for _, cmd := range cmds {
			cmd, where := cmd, k.entry(cmd)
			o := oracles[cmd]
			if o.expect == nil {
				jobs = append(jobs, func() {
					cs := k.imports(cmd)
					var last *Finding
					for i, c := range cs {
						ok, f := k.holds(c)
						if ok {
							k.oblige(true, where, cmd, "")
							return
						}
						if last = f; i > 40 {
							break
						}
					}
					k.oblige(last == nil || last.Kind != "violation", where, cmd, "%q performs no conversion as documented: %s", cmd, lastMsg(last))
				})
				continue
			}
			base := optionCase(cmd, cmd, nil)
			okBase := false
			jobs = append(jobs, func() {
				ok, f := k.holds(base)
				okBase = ok
				if ok {
					k.oblige(true, where, cmd, "")
					return
				}
				// the conversion itself may be broken; only another conversion in its place is judged here
				for _, other := range sortedKeys(oracles) {
					if other != cmd && strings.HasPrefix(other, "diff ") == strings.HasPrefix(cmd, "diff ") {
						x := *base
						x.Expect, x.Norm = oracles[other].expect, oracles[other].norm
						if ok, _ := k.holds(&x); ok {
							k.oblige(false, where, cmd, "%q performs the conversion of %q", cmd, other)
							return
						}
					}
				}
				k.undecided(where, cmd, "the conversion does not match its oracle: %s", lastMsg(f))
			})
			_ = okBase
		}
		k.each(len(jobs), func(i int) { jobs[i]() })
		jobs = nil
		for _, cmd := range cmds {
			cmd, where := cmd, k.entry(cmd)
			if oracles[cmd].expect == nil {
				continue
			}
			base := optionCase(cmd, cmd, nil)
			okBase, _ := k.holds(base)
			for _, o := range docCommands[cmd] {
				if !k.hasFlag(cmd, o.Long) {
					continue
				}
				for _, v := range o.Values {
					o, v := o, v
					name := fmt.Sprintf("%s --%s %s", cmd, o.Long, v)
					c := optionCase(cmd, name, flagsOf(o.Long, v))
					jobs = append(jobs, func() {
						if c.Expect(c) == base.Expect(base) && !(cmd == "generate kt" && o.Long == "useUTC" || cmd == "generate graphql") {
							k.oblige(true, where, name, "") // the option has nothing to show in this output
							return
						}
						if d, err := k.differs(c, base); err == nil && !d {
							if k.known(cmd + " --" + o.Long) {
								k.oblige(true, where, name, "")
								return
							}
							k.oblige(false, where, name, "option --%s has no effect on %q", o.Long, cmd)
							return
						}
						if !okBase {
							k.undecided(where, name, "the conversion does not match its oracle even without the option")
							return
						}
						if ok, f := k.holds(c); !ok {
							if f.Kind == "violation" {
								k.oblige(false, f.Construct, name, "%s", f.Msg)
							} else {
								k.undecided(where, name, "%s", f.Msg)
							}
							return
						}
						k.oblige(true, where, name, "")
					})
				}
			}
			all := map[string]string{}
			for _, o := range docCommands[cmd] {
				if len(o.Values) > 0 {
					all[o.Long] = o.Values[0]
				}
			}
			var together []*Case
			names := sortedKeys(all)
			for i, a := range names {
				for _, b := range names[i+1:] {
					if k.hasFlag(cmd, a) && k.hasFlag(cmd, b) {
						together = append(together, optionCase(cmd, fmt.Sprintf("%s --%s %s --%s %s", cmd, a, all[a], b, all[b]), flagsOf(a, all[a], b, all[b])))
					}
				}
			}
			together = append(together, optionCase(cmd, cmd+" with every option", all))
			for _, c := range together {
				if !okBase || cmd == "generate graphql" {
					break
				}
				c := c
				jobs = append(jobs, func() {
					if ok, f := k.holds(c); !ok && f.Kind == "violation" {
						k.oblige(false, f.Construct, c.Name, "%s", f.Msg)
					} else if !ok {
						k.undecided(where, c.Name, "%s", f.Msg)
					} else {
						k.oblige(true, where, c.Name, "")
					}
				})
			}
		}
		// options without an oracle here
		reach := func(cmd, long, v string) {
			jobs = append(jobs, func() {
				if !k.hasFlag(cmd, long) {
					return
				}
				var cs []*Case
				if cmd == "export xlsx" {
					cs = []*Case{loadCase(cmd, cmd, optionDoc(), nil)}
				} else {
					for _, c := range k.ddlCases() {
						if c.Name == "excludes " {
							cs = append(cs, c)
						}
					}
				}
				name := cmd + " --" + long
				for _, b := range cs {
					b.Flags = nil
					x := *b
					x.Flags = flagsOf(long, v)
					d, err := k.differs(b, &x)
					if err != nil {
						k.undecided(k.entry(cmd), name, "%v", err)
						continue
					}
					k.oblige(d, k.entry(cmd), name, "option --%s has no effect on %q", long, cmd)
				}
			})
		}
		reach("export xlsx", "useNullColumn", "true")
		reach("import mysql", "author", "«AX»")
		reach("import mysql", "version", "«VX»")
		reach("import mysql", "excludes", "user")
		k.each(len(jobs), func(i int) { jobs[i]() })
		// groups
		var ps [][2]*Case
		for _, cmd := range cmds {
			for _, o := range docCommands[cmd] {
				if o.Long == "groups" && k.hasFlag(cmd, "groups") {
					// alone, with each other option and with all of them
					sets := []map[string]string{{}}
					all := map[string]string{}
					for _, o := range docCommands[cmd] {
						if len(o.Values) > 0 && k.hasFlag(cmd, o.Long) {
							sets = append(sets, flagsOf(o.Long, o.Values[0]))
							all[o.Long] = o.Values[0]
						}
					}
					sets = append(sets, all)
					for i := 0; i < 3*len(sets); i++ {
						flags, groups := sets[i/3], []string{"gb", "ga", "gb,ga"}[i%3]
						name := ""
						for _, f := range sortedKeys(flags) {
							name += fmt.Sprintf(" --%s %s", f, flags[f])
						}
						b := optionCase(cmd, "the tables of "+groups+" alone"+name, flags)
						flags = copyFlags(flags)
						flags["groups"] = groups
						a := optionCase(cmd, cmd+" --groups "+groups+name, flags)
						for n, d := range b.Docs {
							x := *d
							x.Tabs = nil
							for _, t := range d.Tabs {
								if contains(strings.Split(groups, ","), t.Group) {
									x.Tabs = append(x.Tabs, t)
								}
							}
							b.Docs[n] = &x
						}
						if cmd == "generate gorm" || cmd == "generate kt" || cmd == "generate pb" || cmd == "generate sqlalchemy" || cmd == "export dbml" {
							// references resolve in the whole schema
							for _, c := range []*Case{a, b} {
								for _, d := range c.Docs {
									dropRefs(d)
								}
							}
						}
						ps = append(ps, [2]*Case{a, b})
					}
				}
			}
		}
		k.sames(ps)
		k.flagReads()
	}
	checks["T01"] = func(k *Check) {
		k.rule("the document written by 'init' is compared with the documented starter schema for any requested path and for none, and is accepted, unchanged, when it is loaded.")
		k.cases([]*Case{initCase("«OUT»"), initCase("«OUT».json"), initCase("")})
		d := starterDoc()
		k.cases([]*Case{{Name: "the starter schema", Cmd: docCmd, Norm: normExact, NoLit: true, Docs: map[string]*Doc{"input": d}, Expect: docExpect}})
		for _, cmd := range k.loading() {
			if c := loadCase(cmd, "the starter schema", starterDoc(), nil); true {
				r, err := k.analyse(cmd, c.ctx())
				if err != nil {
					k.undecided(k.entry(cmd), c.Name, "%v", err)
					continue
				}
				ok, bad := r.split()
				why, crashed := r.crash()
				if len(r.in.undecided)+len(r.in.problems) > 0 && len(ok) > 0 {
					k.oblige(true, k.entry(cmd), c.Name, "")
					continue
				}
				k.oblige(len(ok) > 0 && len(bad) == 0 && !crashed, k.entry(cmd), c.Name, "%q does not accept the starter schema %s", cmd, why)
			}
		}
	}
}

func dropRefs(d *Doc) {
	for i, t := range d.Tabs {
		u := *t
		u.Cols = nil
		for _, c := range t.Cols {
			x := *c
			x.Ref = nil
			u.Cols = append(u.Cols, &x)
		}
		d.Tabs[i] = &u
	}
}

func lastMsg(f *Finding) string {
	if f == nil {
		return ""
	}
	return f.Msg
}

// flagReads: no command reads an option that it does not declare.
func (k *Check) flagReads() {
	var cs []*Case
	for _, c := range k.richCases() {
		cs = append(cs, c)
	}
	cs = append(cs, k.initCases()...)
	k.each(len(cs), func(i int) {
		c := cs[i]
		if k.prog.cmds[c.Cmd] == nil {
			return
		}
		r, err := k.analyse(c.Cmd, c.ctx())
		if err != nil {
			return
		}
		var names []string
		for n := range r.in.flagsRead {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			k.oblige(k.hasFlag(c.Cmd, n), k.entry(c.Cmd), c.Cmd+" reads --"+n, "%q reads the option --%s, which it does not declare", c.Cmd, n)
		}
	})
}

// starterDoc is the schema of docs/init.md.
func starterDoc() *Doc {
	id := func() *Col { return &Col{Class: "i", Name: "id", Type: "int64", Desc: "unique id", PK: true, AI: true} }
	return &Doc{Version: "1.0.0", Tabs: []*Tab{
		{Class: "g", Name: "group", Desc: "Group table", Cols: []*Col{id(), {Class: "n", Name: "name", Type: "varchar", Desc: "group name", Size: "40", UQ: true}}},
		{Class: "u", Name: "user", Desc: "User table", Cols: []*Col{id(), {Class: "n", Name: "name", Type: "varchar", Desc: "user login name", Size: "40", UQ: true},
			{Class: "r", Name: "group_id", Type: "int64", Desc: "group ID", Ref: &Ref{"group", "id", "n:1"}}}},
	}}
}

func initCase(out string) *Case {
	path := out
	if out == "" {
		path = "db.json"
	}
	return &Case{Name: fmt.Sprintf("init to %q", out), Cmd: "init", Norm: normExact, NoLit: true, Flags: flagsOf("output", out),
		Expect: func(c *Case) string { return writes(path, docText(starterDoc())) }}
}

func copyFlags(m map[string]string) map[string]string {
	x := map[string]string{}
	for k, v := range m {
		x[k] = v
	}
	return x
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
