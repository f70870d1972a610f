package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
)

// Rules about the effects of every command: determinism, containment of writes, error propagation.

// richDoc has several entries of everything that generators collect.
func richDoc() *Doc {
	ts := sampleTabs()
	var all []*Col
	all = append(all, &Col{Class: "id", Name: "id", Type: "int64", PK: true, NN: true, AI: true})
	for i, t := range mysqlTypes {
		for j, nn := range []bool{true, false} {
			c := colOfType(t.Name)
			c.Class = fmt.Sprintf("c%02d%d", i, j)
			c.Name = fmt.Sprintf("col_%s_%d", t.Name, j)
			c.NN = nn
			if t.Size {
				c.Size = "12"
			}
			if t.Scale {
				c.Scale = "3"
			}
			c.UQ = i%7 == 3
			c.Desc = "the " + t.Name
			all = append(all, c)
		}
	}
	ts = append(ts, &Tab{Class: "y", Name: "zz_types", Group: "gc", Desc: "All types", Cols: all,
		Idx: []*Idx{{Class: "x1", Name: "idx_b", Cols: []string{"col_int8_0", "col_int16_0"}}, {Class: "x2", Name: "idx_a", Cols: []string{"col_int32_0"}}, {Class: "x3", Name: "idx_c", Cols: []string{"col_date_0"}}}})
	var refs []*Col
	refs = append(refs, &Col{Class: "id", Name: "id", Type: "int64", PK: true, NN: true}, &Col{Class: "ca", Name: "created_at", Type: "datetime", NN: true}, &Col{Class: "ua", Name: "updated_at", Type: "datetime", NN: true}, &Col{Class: "da", Name: "deleted_at", Type: "datetime"})
	for i, r := range []string{"n:1", "1:n", "1:1", "", "n:1"} {
		tab := []string{"alpha", "beta", "gamma", "aaa", "zz_types"}[i]
		refs = append(refs, &Col{Class: fmt.Sprintf("r%d", i), Name: tab + "_ref", Type: "int64", UQ: i%2 == 0, Ref: &Ref{tab, "id", r}})
	}
	ts = append(ts, &Tab{Class: "w", Name: "tbl_refs", Group: "ga", Cols: refs}, &Tab{Class: "v", Name: "tbl_more", Cols: []*Col{
		{Class: "id", Name: "id", Type: "int64", PK: true, NN: true}, {Class: "n", Name: "name", Type: "varchar", Size: "5"}, {Class: "p", Name: "price", Type: "decimal", NN: true, Size: "9", Scale: "2"}}})
	return &Doc{Version: "«V1»", Name: "sample", Author: "somebody", Tabs: ts}
}

// oldDoc is an earlier version of richDoc that differs in everything a diff reports.
func oldDoc() *Doc {
	d := richDoc()
	d.Version = "«V0»"
	var ts []*Tab
	for i, t := range d.Tabs {
		switch t.Name {
		case "aaa":
			continue
		case "beta":
			t.Name = "beta_old"
		case "zz_types":
			for j, c := range t.Cols {
				switch j % 9 {
				case 1:
					c.NN = !c.NN
				case 2:
					c.Desc = "old " + c.Desc
				case 3:
					c.Type, c.Size, c.Scale, c.Values = "int32", "", "", nil
				case 4:
					c.UQ = !c.UQ
				case 5:
					c.Default = "7"
				case 6:
					if c.Size != "" {
						c.Size = "11"
					}
				case 7:
					c.Name += "_old"
				case 8:
					c.PK = true
				}
			}
			t.Cols = append(t.Cols[:10:10], t.Cols[12:]...)
		case "tbl_refs":
			t.Cols[5].Name = "renamed"
			t.Cols = append(t.Cols, &Col{Class: "q1", Name: "gone_1", Type: "int8"}, &Col{Class: "q2", Name: "gone_2", Type: "int16", UQ: true})
		}
		ts = append(ts, t)
		if i < 3 {
			ts = append(ts, &Tab{Class: fmt.Sprintf("o%d", i), Name: fmt.Sprintf("old_%d", i), Group: "gc", Cols: []*Col{pkCol("id"), {Class: "n", Name: "n", Type: "varchar", Size: fmt.Sprint(9 + i)}}})
		}
	}
	d.Tabs = ts
	return d
}

var richOptions = map[string]string{
	"annotation": "ga:@A1;@A2,gb:@B,gc:@C", "author": "«AUTHOR»", "comments": "true", "embed": "Base:id,name", "goPackage": "gopkg", "groups": "ga,gb,gc",
	"idEntity": "IdEntity", "package": "some.pkg", "pointerAssociation": "true", "prefix": "ga:Aa,gb:Bb,gc:Cc", "relation": "VRelation", "relationTagDecr": "true",
	"relationTagStart": "90", "removePrefix": "tbl_,zz_", "reposPackage": "some.repos", "uniqueNameSuffix": "_uk", "useNullColumn": "true", "useUTC": "true",
	"graphqlPackage": "gqlpkg", "excludes": "zz", "version": "«VER»",
}

// optionSets: no option, every option, and single options with another form.
func (k *Check) optionSets(cmd string) []map[string]string {
	all := map[string]string{}
	c := k.prog.cmds[cmd]
	r := []map[string]string{{}, all}
	if c == nil {
		return r[:1]
	}
	for _, f := range c.Flags {
		for _, n := range f.Names {
			if v, ok := richOptions[n]; ok {
				all[n] = v
				if n == "groups" {
					continue
				}
				r = append(r, map[string]string{n: v})
				break
			}
		}
	}
	for _, p := range []struct{ n, v string }{{"prefix", "Px"}, {"annotation", "@X"}, {"embed", "gorm.Model:"}} {
		if k.hasFlag(cmd, p.n) {
			r = append(r, map[string]string{p.n: p.v})
		}
	}
	return r
}

// richCases are the cases used by the rules on effects.
func (k *Check) richCases() []*Case {
	var cs []*Case
	for _, cmd := range k.loading() {
		for i, fl := range k.optionSets(cmd) {
			for _, out := range outputs(cmd) {
				c := loadCase(cmd, fmt.Sprintf("options %d, output %s", i, out), richDoc(), fl)
				c.Flags["output"] = out
				if strings.HasPrefix(cmd, "diff ") {
					c.Docs["from"] = oldDoc()
				}
				cs = append(cs, c)
			}
		}
	}
	return append(cs, k.importCases()...)
}

// supportedTypes are the column types that a command has an equivalent for.
func supportedTypes(cmd string) []typeSpec {
	switch cmd {
	case "generate kt":
		return ktSupported()
	case "generate pb":
		return typesIn(pbTypes)
	case "generate sqlalchemy":
		return typesIn(saTypes)
	}
	return mysqlTypes
}

// invalidCases are cases with a document that must be rejected.
func (k *Check) invalidCases() []*Case {
	var cs []*Case
	for _, cmd := range k.loading() {
		for i, c := range []*Col{{Class: "c", Name: "ccc", Type: "unknown"}, {Class: "c", Name: "", Type: "int32"}, {Class: "c", Name: "ccc", Type: "enum"}} {
			d := richDoc()
			d.Tabs[len(d.Tabs)-1].Cols = append(d.Tabs[len(d.Tabs)-1].Cols, c)
			x := loadCase(cmd, fmt.Sprintf("invalid document %d", i), d, nil)
			if strings.HasPrefix(cmd, "diff ") {
				x.Docs["from"] = oldDoc()
				y := loadCase(cmd, fmt.Sprintf("invalid from document %d", i), oldDoc(), nil)
				y.Docs["from"] = d
				cs = append(cs, y)
			}
			cs = append(cs, x)
		}
	}
	return cs
}

// mixedRich are n mixed documents for every command, under varying options.
func (k *Check) mixedRich(n int) []*Case {
	var cs []*Case
	for _, cmd := range k.loading() {
		sets := k.optionSets(cmd)
		if strings.HasPrefix(cmd, "diff ") {
			ps := mixedPairs(n)
			for j := 2; j < 5; j++ {
				ps = append(ps, lookalikes(j))
			}
			for i, p := range ps {
				c := loadCase(cmd, p.name, p.to, sets[i%len(sets)])
				c.Docs["from"] = p.from
				cs = append(cs, c)
			}
			continue
		}
		for i := 0; i < n*mixFactor; i++ {
			name := fmt.Sprintf("mixed document %d", i)
			fl := sets[i%len(sets)]
			cs = append(cs, loadCase(cmd, name, mixedDoc(name+cmd, supportedTypes(cmd)), fl))
		}
		cs = append(cs, loadCase(cmd, "empty document", &Doc{Version: "«V1»"}, nil))
		for _, o := range []string{"prefix", "annotation", "embed"} {
			if k.hasFlag(cmd, o) {
				d := mixedDoc("words"+cmd, supportedTypes(cmd))
				for i, t := range d.Tabs {
					t.Group = []string{"ga", "gA", "GA", "g1"}[i%4]
				}
				cs = append(cs, loadCase(cmd, o+" for groups that differ in case", d, flagsOf(o, "ga:Aa,GA:Bb,gA:Cc")))
			}
		}
	}
	for i, c := range cs {
		cs[i] = fixed(c)
	}
	return cs
}

// lookalikes: n removed and added tables with the same columns, and columns with the same attributes.
func lookalikes(n int) pair {
	from, to := &Doc{Version: "«V0»"}, &Doc{Version: "«V1»"}
	for i := 0; i < n; i++ {
		mk := func(name string, col string) *Tab {
			return &Tab{Class: name, Name: name, Cols: []*Col{pkCol("id"), {Class: "a", Name: "a" + col, Type: "varchar", Size: "9"}, {Class: "b", Name: "b" + col, Type: "varchar", Size: "9"}, {Class: "u", Name: "u" + col, Type: "date", UQ: true}}}
		}
		from.Tabs = append(from.Tabs, mk(fmt.Sprintf("old%d", i), ""), mk(fmt.Sprintf("both%d", i), ""))
		to.Tabs = append(to.Tabs, mk(fmt.Sprintf("new%d", i), ""), mk(fmt.Sprintf("both%d", i), "2"))
	}
	return pair{fmt.Sprintf("%d tables alike", n), from, to, nil}
}

// effect lists all effects, in order, of one outcome.
func flatEff(eff []Val, f func(e *Eff)) {
	for _, p := range eff {
		switch x := p.(type) {
		case *El:
			if e, ok := x.V.(*Eff); ok {
				f(e)
			}
		case *Rep:
			flatEff(x.Body, f)
		case *AltP:
			for _, o := range x.Opts {
				flatEff(o, f)
			}
		}
	}
}

func passiveEff(kind string) bool {
	switch kind {
	case "read", "decode", "log", "print", "fault", "runerror":
		return true
	}
	return false
}

// volatile are values that differ from run to run.
func volatile(v Val) string {
	found := ""
	mapVal(v, func(x Val) Val {
		n := ""
		switch y := x.(type) {
		case *App:
			n = y.F
		case *Sym:
			n = y.Name
		}
		for _, p := range []string{"time.Now", "rand", "math/rand", "os.Getpid", "tempfile", "os.Hostname", "getenv", "cwd", "runtime."} {
			if n == p || strings.HasPrefix(n, p+".") || strings.Contains(n, "(time.Time)") && p == "time.Now" || strings.HasSuffix(p, ".") && strings.HasPrefix(n, p) {
				found = n
			}
		}
		return nil
	})
	return found
}

// within tells whether path p is base or lies below it; the rest of the path.
func within(p, base Val) (bool, string) {
	if p == nil || base == nil {
		return false, ""
	}
	ps, ok1 := strParts(p)
	bs, ok2 := strParts(base)
	if !ok1 || !ok2 {
		return false, ""
	}
	ps, bs = explode(ps), explode(bs)
	if len(ps) < len(bs) {
		return false, ""
	}
	for i := range bs {
		if ps[i].Key() != bs[i].Key() {
			return false, ""
		}
	}
	rest := render(mkCat(ps[len(bs):]...))
	if len(ps) == len(bs) {
		return true, ""
	}
	if c, ok := constStr(ps[len(bs)]); !ok || c != "/" {
		if b, ok := constStr(bs[len(bs)-1]); !ok || b != "/" {
			return false, rest
		}
	}
	for _, s := range strings.Split(rest, "/") {
		if s == ".." {
			return false, rest
		}
	}
	return true, rest
}

// explode splits constants into single characters.
func explode(ps []Val) []Val {
	var r []Val
	for _, p := range ps {
		if s, ok := constStr(p); ok {
			for _, c := range s {
				r = append(r, S(string(c)))
			}
		} else {
			r = append(r, p)
		}
	}
	return r
}

func (c *Case) withSet(f func(ctx *Ctx)) *Case {
	n := *c
	old := c.Set
	n.Set = func(c *Case, ctx *Ctx) {
		if old != nil {
			old(c, ctx)
		}
		f(ctx)
	}
	return &n
}

// outPath is the value of the output option of a case.
func (r *Result) outPath() Val {
	return r.in.flagVal("output", false)
}

func init() {
	checks["C04"] = func(k *Check) {
		k.rule("for every command, option set and output form: the output, compared as a language, is the same for three different iteration orders of every map; no output depends on an unbounded map's order, on time, random numbers or the process; files are opened truncating.")
		cs := append(k.richCases(), k.mixedRich(12)...)
		var ps [][2]*Case
		for _, c := range cs {
			for o := 1; o <= 2; o++ {
				o := o
				v := c.withSet(func(ctx *Ctx) { ctx.MapOrd = o })
				v.Name = []string{"", "the opposite map order", "a rotated map order"}[o]
				ps = append(ps, [2]*Case{c, v})
			}
		}
		k.sames(ps)
		cs = append(cs, k.starCases()...)
		k.each(len(cs), func(i int) {
			c := cs[i]
			if skipCase(c) {
				return
			}
			construct := k.entry(c.Cmd)
			r, err := k.analyse(c.Cmd, c.ctx())
			if err != nil {
				k.undecided(construct, c.Name, "%v", err)
				return
			}
			for _, o := range r.outs {
				flatEff(o.st.eff, func(e *Eff) {
					if passiveEff(e.Kind) || e.Kind == "mkdir" {
						return
					}
					site := e.Pos + " reached from " + construct
					un := map[string]bool{}
					for _, a := range e.Args {
						if v := volatile(a); v != "" {
							k.oblige(false, site, c.Name, "the output depends on %s", v)
						}
						unordered([]Val{a}, un)
					}
					k.oblige(len(un) == 0, site, c.Name, "the output depends on the iteration order of a map: %s", strings.Join(sortedKeys(un), ", "))
					if e.Kind == "openappend" || e.Kind == "openkeep" || e.Kind == "openexclusive" {
						k.oblige(false, site, c.Name, "the output file is not replaced but opened with what it held before (%s)", e.Kind)
					}
				})
			}
		})
	}
	checks["C05"] = func(k *Check) {
		k.rule("for every command, option set and output form, every file system effect of every outcome has a path that is the output option's value or a path below it; it comes after the last input was read, and no outcome that fails on reading, parsing or validating has one.")
		cs := append(k.richCases(), k.starCases()...)
		cs = append(cs, k.initCases()...)
		cs = append(cs, k.mixedRich(6)...)
		for _, cmd := range k.loading() {
			for _, out := range spelledOutputs(cmd) {
				c := loadCase(cmd, "output "+out, richDoc(), nil)
				c.Flags["output"] = out
				cs = append(cs, c)
			}
		}
		bad := map[*Case]bool{}
		for _, c := range k.invalidCases() {
			bad[c] = true
			cs = append(cs, c)
		}
		for _, c := range append([]*Case{}, cs...) {
			f := c.withSet(func(ctx *Ctx) {
				ctx.Faults = func(call, pos string) bool {
					switch call {
					case "ReadFile", "os.Open", "ReadAll", "json.Unmarshal", "sqlParse":
						return true
					}
					return false
				}
			})
			f.Name += ", reading fails"
			cs = append(cs, f)
		}
		k.each(len(cs), func(i int) {
			c := cs[i]
			if skipCase(c) {
				return
			}
			construct := k.entry(c.Cmd)
			r, err := k.analyse(c.Cmd, c.ctx())
			if err != nil {
				k.undecided(construct, c.Name, "%v", err)
				return
			}
			out := r.outPath()
			for _, o := range r.outs {
				rejected := bad[c]
				wrote := ""
				flatEff(o.st.eff, func(e *Eff) {
					if e.Kind == "fault" {
						rejected = true
					}
				})
				flatEff(o.st.eff, func(e *Eff) {
					site := e.Pos + " reached from " + construct
					if e.Kind == "read" && wrote != "" {
						k.oblige(false, site, c.Name, "an input is read after %s", wrote)
					}
					if passiveEff(e.Kind) {
						return
					}
					if e.Kind == "write" {
						k.undecided(site, c.Name, "written to an unknown writer")
						return
					}
					ok, rest := false, ""
					if len(e.Args) > 0 {
						ok, rest = within(e.Args[0], out)
						if a, isA := e.Args[0].(*App); e.Kind == "mkdir" && isA && a.F == "dir" && len(a.Args) == 1 && a.Args[0].Key() == out.Key() {
							ok, rest = true, "" // the directory of the output file
						}
					}
					if len(e.Args) > 0 && hasTop(e.Args[0]) {
						k.undecided(site, c.Name, "path %s", render(e.Args[0]))
					} else {
						k.oblige(ok, site, c.Name, "%s of %s, which is not the requested output %s or below it", e.Kind, renderParts(head(e.Args, 1)), render(out))
					}
					if rest != "" && outIsFile(c) {
						k.oblige(false, site, c.Name, "%s of %s, although the output %s is a file", e.Kind, render(e.Args[0]), render(out))
					}
					switch e.Kind {
					case "writefile", "create", "mkdir", "append", "openappend", "openkeep", "openexclusive", "openexisting":
					default:
						k.oblige(false, site, c.Name, "%s of a path", e.Kind)
					}
					if rejected {
						k.oblige(false, site, c.Name, "%s although an input was not read or accepted", e.Kind)
					}
					wrote = e.Kind + " of " + renderParts(head(e.Args, 1))
				})
			}
			k.oblige(true, construct, c.Name, "")
		})
	}
	checks["C02"] = func(k *Check) {
		k.rule("every library call that can fail (reading, decoding, parsing, rendering to a writer, creating directories, writing) is also analysed with its failing outcome; an outcome of the command that succeeds must not contain a failed call. The main function must end with a non-zero exit status when the command line run returns an error and only then.")
		cs := k.richCases()
		cs = append(cs, k.starCases()...)
		cs = append(cs, k.initCases()...)
		k.each(len(cs), func(i int) {
			c := cs[i]
			if skipCase(c) {
				return
			}
			construct := k.entry(c.Cmd)
			v := c.withSet(func(ctx *Ctx) { ctx.Faults = func(call, pos string) bool { return true } })
			r, err := k.analyse(v.Cmd, v.ctx())
			if err != nil {
				k.undecided(construct, c.Name, "%v", err)
				return
			}
			if os.Getenv("OCT_DUMP") != "" && strings.Contains(c.Name, os.Getenv("OCT_DUMP")) {
				fmt.Println("=== " + c.Cmd + " | " + c.Name + "\n" + cut(r.dump(), 3000))
			}
			sites := map[string]bool{}
			for _, o := range r.outs {
				n := nilness(o.vals[len(o.vals)-1])
				flatEff(o.st.eff, func(e *Eff) {
					if e.Kind != "fault" {
						return
					}
					sites[e.Pos] = true
					if n == "nn" {
						return
					}
					if n == "nil" || !opaque(o.vals[len(o.vals)-1]) {
						k.oblige(false, e.Pos+" reached from "+construct, c.Name, "the failure of this call does not fail the command")
					} else {
						k.undecided(e.Pos, c.Name, "result after a failure: %s", renderParts(o.vals))
					}
				})
			}
			for _, s := range r.in.exitOuts0 {
				flatEff(s.eff, func(e *Eff) {
					if e.Kind == "fault" {
						k.oblige(false, e.Pos+" reached from "+construct, c.Name, "the command exits with status 0 after the failure of this call")
					}
				})
			}
			if why, ok := r.crash(); ok && strings.HasPrefix(why, "exit") {
				_ = why
			}
			for range sites {
				k.oblige(true, construct, c.Name, "")
			}
			if len(sites) == 0 {
				k.undecided(construct, c.Name, "no call that can fail was found")
			}
		})
		inv := k.invalidCases()
		inv = append(inv, sCase("no data model"))
		k.each(len(inv), func(i int) {
			c := inv[i]
			if skipCase(c) {
				return
			}
			construct := k.entry(c.Cmd)
			r, err := k.analyse(c.Cmd, c.ctx())
			if err != nil {
				k.undecided(construct, c.Name, "%v", err)
				return
			}
			good, bad := r.split()
			k.oblige(len(good) == 0 && len(r.in.exitOuts0) == 0, construct, c.Name, "the command succeeds although its input must be rejected")
			why, crashed := r.crash()
			_ = why
			k.oblige(len(bad) > 0 || crashed, construct, c.Name, "the command never fails")
		})
		mp := k.prog.pkg("")
		in := newInterp(k.prog, newCtx("main"))
		outs := in.callFn(mp.Func("main"), nil, nil, newState(), "main")
		site := k.prog.pos(mp.Func("main").Pos()) + " (main)"
		failed := func(s *State) bool {
			f := false
			flatEff(s.eff, func(e *Eff) { f = f || e.Kind == "runerror" })
			return f
		}
		okRet := false
		for _, o := range outs {
			k.oblige(!failed(o.st), site, "main", "main returns normally, with exit status 0, when the command failed")
			okRet = okRet || !failed(o.st)
		}
		nz := false
		for _, s := range in.exitOuts {
			zero := false
			for _, z := range in.exitOuts0 {
				zero = zero || z == s
			}
			f := failed(s)
			k.oblige(!(zero && f), site, "main", "main exits with status 0 when the command failed")
			k.oblige(f || zero, site, "main", "main exits with a non-zero status when the command succeeded")
			nz = nz || f && !zero
			okRet = okRet || zero && !f
		}
		k.oblige(nz, site, "main", "main has no path from a failed command to a non-zero exit status")
		k.oblige(okRet, site, "main", "main has no path from a successful command to exit status 0")
	}
}

func opaque(v Val) bool { return hasTop(v) }

func skipCase(c *Case) bool {
	f := os.Getenv("OCT_CMD")
	return f != "" && !strings.Contains(c.Cmd+" "+c.Name, f)
}

// outIsFile: the output option names a single file.
func outIsFile(c *Case) bool {
	o := c.Flags["output"]
	return o == "" || !strings.HasSuffix(o, "/dir") && (path.Ext(o) != "" || len(outputs(c.Cmd)) == 1)
}

// unordered collects repetitions over maps.
func unordered(ps []Val, out map[string]bool) {
	for _, p := range ps {
		switch x := p.(type) {
		case *El:
			unordered([]Val{x.V}, out)
		case *Cat:
			unordered(x.Parts, out)
		case *Seq:
			unordered(x.Items, out)
		case *Alt:
			unordered(x.Vals, out)
		case *Rep:
			if x.Unord {
				out[x.Loop] = true
			}
			unordered(x.Body, out)
		case *AltP:
			for _, o := range x.Opts {
				unordered(o, out)
			}
		}
	}
}

// starCases: any number of tables of any number of columns.
func (k *Check) starCases() []*Case {
	var cs []*Case
	for _, cmd := range k.loading() {
		for _, out := range outputs(cmd) {
			d := &Doc{Version: "«V1»", Tabs: []*Tab{{Class: "t", Star: true, Name: "«T»", Desc: "«TD»", Group: "«G»", Cols: []*Col{pkCol("«ID»"),
				{Class: "u", Star: true, Name: "«U»", Type: "varchar", Size: "20", UQ: true, Desc: "«D»"}, {Class: "n", Star: true, Name: "«N»", Type: "int32", NN: true, Default: "«DEF»"}},
				Idx: []*Idx{{Class: "x", Star: true, Name: "«IX»", Cols: []string{"«IC»*"}}}}}}
			c := loadCase(cmd, "any tables, output "+out, d, nil)
			c.Flags["output"] = out
			cs = append(cs, c)
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Cmd < cs[j].Cmd })
	return cs
}

func (k *Check) initCases() []*Case {
	return []*Case{{Name: "init", Cmd: "init", Norm: normExact, Flags: map[string]string{"output": "«OUT».json"}}, {Name: "init without output", Cmd: "init", Norm: normExact}}
}

// importCases are the richest cases of the import commands.
func (k *Check) importCases() []*Case {
	var cs []*Case
	pick := func(l []*Case, names ...string) {
		for _, c := range l {
			for _, n := range names {
				if strings.HasPrefix(c.Name, n) {
					cs = append(cs, c)
				}
			}
		}
	}
	pick(v1Cases(), "sample", "reference")
	pick(starumlCases(), "reference", "no data model")
	pick(xlsxNotation(), "meta", "empty sheets", "combined", "attributes", "table without name")
	pick(xlsxImports(xForms[:1]), "groups", "one group", "5 index")
	pick(k.ddlCases(), "keys 5 3", "keys 7 7", "excludes ", "table options")
	return cs
}
