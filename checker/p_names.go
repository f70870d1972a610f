package main

import "fmt"

// N01: class names under the prefix options, over every class generator.

func init() {
	checks["N01"] = func(k *Check) {
		k.rule("the class, struct, type and message names written by the five class generators are compared with the documented names for every kind of table name, explicit class name, group, prefix and removePrefix value; the prefix text and the explicit class name are arbitrary.")
		type gen struct {
			cmd    string
			norm   *Norm
			expect func(c *Case) string
			flags  map[string]string
		}
		gens := []gen{
			{"generate gorm", normPlain, gormExpect, map[string]string{"output": "out.go"}},
			{"generate kt", normPlain, ktExpect, map[string]string{"output": "out", "package": "com.ent", "reposPackage": "repos", "relation": "VRelation"}},
			{"generate sqlalchemy", normLines, saExpect, map[string]string{"output": "out.py"}},
			{"generate graphql", normCode, graphqlExpect, nil},
			{"generate pb", normCode, pbExpect, map[string]string{"relationTagStart": "-1"}},
		}
		var cs []*Case
		for _, g := range gens {
			add := func(name string, prefix, remove string, tabs ...*Tab) {
				f := map[string]string{}
				for n, v := range g.flags {
					f[n] = v
				}
				if prefix != "" {
					f["prefix"] = prefix
				}
				if remove != "" {
					f["removePrefix"] = remove
				}
				cs = append(cs, &Case{Name: fmt.Sprintf("prefix %q, remove %q, %s", prefix, remove, name), Cmd: g.cmd, Norm: g.norm, Flags: f, NoLit: name != "any table", Docs: docOf(tabs...), Expect: g.expect,
					Fit: func(d *Doc) bool { // a table keeps a name
						for _, t := range d.Tabs {
							if derivedName(&Case{Flags: map[string]string{"removePrefix": remove}}, t) == "" {
								return false
							}
						}
						return true
					}})
			}
			tab := func(class, name, group, cn string, cols ...*Col) *Tab {
				return &Tab{Class: class, Name: name, Group: group, ClassName: cn, Cols: append([]*Col{{Class: "id", Name: "id", Type: "int64", PK: true, NN: true}}, cols...)}
			}
			ref := func(name, table string) *Col {
				return &Col{Class: name, Name: name, Type: "int64", NN: true, Ref: &Ref{Table: table, Column: "id", Rel: "n:1"}}
			}
			for _, n := range []string{"user", "tb_user", "tb_tb_user", "x_tb_user", "tb_x_user", "user_tb_x", "TB_user", "tbuser", "user_group", "UserGroup", "Tb_User", "tb2_user", "tb_id"} {
				for _, rm := range []string{"", "tb_", "tb_,x_", "x_,tb_", "tb", "user", "tb_,tb_", "_"} {
					if n == "user" && rm == "user" {
						continue
					}
					for _, p := range []string{"", "Pre", "g1:Pre"} {
						add("table "+n, p, rm, tab("t", n, "g1", ""), tab("z", "zz", "g2", "", ref("user_id", n)))
					}
					add("table "+n+" with class name", "Pre", rm, tab("t", n, "g1", "«CN»"), tab("z", "zz", "g2", ""))
				}
			}
			for _, rm := range []string{"tb_", "tb_,x_"} {
				for _, p := range []string{"", "Pre", "g1:Pre,g2:Other"} {
					add("any table", p, rm, tab("t", "«T»", "g1", ""), tab("z", "«U»", "g2", "", ref("user_id", "«T»")))
				}
			}
			for _, p := range []string{"", "Pre", "«PRE»", "g1:One", "g2:Two", "g1:One,g2:Two", "g1:One,g2:Two,g3:Three", "g1:,g2:Two", ":One,g1:Two", "g1:A:B", "g1:«PRE»", "G1:One", "g:One", "g11:One"} {
				for _, rm := range []string{"", "tb_"} {
					add("groups", p, rm, tab("a", "tb_aa", "", ""), tab("b", "tb_bb", "g1", "", ref("aa_id", "tb_aa")), tab("c", "tb_cc", "g1", "Klass"), tab("d", "tb_dd", "g2", "", ref("bb_id", "tb_bb")), tab("e", "tb_ee", "g4", "", ref("cc_id", "tb_cc"), ref("dd_id", "tb_dd")))
				}
			}
		}
		k.cases(cs)
	}
}
