package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func census(p *Program) {
	m := map[string]int{}
	for _, f := range p.allFns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						m["invoke:"+cc.Value.Type().String()+"."+cc.Method.Name()]++
					} else if fn := cc.StaticCallee(); fn != nil && !p.analysed(fn) {
						m[fn.String()]++
					}
				}
				for _, op := range i.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && !p.analysed(fn) {
						if c, ok := i.(ssa.CallInstruction); !ok || c.Common().Value != *op {
							m["value:"+fn.String()]++
						}
					}
					if g, ok := (*op).(*ssa.Global); ok && !p.repoPkg[g.Pkg.Pkg] {
						m["global:"+g.String()]++
					}
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(m[k], k)
	}
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		debug.SetGCPercent(800)
		debug.SetMemoryLimit(6 << 30)
		stop := startProfile()
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		if os.Args[2] == "all" {
			rc := 0
			for _, id := range sortedKeys(checks) {
				rc = max(rc, runProperty(id, tier))
			}
			stop()
			os.Exit(rc)
		}
		rc := runProperty(os.Args[2], tier)
		stop()
		os.Exit(rc)
	}
	p, err := loadProgram(repoDir())
	if p != nil && len(os.Args) > 1 && os.Args[1] == "census" {
		census(p)
	}
	if err == nil && len(os.Args) > 1 && os.Args[1] == "run" {
		debugRun(p, os.Args[2:])
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
