package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tokenOf(s string) token.Token {
	switch s {
	case "<":
		return token.LSS
	case "<=":
		return token.LEQ
	case ">":
		return token.GTR
	case ">=":
		return token.GEQ
	}
	return token.EQL
}

// anyFn finds a package-level function of any package by its qualified name.
func (p *Program) anyFn(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	if i < 0 || strings.HasPrefix(name, "(") {
		return nil
	}
	for _, pk := range p.ssa.AllPackages() {
		if pk.Pkg.Path() == name[:i] {
			return pk.Func(name[i+1:])
		}
	}
	return nil
}

// sortedItems is the content of a sequence after sorting. less decides the order of two elements where it can.
func (in *Interp) sortedItems(items []Val, less func(i, j int, a, b Val) (bool, bool)) []Val {
	if concrete(items) && less != nil {
		idx := make([]int, len(items))
		for i := range idx {
			idx[i] = i
		}
		ok := true
		sort.SliceStable(idx, func(a, b int) bool {
			l, known := less(idx[a], idx[b], items[idx[a]].(*El).V, items[idx[b]].(*El).V)
			if !known {
				ok = false
			}
			return l
		})
		if ok || len(items) <= 1 {
			var out []Val
			for _, i := range idx {
				out = append(out, items[i])
			}
			return out
		}
	}
	if len(items) == 0 {
		return items
	}
	if !concrete(items) && optionalSet(items) && less != nil {
		var es []Val
		for _, p := range items {
			e, _ := optionalEl(p)
			es = append(es, e)
		}
		byKey := map[string]Val{}
		for i, e := range es {
			byKey[e.Key()] = items[i]
		}
		if srt := in.sortedItems(es, less); concrete(srt) && len(srt) == len(items) {
			var out []Val
			for _, e := range srt {
				out = append(out, byKey[e.Key()])
			}
			return out
		}
	}
	// order unknown: the elements in sorted order
	if len(items) == 1 {
		if r, ok := items[0].(*Rep); ok {
			return []Val{&Rep{Body: r.Body, Min: r.Min, Loop: "sorted:" + strings.TrimPrefix(r.Loop, "sorted:")}}
		}
		if a, ok := items[0].(*AltP); ok && allSmall(a) {
			return items
		}
	}
	if !in.quiet {
		in.noteUndecided("sort", &App{F: "order", Args: []Val{S(fmt.Sprint(len(items), " elements"))}})
	}
	var opts [][]Val
	var flat func(ps []Val)
	flat = func(ps []Val) {
		for _, p := range ps {
			switch p := p.(type) {
			case *El:
				opts = append(opts, []Val{p})
			case *Rep:
				flat(p.Body)
			case *AltP:
				for _, o := range p.Opts {
					flat(o)
				}
			default:
				opts = append(opts, []Val{p})
			}
		}
	}
	flat(items)
	lo, _ := partsLen(items, func(Val) (int64, int64) { return 0, -1 })
	min := 0
	if lo > 0 {
		min = 1
	}
	body := altParts2(opts)
	return []Val{&Rep{Body: body, Min: min, Loop: "sorted:set"}}
}

func allSmall(a *AltP) bool {
	for _, o := range a.Opts {
		if len(o) > 1 {
			return false
		}
		if len(o) == 1 {
			if _, ok := o[0].(*El); !ok {
				return false
			}
		}
	}
	return true
}

func (in *Interp) resort(st *State, v Val, less func(i, j int, a, b Val) (bool, bool)) {
	switch x := v.(type) {
	case *Seq:
		cur := in.currentSeq(st, x)
		ns := &Seq{Items: in.sortedItems(cur.Items, less), T: cur.T, ID: cur.ID}
		if ns.Key() != cur.Key() {
			in.replaceSeq(st, cur, ns)
		}
	case *Alt:
		for _, y := range x.Vals {
			in.resort(st, y, less)
		}
	case *Iface:
		in.resort(st, x.V, less)
	case NilV:
	default:
		in.problem("sort of %T", v)
	}
}

func (in *Interp) sortStrings(st *State, v Val) {
	in.resort(st, v, func(_, _ int, a, b Val) (bool, bool) {
		x, ok1 := constStr(a)
		y, ok2 := constStr(b)
		return x < y, ok1 && ok2
	})
}

// lessBy evaluates a comparison function on a scratch state.
func (in *Interp) lessBy(st *State, call func(s *State, i, j int) []*Outcome) func(i, j int, a, b Val) (bool, bool) {
	return func(i, j int, a, b Val) (bool, bool) {
		pp, pr, un, q := in.panics, in.problems, in.undecided, in.quiet
		in.panics, in.problems, in.undecided, in.quiet = nil, nil, nil, true
		outs := call(st.clone(), i, j)
		in.panics, in.problems, in.undecided, in.quiet = pp, pr, un, q
		var t, f bool
		for _, o := range outs {
			if len(o.vals) == 0 {
				return false, false
			}
			x, y := in.truth(o.st, o.vals[0])
			t, f = t || x, f || y
		}
		return t, t != f
	}
}

func (in *Interp) sortSlice(fr *frame, st *State, v, less Val, site, pos string) []*Outcome {
	in.resort(st, v, in.lessBy(st, func(s *State, i, j int) []*Outcome {
		return in.apply(fr, s, less, []Val{I(int64(i)), I(int64(j))}, "less:"+site, pos, nil)
	}))
	return ret(st)
}

func (in *Interp) sortIface(fr *frame, st *State, v Val, site, pos string) []*Outcome {
	i, ok := v.(*Iface)
	if !ok {
		in.problem("sort of %T at %s", v, pos)
		return ret(st)
	}
	sel := in.prog.ssa.MethodSets.MethodSet(i.T).Lookup(nil, "Less")
	if sel == nil {
		return ret(st)
	}
	fn := in.prog.ssa.MethodValue(sel)
	if fn == nil || !in.prog.analysed(fn) {
		switch types.TypeString(i.T, nil) {
		case "sort.StringSlice":
			in.sortStrings(st, i.V)
			return ret(st)
		}
		if strings.Contains(i.T.String(), "urfave/cli") {
			return ret(st) // the order of commands and flags only affects the help text
		}
		in.resort(st, i.V, nil)
		return ret(st)
	}
	in.resort(st, i.V, in.lessBy(st, func(s *State, a, b int) []*Outcome {
		return in.callFn(fn, []Val{i.V, I(int64(a)), I(int64(b))}, nil, s, "less:"+site)
	}))
	return ret(st)
}
