package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Result is the analysis of one command in one context.
type Result struct {
	in   *Interp
	outs []*Outcome
	cmd  string
	ctx  *Ctx
}

func (p *Program) runCommand(path string, ctx *Ctx) (*Result, error) {
	if path == docCmd {
		return p.runDocument(ctx)
	}
	cmd := p.cmds[path]
	if cmd == nil {
		return nil, fmt.Errorf("command %q is not registered", path)
	}
	in := newInterp(p, ctx)
	in.cmd = cmd
	st := newState()
	t := in.typeByName("github.com/urfave/cli/v2.Context")
	if t == nil {
		return nil, fmt.Errorf("no cli.Context")
	}
	in.symObj["@cli"] = &Sym{Name: "cli", T: t}
	outs := in.apply(nil, st, cmd.Action, []Val{&Ptr{Obj: "@cli"}}, "cmd:"+path, "", nil)
	return &Result{in: in, outs: outs, cmd: path, ctx: ctx}, nil
}

// docCmd is the composition of loading and saving an octopus document.
const docCmd = "(load and save an octopus document)"

func (p *Program) runDocument(ctx *Ctx) (*Result, error) {
	const pk = "github.com/lechuckroh/octopus-db-tools/format/octopus"
	load := p.anyFn(pk + ".LoadSchema")
	if load == nil {
		return nil, fmt.Errorf("no function octopus.LoadSchema")
	}
	in := newInterp(p, ctx)
	t := in.typeByName(pk + ".Schema")
	if t == nil {
		return nil, fmt.Errorf("no type octopus.Schema")
	}
	sel := p.ssa.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, "ToFile")
	if sel == nil {
		return nil, fmt.Errorf("no method Schema.ToFile")
	}
	save := p.ssa.MethodValue(sel)
	r := &Result{in: in, cmd: docCmd, ctx: ctx}
	st := newState()
	file := in.symVal("flag:input", tString, "")
	out := in.symVal("flag:output", tString, "")
	for _, o := range in.callFn(load, []Val{file}, nil, st, "load") {
		if len(o.vals) != 2 || nilness(o.vals[1]) == "nn" {
			r.outs = append(r.outs, &Outcome{o.st, o.vals[len(o.vals)-1:]})
			continue
		}
		r.outs = append(r.outs, in.callFn(save, []Val{o.vals[0], out}, nil, o.st, "save")...)
	}
	return r, nil
}

func (r *Result) split() (ok, bad []*Outcome) {
	for _, o := range r.outs {
		switch nilness(o.vals[len(o.vals)-1]) {
		case "nil":
			ok = append(ok, o)
		case "nn":
			bad = append(bad, o)
		default:
			ok = append(ok, o)
			bad = append(bad, o)
		}
	}
	return
}

func (r *Result) dump() string {
	var sb strings.Builder
	for i, o := range r.outs {
		fmt.Fprintf(&sb, "-- outcome %d returns %s\n", i, renderParts(o.vals))
		for _, e := range o.st.eff {
			sb.WriteString(render(e) + "\n")
		}
	}
	for i := range r.in.exitOuts {
		fmt.Fprintf(&sb, "-- exit outcome %d\n", i)
	}
	for _, k := range sortedKeys(r.in.panics) {
		fmt.Fprintf(&sb, "panic: %s (definite %v)\n", k, r.in.panics[k])
	}
	for _, k := range sortedKeys(r.in.fatals) {
		fmt.Fprintf(&sb, "fatal: %s\n", k)
	}
	for _, k := range sortedKeys(r.in.undecided) {
		fmt.Fprintf(&sb, "undecided: %s %s\n", k, r.in.undecided[k])
	}
	for _, k := range r.in.problemList() {
		fmt.Fprintf(&sb, "problem: %s\n", k)
	}
	for _, k := range sortedKeys(r.in.unmodelled) {
		fmt.Fprintf(&sb, "unmodelled: %s\n", k)
	}
	return sb.String()
}

// genDefault makes every string of the input a generic atom and gives the remaining fields neutral values.
func genDefault(path string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Sym{Name: path, T: t, Gen: true}
		}
	}
	return nil
}

func debugRun(p *Program, args []string) {
	ctx := newCtx("debug")
	ctx.Default = genDefault
	cmd := ""
	for _, a := range args {
		if k, v, ok := strings.Cut(a, "::"); ok {
			for _, n := range strings.Split(v, " ") {
				switch {
				case n == "":
					ctx.Shapes[k] = []ShapeItem{}
				case strings.HasSuffix(n, "+"):
					ctx.Shapes[k] = append(ctx.Shapes[k], ShapeItem{Names: []string{k + "[" + n[:len(n)-1] + "]"}, Star: true, Min: 1})
				case strings.HasSuffix(n, "*"):
					ctx.Shapes[k] = append(ctx.Shapes[k], ShapeItem{Names: []string{k + "[" + n + "]"}, Star: true})
				default:
					ctx.Shapes[k] = append(ctx.Shapes[k], ShapeItem{Names: []string{k + "[" + n + "]"}})
				}
			}
		} else if k, v, ok := strings.Cut(a, "="); ok {
			ctx.Vals[k] = parseVal(v)
		} else {
			cmd = strings.TrimSpace(cmd + " " + a)
		}
	}
	r, err := p.runCommand(cmd, ctx)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		var ks []string
		for k := range p.cmds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintln(os.Stderr, ks)
		return
	}
	fmt.Print(r.dump())
}

func parseVal(v string) Val {
	switch v {
	case "true":
		return trueV
	case "false":
		return falseV
	case "nil":
		return nilV
	}
	if strings.HasPrefix(v, "#") {
		var n int64
		fmt.Sscan(v[1:], &n)
		return I(n)
	}
	if strings.HasPrefix(v, "$") {
		return &Sym{Name: v[1:], T: tString, Gen: true}
	}
	return S(v)
}
