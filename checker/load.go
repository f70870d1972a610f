package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/lechuckroh/octopus-db-tools"

// Program is the type-checked program under analysis and its SSA form.
type Program struct {
	dir          string
	fset         *token.FileSet
	pkgs         []*packages.Package
	ssa          *ssa.Program
	ssaPkgs      []*ssa.Package
	repoPkg      map[*types.Package]bool
	typesAll     map[string]*types.Package
	stats        *Stats
	fnInfos      map[*ssa.Function]*fnInfo
	initHeap     map[string]Val
	initInt      map[string]string
	initSym      map[string]*Sym
	initProblems map[string]int
	globals      map[string]*ssa.Global
	cmds         map[string]*Command
	allFns       []*ssa.Function
}

// Command is one leaf command of the CLI, as found by evaluating main.
type Command struct {
	Path   string
	Action Val
	Flags  []*Flag
	heap   map[string]Val
}

type Flag struct {
	Kind        string // StringFlag, BoolFlag, ...
	Names       []string
	EnvVars     []string
	Required    bool
	Value       Val
	DefaultText string
}

func newStats() *Stats {
	return &Stats{Funcs: map[string]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, Calls: map[ssa.Instruction]bool{}, Loops: map[*ssa.BasicBlock]bool{}}
}

func loadProgram(dir string) (*Program, error) {
	p := &Program{dir: dir, fset: token.NewFileSet(), repoPkg: map[*types.Package]bool{}, typesAll: map[string]*types.Package{},
		stats: newStats(), fnInfos: map[*ssa.Function]*fnInfo{}, globals: map[string]*ssa.Global{}}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir, Fset: p.fset, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, q := range pkgs {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	p.pkgs = pkgs
	prog, ssaPkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, sp := range ssaPkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.repoPkg[sp.Pkg] = true
	}
	prog.Build()
	p.ssa, p.ssaPkgs = prog, ssaPkgs
	var addTypes func(tp *types.Package)
	addTypes = func(tp *types.Package) {
		if p.typesAll[tp.Path()] != nil {
			return
		}
		p.typesAll[tp.Path()] = tp
		for _, i := range tp.Imports() {
			addTypes(i)
		}
	}
	for _, q := range pkgs {
		addTypes(q.Types)
	}
	for _, sp := range prog.AllPackages() {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals["g:"+g.String()] = g
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.analysed(f) && f.Blocks != nil {
			p.allFns = append(p.allFns, f)
		}
	}
	sort.Slice(p.allFns, func(i, j int) bool { return p.allFns[i].String() < p.allFns[j].String() })
	p.evalInit()
	if err := p.findCommands(); err != nil {
		return p, err
	}
	return p, nil
}

// analysed: bodies of the repository's own functions (and wrappers around them) are analysed.
func (p *Program) analysed(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.repoPkg[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil && p.repoPkg[o.Pkg()] {
		return true
	}
	// bound-method and interface thunks
	if fn.Synthetic != "" && fn.Blocks != nil {
		return true
	}
	return false
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) fnByName(name string) *ssa.Function {
	for _, f := range p.allFns {
		if f.String() == name {
			return f
		}
	}
	return nil
}

func (p *Program) pkg(rel string) *ssa.Package {
	for _, sp := range p.ssaPkgs {
		if sp.Pkg.Path() == repoModule+"/"+rel || rel == "" && sp.Pkg.Path() == repoModule {
			return sp
		}
	}
	return nil
}

func (in *Interp) typeByName(n string) types.Type {
	ptr := false
	if strings.HasPrefix(n, "*") {
		ptr = true
		n = n[1:]
	}
	var t types.Type
	if o := types.Universe.Lookup(n); o != nil {
		t = o.Type()
	} else {
		i := strings.LastIndex(n, ".")
		if i < 0 {
			return nil
		}
		pk := in.prog.typesAll[n[:i]]
		if pk == nil {
			return nil
		}
		o := pk.Scope().Lookup(n[i+1:])
		if o == nil {
			return nil
		}
		t = o.Type()
	}
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

// evalInit abstractly evaluates the package initialisers of the repository.
func (p *Program) evalInit() {
	ctx := newCtx("init")
	in := newInterp(p, ctx)
	st := newState()
	done := map[*types.Package]bool{}
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if done[sp.Pkg] {
			return
		}
		done[sp.Pkg] = true
		for _, im := range sp.Pkg.Imports() {
			if p.repoPkg[im] {
				visit(p.ssa.Package(im))
			}
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		outs := in.callFn(f, nil, nil, st, "init:"+sp.Pkg.Path())
		if len(outs) == 0 {
			in.problem("package initialiser of %s does not return", sp.Pkg.Path())
			return
		}
		st = outs[0].st
		for _, o := range outs[1:] {
			st = in.joinStates(st, o.st)
		}
	}
	pk := append([]*ssa.Package{}, p.ssaPkgs...)
	sort.Slice(pk, func(i, j int) bool { return pk[i].Pkg.Path() < pk[j].Pkg.Path() })
	for _, sp := range pk {
		visit(sp)
	}
	p.initHeap, p.initInt, p.initSym = st.heap, in.intern, in.symObj
	p.initProblems = in.problems
}

func (p *Program) findCommands() error {
	mp := p.pkg("")
	if mp == nil || mp.Func("main") == nil {
		return fmt.Errorf("no main function")
	}
	in := newInterp(p, newCtx("main"))
	st := newState()
	in.callFn(mp.Func("main"), nil, nil, st, "main")
	if in.appRun == nil {
		return fmt.Errorf("main does not reach (*cli.App).Run: %v", in.problemList())
	}
	p.cmds = map[string]*Command{}
	s := in.appRun
	merged := map[string]Val{}
	for k, v := range p.initHeap {
		merged[k] = v
	}
	for k, v := range s.heap {
		merged[k] = v
	}
	p.initHeap, p.initInt, p.initSym = merged, in.intern, in.symObj
	app := in.load(nil, s, in.appPtr, "main")
	var bad []string
	field := func(v Val, name string) Val {
		var t types.Type
		switch x := v.(type) {
		case *Struct:
			t = x.T
		case *Sym:
			t = x.T
		default:
			return top("field")
		}
		su := t.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == name {
				return in.nav(v, i)
			}
		}
		return top("no field")
	}
	items := func(v Val, what string) []Val {
		var out []Val
		switch x := v.(type) {
		case NilV:
		case *Seq:
			for _, it := range in.currentSeq(s, x).Items {
				if e, ok := it.(*El); ok {
					out = append(out, e.V)
				} else {
					bad = append(bad, what+" are not a fixed list")
				}
			}
		default:
			bad = append(bad, what+" are not a fixed list")
		}
		return out
	}
	strs := func(v Val, what string) []string {
		var out []string
		for _, x := range items(v, what) {
			if c, ok := constStr(x); ok {
				out = append(out, c)
			} else {
				bad = append(bad, what+" is not constant")
			}
		}
		return out
	}
	var walk func(prefix string, v Val)
	walk = func(prefix string, v Val) {
		c := in.load(nil, s, v, "main")
		name, ok := constStr(field(c, "Name"))
		if !ok {
			bad = append(bad, "a command name is not constant")
			return
		}
		path := strings.TrimSpace(prefix + " " + name)
		subs := items(field(c, "Subcommands"), "subcommands of "+path)
		for _, sc := range subs {
			walk(path, sc)
		}
		if len(subs) > 0 {
			return
		}
		cmd := &Command{Path: path, Action: field(c, "Action"), heap: s.heap}
		if p.cmds[path] != nil {
			bad = append(bad, "command "+path+" is registered twice")
		}
		for _, f := range items(field(c, "Flags"), "flags of "+path) {
			i, ok := f.(*Iface)
			if !ok {
				bad = append(bad, "a flag of "+path+" is not a known flag object")
				continue
			}
			fv := in.load(nil, s, i.V, "main")
			fl := &Flag{Kind: strings.TrimPrefix(i.T.String(), "*github.com/urfave/cli/v2.")}
			n, ok := constStr(field(fv, "Name"))
			if !ok {
				bad = append(bad, "a flag name of "+path+" is not constant")
			}
			fl.Names = append([]string{n}, strs(field(fv, "Aliases"), "aliases of "+n)...)
			fl.EnvVars = strs(field(fv, "EnvVars"), "environment of "+n)
			fl.Required, _ = constBool(field(fv, "Required"))
			fl.Value = field(fv, "Value")
			fl.DefaultText, _ = constStr(field(fv, "DefaultText"))
			cmd.Flags = append(cmd.Flags, fl)
		}
		p.cmds[path] = cmd
	}
	for _, c := range items(field(app, "Commands"), "commands") {
		walk("", c)
	}
	// cached keys of shared values are computed once
	for _, v := range p.initHeap {
		v.Key()
		mapVal(v, func(x Val) Val { x.Key(); return nil })
	}
	for _, c := range p.cmds {
		c.Action.Key()
		for _, f := range c.Flags {
			if f.Value != nil {
				f.Value.Key()
			}
		}
	}
	trueV.Key()
	falseV.Key()
	if len(bad) > 0 {
		return fmt.Errorf("the command table could not be read: %s", strings.Join(bad[:min(len(bad), 6)], "; "))
	}
	return nil
}

func (in *Interp) problemList() []string {
	return sortedKeys(in.problems)
}

var _ ast.Node
