package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Funcs     map[string]bool
	Blocks    map[*ssa.BasicBlock]bool
	Calls     map[ssa.Instruction]bool
	Loops     map[*ssa.BasicBlock]bool
	Decided   int
	Undecided int
	Steps     int
	Lib       map[string]int
}

func (s *Stats) libCall(n string) {
	if s.Lib == nil {
		s.Lib = map[string]int{}
	}
	s.Lib[n]++
}

type Interp struct {
	prog       *Program
	ctx        *Ctx
	symObj     map[string]*Sym
	iters      map[string]*iterRec
	ctxPath    []string
	intern     map[string]string
	panics     map[string]bool
	problems   map[string]int
	fatals     map[string]bool
	depth      int
	stats      *Stats
	loops      map[*ssa.Function]*fnInfo
	trace      bool
	globals    map[string]Val // initial heap content of globals
	exitOuts   []*State
	lastPanic  string
	appRun     *State
	appPtr     Val
	litCmp     map[string]bool // comparisons of a generic atom with a literal
	quiet      bool            // do not record them
	cmd        *Command
	flagsRead  map[string]bool
	exitOuts0  []*State // those with exit status 0
	unmodelled map[string]int
	undecided  map[string]string // conditions on which both branches were followed
}

func newInterp(p *Program, c *Ctx) *Interp {
	in := &Interp{prog: p, ctx: c, symObj: map[string]*Sym{}, iters: map[string]*iterRec{}, intern: map[string]string{},
		fatals: map[string]bool{}, stats: newStats(), loops: map[*ssa.Function]*fnInfo{}, unmodelled: map[string]int{}}
	for k, v := range p.initInt {
		in.intern[k] = v
	}
	for k, v := range p.initSym {
		in.symObj[k] = v
	}
	return in
}

type iterRec struct {
	id        string
	seq       *Seq
	pos       []int
	atEnd     bool
	first     int // 0 unknown, 1 yes, 2 no
	last      int
	wantFirst bool // "is it the first element" was asked while unknown
	wantLast  bool
	probe     bool
	idx       int64 // position of the current element, -1 when unknown
	slots     map[string]bool
	sym       bool
	elem      Val // current element (map ranges)
}

// ---- control-flow structure ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}

type fnInfo struct {
	rpo      []*ssa.BasicBlock
	idx      map[*ssa.BasicBlock]int
	loopOf   map[*ssa.BasicBlock]*loopInfo // innermost
	headerOf map[*ssa.BasicBlock]*loopInfo
}

func analyseFn(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loopInfo{}, headerOf: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.headerOf[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.headerOf[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	var ls []*loopInfo
	for _, l := range fi.headerOf {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return fi.idx[ls[i].header] > fi.idx[ls[j].header]
	})
	for i, l := range ls {
		for _, m := range ls[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for b := range l.blocks {
			if fi.loopOf[b] == nil {
				fi.loopOf[b] = l
			}
		}
	}
	return fi
}

// ---- frames ----

type frame struct {
	in    *Interp
	fn    *ssa.Function
	info  *fnInfo
	rets  []*Outcome
	ctxID string
}

// Outcome of a call.
type Outcome struct {
	st   *State
	vals []Val
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

const maxPartitions = 8

func (in *Interp) ctxKey() string { return strings.Join(in.ctxPath, ">") }

func (in *Interp) allocID(what string) string {
	k := in.ctxKey() + "#" + what
	if v, ok := in.intern[k]; ok {
		return v
	}
	gen := ""
	for _, c := range in.ctxPath {
		if strings.HasPrefix(c, "*") {
			gen = "*"
		}
	}
	v := fmt.Sprintf("o%d%s", len(in.intern), gen)
	in.intern[k] = v
	return v
}

func instrID(i ssa.Instruction) string {
	b := i.Block()
	for n, x := range b.Instrs {
		if x == i {
			return fmt.Sprintf("%s.%d.%d", nameOf(b.Parent()), b.Index, n)
		}
	}
	return "?"
}

func (in *Interp) callFn(fn *ssa.Function, args []Val, bind []Val, st *State, site string) []*Outcome {
	if in.depth > 60 {
		in.problem("call depth exceeded at %s", fn)
		return []*Outcome{{st, []Val{top("depth")}}}
	}
	in.depth++
	in.ctxPath = append(in.ctxPath, site)
	defer func() { in.depth--; in.ctxPath = in.ctxPath[:len(in.ctxPath)-1] }()
	in.stats.Funcs[nameOf(fn)] = true
	info := in.loops[fn]
	if info == nil {
		info = analyseFn(fn)
		in.loops[fn] = info
	}
	fr := &frame{in: in, fn: fn, info: info, ctxID: in.ctxKey()}
	callerEnv, callerStack := st.env, st.stack
	_ = callerStack
	st.stack = append(append([]Env{}, st.stack...), callerEnv)
	st.env = Env{}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		} else {
			st.env[p] = top("missing arg")
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			st.env[f] = bind[i]
		}
	}
	fr.run(nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], st}})
	// merge outcomes
	groups := map[string]*Outcome{}
	var order []string
	for _, o := range fr.rets {
		k := in.outcomeKey(fn, o)
		n := len(o.st.stack)
		o.st.env = o.st.stack[n-1]
		// own copy: the caller's environment is mutated while executing
		e := make(Env, len(o.st.env))
		for a, b := range o.st.env {
			e[a] = b
		}
		o.st.env = e
		o.st.stack = o.st.stack[:n-1]
		if g := groups[k]; g != nil {
			g.st = in.joinStates(g.st, o.st)
			for i := range g.vals {
				g.vals[i] = join(g.vals[i], o.vals[i])
			}
		} else {
			groups[k] = &Outcome{o.st, append([]Val{}, o.vals...)}
			order = append(order, k)
		}
	}
	var r []*Outcome
	for _, k := range order {
		r = append(r, groups[k])
	}
	return r
}

func nilness(v Val) string {
	switch x := v.(type) {
	case NilV:
		return "nil"
	case *Alt:
		s := ""
		for _, y := range x.Vals {
			n := nilness(y)
			if s == "" {
				s = n
			} else if s != n {
				return "?"
			}
		}
		return s
	case *Ptr, *Iface, *Clo, *MapRef, *Seq, *App:
		return "nn"
	}
	return "?"
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (in *Interp) outcomeKey(fn *ssa.Function, o *Outcome) string {
	var sb strings.Builder
	res := fn.Signature.Results()
	for i := 0; i < res.Len() && i < len(o.vals); i++ {
		t := res.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Interface:
			sb.WriteString(nilness(o.vals[i]))
		case *types.Pointer:
			sb.WriteString(nilness(o.vals[i]))
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				sb.WriteString(o.vals[i].Key())
			}
		}
		sb.WriteByte(',')
	}
	return sb.String()
}

// run executes a region: the whole function (loop==nil) or the body of a loop.
// It returns the edges leaving the region (to the loop header or outside the loop).
func (fr *frame) run(loop *loopInfo, start *ssa.BasicBlock, initial []edge) (backs, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{start: initial}
	first := true
	var dispatch func(es []edge)
	dispatch = func(es []edge) {
		for _, e := range es {
			if loop != nil && e.to == loop.header {
				backs = append(backs, e)
			} else if loop != nil && !loop.blocks[e.to] {
				exits = append(exits, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	for _, b := range fr.info.rpo[fr.info.idx[start]:] {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if l := fr.info.headerOf[b]; l != nil && l != loop {
			dispatch(fr.runLoop(l, es))
			first = false
			continue
		}
		var sts []*State
		if first && loop != nil && b == loop.header {
			for _, e := range es {
				sts = append(sts, e.st)
			}
		} else {
			sts = fr.enter(b, es)
		}
		first = false
		for _, s := range sts {
			dispatch(fr.execBlock(s, b))
		}
	}
	return
}

// enter assigns the phis of b along each incoming edge and merges the states.
func (fr *frame) enter(b *ssa.BasicBlock, es []edge) []*State {
	var sts []*State
	for _, e := range es {
		if e.from != nil {
			fr.assignPhis(b, e)
		}
		sts = append(sts, e.st)
	}
	return fr.merge(b, sts)
}

func (fr *frame) assignPhis(b *ssa.BasicBlock, e edge) {
	pi := -1
	for i, p := range b.Preds {
		if p == e.from {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, fr.val(e.st, phi.Edges[pi]))
	}
	for i, p := range phis {
		e.st.env[p] = vals[i]
	}
}

func (fr *frame) partKey(b *ssa.BasicBlock, s *State) string {
	var ks []string
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.env[phi]
		if v == nil {
			continue
		}
		switch u := phi.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				ks = append(ks, phi.Name()+v.Key())
			}
		case *types.Pointer, *types.Interface:
			ks = append(ks, phi.Name()+nilness(v))
		}
	}
	for v, x := range s.env {
		if isErrorType(v.Type()) {
			ks = append(ks, v.Name()+nilness(x))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (fr *frame) merge(b *ssa.BasicBlock, sts []*State) []*State {
	if len(sts) <= 1 {
		return sts
	}
	groups := map[string]*State{}
	var order []string
	for _, s := range sts {
		k := fr.partKey(b, s)
		if g := groups[k]; g != nil {
			groups[k] = fr.in.joinStates(g, s)
		} else {
			groups[k] = s
			order = append(order, k)
		}
	}
	var r []*State
	for _, k := range order {
		r = append(r, groups[k])
	}
	if len(r) > maxPartitions {
		j := r[0]
		for _, s := range r[1:] {
			j = fr.in.joinStates(j, s)
		}
		return []*State{j}
	}
	return r
}

func (fr *frame) joinAll(sts []*State) *State {
	if len(sts) == 0 {
		return nil
	}
	j := sts[0]
	for _, s := range sts[1:] {
		j = fr.in.joinStates(j, s)
	}
	return j
}

func (fr *frame) execBlock(st *State, b *ssa.BasicBlock) []edge {
	in := fr.in
	in.stats.Blocks[b] = true
	cur := []*State{st}
	for _, instr := range b.Instrs {
		if len(cur) == 0 {
			return nil
		}
		switch x := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			var out []edge
			for _, s := range cur {
				out = append(out, fr.branch(s, b, x)...)
			}
			return out
		case *ssa.Jump:
			var out []edge
			for _, s := range cur {
				out = append(out, edge{b, b.Succs[0], s})
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				vals := make([]Val, len(x.Results))
				for i, r := range x.Results {
					vals[i] = fr.val(s, r)
				}
				fr.rets = append(fr.rets, &Outcome{s, vals})
			}
			return nil
		case *ssa.Panic:
			for _, s := range cur {
				in.panicAt(s, in.prog.pos(x.Pos()), "explicit panic", true)
			}
			return nil
		}
		var next []*State
		for _, s := range cur {
			in.stats.Steps++
			next = append(next, fr.step(s, instr)...)
		}
		cur = next
	}
	return nil
}

// branch follows the feasible successors of an If.
func (fr *frame) branch(st *State, b *ssa.BasicBlock, x *ssa.If) []edge {
	in := fr.in
	c := fr.val(st, x.Cond)
	t, f := in.truth(st, c)
	if os.Getenv("OCT_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s[%d] if %s: t=%v f=%v\n", fr.fn.Name(), b.Index, render(c), t, f)
	}
	if t && f {
		in.stats.Undecided++
		if k := c.Key(); !strings.Contains(k, "iter:") && !fr.probing() {
			in.noteUndecided(fr.pos(x), c)
		}
		s2 := st.clone()
		fr.assume(st, x.Cond, c, true)
		fr.assume(s2, x.Cond, c, false)
		return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
	}
	in.stats.Decided++
	if t {
		return []edge{{b, b.Succs[0], st}}
	}
	return []edge{{b, b.Succs[1], st}}
}

func (fr *frame) probing() bool {
	for _, r := range fr.in.iters {
		if r != nil && r.probe {
			return true
		}
	}
	return false
}

func (in *Interp) noteUndecided(pos string, c Val) {
	if in.undecided == nil {
		in.undecided = map[string]string{}
	}
	in.undecided[pos] = render(c)
	in.noteCond(c)
}

// truth returns whether c may be true / may be false.
func (in *Interp) truth(st *State, c Val) (bool, bool) {
	if b, ok := constBool(c); ok {
		return b, !b
	}
	if a, ok := c.(*Alt); ok {
		var t, f bool
		for _, x := range a.Vals {
			a, b := in.truth(st, x)
			t, f = t || a, f || b
		}
		return t, f
	}
	if a, ok := c.(*App); ok && a.F == "not" {
		t, f := in.truth(st, a.Args[0])
		return f, t
	}
	k := c.Key()
	if v, ok := st.facts[k]; ok {
		return v, !v
	}
	if v, ok := in.ctx.Facts[k]; ok {
		return v, !v
	}
	return true, true
}

// assume refines st with the outcome of a branch.
func (fr *frame) assume(st *State, cond ssa.Value, c Val, truth bool) {
	if a, ok := c.(*App); ok && a.F == "not" {
		st.facts[a.Args[0].Key()] = !truth
	}
	if _, ok := c.(*Alt); !ok {
		st.facts[c.Key()] = truth
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			fr.assume(st, x.X, fr.val(st, x.X), !truth)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == truth
			fr.filter(st, x.X, fr.val(st, x.Y), eq)
			fr.filter(st, x.Y, fr.val(st, x.X), eq)
		}
	}
	// boolean alternatives
	if a, ok := c.(*Alt); ok {
		_ = a
		fr.setReg(st, cond, B(truth))
	}
	if _, ok := c.(*Sym); ok {
		fr.setReg(st, cond, B(truth))
	}
}

// filter keeps the alternatives of register r compatible with r == v (or != v).
func (fr *frame) filter(st *State, r ssa.Value, v Val, eq bool) {
	rv := fr.val(st, r)
	a, ok := rv.(*Alt)
	if !ok {
		return
	}
	var keep []Val
	for _, x := range a.Vals {
		e := fr.in.eq(x, v)
		t, f := fr.in.truth(st, e)
		if eq && t || !eq && f {
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 || len(keep) == len(a.Vals) {
		return
	}
	fr.setReg(st, r, mkAlt(keep...))
}

// setReg refines register r and the memory cell or tuple it was read from.
func (fr *frame) setReg(st *State, r ssa.Value, v Val) {
	if _, ok := r.(*ssa.Const); ok {
		return
	}
	old := st.env[r]
	st.env[r] = v
	switch x := r.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && old != nil {
			if p, ok := fr.val(st, x.X).(*Ptr); ok {
				if cur := fr.in.load(fr, st, p, ""); cur != nil && cur.Key() == old.Key() {
					fr.in.store(st, p, v, "")
				}
			}
		}
	case *ssa.ChangeInterface:
		fr.setReg(st, x.X, v)
	case *ssa.ChangeType:
		fr.setReg(st, x.X, v)
	}
}

// ---- loops ----

type idxPat struct {
	phi  *ssa.Phi
	init int64
	down bool
}

func (fr *frame) indexPattern(l *loopInfo) *idxPat {
	h := l.header
	var ifi *ssa.If
	if n := len(h.Instrs); n > 0 {
		ifi, _ = h.Instrs[n-1].(*ssa.If)
	}
	if ifi == nil {
		return nil
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		okAll := true
		var init int64 = -99
		for ei, e := range phi.Edges {
			if l.blocks[h.Preds[ei]] {
				inc, ok := e.(*ssa.BinOp)
				if !ok || inc.Op != token.ADD || inc.X != ssa.Value(phi) {
					okAll = false
					break
				}
				c, ok := inc.Y.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() != 1 {
					okAll = false
					break
				}
			} else {
				c, ok := e.(*ssa.Const)
				if !ok || c.Value == nil || (init != -99 && init != c.Int64()) {
					okAll = false
					break
				}
				init = c.Int64()
			}
		}
		if !okAll || init == -99 {
			continue
		}
		// the condition must involve the phi (directly or as phi+1)
		uses := func(v ssa.Value) bool {
			if v == ssa.Value(phi) {
				return true
			}
			if a, ok := v.(*ssa.BinOp); ok && (a.Op == token.ADD || a.Op == token.SUB) && a.X == ssa.Value(phi) {
				return true
			}
			return false
		}
		if uses(bo.X) || uses(bo.Y) {
			return &idxPat{phi: phi, init: init}
		}
	}
	return nil
}

func (fr *frame) runLoop(l *loopInfo, incoming []edge) []edge {
	in := fr.in
	in.stats.Loops[l.header] = true
	sts := fr.enter(l.header, incoming)
	var out []edge
	for _, st := range sts {
		out = append(out, fr.runLoopState(l, st)...)
	}
	return out
}

func (fr *frame) phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (fr *frame) runLoopState(l *loopInfo, st *State) []edge {
	in := fr.in
	h := l.header
	phis := fr.phisOf(h)
	loopID := fmt.Sprintf("%s@%s.%d", in.ctxKey(), nameOf(fr.fn), h.Index)

	// runs one iteration from the header; phis for the next iteration are assigned in the continuing states
	iter := func(s *State) (conts []*State, exits []edge) {
		backs, ex := fr.run(l, h, []edge{{nil, h, s}})
		for _, e := range backs {
			fr.assignPhis(h, e)
			conts = append(conts, e.st)
		}
		return conts, ex
	}
	var carried []ssa.Value
	for _, p := range phis {
		carried = append(carried, p)
	}

	// map / string range
	for _, i := range h.Instrs {
		if nx, ok := i.(*ssa.Next); ok {
			return fr.rangeLoop(l, st, nx, loopID, carried, iter)
		}
	}
	if pat := fr.indexPattern(l); pat != nil {
		rec := &iterRec{id: loopID, slots: map[string]bool{}, probe: true}
		saved := in.iters[loopID]
		in.iters[loopID] = rec
		defer func() { in.iters[loopID] = saved }()
		probe := st.clone()
		probe.env[pat.phi] = mkLin(&Iter{loopID}, pat.init)
		pp, pr := in.panics, in.problems
		in.panics, in.problems = nil, nil
		fr.execBlock(probe, h)
		in.panics, in.problems = pp, pr
		rec.probe = false
		if rec.seq != nil {
			if !concrete(rec.seq.Items) {
				return fr.indexLoop(l, st, pat, rec, loopID, carried, iter)
			}
		}
	}
	// constant-decision unrolling, then generic fixpoint
	var out []edge
	cur := st
	for n := 0; ; n++ {
		in.ctxPath = append(in.ctxPath, fmt.Sprintf("%d", n))
		snapshot := cur.clone()
		nr := len(fr.rets)
		conts, ex := iter(cur)
		in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
		if len(conts) == 0 {
			return append(out, ex...)
		}
		if len(ex) == 0 && len(fr.rets) == nr && n < 600 {
			cur = fr.joinAll(conts)
			continue
		}
		// an early exit of a concrete search loop: keep unrolling while the header itself is decided
		if n < 600 && fr.headerDecided(l, snapshot) {
			out = append(out, ex...)
			cur = fr.joinAll(conts)
			continue
		}
		// undecided: generic iteration from the snapshot
		fr.rets = fr.rets[:nr]
		res, exits := in.generic(fr, snapshot, loopID, "loop", 0, false, nil, carried, nil, func(s *State) (*State, []edge) {
			c, e := iter(s)
			return fr.joinAll(c), e
		})
		_ = res
		return append(out, exits...)
	}
}

// headerDecided reports whether the header's own branch is decided in st.
func (fr *frame) headerDecided(l *loopInfo, st *State) bool {
	h := l.header
	n := len(h.Instrs)
	if _, ok := h.Instrs[n-1].(*ssa.If); !ok {
		return false
	}
	pp, pr := fr.in.panics, fr.in.problems
	fr.in.panics, fr.in.problems = nil, nil
	es := fr.execBlock(st.clone(), h)
	fr.in.panics, fr.in.problems = pp, pr
	if len(es) == 0 {
		return false
	}
	to := es[0].to
	for _, e := range es {
		if e.to != to {
			return false
		}
	}
	return true
}

func concrete(items []Val) bool {
	for _, i := range items {
		if _, ok := i.(*El); !ok {
			return false
		}
	}
	return true
}

// indexLoop runs a loop over the positions of a sequence structurally.
func (fr *frame) indexLoop(l *loopInfo, st *State, pat *idxPat, rec *iterRec, loopID string, carried []ssa.Value,
	iter func(*State) ([]*State, []edge)) []edge {
	in := fr.in
	var car []ssa.Value
	for _, c := range carried {
		if c != ssa.Value(pat.phi) {
			car = append(car, c)
		}
	}
	seq := rec.seq
	for attempt := 0; ; attempt++ {
		rec.seq = seq
		rec.wantFirst, rec.wantLast, rec.atEnd = false, false, false
		start := st.clone()
		nr := len(fr.rets)
		step := func(s *State, pos []int, idx int64, el Val) (*State, []edge) {
			rec.pos, rec.idx = pos, idx
			if idx >= 0 {
				s.env[pat.phi] = I(pat.init + idx)
			} else {
				s.env[pat.phi] = mkLin(&Iter{loopID}, pat.init)
			}
			conts, ex := iter(s)
			return fr.joinAll(conts), ex
		}
		end, exits := in.walkItems(fr, start, rec, seq.Items, nil, 0, [4]int64{0, 0, 0, 0}, loopID, car, step)
		if (rec.wantLast || rec.wantFirst) && attempt < 4 {
			if ns := splitSeq(seq, rec.wantLast); ns != nil {
				fr.rets = fr.rets[:nr]
				alt, isAlt := soleAlt(ns.Items)
				if isAlt && (seq.ID != "" || !hasAlt(seq.Items)) {
					// the loop is run once for every way the sequence can end (or begin)
					var exits []edge
					for oi, o := range alt.Opts {
						so := st.clone()
						os := &Seq{Items: o, ID: seq.ID, T: seq.T}
						in.replaceSeq(so, seq, os)
						r := *rec
						r.seq = os
						in.iters[loopID] = &r
						in.ctxPath = append(in.ctxPath, fmt.Sprintf("o%d", oi))
						exits = append(exits, fr.indexLoop(l, so, pat, &r, loopID, carried, iter)...)
						in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
					}
					in.iters[loopID] = rec
					return exits
				}
				in.replaceSeq(st, seq, ns)
				seq = ns
				continue
			}
		}
		if end != nil {
			rec.atEnd = true
			rec.pos = nil
			end.env[pat.phi] = mkLin(&LenOf{rec.seq}, pat.init)
			if lo, hi := lenRange(rec.seq); lo == hi {
				end.env[pat.phi] = I(lo + pat.init)
			}
			end.env[pat.phi] = mkLin(&Iter{loopID}, pat.init)
			for _, e := range fr.execBlock(end, l.header) {
				if !l.blocks[e.to] {
					exits = append(exits, e)
				}
			}
		}
		return exits
	}
}

func soleAlt(items []Val) (*AltP, bool) {
	if len(items) != 1 {
		return nil, false
	}
	a, ok := items[0].(*AltP)
	return a, ok
}

func hasAlt(items []Val) bool {
	for _, i := range items {
		switch x := i.(type) {
		case *AltP:
			return true
		case *Rep:
			if hasAlt(x.Body) {
				return true
			}
		}
	}
	return false
}

// walkItems processes the items of a sequence in order. bounds = {prefixMin, prefixMax, suffixMin, suffixMax}
// are bounds on the number of elements before and after (max -1: unbounded).
func (in *Interp) walkItems(fr *frame, st *State, rec *iterRec, items []Val, pos []int, idx int64, bounds [4]int64,
	loopID string, carried []ssa.Value, step func(*State, []int, int64, Val) (*State, []edge)) (*State, []edge) {
	var exits []edge
	one := func(Val) (int64, int64) { return 0, -1 }
	preLo, preHi := bounds[0], bounds[1]
	add := func(a, b int64) int64 {
		if a < 0 || b < 0 {
			return -1
		}
		return a + b
	}
	for k, it := range items {
		if st == nil {
			return nil, exits
		}
		sl, sh := partsLen(items[k+1:], one)
		sufLo, sufHi := sl+bounds[2], add(sh, bounds[3])
		p := append(append([]int{}, pos...), k)
		setPos := func(generic bool) {
			rec.first, rec.last = 0, 0
			if preLo >= 1 {
				rec.first = 2
			} else if preHi == 0 && !generic {
				rec.first = 1
			}
			if sufLo >= 1 {
				rec.last = 2
			} else if sufHi == 0 && !generic {
				rec.last = 1
			}
		}
		switch x := it.(type) {
		case *El:
			setPos(false)
			tag := fmt.Sprintf("%d", k)
			if len(pos) > 0 {
				tag = strings.ReplaceAll(fmt.Sprint(p), " ", ".")
			}
			for _, c := range pos {
				_ = c
			}
			in.ctxPath = append(in.ctxPath, in.genTag(tag, idx))
			n, ex := step(st, p, idx, x.V)
			in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
			exits = append(exits, ex...)
			st = n
			preLo++
			preHi = add(preHi, 1)
			if idx >= 0 {
				idx++
			}
		case *AltP:
			var outs []*State
			lo, hi := partsLen([]Val{it}, one)
			for oi, o := range x.Opts {
				s := st
				if oi < len(x.Opts)-1 {
					s = st.clone()
				}
				if len(o) == 0 {
					outs = append(outs, s)
					continue
				}
				in.ctxPath = append(in.ctxPath, fmt.Sprintf("a%d", oi))
				ni := idx
				n, ex := in.walkItems(fr, s, rec, o, append(append([]int{}, p...), oi), ni, [4]int64{preLo, preHi, sufLo, sufHi}, loopID, carried, step)
				in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
				exits = append(exits, ex...)
				if n != nil {
					outs = append(outs, n)
				}
			}
			if len(outs) == 0 {
				return nil, exits
			}
			st = outs[0]
			for _, o := range outs[1:] {
				st = in.joinStates(st, o)
			}
			preLo += lo
			preHi = add(preHi, hi)
			if lo == hi && idx >= 0 {
				idx += lo
			} else {
				idx = -1
			}
		case *Rep:
			blo, bhi := partsLen([]Val{it}, one)
			in.ctxPath = append(in.ctxPath, "*"+fmt.Sprint(k))
			n, ex := in.generic(fr, st, loopID+fmt.Sprint(p), x.Loop, x.Min, x.Unord, x.Body, carried, rec, func(s *State) (*State, []edge) {
				setPos(true)
				return in.walkGenericBody(fr, s, rec, x.Body, p, loopID, carried, step, setPos)
			})
			in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
			exits = append(exits, ex...)
			st = n
			preLo += blo
			preHi = add(preHi, bhi)
			idx = -1
		default:
			// unknown part (loop-carried prefix of an enclosing loop)
			in.ctxPath = append(in.ctxPath, "*u")
			n, ex := in.generic(fr, st, loopID+fmt.Sprint(p), "?", 0, false, nil, carried, rec, func(s *State) (*State, []edge) {
				rec.first, rec.last = 0, 0
				return step(s, p, -1, top("element of unknown sequence"))
			})
			in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
			exits = append(exits, ex...)
			st = n
			preHi, idx = -1, -1
		}
	}
	return st, exits
}

func (in *Interp) genTag(tag string, idx int64) string { return tag }

func (in *Interp) walkGenericBody(fr *frame, st *State, rec *iterRec, body []Val, pos []int, loopID string, carried []ssa.Value,
	step func(*State, []int, int64, Val) (*State, []edge), setPos func(bool)) (*State, []edge) {
	var exits []edge
	for k, it := range body {
		if st == nil {
			return nil, exits
		}
		p := append(append([]int{}, pos...), k)
		switch x := it.(type) {
		case *El:
			setPos(true)
			in.ctxPath = append(in.ctxPath, fmt.Sprintf("g%d", k))
			n, ex := step(st, p, -1, x.V)
			in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
			exits = append(exits, ex...)
			st = n
		case *AltP:
			var outs []*State
			for oi, o := range x.Opts {
				s := st
				if oi < len(x.Opts)-1 {
					s = st.clone()
				}
				in.ctxPath = append(in.ctxPath, fmt.Sprintf("a%d", oi))
				n, ex := in.walkGenericBody(fr, s, rec, o, append(append([]int{}, p...), oi), loopID, carried, step, setPos)
				in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
				exits = append(exits, ex...)
				if n != nil {
					outs = append(outs, n)
				}
			}
			if len(outs) == 0 {
				return nil, exits
			}
			st = outs[0]
			for _, o := range outs[1:] {
				st = in.joinStates(st, o)
			}
		case *Rep:
			in.ctxPath = append(in.ctxPath, "*"+fmt.Sprint(k))
			n, ex := in.generic(fr, st, loopID+fmt.Sprint(p), x.Loop, x.Min, x.Unord, x.Body, carried, rec, func(s *State) (*State, []edge) {
				return in.walkGenericBody(fr, s, rec, x.Body, p, loopID, carried, step, setPos)
			})
			in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
			exits = append(exits, ex...)
			st = n
		default:
			n, ex := step(st, p, -1, top("element of unknown sequence"))
			exits = append(exits, ex...)
			st = n
		}
	}
	return st, exits
}

// rangeLoop runs a range over a map or string.
func (fr *frame) rangeLoop(l *loopInfo, st *State, nx *ssa.Next, loopID string, carried []ssa.Value, iter func(*State) ([]*State, []edge)) []edge {
	in := fr.in
	ri, _ := fr.val(st, nx.Iter).(*RangeIt)
	rec := &iterRec{id: loopID, slots: map[string]bool{}}
	saved := in.iters[loopID]
	in.iters[loopID] = rec
	if ri != nil {
		in.iters["range:"+ri.ID] = rec
	}
	defer func() { in.iters[loopID] = saved }()
	var items []Val
	switch {
	case ri == nil:
		items = []Val{&Rep{Body: []Val{&El{&Entry{top("range"), top("range")}}}, Loop: "?"}}
	default:
		switch o := ri.Over.(type) {
		case NilV:
		case *MapRef:
			v, _ := in.root(st, o.Obj)
			if m, ok := v.(*MapC); ok {
				items = in.mapItems(m)
			} else {
				items = []Val{&Rep{Body: []Val{&El{&Entry{top("range"), top("range")}}}, Loop: "?"}}
			}
		default:
			if s, ok := constStr(o); ok {
				for i, r := range s {
					items = append(items, &El{&Entry{I(int64(i)), I(int64(r))}})
				}
			} else {
				items = []Val{&Rep{Body: []Val{&El{&Entry{&App{F: "runeIndex", Args: []Val{o}, T: types.Typ[types.Int]}, &App{F: "rune", Args: []Val{o}, T: types.Typ[types.Rune]}}}}, Loop: "rune"}}
			}
		}
	}
	step := func(s *State, pos []int, idx int64, el Val) (*State, []edge) {
		rec.elem = el
		rec.atEnd = false
		conts, ex := iter(s)
		return fr.joinAll(conts), ex
	}
	end, exits := in.walkItems(fr, st.clone(), rec, items, nil, 0, [4]int64{0, 0, 0, 0}, loopID, carried, step)
	if end != nil {
		rec.atEnd = true
		for _, e := range fr.execBlock(end, l.header) {
			if !l.blocks[e.to] {
				exits = append(exits, e)
			}
		}
	}
	return exits
}

// optionalSet: every item is an element or an element that may be absent, all with distinct literal keys.
func optionalSet(items []Val) bool {
	if concrete(items) {
		return true
	}
	seen := map[string]bool{}
	for _, p := range items {
		e, _ := optionalEl(p)
		if e == nil {
			return false
		}
		k := e.V
		if x, ok := k.(*Entry); ok {
			k = x.K
		}
		if _, ok := k.(*Const); !ok || seen[k.Key()] {
			return false
		}
		seen[k.Key()] = true
	}
	return true
}

// optionalEl: the item is one element, or one that may be absent.
func optionalEl(p Val) (e *El, maybe bool) {
	switch x := p.(type) {
	case *El:
		return x, false
	case *AltP:
		if len(x.Opts) == 2 && len(x.Opts[0])+len(x.Opts[1]) == 1 {
			q := append(append([]Val{}, x.Opts[0]...), x.Opts[1]...)
			if e, ok := q[0].(*El); ok {
				return e, true
			}
		}
	}
	return nil, false
}

// mapEntries: entries of literal keys that a loop adds any number of times are entries once.
func mapEntries(ps []Val) []Val {
	var out []Val
	for _, p := range ps {
		r, ok := p.(*Rep)
		var once []Val
		if ok {
			for _, q := range r.Body {
				e, maybe := optionalEl(q)
				if e == nil {
					ok = false
					break
				}
				x, isEntry := e.V.(*Entry)
				if !isEntry {
					ok = false
					break
				}
				_, lit := x.K.(*Const)
				_, val := x.V.(*Const)
				if !lit || !val {
					ok = false
					break
				}
				if r.Min > 0 && !maybe {
					once = append(once, e)
				} else {
					once = append(once, &AltP{Opts: [][]Val{nil, {e}}})
				}
			}
		}
		if ok {
			out = append(out, once...)
		} else {
			out = append(out, p)
		}
	}
	return out
}

// mapItems views a map's entries as an unordered repetition (or a single entry).
func (in *Interp) mapItems(m *MapC) []Val {
	_, hi := partsLen(m.Items, func(Val) (int64, int64) { return 0, -1 })
	var live []Val
	live = append(live, m.Items...)
	if hi >= 0 && hi <= 1 {
		return live
	}
	if optionalSet(live) && len(live) <= 128 {
		// one of the possible orders; C04 compares it with the opposite one
		switch {
		case in.ctx.MapOrd == 1:
			for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
				live[i], live[j] = live[j], live[i]
			}
		case in.ctx.MapOrd == 2 && len(live) > 2:
			h := len(live) / 2
			live = append(append([]Val{}, live[h:]...), live[:h]...)
		}
		return live
	}
	lo, _ := lenRange(m)
	min := 0
	if lo > 0 {
		min = 1
	}
	var opts [][]Val
	var flat func(ps []Val)
	flat = func(ps []Val) {
		for _, p := range ps {
			switch p := p.(type) {
			case *El:
				opts = append(opts, []Val{p})
			case *Rep:
				flat(p.Body)
			case *AltP:
				for _, o := range p.Opts {
					flat(o)
				}
			default:
				opts = append(opts, []Val{p})
			}
		}
	}
	flat(live)
	loop := "map"
	if len(opts) == 1 {
		return []Val{&Rep{Body: opts[0], Min: min, Loop: loop, Unord: true}}
	}
	return []Val{&Rep{Body: []Val{&AltP{Opts: opts}}, Min: min, Loop: loop, Unord: true}}
}

// ---- generic iteration: fixpoint and closed forms ----

type cell struct {
	heap string
	reg  ssa.Value
	eff  bool
}

func (c cell) id() string {
	if c.eff {
		return "eff"
	}
	if c.reg != nil {
		return "r:" + c.reg.Name()
	}
	return "h:" + c.heap
}

func (c cell) get(s *State) Val {
	switch {
	case c.eff:
		return &Seq{Items: s.eff}
	case c.reg != nil:
		return s.env[c.reg]
	}
	return s.heap[c.heap]
}

func (c cell) set(s *State, v Val) {
	switch {
	case c.eff:
		if q, ok := v.(*Seq); ok {
			s.eff = q.Items
		} else {
			s.eff = []Val{v}
		}
	case c.reg != nil:
		s.env[c.reg] = v
	default:
		s.heap[c.heap] = v
	}
}

// reach collects the objects reachable from vals.
func (in *Interp) reach(st *State, vals []Val) map[string]bool {
	r := map[string]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		mapVal(v, func(x Val) Val {
			id := ""
			switch p := x.(type) {
			case *Ptr:
				id = p.Obj
			case *MapRef:
				id = p.Obj
			case *SlotPtr:
				visit(p.S)
			}
			if id != "" && !r[id] {
				if strings.HasPrefix(id, "@") || strings.Contains(id, "*") {
					r[id] = true
					if c, ok := st.heap[id]; ok {
						visit(c)
					}
				}
			}
			return nil
		})
	}
	for _, v := range vals {
		visit(v)
	}
	return r
}

func (in *Interp) mark(id string, a, b Val, t types.Type) Val {
	// a: value before, b: value after one pass; builds the marked value
	if a != nil && b != nil && a.Key() == b.Key() {
		return a
	}
	switch x := a.(type) {
	case *Struct:
		if y, ok := b.(*Struct); ok && types.Identical(x.T, y.T) {
			f := make([]Val, len(x.F))
			su, _ := x.T.Underlying().(*types.Struct)
			for i := range f {
				var ft types.Type
				if su != nil {
					ft = su.Field(i).Type()
				}
				f[i] = in.mark(fmt.Sprintf("%s.%d", id, i), x.F[i], y.F[i], ft)
			}
			return &Struct{T: x.T, F: f}
		}
	case *LibObj:
		if y, ok := b.(*LibObj); ok && x.Kind == y.Kind {
			f := map[string]Val{}
			for k, v := range x.F {
				f[k] = v
				if w, ok := y.F[k]; ok {
					f[k] = in.mark(id+"."+k, v, w, nil)
				}
			}
			for k, w := range y.F {
				if _, ok := x.F[k]; !ok {
					f[k] = w
				}
			}
			return &LibObj{x.Kind, f}
		}
	case *Seq:
		if y, ok := b.(*Seq); ok {
			tt := x.T
			if tt == nil {
				tt = y.T
			}
			return &Seq{Items: []Val{&LVar{ID: id, T: tt}}, T: tt}
		}
	case NilV:
		if y, ok := b.(*Seq); ok {
			return &Seq{Items: []Val{&LVar{ID: id, T: y.T}}, T: y.T}
		}
	case *MapC:
		if _, ok := b.(*MapC); ok {
			return &MapC{Items: []Val{&LVar{ID: id, T: x.T}}, T: x.T}
		}
	}
	if pa, ok := strParts(a); ok && !isTop(a) {
		if pb, ok := strParts(b); ok && !isTop(b) {
			if accumulates(pa, pb) {
				return &Cat{Parts: []Val{&LVar{ID: id, T: types.Typ[types.String]}}}
			}
		}
	}
	if x, ok := b.(*Alt); ok {
		// Alt of an int and its increment
		for _, y := range x.Vals {
			if _, ok := constInt(y); !ok {
				return join(a, b)
			}
		}
		if _, ok := constInt(a); ok {
			return &LVar{ID: id, T: types.Typ[types.Int]}
		}
	}
	if _, ok := constInt(a); ok {
		if _, ok := constInt(b); ok {
			return &LVar{ID: id, T: types.Typ[types.Int]}
		}
	}
	if ba, _ := linView(a); ba != nil {
		if bb, _ := linView(b); bb != nil && ba.Key() == bb.Key() {
			return &LVar{ID: id, T: types.Typ[types.Int]}
		}
	}
	return join(a, b)
}

// accumulates: b looks like a extended with something (or an alternative thereof).
func accumulates(pa, pb []Val) bool {
	if len(pa) == 0 {
		return true
	}
	sa, sb := render(mkCat(pa...)), ""
	for _, p := range pb {
		if x, ok := p.(*AltP); ok {
			for _, o := range x.Opts {
				if strings.HasPrefix(render(mkCat(o...)), sa) && partsKey(o) != partsKey(pa) {
					return true
				}
			}
		}
	}
	sb = render(mkCat(pb...))
	return strings.HasPrefix(sb, sa) || strings.HasSuffix(sb, sa)
}

// lvOnly: v is exactly the marker id in list/string form.
func soleLV(ps []Val) *LVar {
	if len(ps) == 1 {
		if l, ok := ps[0].(*LVar); ok {
			return l
		}
	}
	return nil
}

type closing struct {
	atStart map[string][]Val // marker -> parts valid at the start of a generic iteration
	atVal   map[string]Val   // for non-part markers
	failed  []string
}

// closeVal computes the value after the loop from the marked value m, the value o after a pass, the initial value a.
func (in *Interp) closeVal(cl *closing, m, o, a Val, min int, loop string, unord bool) Val {
	if m.Key() == o.Key() {
		// unchanged within the iteration
		if !containsLV(m, "") {
			return a2(m, a)
		}
		in.closeSame(cl, m, a)
		return a
	}
	parts := func(v Val) ([]Val, int) {
		switch x := v.(type) {
		case *Seq:
			return x.Items, 1
		case NilV:
			return nil, 1
		case *MapC:
			return x.Items, 2
		}
		if p, ok := strParts(v); ok {
			return p, 3
		}
		return nil, 0
	}
	rebuild := func(kind int, ps []Val, like Val) Val {
		switch kind {
		case 1:
			var t types.Type
			if s, ok := m.(*Seq); ok {
				t = s.T
			}
			return &Seq{Items: ps, T: t}
		case 2:
			return &MapC{Items: mapEntries(ps), T: m.(*MapC).T}
		}
		return mkCat(ps...)
	}
	switch x := m.(type) {
	case *Struct:
		if y, ok := o.(*Struct); ok {
			if z, ok := a.(*Struct); ok {
				f := make([]Val, len(x.F))
				for i := range f {
					f[i] = in.closeVal(cl, x.F[i], y.F[i], z.F[i], min, loop, unord)
				}
				return &Struct{T: x.T, F: f}
			}
		}
	case *LibObj:
		if y, ok := o.(*LibObj); ok {
			if z, ok := a.(*LibObj); ok {
				f := map[string]Val{}
				for k, w := range y.F {
					mm, ok1 := x.F[k]
					zz, ok2 := z.F[k]
					if ok1 && ok2 {
						f[k] = in.closeVal(cl, mm, w, zz, min, loop, unord)
					} else {
						f[k] = w
					}
				}
				return &LibObj{x.Kind, f}
			}
		}
	case *LVar: // integer
		if b, off := linView(o); b != nil {
			if l, ok := b.(*LVar); ok && l.ID == x.ID {
				n := &App{F: "seqno", Args: []Val{a, I(off), &Sym{Name: loop}}, T: types.Typ[types.Int]}
				cl.atVal[x.ID] = n
				return &App{F: "seqend", Args: []Val{a, I(off), &Sym{Name: loop}}, T: types.Typ[types.Int]}
			}
		}
		if !containsLV(o, x.ID) {
			cl.atVal[x.ID] = join(a, o)
			if min > 0 {
				return o
			}
			return join(a, o)
		}
		n := &App{F: "counter", Args: []Val{a, &Sym{Name: loop}}, T: types.Typ[types.Int]}
		cl.atVal[x.ID] = n
		return n
	}
	mp, kind := parts(m)
	if l := soleLV(mp); kind > 0 && l != nil {
		op, k2 := parts(o)
		ip, k3 := parts(a)
		if k2 == 0 || k3 == 0 {
			cl.atVal[l.ID] = top("loop-carried value")
			cl.atStart[l.ID] = []Val{top("loop-carried value")}
			return top("loop-carried %s", loop)
		}
		op = normLV(op, l.ID)
		if len(op) > 0 {
			if f, ok := op[0].(*LVar); ok && f.ID == l.ID && !hasPart(op[1:], l.ID) {
				delta := op[1:]
				cl.atStart[l.ID] = append(append([]Val{}, ip...), &Rep{Body: delta, Min: 0, Loop: loop, Unord: unord})
				if len(delta) == 0 {
					return a
				}
				return rebuild(kind, append(append([]Val{}, ip...), &Rep{Body: delta, Min: min, Loop: loop, Unord: unord}), a)
			}
			if f, ok := op[len(op)-1].(*LVar); ok && f.ID == l.ID && !hasPart(op[:len(op)-1], l.ID) {
				delta := op[:len(op)-1]
				cl.atStart[l.ID] = append([]Val{&Rep{Body: delta, Min: 0, Loop: "rev:" + loop, Unord: unord}}, ip...)
				return rebuild(kind, append([]Val{&Rep{Body: delta, Min: min, Loop: "rev:" + loop, Unord: unord}}, ip...), a)
			}
		}
		if !hasPart(op, l.ID) && !containsLV(&Seq{Items: op}, l.ID) {
			cl.atStart[l.ID] = joinParts(ip, op)
			if min > 0 {
				return o
			}
			return rebuild(kind, joinParts(ip, op), a)
		}
		cl.atStart[l.ID] = []Val{top("loop-carried %s", loop)}
		return rebuild(kind, []Val{top("loop-carried %s", loop)}, a)
	}
	// join cell
	if min > 0 {
		return o
	}
	return join(a, o)
}

// normLV rewrites alternatives that all start with the marker.
func normLV(ps []Val, id string) []Val {
	if len(ps) == 0 {
		return ps
	}
	x, ok := ps[0].(*AltP)
	if !ok {
		return ps
	}
	var opts [][]Val
	for _, o := range x.Opts {
		o = normLV(o, id)
		if len(o) == 0 {
			return ps
		}
		l, ok := o[0].(*LVar)
		if !ok || l.ID != id {
			return ps
		}
		opts = append(opts, o[1:])
	}
	r := []Val{&LVar{ID: id, T: nil}}
	r = append(r, altParts2(opts)...)
	return append(r, ps[1:]...)
}

func altParts2(opts [][]Val) []Val {
	var r []Val
	for i, o := range opts {
		if i == 0 {
			r = o
		} else {
			r = joinParts(r, o)
		}
	}
	return r
}

func a2(m, a Val) Val { return m }

func (in *Interp) closeSame(cl *closing, m, a Val) {
	// marker unchanged: it denotes the initial value
	switch x := m.(type) {
	case *Struct:
		if z, ok := a.(*Struct); ok {
			for i := range x.F {
				in.closeSame(cl, x.F[i], z.F[i])
			}
		}
		return
	case *LibObj:
		if z, ok := a.(*LibObj); ok {
			for k := range x.F {
				if z.F[k] != nil {
					in.closeSame(cl, x.F[k], z.F[k])
				}
			}
		}
		return
	case *LVar:
		cl.atVal[x.ID] = a
		return
	}
	var l *LVar
	switch x := m.(type) {
	case *Seq:
		l = soleLV(x.Items)
	case *MapC:
		l = soleLV(x.Items)
	case *Cat:
		l = soleLV(x.Parts)
	}
	if l != nil {
		switch x := a.(type) {
		case *Seq:
			cl.atStart[l.ID] = x.Items
		case NilV:
			cl.atStart[l.ID] = nil
		case *MapC:
			cl.atStart[l.ID] = x.Items
		default:
			p, _ := strParts(a)
			cl.atStart[l.ID] = p
		}
	}
}

func hasPart(ps []Val, id string) bool {
	for _, p := range ps {
		switch x := p.(type) {
		case *LVar:
			if x.ID == id {
				return true
			}
		case *AltP:
			for _, o := range x.Opts {
				if hasPart(o, id) {
					return true
				}
			}
		case *Rep:
			if hasPart(x.Body, id) {
				return true
			}
		}
	}
	return false
}

func (cl *closing) subst(v Val) Val {
	if v == nil {
		return nil
	}
	var f func(x Val) Val
	f = func(x Val) Val {
		if l, ok := x.(*LVar); ok {
			if p, ok := cl.atStart[l.ID]; ok {
				return &Splice{p}
			}
			if w, ok := cl.atVal[l.ID]; ok {
				return w
			}
		}
		return nil
	}
	r := mapVal(v, f)
	if s, ok := r.(*Splice); ok {
		return mkCat(s.Parts...)
	}
	return r
}

func (cl *closing) substState(s *State) {
	if len(cl.atStart)+len(cl.atVal) == 0 {
		return
	}
	for k, v := range s.env {
		s.env[k] = cl.subst(v)
	}
	for k, v := range s.heap {
		s.heap[k] = cl.subst(v)
	}
	e, ch := mapParts(s.eff, func(x Val) Val {
		if l, ok := x.(*LVar); ok {
			if p, ok := cl.atStart[l.ID]; ok {
				return &Splice{p}
			}
			if w, ok := cl.atVal[l.ID]; ok {
				return w
			}
		}
		return nil
	})
	if ch {
		s.eff = e
	}
}

// resolve closes markers inside each other.
func (cl *closing) resolve() {
	for n := 0; n < 4; n++ {
		for k, p := range cl.atStart {
			q, ch := mapParts(p, func(x Val) Val {
				if l, ok := x.(*LVar); ok && l.ID != k {
					if r, ok := cl.atStart[l.ID]; ok {
						return &Splice{r}
					}
					if w, ok := cl.atVal[l.ID]; ok {
						return w
					}
				}
				return nil
			})
			if ch {
				cl.atStart[k] = q
			}
		}
		for k, v := range cl.atVal {
			cl.atVal[k] = cl.subst(v)
		}
	}
}

func (in *Interp) generic(fr *frame, st *State, loopID, loop string, min int, unord bool, body []Val, carried []ssa.Value,
	rec *iterRec, pass func(*State) (*State, []edge)) (*State, []edge) {
	marked := map[string]Val{}
	cells := map[string]cell{}
	perElem := in.reach(st, body)
	unstable := map[string]int{}
	var out *State
	var exits []edge
	var outcomes0 int
	if fr != nil {
		outcomes0 = len(fr.rets)
	}
	excluded := func(c cell, v Val) bool {
		if c.heap != "" && perElem[c.heap] {
			return true
		}
		if c.heap != "" && strings.HasPrefix(c.heap, "slice:") {
			return true
		}
		if rec != nil {
			if s, ok := v.(*Seq); ok && rec.slots[seqIdent(s)] {
				return true
			}
		}
		return false
	}
	for n := 0; ; n++ {
		s := st.clone()
		for id, c := range cells {
			c.set(s, marked[id])
		}
		if fr != nil {
			fr.rets = fr.rets[:outcomes0]
		}
		out, exits = pass(s)
		if out == nil {
			break
		}
		changed := false
		consider := func(c cell) {
			id := c.id()
			before := c.get(st)
			if m, ok := marked[id]; ok {
				before = m
			}
			after := c.get(out)
			if before == nil || after == nil {
				return
			}
			if excluded(c, before) {
				return
			}
			if before.Key() == after.Key() {
				return
			}
			m, ok := marked[id]
			if !ok {
				marked[id] = in.mark("L"+loopID+"/"+id, before, after, nil)
				cells[id] = c
				if marked[id].Key() != before.Key() {
					changed = true
				}
				return
			}
			// already marked: non-accumulating parts must be stable
			nm := in.remark("L"+loopID+"/"+id, m, after, c.get(st))
			if nm.Key() != m.Key() {
				unstable[id]++
				if unstable[id] > 6 {
					nm = top("unstable loop-carried value")
				}
				if unstable[id] <= 7 {
					marked[id] = nm
					changed = true
				}
			}
		}
		for _, p := range carried {
			consider(cell{reg: p})
		}
		consider(cell{eff: true})
		for _, k := range sortedKeys(out.heap) {
			if _, ok := st.heap[k]; !ok {
				if s, ok := in.symObj[k]; ok && !perElem[k] {
					if v := in.expandRoot(s); v.Key() != out.heap[k].Key() && !in.underElem(k, body) {
						_ = v
					}
				}
				continue
			}
			consider(cell{heap: k})
		}
		if !changed {
			break
		}
		if n > 12 {
			in.problem("loop %s did not stabilise", loopID)
			break
		}
	}
	cl := &closing{atStart: map[string][]Val{}, atVal: map[string]Val{}}
	var res *State
	if out != nil {
		res = out
		ids := sortedKeys(cells)
		for _, id := range ids {
			c := cells[id]
			o := c.get(out)
			v := in.closeVal(cl, marked[id], o, c.get(st), min, loop, unord)
			c.set(res, v)
		}
		cl.resolve()
		cl.substState(res)
		for i, e := range res.stack {
			ne := Env{}
			for k, v := range e {
				ne[k] = cl.subst(v)
			}
			if i == 0 {
				res.stack = append([]Env{}, res.stack...)
			}
			res.stack[i] = ne
		}
		// facts: keep those that also hold before
		if min == 0 {
			for k, v := range res.facts {
				if w, ok := st.facts[k]; !ok || w != v {
					delete(res.facts, k)
				}
			}
			// registers defined in the body are not visible afterwards
			for k := range res.env {
				if _, ok := st.env[k]; !ok {
					delete(res.env, k)
				}
			}
		}
	} else if min == 0 && body != nil {
		res = nil
	}
	if out == nil {
		// no iteration ever continues: markers denote initial values
		for id, c := range cells {
			in.closeSame(cl, marked[id], c.get(st))
		}
		if min == 0 && body != nil {
			res = st.clone()
		}
	} else if min == 0 && body != nil {
		// zero iterations are covered by closeVal's min == 0 cases
	}
	for i := range exits {
		cl.substState(exits[i].st)
	}
	if fr != nil {
		for _, o := range fr.rets[outcomes0:] {
			cl.substState(o.st)
			for i := range o.vals {
				o.vals[i] = cl.subst(o.vals[i])
			}
		}
	}
	return res, exits
}

func (in *Interp) underElem(k string, body []Val) bool { return true }

// remark updates the marked value after another pass.
func (in *Interp) remark(id string, m, after, initial Val) Val {
	if m.Key() == after.Key() {
		return m
	}
	switch x := m.(type) {
	case *Struct:
		if y, ok := after.(*Struct); ok {
			z, _ := initial.(*Struct)
			f := make([]Val, len(x.F))
			for i := range f {
				var zi Val = x.F[i]
				if z != nil {
					zi = z.F[i]
				}
				if x.F[i].Key() != y.F[i].Key() && zi.Key() == x.F[i].Key() {
					f[i] = in.mark(fmt.Sprintf("%s.%d", id, i), x.F[i], y.F[i], nil)
				} else {
					f[i] = in.remark(fmt.Sprintf("%s.%d", id, i), x.F[i], y.F[i], zi)
				}
			}
			return &Struct{T: x.T, F: f}
		}
	case *LibObj:
		if y, ok := after.(*LibObj); ok {
			f := map[string]Val{}
			z, _ := initial.(*LibObj)
			for k, v := range x.F {
				f[k] = v
				if w, ok := y.F[k]; ok {
					if z != nil && z.F[k] != nil && z.F[k].Key() == v.Key() && v.Key() != w.Key() {
						f[k] = in.mark(id+"."+k, v, w, nil)
					} else {
						f[k] = in.remark(id+"."+k, v, w, nil)
					}
				}
			}
			return &LibObj{x.Kind, f}
		}
	case *LVar:
		return m
	case *Seq:
		if soleLV(x.Items) != nil {
			return m
		}
	case *MapC:
		if soleLV(x.Items) != nil {
			return m
		}
	case *Cat:
		if soleLV(x.Parts) != nil {
			return m
		}
	}
	if containsLV(after, "") && !containsLV(m, "") {
		// value built from other carried cells
		return join(m, after)
	}
	return join(m, after)
}
