package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"
)

// Abstract evaluation of text/template templates.

var tplBuiltins = map[string]any{}

func init() {
	for _, n := range []string{"and", "or", "not", "len", "index", "slice", "print", "printf", "println", "eq", "ne", "lt", "le", "gt", "ge", "html", "js", "urlquery", "call"} {
		tplBuiltins[n] = true
	}
}

type tplVar struct{ name, cell string }

type tplExec struct {
	in    *Interp
	fr    *frame
	trees map[string]*parse.Tree
	funcs map[string]Val
	out   string
	vars  []tvarScope
	nvar  int
	pos   string
	errs  []*State
	depth int
}

type tvarScope = tplVar

// tplFuncs collects the functions registered with Funcs.
func (in *Interp) tplFuncs(st *State, o *LibObj) map[string]Val {
	r := map[string]Val{}
	for k, v := range o.F {
		if !strings.HasPrefix(k, "funcs") {
			continue
		}
		for _, y := range alts(v) {
			mr, ok := y.(*MapRef)
			if !ok {
				continue
			}
			c, _ := in.root(st, mr.Obj)
			mc, ok := c.(*MapC)
			if !ok {
				continue
			}
			for _, it := range mc.Items {
				if e, ok := it.(*El); ok {
					if en, ok := e.V.(*Entry); ok {
						if s, ok := constStr(unwrap(en.K)); ok {
							r[s] = unwrap(en.V)
						}
					}
				}
			}
		}
	}
	return r
}

func (in *Interp) tplTrees(st *State, o *LibObj) (map[string]*parse.Tree, error) {
	text, ok := constStr(o.F["text"])
	if !ok {
		return nil, fmt.Errorf("template text is not constant: %s", render(o.F["text"]))
	}
	fns := map[string]any{}
	for k := range in.tplFuncs(st, o) {
		fns[k] = true
	}
	name, ok := constStr(o.F["name"])
	if !ok || name == "" {
		name = "t"
	}
	m, err := parse.Parse(name, text, "", "", fns, tplBuiltins)
	if err != nil {
		return nil, err
	}
	if m[name] == nil {
		for k, t := range m {
			if k == name || len(m) == 1 {
				m[name] = t
			}
		}
	}
	return m, nil
}

func (in *Interp) checkTemplate(st *State, o *LibObj) error {
	if _, ok := constStr(o.F["text"]); !ok {
		return nil
	}
	_, err := in.tplTrees(st, o)
	return err
}

func (in *Interp) execTemplate(fr *frame, st *State, tpl, w, data Val, site, pos string) []*Outcome {
	_, o := in.objPtr(st, tpl)
	if o == nil {
		in.problem("execution of an unknown template at %s", pos)
		return ret(st, nilV)
	}
	trees, err := in.tplTrees(st, o)
	if err != nil {
		in.problem("template at %s: %v", pos, err)
		return ret(st, in.libErr(S("template error")))
	}
	name, _ := constStr(o.F["name"])
	if name == "" {
		name = "t"
	}
	t := trees[name]
	id := in.allocID("tplout:" + site)
	st.heap[id] = S("")
	e := &tplExec{in: in, fr: fr, trees: trees, funcs: in.tplFuncs(st, o), out: id, pos: pos}
	in.ctxPath = append(in.ctxPath, "tpl:"+site)
	end := st
	if t != nil && t.Root != nil {
		end = e.tree(st, data, t)
	}
	in.ctxPath = in.ctxPath[:len(in.ctxPath)-1]
	var outs []*Outcome
	for _, s := range e.errs {
		outs = append(outs, ret(s, in.libErr(S("template execution failed")))...)
	}
	if end != nil {
		text := end.heap[id]
		delete(end.heap, id)
		end = in.writeTo(fr, end, w, text, pos)
		if in.sinkFails(end, w) && in.fails("io:template.Execute", pos) {
			outs = append(outs, ret(in.failed(end, pos), in.libErr(S("i/o error")))...)
		}
		outs = append(outs, ret(end, nilV)...)
	}
	return outs
}

func (e *tplExec) tree(st *State, data Val, t *parse.Tree) *State {
	saved := e.vars
	e.vars = nil
	e.push(st, "$", data)
	r := e.list(st, data, t.Root)
	e.vars = saved
	return r
}

func (e *tplExec) push(st *State, name string, v Val) {
	e.nvar++
	c := fmt.Sprintf("%s.v%d", e.out, e.nvar)
	e.vars = append(e.vars, tplVar{name, c})
	st.heap[c] = v
}

func (e *tplExec) lookup(st *State, name string) (string, Val) {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if e.vars[i].name == name {
			return e.vars[i].cell, st.heap[e.vars[i].cell]
		}
	}
	return "", top("template variable %s", name)
}

func (e *tplExec) write(st *State, v Val) {
	st.heap[e.out] = concat(st.heap[e.out], v)
}

func (e *tplExec) list(st *State, dot Val, l *parse.ListNode) *State {
	if l == nil {
		return st
	}
	for _, n := range l.Nodes {
		if st == nil {
			return nil
		}
		st = e.node(st, dot, n)
	}
	return st
}

func (e *tplExec) fail(st *State, f string, a ...any) {
	e.errs = append(e.errs, st.clone())
	e.in.panicAt(st, e.pos, "template: "+fmt.Sprintf(f, a...), false)
}

func (e *tplExec) node(st *State, dot Val, n parse.Node) *State {
	in := e.in
	switch x := n.(type) {
	case *parse.TextNode:
		e.write(st, S(string(x.Text)))
		return st
	case *parse.CommentNode:
		return st
	case *parse.ListNode:
		return e.list(st, dot, x)
	case *parse.ActionNode:
		s, v := e.pipe(st, dot, x.Pipe)
		if s == nil {
			return nil
		}
		if len(x.Pipe.Decl) == 0 {
			e.write(s, e.print(s, v))
		}
		return s
	case *parse.IfNode:
		return e.cond(st, dot, x.Pipe, x.List, x.ElseList, false)
	case *parse.WithNode:
		return e.cond(st, dot, x.Pipe, x.List, x.ElseList, true)
	case *parse.RangeNode:
		return e.rangeNode(st, dot, x)
	case *parse.TemplateNode:
		t := e.trees[x.Name]
		if t == nil {
			e.fail(st, "undefined template %s", x.Name)
			return nil
		}
		var d Val = nilV
		s := st
		if x.Pipe != nil {
			s, d = e.pipe(st, dot, x.Pipe)
			if s == nil {
				return nil
			}
		}
		if e.depth > 20 {
			in.problem("template recursion at %s", e.pos)
			return s
		}
		e.depth++
		r := e.tree(s, d, t)
		e.depth--
		return r
	}
	in.problem("template node %T at %s", n, e.pos)
	e.write(st, top("template node %T", n))
	return st
}

func (e *tplExec) print(st *State, v Val) Val {
	return mapAlt(v, func(v Val) Val {
		for {
			if i, ok := v.(*Iface); ok {
				v = i.V
				continue
			}
			if p, ok := v.(*Ptr); ok {
				c := e.in.load(e.fr, st, p, e.pos)
				if c == nil {
					return S("")
				}
				if _, isLib := c.(*LibObj); !isLib {
					v = c
					continue
				}
			}
			break
		}
		if _, ok := v.(NilV); ok {
			return S("<no value>")
		}
		return e.in.text(e.fr, st, v, e.pos)
	})
}

// truthVal is the template truth of a value, as a boolean value.
func (e *tplExec) truthVal(st *State, v Val) Val {
	in := e.in
	return mapAlt(v, func(v Val) Val {
		v = unwrap(v)
		if _, ok := constBool(v); ok {
			return v
		}
		switch x := v.(type) {
		case NilV:
			return falseV
		case *Ptr, *Clo, *Struct, *Arr:
			return trueV
		case *Const:
			if s, ok := x.V.(string); ok {
				return B(s != "")
			}
			if n, ok := x.V.(int64); ok {
				return B(n != 0)
			}
			return B(x.V != float64(0))
		case *Seq:
			lo, hi := lenRange(in.currentSeq(st, x))
			if lo > 0 {
				return trueV
			}
			if hi == 0 {
				return falseV
			}
			return in.app("nonempty", tBool, x)
		case *MapRef:
			c, _ := in.root(st, x.Obj)
			if m, ok := c.(*MapC); ok {
				lo, hi := lenRange(m)
				if lo > 0 {
					return trueV
				}
				if hi == 0 {
					return falseV
				}
				return in.app("nonempty", tBool, m)
			}
		}
		if isBoolVal(v) {
			return v
		}
		if _, ok := strParts(v); ok {
			return not(in.eq(v, S("")))
		}
		if isIntVal(v) {
			return not(in.eq(v, I(0)))
		}
		return in.app("truth", tBool, v)
	})
}

func isBoolVal(v Val) bool {
	var t types.Type
	switch x := v.(type) {
	case *Sym:
		t = x.T
	case *App:
		t = x.T
		switch x.F {
		case "not", "eq", "lt", "le", "and", "or":
			return true
		}
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *tplExec) cond(st *State, dot Val, p *parse.PipeNode, list, els *parse.ListNode, with bool) *State {
	in := e.in
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	s, v := e.pipe(st, dot, p)
	if s == nil {
		return nil
	}
	c := e.truthVal(s, v)
	t, f := in.truth(s, c)
	var ts, fs *State
	switch {
	case t && f:
		in.stats.Undecided++
		in.noteUndecided("template "+p.String(), c)
		ts, fs = s, s.clone()
		e.assume(ts, c, true)
		e.assume(fs, c, false)
	case t:
		in.stats.Decided++
		ts = s
	default:
		in.stats.Decided++
		fs = s
	}
	var r1, r2 *State
	if ts != nil {
		d := dot
		td, tv := dot, v
		if fs != nil {
			td, tv = e.refine(ts, dot, p, v, true)
			d = td
		}
		if with {
			d = tv
		}
		r1 = e.list(ts, d, list)
	}
	if fs != nil {
		d := dot
		if ts != nil {
			d, _ = e.refine(fs, dot, p, v, false)
		}
		r2 = e.list(fs, d, els)
	}
	if r1 == nil {
		return r2
	}
	if r2 == nil {
		return r1
	}
	return in.joinStates(r1, r2)
}

func (e *tplExec) assume(st *State, c Val, truth bool) {
	if a, ok := c.(*App); ok && a.F == "not" {
		st.facts[a.Args[0].Key()] = !truth
	}
	if _, ok := c.(*Alt); !ok {
		st.facts[c.Key()] = truth
	}
}

// refine narrows the value tested by the pipe (dot or a chain of fields of dot) to the tested outcome.
func (e *tplExec) refine(st *State, dot Val, p *parse.PipeNode, v Val, truth bool) (Val, Val) {
	a, ok := v.(*Alt)
	if !ok || len(p.Cmds) != 1 || len(p.Cmds[0].Args) != 1 {
		return dot, v
	}
	var keep []Val
	for _, y := range a.Vals {
		t, f := e.in.truth(st, e.truthVal(st, y))
		if truth && t || !truth && f {
			keep = append(keep, y)
		}
	}
	if len(keep) == 0 {
		return dot, v
	}
	nv := mkAlt(keep...)
	switch x := p.Cmds[0].Args[0].(type) {
	case *parse.DotNode:
		return nv, nv
	case *parse.FieldNode:
		return e.setField(st, dot, x.Ident, v, nv), nv
	case *parse.VariableNode:
		cell, cur := e.lookup(st, x.Ident[0])
		if cell != "" {
			if len(x.Ident) == 1 {
				st.heap[cell] = nv
			} else {
				n := e.setField(st, cur, x.Ident[1:], v, nv)
				st.heap[cell] = n
				if cur != nil && dot != nil && cur.Key() == dot.Key() {
					return n, nv
				}
			}
		}
	}
	return dot, nv
}

func (e *tplExec) setField(st *State, base Val, ids []string, old, nv Val) Val {
	if len(ids) == 0 {
		if base.Key() == old.Key() {
			return nv
		}
		return base
	}
	switch x := base.(type) {
	case *Iface:
		return &Iface{x.T, e.setField(st, x.V, ids, old, nv)}
	case *Ptr:
		c := e.in.load(e.fr, st, x, e.pos)
		if c != nil {
			n := e.setField(st, c, ids, old, nv)
			if n.Key() != c.Key() {
				e.in.store(st, x, n, e.pos)
			}
		}
		return base
	case *Sym:
		if s, ok := e.in.expandStruct(x).(*Struct); ok {
			return e.setField(st, s, ids, old, nv)
		}
	case *Struct:
		u, _ := x.T.Underlying().(*types.Struct)
		for i := 0; u != nil && i < u.NumFields(); i++ {
			if u.Field(i).Name() == ids[0] {
				f := append([]Val{}, x.F...)
				f[i] = e.setField(st, f[i], ids[1:], old, nv)
				return &Struct{T: x.T, F: f}
			}
		}
	}
	return base
}

func (e *tplExec) rangeNode(st *State, dot Val, n *parse.RangeNode) *State {
	in := e.in
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	// the pipe is evaluated without its declarations
	pp := *n.Pipe
	pp.Decl = nil
	s, v := e.pipe(st, dot, &pp)
	if s == nil {
		return nil
	}
	v = unwrap(v)
	if p, ok := v.(*Ptr); ok {
		v = in.load(e.fr, s, p, e.pos)
	}
	var items []Val
	var seq *Seq
	isMap := false
	switch x := v.(type) {
	case *MapRef:
		c, _ := in.root(s, x.Obj)
		if m, ok := c.(*MapC); ok {
			// map iteration in templates is in key order
			its := in.mapItems(m)
			if concrete(its) {
				its = append([]Val{}, its...)
				sort.SliceStable(its, func(i, j int) bool {
					return its[i].(*El).V.Key() < its[j].(*El).V.Key()
				})
			}
			for _, it := range its {
				if r, ok := it.(*Rep); ok && r.Unord {
					it = &Rep{Body: r.Body, Min: r.Min, Loop: "sorted:" + r.Loop}
				}
				items = append(items, it)
			}
			isMap = true
		}
	case *Seq:
		seq = in.currentSeq(s, x)
	default:
		it, ok := in.seqItems(s, v)
		if !ok {
			in.problem("template range over %s at %s", render(v), e.pos)
			it = []Val{&Rep{Body: []Val{&El{top("template range")}}, Loop: "?"}}
		}
		seq = &Seq{Items: it}
	}
	loopID := fmt.Sprintf("%s@tpl%d", in.ctxKey(), n.Pos)
	rec := &iterRec{id: loopID, slots: map[string]bool{}}
	saved := in.iters[loopID]
	in.iters[loopID] = rec
	defer func() { in.iters[loopID] = saved }()
	declare := func(s *State, key, val Val) {
		e.vars = e.vars[:mark]
		switch len(n.Pipe.Decl) {
		case 1:
			e.push(s, n.Pipe.Decl[0].Ident[0], val)
		case 2:
			e.push(s, n.Pipe.Decl[0].Ident[0], key)
			e.push(s, n.Pipe.Decl[1].Ident[0], val)
		}
	}
	for attempt := 0; ; attempt++ {
		start := s.clone()
		if seq != nil {
			items = seq.Items
			rec.seq = seq
		}
		rec.wantFirst, rec.wantLast, rec.atEnd = false, false, false
		nerr := len(e.errs)
		nv := e.nvar
		step := func(s *State, pos []int, idx int64, el Val) (*State, []edge) {
			rec.pos, rec.elem = pos, el
			var key Val = &Iter{loopID}
			val := el
			if idx >= 0 {
				key = I(idx)
			}
			if isMap {
				if en, ok := el.(*Entry); ok {
					key, val = en.K, en.V
				}
			}
			if !isMap && seq != nil {
				if x := partsAt(in.currentSeq(s, seq).Items, pos); x != nil {
					val = x
				}
			}
			e.nvar = nv
			declare(s, key, val)
			return e.list(s, val, n.List), nil
		}
		lo, hi := partsLen(items, func(Val) (int64, int64) { return 0, -1 })
		var empty *State
		if lo == 0 && n.ElseList != nil {
			empty = start.clone()
		}
		var end *State
		if hi != 0 {
			end, _ = in.walkItems(e.fr, start, rec, items, nil, 0, [4]int64{0, 0, 0, 0}, loopID, nil, step)
		} else {
			end = start
		}
		e.vars = e.vars[:mark]
		if (rec.wantLast || rec.wantFirst) && attempt < 4 && seq != nil {
			if ns := splitSeq(seq, rec.wantLast); ns != nil {
				e.errs = e.errs[:nerr]
				in.replaceSeq(s, seq, ns)
				seq = ns
				continue
			}
		}
		if empty != nil {
			empty = e.list(empty, dot, n.ElseList)
			if hi == 0 || end == nil {
				return empty
			}
			if empty != nil {
				end = in.joinStates(end, empty)
			}
		}
		return end
	}
}

func (e *tplExec) pipe(st *State, dot Val, p *parse.PipeNode) (*State, Val) {
	var v Val
	for i, c := range p.Cmds {
		st, v = e.command(st, dot, c, v, i > 0)
		if st == nil {
			return nil, nil
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			cell, _ := e.lookup(st, d.Ident[0])
			if cell != "" {
				st.heap[cell] = v
			}
		} else {
			e.push(st, d.Ident[0], v)
		}
	}
	return st, v
}

func (e *tplExec) command(st *State, dot Val, c *parse.CommandNode, final Val, hasFinal bool) (*State, Val) {
	first := c.Args[0]
	args := func() ([]Val, bool) {
		var vs []Val
		for _, a := range c.Args[1:] {
			var v Val
			st, v = e.operand(st, dot, a)
			if st == nil {
				return nil, false
			}
			vs = append(vs, v)
		}
		if hasFinal {
			vs = append(vs, final)
		}
		return vs, true
	}
	switch x := first.(type) {
	case *parse.IdentifierNode:
		vs, ok := args()
		if !ok {
			return nil, nil
		}
		return e.function(st, x.Ident, vs)
	case *parse.FieldNode, *parse.ChainNode, *parse.VariableNode:
		vs, ok := args()
		if !ok {
			return nil, nil
		}
		switch y := x.(type) {
		case *parse.FieldNode:
			return e.fields(st, dot, y.Ident, vs)
		case *parse.VariableNode:
			_, v := e.lookup(st, y.Ident[0])
			if len(y.Ident) == 1 {
				return st, v
			}
			return e.fields(st, v, y.Ident[1:], vs)
		case *parse.ChainNode:
			s, v := e.operand(st, dot, y.Node)
			if s == nil {
				return nil, nil
			}
			return e.fields(s, v, y.Field, vs)
		}
	}
	return e.operand(st, dot, first)
}

func (e *tplExec) operand(st *State, dot Val, n parse.Node) (*State, Val) {
	switch x := n.(type) {
	case *parse.DotNode:
		return st, dot
	case *parse.NilNode:
		return st, nilV
	case *parse.BoolNode:
		return st, B(x.True)
	case *parse.StringNode:
		return st, S(x.Text)
	case *parse.NumberNode:
		if x.IsInt {
			return st, I(x.Int64)
		}
		return st, &Const{V: x.Float64}
	case *parse.FieldNode:
		return e.fields(st, dot, x.Ident, nil)
	case *parse.VariableNode:
		_, v := e.lookup(st, x.Ident[0])
		if len(x.Ident) == 1 {
			return st, v
		}
		return e.fields(st, v, x.Ident[1:], nil)
	case *parse.ChainNode:
		s, v := e.operand(st, dot, x.Node)
		if s == nil {
			return nil, nil
		}
		return e.fields(s, v, x.Field, nil)
	case *parse.PipeNode:
		return e.pipe(st, dot, x)
	case *parse.IdentifierNode:
		return e.function(st, x.Ident, nil)
	}
	e.in.problem("template operand %T at %s", n, e.pos)
	return st, top("template operand")
}

func (e *tplExec) fields(st *State, v Val, ids []string, args []Val) (*State, Val) {
	for i, id := range ids {
		var as []Val
		if i == len(ids)-1 {
			as = args
		}
		st, v = e.field(st, v, id, as)
		if st == nil {
			return nil, nil
		}
	}
	return st, v
}

func (e *tplExec) field(st *State, v Val, name string, args []Val) (*State, Val) {
	in := e.in
	if a, ok := v.(*Alt); ok {
		var rs *State
		var rv Val
		for i, y := range a.Vals {
			s := st
			if i < len(a.Vals)-1 {
				s = st.clone()
			}
			if _, ok := y.(NilV); ok {
				e.fail(s, "nil pointer evaluating .%s", name)
				continue
			}
			s, r := e.field(s, y, name, args)
			if s == nil {
				continue
			}
			if rs == nil {
				rs, rv = s, r
			} else {
				rs, rv = in.joinStates(rs, s), join(rv, r)
			}
		}
		return rs, rv
	}
	if i, ok := v.(*Iface); ok {
		v = i.V
		if s, r, ok := e.method(st, i.T, v, name, args); ok {
			return s, r
		}
		return e.field(st, v, name, args)
	}
	switch x := v.(type) {
	case NilV:
		e.fail(st, "nil pointer evaluating .%s", name)
		return nil, nil
	case *MapRef:
		c, _ := in.root(st, x.Obj)
		if m, ok := c.(*MapC); ok {
			r, may, mayNot := in.mapGet(st, m, S(name))
			if !may {
				return st, nilV
			}
			if mayNot {
				return st, mkAlt(nilV, r)
			}
			return st, r
		}
	case *Ptr:
		c := in.load(e.fr, st, x, e.pos)
		if c == nil {
			return nil, nil
		}
		if t := valType(c); t != nil {
			if s, r, ok := e.method(st, types.NewPointer(t), x, name, args); ok {
				return s, r
			}
		}
		return e.field(st, c, name, args)
	case *Struct, *Sym, *App:
		t := valType(v)
		if t != nil {
			if s, r, ok := e.method(st, t, v, name, args); ok {
				return s, r
			}
			obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
			if f, ok := obj.(*types.Var); ok && f.Exported() {
				cur := v
				for _, i := range idx {
					for {
						if p, ok := cur.(*Ptr); ok {
							cur = in.load(e.fr, st, p, e.pos)
							if cur == nil {
								return nil, nil
							}
							continue
						}
						break
					}
					cur = in.nav(cur, i)
				}
				return st, cur
			}
			e.fail(st, "can't evaluate field %s in type %s", name, t)
			return nil, nil
		}
	}
	in.problem("template field .%s of %s at %s", name, render(v), e.pos)
	return st, top("template field %s", name)
}

func valType(v Val) types.Type {
	switch x := v.(type) {
	case *Struct:
		return x.T
	case *Sym:
		return x.T
	case *App:
		return x.T
	}
	return nil
}

func (e *tplExec) method(st *State, t types.Type, recv Val, name string, args []Val) (*State, Val, bool) {
	in := e.in
	ms := in.prog.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil, nil, false
	}
	fn := in.prog.ssa.MethodValue(sel)
	if fn == nil {
		return nil, nil, false
	}
	s, v := e.results(in.callStatic(e.fr, st, fn, append([]Val{recv}, args...), nil, "tplm:"+name, e.pos))
	return s, v, true
}

// results joins the outcomes of a function called from a template.
func (e *tplExec) results(os []*Outcome) (*State, Val) {
	var rs *State
	var rv Val
	for _, o := range os {
		if len(o.vals) == 2 {
			if n := nilness(o.vals[1]); n != "nil" {
				e.errs = append(e.errs, o.st.clone())
				if n == "nn" {
					continue
				}
			}
		}
		var v Val = S("")
		if len(o.vals) > 0 {
			v = o.vals[0]
		}
		if rs == nil {
			rs, rv = o.st, v
		} else {
			rs, rv = e.in.joinStates(rs, o.st), join(rv, v)
		}
	}
	return rs, rv
}

func (e *tplExec) function(st *State, name string, args []Val) (*State, Val) {
	in := e.in
	if f, ok := e.funcs[name]; ok {
		var sig *types.Signature
		as := args
		if c, ok := f.(*Clo); ok {
			if c.Fn != nil {
				sig = c.Fn.Signature
			} else if fn := in.prog.anyFn(c.Mod); fn != nil {
				sig = fn.Signature
			}
			if sig != nil && sig.Variadic() {
				k := sig.Params().Len() - 1
				if len(args) >= k {
					var items []Val
					for _, a := range args[k:] {
						items = append(items, &El{unwrap(a)})
					}
					as = append(append([]Val{}, args[:k]...), &Seq{Items: items, T: sig.Params().At(k).Type()})
				}
			}
		}
		for i := range as {
			if sig != nil && i < sig.Params().Len() {
				as[i] = in.toParam(st, as[i], sig.Params().At(i).Type())
			}
		}
		return e.results(in.apply(e.fr, st, f, as, "tplf:"+name, e.pos, sig))
	}
	arg := func(i int) Val {
		if i < len(args) {
			return unwrap(args[i])
		}
		return top("missing template argument")
	}
	switch name {
	case "not":
		return st, not(e.truthVal(st, arg(0)))
	case "and", "or":
		var r Val
		for i, a := range args {
			c := e.truthVal(st, a)
			t, f := in.truth(st, c)
			stop := name == "and" && f || name == "or" && t
			cont := name == "and" && t || name == "or" && f
			last := i == len(args)-1
			if last {
				return st, join(r, a)
			}
			if stop {
				if isBoolVal(a) || isConstBool(a) {
					r = join(r, B(name == "or"))
				} else {
					r = join(r, a)
				}
			}
			if !cont {
				return st, r
			}
		}
		return st, r
	case "eq":
		var r Val = falseV
		for _, b := range args[1:] {
			q := in.eq(arg(0), unwrap(b))
			t, f := in.truth(st, q)
			switch {
			case t && !f:
				return st, trueV
			case !t:
			default:
				if len(args) == 2 {
					return st, q
				}
				r = join(r, q)
			}
		}
		return st, r
	case "ne":
		return st, not(in.eq(arg(0), arg(1)))
	case "lt", "le", "gt", "ge":
		op := map[string]string{"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name]
		return st, in.cmpInt(tokenOf(op), arg(0), arg(1))
	case "len":
		return st, in.length(st, in.deref(st, arg(0)))
	case "index":
		v := in.deref(st, arg(0))
		for i := 1; i < len(args); i++ {
			switch x := v.(type) {
			case *Seq:
				v = in.seqIndex(st, in.currentSeq(st, x), arg(i), e.pos)
			case *MapRef:
				c, _ := in.root(st, x.Obj)
				if m, ok := c.(*MapC); ok {
					r, may, mayNot := in.mapGet(st, m, arg(i))
					v = r
					if !may {
						v = nilV
					} else if mayNot {
						v = mkAlt(nilV, r)
					}
				}
			default:
				v = top("template index")
			}
			if v == nil {
				return nil, nil
			}
		}
		return st, v
	case "print", "println":
		var ps []Val
		for i, a := range args {
			if i > 0 && (name == "println" || !isStr(unwrap(a)) && !isStr(unwrap(args[i-1]))) {
				ps = append(ps, S(" "))
			}
			ps = append(ps, e.print(st, a))
		}
		if name == "println" {
			ps = append(ps, S("\n"))
		}
		return st, concat(ps...)
	case "printf":
		return st, in.sprintf(e.fr, st, arg(0), args[1:], e.pos)
	case "call":
		return e.results(in.apply(e.fr, st, arg(0), args[1:], "tplcall", e.pos, nil))
	}
	return st, in.app("tpl."+name, tString, args...)
}

func isConstBool(v Val) bool { _, ok := constBool(v); return ok }

func (in *Interp) deref(st *State, v Val) Val {
	if p, ok := v.(*Ptr); ok {
		if c := in.load(nil, st, p, ""); c != nil {
			return c
		}
	}
	return v
}

// toParam adapts a template value to a parameter type (reflect's conversions in text/template).
func (in *Interp) toParam(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	if p, ok := v.(*Ptr); ok {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			if c := in.load(nil, st, p, ""); c != nil {
				return c
			}
		}
	}
	return v
}
