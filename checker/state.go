package main

import (
	"fmt"
	"go/types"
	"maps"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env map[ssa.Value]Val

// State is the abstract state at a program point.
type State struct {
	env   Env
	stack []Env // environments of the callers (shared, copied on write)
	heap  map[string]Val
	facts map[string]bool
	eff   []Val // El{Eff}, Rep, AltP, LVar
}

func newState() *State {
	return &State{env: Env{}, heap: map[string]Val{}, facts: map[string]bool{}}
}

func (s *State) clone() *State {
	n := &State{env: maps.Clone(s.env), stack: s.stack, heap: maps.Clone(s.heap), facts: maps.Clone(s.facts), eff: s.eff}
	if n.env == nil {
		n.env = Env{}
	}
	if n.heap == nil {
		n.heap = map[string]Val{}
	}
	if n.facts == nil {
		n.facts = map[string]bool{}
	}
	return n
}

func (s *State) emit(kind, pos string, args ...Val) {
	s.eff = append(append([]Val{}, s.eff...), &El{&Eff{kind, args, pos}})
}

func (in *Interp) joinStates(a, b *State) *State {
	if a == b {
		return a
	}
	n := &State{env: Env{}, heap: map[string]Val{}, facts: map[string]bool{}, stack: a.stack}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			n.env[k] = join(v, w)
		} else if _, ok := k.(deferKey); ok {
			n.env[k] = top("conditional defer")
		}
	}
	for k := range b.env {
		if _, ok := k.(deferKey); ok {
			if _, ok := a.env[k]; !ok {
				n.env[k] = top("conditional defer")
			}
		}
	}
	if len(a.stack) == len(b.stack) {
		for i := range a.stack {
			if reflect.ValueOf(a.stack[i]).Pointer() != reflect.ValueOf(b.stack[i]).Pointer() {
				e := Env{}
				for k, v := range a.stack[i] {
					if w, ok := b.stack[i][k]; ok {
						e[k] = join(v, w)
					}
				}
				st := append([]Env{}, n.stack...)
				st[i] = e
				n.stack = st
			}
		}
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok {
			n.heap[k] = join(v, w)
		} else {
			n.heap[k] = in.joinMissing(k, v)
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = in.joinMissing(k, v)
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && v == w {
			n.facts[k] = v
		}
	}
	n.eff = joinParts(a.eff, b.eff)
	return n
}

// joinMissing joins the object k, present on one side only, with its initial symbolic content.
func (in *Interp) joinMissing(k string, v Val) Val {
	if w, ok := in.initial(k); ok {
		return join(v, w)
	}
	if s, ok := in.symObj[k]; ok {
		return join(v, in.expandRoot(s))
	}
	return v
}

// initial is the content of an object before the analysed command runs.
func (in *Interp) initial(id string) (Val, bool) {
	if v, ok := in.prog.initHeap[id]; ok {
		return v, true
	}
	if strings.HasPrefix(id, "g:") {
		g := in.prog.globals[id]
		if g == nil {
			return nil, false
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		if in.prog.repoPkg[g.Pkg.Pkg] {
			return in.zero(t), true
		}
		return in.externalGlobal(g.String(), t), true
	}
	return nil, false
}

// ---- symbolic inputs ----

type ShapeItem struct {
	Names []string // element class names
	Star  bool     // repeated (generic element)
	Min   int
}

// Ctx is an analysis context: assumptions on the input.
type Ctx struct {
	Name    string
	Vals    map[string]Val
	Shapes  map[string][]ShapeItem
	Nils    map[string]bool
	Dyn     map[string]string
	Rewrite map[string]Val
	Facts   map[string]bool
	Default func(path string, t types.Type) Val
	Edges   map[string]bool                    // atoms that may start or end with blanks and punctuation
	MapOrd  int                                // iterate over maps in insertion order (0), in the opposite order (1), or rotated (2)
	Faults  func(call string, pos string) bool // true: also analyse the failing outcome of that library call
}

func newCtx(name string) *Ctx {
	return &Ctx{Name: name, Vals: map[string]Val{}, Shapes: map[string][]ShapeItem{}, Nils: map[string]bool{},
		Dyn: map[string]string{}, Rewrite: map[string]Val{}, Facts: map[string]bool{}}
}

func fieldKey(st *types.Struct, i int, tag string) (string, bool) {
	f := st.Field(i)
	if tag == "" {
		return f.Name(), true
	}
	t, ok := reflect.StructTag(st.Tag(i)).Lookup(tag)
	n := f.Name()
	if ok {
		p := strings.Split(t, ",")[0]
		if p == "-" {
			return "", false
		}
		if p != "" {
			n = p
		}
	} else if tag == "yaml" {
		n = strings.ToLower(n)
	}
	return n, f.Exported()
}

func (in *Interp) symVal(path string, t types.Type, tag string) Val {
	if v, ok := in.ctx.Vals[path]; ok {
		return v
	}
	if in.ctx.Default != nil {
		if v := in.ctx.Default(path, t); v != nil {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		id := "@" + path
		if _, ok := in.symObj[id]; !ok {
			in.symObj[id] = &Sym{Name: path, T: u.Elem(), Tag: tag}
		}
		if isNil, ok := in.ctx.Nils[path]; ok {
			if isNil {
				return nilV
			}
			return &Ptr{Obj: id}
		}
		return mkAlt(nilV, &Ptr{Obj: id})
	case *types.Slice:
		if isStringType(t) {
			return &Sym{Name: path, T: t}
		}
		shape, ok := in.ctx.Shapes[path]
		if !ok {
			shape = []ShapeItem{{Names: []string{path + "[*]"}, Star: true}}
		}
		var items []Val
		for _, sh := range shape {
			var els []Val
			var opts [][]Val
			for _, n := range sh.Names {
				e := &El{in.elemVal(n, u.Elem(), tag)}
				els = append(els, e)
				opts = append(opts, []Val{e})
			}
			switch {
			case sh.Star && len(els) == 1:
				items = append(items, &Rep{Body: els, Min: sh.Min, Loop: sh.Names[0]})
			case sh.Star:
				items = append(items, &Rep{Body: []Val{&AltP{Opts: opts}}, Min: sh.Min, Loop: sh.Names[0]})
			default:
				items = append(items, els...)
			}
		}
		return &Seq{Items: items, T: t, ID: "sym:" + path}
	case *types.Map:
		id := "@" + path
		in.symObj[id] = &Sym{Name: path, T: t, Tag: tag}
		return &MapRef{id}
	case *types.Interface:
		if d, ok := in.ctx.Dyn[path]; ok {
			if d == "nil" {
				return nilV
			}
			dt := in.typeByName(d)
			if dt == nil {
				in.problem("unknown dynamic type %s for %s", d, path)
				return top("dyn type %s", d)
			}
			return &Iface{dt, in.elemVal(path, dt, tag)}
		}
	}
	return &Sym{Name: path, T: t, Tag: tag}
}

// elemVal is the element named n: like symVal but pointers are never nil unless declared.
func (in *Interp) elemVal(n string, t types.Type, tag string) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := in.ctx.Nils[n]; !ok {
			if v, ok := in.ctx.Vals[n]; ok {
				return v
			}
			id := "@" + n
			if _, ok := in.symObj[id]; !ok {
				in.symObj[id] = &Sym{Name: n, T: p.Elem(), Tag: tag}
			}
			return &Ptr{Obj: id}
		}
	}
	return in.symVal(n, t, tag)
}

func (in *Interp) expandRoot(s *Sym) Val {
	switch u := s.T.Underlying().(type) {
	case *types.Map:
		return &MapC{T: s.T, Items: []Val{&Rep{Body: []Val{&El{&Entry{
			in.symVal(s.Name+".key", u.Key(), s.Tag), in.symVal(s.Name+".val", u.Elem(), s.Tag)}}}, Loop: s.Name}}}
	case *types.Struct:
		return s
	}
	if v, ok := in.ctx.Vals[s.Name]; ok {
		return v
	}
	return in.symVal(s.Name, s.T, s.Tag)
}

// expandStruct makes the fields of a symbolic struct explicit.
func (in *Interp) expandStruct(s *Sym) Val {
	st, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return s
	}
	f := make([]Val, st.NumFields())
	for i := range f {
		f[i] = in.symField(s, st, i)
	}
	return &Struct{T: s.T, F: f}
}

func (in *Interp) symField(s *Sym, st *types.Struct, i int) Val {
	n, ok := fieldKey(st, i, s.Tag)
	if !ok {
		return in.zero(st.Field(i).Type())
	}
	tag := s.Tag
	if st.Field(i).Embedded() && tag == "" {
		return in.symVal(s.Name+"."+n, st.Field(i).Type(), tag)
	}
	return in.symVal(s.Name+"."+n, st.Field(i).Type(), tag)
}

func (in *Interp) zero(t types.Type) Val {
	if k := libKind(t); k != "" {
		switch k {
		case "bytes.Buffer", "strings.Builder":
			return S("")
		}
		return &LibObj{Kind: k, F: map[string]Val{}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return S("")
		case u.Info()&types.IsBoolean != 0:
			return falseV
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsFloat != 0:
			return &Const{V: float64(0)}
		case u.Kind() == types.UntypedNil:
			return nilV
		}
		return nilV
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.zero(u.Field(i).Type())
		}
		return &Struct{T: t, F: f}
	case *types.Array:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = in.zero(u.Elem())
		}
		return &Arr{E: e, T: t}
	case *types.Tuple:
		vs := make([]Val, u.Len())
		for i := range vs {
			vs[i] = in.zero(u.At(i).Type())
		}
		return &Tup{vs}
	}
	return nilV
}

// libKind: library struct types modelled as opaque objects.
func libKind(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch s {
	case "bytes.Buffer", "strings.Builder", "os.File", "bufio.Writer", "sync.Mutex", "sync.RWMutex", "sync.Once",
		"text/template.Template", "bytes.Reader", "strings.Reader", "bufio.Scanner", "bufio.Reader":
		return s
	}
	return ""
}

// ---- memory ----

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, x := range strings.Split(p[1:], "/") {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return r
}

func (in *Interp) root(st *State, id string) (Val, bool) {
	if v, ok := st.heap[id]; ok {
		return v, true
	}
	if v, ok := in.initial(id); ok {
		st.heap[id] = v
		return v, true
	}
	if s, ok := in.symObj[id]; ok {
		v := in.expandRoot(s)
		st.heap[id] = v
		return v, true
	}
	return nil, false
}

func (in *Interp) nav(v Val, i int) Val {
	switch x := v.(type) {
	case *Struct:
		if i < len(x.F) {
			return x.F[i]
		}
	case *Arr:
		if i < len(x.E) {
			return x.E[i]
		}
	case *Sym:
		if st, ok := x.T.Underlying().(*types.Struct); ok && i < st.NumFields() {
			return in.symField(x, st, i)
		}
	case *Alt:
		return mapAlt(x, func(y Val) Val { return in.nav(y, i) })
	case *App:
		if st, ok := x.T.Underlying().(*types.Struct); ok && x.T != nil && i < st.NumFields() {
			return &App{F: "field:" + st.Field(i).Name(), Args: []Val{x}, T: st.Field(i).Type()}
		}
	case *LibObj:
		return top("field of library object %s", x.Kind)
	}
	if isTop(v) {
		return v
	}
	return top("nav %T", v)
}

func (in *Interp) navSet(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Struct:
		f := append([]Val{}, x.F...)
		f[path[0]] = in.navSet(f[path[0]], path[1:], nv)
		return &Struct{T: x.T, F: f}
	case *Arr:
		f := append([]Val{}, x.E...)
		if path[0] < len(f) {
			f[path[0]] = in.navSet(f[path[0]], path[1:], nv)
		}
		return &Arr{E: f, T: x.T}
	case *Sym:
		e := in.expandStruct(x)
		if _, ok := e.(*Struct); ok {
			return in.navSet(e, path, nv)
		}
	case *Alt:
		return mapAlt(x, func(y Val) Val { return in.navSet(y, path, nv) })
	}
	return top("store into %T", v)
}

// SlotPtr is the address of a slice element (or of a field inside it).
type SlotPtr struct {
	S    *Seq
	Idx  Val
	Path string
}

func (p *SlotPtr) Key() string { return "slot:" + p.S.Key() + "[" + p.Idx.Key() + "]" + p.Path }

func (in *Interp) load(fr *frame, st *State, p Val, pos string) Val {
	switch x := p.(type) {
	case *Ptr:
		v, ok := in.root(st, x.Obj)
		if !ok {
			in.problem("load from unknown object %s at %s", x.Obj, pos)
			return top("unknown object")
		}
		for _, i := range splitPath(x.Path) {
			v = in.nav(v, i)
		}
		return v
	case *SlotPtr:
		s := in.currentSeq(st, x.S)
		v := in.seqIndex(st, s, x.Idx, pos)
		for _, i := range splitPath(x.Path) {
			v = in.nav(v, i)
		}
		return v
	case *Alt:
		var r Val
		for _, y := range x.Vals {
			if _, ok := y.(NilV); ok {
				in.panicAt(st, pos, "possible nil dereference", false)
				continue
			}
			r = join(r, in.load(fr, st, y, pos))
		}
		if r == nil {
			return top("nil deref")
		}
		return r
	case NilV:
		in.panicAt(st, pos, "nil dereference", true)
		return nil
	case *Sym:
		if pt, ok := x.T.Underlying().(*types.Pointer); ok {
			return in.symVal(x.Name+".*", pt.Elem(), x.Tag)
		}
	case *App:
		if x.T != nil {
			if pt, ok := x.T.Underlying().(*types.Pointer); ok {
				return &App{F: "deref", Args: []Val{x}, T: pt.Elem()}
			}
		}
	}
	return top("load %T at %s", p, pos)
}

func (in *Interp) store(st *State, p Val, v Val, pos string) bool {
	switch x := p.(type) {
	case *Ptr:
		r, ok := in.root(st, x.Obj)
		if !ok {
			in.problem("store to unknown object %s at %s", x.Obj, pos)
			return true
		}
		st.heap[x.Obj] = in.navSet(r, splitPath(x.Path), v)
		return true
	case *SlotPtr:
		s := in.currentSeq(st, x.S)
		old := in.seqIndex(st, s, x.Idx, pos)
		nv := in.navSet(old, splitPath(x.Path), v)
		ns := in.seqSet(st, s, x.Idx, nv)
		in.replaceSeq(st, s, ns)
		if it := iterOf(x.Idx); it != "" {
			if rec := in.iters[it]; rec != nil {
				rec.slots[seqIdent(s)] = true
				rec.slots[seqIdent(ns)] = true
			}
		}
		return true
	case *Alt:
		live := 0
		for _, y := range x.Vals {
			if _, ok := y.(NilV); ok {
				in.panicAt(st, pos, "possible nil dereference", false)
				continue
			}
			live++
		}
		for _, y := range x.Vals {
			if _, ok := y.(NilV); ok {
				continue
			}
			if live == 1 {
				in.store(st, y, v, pos)
			} else if _, ok := y.(*Ptr); ok {
				old := in.load(nil, st, y, pos)
				in.store(st, y, join(old, v), pos)
			}
		}
		return true
	case NilV:
		in.panicAt(st, pos, "nil dereference", true)
		return false
	}
	in.problem("store through %T at %s", p, pos)
	return true
}

func iterOf(v Val) string {
	b, _ := linView(v)
	if it, ok := b.(*Iter); ok {
		return it.ID
	}
	return ""
}

func seqIdent(s *Seq) string {
	if s.ID != "" {
		return "id:" + s.ID
	}
	return s.Key()
}

// currentSeq finds the current content of a slice with identity.
func (in *Interp) currentSeq(st *State, s *Seq) *Seq {
	if s.ID == "" {
		return s
	}
	if v, ok := st.heap["slice:"+s.ID]; ok {
		if c, ok := v.(*Seq); ok {
			return c
		}
	}
	return s
}

func (in *Interp) replaceSeq(st *State, old, nw *Seq) {
	id := seqIdent(old)
	rep := func(v Val) Val {
		return mapVal(v, func(x Val) Val {
			if s, ok := x.(*Seq); ok && seqIdent(s) == id {
				return nw
			}
			return nil
		})
	}
	for k, v := range st.env {
		if n := rep(v); n != v {
			st.env[k] = n
		}
	}
	for i, e := range st.stack {
		var ne Env
		for k, v := range e {
			if n := rep(v); n != v {
				if ne == nil {
					ne = Env{}
					for a, b := range e {
						ne[a] = b
					}
				}
				ne[k] = n
			}
		}
		if ne != nil {
			st.stack = append([]Env{}, st.stack...)
			st.stack[i] = ne
		}
	}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "slice:") {
			continue
		}
		if n := rep(v); n != v {
			st.heap[k] = n
		}
	}
	if old.ID != "" {
		st.heap["slice:"+old.ID] = nw
	}
}

// seqIndex returns element idx of s.
func (in *Interp) seqIndex(st *State, s *Seq, idx Val, pos string) Val {
	if n, ok := constInt(idx); ok {
		i := int64(0)
		for _, it := range s.Items {
			if e, ok := it.(*El); ok {
				if i == n {
					return e.V
				}
				i++
				continue
			}
			if r, ok := it.(*Rep); ok {
				lo, _ := lenRange(s)
				if lo <= n {
					in.panicAt(st, pos, "possible index out of range", false)
				}
				// element of a repetition at a fixed index: the generic element
				if len(r.Body) == 1 {
					if e, ok := r.Body[0].(*El); ok {
						return e.V
					}
				}
			}
			return in.anyElem(s)
		}
		in.panicAt(st, pos, "index out of range", true)
		return nil
	}
	if b, off := linView(idx); b != nil {
		if it, ok := b.(*Iter); ok {
			rec := in.iters[it.ID]
			if rec != nil && rec.pos != nil && off == 0 {
				if v := partsAt(s.Items, rec.pos); v != nil {
					return v
				}
			}
			if rec != nil && rec.sym {
				return in.symElem(s, idx)
			}
		}
		if l, ok := b.(*LenOf); ok && off == -1 && l.S.Key() == s.Key() {
			if n := len(s.Items); n > 0 {
				if e, ok := s.Items[n-1].(*El); ok {
					return e.V
				}
			}
		}
	}
	lo, _ := lenRange(s)
	_ = lo
	return in.anyElem(s)
}

func (in *Interp) symElem(s *Seq, idx Val) Val { return in.anyElem(s) }

func (in *Interp) anyElem(s *Seq) Val {
	var r Val
	var walk func(ps []Val)
	walk = func(ps []Val) {
		for _, p := range ps {
			switch p := p.(type) {
			case *El:
				r = join(r, p.V)
			case *Rep:
				walk(p.Body)
			case *AltP:
				for _, o := range p.Opts {
					walk(o)
				}
			default:
				r = top("element of unknown sequence")
			}
		}
	}
	walk(s.Items)
	if r == nil {
		return top("element of empty sequence")
	}
	return r
}

func partsAt(ps []Val, pos []int) Val {
	if len(pos) == 0 || pos[0] >= len(ps) {
		return nil
	}
	switch p := ps[pos[0]].(type) {
	case *El:
		if len(pos) == 1 {
			return p.V
		}
	case *Rep:
		return partsAt(p.Body, pos[1:])
	case *AltP:
		if len(pos) > 2 && pos[1] < len(p.Opts) {
			return partsAt(p.Opts[pos[1]], pos[2:])
		}
	}
	return nil
}

func partsSetAt(ps []Val, pos []int, v Val) []Val {
	if len(pos) == 0 || pos[0] >= len(ps) {
		return nil
	}
	out := append([]Val{}, ps...)
	switch p := ps[pos[0]].(type) {
	case *El:
		out[pos[0]] = &El{v}
		return out
	case *Rep:
		b := partsSetAt(p.Body, pos[1:], v)
		if b == nil {
			return nil
		}
		out[pos[0]] = &Rep{Body: b, Min: p.Min, Loop: p.Loop, Unord: p.Unord}
		return out
	case *AltP:
		if len(pos) > 2 && pos[1] < len(p.Opts) {
			b := partsSetAt(p.Opts[pos[1]], pos[2:], v)
			if b == nil {
				return nil
			}
			o := append([][]Val{}, p.Opts...)
			o[pos[1]] = b
			out[pos[0]] = &AltP{Opts: o}
			return out
		}
	}
	return nil
}

func (in *Interp) seqSet(st *State, s *Seq, idx Val, v Val) *Seq {
	if n, ok := constInt(idx); ok {
		i := int64(0)
		for k, it := range s.Items {
			if _, ok := it.(*El); !ok {
				break
			}
			if i == n {
				out := append([]Val{}, s.Items...)
				out[k] = &El{v}
				return &Seq{Items: out, ID: s.ID, T: s.T}
			}
			i++
		}
	}
	if b, off := linView(idx); b != nil && off == 0 {
		if it, ok := b.(*Iter); ok {
			if rec := in.iters[it.ID]; rec != nil && rec.pos != nil {
				if o := partsSetAt(s.Items, rec.pos, v); o != nil {
					return &Seq{Items: o, ID: s.ID, T: s.T}
				}
			}
		}
	}
	// weak update of every element
	var weak func(ps []Val) []Val
	weak = func(ps []Val) []Val {
		var out []Val
		for _, p := range ps {
			switch p := p.(type) {
			case *El:
				out = append(out, &El{join(p.V, v)})
			case *Rep:
				out = append(out, &Rep{Body: weak(p.Body), Min: p.Min, Loop: p.Loop, Unord: p.Unord})
			case *AltP:
				o := [][]Val{}
				for _, x := range p.Opts {
					o = append(o, weak(x))
				}
				out = append(out, &AltP{Opts: o})
			default:
				out = append(out, p)
			}
		}
		return out
	}
	return &Seq{Items: weak(s.Items), ID: s.ID, T: s.T}
}

func (in *Interp) panicAt(st *State, pos, why string, definite bool) {
	k := pos + ": " + why
	if in.panics == nil {
		in.panics = map[string]bool{}
	}
	in.panics[k] = in.panics[k] || definite
}

func (in *Interp) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if in.problems == nil {
		in.problems = map[string]int{}
	}
	in.problems[s]++
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
