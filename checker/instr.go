package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x, fr.in)
	case *ssa.Global:
		return &Ptr{Obj: "g:" + x.String()}
	case *ssa.Function:
		return &Clo{Fn: x}
	case *ssa.Builtin:
		return &Clo{Mod: "builtin." + x.Name()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return top("undefined register %s in %s", v.Name(), fr.fn)
}

func constVal(x *ssa.Const, in *Interp) Val {
	if x.Value == nil {
		return in.zero(x.Type())
	}
	b, _ := x.Type().Underlying().(*types.Basic)
	switch x.Value.Kind() {
	case constant.String:
		return S(constant.StringVal(x.Value))
	case constant.Bool:
		return B(constant.BoolVal(x.Value))
	case constant.Int:
		if b != nil && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(x.Value)
			return &Const{V: f}
		}
		if b != nil && b.Info()&types.IsString != 0 {
			return S(constant.StringVal(x.Value))
		}
		if i, ok := constant.Int64Val(x.Value); ok {
			return I(i)
		}
		u, _ := constant.Uint64Val(x.Value)
		return I(int64(u))
	case constant.Float:
		f, _ := constant.Float64Val(x.Value)
		return &Const{V: f}
	}
	return top("constant %s", x)
}

var posCache, nameCache sync.Map

// nameOf is fn.String(), computed once.
func nameOf(fn *ssa.Function) string {
	if s, ok := nameCache.Load(fn); ok {
		return s.(string)
	}
	s := fn.String()
	nameCache.Store(fn, s)
	return s
}

func (fr *frame) pos(i ssa.Instruction) string {
	if s, ok := posCache.Load(i); ok {
		return s.(string)
	}
	s := fr.pos1(i)
	posCache.Store(i, s)
	return s
}

func (fr *frame) pos1(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
				break
			}
		}
	}
	return fr.in.prog.pos(p) + " (" + fr.fn.Name() + ")"
}

func one(s *State) []*State { return []*State{s} }

func (fr *frame) step(st *State, instr ssa.Instruction) []*State {
	in := fr.in
	switch x := instr.(type) {
	case *ssa.Alloc:
		id := in.allocID(instrID(x))
		st.heap[id] = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		st.env[x] = &Ptr{Obj: id}
	case *ssa.BinOp:
		st.env[x] = in.binop(st, x.Op, fr.val(st, x.X), fr.val(st, x.Y), x.X.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v := in.load(fr, st, fr.val(st, x.X), fr.pos(x))
			if v == nil {
				return nil
			}
			st.env[x] = v
		case token.NOT:
			st.env[x] = not(fr.val(st, x.X))
		case token.SUB:
			v := fr.val(st, x.X)
			if c, ok := v.(*Const); ok {
				switch n := c.V.(type) {
				case int64:
					st.env[x] = I(-n)
				case float64:
					st.env[x] = &Const{V: -n}
				}
			} else {
				st.env[x] = &App{F: "neg", Args: []Val{v}, T: x.Type()}
			}
		default:
			st.env[x] = &App{F: "un" + x.Op.String(), Args: []Val{fr.val(st, x.X)}, T: x.Type()}
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isStringType(ia.X.Type()) {
			fr.storeByte(st, ia, fr.val(st, x.Val), fr.pos(x))
			break
		}
		if !in.store(st, fr.val(st, x.Addr), fr.val(st, x.Val), fr.pos(x)) {
			return nil
		}
	case *ssa.FieldAddr:
		v := fr.fieldAddr(st, fr.val(st, x.X), x.Field, fr.pos(x))
		if v == nil {
			return nil
		}
		st.env[x] = v
	case *ssa.Field:
		st.env[x] = in.nav(fr.val(st, x.X), x.Field)
	case *ssa.IndexAddr:
		v := fr.indexAddr(st, fr.val(st, x.X), fr.val(st, x.Index), fr.pos(x))
		if v == nil {
			return nil
		}
		st.env[x] = v
	case *ssa.Index:
		base := fr.val(st, x.X)
		idx := fr.val(st, x.Index)
		switch b := base.(type) {
		case *Arr:
			if n, ok := constInt(idx); ok && int(n) < len(b.E) {
				st.env[x] = b.E[n]
				break
			}
			var r Val
			for _, e := range b.E {
				r = join(r, e)
			}
			st.env[x] = r
		default:
			st.env[x] = in.stringIndex(st, base, idx, fr.pos(x))
		}
	case *ssa.Slice:
		v := fr.slice(st, x)
		if v == nil {
			return nil
		}
		st.env[x] = v
	case *ssa.MakeSlice:
		id := in.allocID(instrID(x))
		delete(st.heap, "slice:"+id)
		n := fr.val(st, x.Len)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := &El{in.zero(et)}
		var items []Val
		if k, ok := constInt(n); ok {
			for i := int64(0); i < k && i < 1000; i++ {
				items = append(items, z)
			}
		} else if l, ok := n.(*LenOf); ok {
			if s, ok := l.S.(*Seq); ok {
				items = zeroLike(s.Items, z)
			} else {
				items = []Val{&Rep{Body: []Val{z}, Loop: "make"}}
			}
		} else {
			items = []Val{&Rep{Body: []Val{z}, Loop: "make"}}
		}
		if isStringType(x.Type()) {
			if len(items) == 0 {
				st.env[x] = S("")
			} else {
				st.env[x] = top("byte buffer")
			}
		} else {
			st.env[x] = &Seq{Items: items, ID: id, T: x.Type(), NN: true}
		}
	case *ssa.MakeMap:
		id := in.allocID(instrID(x))
		st.heap[id] = &MapC{T: x.Type()}
		st.env[x] = &MapRef{id}
	case *ssa.MapUpdate:
		fr.mapUpdate(st, fr.val(st, x.Map), fr.val(st, x.Key), fr.val(st, x.Value), fr.pos(x))
	case *ssa.Lookup:
		st.env[x] = fr.lookup(st, x)
	case *ssa.MakeInterface:
		v := fr.val(st, x.X)
		st.env[x] = mapAlt(v, func(y Val) Val { return &Iface{x.X.Type(), y} })
	case *ssa.ChangeInterface:
		st.env[x] = fr.val(st, x.X)
	case *ssa.ChangeType:
		v := fr.val(st, x.X)
		if s, ok := v.(*Struct); ok {
			v = &Struct{T: x.Type(), F: s.F}
		}
		st.env[x] = v
	case *ssa.Convert:
		st.env[x] = in.convert(fr.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, fr.val(st, y))
		}
		st.env[x] = &Clo{Fn: x.Fn.(*ssa.Function), Bind: b}
	case *ssa.Extract:
		t := fr.val(st, x.Tuple)
		st.env[x] = mapAlt(t, func(y Val) Val {
			if tp, ok := y.(*Tup); ok && x.Index < len(tp.Vs) {
				return tp.Vs[x.Index]
			}
			if isTop(y) {
				return y
			}
			return top("extract %T", y)
		})
	case *ssa.TypeAssert:
		return fr.typeAssert(st, x)
	case *ssa.Range:
		id := in.ctxKey() + "#" + instrID(x)
		st.env[x] = &RangeIt{fr.val(st, x.X), id}
	case *ssa.Next:
		ri, ok := fr.val(st, x.Iter).(*RangeIt)
		var rec *iterRec
		if ok {
			rec = in.iters["range:"+ri.ID]
		}
		if rec == nil {
			st.env[x] = top("range")
		} else if rec.atEnd {
			st.env[x] = &Tup{[]Val{falseV, top("end"), top("end")}}
		} else if e, ok := rec.elem.(*Entry); ok {
			st.env[x] = &Tup{[]Val{trueV, e.K, e.V}}
		} else {
			st.env[x] = &Tup{[]Val{trueV, top("map key"), top("map value")}}
		}
	case *ssa.Call:
		in.stats.Calls[x] = true
		var outs []*State
		for _, o := range fr.call(st, &x.Call, x) {
			switch len(o.vals) {
			case 0:
				o.st.env[x] = &Tup{}
			case 1:
				o.st.env[x] = o.vals[0]
			default:
				o.st.env[x] = &Tup{o.vals}
			}
			outs = append(outs, o.st)
		}
		if len(outs) > 1 {
			outs = fr.merge2(outs)
		}
		return outs
	case *ssa.Defer:
		// writers' Close/Flush are modelled as no-ops
		name := ""
		if f := x.Call.StaticCallee(); f != nil {
			name = f.String()
		}
		if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
		}
		if !strings.Contains(name, "Close") && !strings.Contains(name, "Flush") && !strings.Contains(name, "Unlock") {
			k := deferKey{d: x}
			if _, ok := st.env[k]; ok {
				in.problem("deferred call in a loop at %s", fr.pos(x))
			}
			vals := []Val{fr.val(st, x.Call.Value)}
			for _, a := range x.Call.Args {
				vals = append(vals, fr.val(st, a))
			}
			st.env[k] = &Tup{vals}
		}
	case *ssa.RunDefers:
		return fr.runDefers(st)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		in.problem("concurrency construct at %s is not analysed", fr.pos(x))
	default:
		in.problem("instruction %T at %s is not analysed", instr, fr.pos(instr))
		if v, ok := instr.(ssa.Value); ok {
			st.env[v] = top("%T", instr)
		}
	}
	return one(st)
}

// merge2 bounds the number of states after a call.
func (fr *frame) merge2(sts []*State) []*State {
	if len(sts) <= maxPartitions {
		return sts
	}
	return []*State{fr.joinAll(sts)}
}

func zeroLike(items []Val, z Val) []Val {
	var out []Val
	for _, i := range items {
		switch x := i.(type) {
		case *El:
			out = append(out, z)
		case *Rep:
			out = append(out, &Rep{Body: zeroLike(x.Body, z), Min: x.Min, Loop: x.Loop})
		case *AltP:
			var o [][]Val
			for _, y := range x.Opts {
				o = append(o, zeroLike(y, z))
			}
			out = append(out, &AltP{Opts: o})
		default:
			out = append(out, &Rep{Body: []Val{z}, Loop: "make"})
		}
	}
	return out
}

func (fr *frame) fieldAddr(st *State, p Val, f int, pos string) Val {
	switch x := p.(type) {
	case *Ptr:
		return &Ptr{Obj: x.Obj, Path: fmt.Sprintf("%s/%d", x.Path, f)}
	case *SlotPtr:
		return &SlotPtr{x.S, x.Idx, fmt.Sprintf("%s/%d", x.Path, f)}
	case NilV:
		fr.in.panicAt(st, pos, "nil dereference", true)
		return nil
	case *Alt:
		var r Val
		for _, y := range x.Vals {
			if _, ok := y.(NilV); ok {
				fr.in.panicAt(st, pos, "possible nil dereference", false)
				continue
			}
			r = join(r, fr.fieldAddr(st, y, f, pos))
		}
		if r == nil {
			return nil
		}
		return r
	case *Sym, *App:
		// pointer of unknown origin: an object of its own
		id := "@" + strings.TrimPrefix(p.Key(), "$")
		if _, ok := fr.in.symObj[id]; !ok {
			var t types.Type
			name := p.Key()
			if s, ok := p.(*Sym); ok {
				t = s.T
				name = s.Name
			} else {
				t = p.(*App).T
			}
			if t == nil {
				return top("field of %s", p.Key())
			}
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return top("field of non-pointer %s", p.Key())
			}
			fr.in.symObj[id] = &Sym{Name: name, T: pt.Elem()}
		}
		return &Ptr{Obj: id, Path: fmt.Sprintf("/%d", f)}
	}
	return top("field address of %T", p)
}

func (fr *frame) indexAddr(st *State, base, idx Val, pos string) Val {
	switch x := base.(type) {
	case *Ptr:
		if n, ok := constInt(idx); ok {
			return &Ptr{Obj: x.Obj, Path: fmt.Sprintf("%s/%d", x.Path, n)}
		}
		v := fr.in.load(fr, st, x, pos)
		if a, ok := v.(*Arr); ok {
			var r Val
			for i := range a.E {
				r = join(r, &Ptr{Obj: x.Obj, Path: fmt.Sprintf("%s/%d", x.Path, i)})
			}
			return r
		}
		return top("array element")
	case *Seq:
		if n, ok := constInt(idx); ok {
			lo, hi := lenRange(x)
			if hi >= 0 && n >= hi {
				fr.in.panicAt(st, pos, "index out of range", true)
				return nil
			}
			if n >= lo {
				fr.in.panicAt(st, pos, "possible index out of range", false)
			}
		}
		return &SlotPtr{S: x, Idx: idx}
	case NilV:
		fr.in.panicAt(st, pos, "index of nil slice", true)
		return nil
	case *Alt:
		return mapAlt(x, func(y Val) Val {
			r := fr.indexAddr(st, y, idx, pos)
			if r == nil {
				return nilV
			}
			return r
		})
	}
	if p, ok := strParts(base); ok {
		_ = p
		id := fr.in.allocID("byteidx")
		st.heap[id] = fr.in.stringIndex(st, base, idx, pos)
		return &Ptr{Obj: id}
	}
	return top("index of %T", base)
}

// storeByte writes into a byte or rune slice. Such slices are values here, so a write is followed only where the
// slice was made in this function and nothing else can share it.
func (fr *frame) storeByte(st *State, ia *ssa.IndexAddr, v Val, pos string) {
	in := fr.in
	base := fr.val(st, ia.X)
	own := false
	switch r := ia.X.(type) {
	case *ssa.Convert, *ssa.MakeSlice:
		own = fr.info.loopOf[ia.Block()] == nil
		for _, u := range *ia.X.Referrers() {
			switch u := u.(type) {
			case *ssa.IndexAddr, *ssa.Convert, *ssa.DebugRef:
			case *ssa.Call:
				_, own2 := u.Call.Value.(*ssa.Builtin)
				own = own && own2
			default:
				own = false
			}
		}
		_ = r
	}
	i, iok := constInt(fr.val(st, ia.Index))
	c, cok := constInt(v)
	if own && iok && cok && i >= 0 && c >= 0 && c < 128 {
		if s, ok := constStr(base); ok && i < int64(len(s)) && isASCII(s) {
			st.env[ia.X] = S(s[:i] + string(rune(c)) + s[i+1:])
			return
		}
	}
	st.env[ia.X] = top("written bytes")
	if !own {
		in.problem("%s: a write into a byte slice that others may share", pos)
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (in *Interp) stringIndex(st *State, base, idx Val, pos string) Val {
	if s, ok := constStr(base); ok {
		if n, ok := constInt(idx); ok {
			if n >= 0 && int(n) < len(s) {
				return I(int64(s[n]))
			}
			in.panicAt(st, pos, "string index out of range", true)
			return top("out of range")
		}
	}
	return &App{F: "byteAt", Args: []Val{base, idx}, T: types.Typ[types.Byte]}
}

func (fr *frame) slice(st *State, x *ssa.Slice) Val {
	in := fr.in
	base := fr.val(st, x.X)
	var lo, hi Val
	if x.Low != nil {
		lo = fr.val(st, x.Low)
	}
	if x.High != nil {
		hi = fr.val(st, x.High)
	}
	id := in.allocID(instrID(x))
	if p, ok := base.(*Ptr); ok {
		v := in.load(fr, st, p, fr.pos(x))
		if a, ok := v.(*Arr); ok {
			var items []Val
			for _, e := range a.E {
				items = append(items, &El{e})
			}
			if isStringType(x.Type()) {
				text := ""
				for _, e := range a.E {
					n, ok := constInt(e)
					if !ok || n < 0 || n > 127 {
						return top("byte array")
					}
					text += string(rune(n))
				}
				if lo != nil || hi != nil {
					return in.substr(st, S(text), lo, hi, fr.pos(x))
				}
				return S(text)
			}
			base = &Seq{Items: items, T: x.Type(), ID: id, NN: true}
			delete(st.heap, "slice:"+id)
		}
	}
	if lo == nil && hi == nil {
		return base
	}
	return mapAlt(base, func(b Val) Val {
		switch s := b.(type) {
		case *Seq:
			return &Seq{Items: sliceItems(in, st, s, lo, hi, fr.pos(x)), T: s.T, NN: s.NN}
		case NilV:
			return b
		}
		return in.substr(st, b, lo, hi, fr.pos(x))
	})
}

func sliceItems(in *Interp, st *State, s *Seq, lo, hi Val, pos string) []Val {
	items := s.Items
	if lo != nil {
		n, ok := constInt(lo)
		if !ok {
			return []Val{top("subsequence")}
		}
		for n > 0 && len(items) > 0 {
			if _, ok := items[0].(*El); !ok {
				if r, ok := items[0].(*Rep); ok && n == 1 {
					// tail of a repetition
					m := 0
					items = append([]Val{&Rep{Body: r.Body, Min: m, Loop: r.Loop, Unord: r.Unord}}, items[1:]...)
					n = 0
					break
				}
				return []Val{top("subsequence")}
			}
			items = items[1:]
			n--
		}
		if n > 0 {
			in.panicAt(st, pos, "slice bounds out of range", true)
		}
	}
	if hi != nil {
		base, off := linView(hi)
		if base == nil {
			n := off
			if lo != nil {
				l, _ := constInt(lo)
				n -= l
			}
			var out []Val
			for _, it := range items {
				if n <= 0 {
					break
				}
				if _, ok := it.(*El); !ok {
					return []Val{top("subsequence")}
				}
				out = append(out, it)
				n--
			}
			return out
		}
		if l, ok := base.(*LenOf); ok && l.S.Key() == s.Key() && off <= 0 {
			for off < 0 && len(items) > 0 {
				if _, ok := items[len(items)-1].(*El); !ok {
					return []Val{top("subsequence")}
				}
				items = items[:len(items)-1]
				off++
			}
			return items
		}
		return []Val{top("subsequence")}
	}
	return items
}

// substr slices a string value.
func (in *Interp) substr(st *State, b, lo, hi Val, pos string) Val {
	l, lok := int64(0), true
	if lo != nil {
		l, lok = constInt(lo)
	}
	if s, ok := constStr(b); ok && lok {
		h := int64(len(s))
		hok := true
		if hi != nil {
			h, hok = constInt(hi)
		}
		if hok {
			if l < 0 || h > int64(len(s)) || l > h {
				in.panicAt(st, pos, "slice bounds out of range", true)
				return top("bounds")
			}
			return S(s[l:h])
		}
	}
	ps, ok := strParts(b)
	if !ok {
		return top("substring of %T", b)
	}
	// strip a constant prefix
	if lok && l > 0 {
		rest := l
		q := append([]Val{}, ps...)
		for rest > 0 && len(q) > 0 {
			c, ok := q[0].(*Const)
			if !ok {
				break
			}
			s := c.V.(string)
			if int64(len(s)) <= rest {
				rest -= int64(len(s))
				q = q[1:]
			} else {
				q[0] = S(s[rest:])
				rest = 0
			}
		}
		if rest == 0 {
			ps, l = q, 0
			if hi != nil {
				if c, ok := constInt(hi); ok {
					hi = I(c - func() int64 { x, _ := constInt(lo); return x }())
				}
			}
		}
	}
	if lok && l == 0 && hi == nil {
		return mkCat(ps...)
	}
	// strip a constant suffix: hi = len(b) - k
	if hi != nil && lok && l == 0 {
		if base, off := linView(hi); base != nil {
			if ln, ok := base.(*LenOf); ok && ln.S.Key() == b.Key() && off < 0 {
				q := append([]Val{}, ps...)
				rest := -off
				for rest > 0 && len(q) > 0 {
					c, ok := q[len(q)-1].(*Const)
					if !ok {
						break
					}
					s := c.V.(string)
					if int64(len(s)) <= rest {
						rest -= int64(len(s))
						q = q[:len(q)-1]
					} else {
						q[len(q)-1] = S(s[:int64(len(s))-rest])
						rest = 0
					}
				}
				if rest == 0 {
					return mkCat(q...)
				}
			}
		}
	}
	// cut at positions known as lengths of leading parts
	if before, ok := cutAt(ps, hi, false); ok {
		if r, ok := cutAt(before, lo, true); ok {
			return mkCat(r...)
		}
	}
	var a, z Val = I(0), S("end")
	if lo != nil {
		a = lo
	}
	if hi != nil {
		z = hi
	}
	return &App{F: "substr", Args: []Val{b, a, z}, T: types.Typ[types.String]}
}

// cutAt gives the parts before or after a position that is the length of leading parts plus a constant.
func cutAt(ps []Val, pos Val, after bool) ([]Val, bool) {
	if pos == nil {
		return ps, true
	}
	base, off := linView(pos)
	rest := append([]Val{}, ps...)
	var head []Val
	if base != nil {
		ln, ok := base.(*LenOf)
		if !ok {
			return nil, false
		}
		lead, ok := strParts(ln.S)
		if !ok {
			return nil, false
		}
		for _, p := range lead {
			if len(rest) == 0 {
				return nil, false
			}
			head = append(head, p)
			if c, ok := p.(*Const); ok {
				d, ok := rest[0].(*Const)
				if !ok || !strings.HasPrefix(d.V.(string), c.V.(string)) {
					return nil, false
				}
				if t := strings.TrimPrefix(d.V.(string), c.V.(string)); t != "" {
					rest[0] = S(t)
				} else {
					rest = rest[1:]
				}
				continue
			}
			switch p.(type) {
			case *Rep, *AltP:
				return nil, false
			}
			if p.Key() != rest[0].Key() {
				return nil, false
			}
			rest = rest[1:]
		}
	}
	for off > 0 {
		if len(rest) == 0 {
			return nil, false
		}
		c, ok := rest[0].(*Const)
		if !ok {
			return nil, false
		}
		s := c.V.(string)
		n := min(int64(len(s)), off)
		head = append(head, S(s[:n]))
		off -= n
		if s = s[n:]; s != "" {
			rest[0] = S(s)
		} else {
			rest = rest[1:]
		}
	}
	for off < 0 {
		if len(head) == 0 {
			return nil, false
		}
		c, ok := head[len(head)-1].(*Const)
		if !ok {
			return nil, false
		}
		s := c.V.(string)
		n := min(int64(len(s)), -off)
		rest = append([]Val{S(s[int64(len(s))-n:])}, rest...)
		off += n
		if s = s[:int64(len(s))-n]; s != "" {
			head[len(head)-1] = S(s)
		} else {
			head = head[:len(head)-1]
		}
	}
	if after {
		return rest, true
	}
	return head, true
}

func (fr *frame) mapUpdate(st *State, m, k, v Val, pos string) {
	in := fr.in
	switch x := m.(type) {
	case *MapRef:
		c, _ := in.root(st, x.Obj)
		mc, ok := c.(*MapC)
		if !ok {
			st.heap[x.Obj] = top("map update of %T", c)
			return
		}
		st.heap[x.Obj] = in.mapPut(st, mc, k, v)
	case *Alt:
		for _, y := range x.Vals {
			if r, ok := y.(*MapRef); ok {
				c, _ := in.root(st, r.Obj)
				if mc, ok := c.(*MapC); ok {
					st.heap[r.Obj] = join(mc, in.mapPut(st, mc, k, v))
				}
			}
		}
	case NilV:
		in.panicAt(st, pos, "assignment to entry in nil map", true)
	}
}

func (in *Interp) mapPut(st *State, m *MapC, k, v Val) *MapC {
	if a, ok := k.(*Alt); ok {
		var r Val
		for _, y := range a.Vals {
			r = join(r, in.mapPut(st, m, y, v))
		}
		return r.(*MapC)
	}
	var out []Val
	found := false
	kk := k.Key()
	for _, it := range m.Items {
		if e, ok := it.(*El); ok {
			if e.V.(*Entry).K.Key() == kk {
				out = append(out, &El{&Entry{k, v}})
				found = true
				continue
			}
		}
		// an option holding exactly this key is overwritten
		if a, ok := it.(*AltP); ok {
			all := true
			for _, o := range a.Opts {
				for _, p := range o {
					if e, ok := p.(*El); !ok || e.V.(*Entry).K.Key() != kk {
						all = false
					}
				}
			}
			if all {
				continue
			}
		}
		if r, ok := it.(*Rep); ok && len(r.Body) == 1 {
			if e, ok := r.Body[0].(*El); ok && e.V.(*Entry).K.Key() == kk {
				// overwrites the entry of the focus element
				continue
			}
		}
		out = append(out, it)
	}
	if !found {
		out = append(out, &El{&Entry{k, v}})
	}
	var del []Val
	for _, d := range m.Deleted {
		if d.Key() != kk {
			del = append(del, d)
		}
	}
	return &MapC{Items: out, T: m.T, Deleted: del}
}

// mapGet returns the possible values for key k and whether it may be present / absent.
func (in *Interp) mapGet(st *State, m *MapC, k Val) (v Val, may, mayNot bool) {
	for _, d := range m.Deleted {
		if d.Key() == k.Key() {
			return nil, false, true
		}
	}
	if a, ok := k.(*Alt); ok {
		for _, y := range a.Vals {
			w, p, q := in.mapGet(st, m, y)
			if p {
				v = join(v, w)
			}
			may, mayNot = may || p, mayNot || q
		}
		return
	}
	// exact match dominates
	must := false
	var scan func(ps []Val, certain bool)
	scan = func(ps []Val, certain bool) {
		for _, p := range ps {
			if must {
				return
			}
			switch p := p.(type) {
			case *El:
				e := p.V.(*Entry)
				t, f := in.truth(st, in.eq(e.K, k))
				if t && !f && certain {
					v, may, must = e.V, true, true
				} else if t {
					v = join(v, e.V)
					may = true
				}
			case *Rep:
				scan(p.Body, certain && (p.Min > 0 || true))
			case *AltP:
				hit := 0
				for _, o := range p.Opts {
					b := may
					may = false
					scan(o, false)
					if may {
						hit++
					}
					may = may || b
				}
			default:
				v = join(v, top("map value"))
				may = true
			}
		}
	}
	scan(m.Items, true)
	return v, may, !must
}

func (fr *frame) lookup(st *State, x *ssa.Lookup) Val {
	in := fr.in
	m := fr.val(st, x.X)
	k := fr.val(st, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return in.stringIndex(st, m, k, fr.pos(x))
	}
	z := in.zero(mt.Elem())
	get := func(m Val) Val {
		var v Val
		may, mayNot := false, false
		switch y := m.(type) {
		case *MapRef:
			c, _ := in.root(st, y.Obj)
			if mc, ok := c.(*MapC); ok {
				v, may, mayNot = in.mapGet(st, mc, k)
			} else {
				v, may, mayNot = top("map content"), true, true
			}
		case NilV:
			mayNot = true
		case *App, *Sym:
			if !x.CommaOk {
				return &App{F: "mapget", Args: []Val{m, k}, T: mt.Elem()}
			}
			v, may, mayNot = &App{F: "mapget", Args: []Val{m, k}, T: mt.Elem()}, true, true
		default:
			v, may, mayNot = top("map %T", m), true, true
		}
		if !x.CommaOk {
			switch {
			case may && mayNot:
				return join(v, z)
			case may:
				return v
			}
			return z
		}
		switch {
		case may && mayNot:
			return mkAlt(&Tup{[]Val{v, trueV}}, &Tup{[]Val{z, falseV}})
		case may:
			return &Tup{[]Val{v, trueV}}
		}
		return &Tup{[]Val{z, falseV}}
	}
	return mapAlt(m, get)
}

func (fr *frame) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	in := fr.in
	v := fr.val(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var yes, no Val
	for _, a := range alts(v) {
		switch y := a.(type) {
		case *Iface:
			ok := false
			if toIface {
				ok = types.Implements(y.T, x.AssertedType.Underlying().(*types.Interface))
			} else {
				ok = types.Identical(y.T, x.AssertedType)
			}
			if ok {
				if toIface {
					yes = join(yes, y)
				} else {
					yes = join(yes, y.V)
				}
			} else {
				no = join(no, y)
				if e, isErr := y.V.(*App); isErr && e.F == "liberr" {
					yes = join(yes, &App{F: "assert:" + x.AssertedType.String(), Args: []Val{a}, T: x.AssertedType})
				}
			}
		case NilV:
			no = join(no, y)
		default:
			w := &App{F: "assert:" + x.AssertedType.String(), Args: []Val{a}, T: x.AssertedType}
			yes = join(yes, w)
			no = join(no, a)
		}
	}
	z := in.zero(x.AssertedType)
	if x.CommaOk {
		var r []*State
		if yes != nil && no != nil {
			s2 := st.clone()
			st.env[x] = &Tup{[]Val{yes, trueV}}
			s2.env[x] = &Tup{[]Val{z, falseV}}
			return []*State{st, s2}
		}
		if yes != nil {
			st.env[x] = &Tup{[]Val{yes, trueV}}
		} else {
			st.env[x] = &Tup{[]Val{z, falseV}}
		}
		r = append(r, st)
		return r
	}
	if no != nil {
		in.panicAt(st, fr.pos(x), "type assertion may fail", yes == nil)
	}
	if yes == nil {
		return nil
	}
	st.env[x] = yes
	return one(st)
}

func (in *Interp) convert(v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if isStringType(to) && isStringType(from) {
		if _, ok := v.(NilV); ok {
			return S("")
		}
		return v
	}
	return mapAlt(v, func(v Val) Val {
		if fok && tok {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if n, ok := constInt(v); ok {
					return I(wrapInt(n, tb.Kind()))
				}
				if narrower(tb.Kind(), fb.Kind()) {
					if s, ok := v.(*Sym); ok && s.Gen {
						return v // a generic size is assumed to fit
					}
				}
				return v
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				if n, ok := constInt(v); ok {
					return S(string(rune(n)))
				}
				return &App{F: "runeString", Args: []Val{v}, T: to}
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
				if n, ok := constInt(v); ok {
					return &Const{V: float64(n)}
				}
			}
			if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
				if c, ok := v.(*Const); ok {
					return I(int64(c.V.(float64)))
				}
			}
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				return v
			}
		}
		if _, ok := to.Underlying().(*types.Slice); ok && isStringType(from) {
			if s, ok := constStr(v); ok {
				var items []Val
				for _, r := range s {
					items = append(items, &El{I(int64(r))})
				}
				return &Seq{Items: items, T: to}
			}
			return &App{F: "runes", Args: []Val{v}, T: to}
		}
		if isStringType(to) {
			if s, ok := v.(*Seq); ok && concrete(s.Items) {
				out := ""
				for _, it := range s.Items {
					n, ok := constInt(it.(*El).V)
					if !ok {
						return &App{F: "string", Args: []Val{v}, T: to}
					}
					out += string(rune(n))
				}
				return S(out)
			}
			return &App{F: "string", Args: []Val{v}, T: to}
		}
		return &App{F: "conv:" + to.String(), Args: []Val{v}, T: to}
	})
}

func narrower(a, b types.BasicKind) bool { return a != b }

func wrapInt(n int64, k types.BasicKind) int64 {
	switch k {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func not(v Val) Val {
	return mapAlt(v, func(v Val) Val {
		if b, ok := constBool(v); ok {
			return B(!b)
		}
		if a, ok := v.(*App); ok && a.F == "not" {
			return a.Args[0]
		}
		return &App{F: "not", Args: []Val{v}, T: types.Typ[types.Bool]}
	})
}

// eq is the abstract equality test.
func (in *Interp) eq(a, b Val) Val {
	if x, ok := a.(*Alt); ok {
		return mapAlt(x, func(y Val) Val { return in.eq(y, b) })
	}
	if y, ok := b.(*Alt); ok {
		return mapAlt(y, func(z Val) Val { return in.eq(a, z) })
	}
	unknown := func() Val {
		ka, kb := a.Key(), b.Key()
		if ka > kb {
			a, b = b, a
		}
		return &App{F: "eq", Args: []Val{a, b}, T: types.Typ[types.Bool]}
	}
	if isTop(a) || isTop(b) {
		return unknown()
	}
	if ca, ok := a.(*Const); ok {
		if cb, ok := b.(*Const); ok {
			return B(ca.V == cb.V)
		}
	}
	if a.Key() == b.Key() {
		return trueV
	}
	an, bn := nilness(a), nilness(b)
	_, aIsNil := a.(NilV)
	_, bIsNil := b.(NilV)
	if aIsNil || bIsNil {
		o := a
		if aIsNil {
			o = b
		}
		if s, ok := o.(*Seq); ok {
			lo, _ := lenRange(s)
			if lo > 0 || s.NN {
				return falseV
			}
			return unknown()
		}
		if a2, ok := o.(*App); ok {
			if a2.F == "error" || a2.F == "errorf" || a2.F == "liberr" {
				return falseV
			}
			return unknown()
		}
		if an == "nn" && bIsNil || bn == "nn" && aIsNil {
			return falseV
		}
		return unknown()
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return B(x.Key() == y.Key())
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			for _, z := range []Val{x.V, y.V} {
				if e, isErr := z.(*App); isErr && e.F == "liberr" {
					return unknown()
				}
			}
			if !types.Identical(x.T, y.T) {
				return falseV
			}
			return in.eq(x.V, y.V)
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			res := Val(trueV)
			for i := range x.F {
				res = andV(res, in.eq(x.F[i], y.F[i]))
			}
			return res
		}
	}
	// strings
	pa, ok1 := strParts(a)
	pb, ok2 := strParts(b)
	if ok1 && ok2 && (isStr(a) || isStr(b)) {
		_, ma, mb, _ := factor(pa, pb)
		// strip constant prefixes
		for len(ma) > 0 && len(mb) > 0 {
			c1, k1 := ma[0].(*Const)
			c2, k2 := mb[0].(*Const)
			if !k1 || !k2 {
				break
			}
			s1, s2 := c1.V.(string), c2.V.(string)
			n := 0
			for n < len(s1) && n < len(s2) && s1[n] == s2[n] {
				n++
			}
			if n < len(s1) && n < len(s2) {
				return falseV
			}
			if n == 0 {
				break
			}
			ma = append([]Val{S(s1[n:])}, ma[1:]...)
			mb = append([]Val{S(s2[n:])}, mb[1:]...)
			if s1[n:] == "" {
				ma = ma[1:]
			}
			if s2[n:] == "" {
				mb = mb[1:]
			}
		}
		x, y := mkCat(ma...), mkCat(mb...)
		if x.Key() == y.Key() {
			return trueV
		}
		lo1, _ := lenRange(x)
		lo2, _ := lenRange(y)
		if len(ma) == 0 && lo2 > 0 || len(mb) == 0 && lo1 > 0 {
			return falseV
		}
		_, xc := constStr(x)
		_, yc := constStr(y)
		if xc && isGeneric(y) || yc && isGeneric(x) {
			if xc {
				in.noteEq(y, x)
			} else {
				in.noteEq(x, y)
			}
			return falseV
		}
		sx, okx := x.(*Sym)
		sy, oky := y.(*Sym)
		if okx && oky && sx.Gen && sy.Gen {
			in.noteLit("pair", sx, sy.Name)
			return falseV
		}
		if okx && sx.Gen || oky && sy.Gen {
			// generic atom against a compound containing another generic atom
			if okx && sx.Gen && isGeneric(y) && !containsSym(y, sx.Name) || oky && sy.Gen && isGeneric(x) && !containsSym(x, sy.Name) {
				return falseV
			}
		}
		return unknown()
	}
	// integers
	if r := in.cmpInt(token.EQL, a, b); r != nil {
		return r
	}
	return unknown()
}

// noteEq records an equality test of a generic value (perhaps under string functions) with a literal.
func (in *Interp) noteEq(v, lit Val) {
	l, _ := constStr(lit)
	in.noteLit("eq", v, l)
}

func isStr(v Val) bool {
	switch x := v.(type) {
	case *Const:
		_, ok := x.V.(string)
		return ok
	case *Cat:
		return true
	case *Sym:
		return isStringType(x.T)
	case *App:
		return isStringType(x.T)
	}
	return false
}

func containsSym(v Val, name string) bool {
	f := false
	mapVal(v, func(x Val) Val {
		if s, ok := x.(*Sym); ok && s.Name == name {
			f = true
		}
		return nil
	})
	return f
}

func andV(a, b Val) Val {
	if x, ok := constBool(a); ok {
		if !x {
			return falseV
		}
		return b
	}
	if x, ok := constBool(b); ok {
		if !x {
			return falseV
		}
		return a
	}
	return &App{F: "and", Args: []Val{a, b}, T: types.Typ[types.Bool]}
}

// intRange gives bounds of an integer value (ok false: unknown).
func (in *Interp) intRange(v Val) (lo, hi int64, loOK, hiOK bool) {
	if n, ok := constInt(v); ok {
		return n, n, true, true
	}
	switch x := v.(type) {
	case *Lin:
		l, h, a, b := in.intRange(x.Base)
		return l + x.Off, h + x.Off, a, b
	case *LenOf:
		l, h := lenRange(x.S)
		return l, h, true, h >= 0
	case *Sym:
		if x.Pos {
			return 1, 0, true, false
		}
		if b, ok := x.T.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return 0, 0, true, false
		}
	case *App:
		switch x.F {
		case "seqno", "seqend":
			l, _, ok, _ := in.intRange(x.Args[0])
			if k, ok2 := constInt(x.Args[1]); ok2 && ok && k > 0 {
				return l, 0, true, false
			}
		}
	}
	return 0, 0, false, false
}

func (in *Interp) cmpInt(op token.Token, a, b Val) Val {
	// iteration variables
	ba, oa := linView(a)
	bb, ob := linView(b)
	if it, ok := ba.(*Iter); ok {
		return in.cmpIter(op, it, oa, bb, ob)
	}
	if it, ok := bb.(*Iter); ok {
		return in.cmpIter(flip(op), it, ob, ba, oa)
	}
	if ba != nil && bb != nil && ba.Key() == bb.Key() {
		return cmpConst(op, oa, ob)
	}
	l1, h1, a1, b1 := in.intRange(a)
	l2, h2, a2, b2 := in.intRange(b)
	if r := cmpRange(op, l1, h1, a1, b1, l2, h2, a2, b2); r != nil {
		return r
	}
	// a known position against the length of the sequence being walked
	for k := 0; k < 2; k++ {
		if n, ok := constInt(a); ok {
			if l, ok := bb.(*LenOf); ok {
				for _, id := range sortedKeys(in.iters) {
					rec := in.iters[id]
					if rec == nil || rec.pos == nil || rec.seq == nil || rec.idx < 0 || rec.idx != n {
						continue
					}
					if s, ok := l.S.(*Seq); ok && (s.Key() == rec.seq.Key() || seqIdent(s) == seqIdent(rec.seq)) {
						return in.cmpIter(op, &Iter{id}, 0, bb, ob)
					}
				}
			}
		}
		a, b, ba, bb, oa, ob, op = b, a, bb, ba, ob, oa, flip(op)
	}
	return nil
}

func cmpRange(op token.Token, l1, h1 int64, a1, b1 bool, l2, h2 int64, a2, b2 bool) Val {
	lt := b1 && a2 && h1 < l2
	le := b1 && a2 && h1 <= l2
	gt := a1 && b2 && l1 > h2
	ge := a1 && b2 && l1 >= h2
	switch op {
	case token.LSS:
		if lt {
			return trueV
		}
		if ge {
			return falseV
		}
	case token.LEQ:
		if le {
			return trueV
		}
		if gt {
			return falseV
		}
	case token.GTR:
		if gt {
			return trueV
		}
		if le {
			return falseV
		}
	case token.GEQ:
		if ge {
			return trueV
		}
		if lt {
			return falseV
		}
	case token.EQL:
		if lt || gt {
			return falseV
		}
		if a1 && b1 && a2 && b2 && l1 == h1 && l2 == h2 && l1 == l2 {
			return trueV
		}
	case token.NEQ:
		if lt || gt {
			return trueV
		}
		if a1 && b1 && a2 && b2 && l1 == h1 && l2 == h2 && l1 == l2 {
			return falseV
		}
	}
	return nil
}

func cmpConst(op token.Token, a, b int64) Val {
	switch op {
	case token.LSS:
		return B(a < b)
	case token.LEQ:
		return B(a <= b)
	case token.GTR:
		return B(a > b)
	case token.GEQ:
		return B(a >= b)
	case token.EQL:
		return B(a == b)
	case token.NEQ:
		return B(a != b)
	}
	return nil
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (in *Interp) cmpIter(op token.Token, it *Iter, off int64, base Val, boff int64) Val {
	rec := in.iters[it.ID]
	if rec == nil {
		return nil
	}
	if base == nil {
		// iteration number against a constant
		t := boff - off
		lo, hi, hiOK := int64(0), int64(0), false
		switch rec.first {
		case 1:
			lo, hi, hiOK = 0, 0, true
		case 2:
			lo = 1
		}
		r := cmpRange(op, lo, hi, true, hiOK, t, t, true, true)
		if r == nil && rec.first == 0 && !rec.atEnd && !rec.probe {
			if x := cmpRange(op, 0, 0, true, true, t, t, true, true); x != nil {
				if y := cmpRange(op, 1, 0, true, false, t, t, true, true); y != nil {
					rec.wantFirst = true
				}
			}
		}
		return r
	}
	if l, ok := base.(*LenOf); ok {
		s, ok := l.S.(*Seq)
		if !ok {
			return nil
		}
		if rec.probe {
			if rec.seq == nil {
				rec.seq = s
			}
			return nil
		}
		if rec.seq == nil || (s.Key() != rec.seq.Key() && seqIdent(s) != seqIdent(rec.seq) && !sameShape(s.Items, rec.seq.Items)) {
			return nil
		}
		// r = len - it;  it+off OP len+boff  <=>  -(r) OP boff-off  <=> r flip(OP) off-boff
		t := off - boff
		var lo, hi int64
		hiOK := false
		switch {
		case rec.atEnd:
			lo, hi, hiOK = 0, 0, true
		case rec.last == 1:
			lo, hi, hiOK = 1, 1, true
		case rec.last == 2:
			lo = 2
		default:
			lo = 1
		}
		r := cmpRange(flip(op), lo, hi, true, hiOK, t, t, true, true)
		if r == nil && rec.last == 0 && !rec.atEnd {
			if x := cmpRange(flip(op), 1, 1, true, true, t, t, true, true); x != nil {
				if y := cmpRange(flip(op), 2, 0, true, false, t, t, true, true); y != nil {
					rec.wantLast = true
				}
			}
		}
		return r
	}
	return nil
}

func sameShape(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case *El:
			if _, ok := b[i].(*El); !ok {
				return false
			}
		case *Rep:
			y, ok := b[i].(*Rep)
			if !ok || !sameShape(x.Body, y.Body) {
				return false
			}
		case *AltP:
			y, ok := b[i].(*AltP)
			if !ok || len(x.Opts) != len(y.Opts) {
				return false
			}
			for j := range x.Opts {
				if !sameShape(x.Opts[j], y.Opts[j]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (in *Interp) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return in.eq(a, b)
	case token.NEQ:
		return not(in.eq(a, b))
	}
	if x, ok := a.(*Alt); ok {
		return mapAlt(x, func(y Val) Val { return in.binop(st, op, y, b, t) })
	}
	if x, ok := b.(*Alt); ok && op != token.ADD {
		return mapAlt(x, func(y Val) Val { return in.binop(st, op, a, y, t) })
	}
	if isStringType(t) {
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			s1, ok1 := constStr(a)
			s2, ok2 := constStr(b)
			if ok1 && ok2 {
				return cmpConst(op, int64(strings.Compare(s1, s2)), 0)
			}
			if a.Key() == b.Key() {
				return cmpConst(op, 0, 0)
			}
			return &App{F: "cmp" + op.String(), Args: []Val{a, b}, T: types.Typ[types.Bool]}
		}
	}
	if x, ok := b.(*Alt); ok {
		return mapAlt(x, func(y Val) Val { return in.binop(st, op, a, y, t) })
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if r := in.cmpInt(op, a, b); r != nil {
			return r
		}
		if f1, ok := floatOf(a); ok {
			if f2, ok := floatOf(b); ok {
				switch {
				case f1 < f2:
					return cmpConst(op, 0, 1)
				case f1 > f2:
					return cmpConst(op, 1, 0)
				}
				return cmpConst(op, 0, 0)
			}
		}
		return &App{F: "cmp" + op.String(), Args: []Val{a, b}, T: types.Typ[types.Bool]}
	}
	n1, ok1 := constInt(a)
	n2, ok2 := constInt(b)
	bk, _ := t.Underlying().(*types.Basic)
	if ok1 && ok2 {
		var r int64
		switch op {
		case token.ADD:
			r = n1 + n2
		case token.SUB:
			r = n1 - n2
		case token.MUL:
			r = n1 * n2
		case token.QUO:
			if n2 == 0 {
				in.panicAt(st, "", "division by zero", true)
				return top("div")
			}
			r = n1 / n2
		case token.REM:
			if n2 == 0 {
				return top("div")
			}
			r = n1 % n2
		case token.AND:
			r = n1 & n2
		case token.OR:
			r = n1 | n2
		case token.XOR:
			r = n1 ^ n2
		case token.SHL:
			r = n1 << uint(n2)
		case token.SHR:
			r = n1 >> uint(n2)
		case token.AND_NOT:
			r = n1 &^ n2
		default:
			return top("int op %s", op)
		}
		if bk != nil {
			r = wrapInt(r, bk.Kind())
		}
		return I(r)
	}
	if op == token.ADD && ok2 {
		return mkLin(a, n2)
	}
	if op == token.ADD && ok1 {
		return mkLin(b, n1)
	}
	if op == token.SUB && ok2 {
		return mkLin(a, -n2)
	}
	if bk != nil && bk.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return andV(a, b)
		}
	}
	return &App{F: "op" + op.String(), Args: []Val{a, b}, T: t}
}

func floatOf(v Val) (float64, bool) {
	if c, ok := v.(*Const); ok {
		switch x := c.V.(type) {
		case float64:
			return x, true
		case int64:
			return float64(x), true
		}
	}
	return 0, false
}

// ---- calls ----

func (fr *frame) call(st *State, c *ssa.CallCommon, instr ssa.Instruction) []*Outcome {
	in := fr.in
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.val(st, a))
	}
	site := instrID(instr)
	if c.IsInvoke() {
		recv := fr.val(st, c.Value)
		return fr.invoke(st, recv, c.Method, args, site, fr.pos(instr), c.Signature())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, b.Name(), args, c, instr)
	}
	f := fr.val(st, c.Value)
	return in.apply(fr, st, f, args, site, fr.pos(instr), c.Signature())
}

func (in *Interp) apply(fr *frame, st *State, f Val, args []Val, site, pos string, sig *types.Signature) []*Outcome {
	switch x := f.(type) {
	case *Clo:
		if x.Fn != nil {
			return in.callStatic(fr, st, x.Fn, args, x.Bind, site, pos)
		}
		if strings.HasPrefix(x.Mod, "bound:") {
			return in.model(fr, st, strings.TrimPrefix(x.Mod, "bound:"), append(append([]Val{}, x.Bind...), args...), site, pos, sig)
		}
		return in.model(fr, st, x.Mod, args, site, pos, sig)
	case *Alt:
		var outs []*Outcome
		for i, y := range x.Vals {
			s := st
			if i < len(x.Vals)-1 {
				s = st.clone()
			}
			outs = append(outs, in.apply(fr, s, y, args, site, pos, sig)...)
		}
		return outs
	case NilV:
		in.panicAt(st, pos, "call of nil function", true)
		return nil
	}
	in.problem("call of unknown function %s at %s", f.Key(), pos)
	return []*Outcome{{st, in.unknownResults(sig, "call of unknown function")}}
}

func (in *Interp) unknownResults(sig *types.Signature, why string) []Val {
	var r []Val
	if sig == nil {
		return []Val{top("%s", why)}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, top("%s", why))
	}
	return r
}

func (in *Interp) callStatic(fr *frame, st *State, fn *ssa.Function, args, bind []Val, site, pos string) []*Outcome {
	name := nameOf(fn)
	if fn.Blocks != nil && in.prog.analysed(fn) {
		return in.callFn(fn, args, bind, st, site)
	}
	return in.model(fr, st, name, append(append([]Val{}, bind...), args...), site, pos, fn.Signature)
}

func (fr *frame) invoke(st *State, recv Val, m *types.Func, args []Val, site, pos string, sig *types.Signature) []*Outcome {
	in := fr.in
	switch x := recv.(type) {
	case *Iface:
		sel := in.prog.ssa.MethodSets.MethodSet(x.T).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			sel = in.prog.ssa.MethodSets.MethodSet(x.T).Lookup(nil, m.Name())
		}
		if sel != nil {
			fn := in.prog.ssa.MethodValue(sel)
			if fn != nil {
				return in.callStatic(fr, st, fn, append([]Val{x.V}, args...), nil, site, pos)
			}
		}
		if a, ok := x.V.(*App); ok && (a.F == "error" || a.F == "errorf" || a.F == "liberr") && m.Name() == "Error" {
			return []*Outcome{{st, []Val{a.Args[0]}}}
		}
		return in.model(fr, st, "invoke:"+x.T.String()+"."+m.Name(), append([]Val{x.V}, args...), site, pos, sig)
	case *Alt:
		var outs []*Outcome
		for i, y := range x.Vals {
			if _, ok := y.(NilV); ok {
				in.panicAt(st, pos, "possible nil dereference", false)
				continue
			}
			s := st
			if i < len(x.Vals)-1 {
				s = st.clone()
			}
			outs = append(outs, fr.invoke(s, y, m, args, site, pos, sig)...)
		}
		return outs
	case NilV:
		in.panicAt(st, pos, "method call on nil interface", true)
		return nil
	}
	name := m.Name()
	if n, ok := m.Type().(*types.Signature).Recv().Type().(*types.Named); ok {
		name = n.String() + "." + name
	}
	return in.model(fr, st, "invoke:"+name, append([]Val{recv}, args...), site, pos, sig)
}

func (fr *frame) builtin(st *State, name string, args []Val, c *ssa.CallCommon, instr ssa.Instruction) []*Outcome {
	in := fr.in
	ret := func(v Val) []*Outcome { return []*Outcome{{st, []Val{v}}} }
	switch name {
	case "len":
		return ret(in.length(st, args[0]))
	case "cap":
		return ret(&App{F: "cap", Args: args, T: types.Typ[types.Int]})
	case "append":
		if isStringType(c.Args[0].Type()) {
			return ret(concat(nilStr(args[0]), nilStr(args[1])))
		}
		id := in.allocID(instrID(instr))
		delete(st.heap, "slice:"+id)
		r := in.appendSeq(args[0], args[1], c.Args[0].Type())
		if s, ok := r.(*Seq); ok {
			r = &Seq{Items: s.Items, T: s.T, ID: id}
		}
		return ret(r)
	case "copy":
		if isStringType(c.Args[0].Type()) {
			st.env[c.Args[0]] = top("written bytes")
			in.problem("%s: a copy into a byte slice", fr.pos(instr))
		}
		if d, ok := args[0].(*Seq); ok {
			if s, ok := args[1].(*Seq); ok {
				lo, hi := lenRange(d)
				l2, h2 := lenRange(s)
				if (lo == hi && l2 == h2 && lo == l2) || sameShape(d.Items, s.Items) {
					in.replaceSeq(st, d, &Seq{Items: s.Items, T: d.T, ID: d.ID})
				} else {
					in.replaceSeq(st, d, &Seq{Items: []Val{top("copy")}, T: d.T, ID: d.ID})
				}
			}
		}
		return ret(in.length(st, args[1]))
	case "delete":
		if m, ok := args[0].(*MapRef); ok {
			v, _ := in.root(st, m.Obj)
			if mc, ok := v.(*MapC); ok {
				st.heap[m.Obj] = in.mapDelete(st, mc, args[1])
			}
		}
		return []*Outcome{{st, nil}}
	case "panic":
		in.panicAt(st, fr.pos(instr), "explicit panic", true)
		return nil
	case "print", "println":
		return []*Outcome{{st, nil}}
	case "recover":
		return ret(nilV)
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	in.problem("builtin %s", name)
	return ret(top("builtin %s", name))
}

func nilStr(v Val) Val {
	if _, ok := v.(NilV); ok {
		return S("")
	}
	return v
}

func (in *Interp) mapDelete(st *State, m *MapC, k Val) *MapC {
	var del func(ps []Val) []Val
	del = func(ps []Val) []Val {
		var out []Val
		for _, p := range ps {
			switch x := p.(type) {
			case *El:
				t, f := in.truth(st, in.eq(x.V.(*Entry).K, k))
				if t && !f {
					continue
				}
				if t && f {
					out = append(out, &AltP{Opts: [][]Val{nil, {x}}})
					continue
				}
				out = append(out, p)
			case *Rep:
				b := del(x.Body)
				if len(b) == 0 {
					continue
				}
				out = append(out, &Rep{Body: b, Min: x.Min, Loop: x.Loop, Unord: x.Unord})
			case *AltP:
				var o [][]Val
				for _, y := range x.Opts {
					o = append(o, del(y))
				}
				out = append(out, altParts2(o)...)
			default:
				out = append(out, p)
			}
		}
		return out
	}
	d := append([]Val{}, m.Deleted...)
	if len(m.Items) > 0 {
		if hasUnknown(m.Items) {
			d = append(d, k)
		}
	}
	return &MapC{Items: del(m.Items), T: m.T, Deleted: d}
}

func hasUnknown(ps []Val) bool {
	for _, p := range ps {
		switch x := p.(type) {
		case *El:
		case *Rep:
			if hasUnknown(x.Body) {
				return true
			}
		case *AltP:
			for _, o := range x.Opts {
				if hasUnknown(o) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (in *Interp) appendSeq(a, b Val, t types.Type) Val {
	if x, ok := a.(*Alt); ok {
		return mapAlt(x, func(y Val) Val { return in.appendSeq(y, b, t) })
	}
	items := func(v Val) []Val {
		switch x := v.(type) {
		case *Seq:
			return x.Items
		case NilV:
			return nil
		case *Alt:
			var opts [][]Val
			for _, y := range x.Vals {
				switch z := y.(type) {
				case *Seq:
					opts = append(opts, z.Items)
				case NilV:
					opts = append(opts, nil)
				default:
					return []Val{top("append")}
				}
			}
			return altParts2(opts)
		case *App:
			return []Val{&Rep{Body: []Val{&El{&App{F: "elem", Args: []Val{x}, T: elemType(t)}}}, Loop: x.Key()}}
		}
		return []Val{top("append of %T", v)}
	}
	return &Seq{Items: append(append([]Val{}, items(a)...), items(b)...), T: t}
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (in *Interp) length(st *State, v Val) Val {
	return mapAlt(v, func(v Val) Val {
		switch x := v.(type) {
		case NilV:
			return I(0)
		case *Seq:
			lo, hi := lenRange(x)
			if lo == hi {
				return I(lo)
			}
			return &LenOf{x}
		case *MapRef:
			c, _ := in.root(st, x.Obj)
			if mc, ok := c.(*MapC); ok {
				lo, hi := lenRange(mc)
				if lo == hi {
					return I(lo)
				}
				return &LenOf{mc}
			}
		}
		if s, ok := constStr(v); ok {
			return I(int64(len(s)))
		}
		return &LenOf{v}
	})
}

// deferKey names the deferred call of an instruction in the environment of its function.
type deferKey struct {
	ssa.Value
	d *ssa.Defer
}

// runDefers performs the deferred calls, the last one first.
func (fr *frame) runDefers(st *State) []*State {
	var ds []*ssa.Defer
	for _, b := range fr.fn.DomPreorder() {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	cur := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*State
		for _, s := range cur {
			v, ok := s.env[deferKey{d: d}]
			if !ok {
				next = append(next, s)
				continue
			}
			delete(s.env, deferKey{d: d})
			t, ok := v.(*Tup)
			if !ok {
				fr.in.problem("deferred call at %s on some paths only", fr.pos(d))
				next = append(next, s)
				continue
			}
			var outs []*Outcome
			site, pos := instrID(d), fr.pos(d)
			switch {
			case d.Call.IsInvoke():
				outs = fr.invoke(s, t.Vs[0], d.Call.Method, t.Vs[1:], site, pos, d.Call.Signature())
			default:
				if b, ok := d.Call.Value.(*ssa.Builtin); ok {
					fr.in.problem("deferred builtin %s at %s", b.Name(), pos)
					next = append(next, s)
					continue
				}
				outs = fr.in.apply(fr, s, t.Vs[0], t.Vs[1:], site, pos, d.Call.Signature())
			}
			for _, o := range outs {
				next = append(next, o.st)
			}
		}
		cur = next
		if len(cur) > 1 {
			cur = fr.merge2(cur)
		}
	}
	return cur
}

func (k deferKey) Type() types.Type                         { return types.Typ[types.Invalid] }
func (k deferKey) Name() string                             { return fmt.Sprintf("defer%d", k.d.Pos()) }
func (k deferKey) String() string                           { return k.Name() }
func (k deferKey) Pos() token.Pos                           { return k.d.Pos() }
func (k deferKey) Parent() *ssa.Function                    { return k.d.Parent() }
func (k deferKey) Referrers() *[]ssa.Instruction            { return nil }
func (k deferKey) Operands(rands []*ssa.Value) []*ssa.Value { return rands }
