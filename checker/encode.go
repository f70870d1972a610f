package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Encoding and decoding of JSON/YAML documents, in a common text notation: {key:value key:value}, [v v], "text".

func (in *Interp) unmarshal(st *State, data, ptr Val, pos string) []*Outcome {
	p, ok := unwrap(ptr).(*Ptr)
	if !ok {
		in.problem("unmarshal into %s at %s", render(ptr), pos)
		return ret(st, nilV)
	}
	var outs []*Outcome
	cur := in.load(nil, st, p, pos)
	t := valType(cur)
	if t == nil {
		in.problem("unmarshal into an object of unknown type at %s", pos)
		return ret(st, nilV)
	}
	root := rootName(data)
	st.emit("decode", pos, data, S(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
	v := in.symVal(root, t, "json")
	if s, ok := v.(*Sym); ok {
		v = in.expandStruct(s)
	}
	if in.fails("json.Unmarshal", pos) {
		// the target is left as it was, or filled with what could be decoded
		outs = append(outs, ret(in.failed(st, pos), in.libErr(S("bad json")))...)
		filled := in.failed(st, pos)
		in.store(filled, p, v, pos)
		outs = append(outs, ret(filled, in.libErr(S("bad json")))...)
	}
	in.store(st, p, v, pos)
	return append(outs, ret(st, nilV)...)
}

type docField struct {
	key       string
	v         Val
	omitempty bool
}

func tagOf(st *types.Struct, i int, tag string) (name string, omit, skip, inline, str bool) {
	f := st.Field(i)
	name = f.Name()
	if tag == "yaml" {
		name = strings.ToLower(name)
	}
	t, ok := reflect.StructTag(st.Tag(i)).Lookup(tag)
	if ok {
		ps := strings.Split(t, ",")
		if ps[0] == "-" && len(ps) == 1 {
			skip = true
		}
		if ps[0] != "" {
			name = ps[0]
		}
		for _, o := range ps[1:] {
			switch o {
			case "omitempty":
				omit = true
			case "inline":
				inline = true
			case "string":
				str = true
			}
		}
	}
	if !f.Exported() && !(f.Embedded() && tag == "json") {
		skip = true
	}
	if f.Embedded() && tag == "json" && !ok {
		inline = true
	}
	return
}

// emptiness: 1 empty, 0 non-empty, -1 unknown.
func (in *Interp) emptiness(st *State, v Val) int {
	switch x := v.(type) {
	case NilV:
		return 1
	case *Const:
		switch y := x.V.(type) {
		case string:
			return b2i(y == "")
		case int64:
			return b2i(y == 0)
		case bool:
			return b2i(!y)
		}
		return b2i(x.V == float64(0))
	case *Ptr, *Struct, *Iface:
		return 0
	case *Seq:
		lo, hi := lenRange(in.currentSeq(st, x))
		if lo > 0 {
			return 0
		}
		if hi == 0 {
			return 1
		}
		return -1
	case *MapRef:
		c, _ := in.root(st, x.Obj)
		lo, hi := lenRange(c)
		if lo > 0 {
			return 0
		}
		if hi == 0 {
			return 1
		}
		return -1
	case *Alt:
		r := in.emptiness(st, x.Vals[0])
		for _, y := range x.Vals[1:] {
			if in.emptiness(st, y) != r {
				return -1
			}
		}
		return r
	}
	if _, ok := strParts(v); ok {
		switch e := in.eq(v, S("")); {
		case e.Key() == trueV.Key():
			return 1
		case e.Key() == falseV.Key():
			return 0
		}
		return -1
	}
	if isIntVal(v) {
		switch e := in.eq(v, I(0)); {
		case e.Key() == trueV.Key():
			return 1
		case e.Key() == falseV.Key():
			return 0
		}
	}
	return -1
}

func single(items []Val) Val {
	if len(items) == 1 {
		return items[0]
	}
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (in *Interp) encodeDoc(st *State, v Val, tag string, depth int) Val {
	if depth > 24 {
		return top("document too deep")
	}
	switch x := v.(type) {
	case *Alt:
		return mapAlt(x, func(y Val) Val { return in.encodeDoc(st, y, tag, depth+1) })
	case *Iface:
		return in.encodeDoc(st, x.V, tag, depth)
	case NilV:
		return S("null")
	case *Const:
		if s, ok := x.V.(string); ok {
			return concat(S(`"`), S(strings.ReplaceAll(s, `"`, `\"`)), S(`"`))
		}
		return in.text(nil, st, v, "")
	case *Ptr:
		c := in.load(nil, st, x, "")
		if c == nil {
			return top("document pointer")
		}
		return in.encodeDoc(st, c, tag, depth+1)
	case *Struct, *Sym:
		s, ok := x.(*Struct)
		if !ok {
			sym := x.(*Sym)
			if s, ok = in.expandStruct(sym).(*Struct); !ok {
				break
			}
		}
		return concat(S("{"), in.encodeFields(st, s, tag, depth), S("}"))
	case *Seq:
		body := in.encodeItems(st, in.currentSeq(st, x).Items, tag, depth)
		return mkCat(append(append([]Val{S("[")}, body...), S("]"))...)
	case *MapRef:
		c, _ := in.root(st, x.Obj)
		m, ok := c.(*MapC)
		if !ok {
			return top("document map")
		}
		items := m.Items
		if concrete(items) {
			items = append([]Val{}, items...)
			sort.SliceStable(items, func(i, j int) bool {
				return items[i].(*El).V.Key() < items[j].(*El).V.Key()
			})
		} else {
			items = in.mapItems(m)
		}
		return mkCat(append(append([]Val{S("{")}, in.encodeItems(st, items, tag, depth)...), S("}"))...)
	}
	if isIntVal(v) || isBoolVal(v) {
		return in.text(nil, st, v, "")
	}
	if _, ok := strParts(v); ok {
		return concat(S(`"`), v, S(`"`))
	}
	if isTop(v) {
		return v
	}
	return in.app("text", tString, v)
}

func (in *Interp) encodeItems(st *State, items []Val, tag string, depth int) []Val {
	var out []Val
	for _, it := range items {
		switch x := it.(type) {
		case *El:
			var p []Val
			if en, ok := x.V.(*Entry); ok {
				k, _ := strParts(in.text(nil, st, en.K, ""))
				p = append(append(append([]Val{}, k...), S(":")), mustParts(in.encodeDoc(st, en.V, tag, depth+1))...)
			} else {
				p = mustParts(in.encodeDoc(st, x.V, tag, depth+1))
			}
			out = append(out, p...)
			out = append(out, S(" "))
		case *Rep:
			loop := x.Loop
			if x.Unord {
				loop = "sorted:" + loop
			}
			out = append(out, &Rep{Body: in.encodeItems(st, x.Body, tag, depth), Min: x.Min, Loop: loop})
		case *AltP:
			var o [][]Val
			for _, y := range x.Opts {
				o = append(o, in.encodeItems(st, y, tag, depth))
			}
			out = append(out, &AltP{Opts: o})
		default:
			out = append(out, it)
		}
	}
	return out
}

func mustParts(v Val) []Val {
	p, ok := strParts(v)
	if !ok {
		return []Val{top("text of %s", v.Key())}
	}
	return p
}

func (in *Interp) encodeFields(st *State, s *Struct, tag string, depth int) Val {
	u := s.T.Underlying().(*types.Struct)
	// the order of the keys of a document has no meaning: sorted
	type seg struct {
		key   string
		parts []Val
	}
	var segs []seg
	for i := 0; i < u.NumFields(); i++ {
		name, omit, skip, inline, str := tagOf(u, i, tag)
		if skip {
			continue
		}
		v := s.F[i]
		if inline {
			for {
				if p, ok := v.(*Ptr); ok {
					v = in.load(nil, st, p, "")
					continue
				}
				break
			}
			if y, ok := v.(*Sym); ok {
				v = in.expandStruct(y)
			}
			if y, ok := v.(*Struct); ok {
				segs = append(segs, seg{name, mustParts(in.encodeFields(st, y, tag, depth))})
				continue
			}
		}
		one := func(v Val) []Val {
			d := in.encodeDoc(st, v, tag, depth+1)
			if str {
				d = concat(S(`"`), d, S(`"`))
			}
			return append(append([]Val{S(name + ":")}, mustParts(d)...), S(" "))
		}
		if omit {
			switch in.emptiness(st, v) {
			case 1:
				continue
			case -1:
				if a, ok := v.(*Alt); ok {
					var opts [][]Val
					for _, y := range a.Vals {
						if in.emptiness(st, y) == 1 {
							opts = append(opts, nil)
						} else {
							opts = append(opts, one(y))
						}
					}
					segs = append(segs, seg{name, altParts2(opts)})
				} else {
					if sq, ok := v.(*Seq); ok {
						c := in.currentSeq(st, sq)
						if r, ok := single(c.Items).(*Rep); ok && r.Min == 0 {
							v = &Seq{Items: []Val{&Rep{Body: r.Body, Min: 1, Loop: r.Loop, Unord: r.Unord}}, T: sq.T}
						}
					}
					segs = append(segs, seg{name, altParts(one(v), nil)})
				}
				continue
			}
		}
		segs = append(segs, seg{name, one(v)})
	}
	sort.SliceStable(segs, func(i, j int) bool { return segs[i].key < segs[j].key })
	var parts []Val
	for _, s := range segs {
		parts = append(parts, s.parts...)
	}
	return mkCat(parts...)
}
