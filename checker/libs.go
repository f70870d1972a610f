package main

import (
	"go/types"
	"strings"
)

const xlsxPkg = "github.com/tealeg/xlsx"

func (in *Interp) fieldIdx(t types.Type, name string) (int, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

func (in *Interp) getF(st *State, p Val, t types.Type, name, pos string) Val {
	i, _ := in.fieldIdx(t, name)
	c := in.load(nil, st, p, pos)
	if c == nil || i < 0 {
		return top("field %s", name)
	}
	return in.nav(c, i)
}

func (in *Interp) setF(st *State, p Val, t types.Type, name string, v Val, pos string) {
	i, _ := in.fieldIdx(t, name)
	if q, ok := p.(*Ptr); ok && i >= 0 {
		in.store(st, &Ptr{Obj: q.Obj, Path: q.Path + "/" + itoa(i)}, v, pos)
	}
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// addTo appends a new zero object of type elem to the slice field of *p.
func (in *Interp) addTo(st *State, p Val, owner, elem types.Type, field, site, pos string) Val {
	n := in.newObj(st, site, in.zero(elem))
	switch x := p.(type) {
	case *Ptr:
		i, ft := in.fieldIdx(owner, field)
		if i < 0 {
			return n
		}
		cur := in.getF(st, x, owner, field, pos)
		id := in.allocID("slice:" + site)
		delete(st.heap, "slice:"+id)
		r := in.appendSeq(cur, &Seq{Items: []Val{&El{n}}, T: ft}, ft)
		if s, ok := r.(*Seq); ok {
			r = &Seq{Items: s.Items, T: s.T, ID: id}
		}
		in.setF(st, x, owner, field, r, pos)
	case NilV:
		in.panicAt(st, pos, "nil dereference", true)
		return nil
	default:
		in.problem("%s of an unknown object at %s", field, pos)
	}
	return n
}

func (in *Interp) modelXlsx(fr *frame, st *State, name string, args []Val, site, pos string, sig *types.Signature) *outs {
	if !strings.Contains(name, xlsxPkg) {
		return nil
	}
	m := name[strings.Index(name, xlsxPkg)+len(xlsxPkg)+1:]
	m = strings.ReplaceAll(m, ")", "")
	T := func(n string) types.Type { return in.typeByName(xlsxPkg + "." + n) }
	ok := func(vs ...Val) *outs { return &outs{ret(st, vs...)} }
	switch m {
	case "NewFile":
		return ok(in.newObj(st, site, in.zero(T("File"))))
	case "File.AddSheet":
		n := in.addTo(st, args[0], T("File"), T("Sheet"), "Sheets", site, pos)
		if n == nil {
			return &outs{}
		}
		in.setF(st, n, T("Sheet"), "Name", args[1], pos)
		var o []*Outcome
		if in.fails("io:xlsx.AddSheet", pos) {
			o = append(o, ret(in.failed(st, pos), nilV, in.libErr(S("sheet error")))...)
		}
		return &outs{append(o, ret(st, n, nilV)...)}
	case "Sheet.AddRow":
		n := in.addTo(st, args[0], T("Sheet"), T("Row"), "Rows", site, pos)
		if n == nil {
			return &outs{}
		}
		return ok(n)
	case "Row.AddCell":
		n := in.addTo(st, args[0], T("Row"), T("Cell"), "Cells", site, pos)
		if n == nil {
			return &outs{}
		}
		return ok(n)
	case "Cell.SetStyle":
		return ok()
	case "Sheet.SetColWidth":
		return ok(nilV)
	case "Cell.SetString", "Cell.SetValue", "Cell.SetInt":
		in.setF(st, args[0], T("Cell"), "Value", in.text(fr, st, unwrap(args[1]), pos), pos)
		return ok()
	case "Cell.String":
		return ok(in.getF(st, args[0], T("Cell"), "Value", pos))
	case "File.Save":
		v := in.deepText(st, in.load(fr, st, args[0], pos), 0)
		var o []*Outcome
		if in.fails("WriteFile", pos) {
			o = append(o, ret(in.failed(st, pos), in.libErr(S("save failed")))...)
		}
		st.emit("writefile", pos, args[1], v)
		return &outs{append(o, ret(st, nilV)...)}
	case "OpenFile":
		root := rootName(args[0])
		var o []*Outcome
		if in.fails("ReadFile", pos) {
			o = append(o, ret(in.failed(st, pos), nilV, in.libErr(S("open failed")))...)
		}
		st.emit("read", pos, args[0])
		id := "@" + root
		in.symObj[id] = &Sym{Name: root, T: T("File")}
		return &outs{append(o, ret(st, &Ptr{Obj: id}, nilV)...)}
	case "NewStyle", "NewBorder", "NewFont", "NewFill":
		t := sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return ok(in.newObj(st, site, in.zero(t)))
	}
	return nil
}

// deepText renders a workbook: sheets, rows and cell values.
func (in *Interp) deepText(st *State, v Val, depth int) Val {
	if depth > 12 {
		return top("too deep")
	}
	T := func(n string) types.Type { return in.typeByName(xlsxPkg + "." + n) }
	var cells func(items []Val, f func(Val) []Val) []Val
	cells = func(items []Val, f func(Val) []Val) []Val {
		var out []Val
		for _, it := range items {
			switch x := it.(type) {
			case *El:
				out = append(out, f(x.V)...)
			case *Rep:
				out = append(out, &Rep{Body: cells(x.Body, f), Min: x.Min, Loop: x.Loop, Unord: x.Unord})
			case *AltP:
				var o [][]Val
				for _, y := range x.Opts {
					o = append(o, cells(y, f))
				}
				out = append(out, &AltP{Opts: o})
			default:
				out = append(out, it)
			}
		}
		return out
	}
	list := func(c Val, t types.Type, field string) []Val {
		i, _ := in.fieldIdx(t, field)
		items, ok := in.seqItems(st, in.nav(c, i))
		if !ok {
			return []Val{top("workbook")}
		}
		return items
	}
	sheets := cells(list(v, T("File"), "Sheets"), func(s Val) []Val {
		c := in.load(nil, st, s, "")
		ni, _ := in.fieldIdx(T("Sheet"), "Name")
		out := append([]Val{S("[sheet ")}, mustParts(in.nav(c, ni))...)
		out = append(out, S(":\n"))
		out = append(out, cells(list(c, T("Sheet"), "Rows"), func(r Val) []Val {
			rc := in.load(nil, st, r, "")
			cs := cells(list(rc, T("Row"), "Cells"), func(cv Val) []Val {
				cc := in.load(nil, st, cv, "")
				vi, _ := in.fieldIdx(T("Cell"), "Value")
				return append(mustParts(in.nav(cc, vi)), S("|"))
			})
			// empty cells at the end and empty rows do not matter
			for len(cs) > 0 && isS(cs[len(cs)-1], "|") && (len(cs) == 1 || isS(cs[len(cs)-2], "|")) {
				cs = cs[:len(cs)-1]
			}
			if len(cs) == 0 {
				return nil
			}
			return append(append([]Val{S("[")}, cs...), S("]\n"))
		})...)
		return append(out, S("]\n"))
	})
	return mkCat(sheets...)
}

func (in *Interp) modelParser(fr *frame, st *State, name string, args []Val, site, pos string, sig *types.Signature) *outs {
	if !strings.Contains(name, "pingcap/parser") {
		return nil
	}
	ok := func(vs ...Val) *outs { return &outs{ret(st, vs...)} }
	symName := func(v Val) string {
		switch x := v.(type) {
		case *Ptr:
			if s, ok := in.symObj[x.Obj]; ok {
				// path of the addressed part
				t := s.T
				n := s.Name
				for _, i := range splitPath(x.Path) {
					u, ok := t.Underlying().(*types.Struct)
					if !ok {
						return n
					}
					n += "." + u.Field(i).Name()
					t = u.Field(i).Type()
				}
				return n
			}
		case *Sym:
			return x.Name
		}
		return ""
	}
	switch {
	case strings.HasSuffix(name, "parser.New"):
		return ok(in.newObj(st, site, &LibObj{Kind: "sqlparser", F: map[string]Val{}}))
	case strings.HasSuffix(name, "Parser).Parse"):
		t := sig.Results().At(0).Type()
		root := rootName(args[1])
		var o []*Outcome
		if in.fails("sqlParse", pos) {
			o = append(o, ret(in.failed(st, pos), nilV, nilV, in.libErr(S("syntax error")))...)
		}
		return &outs{append(o, ret(st, in.symVal(root, t, ""), nilV, nilV)...)}
	case strings.HasSuffix(name, ".Accept"):
		it, isI := args[1].(*Iface)
		if !isI {
			return nil
		}
		sel := in.prog.ssa.MethodSets.MethodSet(it.T).Lookup(nil, "Enter")
		lv := in.prog.ssa.MethodSets.MethodSet(it.T).Lookup(nil, "Leave")
		if sel == nil || lv == nil {
			return nil
		}
		var node Val = args[0]
		if p, ok := node.(*Ptr); ok {
			if s := in.symObj[p.Obj]; s != nil {
				node = &Iface{types.NewPointer(s.T), node}
			}
		}
		var o []*Outcome
		for _, e := range in.callStatic(fr, st, in.prog.ssa.MethodValue(sel), []Val{it.V, node}, nil, site+"/enter", pos) {
			for _, l := range in.callStatic(fr, e.st, in.prog.ssa.MethodValue(lv), []Val{it.V, e.vals[0]}, nil, site+"/leave", pos) {
				o = append(o, &Outcome{l.st, []Val{l.vals[0], l.vals[1]}})
			}
		}
		return &outs{o}
	case strings.HasSuffix(name, "CIStr).String"):
		v := args[0]
		if p, ok := v.(*Ptr); ok {
			v = in.load(fr, st, p, pos)
		}
		if v == nil {
			return &outs{}
		}
		return ok(in.nav(v, 0))
	case strings.HasSuffix(name, ").String"), strings.HasSuffix(name, ").InfoSchemaStr"), strings.HasSuffix(name, ".GetValue"):
		n := symName(unwrap(args[0]))
		i := strings.LastIndex(name, ".")
		key := n + name[i:] + "()"
		if v, has := in.ctx.Vals[key]; has {
			return ok(v)
		}
		t := sig.Results().At(0).Type()
		return ok(&Sym{Name: key, T: t, Gen: true})
	}
	return nil
}

func isS(v Val, s string) bool {
	c, ok := v.(*Const)
	return ok && c.V == s
}
