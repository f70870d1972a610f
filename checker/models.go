package main

import (
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"octcheck/internal/pluralize"
	"octcheck/internal/strcase"
)

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func ret(st *State, vals ...Val) []*Outcome { return []*Outcome{{st, vals}} }

func (in *Interp) externalGlobal(name string, t types.Type) Val {
	return &Sym{Name: name, T: t}
}

// app builds an application and applies the context's rewrites.
func (in *Interp) app(f string, t types.Type, args ...Val) Val {
	a := &App{F: f, Args: args, T: t}
	if v, ok := in.ctx.Rewrite[a.Key()]; ok {
		return v
	}
	return a
}

// noteLit records that a generic atom was compared with a literal.
func (in *Interp) noteLit(kind string, v Val, lit string) {
	if in.litCmp == nil {
		in.litCmp = map[string]bool{}
	}
	if s, ok := atomOf(v).(*Sym); ok && lit != "" && !in.quiet {
		in.litCmp[kind+"|"+s.Name+"|"+lit] = true
	}
}

// noteCond records what the input atoms of an undecided condition are compared with.
func (in *Interp) noteCond(c Val) {
	a, ok := c.(*App)
	if !ok {
		return
	}
	if a.F == "not" || a.F == "and" || a.F == "or" {
		for _, x := range a.Args {
			in.noteCond(x)
		}
		return
	}
	if (a.F == "eq" || strings.HasPrefix(a.F, "cmp")) && len(a.Args) == 2 {
		b0, o0 := linView(a.Args[0])
		b1, o1 := linView(a.Args[1])
		for k := 0; k < 2; k++ {
			if n, ok := constInt(b1); ok {
				n += o1 - o0
				switch x := b0.(type) {
				case *Sym:
					in.noteLit("int", x, strconv.FormatInt(n, 10))
					return
				case *LenOf:
					if _, ok := x.S.(*Seq); ok {
						in.noteLit("count", &Sym{Name: "*"}, strconv.FormatInt(n, 10))
						return
					}
					if y, ok := atomOf(x.S).(*Sym); ok {
						in.noteLit("len", y, strconv.FormatInt(n, 10))
						return
					}
				}
			}
			b0, o0, b1, o1 = b1, o1, b0, o0
		}
		x, ok1 := atomOf(b0).(*Sym)
		y, ok2 := atomOf(b1).(*Sym)
		if ok1 && ok2 && x.Name != y.Name {
			in.noteLit("pair", x, y.Name)
			return
		}
	}
	// any other condition: sample the atoms it depends on
	mapVal(c, func(x Val) Val {
		switch s := x.(type) {
		case *Sym:
			in.noteLit("any", s, "?")
		case *LenOf:
			if _, ok := s.S.(*Seq); ok {
				in.noteLit("count", &Sym{Name: "*"}, "1")
			}
			return x
		case *Seq, *Ptr:
			return x
		}
		return nil
	})
}

// sepFree: generic atoms contain no separators, no white space and no literal of the program.
func sepFree(v Val) bool { return isGeneric(v) || isNumeric(v) }

func isNumeric(v Val) bool {
	a, ok := v.(*App)
	return ok && a.F == "itoa"
}

// strMap applies a per-character string function.
func (in *Interp) strMap(name string, v Val, f func(string) string, perPart bool) Val {
	return mapAlt(v, func(v Val) Val {
		if s, ok := constStr(v); ok {
			return S(f(s))
		}
		if a, ok := v.(*App); ok && a.F == name {
			return v
		}
		if isNumeric(v) {
			return v
		}
		if s, ok := v.(*Sym); ok && strings.HasPrefix(s.Name, "s_") && (name == "strings.ToLower" || name == "strcase.ToSnake") {
			return v // contexts name snake-case atoms s_…
		}
		if a, ok := v.(*App); ok && name == "strcase.ToSnake" && (a.F == "strcase.ToCamel" || a.F == "strcase.ToLowerCamel") && len(a.Args) == 1 {
			if s, ok := a.Args[0].(*Sym); ok && strings.HasPrefix(s.Name, "s_") {
				return s // and they are the snake case of their camel case
			}
		}
		if c, ok := v.(*Cat); ok && perPart {
			return in.mapStrParts(c.Parts, func(p Val) Val { return in.strMap(name, p, f, true) })
		}
		return in.app(name, tString, v)
	})
}

func (in *Interp) mapStrParts(ps []Val, f func(Val) Val) Val {
	var rec func(ps []Val) []Val
	rec = func(ps []Val) []Val {
		var out []Val
		for _, p := range ps {
			switch x := p.(type) {
			case *Rep:
				out = append(out, &Rep{Body: rec(x.Body), Min: x.Min, Loop: x.Loop, Unord: x.Unord})
			case *AltP:
				var o [][]Val
				for _, y := range x.Opts {
					o = append(o, rec(y))
				}
				out = append(out, &AltP{Opts: o})
			default:
				q, _ := strParts(f(p))
				out = append(out, q...)
			}
		}
		return out
	}
	return mkCat(rec(ps)...)
}

func (in *Interp) seqItems(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, true
	case *Seq:
		return in.currentSeq(st, x).Items, true
	case *Alt:
		var opts [][]Val
		for _, y := range x.Vals {
			it, ok := in.seqItems(st, y)
			if !ok {
				return nil, false
			}
			opts = append(opts, it)
		}
		return altParts2(opts), true
	case *Iface:
		return in.seqItems(st, x.V)
	case *App:
		if x.T != nil {
			if s, ok := x.T.Underlying().(*types.Slice); ok {
				return []Val{&Rep{Body: []Val{&El{&App{F: "elem", Args: []Val{x}, T: s.Elem()}}}, Loop: x.Key()}}, true
			}
		}
	}
	return nil, false
}

// joinItems concatenates the elements with separators in between.
func joinItems(items []Val, sep Val, txt func(Val) Val) Val {
	type alt struct {
		parts   []Val
		started bool
	}
	var sp []Val
	if sep != nil {
		sp, _ = strParts(sep)
	}
	merge := func(as []alt) []alt {
		var r []alt
		for _, st := range []bool{false, true} {
			var ps []Val
			n := 0
			for _, a := range as {
				if a.started == st {
					if n == 0 {
						ps = a.parts
					} else {
						ps = joinParts(ps, a.parts)
					}
					n++
				}
			}
			if n > 0 {
				r = append(r, alt{ps, st})
			}
		}
		return r
	}
	var walk func(items []Val, started bool) []alt
	walk = func(items []Val, started bool) []alt {
		cur := []alt{{nil, started}}
		for _, it := range items {
			var next []alt
			for _, c := range cur {
				switch x := it.(type) {
				case *El:
					p := append([]Val{}, c.parts...)
					if c.started {
						p = append(p, sp...)
					}
					q, ok := strParts(txt(x.V))
					if !ok {
						q = []Val{&App{F: "str", Args: []Val{x.V}, T: tString}}
					}
					next = append(next, alt{append(p, q...), true})
				case *AltP:
					for _, o := range x.Opts {
						for _, r := range walk(o, c.started) {
							next = append(next, alt{append(append([]Val{}, c.parts...), r.parts...), r.started})
						}
					}
				case *Rep:
					body := walk(x.Body, true)
					var bp []Val
					for i, b := range body {
						if i == 0 {
							bp = b.parts
						} else {
							bp = joinParts(bp, b.parts)
						}
					}
					if c.started {
						next = append(next, alt{append(append([]Val{}, c.parts...), repOf(bp, x.Min, x)...), true})
						continue
					}
					rest := repOf(bp, 0, x)
					none := x.Min == 0
					for _, f := range walk(x.Body, false) {
						if !f.started {
							none = true
							continue
						}
						p := append(append([]Val{}, c.parts...), f.parts...)
						next = append(next, alt{append(p, rest...), true})
					}
					if none {
						next = append(next, alt{c.parts, false})
					}
				default:
					next = append(next, alt{append(append([]Val{}, c.parts...), top("unknown part")), true})
				}
			}
			cur = merge(next)
		}
		return cur
	}
	var res []Val
	for i, a := range walk(items, false) {
		if i == 0 {
			res = a.parts
		} else {
			res = joinParts(res, a.parts)
		}
	}
	return mkCat(res...)
}

func repOf(body []Val, min int, like *Rep) []Val {
	if len(body) == 0 {
		return nil
	}
	return []Val{&Rep{Body: body, Min: min, Loop: like.Loop, Unord: like.Unord}}
}

// splitStr splits v at the constant separator; n as in strings.SplitN.
func (in *Interp) splitStr(v Val, sep string, n int) ([]Val, bool) {
	if s, ok := constStr(v); ok {
		var out []Val
		for _, x := range strings.SplitN(s, sep, n) {
			out = append(out, &El{S(x)})
		}
		return out, true
	}
	ps, ok := strParts(v)
	if !ok || sep == "" {
		return nil, false
	}
	var out []Val
	var cur []Val
	for _, p := range ps {
		if c, ok := p.(*Const); ok {
			s := c.V.(string)
			for n < 0 || len(out)+1 < n {
				i := strings.Index(s, sep)
				if i < 0 {
					break
				}
				cur = append(cur, S(s[:i]))
				out = append(out, &El{mkCat(cur...)})
				cur = nil
				s = s[i+len(sep):]
			}
			cur = append(cur, S(s))
			continue
		}
		if n > 0 && len(out)+1 >= n {
			cur = append(cur, p)
			continue
		}
		if !sepFree(p) {
			if r, ok := p.(*Rep); ok && len(cur) > 0 && !in.mayContain(r.Body, sep) {
				cur = append(cur, p)
				continue
			}
			return nil, false
		}
		in.noteLit("contains", p, sep)
		cur = append(cur, p)
	}
	out = append(out, &El{mkCat(cur...)})
	return out, true
}

func (in *Interp) mayContain(ps []Val, sub string) bool {
	for _, p := range ps {
		switch x := p.(type) {
		case *Const:
			if strings.Contains(x.V.(string), sub) {
				return true
			}
		case *Rep:
			if in.mayContain(x.Body, sub) {
				return true
			}
		case *AltP:
			for _, o := range x.Opts {
				if in.mayContain(o, sub) {
					return true
				}
			}
		default:
			if !sepFree(p) {
				return true
			}
		}
	}
	return false
}

// contains decides whether the string holds sub: 1 yes, 0 no, -1 unknown.
func (in *Interp) contains(v Val, sub string) int {
	if s, ok := constStr(v); ok {
		if strings.Contains(s, sub) {
			return 1
		}
		return 0
	}
	ps, ok := strParts(v)
	if !ok {
		return -1
	}
	unknown := false
	var walk func(ps []Val, certain bool) int
	walk = func(ps []Val, certain bool) int {
		for i, p := range ps {
			switch x := p.(type) {
			case *Const:
				s := x.V.(string)
				if strings.Contains(s, sub) {
					if certain {
						return 1
					}
					unknown = true
				}
				// a match across a part boundary needs part of an atom
				_ = i
			case *Rep:
				if walk(x.Body, certain && x.Min > 0) == 1 {
					return 1
				}
			case *AltP:
				all := len(x.Opts) > 0
				for _, o := range x.Opts {
					u := unknown
					unknown = false
					if walk(o, true) != 1 {
						all = false
						if in.mayContain(o, sub) {
							u = true
						}
					} else {
						u = true
					}
					unknown = u
				}
				if all && certain {
					return 1
				}
			default:
				if !sepFree(p) {
					unknown = true
				} else if isNumeric(p) {
					if strings.ContainsAny(sub, "0123456789") {
						unknown = true
					}
				} else {
					in.noteLit("contains", atomOf(p), sub)
				}
			}
		}
		return 0
	}
	if walk(ps, true) == 1 {
		return 1
	}
	if unknown {
		return -1
	}
	return 0
}

func atomOf(v Val) Val {
	for {
		a, ok := v.(*App)
		if !ok || len(a.Args) == 0 {
			return v
		}
		v = a.Args[0]
	}
}

// prefix decides strings.HasPrefix.
func (in *Interp) hasPrefix(v Val, pre string, suffix bool) int {
	if pre == "" {
		return 1
	}
	if s, ok := constStr(v); ok {
		if suffix && strings.HasSuffix(s, pre) || !suffix && strings.HasPrefix(s, pre) {
			return 1
		}
		return 0
	}
	ps, ok := strParts(v)
	if !ok || len(ps) == 0 {
		return -1
	}
	p := ps[0]
	if suffix {
		p = ps[len(ps)-1]
	}
	if c, ok := p.(*Const); ok {
		s := c.V.(string)
		if len(s) >= len(pre) {
			if suffix && strings.HasSuffix(s, pre) || !suffix && strings.HasPrefix(s, pre) {
				return 1
			}
			return 0
		}
		if suffix && !strings.HasSuffix(pre, s) || !suffix && !strings.HasPrefix(pre, s) {
			return 0
		}
		if len(ps) > 1 {
			q := ps[1]
			if suffix {
				q = ps[len(ps)-2]
			}
			if sepFree(q) {
				return 0
			}
		}
		return -1
	}
	if isNumeric(p) {
		if c := pre[0]; !suffix && (c < '0' || c > '9') {
			return 0
		}
		if c := pre[len(pre)-1]; suffix && (c < '0' || c > '9') {
			return 0
		}
		return -1
	}
	if sepFree(p) {
		k := "prefix"
		if suffix {
			k = "suffix"
		}
		in.noteLit(k, atomOf(p), pre)
		return 0
	}
	if a, ok := p.(*AltP); ok {
		r := -2
		for _, o := range a.Opts {
			q := append(append([]Val{}, o...), ps[1:]...)
			if suffix {
				q = append(append([]Val{}, ps[:len(ps)-1]...), o...)
			}
			x := in.hasPrefix(mkCat(q...), pre, suffix)
			if r == -2 {
				r = x
			} else if r != x {
				return -1
			}
		}
		return r
	}
	return -1
}

func tri(r int, unknown Val) Val {
	switch r {
	case 1:
		return trueV
	case 0:
		return falseV
	}
	return unknown
}

func (in *Interp) trim(v Val, name string, left, right bool, f func(rune) bool) Val {
	return mapAlt(v, func(v Val) Val {
		ps, ok := strParts(v)
		if !ok {
			return in.app(name, tString, v)
		}
		ps = append([]Val{}, ps...)
		if left {
			for len(ps) > 0 {
				c, ok := ps[0].(*Const)
				if !ok {
					break
				}
				s := strings.TrimLeftFunc(c.V.(string), f)
				if s != "" {
					ps[0] = S(s)
					break
				}
				ps = ps[1:]
			}
		}
		if right {
			for len(ps) > 0 {
				c, ok := ps[len(ps)-1].(*Const)
				if !ok {
					break
				}
				s := strings.TrimRightFunc(c.V.(string), f)
				if s != "" {
					ps[len(ps)-1] = S(s)
					break
				}
				ps = ps[:len(ps)-1]
			}
		}
		edge := func(v Val) bool { return isConst(v) || sepFree(v) && !in.mayEdge(v) }
		okL := !left || len(ps) == 0 || edge(ps[0])
		okR := !right || len(ps) == 0 || edge(ps[len(ps)-1])
		if okL && okR {
			return mkCat(ps...)
		}
		// an alternative at an edge: distribute
		if left && len(ps) > 0 {
			if a, ok := ps[0].(*AltP); ok {
				var r Val
				for _, o := range a.Opts {
					r = join2(r, in.trim(mkCat(append(append([]Val{}, o...), ps[1:]...)...), name, left, right, f))
				}
				return r
			}
		}
		if right && len(ps) > 0 {
			if a, ok := ps[len(ps)-1].(*AltP); ok {
				var r Val
				for _, o := range a.Opts {
					r = join2(r, in.trim(mkCat(append(append([]Val{}, ps[:len(ps)-1]...), o...)...), name, left, right, f))
				}
				return r
			}
		}
		return in.app(name, tString, mkCat(ps...))
	})
}

func join2(a, b Val) Val {
	if a == nil {
		return b
	}
	return join(a, b)
}

func isConst(v Val) bool { _, ok := v.(*Const); return ok }

// mayEdge: the text may start or end with characters that trimming removes.
func (in *Interp) mayEdge(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return in.ctx.Edges[x.Name]
	case *App:
		return x.F != "strings.TrimSpace" && x.F != "itoa" && len(x.Args) > 0 && in.mayEdge(x.Args[0])
	}
	return false
}

// text is the %v rendering of a value.
func (in *Interp) text(fr *frame, st *State, v Val, pos string) Val {
	switch x := v.(type) {
	case *Iface:
		// Stringer / error
		for _, m := range []string{"Error", "String"} {
			sel := in.prog.ssa.MethodSets.MethodSet(x.T).Lookup(nil, m)
			if sel != nil {
				if fn := in.prog.ssa.MethodValue(sel); fn != nil && in.prog.analysed(fn) && fn.Blocks != nil && fn.Signature.Results().Len() == 1 {
					if _, ok := x.V.(NilV); ok {
						break
					}
					outs := in.callFn(fn, []Val{x.V}, nil, st.clone(), "text:"+pos)
					var r Val
					for _, o := range outs {
						r = join2(r, o.vals[0])
					}
					if r != nil {
						return r
					}
				}
			}
		}
		if a, ok := x.V.(*App); ok && (a.F == "error" || a.F == "errorf" || a.F == "liberr") {
			return in.text(fr, st, a.Args[0], pos)
		}
		return in.text(fr, st, x.V, pos)
	case *Const:
		switch c := x.V.(type) {
		case string:
			return x
		case int64:
			return S(strconv.FormatInt(c, 10))
		default:
			return S(fmt.Sprint(c))
		}
	case NilV:
		return S("<nil>")
	case *Alt:
		return mapAlt(x, func(y Val) Val { return in.text(fr, st, y, pos) })
	case *Seq:
		s := in.currentSeq(st, x)
		return concat(S("["), joinItems(s.Items, S(" "), func(e Val) Val {
			if p, ok := e.(*Ptr); ok {
				return in.app("runtime.address", tString, p) // a pointer within a list is printed as an address
			}
			return in.text(fr, st, e, pos)
		}), S("]"))
	case *Cat:
		return x
	case *Sym:
		if isStringType(x.T) || x.T == nil {
			return x
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return in.itoa(x)
		}
	case *App:
		if isStringType(x.T) || x.T == nil {
			return x
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return in.itoa(x)
		}
		if x.F == "error" || x.F == "errorf" || x.F == "liberr" {
			return in.text(fr, st, x.Args[0], pos)
		}
	case *Lin, *LenOf, *LVar, *Iter:
		return in.itoa(x)
	case *TopV:
		return x
	}
	return in.app("text", tString, v)
}

func (in *Interp) itoa(v Val) Val {
	return mapAlt(v, func(v Val) Val {
		if n, ok := constInt(v); ok {
			return S(strconv.FormatInt(n, 10))
		}
		if a, ok := v.(*App); ok && a.F == "atoi" {
			return a.Args[0]
		}
		if isTop(v) {
			return v
		}
		return in.app("itoa", tString, v)
	})
}

// sprintf formats.
func (in *Interp) sprintf(fr *frame, st *State, format Val, args []Val, pos string) Val {
	f, ok := constStr(format)
	if !ok {
		if a, ok := format.(*Alt); ok {
			return mapAlt(a, func(x Val) Val { return in.sprintf(fr, st, x, args, pos) })
		}
		// format with generic parts: verbs only in the literal parts
		if c, ok := format.(*Cat); ok {
			var out []Val
			i := 0
			for _, p := range c.Parts {
				if k, ok := p.(*Const); ok {
					n := countVerbs(k.V.(string))
					if i+n > len(args) {
						n = len(args) - i
					}
					out = append(out, in.sprintf(fr, st, k, args[i:i+n], pos))
					i += n
				} else if isGeneric(p) {
					out = append(out, p)
				} else {
					return top("format string not constant at %s", pos)
				}
			}
			return concat(out...)
		}
		if isGeneric(format) {
			return format
		}
		return top("format string not constant at %s", pos)
	}
	var out []Val
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, S(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, S("%!(NOVERB)"))
			break
		}
		spec, verb := f[i:j+1], f[j]
		i = j
		if verb == '%' {
			out = append(out, S("%"))
			continue
		}
		if strings.ContainsAny(spec, "[*") {
			out = append(out, top("format %s", spec))
			continue
		}
		if ai >= len(args) {
			out = append(out, S("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'p' {
			out = append(out, in.app("runtime.address", tString, a))
			continue
		}
		out = append(out, in.fmtVerb(fr, st, spec, verb, a, pos))
	}
	for ; ai < len(args); ai++ {
		out = append(out, S("%!(EXTRA)"))
	}
	return concat(out...)
}

func countVerbs(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			if i+1 < len(s) && s[i+1] == '%' {
				i++
				continue
			}
			n++
		}
	}
	return n
}

func unwrap(v Val) Val {
	if i, ok := v.(*Iface); ok {
		return unwrap(i.V)
	}
	return v
}

func (in *Interp) fmtVerb(fr *frame, st *State, spec string, verb byte, a Val, pos string) Val {
	if al, ok := a.(*Alt); ok {
		return mapAlt(al, func(y Val) Val { return in.fmtVerb(fr, st, spec, verb, y, pos) })
	}
	u := unwrap(a)
	if al, ok := u.(*Alt); ok {
		return mapAlt(al, func(y Val) Val { return in.fmtVerb(fr, st, spec, verb, y, pos) })
	}
	if c, ok := u.(*Const); ok {
		if _, isStr := c.V.(string); !isStr || len(spec) > 2 || verb == 'q' {
			if i, ok := a.(*Iface); !ok || !hasStringer(in, i.T) {
				return S(fmt.Sprintf(spec, c.V))
			}
		}
	}
	switch {
	case len(spec) == 2 && (verb == 's' || verb == 'v'):
		if (verb == 's') && isIntVal(u) {
			return concat(S("%!s("), in.text(fr, st, a, pos), S(")"))
		}
		return in.text(fr, st, a, pos)
	case len(spec) == 2 && verb == 'd':
		if isIntVal(u) {
			return in.itoa(u)
		}
		if isStr(u) {
			return concat(S("%!d("), in.text(fr, st, a, pos), S(")"))
		}
		return in.text(fr, st, a, pos)
	case len(spec) == 2 && verb == 'w':
		return in.text(fr, st, a, pos)
	case len(spec) == 2 && verb == 'q':
		if isGeneric(u) {
			return concat(S(`"`), u, S(`"`))
		}
		return in.app("quote", tString, u)
	}
	return in.app("fmt"+spec, tString, u)
}

func hasStringer(in *Interp, t types.Type) bool {
	ms := in.prog.ssa.MethodSets.MethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

func isIntVal(v Val) bool {
	switch x := v.(type) {
	case *Const:
		_, ok := x.V.(int64)
		return ok
	case *Lin, *LenOf, *Iter:
		return true
	case *Sym:
		return isIntType(x.T)
	case *App:
		return isIntType(x.T)
	case *LVar:
		return isIntType(x.T)
	}
	return false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *Interp) errVal(msg Val) Val {
	t := in.typeByName("*errors.errorString")
	if t == nil {
		t = types.NewPointer(tString)
	}
	return &Iface{t, &App{F: "error", Args: []Val{msg}}}
}

// libErr is an error made by a library, of a type that is not known.
func (in *Interp) libErr(msg Val) Val {
	return &Iface{in.errVal(msg).(*Iface).T, &App{F: "liberr", Args: []Val{msg}}}
}

// writeTo appends s to a writer.
func (in *Interp) writeTo(fr *frame, st *State, w Val, s Val, pos string) *State {
	switch x := w.(type) {
	case *Iface:
		// a writer implemented in the repository
		if p, ok := x.V.(*Ptr); ok {
			if in.appendObj(st, p, s) {
				return st
			}
		}
		sel := in.prog.ssa.MethodSets.MethodSet(x.T).Lookup(nil, "Write")
		if sel != nil {
			if fn := in.prog.ssa.MethodValue(sel); fn != nil && in.prog.analysed(fn) && fn.Blocks != nil {
				outs := in.callFn(fn, []Val{x.V, s}, nil, st, "write:"+pos)
				var r *State
				for _, o := range outs {
					if r == nil {
						r = o.st
					} else {
						r = in.joinStates(r, o.st)
					}
				}
				if r != nil {
					return r
				}
				return st
			}
		}
		return in.writeTo(fr, st, x.V, s, pos)
	case *Ptr:
		if in.appendObj(st, x, s) {
			return st
		}
	case *Alt:
		var r *State
		for i, y := range x.Vals {
			s2 := st
			if i < len(x.Vals)-1 {
				s2 = st.clone()
			}
			s2 = in.writeTo(fr, s2, y, s, pos)
			if r == nil {
				r = s2
			} else {
				r = in.joinStates(r, s2)
			}
		}
		return r
	case *Sym:
		if x.Name == "os.Stdout" || x.Name == "os.Stderr" {
			st.emit("print", pos, S(x.Name), s)
			return st
		}
		st.emit("write", pos, x, s)
		return st
	}
	in.problem("write to unknown writer %T at %s", w, pos)
	return st
}

func (in *Interp) appendObj(st *State, p *Ptr, s Val) bool {
	v := in.load(nil, st, &Ptr{Obj: p.Obj, Path: p.Path}, "")
	if o, ok := v.(*LibObj); ok {
		switch o.Kind {
		case "os.File":
			st.emit("append", "", o.F["path"], s)
			return true
		case "bufio.Writer":
			in.store(st, &Ptr{Obj: p.Obj, Path: p.Path}, &LibObj{Kind: "bufio.Writer", F: map[string]Val{"w": o.F["w"], "buf": concat(o.F["buf"], s)}}, "")
			return true
		}
		return false
	}
	if _, ok := strParts(v); ok {
		in.store(st, p, concat(v, s), "")
		return true
	}
	return false
}

func (in *Interp) newObj(st *State, site string, v Val) *Ptr {
	id := in.allocID("lib:" + site)
	st.heap[id] = v
	return &Ptr{Obj: id}
}

// failed is the state after an injected failure, marked in the effects.
func (in *Interp) failed(st *State, pos string) *State {
	n := st.clone()
	n.emit("fault", pos)
	return n
}

// fails reports whether the failing outcome of a library call is analysed too.
func (in *Interp) fails(call, pos string) bool {
	return in.ctx.Faults != nil && in.ctx.Faults(call, pos)
}

// flagDecl finds the declaration of an option under any of its names.
func (in *Interp) flagDecl(name string) *Flag {
	for _, f := range in.cmd.Flags {
		for _, n := range f.Names {
			if n == name {
				return f
			}
		}
	}
	return nil
}

// flagGiven is the value the context gives to an option, under any of its names.
func (in *Interp) flagGiven(name string) (Val, bool) {
	names := []string{name}
	if in.cmd != nil {
		fl := in.flagDecl(name)
		if fl == nil {
			return nil, false
		}
		names = fl.Names
	}
	for _, n := range names {
		if v, ok := in.ctx.Vals["flag:"+n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (in *Interp) flagInt(name string) Val {
	if in.flagsRead == nil {
		in.flagsRead = map[string]bool{}
	}
	in.flagsRead[name] = true
	if v, ok := in.flagGiven(name); ok {
		if s, isS := constStr(v); isS {
			n, _ := strconv.ParseInt(s, 0, 64)
			return I(n)
		}
		if _, isI := constInt(v); isI {
			return v
		}
		return in.app("int", tInt, v)
	}
	if fl := in.flagDecl(name); fl != nil {
		if _, isI := constInt(fl.Value); isI && strings.Contains(fl.Kind, "Int") {
			return fl.Value
		}
	}
	return I(0)
}

func (in *Interp) flagVal(name string, boolean bool) Val {
	if in.flagsRead == nil {
		in.flagsRead = map[string]bool{}
	}
	in.flagsRead[name] = true
	if v, ok := in.flagGiven(name); ok {
		if b, isB := constBool(v); isB && !boolean {
			return S(fmt.Sprint(b))
		}
		if _, isB := constBool(v); isB {
			return v
		}
		if s, isS := constStr(v); isS && boolean {
			b, _ := strconv.ParseBool(s)
			return B(b)
		}
		if boolean && !isBoolVal(v) {
			return in.app("bool", tBool, v)
		}
		return v
	}
	if in.cmd != nil {
		fl := in.flagDecl(name)
		if fl == nil {
			if boolean {
				return falseV
			}
			return S("")
		}
		if boolean {
			if b, ok := constBool(fl.Value); ok {
				return B(b)
			}
			return falseV
		}
		if fl.Required {
			return &Sym{Name: "flag:" + fl.Names[0], T: tString, Gen: true}
		}
		if s, ok := constStr(fl.Value); ok {
			return S(s)
		}
		return S("")
	}
	if boolean {
		return falseV
	}
	return S("")
}

// rootName names the document read from a path.
func rootName(v Val) string {
	k := ""
	mapVal(v, func(x Val) Val {
		if s, ok := x.(*Sym); ok && k == "" {
			k = s.Name
		}
		return nil
	})
	if i := strings.LastIndex(k, "flag:"); i >= 0 {
		return k[i+5:]
	}
	if k == "" {
		if s, ok := constStr(v); ok {
			return "file:" + s
		}
		return "doc"
	}
	return k
}

var strFold = map[string]struct {
	f    func(string) string
	part bool
}{
	"strings.ToLower": {strings.ToLower, true}, "strings.ToUpper": {strings.ToUpper, true},
	"strings.Title":                         {strings.Title, false},
	"github.com/iancoleman/strcase.ToCamel": {strcase.ToCamel, false}, "github.com/iancoleman/strcase.ToLowerCamel": {strcase.ToLowerCamel, false},
	"github.com/iancoleman/strcase.ToSnake": {strcase.ToSnake, false}, "github.com/iancoleman/strcase.ToScreamingSnake": {strcase.ToScreamingSnake, false},
	"github.com/iancoleman/strcase.ToKebab": {strcase.ToKebab, false},
}

var pluralClient = pluralize.NewClient()

func (in *Interp) model(fr *frame, st *State, name string, args []Val, site, pos string, sig *types.Signature) []*Outcome {
	in.stats.libCall(name)
	arg := func(i int) Val {
		if i < len(args) {
			return args[i]
		}
		return top("missing argument")
	}
	vararg := func(i int) []Val {
		items, ok := in.seqItems(st, arg(i))
		if !ok {
			return []Val{top("varargs")}
		}
		var out []Val
		for _, it := range items {
			if e, ok := it.(*El); ok {
				out = append(out, e.V)
			} else {
				out = append(out, top("varargs"))
			}
		}
		return out
	}
	if f, ok := strFold[name]; ok {
		short := name[strings.LastIndex(name, "/")+1:]
		return ret(st, in.strMap(short, arg(0), f.f, f.part))
	}
	switch name {
	// ---- fmt ----
	case "fmt.Sprintf":
		return ret(st, in.sprintf(fr, st, arg(0), vararg(1), pos))
	case "fmt.Errorf":
		return ret(st, in.errVal(in.sprintf(fr, st, arg(0), vararg(1), pos)))
	case "fmt.Sprint", "fmt.Sprintln":
		var parts []Val
		as := vararg(0)
		for i, a := range as {
			if i > 0 && (name == "fmt.Sprintln" || !isStr(unwrap(a)) && !isStr(unwrap(as[i-1]))) {
				parts = append(parts, S(" "))
			}
			parts = append(parts, in.text(fr, st, a, pos))
		}
		if name == "fmt.Sprintln" {
			parts = append(parts, S("\n"))
		}
		return ret(st, concat(parts...))
	case "fmt.Fprintf":
		st = in.writeTo(fr, st, arg(0), in.sprintf(fr, st, arg(1), vararg(2), pos), pos)
		return in.sinkResult(st, arg(0), name, pos, 2)
	case "fmt.Fprint", "fmt.Fprintln":
		var parts []Val
		for i, a := range vararg(1) {
			if i > 0 {
				parts = append(parts, S(" "))
			}
			parts = append(parts, in.text(fr, st, a, pos))
		}
		if name == "fmt.Fprintln" {
			parts = append(parts, S("\n"))
		}
		st = in.writeTo(fr, st, arg(0), concat(parts...), pos)
		return in.sinkResult(st, arg(0), name, pos, 2)
	case "fmt.Printf":
		st.emit("print", pos, S("os.Stdout"), in.sprintf(fr, st, arg(0), vararg(1), pos))
		return ret(st, I(0), nilV)
	case "fmt.Print", "fmt.Println":
		var parts []Val
		for _, a := range vararg(0) {
			parts = append(parts, in.text(fr, st, a, pos))
		}
		st.emit("print", pos, S("os.Stdout"), concat(parts...))
		return ret(st, I(0), nilV)
	case "log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetOutput", "log.SetPrefix":
		return ret(st)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		in.fatals[pos] = true
		if n, ok := constInt(arg(0)); name == "os.Exit" && (!ok || n&255 == 0) {
			in.exitOuts0 = append(in.exitOuts0, st)
		}
		in.exitOuts = append(in.exitOuts, st)
		return nil
	case "log.Panicf", "log.Panic", "log.Panicln":
		in.panicAt(st, pos, "log.Panic", true)
		return nil
	case "errors.New":
		return ret(st, in.errVal(arg(0)))
	case "errors.Is", "errors.As":
		return ret(st, in.app(name, tBool, arg(0), arg(1)))
	case "errors.Unwrap":
		return ret(st, mkAlt(nilV, arg(0)))
	// ---- strings ----
	case "strings.Join":
		items, ok := in.seqItems(st, arg(0))
		if !ok {
			return ret(st, top("join of %T", arg(0)))
		}
		return ret(st, mapAlt(arg(1), func(sep Val) Val { return joinItems(items, sep, func(v Val) Val { return v }) }))
	case "strings.Split", "strings.SplitN", "strings.SplitAfter":
		n := -1
		if name == "strings.SplitN" {
			if c, ok := constInt(arg(2)); ok {
				n = int(c)
			} else {
				return ret(st, top("SplitN"))
			}
		}
		sep, ok := constStr(arg(1))
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if ok && name != "strings.SplitAfter" {
				if items, ok := in.splitStr(v, sep, n); ok {
					return &Seq{Items: items, T: types.NewSlice(tString), ID: in.allocID("split:" + site), NN: true}
				}
			}
			return in.app(name, types.NewSlice(tString), v, arg(1))
		}))
	case "strings.Fields":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				var items []Val
				for _, x := range strings.Fields(s) {
					items = append(items, &El{S(x)})
				}
				return &Seq{Items: items, T: types.NewSlice(tString), ID: in.allocID("split:" + site), NN: true}
			}
			return in.app(name, types.NewSlice(tString), v)
		}))
	case "strings.Contains":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			if s, ok := constStr(b); ok {
				return tri(in.contains(a, s), in.app(name, tBool, a, b))
			}
			if a.Key() == b.Key() {
				return trueV
			}
			return in.app(name, tBool, a, b)
		}))
	case "strings.ContainsAny", "strings.ContainsRune":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			set, ok := constStr(b)
			if n, isR := constInt(b); isR {
				set, ok = string(rune(n)), true
			}
			if ok {
				r := 0
				for _, c := range set {
					switch in.contains(a, string(c)) {
					case 1:
						return trueV
					case -1:
						r = -1
					}
				}
				return tri(r, in.app(name, tBool, a, b))
			}
			return in.app(name, tBool, a, b)
		}))
	case "strings.HasPrefix", "strings.HasSuffix":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			if s, ok := constStr(b); ok {
				return tri(in.hasPrefix(a, s, name == "strings.HasSuffix"), in.app(name, tBool, a, b))
			}
			if a.Key() == b.Key() {
				return trueV
			}
			return in.affix(name, a, b)
		}))
	case "strings.TrimPrefix", "strings.TrimSuffix":
		suf := name == "strings.TrimSuffix"
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val { return in.trimAffix(name, a, b, suf) }))
	case "strings.CutPrefix", "strings.CutSuffix":
		suf := name == "strings.CutSuffix"
		is := "strings.HasPrefix"
		if suf {
			is = "strings.HasSuffix"
		}
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val { return in.trimAffix(strings.Replace(name, "Cut", "Trim", 1), a, b, suf) }),
			in.lift2(arg(0), arg(1), func(a, b Val) Val {
				if s, ok := constStr(b); ok {
					return tri(in.hasPrefix(a, s, suf), in.app(is, tBool, a, b))
				}
				return in.affix(is, a, b)
			}))
	case "strings.Cut":
		part := func(n int) Val {
			return in.lift2(arg(0), arg(1), func(a, b Val) Val {
				sep, ok := constStr(b)
				if !ok {
					return top("%s", name)
				}
				items, ok := in.splitStr(a, sep, 2)
				if !ok {
					return top("%s", name)
				}
				switch {
				case n == 2:
					return B(len(items) == 2)
				case n < len(items):
					return items[n].(*El).V
				}
				return S("")
			})
		}
		return ret(st, part(0), part(1), part(2))
	case "strings.TrimSpace":
		return ret(st, in.trim(arg(0), name, true, true, unicode.IsSpace))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		cut, ok := constStr(arg(1))
		if !ok {
			return ret(st, in.app(name, tString, arg(0), arg(1)))
		}
		return ret(st, in.trim(arg(0), name+strconv.Quote(cut), name != "strings.TrimRight", name != "strings.TrimLeft",
			func(r rune) bool { return strings.ContainsRune(cut, r) }))
	case "strings.Repeat", "bytes.Repeat":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			if n, ok := constInt(b); ok && n >= 0 && n < 1000 {
				out := []Val{}
				for i := int64(0); i < n; i++ {
					out = append(out, a)
				}
				return concat(out...)
			}
			return in.app(name, tString, a, b)
		}))
	case "strings.Compare":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			s1, ok1 := constStr(a)
			s2, ok2 := constStr(b)
			if ok1 && ok2 {
				return I(int64(strings.Compare(s1, s2)))
			}
			if a.Key() == b.Key() {
				return I(0)
			}
			return in.app(name, tInt, a, b)
		}))
	case "strings.EqualFold":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			return in.eq(in.strMap("strings.ToLower", a, strings.ToLower, true), in.strMap("strings.ToLower", b, strings.ToLower, true))
		}))
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
		return ret(st, in.lift2(arg(0), arg(1), func(a, b Val) Val {
			s2, ok2 := constStr(b)
			if n, isR := constInt(b); isR {
				s2, ok2 = string(rune(n)), true
			}
			if s1, ok1 := constStr(a); ok1 && ok2 {
				if strings.HasPrefix(name, "strings.Last") {
					return I(int64(strings.LastIndex(s1, s2)))
				}
				return I(int64(strings.Index(s1, s2)))
			}
			if ok2 && in.contains(a, s2) == 0 {
				return I(-1)
			}
			if ok2 && s2 != "" {
				n := 2
				if strings.HasPrefix(name, "strings.Last") {
					n = -1
				}
				if items, ok := in.splitStr(a, s2, n); ok && len(items) > 1 {
					var before []Val
					for i, x := range items[:len(items)-1] {
						if i > 0 {
							before = append(before, S(s2))
						}
						before = append(before, x.(*El).V)
					}
					lead := concat(before...)
					if s, ok := constStr(lead); ok {
						return I(int64(len(s)))
					}
					return &LenOf{lead}
				}
			}
			return in.app(name, tInt, a, b)
		}))
	case "strings.Count":
		if s1, ok1 := constStr(arg(0)); ok1 {
			if s2, ok2 := constStr(arg(1)); ok2 {
				return ret(st, I(int64(strings.Count(s1, s2))))
			}
		}
		return ret(st, in.app(name, tInt, arg(0), arg(1)))
	case "strings.Replace", "strings.ReplaceAll":
		n := -1
		if name == "strings.Replace" {
			c, ok := constInt(arg(3))
			if !ok {
				return ret(st, in.app(name, tString, args...))
			}
			n = int(c)
		}
		return ret(st, in.replace(arg(0), arg(1), arg(2), n))
	case "strings.NewReplacer":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "strings.Replacer", F: map[string]Val{"args": &Tup{vararg(0)}}}))
	case "(*strings.Replacer).Replace":
		if o, ok := in.obj(st, arg(0)); ok {
			v := arg(1)
			as := o.F["args"].(*Tup).Vs
			// generic atoms are free of the replaced literals, so sequential replacement is exact on the literal parts
			// when no replacement text contains a later key
			for i := 0; i+1 < len(as); i += 2 {
				v = in.replace(v, as[i], as[i+1], -1)
			}
			return ret(st, v)
		}
	case "strings.Map":
		return ret(st, in.app(name, tString, arg(1), arg(0)))
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer":
		return ret(st, in.newObj(st, site, nilStr(arg(0))))
	case "unicode.IsUpper", "unicode.IsLower", "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace":
		if n, ok := constInt(arg(0)); ok {
			r := rune(n)
			switch name {
			case "unicode.IsUpper":
				return ret(st, B(unicode.IsUpper(r)))
			case "unicode.IsLower":
				return ret(st, B(unicode.IsLower(r)))
			case "unicode.IsDigit":
				return ret(st, B(unicode.IsDigit(r)))
			case "unicode.IsLetter":
				return ret(st, B(unicode.IsLetter(r)))
			}
			return ret(st, B(unicode.IsSpace(r)))
		}
		return ret(st, in.app(name, tBool, arg(0)))
	case "unicode.ToUpper", "unicode.ToLower":
		if n, ok := constInt(arg(0)); ok {
			if name == "unicode.ToUpper" {
				return ret(st, I(int64(unicode.ToUpper(rune(n)))))
			}
			return ret(st, I(int64(unicode.ToLower(rune(n)))))
		}
		return ret(st, in.app(name, types.Typ[types.Rune], arg(0)))
	case "unicode/utf8.RuneCountInString":
		if s, ok := constStr(arg(0)); ok {
			return ret(st, I(int64(len([]rune(s)))))
		}
		return ret(st, in.length(st, arg(0)))
	// ---- strconv ----
	case "strconv.Itoa":
		return ret(st, in.itoa(arg(0)))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := constInt(arg(1)); ok && b == 10 {
			return ret(st, in.itoa(arg(0)))
		}
		return ret(st, in.app(name, tString, args...))
	case "strconv.FormatBool":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if b, ok := constBool(v); ok {
				return S(strconv.FormatBool(b))
			}
			return in.app("text", tString, v)
		}))
	case "strconv.Quote":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				return S(strconv.Quote(s))
			}
			if ps, ok := strParts(v); ok {
				okAll := true
				for _, p := range ps {
					if c, ok := p.(*Const); ok && strconv.Quote(c.V.(string)) != `"`+c.V.(string)+`"` || !ok && !isGeneric(p) {
						okAll = false
					}
				}
				if okAll {
					return concat(S(`"`), v, S(`"`))
				}
			}
			return in.app("quote", tString, v)
		}))
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool":
		return in.parseNum(st, name, args, pos)
	// ---- sort ----
	case "sort.Strings":
		in.sortStrings(st, arg(0))
		return ret(st)
	case "sort.Ints":
		return ret(st)
	case "sort.Sort", "sort.Stable":
		return in.sortIface(fr, st, arg(0), site, pos)
	case "sort.Slice", "sort.SliceStable":
		return in.sortSlice(fr, st, arg(0), arg(1), site, pos)
	case "sort.SearchStrings":
		return ret(st, in.app(name, tInt, args...))
	// ---- buffers and writers ----
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bufio.Writer).WriteString", "(*os.File).WriteString",
		"(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).Write", "(*os.File).Write",
		"invoke:io.Writer.Write", "invoke:io.StringWriter.WriteString":
		st = in.writeTo(fr, st, arg(0), nilStr(arg(1)), pos)
		return in.sinkResult(st, arg(0), name, pos, 2)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bufio.Writer).WriteByte",
		"(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune", "(*bufio.Writer).WriteRune":
		v := arg(1)
		var s Val
		if n, ok := constInt(v); ok {
			s = S(string(rune(n)))
		} else {
			s = in.app("runeString", tString, v)
		}
		st = in.writeTo(fr, st, arg(0), s, pos)
		if strings.HasSuffix(name, "WriteByte") {
			return ret(st, nilV)
		}
		return ret(st, I(1), nilV)
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		v := in.load(fr, st, arg(0), pos)
		if v == nil {
			return nil
		}
		return ret(st, v)
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		v := in.load(fr, st, arg(0), pos)
		if v == nil {
			return nil
		}
		return ret(st, in.length(st, v))
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		in.store(st, arg(0), S(""), pos)
		return ret(st)
	case "(*bytes.Buffer).Truncate":
		v := in.load(fr, st, arg(0), pos)
		in.store(st, arg(0), in.substr(st, v, nil, arg(1), pos), pos)
		return ret(st)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret(st)
	case "(*bytes.Buffer).WriteTo":
		st = in.writeTo(fr, st, arg(1), in.load(fr, st, arg(0), pos), pos)
		return in.sinkResult(st, arg(1), name, pos, 2)
	case "io.WriteString":
		st = in.writeTo(fr, st, arg(0), nilStr(arg(1)), pos)
		return in.sinkResult(st, arg(0), name, pos, 2)
	case "io.Copy":
		if v := in.readAll(st, arg(1)); v != nil {
			st = in.writeTo(fr, st, arg(0), v, pos)
			return in.sinkResult(st, arg(0), name, pos, 2)
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "bufio.Writer", F: map[string]Val{"w": arg(0), "buf": S("")}}))
	case "(*bufio.Writer).Flush":
		if o, ok := in.obj(st, arg(0)); ok && o.F["buf"] != nil {
			if p, ok := arg(0).(*Ptr); ok {
				in.store(st, p, &LibObj{Kind: "bufio.Writer", F: map[string]Val{"w": o.F["w"], "buf": S("")}}, pos)
			}
			st = in.writeTo(fr, st, o.F["w"], o.F["buf"], pos)
		}
		return in.ioResult(st, name, pos, 1)
	case "(*os.File).Close", "(*os.File).Sync":
		return ret(st, nilV)
	case "(*os.File).Name":
		if o, ok := in.obj(st, arg(0)); ok {
			return ret(st, o.F["path"])
		}
	// ---- files ----
	case "os.Create", "os.OpenFile":
		p := arg(0)
		kind := "create"
		if name == "os.OpenFile" {
			n, ok := constInt(arg(1))
			switch {
			case ok && n&3 == 0 && n&0x40 == 0:
				kind = "read"
			case !ok || n&0x40 == 0 || n&3 == 0:
				kind = "openexisting"
			case n&0x80 != 0:
				kind = "openexclusive"
			case n&0x200 != 0: // O_TRUNC
			case n&0x400 != 0: // O_APPEND
				kind = "openappend"
			default:
				kind = "openkeep"
			}
		}
		var outs []*Outcome
		if in.fails("os.Create", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("create failed")))...)
		}
		st.emit(kind, pos, p)
		f := in.newObj(st, site, &LibObj{Kind: "os.File", F: map[string]Val{"path": p}})
		return append(outs, ret(st, f, nilV)...)
	case "os.Open":
		var outs []*Outcome
		if in.fails("os.Open", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("open failed")))...)
		}
		st.emit("read", pos, arg(0))
		f := in.newObj(st, site, &LibObj{Kind: "os.File", F: map[string]Val{"path": arg(0), "read": trueV}})
		return append(outs, ret(st, f, nilV)...)
	case "io/ioutil.WriteFile", "os.WriteFile":
		var outs []*Outcome
		if in.fails("WriteFile", pos) {
			outs = append(outs, ret(in.failed(st, pos), in.libErr(S("write failed")))...)
		}
		st.emit("writefile", pos, arg(0), nilStr(arg(1)))
		return append(outs, ret(st, nilV)...)
	case "io/ioutil.ReadFile", "os.ReadFile":
		var outs []*Outcome
		if in.fails("ReadFile", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("read failed")))...)
		}
		st.emit("read", pos, arg(0))
		return append(outs, ret(st, &App{F: "fileContent", Args: []Val{arg(0)}, T: types.NewSlice(types.Typ[types.Byte])}, nilV)...)
	case "io/ioutil.ReadAll", "io.ReadAll":
		v := in.readAll(st, arg(0))
		if v == nil {
			v = in.app("readAll", types.NewSlice(types.Typ[types.Byte]), arg(0))
		}
		var outs []*Outcome
		if in.fails("ReadAll", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("read failed")))...)
		}
		return append(outs, ret(st, v, nilV)...)
	case "os.MkdirAll", "os.Mkdir":
		var outs []*Outcome
		if in.fails("MkdirAll", pos) {
			outs = append(outs, ret(in.failed(st, pos), in.libErr(S("mkdir failed")))...)
		}
		st.emit("mkdir", pos, arg(0))
		return append(outs, ret(st, nilV)...)
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Chdir", "os.Symlink", "os.Link", "os.Truncate", "os.Chmod", "os.Setenv":
		st.emit(strings.ToLower(strings.TrimPrefix(name, "os.")), pos, args...)
		return in.ioResult(st, name, pos, 1)
	case "os.Stat", "os.Lstat":
		s2 := st.clone()
		return append(ret(st, in.app("fileInfo", nil, arg(0)), nilV), ret(s2, nilV, in.libErr(S("stat failed")))...)
	case "os.IsNotExist", "os.IsExist":
		return ret(st, in.app(name, tBool, arg(0)))
	case "os.Getenv":
		return ret(st, in.app("getenv", tString, arg(0)))
	case "os.Getwd":
		return ret(st, &Sym{Name: "cwd", T: tString, Gen: true}, nilV)
	case "io/ioutil.TempFile", "os.CreateTemp":
		st.emit("tempfile", pos, args...)
		f := in.newObj(st, site, &LibObj{Kind: "os.File", F: map[string]Val{"path": &Sym{Name: "tempfile", T: tString, Gen: true}}})
		return ret(st, f, nilV)
	case "path.Join", "path/filepath.Join":
		return ret(st, in.pathJoin(st, vararg(0), arg(0)))
	case "path/filepath.Ext", "path.Ext":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				return S(filepath.Ext(s))
			}
			if c, ok := v.(*Cat); ok {
				if k, ok := c.Parts[len(c.Parts)-1].(*Const); ok && strings.ContainsAny(k.V.(string), "./") {
					return S(filepath.Ext(k.V.(string)))
				}
			}
			return in.app("ext", tString, v)
		}))
	case "path/filepath.Dir", "path.Dir":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				return S(filepath.Dir(s))
			}
			return in.app("dir", tString, v)
		}))
	case "path/filepath.Base", "path.Base":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				return S(filepath.Base(s))
			}
			return in.app("base", tString, v)
		}))
	case "path/filepath.Clean", "path.Clean":
		return ret(st, mapAlt(arg(0), func(v Val) Val {
			if s, ok := constStr(v); ok {
				return S(path.Clean(s))
			}
			return v
		}))
	// ---- regexp ----
	case "regexp.MustCompile":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "regexp", F: map[string]Val{"re": arg(0)}}))
	case "regexp.Compile":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "regexp", F: map[string]Val{"re": arg(0)}}), nilV)
	case "regexp.MatchString":
		v := in.reMatch(arg(0), arg(1))
		return ret(st, v, nilV)
	case "(*regexp.Regexp).MatchString":
		if o, ok := in.obj(st, arg(0)); ok {
			return ret(st, in.reMatch(o.F["re"], arg(1)))
		}
	case "(*regexp.Regexp).FindStringSubmatch":
		if o, ok := in.obj(st, arg(0)); ok {
			return ret(st, in.reSubmatch(st, o.F["re"], arg(1), site))
		}
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAll":
		if o, ok := in.obj(st, arg(0)); ok {
			re, ok1 := constStr(o.F["re"])
			src, ok2 := constStr(arg(1))
			rp, ok3 := constStr(arg(2))
			if ok1 && ok2 && ok3 {
				if r, err := regexp.Compile(re); err == nil {
					return ret(st, S(r.ReplaceAllString(src, rp)))
				}
			}
			if v, ok := in.reReplace(o.F["re"], arg(1), arg(2)); ok {
				return ret(st, v)
			}
			return ret(st, in.app("reReplace", tString, o.F["re"], arg(1), arg(2)))
		}
	// ---- encoding ----
	case "encoding/json.Unmarshal":
		return in.unmarshal(st, arg(0), arg(1), pos)
	case "encoding/json.NewDecoder":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "json.Decoder", F: map[string]Val{"r": arg(0)}}))
	case "(*encoding/json.Decoder).Decode":
		if o, ok := in.obj(st, arg(0)); ok {
			if d := in.readAll(st, o.F["r"]); d != nil {
				return in.unmarshal(st, d, arg(1), pos)
			}
		}
	case "encoding/json.MarshalIndent", "encoding/json.Marshal":
		d := in.encodeDoc(st, arg(0), "json", 0)
		var outs []*Outcome
		if in.fails("Marshal", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("marshal failed")))...)
		}
		return append(outs, ret(st, d, nilV)...)
	case "encoding/json.Indent", "encoding/json.Compact":
		// white space between JSON tokens has no meaning
		st = in.writeTo(fr, st, arg(0), arg(1), pos)
		return ret(st, nilV)
	case "encoding/json.NewEncoder":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "json.Encoder", F: map[string]Val{"w": arg(0)}}))
	case "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
		return ret(st)
	case "(*encoding/json.Encoder).Encode":
		if o, ok := in.obj(st, arg(0)); ok {
			st = in.writeTo(fr, st, o.F["w"], in.encodeDoc(st, arg(1), "json", 0), pos)
			return in.sinkResult(st, o.F["w"], name, pos, 1)
		}
	case "gopkg.in/yaml.v2.Marshal":
		d := in.encodeDoc(st, arg(0), "yaml", 0)
		var outs []*Outcome
		if in.fails("Marshal", pos) {
			outs = append(outs, ret(in.failed(st, pos), nilV, in.libErr(S("marshal failed")))...)
		}
		return append(outs, ret(st, d, nilV)...)
	// ---- templates ----
	case "text/template.New":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "template", F: map[string]Val{"name": arg(0), "text": S("")}}))
	case "(*text/template.Template).Funcs":
		if p, o := in.objPtr(st, arg(0)); o != nil {
			f := cloneF(o.F)
			k := fmt.Sprintf("funcs%d", len(f))
			f[k] = arg(1)
			in.store(st, p, &LibObj{o.Kind, f}, pos)
			return ret(st, p)
		}
	case "(*text/template.Template).Option", "(*text/template.Template).Delims":
		return ret(st, arg(0))
	case "(*text/template.Template).Parse":
		if p, o := in.objPtr(st, arg(0)); o != nil {
			f := cloneF(o.F)
			f["text"] = arg(1)
			in.store(st, p, &LibObj{o.Kind, f}, pos)
			if err := in.checkTemplate(st, &LibObj{o.Kind, f}); err != nil {
				return ret(st, nilV, in.libErr(S("template error: "+err.Error())))
			}
			return ret(st, p, nilV)
		}
	case "text/template.Must":
		return ret(st, arg(0))
	case "(*text/template.Template).Execute":
		return in.execTemplate(fr, st, arg(0), arg(1), arg(2), site, pos)
	// ---- misc libraries ----
	case "github.com/gertd/go-pluralize.NewClient":
		return ret(st, in.newObj(st, site, &LibObj{Kind: "pluralize", F: map[string]Val{}}))
	case "(*github.com/gertd/go-pluralize.Client).Plural":
		return ret(st, in.strMap("pluralize.Plural", arg(1), pluralClient.Plural, false))
	case "(*github.com/gertd/go-pluralize.Client).Singular":
		return ret(st, in.strMap("pluralize.Singular", arg(1), pluralClient.Singular, false))
	case "github.com/google/go-cmp/cmp.Equal", "reflect.DeepEqual":
		return ret(st, in.deepEq(st, unwrap(arg(0)), unwrap(arg(1))))
	case "github.com/google/go-cmp/cmp.Diff":
		e := in.deepEq(st, unwrap(arg(0)), unwrap(arg(1)))
		if b, ok := constBool(e); ok && b {
			return ret(st, S(""))
		} else if ok {
			return ret(st, concat(S("diff:"), in.app("cmp.Diff", tString, arg(0), arg(1))))
		}
		return ret(st, in.app("cmp.Diff", tString, arg(0), arg(1)))
	case "(*github.com/urfave/cli/v2.Context).String", "(*github.com/urfave/cli/v2.Context).Path":
		return ret(st, in.flag(st, arg(1), false))
	case "(*github.com/urfave/cli/v2.Context).Bool":
		return ret(st, in.flag(st, arg(1), true))
	case "(*github.com/urfave/cli/v2.Context).Int":
		return ret(st, mapAlt(arg(1), func(n Val) Val {
			s, ok := constStr(n)
			if !ok {
				return top("flag name not constant")
			}
			return in.flagInt(s)
		}))
	case "(*github.com/urfave/cli/v2.Context).IsSet":
		if n, ok := constStr(arg(1)); ok {
			_, set := in.flagGiven(n)
			if fl := in.flagDecl(n); fl != nil && fl.Required {
				set = true
			}
			return ret(st, B(set))
		}
		return ret(st, in.app(name, tBool, arg(1)))
	case "(*github.com/urfave/cli/v2.App).Run", "(*github.com/urfave/cli/v2.App).RunContext":
		in.appRun, in.appPtr = st.clone(), arg(0)
		bad := st.clone()
		bad.emit("runerror", pos)
		return append(ret(st, nilV), ret(bad, in.libErr(S("command failed")))...)
	case "github.com/urfave/cli/v2.NewApp":
		t := in.typeByName("github.com/urfave/cli/v2.App")
		return ret(st, in.newObj(st, site, in.zero(t)))
	case "time.Now":
		return ret(st, in.app("time.Now", sig.Results().At(0).Type()))
	case "os.Getpid":
		return ret(st, in.app(name, tInt))
	case "math/rand.Intn", "math/rand.Int":
		return ret(st, in.app("rand", tInt))
	}
	if r := in.modelXlsx(fr, st, name, args, site, pos, sig); r != nil {
		return r.outs
	}
	if r := in.modelParser(fr, st, name, args, site, pos, sig); r != nil {
		return r.outs
	}
	if strings.HasSuffix(name, ".init") && len(args) == 0 {
		return ret(st)
	}
	if strings.HasPrefix(name, "(") || strings.HasPrefix(name, "invoke:") {
		// a method of an opaque library value: an uninterpreted function of its arguments
	}
	in.unmodelled[name]++
	var vals []Val
	if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if isErrorType(t) {
				vals = append(vals, mkAlt(nilV, in.libErr(S(name+" failed"))))
				continue
			}
			n := name
			if sig.Results().Len() > 1 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			as := make([]Val, len(args))
			for k, a := range args {
				as[k] = in.snapshot(st, a)
			}
			vals = append(vals, in.app(n, t, as...))
		}
	}
	return ret(st, vals...)
}

type outs struct{ outs []*Outcome }

func cloneF(f map[string]Val) map[string]Val {
	n := map[string]Val{}
	for k, v := range f {
		n[k] = v
	}
	return n
}

// snapshot replaces pointers to library objects by their content.
func (in *Interp) snapshot(st *State, v Val) Val {
	switch x := v.(type) {
	case *Ptr:
		if c, ok := in.root(st, x.Obj); ok && x.Path == "" {
			switch c.(type) {
			case *LibObj, *Const, *Cat:
				return c
			}
		}
	case *Iface:
		return in.snapshot(st, x.V)
	}
	return v
}

func (in *Interp) obj(st *State, v Val) (*LibObj, bool) {
	_, o := in.objPtr(st, v)
	return o, o != nil
}

func (in *Interp) objPtr(st *State, v Val) (*Ptr, *LibObj) {
	switch x := v.(type) {
	case *Ptr:
		if o, ok := in.load(nil, st, x, "").(*LibObj); ok {
			return x, o
		}
	case *Iface:
		return in.objPtr(st, x.V)
	case *Alt:
		for _, y := range x.Vals {
			if p, o := in.objPtr(st, y); o != nil {
				return p, o
			}
		}
	}
	return nil, nil
}

func (in *Interp) readAll(st *State, r Val) Val {
	switch x := r.(type) {
	case *Iface:
		return in.readAll(st, x.V)
	case *Ptr:
		v := in.load(nil, st, x, "")
		if o, ok := v.(*LibObj); ok {
			if o.Kind == "os.File" {
				return &App{F: "fileContent", Args: []Val{o.F["path"]}, T: types.NewSlice(types.Typ[types.Byte])}
			}
			return nil
		}
		if _, ok := strParts(v); ok {
			return v
		}
	}
	return nil
}

// sinkResult is the result of writing to w: writing to memory does not fail, and a buffered writer reports on Flush.
func (in *Interp) sinkResult(st *State, w Val, name, pos string, n int) []*Outcome {
	if !in.sinkFails(st, w) {
		if n == 2 {
			return ret(st, &Sym{Name: "n", T: tInt}, nilV)
		}
		return ret(st, nilV)
	}
	return in.ioResult(st, name, pos, n)
}

func (in *Interp) sinkFails(st *State, w Val) bool {
	switch x := w.(type) {
	case *Iface:
		return in.sinkFails(st, x.V)
	case *Alt:
		for _, y := range x.Vals {
			if in.sinkFails(st, y) {
				return true
			}
		}
		return false
	case *Ptr:
		v := in.load(nil, st, x, "")
		if o, ok := v.(*LibObj); ok {
			return o.Kind != "bufio.Writer" && o.Kind != "tabwriter"
		}
		if _, ok := strParts(v); ok {
			return false
		}
	}
	return true
}

func (in *Interp) ioResult(st *State, name, pos string, n int) []*Outcome {
	mk := func(e Val) []Val {
		if n == 2 {
			return []Val{&Sym{Name: "n", T: tInt}, e}
		}
		return []Val{e}
	}
	var outs []*Outcome
	if in.fails("io:"+name, pos) {
		outs = append(outs, &Outcome{in.failed(st, pos), mk(in.libErr(S("i/o error")))})
	}
	return append(outs, &Outcome{st, mk(nilV)})
}

func (in *Interp) flag(st *State, n Val, boolean bool) Val {
	return mapAlt(n, func(n Val) Val {
		s, ok := constStr(n)
		if !ok {
			return top("flag name not constant")
		}
		return in.flagVal(s, boolean)
	})
}

func (in *Interp) lift2(a, b Val, f func(a, b Val) Val) Val {
	return mapAlt(a, func(x Val) Val { return mapAlt(b, func(y Val) Val { return f(x, y) }) })
}

// affix decides HasPrefix/HasSuffix with a non-constant affix.
func (in *Interp) affix(name string, a, b Val) Val {
	pa, ok1 := strParts(a)
	pb, ok2 := strParts(b)
	if ok1 && ok2 && len(pb) <= len(pa) {
		n := len(pb)
		sub := pa[:n]
		if name == "strings.HasSuffix" {
			sub = pa[len(pa)-n:]
		}
		if partsKey(sub) == partsKey(pb) {
			return trueV
		}
	}
	if ok1 && ok2 && len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if name == "strings.HasSuffix" {
			x, y = pa[len(pa)-1], pb[len(pb)-1]
		}
		if isGeneric(x) && isGeneric(y) && x.Key() != y.Key() {
			return falseV
		}
	}
	return in.app(name, tBool, a, b)
}

func (in *Interp) trimAffix(name string, a, b Val, suf bool) Val {
	if pre, ok := constStr(b); ok {
		if pre == "" {
			return a
		}
		switch in.hasPrefix(a, pre, suf) {
		case 0:
			return a
		case 1:
			ps, _ := strParts(a)
			if s, ok := constStr(a); ok {
				if suf {
					return S(strings.TrimSuffix(s, pre))
				}
				return S(strings.TrimPrefix(s, pre))
			}
			ps = append([]Val{}, ps...)
			if suf {
				c, ok := ps[len(ps)-1].(*Const)
				if ok {
					ps[len(ps)-1] = S(strings.TrimSuffix(c.V.(string), pre))
					return mkCat(ps...)
				}
			} else if c, ok := ps[0].(*Const); ok {
				ps[0] = S(strings.TrimPrefix(c.V.(string), pre))
				return mkCat(ps...)
			}
		}
		return in.app(name, tString, a, b)
	}
	short := "strings.HasPrefix"
	if suf {
		short = "strings.HasSuffix"
	}
	if r, ok := constBool(in.affix(short, a, b)); ok {
		if !r {
			return a
		}
		pa, _ := strParts(a)
		pb, _ := strParts(b)
		if suf {
			return mkCat(pa[:len(pa)-len(pb)]...)
		}
		return mkCat(pa[len(pb):]...)
	}
	return in.app(name, tString, a, b)
}

func (in *Interp) replace(v, old, nw Val, n int) Val {
	o, ok := constStr(old)
	if !ok || o == "" || n >= 0 {
		s, ok1 := constStr(v)
		w, ok2 := constStr(nw)
		if ok && ok1 && ok2 {
			return S(strings.Replace(s, o, w, n))
		}
		return in.app("replace", tString, v, old, nw, I(int64(n)))
	}
	return mapAlt(v, func(v Val) Val {
		ps, ok := strParts(v)
		if !ok {
			return in.app("replace", tString, v, old, nw)
		}
		if !in.replaceable(ps) {
			return in.app("replace", tString, v, old, nw)
		}
		return in.mapStrParts(ps, func(p Val) Val {
			c, ok := p.(*Const)
			if !ok {
				in.noteLit("contains", atomOf(p), o)
				return p
			}
			var out []Val
			for i, s := range strings.Split(c.V.(string), o) {
				if i > 0 {
					out = append(out, nw)
				}
				out = append(out, S(s))
			}
			return concat(out...)
		})
	})
}

func (in *Interp) replaceable(ps []Val) bool {
	for _, p := range ps {
		switch x := p.(type) {
		case *Const:
		case *Rep:
			if !in.replaceable(x.Body) {
				return false
			}
		case *AltP:
			for _, o := range x.Opts {
				if !in.replaceable(o) {
					return false
				}
			}
		default:
			if !sepFree(p) {
				return false
			}
		}
	}
	return true
}

func arg1(args []Val) Val {
	if len(args) > 1 {
		return args[1]
	}
	return nilV
}

func (in *Interp) parseNum(st *State, name string, args []Val, pos string) []*Outcome {
	v := args[0]
	var outs []*Outcome
	vs := alts(v)
	for i, x := range vs {
		s := st
		if i < len(vs)-1 {
			s = st.clone()
		}
		if str, ok := constStr(x); ok {
			var r Val
			var err error
			switch name {
			case "strconv.Atoi":
				var n int
				n, err = strconv.Atoi(str)
				r = I(int64(n))
			case "strconv.ParseInt", "strconv.ParseUint":
				base, _ := constInt(args[1])
				bits, _ := constInt(args[2])
				if name == "strconv.ParseInt" {
					var n int64
					n, err = strconv.ParseInt(str, int(base), int(bits))
					r = I(n)
				} else {
					var n uint64
					n, err = strconv.ParseUint(str, int(base), int(bits))
					r = I(int64(n))
				}
			case "strconv.ParseFloat":
				var f float64
				bits, _ := constInt(args[1])
				f, err = strconv.ParseFloat(str, int(bits))
				r = &Const{V: f}
			case "strconv.ParseBool":
				var b bool
				b, err = strconv.ParseBool(str)
				r = B(b)
			}
			if err != nil {
				outs = append(outs, &Outcome{s, []Val{r, in.libErr(S(err.Error()))}})
			} else {
				outs = append(outs, &Outcome{s, []Val{r, nilV}})
			}
			continue
		}
		if a, ok := x.(*App); ok && a.F == "itoa" && (name == "strconv.Atoi" || name == "strconv.ParseInt" || name == "strconv.ParseUint") {
			outs = append(outs, &Outcome{s, []Val{a.Args[0], nilV}})
			continue
		}
		if b, ok := constInt(arg1(args)); name == "strconv.ParseFloat" && (!ok || b != 64) {
			in.problem("%s: a number is read with less than its precision", pos)
		}
		if a, ok := x.(*App); ok && a.F == "itoa" && name == "strconv.ParseFloat" {
			outs = append(outs, &Outcome{s, []Val{in.app("float", types.Typ[types.Float64], a.Args[0]), nilV}})
			continue
		}
		if isGeneric(x) {
			// a generic atom is not a number
			z := Val(I(0))
			if name == "strconv.ParseBool" {
				z = falseV
			}
			outs = append(outs, &Outcome{s, []Val{z, in.libErr(S("invalid syntax"))}})
			continue
		}
		s2 := s.clone()
		var t types.Type = tInt
		z := Val(I(0))
		switch name {
		case "strconv.ParseFloat":
			t = types.Typ[types.Float64]
		case "strconv.ParseBool":
			t = tBool
			z = falseV
		}
		outs = append(outs, &Outcome{s, []Val{in.app("atoi", t, x), nilV}}, &Outcome{s2, []Val{z, in.libErr(S("invalid syntax"))}})
	}
	return outs
}

func (in *Interp) pathJoin(st *State, els []Val, raw Val) Val {
	items, ok := in.seqItems(st, raw)
	if !ok {
		return in.app("pathJoin", tString, els...)
	}
	var out []Val
	for _, it := range items {
		e, ok := it.(*El)
		if !ok {
			return concat(joinItems(items, S("/"), func(v Val) Val { return v }))
		}
		if s, ok := constStr(e.V); ok {
			s = strings.TrimPrefix(s, "./")
			if s == "" || s == "." {
				continue
			}
			out = append(out, &El{S(strings.TrimSuffix(s, "/"))})
			continue
		}
		out = append(out, e)
	}
	return joinItems(out, S("/"), func(v Val) Val { return v })
}

// snakeWord is a representative of a name derived from a snake-case atom; other names are followed as literals.
func snakeWord(v Val) string {
	f := ""
	if a, ok := v.(*App); ok && len(a.Args) == 1 {
		f, v = a.F, a.Args[0]
	}
	s, ok := v.(*Sym)
	if !ok || !strings.HasPrefix(s.Name, "s_") {
		return ""
	}
	switch f {
	case "":
		return "name_of_it"
	case "strcase.ToCamel":
		return "NameOfIt"
	case "strcase.ToLowerCamel":
		return "nameOfIt"
	}
	return ""
}

func (in *Interp) reMatch(re, v Val) Val {
	r, ok := constStr(re)
	if !ok {
		return in.app("reMatch", tBool, re, v)
	}
	c, err := regexp.Compile(r)
	if err != nil {
		return falseV
	}
	return mapAlt(v, func(v Val) Val {
		if s, ok := constStr(v); ok {
			return B(c.MatchString(s))
		}
		if w := snakeWord(v); w != "" {
			in.noteLit("any", atomOf(v), "?")
			in.noteFragments(r, v)
			return B(c.MatchString(w))
		}
		return in.app("reMatch", tBool, re, v)
	})
}

// reSubmatch matches a regular expression against a string of literals and atoms: every atom is replaced by a
// representative word (numbers by digits, names by letters), matched, and substituted back.
func (in *Interp) reSubmatch(st *State, re, v Val, site string) Val {
	r, ok := constStr(re)
	if !ok {
		return in.app("reSubmatch", types.NewSlice(tString), re, v)
	}
	c, err := regexp.Compile(r)
	if err != nil {
		return top("regexp")
	}
	return mapAlt(v, func(v Val) Val {
		ps, ok := strParts(v)
		if !ok {
			return in.app("reSubmatch", types.NewSlice(tString), re, v)
		}
		for _, p := range ps {
			in.noteFragments(r, p)
		}
		word, back, ok := witness(ps)
		if !ok {
			return in.app("reSubmatch", types.NewSlice(tString), re, v)
		}
		m := c.FindStringSubmatch(word)
		if m == nil {
			return nilV
		}
		var items []Val
		for _, g := range m {
			items = append(items, &El{back(g)})
		}
		return &Seq{Items: items, T: types.NewSlice(tString), ID: in.allocID("re:" + site), NN: true}
	})
}

func (in *Interp) reReplace(re, v, repl Val) (Val, bool) {
	r, ok := constStr(re)
	rp, ok2 := constStr(repl)
	if !ok || !ok2 {
		return nil, false
	}
	c, err := regexp.Compile(r)
	if err != nil {
		return nil, false
	}
	ps, ok := strParts(v)
	if !ok {
		return nil, false
	}
	w, back, ok := witness(ps)
	if !ok {
		return nil, false
	}
	for _, p := range ps {
		in.noteFragments(r, p)
	}
	return back(c.ReplaceAllString(w, rp)), true
}

// noteFragments records that an atom was matched with the literal parts of a regular expression.
func (in *Interp) noteFragments(re string, v Val) {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return
	}
	var walk func(x *syntax.Regexp)
	walk = func(x *syntax.Regexp) {
		if x.Op == syntax.OpLiteral {
			in.noteLit("fragment", atomOf(v), string(x.Rune))
		}
		for _, y := range x.Sub {
			walk(y)
		}
	}
	walk(x)
}

// witness replaces atoms by representative words and returns the inverse substitution.
func witness(ps []Val) (string, func(string) Val, bool) {
	var sb strings.Builder
	sub := map[string]Val{}
	n := 0
	for _, p := range ps {
		switch x := p.(type) {
		case *Const:
			sb.WriteString(x.V.(string))
		default:
			n++
			var w string
			if isNumeric(p) {
				w = fmt.Sprintf("97531%d", n)
			} else if isGeneric(p) {
				w = "Qz" + strings.Repeat("x", n) + "zQ"
			} else {
				return "", nil, false
			}
			sub[w] = p
			sb.WriteString(w)
		}
	}
	words := sortedKeys(sub)
	sort.Slice(words, func(i, j int) bool { return len(words[i]) > len(words[j]) })
	back := func(s string) Val {
		parts := []Val{S(s)}
		for _, w := range words {
			var out []Val
			for _, p := range parts {
				c, ok := p.(*Const)
				if !ok {
					out = append(out, p)
					continue
				}
				for i, t := range strings.Split(c.V.(string), w) {
					if i > 0 {
						out = append(out, sub[w])
					}
					out = append(out, S(t))
				}
			}
			parts = out
		}
		return mkCat(parts...)
	}
	return sb.String(), back, true
}

// deepEq is structural equality through pointers and maps.
func (in *Interp) deepEq(st *State, a, b Val) Val {
	ma, ok1 := a.(*MapRef)
	mb, ok2 := b.(*MapRef)
	if ok1 && ok2 {
		ca, _ := in.root(st, ma.Obj)
		cb, _ := in.root(st, mb.Obj)
		if ca != nil && cb != nil {
			x, okx := ca.(*MapC)
			y, oky := cb.(*MapC)
			if okx && oky && in.mapEqual(st, x, y) == 1 {
				return trueV
			}
			if okx && oky && in.mapEqual(st, x, y) == 0 {
				return falseV
			}
			return in.app("deepEq", tBool, ca, cb)
		}
	}
	if sa, ok := a.(*Seq); ok {
		if sb, ok := b.(*Seq); ok {
			x, y := in.currentSeq(st, sa), in.currentSeq(st, sb)
			if x.Key() == y.Key() {
				return trueV
			}
			if concrete(x.Items) && concrete(y.Items) {
				if len(x.Items) != len(y.Items) {
					return falseV
				}
				r := Val(trueV)
				for i := range x.Items {
					r = andV(r, in.deepEq(st, x.Items[i].(*El).V, y.Items[i].(*El).V))
				}
				return r
			}
			return in.app("deepEq", tBool, x, y)
		}
	}
	if pa, ok := a.(*Ptr); ok {
		if pb, ok := b.(*Ptr); ok {
			if pa.Key() == pb.Key() {
				return trueV
			}
			va, vb := in.load(nil, st, pa, ""), in.load(nil, st, pb, "")
			if s, ok := va.(*Sym); ok {
				va = in.expandStruct(s)
			}
			if s, ok := vb.(*Sym); ok {
				vb = in.expandStruct(s)
			}
			return in.deepEq(st, va, vb)
		}
	}
	if x, ok := a.(*Struct); ok {
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			r := Val(trueV)
			for i := range x.F {
				r = andV(r, in.deepEq(st, x.F[i], y.F[i]))
			}
			return r
		}
	}
	return in.eq(a, b)
}

// mapEqual: 1 equal, 0 different, -1 unknown.
func (in *Interp) mapEqual(st *State, x, y *MapC) int {
	if len(x.Deleted)+len(y.Deleted) > 0 {
		return -1
	}
	kx, ky := map[string]bool{}, map[string]bool{}
	for _, p := range x.Items {
		kx[p.Key()] = true
	}
	for _, p := range y.Items {
		ky[p.Key()] = true
	}
	same := len(kx) == len(ky)
	for k := range kx {
		if !ky[k] {
			same = false
		}
	}
	if same {
		return 1
	}
	if concrete(x.Items) && concrete(y.Items) {
		if len(x.Items) != len(y.Items) {
			return 0
		}
		for _, p := range x.Items {
			e := p.(*El).V.(*Entry)
			v, may, mayNot := in.mapGet(st, y, e.K)
			if !may {
				return 0
			}
			if mayNot {
				return -1
			}
			if b, ok := constBool(in.eq(v, e.V)); !ok {
				return -1
			} else if !b {
				return 0
			}
		}
		return 1
	}
	lx, hx := lenRange(x)
	ly, hy := lenRange(y)
	if hx >= 0 && ly > hx || hy >= 0 && lx > hy {
		return 0
	}
	return -1
}
