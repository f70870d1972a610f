package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Key is a canonical form: equal keys denote the same abstract value.
type Val interface{ Key() string }

// Const is a known basic constant (string, int64, float64, bool).
type Const struct {
	V any
	k string
}

func (c *Const) Key() string {
	if c.k == "" {
		switch v := c.V.(type) {
		case string:
			c.k = strconv.Quote(v)
		case int64:
			c.k = "#" + strconv.FormatInt(v, 10)
		case bool:
			c.k = "?" + strconv.FormatBool(v)
		default:
			c.k = fmt.Sprintf("%T:%v", v, v)
		}
	}
	return c.k
}

type NilV struct{}

func (NilV) Key() string { return "nil" }

// Sym is an opaque input atom.
type Sym struct {
	Name string
	T    types.Type
	Tag  string // "json": children are named by their json key
	Gen  bool   // generic: an arbitrary non-empty value, distinct from every literal and every other generic atom
	Pos  bool   // integer atom known to be >= 1
}

func (s *Sym) Key() string { return "$" + s.Name }

// App is an application of a pure function that is not evaluated.
type App struct {
	F    string
	Args []Val
	T    types.Type
	k    string
}

func (a *App) Key() string {
	if a.k == "" {
		var sb strings.Builder
		sb.WriteString(a.F)
		sb.WriteByte('(')
		for i, x := range a.Args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(x.Key())
		}
		sb.WriteByte(')')
		a.k = sb.String()
	}
	return a.k
}

// Lin is Base + Off for an integer base.
type Lin struct {
	Base Val
	Off  int64
}

func (l *Lin) Key() string { return fmt.Sprintf("(%s%+d)", l.Base.Key(), l.Off) }

// Iter is the iteration number of an active structural iteration.
type Iter struct{ ID string }

func (i *Iter) Key() string { return "iter:" + i.ID }

// LenOf is the length of a sequence or string.
type LenOf struct{ S Val }

func (l *LenOf) Key() string { return "len(" + l.S.Key() + ")" }

// LVar marks the value a loop-carried cell has at the start of an iteration.
type LVar struct {
	ID string
	T  types.Type
}

func (l *LVar) Key() string { return "LV:" + l.ID }

// Parts of strings and sequences.
type Rep struct {
	Body  []Val
	Min   int
	Loop  string
	Unord bool
	k     string
}

func partsKey(ps []Val) string {
	var sb strings.Builder
	for i, p := range ps {
		if i > 0 {
			sb.WriteByte(';')
		}
		sb.WriteString(p.Key())
	}
	return sb.String()
}

func (r *Rep) Key() string {
	if r.k == "" {
		u := ""
		if r.Unord {
			u = "~"
		}
		r.k = "{" + partsKey(r.Body) + "}" + u + r.ord() + fmt.Sprintf("%d+", r.Min)
	}
	return r.k
}

// ord is the order of the elements when it is not the order of the input: "sorted" or "reversed".
func (r *Rep) ord() string {
	l, rev := r.Loop, false
	for {
		switch {
		case strings.HasPrefix(l, "split:"):
			l = l[6:]
		case strings.HasPrefix(l, "rev:"):
			l = l[4:]
			rev = !rev
		case strings.HasPrefix(l, "sorted:"):
			return "sorted"
		default:
			if rev {
				return "reversed"
			}
			return ""
		}
	}
}

type AltP struct {
	Opts [][]Val
	Why  string
	k    string
}

func (a *AltP) Key() string {
	if a.k == "" {
		ks := make([]string, len(a.Opts))
		for i, o := range a.Opts {
			ks[i] = partsKey(o)
		}
		a.k = "<" + strings.Join(ks, "|") + ">"
	}
	return a.k
}

// Cat is a string.
type Cat struct {
	Parts []Val
	k     string
}

func (c *Cat) Key() string {
	if c.k == "" {
		c.k = "cat[" + partsKey(c.Parts) + "]"
	}
	return c.k
}

type El struct{ V Val }

func (e *El) Key() string { return "`" + e.V.Key() }

// Seq is a slice.
type Seq struct {
	Items []Val // El, Rep, AltP, LVar
	ID    string
	T     types.Type // slice type
	NN    bool       // certainly not nil, even if empty
	k     string
}

func (s *Seq) Key() string {
	if s.k == "" {
		s.k = "seq[" + partsKey(s.Items) + "]"
		if s.NN && len(s.Items) == 0 {
			s.k += "!"
		}
	}
	return s.k
}

type Alt struct {
	Vals []Val
	k    string
}

func (a *Alt) Key() string {
	if a.k == "" {
		ks := make([]string, len(a.Vals))
		for i, v := range a.Vals {
			ks[i] = v.Key()
		}
		a.k = "alt(" + strings.Join(ks, "|") + ")"
	}
	return a.k
}

type TopV struct{ Why string }

func (t *TopV) Key() string { return "top:" + t.Why }

type Ptr struct {
	Obj  string
	Path string // ".2.[3]" style: sequence of field / element indexes, "/i"
}

func (p *Ptr) Key() string { return "&" + p.Obj + p.Path }

type Struct struct {
	T types.Type
	F []Val
	k string
}

func (s *Struct) Key() string {
	if s.k == "" {
		s.k = "struct:" + s.T.String() + "{" + partsKey(s.F) + "}"
	}
	return s.k
}

type Arr struct {
	E []Val
	T types.Type
}

func (a *Arr) Key() string { return "arr{" + partsKey(a.E) + "}" }

type MapRef struct{ Obj string }

func (m *MapRef) Key() string { return "map:" + m.Obj }

// MapC is the content of a map object.
type MapC struct {
	Items   []Val // El{Entry}, Rep, AltP, LVar
	T       types.Type
	Deleted []Val
	k       string
}

func (m *MapC) Key() string {
	if m.k == "" {
		m.k = "mapc[" + partsKey(m.Items) + "]"
		if len(m.Deleted) > 0 {
			m.k += "-[" + partsKey(m.Deleted) + "]"
		}
	}
	return m.k
}

type Entry struct{ K, V Val }

func (e *Entry) Key() string { return e.K.Key() + "=>" + e.V.Key() }

type Iface struct {
	T types.Type
	V Val
}

func (i *Iface) Key() string { return "if:" + i.T.String() + ":" + i.V.Key() }

type Clo struct {
	Fn   *ssa.Function
	Bind []Val
	Mod  string // name of a modelled function
	k    string
}

func (c *Clo) Key() string {
	if c.k == "" {
		n := c.Mod
		if c.Fn != nil {
			n = c.Fn.String()
		}
		c.k = "fn:" + n + "[" + partsKey(c.Bind) + "]"
	}
	return c.k
}

type Tup struct{ Vs []Val }

func (t *Tup) Key() string { return "tup(" + partsKey(t.Vs) + ")" }

// RangeIt is the iterator of a map or string range.
type RangeIt struct {
	Over Val
	ID   string
}

func (r *RangeIt) Key() string { return "range:" + r.ID }

// Eff is an observable effect.
type Eff struct {
	Kind string
	Args []Val
	Pos  string
}

func (e *Eff) Key() string { return "eff:" + e.Kind + "(" + partsKey(e.Args) + ")" }

// Obj is a modelled library object (writer, template, workbook, ...).
type LibObj struct {
	Kind string
	F    map[string]Val
}

func (o *LibObj) Key() string {
	ks := make([]string, 0, len(o.F))
	for k := range o.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString("lib:" + o.Kind + "{")
	for _, k := range ks {
		sb.WriteString(k + "=" + o.F[k].Key() + ";")
	}
	sb.WriteString("}")
	return sb.String()
}

// ---- constructors ----

var nilV = NilV{}

func S(s string) Val { return &Const{V: s} }
func I(i int64) Val  { return &Const{V: i} }
func B(b bool) Val {
	if b {
		return trueV
	}
	return falseV
}

var trueV = &Const{V: true}
var falseV = &Const{V: false}

func top(f string, a ...any) Val { return &TopV{fmt.Sprintf(f, a...)} }

func isTop(v Val) bool { _, ok := v.(*TopV); return ok }

func constStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok {
		s, ok := c.V.(string)
		return s, ok
	}
	if c, ok := v.(*Cat); ok && len(c.Parts) == 0 {
		return "", true
	}
	return "", false
}
func constInt(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok {
		i, ok := c.V.(int64)
		return i, ok
	}
	return 0, false
}
func constBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok {
		b, ok := c.V.(bool)
		return b, ok
	}
	return false, false
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte)
	}
	return false
}

// strParts views a string value as parts; ok is false if v is not string-like.
func strParts(v Val) ([]Val, bool) {
	switch v := v.(type) {
	case *Const:
		if s, ok := v.V.(string); ok {
			if s == "" {
				return nil, true
			}
			return []Val{v}, true
		}
		return nil, false
	case *Cat:
		return v.Parts, true
	case *Sym:
		if v.T == nil || isStringType(v.T) {
			return []Val{v}, true
		}
	case *App:
		if v.T == nil || isStringType(v.T) {
			return []Val{v}, true
		}
	case *LVar:
		if isStringType(v.T) {
			return []Val{v}, true
		}
	case *TopV:
		return []Val{v}, true
	case *Alt:
		opts := [][]Val{}
		for _, x := range v.Vals {
			p, ok := strParts(x)
			if !ok {
				return nil, false
			}
			opts = append(opts, p)
		}
		return []Val{&AltP{Opts: opts}}, true
	}
	return nil, false
}

func mkCat(parts ...Val) Val {
	var out []Val
	for _, p := range parts {
		switch p := p.(type) {
		case *Const:
			s, _ := p.V.(string)
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if c, ok := out[n-1].(*Const); ok {
					out[n-1] = S(c.V.(string) + s)
					continue
				}
			}
			out = append(out, p)
		case *Rep:
			if len(p.Body) == 0 {
				continue
			}
			out = append(out, p)
		case *AltP:
			out = append(out, p)
		default:
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return S("")
	case 1:
		switch p := out[0].(type) {
		case *Const, *Sym, *App, *TopV:
			return p
		case *AltP:
			return altPToVal(p)
		}
	}
	return &Cat{Parts: out}
}

// altPToVal turns a single string alternative into an Alt of strings.
func altPToVal(p *AltP) Val {
	var r Val
	var vs []Val
	for _, o := range p.Opts {
		vs = append(vs, mkCat(o...))
	}
	r = mkAlt(vs...)
	return r
}

func concat(vs ...Val) Val {
	var parts []Val
	for _, v := range vs {
		p, ok := strParts(v)
		if !ok {
			p = []Val{&App{F: "str", Args: []Val{v}}}
		}
		parts = append(parts, p...)
	}
	return mkCat(parts...)
}

const maxAlt = 24

func mkAlt(vs ...Val) Val {
	var out []Val
	seen := map[string]bool{}
	var add func(v Val)
	add = func(v Val) {
		if a, ok := v.(*Alt); ok {
			for _, x := range a.Vals {
				add(x)
			}
			return
		}
		k := v.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
	for _, v := range out {
		if isTop(v) {
			return v
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > maxAlt {
		return top("too many alternatives")
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return &Alt{Vals: out}
}

func alts(v Val) []Val {
	if a, ok := v.(*Alt); ok {
		return a.Vals
	}
	return []Val{v}
}

// mapAlt applies f to every alternative and joins.
func mapAlt(v Val, f func(Val) Val) Val {
	if a, ok := v.(*Alt); ok {
		var r Val
		for _, x := range a.Vals {
			y := f(x)
			if r == nil {
				r = y
			} else {
				r = join(r, y)
			}
		}
		return r
	}
	return f(v)
}

func factor(a, b []Val) (pre, ma, mb, suf []Val) {
	i := 0
	for i < len(a) && i < len(b) && a[i].Key() == b[i].Key() {
		i++
	}
	pre = a[:i]
	a, b = a[i:], b[i:]
	j := 0
	for j < len(a) && j < len(b) && a[len(a)-1-j].Key() == b[len(b)-1-j].Key() {
		j++
	}
	suf = a[len(a)-j:]
	return pre, a[:len(a)-j], b[:len(b)-j], suf
}

func altParts(ma, mb []Val) []Val {
	if len(ma) == 0 && len(mb) == 0 {
		return nil
	}
	var opts [][]Val
	seen := map[string]bool{}
	add := func(o []Val) {
		if len(o) == 1 {
			if x, ok := o[0].(*AltP); ok {
				for _, y := range x.Opts {
					if k := partsKey(y); !seen[k] {
						seen[k] = true
						opts = append(opts, y)
					}
				}
				return
			}
			// a repetition that may be empty absorbs the empty option
		}
		if k := partsKey(o); !seen[k] {
			seen[k] = true
			opts = append(opts, o)
		}
	}
	add(ma)
	add(mb)
	if len(opts) == 1 {
		return opts[0]
	}
	if len(opts) == 2 {
		for i := 0; i < 2; i++ {
			if len(opts[i]) == 0 && len(opts[1-i]) == 1 {
				if r, ok := opts[1-i][0].(*Rep); ok {
					if r.Min == 0 {
						return opts[1-i]
					}
					return []Val{&Rep{Body: r.Body, Min: 0, Loop: r.Loop, Unord: r.Unord}}
				}
			}
		}
	}
	if len(opts) > 16 {
		return []Val{top("too many alternatives")}
	}
	sort.SliceStable(opts, func(i, j int) bool { return partsKey(opts[i]) < partsKey(opts[j]) })
	return []Val{&AltP{Opts: opts}}
}

func joinParts(a, b []Val) []Val {
	pre, ma, mb, suf := factor(a, b)
	r := append([]Val{}, pre...)
	r = append(r, altParts(ma, mb)...)
	return append(r, suf...)
}

func join(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Key() == b.Key() {
		if x, ok := a.(*Seq); ok {
			if y := b.(*Seq); y.ID != x.ID {
				return &Seq{Items: x.Items, T: x.T}
			}
		}
		return a
	}
	if isTop(a) {
		return a
	}
	if isTop(b) {
		return b
	}
	switch x := a.(type) {
	case *Seq:
		switch y := b.(type) {
		case *Seq:
			return &Seq{Items: joinParts(x.Items, y.Items), T: x.T}
		case NilV:
			return &Seq{Items: joinParts(x.Items, nil), T: x.T}
		}
	case NilV:
		if _, ok := b.(*Seq); ok {
			return join(b, a)
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && types.Identical(x.T, y.T) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = join(x.F[i], y.F[i])
			}
			return &Struct{T: x.T, F: f}
		}
	case *Arr:
		if y, ok := b.(*Arr); ok && len(x.E) == len(y.E) {
			f := make([]Val, len(x.E))
			for i := range f {
				f[i] = join(x.E[i], y.E[i])
			}
			return &Arr{E: f, T: x.T}
		}
	case *Tup:
		if y, ok := b.(*Tup); ok && len(x.Vs) == len(y.Vs) {
			f := make([]Val, len(x.Vs))
			for i := range f {
				f[i] = join(x.Vs[i], y.Vs[i])
			}
			return &Tup{f}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && types.Identical(x.T, y.T) {
			return &Iface{x.T, join(x.V, y.V)}
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			return &MapC{Items: joinParts(x.Items, y.Items), T: x.T, Deleted: append(append([]Val{}, x.Deleted...), y.Deleted...)}
		}
	case *LibObj:
		if y, ok := b.(*LibObj); ok && x.Kind == y.Kind {
			f := map[string]Val{}
			for k, v := range x.F {
				if w, ok := y.F[k]; ok {
					f[k] = join(v, w)
				} else {
					f[k] = v
				}
			}
			for k, v := range y.F {
				if _, ok := f[k]; !ok {
					f[k] = v
				}
			}
			return &LibObj{x.Kind, f}
		}
	}
	// strings with common structure are factored
	ca, aok := a.(*Cat)
	cb, bok := b.(*Cat)
	if aok || bok {
		pa, ok1 := strParts(a)
		pb, ok2 := strParts(b)
		if ok1 && ok2 && (aok && bok || hasLV(pa) || hasLV(pb)) {
			pre, _, _, suf := factor(pa, pb)
			if len(pre)+len(suf) > 0 {
				return mkCat(joinParts(pa, pb)...)
			}
		}
		_, _ = ca, cb
	}
	return mkAlt(a, b)
}

func hasLV(ps []Val) bool {
	for _, p := range ps {
		if _, ok := p.(*LVar); ok {
			return true
		}
	}
	return false
}

// mapVal rewrites v bottom-up; f returns nil to keep a node. For parts lists, f may return *Splice.
type Splice struct{ Parts []Val }

func (s *Splice) Key() string { return "splice:" + partsKey(s.Parts) }

func mapParts(ps []Val, f func(Val) Val) ([]Val, bool) {
	ch := false
	var out []Val
	for _, p := range ps {
		q := mapVal(p, f)
		if q != p {
			ch = true
		}
		if sp, ok := q.(*Splice); ok {
			out = append(out, sp.Parts...)
		} else {
			out = append(out, q)
		}
	}
	if !ch {
		return ps, false
	}
	return out, true
}

func mapVal(v Val, f func(Val) Val) Val {
	if r := f(v); r != nil {
		return r
	}
	switch x := v.(type) {
	case *App:
		if a, ch := mapParts(x.Args, f); ch {
			return &App{F: x.F, Args: a, T: x.T}
		}
	case *Lin:
		if b := mapVal(x.Base, f); b != x.Base {
			return mkLin(b, x.Off)
		}
	case *LenOf:
		if b := mapVal(x.S, f); b != x.S {
			return &LenOf{b}
		}
	case *Rep:
		if a, ch := mapParts(x.Body, f); ch {
			return &Rep{Body: a, Min: x.Min, Loop: x.Loop, Unord: x.Unord}
		}
	case *AltP:
		ch := false
		opts := make([][]Val, len(x.Opts))
		for i, o := range x.Opts {
			p, c := mapParts(o, f)
			opts[i] = p
			ch = ch || c
		}
		if ch {
			return &AltP{Opts: opts}
		}
	case *Cat:
		if a, ch := mapParts(x.Parts, f); ch {
			return mkCat(a...)
		}
	case *El:
		if a := mapVal(x.V, f); a != x.V {
			return &El{a}
		}
	case *Seq:
		if a, ch := mapParts(x.Items, f); ch {
			return &Seq{Items: a, ID: x.ID, T: x.T}
		}
	case *Alt:
		if a, ch := mapParts(x.Vals, f); ch {
			return mkAlt(a...)
		}
	case *Struct:
		if a, ch := mapParts(x.F, f); ch {
			return &Struct{T: x.T, F: a}
		}
	case *Arr:
		if a, ch := mapParts(x.E, f); ch {
			return &Arr{E: a, T: x.T}
		}
	case *MapC:
		a, ch := mapParts(x.Items, f)
		d, ch2 := mapParts(x.Deleted, f)
		if ch || ch2 {
			return &MapC{Items: a, T: x.T, Deleted: d}
		}
	case *Entry:
		k, w := mapVal(x.K, f), mapVal(x.V, f)
		if k != x.K || w != x.V {
			return &Entry{k, w}
		}
	case *Iface:
		if a := mapVal(x.V, f); a != x.V {
			return &Iface{x.T, a}
		}
	case *Clo:
		if a, ch := mapParts(x.Bind, f); ch {
			return &Clo{Fn: x.Fn, Bind: a, Mod: x.Mod}
		}
	case *Tup:
		if a, ch := mapParts(x.Vs, f); ch {
			return &Tup{a}
		}
	case *Eff:
		if a, ch := mapParts(x.Args, f); ch {
			return &Eff{x.Kind, a, x.Pos}
		}
	case *LibObj:
		ch := false
		m := map[string]Val{}
		for k, w := range x.F {
			m[k] = mapVal(w, f)
			if m[k] != w {
				ch = true
			}
		}
		if ch {
			return &LibObj{x.Kind, m}
		}
	}
	return v
}

func mkLin(b Val, off int64) Val {
	if c, ok := constInt(b); ok {
		return I(c + off)
	}
	if l, ok := b.(*Lin); ok {
		return mkLin(l.Base, l.Off+off)
	}
	if off == 0 {
		return b
	}
	return &Lin{b, off}
}

// linear view: base, offset
func linView(v Val) (Val, int64) {
	if l, ok := v.(*Lin); ok {
		return l.Base, l.Off
	}
	if c, ok := constInt(v); ok {
		return nil, c
	}
	return v, 0
}

func containsLV(v Val, id string) bool {
	found := false
	mapVal(v, func(x Val) Val {
		if l, ok := x.(*LVar); ok && (id == "" || l.ID == id) {
			found = true
		}
		return nil
	})
	return found
}

// seqLen returns the interval of possible lengths (max -1: unbounded).
func partsLen(ps []Val, one func(Val) (int64, int64)) (int64, int64) {
	var lo, hi int64
	for _, p := range ps {
		var l, h int64
		switch p := p.(type) {
		case *El:
			l, h = 1, 1
		case *Rep:
			bl, bh := partsLen(p.Body, one)
			l = bl * int64(p.Min)
			if bh == 0 {
				h = 0
			} else {
				h = -1
			}
		case *AltP:
			first := true
			for _, o := range p.Opts {
				ol, oh := partsLen(o, one)
				if first {
					l, h = ol, oh
					first = false
				} else {
					if ol < l {
						l = ol
					}
					if h >= 0 && (oh < 0 || oh > h) {
						h = oh
					}
				}
			}
		default:
			l, h = one(p)
		}
		lo += l
		if hi >= 0 {
			if h < 0 {
				hi = -1
			} else {
				hi += h
			}
		}
	}
	return lo, hi
}

func lenRange(v Val) (int64, int64) {
	switch x := v.(type) {
	case NilV:
		return 0, 0
	case *Seq:
		return partsLen(x.Items, func(Val) (int64, int64) { return 0, -1 })
	case *MapC:
		lo, hi := partsLen(x.Items, func(Val) (int64, int64) { return 0, -1 })
		if len(x.Deleted) > 0 {
			lo = 0
		}
		return lo, hi
	case *Alt:
		lo, hi := lenRange(x.Vals[0])
		for _, y := range x.Vals[1:] {
			l, h := lenRange(y)
			if l < lo {
				lo = l
			}
			if hi >= 0 && (h < 0 || h > hi) {
				hi = h
			}
		}
		return lo, hi
	}
	if ps, ok := strParts(v); ok {
		return partsLen(ps, func(p Val) (int64, int64) {
			switch x := p.(type) {
			case *Const:
				s, _ := x.V.(string)
				return int64(len(s)), int64(len(s))
			}
			if isGeneric(p) {
				return 1, -1
			}
			return 0, -1
		})
	}
	return 0, -1
}

// genericFns: pure string functions whose result on a generic atom is again a non-empty string distinct
// from every literal.
var genericFns = map[string]bool{
	"strcase.ToCamel": true, "strcase.ToLowerCamel": true, "strcase.ToSnake": true, "strcase.ToScreamingSnake": true,
	"strings.ToUpper": true, "strings.ToLower": true, "strings.TrimSpace": true, "strings.Title": true,
	"pluralize.Plural": true, "pluralize.Singular": true, "pluralize.Pluralize": true, "quote": true, "firstLower": true, "firstUpper": true,
	"itoa": true, "fileContent": true, "strcase.ToKebab": true, "strcase.ToScreamingDelimited": true, "trimExt": true, "base": true, "strcase.ToDelimited": true,
}

func isGeneric(v Val) bool {
	switch x := v.(type) {
	case *Sym:
		return x.Gen
	case *App:
		if genericFns[x.F] && len(x.Args) > 0 {
			return isGeneric(x.Args[0]) || x.F == "itoa"
		}
	case *Cat:
		for _, p := range x.Parts {
			if isGeneric(p) {
				return true
			}
		}
	}
	return false
}
