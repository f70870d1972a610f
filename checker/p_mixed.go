package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Mixed documents: several tables with columns of all kinds next to each other, so that what one column, key, index or
// reference calls for meets what the others call for. They are a fixed sample of the combinations.

// mixFactor multiplies the number of mixed documents in the thorough tier.
var mixFactor = 1

type mixer struct{ s uint64 }

func (m *mixer) n(k int) int {
	m.s ^= m.s << 13
	m.s ^= m.s >> 7
	m.s ^= m.s << 17
	return int(m.s>>11) % k
}

func (m *mixer) pick(l []string) string { return l[m.n(len(l))] }

// some draws up to n different strings.
func (m *mixer) some(l []string, n int) []string {
	l = append([]string{}, l...)
	for i := range l {
		j := i + m.n(len(l)-i)
		l[i], l[j] = l[j], l[i]
	}
	return l[:min(n, len(l))]
}

var variantCache sync.Map

func variantsOf(typ string) (names []string, vs map[string]*Col) {
	if v, ok := variantCache.Load(typ); ok {
		vs = v.(map[string]*Col)
	} else {
		vs = colVariants(typ)
		variantCache.Store(typ, vs)
	}
	return sortedKeys(vs), vs
}

var (
	mixTables  = []string{"aaa", "user_group", "tb_item", "orders", "x_1", "Zeta", "data", "log_entry"}
	mixColumns = []string{"id", "name", "created_at", "updated_at", "deleted_at", "user_id", "item_count", "class", "orders", "x2", "a", "b_c", "valid", "code"}
)

func mixedDoc(seed string, types []typeSpec) *Doc {
	m := &mixer{hashOf(seed) | 1}
	for i := 0; i < 8; i++ {
		m.n(2)
	}
	d := &Doc{Author: "«AU»", Name: "«SN»", Version: "«SV»"}
	for i, tn := range m.some(mixTables, 1+m.n(4)) {
		t := &Tab{Class: "t" + strconv.Itoa(i), Name: tn, Group: m.pick([]string{"", "g1", "g2", "g3"})}
		if m.n(3) == 0 {
			t.Desc = fmt.Sprintf("«TD%d»", i)
		}
		if m.n(4) == 0 {
			t.ClassName = fmt.Sprintf("Klass%d", i)
		}
		// a few types per table, so that types repeat
		var tt []typeSpec
		for j := 1 + m.n(3); j >= 0; j-- {
			tt = append(tt, types[m.n(len(types))])
		}
		for j, cn := range m.some(mixColumns, m.n(7)) {
			ty := tt[m.n(len(tt))]
			if strings.HasSuffix(cn, "_at") && m.n(2) == 0 {
				for _, x := range types {
					if x.Name == "datetime" {
						ty = x
					}
				}
			}
			names, vs := variantsOf(ty.Name)
			c := *vs[m.pick(names)]
			c.Class, c.Name = "c"+strconv.Itoa(j), cn
			tag := func(s string) string { return strings.ReplaceAll(s, "»", fmt.Sprintf("_%d%d»", i, j)) }
			c.Default, c.OnUpdate, c.Desc, c.Size, c.Scale = tag(c.Default), tag(c.OnUpdate), tag(c.Desc), tag(c.Size), tag(c.Scale)
			if c.Default != "" && !strings.HasPrefix(c.Default, "fn::") {
				if l := lqDefaults(ty.Name); len(l) > 1 {
					c.Default = m.pick(l[:len(l)-1])
				}
			}
			if c.Size != "" && m.n(2) == 0 {
				c.Size = m.pick([]string{"1", "2", "10", "20", "255"})
				if c.Scale != "" {
					c.Scale = m.pick([]string{"1", "2", c.Size})
				}
			}
			c.Values = append([]string{}, c.Values...)
			if m.n(3) > 0 {
				c.PK = false
			}
			t.Cols = append(t.Cols, &c)
		}
		if m.n(3) > 0 {
			sort.SliceStable(t.Cols, func(i, j int) bool { return t.Cols[i].PK && !t.Cols[j].PK })
		}
		for j := m.n(4) - 1; j > 0 && len(t.Cols) > 0; j-- {
			var l []string
			for _, c := range t.Cols {
				l = append(l, c.Name)
			}
			t.Idx = append(t.Idx, &Idx{Class: "x" + strconv.Itoa(j), Name: fmt.Sprintf("«IX%d%d»", i, j), Cols: m.some(l, 1+m.n(3))})
		}
		d.Tabs = append(d.Tabs, t)
	}
	for _, t := range d.Tabs {
		for _, c := range t.Cols {
			if m.n(4) > 0 {
				continue
			}
			if u := d.Tabs[m.n(len(d.Tabs))]; len(u.Cols) > 0 {
				c.Ref = &Ref{u.Name, u.Cols[m.n(len(u.Cols))].Name, m.pick(relations)}
			}
		}
	}
	return d
}

// mixedCases: n mixed documents for the command.
func mixedCases(cmd string, norm *Norm, expect func(c *Case) string, flags map[string]string, types []typeSpec, n int) []*Case {
	var cs []*Case
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprintf("mixed document %d", i)
		cs = append(cs, &Case{Name: name, Cmd: cmd, Norm: norm, Flags: flags, NoLit: true, Docs: map[string]*Doc{"input": mixedDoc(name+cmd+fmt.Sprint(flags), types)}, Expect: func(c *Case) string {
			x := *c
			x.Docs = map[string]*Doc{"input": sortedDoc(c.doc())}
			return expect(&x)
		}})
	}
	return cs
}

// edited is a document with a number of edits to tables, columns, their order and attributes.
func edited(m *mixer, d *Doc, types []typeSpec, other *Doc) *Doc {
	n := d.subst(func(s string) string { return s })
	n.Version = "«SV2»"
	var tabs []*Tab
	have := map[string]bool{}
	for _, t := range n.Tabs {
		have[t.Name] = true
	}
	for _, t := range n.Tabs {
		switch m.n(8) {
		case 0: // dropped
			continue
		case 1: // renamed
			if x := m.pick(mixTables); !have[x] {
				have[x] = true
				t.Name = x
			}
			if m.n(2) == 0 {
				tabs = append(tabs, t)
				continue
			}
		case 2: // as it was
			tabs = append(tabs, t)
			continue
		case 3:
			t.Desc = m.pick([]string{"", "«TDX»"})
		}
		var cols []*Col
		names := map[string]bool{}
		for _, c := range t.Cols {
			names[c.Name] = true
		}
		fresh := func() string {
			for {
				if x := m.pick(mixColumns) + m.pick([]string{"", "", "_2"}); !names[x] {
					names[x] = true
					return x
				}
			}
		}
		draw := func(ty typeSpec) *Col {
			ns, vs := variantsOf(ty.Name)
			c := *vs[m.pick(ns)]
			c.Class = "d"
			if c.Default == "«DEF»" {
				if l := lqDefaults(ty.Name); len(l) > 1 {
					c.Default = m.pick(l[:len(l)-1])
				}
			}
			if m.n(3) > 0 {
				c.PK = false
			}
			return &c
		}
		for _, c := range t.Cols {
			switch m.n(10) {
			case 0:
				continue
			case 1:
				c.Name = fresh()
			case 2:
				x := draw(types[m.n(len(types))])
				x.Class, x.Name = c.Class, c.Name
				c = x
			case 3:
				x := draw(typeOf(c.Type))
				x.Class, x.Name = c.Class, c.Name
				c = x
			case 4:
				c.NN = !c.NN
			case 5:
				c.UQ = !c.UQ
				if m.n(2) == 0 {
					c.Desc = m.pick([]string{"", "«DX»"})
				}
			}
			cols = append(cols, c)
		}
		for j := m.n(4); j > 1; j-- {
			x := draw(types[m.n(len(types))])
			x.Name = fresh()
			x.Class = "n" + x.Name
			i := m.n(len(cols) + 1)
			cols = append(cols[:i:i], append([]*Col{x}, cols[i:]...)...)
		}
		if m.n(4) == 0 && len(cols) > 1 {
			i := m.n(len(cols) - 1)
			cols[i], cols[i+1] = cols[i+1], cols[i]
		}
		t.Cols = cols
		for _, x := range t.Idx {
			x.Cols = nil
		}
		t.Idx = nil
		tabs = append(tabs, t)
	}
	for _, t := range other.Tabs {
		if !have[t.Name] && m.n(2) == 0 {
			have[t.Name] = true
			tabs = append(tabs, t)
		}
	}
	for i, t := range tabs {
		t.Class = "t" + strconv.Itoa(i)
		for _, c := range t.Cols {
			if c.Ref != nil && m.n(2) == 0 {
				c.Ref = nil
			}
		}
	}
	n.Tabs = tabs
	return n
}

// mixedPairs: n mixed documents and what they become after some edits.
func mixedPairs(n int) []pair {
	var ps []pair
	for i := 0; i < n*mixFactor; i++ {
		name := fmt.Sprintf("mixed edits %d", i)
		m := &mixer{hashOf(name) | 1}
		for j := 0; j < 8; j++ {
			m.n(2)
		}
		types := mysqlTypes
		if m.n(2) == 0 {
			types = nil
			for j := 0; j < 3; j++ {
				types = append(types, mysqlTypes[m.n(len(mysqlTypes))])
			}
		}
		from := mixedDoc(name, types)
		to := edited(m, from, types, mixedDoc(name+" other", types))
		from, to = distinctSizes(from, to)
		ps = append(ps, pair{name, from, to, flagsOf("comments", m.pick([]string{"", "true"}), "groups", m.pick([]string{"", "", "g1,g2", "g3"}), "uniqueNameSuffix", m.pick([]string{"", "_uq"}))})
	}
	return ps
}

// distinctSizes gives the sizes of both documents fixed and different values when a column is there with two sizes
// that are not known to differ.
func distinctSizes(from, to *Doc) (*Doc, *Doc) {
	same := func(a, b string) bool {
		return a == b || !strings.Contains(a+b, "«")
	}
	clash := false
	for _, t := range from.Tabs {
		for _, u := range to.Tabs {
			for _, c := range t.Cols {
				for _, d := range u.Cols {
					if (c.Name == d.Name || t.Name == u.Name && c.Type == d.Type) && (!same(c.Size, d.Size) || !same(c.Scale, d.Scale)) {
						clash = true
					}
				}
			}
		}
	}
	if !clash {
		return from, to
	}
	lits := map[string]string{}
	fix := func(d *Doc) *Doc {
		n := d.subst(func(s string) string { return s })
		for _, t := range n.Tabs {
			for _, c := range t.Cols {
				for _, p := range []*string{&c.Size, &c.Scale} {
					if strings.Contains(*p, "«") {
						if lits[*p] == "" {
							lits[*p] = strconv.Itoa(31 + len(lits))
						}
						*p = lits[*p]
					}
				}
			}
		}
		return n
	}
	return fix(from), fix(to)
}
