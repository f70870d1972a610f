package main

import "strings"

// Position splitting: a sequence is rewritten as alternatives in which the last (or first) element is explicit.

type splitAlt struct {
	rest []Val
	el   *El
}

// splitEnd returns the ways the items can end (last) or begin (!last), and whether they may be empty.
func splitEnd(items []Val, last bool) (as []splitAlt, empty, ok bool) {
	n := len(items)
	at := func(k int) int {
		if last {
			return n - 1 - k
		}
		return k
	}
	for k := 0; k < n; k++ {
		i := at(k)
		sub, e, good := splitItem(items[i], last)
		if !good {
			return nil, false, false
		}
		for _, s := range sub {
			var rest []Val
			if last {
				rest = append(append(rest, items[:i]...), s.rest...)
			} else {
				rest = append(append(rest, s.rest...), items[i+1:]...)
			}
			as = append(as, splitAlt{rest, s.el})
		}
		if !e {
			return as, false, true
		}
	}
	return as, true, true
}

func splitItem(it Val, last bool) (as []splitAlt, empty, ok bool) {
	switch x := it.(type) {
	case *El:
		return []splitAlt{{nil, x}}, false, true
	case *AltP:
		for _, o := range x.Opts {
			sub, e, good := splitEnd(o, last)
			if !good {
				return nil, false, false
			}
			as = append(as, sub...)
			empty = empty || e
		}
		return as, empty, true
	case *Rep:
		sub, e, good := splitEnd(x.Body, last)
		if !good {
			return nil, false, false
		}
		min := x.Min - 1
		if min < 0 {
			min = 0
		}
		loop := x.Loop
		if !strings.HasPrefix(loop, "split:") {
			loop = "split:" + loop
		}
		for _, s := range sub {
			r := &Rep{Body: x.Body, Min: min, Loop: loop, Unord: x.Unord}
			var rest []Val
			if last {
				rest = append([]Val{r}, s.rest...)
			} else {
				rest = append(append([]Val{}, s.rest...), r)
			}
			as = append(as, splitAlt{rest, s.el})
		}
		return as, e || x.Min == 0, true
	}
	return nil, false, false
}

// splitSeq makes the last or the first element of s explicit; nil if that is impossible.
func splitSeq(s *Seq, last bool) *Seq {
	as, empty, ok := splitEnd(s.Items, last)
	if !ok || len(as) == 0 || len(as) > 12 {
		return nil
	}
	var opts [][]Val
	for _, a := range as {
		if last {
			opts = append(opts, append(append([]Val{}, a.rest...), a.el))
		} else {
			opts = append(opts, append([]Val{a.el}, a.rest...))
		}
	}
	if empty {
		opts = append(opts, nil)
	}
	items := []Val{&AltP{Opts: opts}}
	if len(opts) == 1 {
		items = opts[0]
	}
	if partsKey(items) == partsKey(s.Items) {
		return nil
	}
	return &Seq{Items: items, ID: s.ID, T: s.T}
}
