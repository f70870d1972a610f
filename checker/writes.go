package main

import "sort"

// The order in which different files are written is not observable: on both sides of a comparison the writes come in
// the order of their paths, and a repetition that writes several files is taken as one repetition per file.

// fileStart returns the path when a part starts the write of a file.
func fileStart(ps []Val, i int) ([]Val, bool) {
	switch x := ps[i].(type) {
	case *Eff:
		if x.Kind == "create" || x.Kind == "writefile" {
			return x.Args[:1], true
		}
	case *El:
		return fileStart([]Val{x.V}, 0)
	case *Sym:
		if x.Name == "⟪" {
			for j := i + 1; j < len(ps); j++ {
				if y, ok := ps[j].(*Sym); ok && y.Name == "⟫" {
					return ps[i+1 : j], true
				}
			}
		}
	}
	return nil, false
}

func silent(p Val) bool {
	switch x := p.(type) {
	case *El:
		return silent(x.V)
	case *Eff:
		switch x.Kind {
		case "read", "decode", "mkdir", "log", "print", "fault", "runerror":
			return true
		}
	case *Rep:
		for _, b := range x.Body {
			if !silent(b) {
				return false
			}
		}
		return true
	case *AltP:
		for _, o := range x.Opts {
			for _, b := range o {
				if !silent(b) {
					return false
				}
			}
		}
		return true
	}
	return false
}

type fileWrite struct {
	key   string
	parts []Val
}

// fileWrites cuts parts into the writes of files; false when something else happens too.
func fileWrites(ps []Val) ([]fileWrite, bool) {
	var out []fileWrite
	open := false // the last write goes on with the next part
	for i := 0; i < len(ps); i++ {
		if silent(ps[i]) {
			continue
		}
		if path, ok := fileStart(ps, i); ok {
			out = append(out, fileWrite{key: firstWord(path), parts: []Val{ps[i]}})
			open = true
			continue
		}
		if r, ok := ps[i].(*Rep); ok {
			if fs, ok := fileWrites(r.Body); ok && len(fs) > 0 {
				for _, f := range fs {
					c := *r
					c.Body, c.Unord, c.k = f.parts, false, ""
					out = append(out, fileWrite{key: f.key, parts: []Val{&c}})
				}
				open = false
				continue
			}
		}
		if a, ok := ps[i].(*AltP); ok {
			if key, ok := altFiles(a); ok {
				c := &AltP{}
				for _, o := range a.Opts {
					c.Opts = append(c.Opts, sortWrites(o))
				}
				out = append(out, fileWrite{key: key, parts: []Val{c}})
				open = false
				continue
			}
		}
		if !open {
			return nil, false
		}
		f := &out[len(out)-1]
		f.parts = append(f.parts, ps[i])
	}
	return out, true
}

func altFiles(a *AltP) (string, bool) {
	key := ""
	for _, o := range a.Opts {
		fs, ok := fileWrites(o)
		if !ok {
			return "", false
		}
		for _, f := range fs {
			if key == "" || f.key < key {
				key = f.key
			}
		}
	}
	return key, key != ""
}

func sortWrites(ps []Val) []Val {
	if len(ps) == 1 {
		if a, ok := ps[0].(*AltP); ok {
			c := &AltP{}
			for _, o := range a.Opts {
				c.Opts = append(c.Opts, sortWrites(o))
			}
			return []Val{c}
		}
	}
	fs, ok := fileWrites(ps)
	if !ok {
		return ps
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].key < fs[j].key })
	var out []Val
	for _, f := range fs {
		out = append(out, f.parts...)
	}
	return out
}

// firstWord is the first of the shortest words of a text.
func firstWord(ps []Val) string {
	n := nfaOfParts(ps)
	closure := func(m map[int]bool) {
		var work []int
		for q := range m {
			work = append(work, q)
		}
		for len(work) > 0 {
			q := work[len(work)-1]
			work = work[:len(work)-1]
			for _, t := range n.eps[q] {
				if !m[t] {
					m[t] = true
					work = append(work, t)
				}
			}
		}
	}
	// words by increasing length; one state set per word, the first word to reach a set stands for it
	type node struct {
		set map[int]bool
		w   string
	}
	start := map[int]bool{n.start: true}
	closure(start)
	level := []node{{start, ""}}
	for depth := 0; depth < 400 && len(level) > 0; depth++ {
		for _, x := range level {
			if x.set[n.end] {
				return x.w
			}
		}
		var next []node
		for _, x := range level {
			to := map[string]map[int]bool{}
			for q := range x.set {
				for l, bs := range n.trans[q] {
					if to[l] == nil {
						to[l] = map[int]bool{}
					}
					for _, b := range bs {
						to[l][b] = true
					}
				}
			}
			for _, l := range sortedKeys(to) {
				closure(to[l])
				next = append(next, node{to[l], x.w + l})
			}
		}
		if len(next) > 64 {
			next = next[:64]
		}
		level = next
	}
	return ""
}
