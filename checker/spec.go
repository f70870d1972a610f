package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is a decided violation, an undecided obligation, or a known finding.
type Finding struct {
	Kind      string // violation, undecided, known
	Construct string // function, call site or command
	Case      string
	Msg       string
}

// Check decides one property.
type Check struct {
	prog      *Program
	ID        string
	Tier      string
	mu        sync.Mutex
	Oblig     int
	Held      int
	Undecided int
	Findings  []Finding
	Known     map[string]string
	knownHit  map[string]bool
	Rules     []string
	Funcs     map[string]bool
	States    int
	Calls     int
	Samples   []string
	branches  int
	followed  int
	budget    int
	depth     int
	bounded   int
	litSeen   map[string]bool
	cmds      map[string]bool
}

type knownFile struct {
	Known []struct{ Property, ID, What string } `json:"known"`
	Fixed []string                              `json:"fixed"`
}

func (k *Check) add(f Finding) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, g := range k.Findings {
		if g == f {
			return
		}
	}
	k.Findings = append(k.Findings, f)
}

// oblige records an obligation decided by a direct rule.
func (k *Check) oblige(ok bool, construct, name, msg string, a ...any) {
	k.mu.Lock()
	k.Oblig++
	if ok {
		k.Held++
	}
	k.mu.Unlock()
	if !ok {
		k.add(Finding{"violation", construct, name, fmt.Sprintf(msg, a...)})
	}
}

func (k *Check) undecided(construct, name, msg string, a ...any) {
	k.mu.Lock()
	k.Oblig++
	k.Undecided++
	k.mu.Unlock()
	k.add(Finding{"undecided", construct, name, fmt.Sprintf(msg, a...)})
}

func (k *Check) rule(s string) { k.Rules = append(k.Rules, s) }

// known reports a listed finding; false if it is not listed.
func (k *Check) known(id string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	if _, ok := k.Known[id]; !ok {
		return false
	}
	k.knownHit[id] = true
	return true
}

// KnownOut is a listed defect: the output the code is known to produce instead.
type KnownOut struct {
	ID  string
	Out func(c *Case) string
}

func (k *Check) merge(r *Result) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for f := range r.in.stats.Funcs {
		k.Funcs[f] = true
	}
	k.Calls += len(r.in.stats.Calls)
	k.branches += r.in.stats.Decided
	k.cmds[r.cmd] = true
}

// child collects the verdict on one case.
func (k *Check) child() *Check {
	return &Check{prog: k.prog, ID: k.ID, Known: k.Known, knownHit: map[string]bool{}, Funcs: map[string]bool{}, cmds: map[string]bool{}}
}

func (k *Check) adopt(s *Check) {
	k.mu.Lock()
	k.Oblig, k.Held, k.Undecided = k.Oblig+s.Oblig, k.Held+s.Held, k.Undecided+s.Undecided
	k.States, k.Calls, k.branches, k.bounded = k.States+s.States, k.Calls+s.Calls, k.branches+s.branches, k.bounded+s.bounded
	for id := range s.knownHit {
		k.knownHit[id] = true
	}
	for f := range s.Funcs {
		k.Funcs[f] = true
	}
	for f := range s.cmds {
		k.cmds[f] = true
	}
	for _, x := range s.Samples {
		if len(k.Samples) < 8 {
			k.Samples = append(k.Samples, x)
		}
	}
	k.mu.Unlock()
	for _, f := range s.Findings {
		k.add(f)
	}
}

// instances decides a case that is undecided over all documents on documents of a few given sizes and names instead.
func (k *Check) instances(c *Case, un *Check) *Check {
	all := k.child()
	for n := 0; n <= 3; n++ {
		m := c.instance(n)
		if m == nil {
			continue
		}
		fit := true
		for _, d := range m.Docs {
			fit = fit && d.valid() && (m.Fit == nil || m.Fit(d))
		}
		if !fit {
			continue
		}
		r, err := all.analyse(m.Cmd, m.ctx())
		if err != nil {
			return un
		}
		if d := os.Getenv("OCT_DUMP"); d != "" && strings.Contains(m.Name, d) {
			fmt.Println("=== " + m.Cmd + " | " + m.Name + "\n" + cut(r.dump(), 6000) + "\n--- expected\n" + cut(m.Expect(m), 3000))
		}
		all.judge(m, r, k.entry(m.Cmd))
	}
	if all.Oblig == 0 || all.Undecided > 0 && all.Held+all.Undecided == all.Oblig {
		return un
	}
	all.bounded = 1
	return all
}

// outcomeOf analyses a case.
func (k *Check) analyse(cmd string, ctx *Ctx) (r *Result, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("analysis failed: %v\n%s", e, debug.Stack())
		}
	}()
	timed("analyse "+cmd, func() { r, err = k.prog.runCommand(cmd, ctx) })
	if err == nil {
		k.merge(r)
	}
	return
}

func (r *Result) effects(outs []*Outcome) []Val {
	var opts [][]Val
	for _, o := range outs {
		opts = append(opts, o.st.eff)
	}
	if len(opts) == 1 {
		return opts[0]
	}
	return []Val{&AltP{Opts: opts}}
}

func (r *Result) crash() (string, bool) {
	for _, p := range sortedKeys(r.in.panics) {
		if r.in.panics[p] {
			return p, true
		}
	}
	for _, p := range sortedKeys(r.in.fatals) {
		return "exit at " + p, true
	}
	return "", false
}

// eval decides one case and returns the comparisons with literals that the analysis met.
func (k *Check) eval(c *Case) []string {
	construct := k.entry(c.Cmd)
	if c.Cmd != docCmd && k.prog.cmds[c.Cmd] == nil {
		k.oblige(false, "main.go", c.Name, "command %q is not registered", c.Cmd)
		return nil
	}
	r, err := k.analyse(c.Cmd, c.ctx())
	if err != nil {
		k.undecided(construct, c.Name, "%v", err)
		return nil
	}
	if d := os.Getenv("OCT_DUMP"); d != "" && strings.Contains(c.Name, d) {
		fmt.Println("=== " + c.Cmd + " | " + c.Name + "\n" + cut(r.dump(), 6000) + "\n--- expected\n" + cut(c.Expect(c), 3000))
	}
	sub := k.child()
	sub.judge(c, r, construct)
	if w := os.Getenv("OCT_WHY"); w != "" && sub.Undecided > 0 {
		for _, f := range sub.Findings {
			fmt.Println("UNDECIDED " + c.Cmd + " | " + c.Name + " | " + cut(f.Msg, 700))
		}
	}
	if (sub.Undecided > 0 || os.Getenv("OCT_INST") != "") && len(c.Docs) > 0 && !c.NoInst {
		sub = k.instances(c, sub)
	}
	k.adopt(sub)
	if c.NoLit || os.Getenv("OCT_NOLIT") != "" {
		return nil
	}
	return sortedKeys(r.in.litCmp)
}

// enough: OCT_FAST=1 stops at the first violation, and takes the cases in no particular order.
func (k *Check) enough() bool {
	if os.Getenv("OCT_FAST") == "" {
		return false
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, f := range k.Findings {
		if f.Kind == "violation" {
			return true
		}
	}
	return false
}

func hashOf(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// cases decides the cases and then the contexts that the comparisons met in them call for, spread over the comparisons.
func (k *Check) cases(cs []*Case) {
	if os.Getenv("OCT_FAST") != "" {
		cs = append([]*Case{}, cs...)
		sort.SliceStable(cs, func(i, j int) bool { return hashOf(cs[i].Name) < hashOf(cs[j].Name) })
	}
	for depth := k.depth; len(cs) > 0 && !k.enough(); depth-- {
		notes := make([][]string, len(cs))
		var next atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < runtime.NumCPU(); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := int(next.Add(1)) - 1; i < len(cs) && !k.enough(); i = int(next.Add(1)) - 1 {
					notes[i] = k.eval(cs[i])
				}
			}()
		}
		wg.Wait()
		if depth <= 0 {
			return
		}
		cs = k.refine(cs, notes, depth == 1)
	}
}

// refine selects the contexts to decide next: the same share for every comparison and command.
func (k *Check) refine(cs []*Case, notes [][]string, last bool) []*Case {
	order := make([]int, len(cs))
	hash := make([]uint64, len(cs))
	for i, c := range cs {
		order[i], hash[i] = i, hashOf(c.Name)
	}
	sort.SliceStable(order, func(i, j int) bool { return hash[order[i]] < hash[order[j]] })
	by := map[string][]*Case{}
	for _, i := range order {
		for _, l := range notes[i] {
			by[cs[i].Cmd+"|"+l] = append(by[cs[i].Cmd+"|"+l], cs[i])
		}
	}
	keys := sortedKeys(by)
	var r []*Case
	limit := k.budget
	if !last {
		limit = k.followed + (k.budget-k.followed)*2/3
	}
	for n := 0; k.followed < limit; n++ {
		left := false
		for _, l := range keys {
			if n >= len(by[l]) {
				continue
			}
			left = true
			c := by[l][n]
			for _, m := range c.follow(strings.TrimPrefix(l, c.Cmd+"|")) {
				key := fmt.Sprint(m.Cmd, "|", m.Name, "|", m.Flags)
				if k.litSeen[key] {
					continue
				}
				k.litSeen[key] = true
				valid := true
				for _, d := range m.Docs {
					valid = valid && d.valid() && (m.Fit == nil || m.Fit(d))
				}
				if valid {
					k.followed++
					r = append(r, m)
				}
			}
		}
		if !left {
			break
		}
	}
	return r
}

// has reports whether the atom occurs in the documents of the case or in its options.
func (c *Case) has(atom string) (inDocs, inFlags bool) {
	for _, v := range c.Flags {
		inFlags = inFlags || strings.Contains(v, "«"+atom+"»")
	}
	for _, d := range c.Docs {
		d.subst(func(s string) string {
			if strings.Contains(s, "«"+atom+"»") {
				inDocs = true
			}
			return s
		})
	}
	return
}

func (k *Check) entry(cmd string) string {
	if cmd == docCmd {
		return "format/octopus.LoadSchema, format/octopus.(*Schema).ToFile"
	}
	c := k.prog.cmds[cmd]
	if c == nil {
		return cmd
	}
	if cl, ok := c.Action.(*Clo); ok && cl.Fn != nil {
		return k.prog.pos(cl.Fn.Pos()) + " (" + cl.Fn.RelString(nil) + ")"
	}
	return cmd
}

// judge compares the outcome with what the case requires; a listed defect must produce exactly the output it is known for.
func (k *Check) judge(c *Case, r *Result, construct string) {
	for _, kn := range c.Known {
		if _, ok := k.Known[kn.ID]; !ok {
			continue
		}
		sub := &Check{prog: k.prog, Known: map[string]string{}, knownHit: map[string]bool{}}
		sub.judge1(c, r, construct, c.Expect(c))
		if sub.Held == sub.Oblig {
			break
		}
		sub = &Check{prog: k.prog, Known: map[string]string{}, knownHit: map[string]bool{}}
		sub.judge1(c, r, construct, kn.Out(c))
		if sub.Held == sub.Oblig {
			k.known(kn.ID)
			k.oblige(true, construct, c.Name, "")
			return
		}
	}
	k.judge1(c, r, construct, c.Expect(c))
}

func (k *Check) judge1(c *Case, r *Result, construct, exp string) {
	ok, bad := r.split()
	why, crashed := r.crash()
	imprecise := len(r.in.undecided) > 0 || len(r.in.problems) > 0
	if exp == "!error" {
		switch {
		case len(ok) == 0 && len(bad) > 0 && !crashed:
			k.oblige(true, construct, c.Name, "")
		case len(ok) > 0 && len(bad) == 0, crashed && !imprecise, len(ok) > 0 && !imprecise:
			k.oblige(false, construct, c.Name, "the command must fail with an error here, but it succeeds or crashes %s", why)
		default:
			k.undecided(construct, c.Name, "cannot tell whether the command fails")
		}
		return
	}
	if len(ok) == 0 {
		if crashed {
			k.oblige(false, why, c.Name, "the command crashes: %s", why)
		} else if len(bad) > 0 {
			k.oblige(false, construct, c.Name, "the command fails on a valid input: %s", renderParts(bad[0].vals))
		} else {
			k.undecided(construct, c.Name, "no outcome: %s", strings.Join(r.in.problemList(), "; "))
		}
		return
	}
	// writes are compared as languages
	eff := r.effects(ok)
	if c.Only != nil {
		eff = filterEff(eff, c.Only)
	}
	want, err := parseNotation(exp)
	if err != nil {
		k.undecided("spec", c.Name, "bad notation: %v", err)
		return
	}
	eff, want = sortWrites(eff), sortWrites(want)
	act, should := nfaOfParts(eff).view(c.View), nfaOfParts(want).view(c.View)
	cmp := compareLang(act, should, c.Norm)
	k.mu.Lock()
	k.States += cmp.states
	if len(k.Samples) < 8 {
		k.Samples = append(k.Samples, c.Cmd+" | "+c.Name+" | "+cut(exp, 300))
	}
	k.mu.Unlock()
	site := construct
	if p := writePos(eff); p != "" {
		site = p + " reached from " + construct
	}
	ord := map[string]bool{}
	if !c.AnyOrder {
		ordIssues(eff, ord)
	}
	switch {
	case !cmp.hasMiss && !cmp.hasXtra && len(cmp.unknown) == 0 && len(ord) > 0:
		k.oblige(false, site, c.Name, "the output is not in the order of the input: %s", strings.Join(sortedKeys(ord), ", "))
	case !cmp.hasMiss && !cmp.hasXtra && len(cmp.unknown) == 0 && len(r.in.problems) == 0:
		if len(bad) > 0 && !imprecise {
			k.oblige(false, construct, c.Name, "the command can fail on a valid input: %s", renderParts(bad[0].vals))
			return
		}
		k.oblige(true, construct, c.Name, "")
	case cmp.hasMiss && (!imprecise || len(cmp.unknown) == 0) || cmp.hasXtra && !imprecise && len(cmp.unknown) == 0:
		msg := ""
		if cmp.hasMiss {
			msg = "required output cannot be produced: " + around(cmp.missing, act, c.Norm)
		}
		if cmp.hasXtra {
			if msg != "" {
				msg += "; "
			}
			msg += "unexpected output is produced: " + cut(around(cmp.extra, should, c.Norm), 400)
		}
		k.oblige(false, site, c.Name, "%s", msg)
	default:
		var u []string
		u = append(u, cmp.unknown...)
		for _, p := range sortedKeys(r.in.undecided) {
			u = append(u, p+": "+r.in.undecided[p])
		}
		u = append(u, r.in.problemList()...)
		k.undecided(construct, c.Name, "%s", cut(strings.Join(u, "; "), 600))
	}
}

// around shows where word leaves the language of n.
func around(word []string, n *nfa, w *Norm) string {
	m := n.normal(w)
	s := m.closure([]int{m.start})
	i := 0
	for ; i < len(word); i++ {
		t := m.move(s, word[i])
		if len(t.q) == 0 {
			break
		}
		s = t
	}
	ls := map[string]bool{}
	m.letters(s, ls)
	from := max(0, i-80)
	alt := strings.Join(sortedKeys(ls), " ")
	if m.acc(s) {
		alt += " END"
	}
	here := "END"
	if i < len(word) {
		here = strings.Join(word[i:min(len(word), i+60)], "")
	}
	return fmt.Sprintf("…%s▶%s… (there: %s)", strings.Join(word[from:i], ""), here, cut(alt, 120))
}

func cut(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

func writePos(eff []Val) string {
	pos := ""
	var walk func(ps []Val)
	walk = func(ps []Val) {
		for _, p := range ps {
			switch x := p.(type) {
			case *El:
				if e, ok := x.V.(*Eff); ok && (e.Kind == "writefile" || e.Kind == "create") && e.Pos != "" {
					pos = e.Pos
				}
			case *Rep:
				walk(x.Body)
			case *AltP:
				for _, o := range x.Opts {
					walk(o)
				}
			}
		}
	}
	walk(eff)
	return pos
}

func filterEff(eff []Val, keep func(e *Eff) bool) []Val {
	var out []Val
	for _, p := range eff {
		switch x := p.(type) {
		case *El:
			if e, ok := x.V.(*Eff); ok && !keep(e) {
				continue
			}
		case *Rep:
			p = &Rep{Body: filterEff(x.Body, keep), Min: x.Min, Loop: x.Loop, Unord: x.Unord}
		case *AltP:
			a := &AltP{Why: x.Why}
			for _, o := range x.Opts {
				a.Opts = append(a.Opts, filterEff(o, keep))
			}
			p = a
		}
		out = append(out, p)
	}
	return out
}

// cases decides a list of cases in parallel.
var checks = map[string]func(k *Check){}

func verifDir() string {
	if d := os.Getenv("OCT_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("OCT_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func runProperty(id, tier string) int {
	t0 := time.Now()
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	k := &Check{ID: id, Tier: tier, Known: map[string]string{}, knownHit: map[string]bool{}, Funcs: map[string]bool{}, litSeen: map[string]bool{}, cmds: map[string]bool{}}
	k.budget, k.depth = 4000, 2
	if tier == "thorough" {
		k.budget, k.depth = 60000, 3
		mixFactor = 10
	}
	for _, e := range kf.Known {
		if e.Property == id {
			k.Known[e.ID] = e.What
		}
	}
	prog, err := loadProgram(repoDir())
	if err != nil {
		if prog == nil {
			fmt.Fprintln(os.Stderr, "cannot load the program:", err)
			return 2
		}
		k.prog = prog
		k.undecided("main.go", "load", "%v", err)
	} else {
		k.prog = prog
		f(k)
	}
	sort.Slice(k.Findings, func(i, j int) bool {
		a, b := k.Findings[i], k.Findings[j]
		return a.Kind+a.Construct+a.Case+a.Msg < b.Kind+b.Construct+b.Case+b.Msg
	})
	var viol, und []Finding
	for _, x := range k.Findings {
		if x.Kind == "violation" {
			viol = append(viol, x)
		} else {
			und = append(und, x)
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seedOf(), "level": "other", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"explanation": "Static analysis of the current source: " + strings.Join(k.Rules, " "),
			"obligations": k.Oblig, "discharged": k.Held, "undecided": k.Undecided, "cases_decided_on_instances_only": k.bounded, "functions_analysed": len(k.Funcs),
			"call_sites_analysed": k.Calls, "branches_decided": k.branches, "refined_contexts": k.followed, "automaton_states_compared": k.States, "functions": sortedKeys(k.Funcs), "commands": sortedKeys(k.cmds), "samples": k.Samples,
			"known_findings": sortedKeys(k.knownHit), "violations": len(viol), "undecided_list": head(und, 20),
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, id2 := range sortedKeys(k.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, id2, k.Known[id2])
	}
	for _, u := range head(und, 10) {
		fmt.Printf("UNDECIDED: property=%s %s [%s]: %s\n", id, u.Construct, u.Case, u.Msg)
	}
	rp := filepath.Join(dir, id+".violations.txt")
	os.Remove(rp)
	if len(viol) == 0 && len(und) > 0 {
		fmt.Println("what cannot be decided is not accepted")
		viol = und
	}
	if len(viol) > 0 {
		var sb strings.Builder
		for _, v := range viol {
			fmt.Fprintf(&sb, "%s\n  case: %s\n  %s\n", v.Construct, v.Case, v.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		for _, v := range head(viol, 5) {
			fmt.Printf("%s [%s]: %s\n", v.Construct, v.Case, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d (%.1fs)\n", id, k.Oblig, k.Held, k.Undecided, len(k.Funcs), time.Since(t0).Seconds())
	return 0
}

func head[T any](l []T, n int) []T {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func seedOf() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
