package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"sync"
	"time"
)

var prof = struct {
	sync.Mutex
	t map[string]time.Duration
	n map[string]int
}{t: map[string]time.Duration{}, n: map[string]int{}}

// timed accounts the time of an analysis (OCT_PROF=file writes a CPU profile and a table).
func timed(what string, f func()) {
	t := time.Now()
	f()
	prof.Lock()
	prof.t[what] += time.Since(t)
	prof.n[what]++
	prof.Unlock()
}

func startProfile() func() {
	p := os.Getenv("OCT_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return func() {
		pprof.StopCPUProfile()
		f.Close()
		var ks []string
		for k := range prof.t {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return prof.t[ks[i]] > prof.t[ks[j]] })
		for _, k := range ks {
			fmt.Fprintf(os.Stderr, "%8.2fs %6d %s\n", prof.t[k].Seconds(), prof.n[k], k)
		}
	}
}
