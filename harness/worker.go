package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// workerSpec tells a worker process what to do.
type workerSpec struct {
	Prop     string
	Tier     string
	Seed     uint64
	Index    int
	Workers  int
	Out      string // result file
	Current  string // file holding the case being run
	BudgetMS int64  // stop generating new cases after this time
	Scale    float64
	Only     string
}

type subResult struct {
	Evaluations int
	NonTrivial  []uint64
	Labels      map[string]int
	Samples     []string
	Failures    []Case
	Truncated   bool
}

type workerResult struct {
	Subs  map[string]*subResult
	Stuck string
}

// watchdog ---------------------------------------------------------------

const (
	caseCPULimit  = 60 * time.Second
	caseHeapLimit = 3 << 30
)

var (
	caseNo     atomic.Int64 // odd while a case runs
	onStuck    func(why string)
	stuckExit  = 3
	curFile    *os.File
	watchBegan atomic.Bool
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func startWatchdog(f func(string)) {
	onStuck = f
	if watchBegan.Swap(true) {
		return
	}
	go func() {
		last, cpu0 := int64(-1), time.Duration(0)
		for {
			time.Sleep(200 * time.Millisecond)
			n := caseNo.Load()
			if n%2 == 0 {
				last = -1
				continue
			}
			if n != last {
				last, cpu0 = n, cpuTime()
				continue
			}
			why := ""
			if d := cpuTime() - cpu0; d > caseCPULimit {
				why = fmt.Sprintf("no end after %v of CPU time", d.Round(time.Second))
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > caseHeapLimit {
				why = fmt.Sprintf("uses %d MB of heap", m.HeapAlloc>>20)
			}
			if why != "" {
				if onStuck != nil {
					onStuck(why)
				}
				fmt.Printf("STUCK: %s\n", why)
				cleanupScratch()
				os.Exit(stuckExit)
			}
		}
	}()
}

func caseBegin(data []byte) {
	if curFile != nil {
		// length-prefixed so that a shorter case does not leave a tail
		buf := make([]byte, 0, len(data)+12)
		buf = append(buf, []byte(fmt.Sprintf("%010d\n", len(data)))...)
		buf = append(buf, data...)
		curFile.WriteAt(buf, 0)
	}
	caseNo.Add(1)
}

func caseEnd() { caseNo.Add(1) }

func readCurrent(fname string) []byte {
	data, err := os.ReadFile(fname)
	if err != nil || len(data) < 11 {
		return nil
	}
	n, err := strconv.Atoi(string(data[:10]))
	if err != nil || len(data) < 11+n {
		return nil
	}
	return data[11 : 11+n]
}

// rapid glue ---------------------------------------------------------------

type recTB struct {
	name   string
	failed bool
	msgs   []string
}

type failNow struct{}

func (r *recTB) Helper()                  {}
func (r *recTB) Name() string             { return r.name }
func (r *recTB) Logf(f string, a ...any)  {}
func (r *recTB) Log(a ...any)             {}
func (r *recTB) Skipf(f string, a ...any) { panic(failNow{}) }
func (r *recTB) Skip(a ...any)            { panic(failNow{}) }
func (r *recTB) SkipNow()                 { panic(failNow{}) }
func (r *recTB) Errorf(f string, a ...any) {
	r.failed = true
	r.msgs = append(r.msgs, fmt.Sprintf(f, a...))
}
func (r *recTB) Error(a ...any)            { r.failed = true; r.msgs = append(r.msgs, fmt.Sprint(a...)) }
func (r *recTB) Fatalf(f string, a ...any) { r.Errorf(f, a...); panic(failNow{}) }
func (r *recTB) Fatal(a ...any)            { r.Error(a...); panic(failNow{}) }
func (r *recTB) FailNow()                  { r.failed = true; panic(failNow{}) }
func (r *recTB) Fail()                     { r.failed = true }
func (r *recTB) Failed() bool              { return r.failed }

func mix(parts ...string) uint64 {
	h := hash64(strings.Join(parts, "\x00"))
	// splitmix64 finaliser; rapid takes seed 0 as "random"
	h += 0x9e3779b97f4a7c15
	h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
	h = (h ^ (h >> 27)) * 0x94d049bb133111eb
	h ^= h >> 31
	if h == 0 {
		h = 1
	}
	return h
}

const maxFailures = 1

// runSub generates n cases of s and returns what happened.
func runSub(s *subCheck, n int, seed uint64, deadline time.Time, nSamples int) *subResult {
	res := &subResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var lastErr string
	var lastCase json.RawMessage
	shrinking := false
	var shrinkEnd time.Time
	prop := func(t *rapid.T) {
		now := time.Now()
		if !shrinking && now.After(deadline) {
			res.Truncated = true
			return
		}
		if shrinking && now.After(shrinkEnd) {
			return
		}
		c := s.Gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if !shrinking {
			// decode again, so that what runs is what a replay would run
		}
		cs, _ := json.Marshal(Case{Prop: s.Prop, Sub: s.Name, Case: raw})
		o := newObs()
		caseBegin(cs)
		err = runCase(s, c, o)
		caseEnd()
		if !shrinking {
			res.Evaluations++
			for k, v := range o.labels {
				if v > 0 {
					res.Labels[k]++
				}
			}
			if o.nontrivial {
				h := hash64(s.Name + "\x00" + string(raw))
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < nSamples {
						smp := o.sample
						if smp == "" {
							smp = string(raw)
						}
						if len(smp) > 1500 {
							smp = smp[:1500] + "..."
						}
						res.Samples = append(res.Samples, s.Name+": "+smp)
					}
				}
			}
		}
		if err != nil {
			if !shrinking {
				shrinking = true
				shrinkEnd = time.Now().Add(25 * time.Second)
			}
			lastErr = err.Error()
			lastCase = append(json.RawMessage(nil), raw...)
			t.Fatalf("property violated")
		}
	}
	tb := &recTB{name: s.Prop + "/" + s.Name}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if lastCase != nil {
		res.Failures = append(res.Failures, Case{Prop: s.Prop, Sub: s.Name, Case: lastCase, Error: lastErr})
	} else if tb.failed {
		res.Failures = append(res.Failures, Case{Prop: s.Prop, Sub: s.Name, Error: "generator: " + strings.Join(tb.msgs, "\n")})
	}
	for h := range seen {
		res.NonTrivial = append(res.NonTrivial, h)
	}
	return res
}

func initRapid() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
}

func workerMain(specFile string) {
	data, err := os.ReadFile(specFile)
	if err != nil {
		panic(err)
	}
	var sp workerSpec
	if err := json.Unmarshal(data, &sp); err != nil {
		panic(err)
	}
	initRapid()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1500 << 20) // collects more often near the limit of a case
	curFile, err = os.Create(sp.Current)
	if err != nil {
		panic(err)
	}
	result := &workerResult{Subs: map[string]*subResult{}}
	write := func() {
		var buf bytes.Buffer
		json.NewEncoder(&buf).Encode(result)
		os.WriteFile(sp.Out+".tmp", buf.Bytes(), 0o644)
		os.Rename(sp.Out+".tmp", sp.Out)
	}
	startWatchdog(func(why string) {
		os.WriteFile(sp.Out+".stuck", []byte(why), 0o644)
	})
	subs := subsOf(sp.Prop)
	total := 0
	num := func(s *subCheck) int {
		n := s.Quick
		if sp.Tier == "thorough" {
			n = s.Thorough
		}
		if sp.Scale > 0 {
			n = int(float64(n) * sp.Scale)
		}
		n = (n + sp.Workers - 1) / sp.Workers
		if n < 1 {
			n = 1
		}
		return n
	}
	for range subs {
		total++
	}
	start := time.Now()
	budget := time.Duration(sp.BudgetMS) * time.Millisecond
	for i, s := range subs {
		if sp.Only != "" && s.Name != sp.Only {
			continue
		}
		// what is left of the time is shared by the sub-checks to come
		left := budget - time.Since(start)
		share := left
		if rest := total - i; rest > 1 {
			share = left * 2 / time.Duration(rest)
			if share > left {
				share = left
			}
		}
		seed := mix(strconv.FormatUint(sp.Seed, 10), s.Prop, s.Name, strconv.Itoa(sp.Index))
		result.Subs[s.Name] = runSub(s, num(s), seed, time.Now().Add(share), 3)
		write()
		if len(result.Subs[s.Name].Failures) > 0 && sp.Tier != "thorough" {
			break
		}
	}
	write()
	cleanupScratch()
}
