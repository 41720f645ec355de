package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"sync"
	"time"
)

// Obs collects what one case exercised.
type Obs struct {
	labels     map[string]int
	nontrivial bool
	sample     string
	key        string
	budget     int // optional reporting
}

func newObs() *Obs { return &Obs{labels: map[string]int{}} }

// Label counts a class the case belongs to.
func (o *Obs) Label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	o.labels[format]++
}

// NonTrivial marks the case as non-trivial by the rule of its sub-check.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Sample sets a readable rendering of the case (default: its JSON).
func (o *Obs) Sample(s string) { o.sample = s }

func (o *Obs) labelNames() (r []string) {
	for k := range o.labels {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

var (
	scratchOnce sync.Once
	scratchPath string
)

// scratchDir is a private directory for the files of this process, removed
// when it ends (the driver removes its parent as well).
func scratchDir() string {
	scratchOnce.Do(func() {
		base := os.Getenv("HARNESS_SCRATCH")
		d, err := os.MkdirTemp(base, "gmnverif-")
		if err != nil {
			panic(err)
		}
		scratchPath = d
	})
	return scratchPath
}

func cleanupScratch() {
	if scratchPath != "" && filepath.Base(scratchPath) != "" {
		os.RemoveAll(scratchPath)
	}
}

// countCtx is a context that is cancelled after a number of looks at it, so
// that running out of time is a deterministic function of the program.
type countCtx struct {
	context.Context
	mu     sync.Mutex
	left   int
	looks  int
	done   chan struct{}
	closed bool
	vals   map[any]any
	memCap uint64 // cancel when the heap is larger
	onDone func() // called when the looks run out
	reason error  // what Err returns afterwards, context.Canceled if nil
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func newCountCtx(n int) *countCtx {
	return &countCtx{Context: context.Background(), left: n, done: make(chan struct{})}
}

func (c *countCtx) look() {
	c.mu.Lock()
	c.looks++
	if !c.closed {
		c.left--
		if c.memCap > 0 && c.left%4 == 0 && heapBytes() > c.memCap {
			c.left = -1
		}
		if c.left < 0 {
			c.closed = true
			close(c.done)
			if c.onDone != nil {
				c.onDone()
			}
		}
	}
	c.mu.Unlock()
}

func (c *countCtx) cancel() {
	c.mu.Lock()
	if !c.closed {
		c.closed = true
		close(c.done)
	}
	c.mu.Unlock()
}

func (c *countCtx) cancelled() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *countCtx) Done() <-chan struct{} { c.look(); return c.done }
func (c *countCtx) Err() error {
	c.look()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		if c.reason != nil {
			return c.reason
		}
		return context.Canceled
	}
	return nil
}
func (c *countCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *countCtx) Value(k any) any {
	if v, ok := c.vals[k]; ok {
		return v
	}
	return c.Context.Value(k)
}
