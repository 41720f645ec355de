// Command harness decides the properties of /verif/properties.jsonl by
// generated-input search against explicit oracles (see DESIGN.md).
//
//	harness check ID quick|thorough      driver: run a property's check
//	harness worker ...                   one worker process (internal)
//	harness replay FILE                  run one saved case
//	harness list                         the registered sub-checks
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"pgregory.net/rapid"
)

// subCheck is one generator with its oracle.  A property has one or more.
type subCheck struct {
	Prop     string
	Name     string
	Rule     string
	Quick    int
	Thorough int
	Gen      func(t *rapid.T) any
	Run      func(c any, o *Obs) error
	Decode   func(raw json.RawMessage) (any, error)
}

var registry []*subCheck

// reg registers a sub-check whose cases have the JSON-serialisable type C.
// quick and thorough are the numbers of cases of the two tiers.
func reg[C any](prop, name string, quick, thorough int, rule string, gen func(t *rapid.T) C, run func(c C, o *Obs) error) {
	registry = append(registry, &subCheck{
		Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) any { return gen(t) },
		Run: func(c any, o *Obs) error { return run(c.(C), o) },
		Decode: func(raw json.RawMessage) (any, error) {
			var c C
			err := json.Unmarshal(raw, &c)
			return c, err
		},
	})
}

func subsOf(prop string) (r []*subCheck) {
	for _, s := range registry {
		if s.Prop == prop {
			r = append(r, s)
		}
	}
	return
}

func findSub(prop, name string) *subCheck {
	for _, s := range registry {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Case is the form in which cases are saved and replayed.
type Case struct {
	Prop  string          `json:"property"`
	Sub   string          `json:"sub"`
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error,omitempty"`
	Note  string          `json:"note,omitempty"`
}

// runCase runs the oracle on one case.  A panic of the code under test (or of
// the oracle) is a failure of the case.
func runCase(s *subCheck, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return s.Run(c, o)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	initProps()
	switch os.Args[1] {
	case "list":
		for _, s := range registry {
			fmt.Printf("%s %-16s quick=%d thorough=%d %s\n", s.Prop, s.Name, s.Quick, s.Thorough, s.Rule)
		}
	case "check":
		os.Exit(driver(os.Args[2], os.Args[3]))
	case "worker":
		workerMain(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "sample":
		sample(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command "+os.Args[1])
		os.Exit(2)
	}
}

func replay(fname string) int {
	data, err := os.ReadFile(fname)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cs Case
	if err := json.Unmarshal(data, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := findSub(cs.Prop, cs.Sub)
	if s == nil {
		fmt.Fprintf(os.Stderr, "no such check %s/%s\n", cs.Prop, cs.Sub)
		return 2
	}
	c, err := s.Decode(cs.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o := newObs()
	startWatchdog(nil)
	caseBegin(nil)
	err = runCase(s, c, o)
	caseEnd()
	cleanupScratch()
	if err != nil {
		fmt.Printf("FAIL %s/%s: %v\n", cs.Prop, cs.Sub, err)
		return 1
	}
	fmt.Printf("ok %s/%s labels=%s\n", cs.Prop, cs.Sub, strings.Join(o.labelNames(), ","))
	return 0
}

// sample prints generated cases: harness sample ID [sub [n [seed]]]
func sample(args []string) {
	n := 5
	seed := 1
	if len(args) > 2 {
		fmt.Sscan(args[2], &n)
	}
	if len(args) > 3 {
		fmt.Sscan(args[3], &seed)
	}
	for _, s := range subsOf(args[0]) {
		if len(args) > 1 && args[1] != "" && s.Name != args[1] {
			continue
		}
		g := rapid.Custom(func(t *rapid.T) any { return s.Gen(t) })
		for i := 0; i < n; i++ {
			c := g.Example(seed*100000 + i)
			o := newObs()
			err := runCase(s, c, o)
			j, _ := json.Marshal(c)
			fmt.Printf("--- %s/%s %s\n", s.Prop, s.Name, j)
			fmt.Printf("    labels=%v nontrivial=%v sample=%s\n", o.labelNames(), o.nontrivial, o.sample)
			if err != nil {
				fmt.Printf("    FAIL %v\n", err)
			}
		}
	}
}
