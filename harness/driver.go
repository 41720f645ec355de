package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	replayTimeout = 150 * time.Second
	nWorkers      = 8
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// runIsolated runs one case in a process of its own.
// It returns (failed, conclusive, output).
func runIsolated(file string, scratch string) (bool, bool, string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "replay", file)
	cmd.Env = append(os.Environ(), "HARNESS_SCRATCH="+scratch, "GOTRACEBACK=single")
	var sb limitedBuffer
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return false, false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		out := sb.String()
		if err == nil {
			return false, true, out
		}
		if ee, ok := err.(*exec.ExitError); ok {
			switch code := ee.ExitCode(); {
			case code == 1: // the oracle's verdict
				return true, true, out
			case code == stuckExit:
				return true, true, out
			case code == 2 && (strings.Contains(out, "fatal error:") || strings.Contains(out, "goroutine ") || strings.Contains(out, "panic:")):
				return true, true, out // the Go runtime gave up: the host would be dead
			}
		}
		return false, false, out + "\n" + err.Error()
	case <-time.After(replayTimeout):
		cmd.Process.Kill()
		<-done
		return true, false, sb.String() + "\nkilled after " + replayTimeout.String()
	}
}

type limitedBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (b *limitedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if room := 20000 - len(b.buf); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		b.buf = append(b.buf, p[:room]...)
	}
	return len(p), nil
}

func (b *limitedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.buf)
}

// readLines reads a JSON-lines file of cases; a missing file is empty.
func readCases(fname string) (r []Case, err error) {
	fd, err := os.Open(fname)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		var c Case
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			return nil, fmt.Errorf("%s: %w: %s", fname, err, line)
		}
		r = append(r, c)
	}
	return r, sc.Err()
}

// knownFinding is one entry "finding: {...}" of known_findings.txt.
type knownFinding struct {
	Case
	What string `json:"what"`
}

func readFindings(prop string) (r []knownFinding, err error) {
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		var k knownFinding
		if err := json.Unmarshal([]byte(rest), &k); err != nil {
			return nil, err
		}
		if k.Prop == prop {
			r = append(r, k)
		}
	}
	return
}

func driver(prop, tier string) int {
	start := time.Now()
	subs := subsOf(prop)
	if len(subs) == 0 {
		fmt.Fprintf(os.Stderr, "no check for property %s\n", prop)
		return 2
	}
	if t := os.Getenv("VERIF_TIER"); t != "" && tier == "" {
		tier = t
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 63); err == nil {
			seed = n
		} else {
			seed = hash64(s) >> 1
		}
	}
	evDir := filepath.Join(verifDir(), "evidence")
	replayDir := filepath.Join(evDir, "replay")
	os.MkdirAll(replayDir, 0o755)
	work, err := os.MkdirTemp("", "gmnverif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)

	budget := 100 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	scale := 0.0
	if b := os.Getenv("VERIF_SCALE"); b != "" {
		scale, _ = strconv.ParseFloat(b, 64)
	}

	var violations []Case
	var problems []string
	evaluations := 0
	labels := map[string]int{}
	nontrivial := map[uint64]bool{}
	var samples []any

	findings, err := readFindings(prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	known := map[string]bool{}
	for i, k := range findings {
		known[k.Sub+"\x00"+compact(k.Case.Case)] = true
		f := filepath.Join(work, fmt.Sprintf("known%d.json", i))
		writeCase(f, k.Case)
		failed, _, _ := runIsolated(f, work)
		evaluations++
		if failed {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		} else {
			fmt.Printf("note: listed finding no longer fails: property=%s %s\n", prop, k.What)
		}
	}

	// saved regressions first: inputs on which a defect once showed
	regs, err := readCases(filepath.Join(verifDir(), "corpus", prop+".jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	regRan := 0
	if os.Getenv("VERIF_NO_CORPUS") != "" {
		regs = nil
	}
	if len(regs) > 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, nWorkers)
		for i, c := range regs {
			c.Prop = prop
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				f := filepath.Join(work, fmt.Sprintf("reg%d.json", i))
				writeCase(f, c)
				failed, conclusive, out := runIsolated(f, work)
				mu.Lock()
				defer mu.Unlock()
				regRan++
				switch {
				case failed && conclusive:
					c.Error = out
					violations = append(violations, c)
				case !conclusive:
					problems = append(problems, "regression case: "+out)
				}
			}()
		}
		wg.Wait()
		evaluations += regRan
	}

	if len(violations) == 0 {
		exe, _ := os.Executable()
		type wres struct {
			res     *workerResult
			err     error
			out     string
			stuck   string
			current []byte
		}
		results := make([]wres, nWorkers)
		var wg sync.WaitGroup
		for i := 0; i < nWorkers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sp := workerSpec{Prop: prop, Tier: tier, Seed: seed, Index: i, Workers: nWorkers,
					Out:     filepath.Join(work, fmt.Sprintf("out%d.json", i)),
					Current: filepath.Join(work, fmt.Sprintf("cur%d", i)),
					Scale:   scale, Only: os.Getenv("VERIF_ONLY"),
					BudgetMS: budget.Milliseconds()}
				specFile := filepath.Join(work, fmt.Sprintf("spec%d.json", i))
				js, _ := json.Marshal(sp)
				os.WriteFile(specFile, js, 0o644)
				cmd := exec.Command(exe, "worker", specFile)
				cmd.Env = append(os.Environ(), "HARNESS_SCRATCH="+work, "GOTRACEBACK=single", "GOMAXPROCS=2")
				var sb limitedBuffer
				cmd.Stdout, cmd.Stderr = &sb, &sb
				err := cmd.Start()
				if err == nil {
					done := make(chan error, 1)
					go func() { done <- cmd.Wait() }()
					select {
					case err = <-done:
					case <-time.After(budget + 150*time.Second):
						cmd.Process.Kill()
						<-done
						err = fmt.Errorf("worker killed after %v", budget+150*time.Second)
					}
				}
				w := wres{err: err, out: sb.String()}
				if data, e := os.ReadFile(sp.Out); e == nil {
					var r workerResult
					if json.Unmarshal(data, &r) == nil {
						w.res = &r
					}
				}
				if data, e := os.ReadFile(sp.Out + ".stuck"); e == nil {
					w.stuck = string(data)
				}
				if err != nil {
					w.current = readCurrent(sp.Current)
				}
				results[i] = w
			}(i)
		}
		wg.Wait()
		isolated := 0
		for i := range results {
			w := &results[i]
			if w.res != nil {
				names := make([]string, 0, len(w.res.Subs))
				for n := range w.res.Subs {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					r := w.res.Subs[n]
					evaluations += r.Evaluations
					labels[n+":evaluations"] += r.Evaluations
					for k, v := range r.Labels {
						labels[n+":"+k] += v
					}
					for _, h := range r.NonTrivial {
						nontrivial[h] = true
					}
					if i < 2 || len(samples) == 0 {
						for _, s := range r.Samples {
							samples = append(samples, s)
						}
					}
					if r.Truncated {
						labels[n+":workers that ran out of time"]++
					}
					for _, f := range r.Failures {
						if strings.HasPrefix(f.Error, "generator: ") {
							problems = append(problems, f.Error)
							continue
						}
						if known[f.Sub+"\x00"+compact(f.Case)] {
							continue
						}
						violations = append(violations, f)
					}
				}
			}
			if w.err != nil {
				// the worker died: find out whether the case it was running did it
				if w.current != nil && isolated < 2 {
					isolated++
					f := filepath.Join(work, fmt.Sprintf("died%d.json", i))
					os.WriteFile(f, w.current, 0o644)
					failed, conclusive, out := runIsolated(f, work)
					if failed && conclusive {
						var c Case
						json.Unmarshal(w.current, &c)
						c.Error = out
						violations = append(violations, c)
						continue
					}
					problems = append(problems, fmt.Sprintf("worker %d: %v %s; its case alone: %s", i, w.err, tail(w.out), tail(out)))
				} else if len(violations) == 0 {
					problems = append(problems, fmt.Sprintf("worker %d: %v %s", i, w.err, tail(w.out)))
				}
			}
		}
	}

	sort.SliceStable(violations, func(i, j int) bool { return len(violations[i].Case) < len(violations[j].Case) })
	shown := map[string]bool{}
	for _, v := range violations {
		if shown[v.Sub] {
			continue
		}
		shown[v.Sub] = true
		name := fmt.Sprintf("%s-%s-%016x.json", prop, v.Sub, hash64(string(v.Case)))
		f := filepath.Join(replayDir, name)
		writeCase(f, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  %s: %s\n", v.Sub, strings.ReplaceAll(head(v.Error, 1500), "\n", "\n  "))
	}

	// evidence
	rules := []string{}
	for _, s := range subs {
		rules = append(rules, s.Name+": "+s.Rule)
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if samples == nil {
		samples = []any{}
		for _, v := range violations {
			samples = append(samples, v)
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":           evaluations,
			"distinct_nontrivial":   len(nontrivial),
			"rule":                  strings.Join(rules, " || "),
			"samples":               samples,
			"classes":               labels,
			"saved_regression_runs": regRan,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(shown),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(js, '\n'), 0o644)

	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d saved regressions, %.1fs\n",
		prop, tier, evaluations, len(nontrivial), regRan, time.Since(start).Seconds())
	if len(shown) > 0 {
		return 1
	}
	if len(problems) > 0 {
		for _, p := range problems {
			fmt.Fprintln(os.Stderr, "ERROR:", p)
		}
		return 3
	}
	return 0
}

func compact(raw json.RawMessage) string {
	var v any
	if json.Unmarshal(raw, &v) != nil {
		return string(raw)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func writeCase(f string, c Case) {
	js, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(f, append(js, '\n'), 0o644)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}
