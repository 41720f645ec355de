package main

// C32: the variables that are visible are enumerated, with their values.
// C33: the clock.

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type envLayer struct {
	K    string `json:"k"` // let pair flet (host); lisp forms otherwise
	Vars []int  `json:"vars"`
	Vals []D    `json:"vals"`
	Set  int    `json:"set"` // assign to variable Set-1 inside
	SetV D      `json:"setv"`
}

type envCase struct {
	Globals []envLayer `json:"globals"` // definitions of globals
	Host    []envLayer `json:"host"`
	Lisp    []envLayer `json:"lisp"`
	Stop    int        `json:"stop"`
}

func genEnvLayer(t *rapid.T, kinds []string) envLayer {
	l := envLayer{K: pickOf(t, kinds, "kind")}
	n := below(t, 4, "vars")
	if l.K == "pair" {
		n = 1
	}
	for used := map[int]bool{}; len(l.Vars) < n; {
		v := below(t, 6, "var")
		if !used[v] {
			used[v] = true
			l.Vars = append(l.Vars, v)
			l.Vals = append(l.Vals, genEnvVal(t))
		} else {
			n--
		}
	}
	if pct(t, 30) {
		l.Set = below(t, 6, "set") + 1
		l.SetV = genEnvVal(t)
	}
	return l
}

func genEnvVal(t *rapid.T) D {
	return genData(t, dataCfg{depth: 1, dotted: true, arrays: true})
}

func genEnvCase(t *rapid.T) envCase {
	var c envCase
	for n := below(t, 3, "globals"); n > 0; n-- {
		c.Globals = append(c.Globals, genEnvLayer(t, []string{"defglobal"}))
	}
	for n := below(t, 3, "host"); n > 0; n-- {
		c.Host = append(c.Host, genEnvLayer(t, []string{"let", "let", "pair", "flet"}))
	}
	for n := below(t, 4, "lisp"); n > 0; n-- {
		c.Lisp = append(c.Lisp, genEnvLayer(t, []string{"let", "let*", "lambda", "labels", "flet", "dotimes", "block", "for"}))
	}
	c.Stop = between(t, 1, 120, "stop")
	return c
}

func envName(i int) string { return fmt.Sprintf("verif-env-%c", 'a'+i) }

type envSeen struct {
	n    int
	vals map[string][]gmnlisp.Node
	got  map[string]gmnlisp.Node
}

func rangeWorld(w *gmnlisp.World, stop int) envSeen {
	s := envSeen{vals: map[string][]gmnlisp.Node{}, got: map[string]gmnlisp.Node{}}
	w.Range(func(k gmnlisp.Symbol, v gmnlisp.Node) bool {
		s.n++
		name := k.String()
		s.vals[name] = append(s.vals[name], v)
		return s.n != stop
	})
	if stop == 0 {
		for i := 0; i < 6; i++ {
			if v, err := w.Get(gmnlisp.NewSymbol(envName(i))); err == nil {
				s.got[envName(i)] = v
			}
		}
	}
	return s
}

func checkEnv(c envCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	var out bytes.Buffer
	w.SetStdout(&out)
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	// globals live on in the process: those that this case does not define
	// are set to a known value
	global := map[string]D{}
	def := func(name string, d D) error {
		text := fmt.Sprintf("(defglobal %s '%s)", name, d.Src())
		log = append(log, text)
		global[name] = d
		_, err := w.Interpret(ctx, text)
		return err
	}
	for i := 0; i < 3; i++ {
		if err := def(envName(i), D{K: "n"}); err != nil {
			return fail("%v", err)
		}
	}
	for _, l := range c.Globals {
		for k, v := range l.Vars {
			if v < 3 {
				if err := def(envName(v), l.Vals[k]); err != nil {
					return fail("%v", err)
				}
			}
		}
	}
	scopes := []map[string]D{global}
	visible := func(name string) (map[string]D, bool) {
		for i := len(scopes) - 1; i >= 0; i-- {
			if _, ok := scopes[i][name]; ok {
				return scopes[i], true
			}
		}
		return nil, false
	}
	for _, l := range c.Host {
		s := map[string]D{}
		switch l.K {
		case "let":
			vars := gmnlisp.Variables{}
			for k, v := range l.Vars {
				vars[gmnlisp.NewSymbol(envName(v))] = l.Vals[k].Node(ctx, w)
				s[envName(v)] = l.Vals[k]
			}
			w = w.Let(vars)
		case "pair":
			w = w.Let(&gmnlisp.Pair{Key: gmnlisp.NewSymbol(envName(l.Vars[0])), Value: l.Vals[0].Node(ctx, w)})
			s[envName(l.Vars[0])] = l.Vals[0]
		case "flet":
			w = w.Flet(gmnlisp.Functions{gmnlisp.NewSymbol("verif-fn"): gmnlisp.Function0(func(context.Context, *gmnlisp.World) (gmnlisp.Node, error) { return gmnlisp.True, nil })})
		}
		scopes = append(scopes, s)
		log = append(log, fmt.Sprintf("host %s %v", l.K, s))
		if l.Set > 0 {
			name := envName(l.Set - 1)
			if sc, ok := visible(name); ok {
				if err := w.Set(gmnlisp.NewSymbol(name), l.SetV.Node(ctx, w)); err != nil {
					return fail("Set %s: %v", name, err)
				}
				sc[name] = l.SetV
			} else if err := w.Set(gmnlisp.NewSymbol(name), gmnlisp.True); err == nil {
				return fail("Set of %s, which is not bound, succeeds", name)
			}
		}
	}
	var seen, stopped envSeen
	w = w.Flet(gmnlisp.Functions{gmnlisp.NewSymbol("verif-range"): gmnlisp.SpecialF(func(_ context.Context, w *gmnlisp.World, _ gmnlisp.Node) (gmnlisp.Node, error) {
		seen = rangeWorld(w, 0)
		stopped = rangeWorld(w, c.Stop)
		return gmnlisp.True, nil
	})})
	open, shut := "", ""
	depth := 0
	for _, l := range c.Lisp {
		s := map[string]D{}
		var bs, names, vals []string
		for k, v := range l.Vars {
			s[envName(v)] = l.Vals[k]
			bs = append(bs, fmt.Sprintf("(%s '%s)", envName(v), l.Vals[k].Src()))
			names = append(names, envName(v))
			vals = append(vals, "'"+l.Vals[k].Src())
		}
		switch l.K {
		case "let", "let*":
			open, shut = open+"("+l.K+" ("+strings.Join(bs, " ")+") ", ")"+shut
		case "lambda":
			open, shut = open+"((lambda ("+strings.Join(names, " ")+") ", ") "+strings.Join(vals, " ")+")"+shut
		case "labels", "flet":
			open, shut = open+"("+l.K+" ((verif-lf ("+strings.Join(names, " ")+") ", ")) (verif-lf "+strings.Join(vals, " ")+"))"+shut
		case "for":
			var fs []string
			for k, v := range l.Vars {
				fs = append(fs, fmt.Sprintf("(%s '%s)", envName(v), l.Vals[k].Src()))
			}
			open, shut = open+"(for ("+strings.Join(fs, " ")+" (verif-i 0 (1+ verif-i))) ((> verif-i 0)) ", ")"+shut
		case "dotimes":
			s = map[string]D{}
			open, shut = open+"(dotimes (verif-i 1) ", ")"+shut
		case "block":
			s = map[string]D{}
			open, shut = open+"(block verif-b ", ")"+shut
		}
		scopes = append(scopes, s)
		if len(s) > 0 {
			depth++
		}
		if l.Set > 0 {
			if sc, ok := visible(envName(l.Set - 1)); ok {
				sc[envName(l.Set-1)] = l.SetV
				open += fmt.Sprintf("(setq %s '%s) ", envName(l.Set-1), l.SetV.Src())
			}
		}
	}
	text := open + "(verif-range) (format t \"~%start~%\") (gmn:dump-session) (format t \"end~%\")" + shut
	log = append(log, text)
	o.Sample(text)
	if _, err := w.Interpret(ctx, text); err != nil {
		return fail("%v", err)
	}
	shadowed := 0
	_, rest, ok := strings.Cut(out.String(), "\nstart\n")
	if !ok || !strings.HasSuffix(rest, "end\n") {
		return fail("the output is %q", out.String())
	}
	dump := "\n" + strings.TrimSuffix(rest, "end\n")
	for i := 0; i < 6; i++ {
		name := envName(i)
		sc, bound := visible(name)
		lines := strings.Count(dump, "\n("+name+" ")
		if !bound {
			if len(seen.vals[name]) > 0 || lines > 0 || seen.got[name] != nil {
				return fail("%s is not bound, but enumerated", name)
			}
			continue
		}
		n := 0
		for _, s := range scopes {
			if _, ok := s[name]; ok {
				n++
			}
		}
		if n > 1 {
			shadowed++
		}
		want := show(sc[name].V())
		if len(seen.vals[name]) != 1 {
			return fail("%s is enumerated %d times", name, len(seen.vals[name]))
		}
		if got := show(fromNode(seen.vals[name][0])); got != want {
			return fail("%s is enumerated with %s, its value is %s", name, got, want)
		}
		if v := seen.got[name]; v == nil || show(fromNode(v)) != want {
			return fail("Get %s is %v, its value is %s", name, v, want)
		}
		printed, err := letVars(w, map[string]gmnlisp.Node{"x": sc[name].Node(ctx, w)}).Interpret(ctx, `(format nil "~s" x)`)
		if err != nil {
			return fail("%v", err)
		}
		line := fmt.Sprintf("\n(%s %s)\n", name, string(printed.(gmnlisp.String)))
		if sc[name].K == "l" || sc[name].K == "n" {
			// the notation of the rest of a list may differ
			line = fmt.Sprintf("\n(%s ", name)
		}
		if lines != 1 || !strings.Contains(dump, line) {
			return fail("(gmn:dump-session) prints %d lines for %s, expected %q in %q", lines, name, line, dump)
		}
	}
	total := 0
	for name, l := range seen.vals {
		total++
		if len(l) != 1 {
			return fail("%s is enumerated %d times", name, len(l))
		}
	}
	for _, name := range []string{"pi", "most-positive-fixnum", "<integer>"} {
		if _, err := w.Get(gmnlisp.NewSymbol(name)); err == nil && len(seen.vals[name]) != 1 {
			return fail("%s is enumerated %d times", name, len(seen.vals[name]))
		}
	}
	want := c.Stop
	if want > total {
		want = total
	}
	if stopped.n != want {
		return fail("an enumeration of %d variables that is to stop after %d called its function %d times", total, c.Stop, stopped.n)
	}
	// the scopes of the program have ended
	after := rangeWorld(w, 0)
	for i := 3; i < 6; i++ {
		bound := false
		for _, s := range scopes[:1+len(c.Host)] {
			_, b := s[envName(i)]
			bound = bound || b
		}
		if !bound && len(after.vals[envName(i)]) > 0 {
			return fail("%s is bound after its scope has ended", envName(i))
		}
	}
	if shadowed > 0 && depth > 0 {
		o.NonTrivial()
		o.Label("shadowed")
	}
	if c.Stop < total {
		o.Label("stopped early")
	}
	return nil
}

// ---- C33

type clockCase struct {
	Ops  []int `json:"ops"`
	Gap  []int `json:"gap"`  // microseconds before each
	Zone int   `json:"zone"` // the local time zone, in hours
}

var clockForms = []string{"(get-universal-time)", "(get-internal-real-time)", "(get-internal-run-time)", "(internal-time-units-per-second)"}

func genClock(t *rapid.T) clockCase {
	var c clockCase
	for n := between(t, 2, 8, "n"); n > 0; n-- {
		c.Ops = append(c.Ops, below(t, 12, "op"))
		c.Gap = append(c.Gap, pickOf(t, []int{0, 0, 0, 1, 10, 100, 300, 2000}, "gap"))
	}
	c.Zone = between(t, -11, 13, "zone")
	return c
}

func checkClock(c clockCase, o *Obs) error {
	local := time.Local
	time.Local = time.FixedZone("verif", c.Zone*3600+900)
	defer func() { time.Local = local }()
	ctx := context.Background()
	w, _ := newWorld()
	w2, _ := newWorld()
	epoch := time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	ev := func(i int, text string) (int64, error) {
		x := w
		if i%3 == 2 {
			x = w2
		}
		v, err := x.Interpret(ctx, text)
		if err != nil {
			return 0, fmt.Errorf("%s: %v", text, err)
		}
		n, ok := v.(gmnlisp.Integer)
		if !ok {
			return 0, fmt.Errorf("%s is %s, not an integer", text, show(fromNode(v)))
		}
		return int64(n), nil
	}
	units, err := ev(0, clockForms[3])
	if err != nil {
		return err
	}
	if units <= 0 {
		return fmt.Errorf("%s is %d", clockForms[3], units)
	}
	type sample struct {
		v             int64
		before, after time.Time
	}
	read := func(i int, form string) (s sample, err error) {
		s.before = time.Now()
		s.v, err = ev(i, form)
		s.after = time.Now()
		return
	}
	// The host's clock may be adjusted while this runs: what does not fit is
	// measured again, and must not fit each time.
	const attempts = 5
	universal := func(form string, s sample) error {
		if s.v < s.before.Unix()-epoch || s.v > s.after.Unix()-epoch {
			return fmt.Errorf("%s is %d, but %d seconds have passed since 1900", form, s.v, s.after.Unix()-epoch)
		}
		return nil
	}
	passed := func(form string, p, s sample) error {
		min := s.before.Sub(p.after).Seconds() - 50e-6
		max := s.after.Sub(p.before).Seconds() + 50e-6
		if got := float64(s.v-p.v) / float64(units); got < min || got > max {
			return fmt.Errorf("%s went from %d to %d (%d units per second) in %g to %g seconds", form, p.v, s.v, units, min, max)
		}
		return nil
	}
	var last [4]*sample
	for i, op := range c.Ops {
		time.Sleep(time.Duration(c.Gap[i]) * time.Microsecond)
		k := op % 4
		form := clockForms[k]
		if op/4 == 1 {
			form = "(funcall #'" + form[1:len(form)-1] + ")"
		} else if op/4 == 2 {
			form = "(apply #'" + form[1:len(form)-1] + " nil)"
		}
		s, err := read(i, form)
		if err != nil {
			return err
		}
		switch k {
		case 0:
			bad := universal(form, s)
			for n := 0; bad != nil && n < attempts; n++ {
				if s, err = read(i, form); err != nil {
					return err
				}
				bad = universal(form, s)
			}
			if bad != nil {
				return bad
			}
			o.Label("universal time")
		case 1, 2:
			if p := last[k]; p != nil {
				bad := passed(form, *p, s)
				for n := 0; bad != nil && n < attempts; n++ {
					q, err := read(i, form)
					if err != nil {
						return err
					}
					time.Sleep(3 * time.Millisecond)
					if s, err = read(i, form); err != nil {
						return err
					}
					bad = passed(form, q, s)
				}
				if bad != nil {
					return bad
				}
				o.NonTrivial()
			}
		case 3:
			if s.v != units {
				return fmt.Errorf("%s was %d and is %d", form, units, s.v)
			}
		}
		last[k] = &s
	}
	return nil
}

func initEnvProps() {
	reg("C32", "scopes", 12000, 200000,
		"up to 3 host scopes (Let of maps and pairs, Flet) and up to 3 program scopes (let, let*, lambda, labels, flet, for, dotimes, block) that bind six names, some of them global, with assignments on the way; inside of all of them World.Range, World.Get and (gmn:dump-session) are compared with a model, also when the enumeration is to stop after some variables; non-trivial: a variable is shadowed",
		genEnvCase, checkEnv)
	reg("C33", "clock", 3000, 30000,
		"2 to 8 readings of the clocks by direct calls, funcall and apply in two interpreters with pauses of 0 to 2000 microseconds in random local time zones, compared with the host's clock before and after; non-trivial: the same internal clock was read twice",
		genClock, checkClock)
}
