package main

// C04: self tail calls use constant stack and mean the same as other calls.

import (
	"context"
	"fmt"
	"runtime"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

var tailDepths []int

func init() {
	gmnlisp.Export(gmnlisp.NewSymbol("verif-depth"), gmnlisp.Function0(func(ctx context.Context, w *gmnlisp.World) (gmnlisp.Node, error) {
		if len(tailDepths) < 1000 {
			var pcs [4096]uintptr
			tailDepths = append(tailDepths, runtime.Callers(0, pcs[:]))
		}
		return gmnlisp.Null, nil
	}))
}

type tailCase struct {
	Def   string `json:"def"`  // @ is the self call's function position, ends with !
	Call  string `json:"call"` // # is the count
	N     int    `json:"n"`
	Deep  int    `json:"deep"`
	Kind  int    `json:"kind"`
	Tails int    `json:"tails"`
}

type tailGen struct {
	t     *rapid.T
	vars  []string
	n     int
	tails int
	rest  bool
	arity int
	clos  bool
	wrong bool
	kind  int
}

func (g *tailGen) expr(d int) string {
	switch k := below(g.t, 8, "expr"); {
	case k < 3 || d == 0:
		return pickOf(g.t, g.vars, "var")
	case k == 3:
		return fmt.Sprint(between(g.t, -5, 5, "int"))
	case k == 4:
		g.n++
		return fmt.Sprintf("(tr %d %s)", g.n, g.expr(d-1))
	case k == 5:
		return fmt.Sprintf("(mod %s 7)", g.expr(d-1))
	}
	return fmt.Sprintf("(%s %s %s)", pickOf(g.t, []string{"+", "-", "max"}, "op"), g.expr(d-1), g.expr(d-1))
}

func (g *tailGen) test() string {
	return fmt.Sprintf("(%s (mod %s %d) %d)", pickOf(g.t, []string{"=", "<", ">="}, "cmp"), g.expr(1), between(g.t, 2, 3, "m"), below(g.t, 2, "r"))
}

func (g *tailGen) stmt() string {
	switch k := below(g.t, 6, "stmt"); {
	case k == 0 && g.clos:
		return fmt.Sprintf("(setq acc (cons (lambda () (list %s)) acc))", strings.Join(g.vars, " "))
	case k == 1 && g.clos:
		v := pickOf(g.t, g.vars, "var")
		return fmt.Sprintf("(setq acc (cons (lambda () (setq %s (+ %s 1))) acc))", v, v)
	case k == 2:
		v := pickOf(g.t, g.vars[1:], "var")
		return fmt.Sprintf("(setq %s %s)", v, g.expr(1))
	case k == 3 && g.rest:
		g.n++
		return fmt.Sprintf("(tr %d r)", g.n)
	}
	g.n++
	return fmt.Sprintf("(tr %d %s)", g.n, g.expr(1))
}

func (g *tailGen) stmts() string {
	s := ""
	for n := below(g.t, 2, "stmts"); n > 0; n-- {
		s += g.stmt() + " "
	}
	return s
}

func (g *tailGen) binding(seq bool) (bs string, names []string) {
	for n := between(g.t, 1, 2, "bindings"); n > 0; n-- {
		v := pickOf(g.t, []string{"a", "v", "u", "b"}, "name")
		dup := false
		for _, x := range names {
			dup = dup || x == v
		}
		if dup {
			continue
		}
		e := g.expr(1)
		bs += fmt.Sprintf("(%s %s) ", v, e)
		names = append(names, v)
		if seq {
			g.vars = append(g.vars[:len(g.vars):len(g.vars)], v)
		}
	}
	return
}

func (g *tailGen) tail(d int) string {
	if d == 0 {
		if pct(g.t, 10) {
			return g.expr(1)
		}
		return g.self()
	}
	saved := g.vars
	defer func() { g.vars = saved }()
	switch below(g.t, 9, "tail") {
	case 0, 1:
		return fmt.Sprintf("(if %s %s %s)", g.test(), g.tail(d-1), g.tail(d-1))
	case 2:
		return fmt.Sprintf("(cond (%s %s%s) (%s %s) (t %s%s))", g.test(), g.stmts(), g.tail(d-1), g.test(), g.tail(d-1), g.stmts(), g.tail(d-1))
	case 3, 4:
		bs, names := g.binding(false)
		g.vars = append(g.vars[:len(g.vars):len(g.vars)], names...)
		return fmt.Sprintf("(let (%s) %s%s)", bs, g.stmts(), g.tail(d-1))
	case 5, 6:
		bs, _ := g.binding(true)
		return fmt.Sprintf("(let* (%s) %s%s)", bs, g.stmts(), g.tail(d-1))
	case 7:
		return fmt.Sprintf("(progn %s %s)", g.stmt(), g.tail(d-1))
	}
	return g.self()
}

func (g *tailGen) self() string {
	g.tails++
	args := "(- n 1)"
	k := g.arity
	if g.rest {
		k += below(g.t, 4, "more")
	}
	for i := 1; i < k; i++ {
		args += " " + g.expr(2)
	}
	if g.wrong && pct(g.t, 30) {
		g.wrong = false
		args = pickOf(g.t, []string{"", "(- n 1)", args + " 1 2 3 4"}, "wrong")
	}
	return fmt.Sprintf("@ %s!", args)
}

func genTailCase(t *rapid.T) tailCase {
	g := &tailGen{t: t, vars: []string{"n"}, arity: between(t, 2, 3, "arity"), rest: pct(t, 25), clos: pct(t, 40), wrong: pct(t, 8), kind: below(t, 4, "kind")}
	params := "n"
	wrong := g.wrong // calls with other numbers of arguments end early
	call := "#"
	for i := 1; i < g.arity; i++ {
		v := []string{"n", "a", "b"}[i]
		params += " " + v
		g.vars = append(g.vars, v)
		call += " " + fmt.Sprint(between(t, -3, 9, "arg"))
	}
	if g.rest {
		params += pickOf(t, []string{" &rest r", " :rest r"}, "rest")
		if pct(t, 50) {
			call += " 7"
		}
	}
	end := fmt.Sprintf("(list %s)", strings.Join(g.vars, " "))
	d := between(t, 1, 4, "depth")
	var body string
	switch below(t, 3, "top") {
	case 0:
		body = fmt.Sprintf("(if (< n 1) %s %s)", end, g.tail(d))
	case 1:
		body = fmt.Sprintf("(cond ((< n 1) %s) (t %s))", end, g.tail(d))
	default:
		body = fmt.Sprintf("(if (> n 0) (progn %s %s) %s)", g.stmt(), g.tail(d), end)
	}
	c := tailCase{Kind: g.kind, N: between(t, 0, 40, "n"), Tails: g.tails}
	pre := g.stmts()
	c.Def = fmt.Sprintf("(%s) (verif-depth) %s%s", params, pre, body)
	c.Call = call
	if !g.clos && !wrong && between(t, 0, 299, "deep") == 299 {
		c.Deep = 250000
	}
	return c
}

// program is the definition and the call; with plain the self calls are no
// tail calls.
func (c tailCase) program(plain bool, n int) string {
	open, end := "(f", ")"
	if plain {
		open, end = "(car (list (f", ")))"
	}
	def := strings.NewReplacer("@", open, "!", end).Replace(c.Def)
	call := strings.Replace(c.Call, "#", fmt.Sprint(n), 1)
	switch c.Kind {
	case 1:
		return fmt.Sprintf("(defglobal acc nil) (defun f %s) (funcall #'f %s)", def, call)
	case 2:
		return fmt.Sprintf("(defglobal acc nil) (defun g (x) x) (defun f %s) (car (mapcar (lambda (x) (f %s)) '(1)))", def, call)
	case 3:
		return fmt.Sprintf("(defglobal acc nil) (let ((n 100) (a 200)) (defun f %s)) (let ((n 5) (b 6)) (f %s))", def, call)
	}
	return fmt.Sprintf("(defglobal acc nil) (defun f %s) (f %s)", def, call)
}

func (c tailCase) run(plain bool, n int) (string, []string, []int) {
	w, _ := newWorld()
	ctx := newCountCtx(40000000)
	sk := &sink{}
	curSink = sk
	tailDepths = nil
	defer func() { curSink = nil }()
	res := evalText(ctx, w, c.program(plain, n))
	depths := tailDepths
	r := res.String()
	if res.Err != nil {
		r = "ERR " + res.Class
	}
	// the closures made on the way, from the oldest to the latest and again
	for i := 0; i < 2; i++ {
		v := evalText(ctx, w, "(mapcar (lambda (f) (funcall f)) (reverse acc))")
		r += " / " + v.String()
	}
	return r, sk.trace, depths
}

func checkTail(c tailCase, o *Obs) error {
	tail, tt, depths := c.run(false, c.N)
	o.Sample(c.program(false, c.N))
	plain, pt, _ := c.run(true, c.N)
	if tail != plain {
		return fmt.Errorf("%s\n  with tail calls: %s\n  with other calls: %s", c.program(false, c.N), tail, plain)
	}
	if a, b := strings.Join(tt, " "), strings.Join(pt, " "); a != b {
		return fmt.Errorf("%s\n  effects with tail calls: %s\n  with other calls: %s", c.program(false, c.N), a, b)
	}
	for _, d := range depths {
		// the first call and one that a closure makes may differ
		if d > depths[0]+60 {
			return fmt.Errorf("%s\n  the stack grows: %v", c.program(false, c.N), depths)
		}
	}
	o.Label("calls: %d", min(len(depths), 10))
	if strings.HasPrefix(tail, "ERR") {
		o.Label("error")
	}
	if len(depths) > 3 {
		o.NonTrivial()
	}
	if c.Deep > 0 && len(depths) > c.N {
		r, _, depths := c.run(false, c.Deep)
		o.Label("deep")
		if strings.HasPrefix(r, "ERR") {
			return fmt.Errorf("%s\n  %s", c.program(false, c.Deep), r)
		}
		if last := depths[len(depths)-1]; last > depths[0]+60 {
			return fmt.Errorf("%s\n  the stack grows: %d to %d", c.program(false, c.Deep), depths[0], last)
		}
	}
	return nil
}

func initTailProps() {
	reg("C04", "tail-loops", 15000, 300000,
		"a function that calls itself in tail position of random nestings of if, cond, let, let* and progn, with effects, assignments, rest parameters, wrong argument counts and closures over its bindings, compared with the same definition whose self calls are no tail calls, the depth of the host's stack measured in every call, and a hundredth with 250000 iterations; non-trivial: more than 3 calls",
		genTailCase, checkTail)
}
