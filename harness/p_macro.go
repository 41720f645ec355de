package main

// C10: the expansion of a macro call is its template with the argument forms
// put in, and a macro call means what its expansion means wherever it stands.

import (
	"context"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// mTmpl is a template: an atom, a list of templates, or a hole.
type mTmpl struct {
	D    *D      `json:"d,omitempty"`
	L    []mTmpl `json:"l,omitempty"`
	Tail *mTmpl  `json:"tail,omitempty"`
	Hole string  `json:"hole,omitempty"` // an expression over the parameters
	At   bool    `json:"at,omitempty"`   // spliced
	Q    bool    `json:"q,omitempty"`    // (quote …)
}

type mCase struct {
	Params int   `json:"params"`
	Rest   bool  `json:"rest"`
	Mark   bool  `json:"mark"` // :rest
	T      mTmpl `json:"t"`
	Args   []D   `json:"args"`
	K      int   `json:"k"`
	Body   int   `json:"body"`
	Args2  []D   `json:"args2"`
}

func (m mTmpl) text() string {
	switch {
	case m.At:
		return ",@" + m.Hole
	case m.Hole != "":
		return "," + m.Hole
	case m.D != nil:
		return m.D.Src()
	}
	var l []string
	for _, x := range m.L {
		l = append(l, x.text())
	}
	s := strings.Join(l, " ")
	if m.Tail != nil {
		s += " . " + m.Tail.text()
	}
	if m.Q {
		return "'" + s
	}
	return "(" + s + ")"
}

func (c mCase) hole(h string, args []D) V {
	var rest V = Nil
	for i := len(args) - 1; i >= c.Params; i-- {
		rest = &Pair{args[i].V(), rest}
	}
	switch h {
	case "aa", "bb":
		return args[int(h[0]-'a')].V()
	case "kk":
		return Int(c.K)
	case "rr":
		return rest
	case "(car rr)", "(cdr rr)":
		p := rest.(*Pair)
		if h == "(car rr)" {
			return p.Car
		}
		return p.Cdr
	case "(length rr)":
		return Int(len(args) - c.Params)
	case "(list aa kk)":
		return vlist(args[0].V(), Int(c.K))
	case "(list 'quote aa)":
		return vlist(Sym("quote"), args[0].V())
	case "(cons bb aa)":
		return &Pair{args[1].V(), args[0].V()}
	case "(mapcar (lambda (x) (list x kk)) rr)":
		var l []V
		for _, a := range args[c.Params:] {
			l = append(l, vlist(a.V(), Int(c.K)))
		}
		return vlist(l...)
	case "(if (consp aa) (car aa) 'atom)":
		if p, ok := args[0].V().(*Pair); ok {
			return p.Car
		}
		return Sym("atom")
	}
	panic("hole " + h)
}

func (c mCase) holes() []string {
	h := []string{"kk"}
	if c.Params > 0 {
		h = append(h, "aa", "aa", "(list aa kk)", "(list 'quote aa)", "(if (consp aa) (car aa) 'atom)")
	}
	if c.Params > 1 {
		h = append(h, "bb", "bb", "(cons bb aa)")
	}
	if c.Rest {
		h = append(h, "rr", "rr", "(length rr)", "(mapcar (lambda (x) (list x kk)) rr)")
		if len(c.Args) > c.Params && len(c.Args2) > c.Params {
			h = append(h, "(car rr)", "(cdr rr)")
		}
	}
	return h
}

// fill is the expansion.
func (c mCase) fill(m mTmpl, args []D) V {
	switch {
	case m.Hole != "":
		return c.hole(m.Hole, args)
	case m.D != nil:
		return m.D.V()
	}
	var r V = Nil
	if m.Tail != nil {
		r = c.fill(*m.Tail, args)
	}
	for i := len(m.L) - 1; i >= 0; i-- {
		if m.L[i].At {
			for k := len(args) - 1; k >= c.Params; k-- {
				r = &Pair{args[k].V(), r}
			}
			continue
		}
		r = &Pair{c.fill(m.L[i], args), r}
	}
	if m.Q {
		return &Pair{Sym("quote"), r}
	}
	return r
}

func genTmpl(t *rapid.T, c mCase, depth int) mTmpl {
	k := below(t, 10, "template")
	if k < 4 || depth == 0 && k < 6 {
		return mTmpl{Hole: pickOf(t, c.holes(), "hole")}
	}
	if k < 6 || depth == 0 {
		d := genMDatum(t, 0)
		return mTmpl{D: &d}
	}
	if k == 6 {
		return mTmpl{Q: true, L: []mTmpl{genTmpl(t, c, depth-1)}}
	}
	r := mTmpl{}
	for n := between(t, 1, 4, "len"); n > 0; n-- {
		if c.Rest && pct(t, 25) {
			r.L = append(r.L, mTmpl{Hole: "rr", At: true})
			continue
		}
		r.L = append(r.L, genTmpl(t, c, depth-1))
	}
	if pct(t, 8) {
		x := genTmpl(t, c, 0)
		if x.D != nil && (x.D.K == "l" || x.D.K == "n") {
			return r
		}
		if x.Hole == "" { // ( … . ,x) is read as (… unquote x)
			r.Tail = &x
		}
	}
	return r
}

func genMDatum(t *rapid.T, depth int) D {
	if depth > 0 && pct(t, 45) {
		d := D{K: "l"}
		if pct(t, 30) {
			d.L = append(d.L, pickOf(t, []D{dSym("mm"), dSym("quote"), dSym("unquote"), dSym("lambda"), dSym("qq"), dSym("if"), dSym("tr")}, "head"))
		}
		for n := between(t, 1, 3, "len"); n > 0; n-- {
			d.L = append(d.L, genMDatum(t, depth-1))
		}
		return d
	}
	return pickOf(t, []D{dInt(1), dInt(-7), dFlt(2.5), dSym("x"), dSym("y"), dSym("mm"), dSym("kk"), dSym("aa"), dStr("s t"), dStr(""), dChr('a'), dKw(":k"), {K: "n"}, {K: "t"}, {K: "a", Dim: []int{2}, L: []D{dInt(1), dSym("aa")}}}, "atom")
}

func genMacroCase(t *rapid.T) mCase {
	c := mCase{Params: below(t, 3, "params"), Rest: pct(t, 55), Mark: pct(t, 40), K: between(t, 0, 9, "k"), Body: below(t, 3, "body")}
	for i := 0; i < 2; i++ {
		n := c.Params
		if c.Rest {
			n += below(t, 4, "rest")
		}
		var a []D
		for ; n > 0; n-- {
			a = append(a, genMDatum(t, 2))
		}
		if i == 0 {
			c.Args = a
		} else {
			c.Args2 = a
		}
	}
	c.T = mTmpl{}
	for n := between(t, 1, 4, "len"); n > 0; n-- {
		if c.Rest && pct(t, 30) {
			c.T.L = append(c.T.L, mTmpl{Hole: "rr", At: true})
		} else {
			c.T.L = append(c.T.L, genTmpl(t, c, 2))
		}
	}
	return c
}

func (c mCase) def(name string, tmpl string) string {
	var p []string
	for i := 0; i < c.Params; i++ {
		p = append(p, []string{"aa", "bb"}[i])
	}
	if c.Rest {
		p = append(p, map[bool]string{true: ":rest", false: "&rest"}[c.Mark], "rr")
	}
	body := tmpl
	switch c.Body {
	case 1:
		body = "(let ((tmp 1)) " + tmpl + ")"
	case 2:
		body = "(car (list 1)) " + tmpl
	}
	return fmt.Sprintf("(let ((kk %d)) (defmacro %s (%s) %s))", c.K, name, strings.Join(p, " "), body)
}

func (m mTmpl) count(f func(m mTmpl) bool) int {
	n := 0
	if f(m) {
		n++
	}
	for _, x := range m.L {
		n += x.count(f)
	}
	return n
}

func (c mCase) call(name string, args []D) string {
	s := "(" + name
	for _, a := range args {
		s += " " + a.Src()
	}
	return s + ")"
}

func checkMacroCase(c mCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	var log []string
	ev := func(text string) (string, error) {
		log = append(log, text)
		n, err := w.Interpret(ctx, text)
		if err != nil {
			return "", fmt.Errorf("%s\n  %v", strings.Join(log, "\n  "), err)
		}
		return show(fromNode(n)), nil
	}
	want := func(text, v string) error {
		g, err := ev(text)
		if err == nil && g != v {
			err = fmt.Errorf("%s\n  is %s\n  expected %s", strings.Join(log, "\n  "), g, v)
		}
		return err
	}
	tmpl := "`" + c.T.text()
	for _, d := range []string{c.def("mm", tmpl), c.def("qq", "(list 'quote "+tmpl+")"), "(defmacro via (:rest body) (list 'progn (cons 'qq body)))"} {
		if _, err := ev(d); err != nil {
			return err
		}
	}
	e1, e2 := show(c.fill(c.T, c.Args)), show(c.fill(c.T, c.Args2))
	mm1, qq1, qq2 := c.call("mm", c.Args), c.call("qq", c.Args), c.call("qq", c.Args2)
	form := show(&Pair{Sym("mm"), listOf(c.Args)})
	tail := strings.TrimPrefix(qq1, "(qq")
	tail2 := strings.TrimPrefix(qq2, "(qq")
	steps := [][2]string{
		{"(macroexpand '" + mm1 + ")", e1},
		{"(let ((form '" + mm1 + ") (kk 100) (aa 200)) (list (macroexpand form) form (macroexpand form)))", "(" + e1 + " " + form + " " + e1 + ")"},
		{qq1, e1},
		{"(list 1 " + qq2 + " " + qq1 + ")", "(1 " + e2 + " " + e1 + ")"},
		{"(let ((kk 77) (aa 88) (rr 99) (qq 3)) (list kk " + qq1 + " qq))", "(77 " + e1 + " 3)"},
		{"(defun f1 (kk) " + qq1 + ")", "f1"},
		{"(list (f1 1) (f1 2))", "(" + e1 + " " + e1 + ")"},
		{"(defun f2 (x) (if (= x 1) " + qq1 + " (let ((y x)) " + qq2 + ")))", "f2"},
		{"(list (f2 1) (f2 2) (f2 1))", "(" + e1 + " " + e2 + " " + e1 + ")"},
		{"(mapcar (lambda (aa) " + qq2 + ") '(1 2))", "(" + e2 + " " + e2 + ")"},
		{"(flet ((f (x) 1 " + qq1 + ")) (f 1))", e1},
		{"(via" + tail, e1},
		{"(let ((r nil)) (for ((i 0 (+ i 1))) ((= i 2) r) (setq r (cons (via" + tail2 + " r))))", "(" + e2 + " " + e2 + ")"},
		{"'(1 " + qq1 + ")", "(1 " + show(&Pair{Sym("qq"), listOf(c.Args)}) + ")"},
		{"(defun f3 () '" + qq1 + ")", "f3"},
		{"(list (f3) (f3))", "(" + show(&Pair{Sym("qq"), listOf(c.Args)}) + " " + show(&Pair{Sym("qq"), listOf(c.Args)}) + ")"},
		{"(macroexpand '" + mm1 + ")", e1},
	}
	for _, s := range steps {
		if err := want(s[0], s[1]); err != nil {
			return err
		}
	}
	// too few arguments are refused and do nothing
	if c.Params > 0 {
		text := c.call("qq", c.Args[:c.Params-1])
		if n, err := w.Interpret(ctx, text); err == nil {
			return fmt.Errorf("%s\n  %s: expected an error, got %s", log[0], text, show(fromNode(n)))
		}
		o.Label("too few arguments")
	}
	if s := out.String(); s != "" {
		return fmt.Errorf("%s\n  unexpected output %q", strings.Join(log, "\n  "), s)
	}
	holes := c.T.count(func(m mTmpl) bool { return m.Hole != "" && !m.At })
	splices := c.T.count(func(m mTmpl) bool { return m.At })
	o.Sample(log[0] + " " + log[3])
	o.Label("holes: %d", min(holes, 4))
	o.Label("splices: %d", min(splices, 3))
	if c.T.count(func(m mTmpl) bool { return m.Tail != nil }) > 0 {
		o.Label("dotted template")
	}
	if holes+splices >= 2 {
		o.NonTrivial()
	}
	return nil
}

func listOf(l []D) V {
	var v []V
	for _, d := range l {
		v = append(v, d.V())
	}
	return vlist(v...)
}

func initMacroProps() {
	reg("C10", "expansion", 60000, 1500000, "a macro whose template has at least 2 holes or splices", genMacroCase, checkMacroCase)
}
