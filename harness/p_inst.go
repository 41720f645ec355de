package main

// C25: interpreter instances are independent; results do not depend on how a
// program is given to the interpreter; host scopes.

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// nested ----------------------------------------------------------------------

type nestCase struct {
	A  Program `json:"a"`
	B  Program `json:"b"`
	At []int   `json:"at"` // B's form i runs when A has seen that many events
}

var instCfg = progCfg{w: weights{"catch": 4, "throw": 4, "block": 3, "return-from": 3, "with-handler": 4, "error-op": 2, "ignore-errors": 2, "unwind-protect": 2, "dynamic-let": 4,
	"dynamic": 4, "set-dynamic": 3, "go": 2, "tagbody": 2, "loop": 3, "call": 6, "lambda": 4, "macro": 4, "tr": 7, "local-fun": 3, "mapcar": 3, "stmt-expr": 4},
	depth: 5, funs: 3, macros: 2, dyns: true, mains: 3, recFuns: true}

func genNest(t *rapid.T) nestCase {
	c := nestCase{A: genProgram(t, instCfg), B: genProgram(t, instCfg)}
	at := 0
	for range c.B.Forms {
		if pct(t, 60) {
			at += below(t, 6, "at")
		}
		c.At = append(c.At, at)
	}
	return c
}

// expectation of one program on its own.
type expForm struct {
	v       V
	c       *Cond
	nt, nh  int // length of the traces afterwards
	stopped bool
}

func refRun(p Program) (r *ref, exp []expForm, err error) {
	r = newRef(refFuel)
	for _, text := range p.Forms {
		forms, err := readAllV(text)
		if err != nil {
			return nil, nil, fmt.Errorf("harness: %w", err)
		}
		v, c, stopped := r.top(forms[0])
		exp = append(exp, expForm{v, c, len(r.trace), len(r.htrace), stopped != ""})
		if stopped != "" {
			break
		}
	}
	return r, exp, nil
}

// compareForm checks the outcome of a form and the events so far.
func compareForm(r *ref, e expForm, got outcome, sk *sink) error {
	if e.c != nil {
		if got.Err == nil {
			return fmt.Errorf("expected an error %s, got value %s", condText(e.c), got.Value)
		}
		if e.c.Class != "<simple-error>" && got.Class != e.c.Class {
			return fmt.Errorf("expected an error %s, got %v", condText(e.c), got)
		}
	} else if want := show(e.v); got.Err != nil || want != got.Value && !strings.Contains(want, "gensym") {
		return fmt.Errorf("expected %s, got %v", want, got)
	}
	if d := diffSeq(r.trace[:e.nt], sk.trace); d != "" {
		return fmt.Errorf("effects differ: %s", d)
	}
	if d := diffSeq(r.htrace[:e.nh], sk.htrace); d != "" {
		return fmt.Errorf("handler calls differ: %s", d)
	}
	return nil
}

func runNest(c nestCase, o *Obs) error {
	o.Sample(strings.Join(c.A.Forms, "\n") + "\n; within it, in another interpreter\n" + strings.Join(c.B.Forms, "\n"))
	ra, ea, err := refRun(c.A)
	if err != nil {
		return err
	}
	rb, eb, err := refRun(c.B)
	if err != nil {
		return err
	}
	wa, _ := newWorld()
	wb, _ := newWorld()
	sa, sb := &sink{}, &sink{}
	defer func() { curSink = nil }()
	nextB, inside := 0, false
	var fail error
	ctxb := newCountCtx(lookFuel)
	pump := func(limit int) {
		if inside || fail != nil {
			return
		}
		inside = true
		defer func() { inside = false; curSink = sa }()
		for nextB < len(eb) && !eb[nextB].stopped && c.At[nextB] <= limit {
			i := nextB
			nextB++
			curSink = sb
			got := evalText(ctxb, wb, c.B.Forms[i])
			if err := compareForm(rb, eb[i], got, sb); err != nil {
				fail = fmt.Errorf("the other program, form %d at event %d of the first: %v", i, len(sa.trace), err)
				return
			}
			if limit < 1<<30 && limit > 0 {
				o.Label("nested")
				o.NonTrivial()
			}
		}
	}
	sa.onTr = func(string) { pump(len(sa.trace)) }
	ctx := newCountCtx(lookFuel)
	where := func() string {
		return "\n  " + strings.Join(c.A.Forms, "\n  ") + "\n  the other:\n  " + strings.Join(c.B.Forms, "\n  ") + fmt.Sprintf("\n  at %v", c.At)
	}
	for i, e := range ea {
		if e.stopped {
			o.Label("stopped")
			break
		}
		pump(len(sa.trace))
		curSink = sa
		got := evalText(ctx, wa, c.A.Forms[i])
		if fail != nil {
			break
		}
		if err := compareForm(ra, e, got, sa); err != nil {
			return fmt.Errorf("form %d: %v%s", i, err, where())
		}
	}
	pump(1 << 30)
	if fail != nil {
		return fmt.Errorf("%v%s", fail, where())
	}
	return nil
}

// pieces ----------------------------------------------------------------------

type pieceCase struct {
	Prog Program `json:"prog"`
	Cut  []int   `json:"cut"`
}

func genPieces(t *rapid.T) pieceCase {
	c := pieceCase{Prog: genProgram(t, instCfg)}
	for range c.Prog.Forms {
		c.Cut = append(c.Cut, below(t, 6, "how"))
	}
	return c
}

// errOut is an outcome without the parts that are not its own.
func errOut(x outcome) string {
	if x.Err != nil {
		return "ERR " + x.Class + " " + x.Dom + " " + x.Err.Error()
	}
	return x.Value
}

func runPieces(c pieceCase, o *Obs) error {
	o.Sample(strings.Join(c.Prog.Forms, "\n") + fmt.Sprintf("\n; %v", c.Cut))
	r, exp, err := refRun(c.Prog)
	if err != nil {
		return err
	}
	n := 0
	failed := false
	for n < len(exp) && !exp[n].stopped {
		n++
		if exp[n-1].c != nil {
			failed = true
			break
		}
	}
	forms := c.Prog.Forms[:n]
	if n == 0 {
		return nil
	}
	last := exp[n-1]
	bg := context.Background()
	ways := []struct {
		name string
		run  func(w *gmnlisp.World) outcome
	}{
		{"one Interpret", func(w *gmnlisp.World) outcome { return evalText(bg, w, strings.Join(forms, "\n")) }},
		{"one InterpretBytes", func(w *gmnlisp.World) outcome {
			return toOutcome(w.InterpretBytes(bg, []byte(strings.Join(forms, " "))))
		}},
		{"ReadAll and InterpretNodes", func(w *gmnlisp.World) outcome {
			nodes, err := gmnlisp.ReadAll(strings.NewReader(strings.Join(forms, " ; x\n")))
			if err != nil {
				return outcome{Err: err}
			}
			return toOutcome(w.InterpretNodes(bg, nodes))
		}},
		{"load of one stream", func(w *gmnlisp.World) outcome {
			text := strings.Join(forms, "\n")
			lw := letVars(w, map[string]gmnlisp.Node{"verif-text": gmnlisp.String(text)})
			return evalText(bg, lw, `(let* ((s (create-string-input-stream verif-text)) (last nil) (f (read s nil 'verif-end))) (while (not (eq f 'verif-end)) (setq last (eval f)) (setq f (read s nil 'verif-end))) last)`)
		}},
		{"mixed", func(w *gmnlisp.World) (x outcome) {
			for i := 0; i < len(forms); {
				j := i + 1
				for j < len(forms) && c.Cut[j] == 0 {
					j++
				}
				text := strings.Join(forms[i:j], " ")
				switch c.Cut[i] {
				case 1:
					x = toOutcome(w.InterpretBytes(bg, []byte(text)))
				case 2:
					nodes, err := gmnlisp.ReadAll(bytes.NewReader([]byte(text)))
					if err != nil {
						return outcome{Err: err}
					}
					for _, nd := range nodes {
						if x = toOutcome(w.InterpretNodes(bg, []gmnlisp.Node{nd})); x.Err != nil {
							return x
						}
					}
				case 3:
					nodes, err := gmnlisp.ReadAll(strings.NewReader(text))
					if err != nil {
						return outcome{Err: err}
					}
					w.Interpret(bg, "") // the startup functions
					for _, nd := range nodes {
						if x = toOutcome(w.Eval(bg, nd)); x.Err != nil {
							return x
						}
					}
				case 4:
					x = evalText(bg, w, "(progn "+text+")")
					if i+1 < j && strings.Contains(text, "(defmacro") {
						o.Label("macro and use in one progn")
					}
				default:
					x = evalText(bg, w, text)
				}
				if x.Err != nil {
					return x
				}
				i = j
			}
			return x
		}},
	}
	for _, way := range ways {
		w, _ := newWorld()
		sk := &sink{}
		curSink = sk
		got := way.run(w)
		curSink = nil
		if err := compareForm(r, last, got, sk); err != nil {
			return fmt.Errorf("%s: %v\n  %s\n  cut %v", way.name, err, strings.Join(forms, "\n  "), c.Cut)
		}
	}
	if failed {
		o.Label("with a failing form")
	}
	if n > 4 {
		o.NonTrivial()
	}
	return nil
}

// state -----------------------------------------------------------------------

type wsOp struct {
	K string `json:"k"`
	W int    `json:"w"`
	N int    `json:"n,omitempty"` // name
	V int    `json:"v,omitempty"`
}

type wsCase struct {
	Ops []wsOp `json:"ops"`
}

// names of functions: own ones and ones of the library (embedded Lisp,
// startup code and Go), which a program may define anew
var wsFuns = []string{"sa", "sb", "second", "1+", "cadr", "nth", "first", "evenp", "hash-table-count", "elt", "append", "assoc", "length", "cdr", ">"}

// what calls of the library's own definitions give
var wsCalls = map[string][2]string{
	"sa": {"(sa 1)", "ERR"}, "sb": {"(sb 1)", "ERR"}, "second": {"(second '(1 2 3))", "2"}, "1+": {"(1+ 5)", "6"}, "cadr": {"(cadr '(1 2 3))", "2"}, "nth": {"(nth 1 '(4 5 6))", "5"},
	"first": {"(first '(7 8))", "7"}, "evenp": {"(evenp 4)", "t"}, "hash-table-count": {"(hash-table-count (make-hash-table))", "0"}, "elt": {"(elt '(1 2) 1)", "2"}, "append": {"(append '(1) '(2))", "(1 2)"},
	"assoc": {"(assoc 'a '((a . 1)))", "(a . 1)"}, "length": {"(length '(1 2))", "2"}, "cdr": {"(cdr '(1 2))", "(2)"}, ">": {"(> 2 1)", "t"},
}

// what library functions give that may use others
var wsLib = [][2]string{
	{"(third '(1 2 3))", "3"}, {"(caddr '(1 2 3))", "3"}, {"(let ((x 1)) (incf x) x)", "2"}, {"(let ((x (list 1 2))) (setf (car x) 5) x)", "(5 2)"},
	{"(let ((s 0)) (dolist (y '(1 2)) (setq s (+ s y))) s)", "3"}, {"(let ((s 0)) (dotimes (y 3) (setq s (+ s y))) s)", "3"}, {"(max 1 3 2)", "3"}, {"(let ((l (list 1 2 3))) (setf (nthcdr 1 l) '(9)) l)", "(1 9)"},
	{"(let ((l (list 1 2 3))) (setf (elt l 1) 9) l)", "(1 9 3)"}, {"(for ((i 0 (+ i 1))) ((= i 3) i))", "3"}, {"(1- 3)", "2"}, {"(oddp 3)", "t"},
}

func genWs(t *rapid.T) wsCase {
	var c wsCase
	ks := []string{"defun", "defun", "defmacro", "defgeneric", "defmethod", "set-property", "set-property", "remove-property", "defdynamic", "set-dynamic", "print", "stdout", "stdin", "readin", "in-let", "call", "call", "call", "macro", "gcall", "property", "property", "dynamic", "lib", "lib", "handler", "catch", "host"}
	for n := between(t, 4, 30, "ops"); n > 0; n-- {
		c.Ops = append(c.Ops, wsOp{K: pickOf(t, ks, "op"), W: below(t, 3, "world"), N: below(t, len(wsFuns), "name"), V: below(t, 50, "value")})
	}
	return c
}

type wsWorld struct {
	w     *gmnlisp.World
	out   *bytes.Buffer
	want  string
	funs  map[string]int
	macs  map[string]int
	gens  map[string]map[string]int
	props map[string]int
	dyns  map[string]int
	input string
}

func runWs(c wsCase, o *Obs) error {
	var ws []*wsWorld
	for i := 0; i < 3; i++ {
		w, out := newWorld()
		ws = append(ws, &wsWorld{w: w, out: out, funs: map[string]int{}, macs: map[string]int{}, gens: map[string]map[string]int{}, props: map[string]int{}, dyns: map[string]int{}})
	}
	bg := context.Background()
	var log []string
	used := map[int]bool{}
	checks := 0
	for i, op := range c.Ops {
		s := ws[op.W]
		name := wsFuns[op.N]
		own := name == "sa" || name == "sb"
		do := func(text, want string) error {
			log = append(log, fmt.Sprintf("%d: %s", op.W, text))
			got := evalText(bg, s.w, text)
			checks++
			if want == "ERR" {
				if got.Err == nil {
					return fmt.Errorf("gives %v, expected an error", got)
				}
				return nil
			}
			if got.Err != nil || got.Value != want {
				return fmt.Errorf("gives %v, expected %s", got, want)
			}
			return nil
		}
		var err error
		used[op.W] = true
		dn := fmt.Sprintf("sd%d", op.N%2)
		key := fmt.Sprintf("%d %d", op.N%3, op.V%2)
		ptext := fmt.Sprintf("'so%d 'sp%d", op.N%3, op.V%2)
		redefined := false // functions of the library may use it
		for _, n := range wsFuns[2:] {
			if _, ok := s.funs[n]; ok {
				redefined = true
			}
		}
		if redefined && strings.Contains(op.K, "property") {
			continue
		}
		switch op.K {
		case "defun":
			if s.gens[name] != nil {
				continue // a generic function becomes an ordinary one
			}
			if _, mac := s.macs[name]; mac {
				continue
			}
			err = do(fmt.Sprintf("(defun %s (&rest r) (list %d r))", name, op.V), name)
			s.funs[name] = op.V
		case "defmacro":
			if own && s.gens[name] == nil {
				if _, fun := s.funs[name]; fun {
					continue
				}
				err = do(fmt.Sprintf("(defmacro %s (x) `(list ,x %d))", name, op.V), name)
				s.macs[name] = op.V
			}
		case "defgeneric", "defmethod":
			gname := "sg" + fmt.Sprint(op.N%2)
			if s.gens[gname] == nil {
				if op.K == "defmethod" {
					err = do(fmt.Sprintf("(defmethod %s ((x <integer>)) %d)", gname, op.V), "ERR")
					break
				}
				err = do(fmt.Sprintf("(defgeneric %s (x))", gname), gname)
				s.gens[gname] = map[string]int{}
			} else {
				cls := []string{"<integer>", "<string>", "<object>"}[op.V%3]
				err = do(fmt.Sprintf("(defmethod %s ((x %s)) %d)", gname, cls, op.V), gname)
				s.gens[gname][cls] = op.V
			}
		case "gcall":
			gname := "sg" + fmt.Sprint(op.N%2)
			arg, cls := []string{"1", `"s"`, "'a"}[op.V%3], []string{"<integer>", "<string>", "<object>"}[op.V%3]
			want := "ERR"
			if v, ok := s.gens[gname][cls]; ok {
				want = fmt.Sprint(v)
			} else if v, ok := s.gens[gname]["<object>"]; ok {
				want = fmt.Sprint(v)
			}
			err = do(fmt.Sprintf("(%s %s)", gname, arg), want)
		case "set-property":
			err = do(fmt.Sprintf("(set-property %d %s)", op.V, ptext), fmt.Sprint(op.V))
			s.props[key] = op.V
		case "remove-property":
			err = do(fmt.Sprintf("(progn (remove-property %s) 'removed)", ptext), "removed")
			delete(s.props, key)
		case "property":
			want := "ERR"
			if v, ok := s.props[key]; ok {
				want = fmt.Sprint(v)
			}
			err = do(fmt.Sprintf("(property %s)", ptext), want)
		case "defdynamic":
			err = do(fmt.Sprintf("(defdynamic %s %d)", dn, op.V), dn)
			s.dyns[dn] = op.V
		case "set-dynamic":
			if _, ok := s.dyns[dn]; ok {
				err = do(fmt.Sprintf("(set-dynamic %d %s)", op.V, dn), fmt.Sprint(op.V))
				s.dyns[dn] = op.V
			}
		case "dynamic":
			want := "ERR"
			if v, ok := s.dyns[dn]; ok {
				want = fmt.Sprint(v)
			}
			err = do(fmt.Sprintf("(dynamic %s)", dn), want)
		case "print":
			err = do(fmt.Sprintf("(format t \"%d;\")", op.V), "nil")
			s.want += fmt.Sprintf("%d;", op.V)
		case "stdout":
			s.out = &bytes.Buffer{}
			s.want = ""
			s.w.SetStdout(s.out)
		case "stdin":
			err = do(fmt.Sprintf("(with-standard-input (create-string-input-stream \"%d x\") (read))", op.V), fmt.Sprint(op.V))
		case "readin":
			// the standard input of the process is empty
			err = do("(read-line (standard-input) nil 'eof)", "eof")
		case "in-let":
			lw := s.w.Let(&gmnlisp.Pair{Key: gmnlisp.NewSymbol("verif-v"), Value: gmnlisp.Integer(op.V)})
			got := evalText(bg, lw, "(+ verif-v 1)")
			if got.Value != fmt.Sprint(op.V+1) {
				err = fmt.Errorf("a scope of the host gives %v", got)
			} else {
				for k, other := range ws {
					if got := evalText(bg, other.w, "verif-v"); got.Err == nil {
						err = fmt.Errorf("the variable of a host scope is visible in interpreter %d: %v", k, got)
					}
				}
			}
		case "call":
			if _, mac := s.macs[name]; mac {
				continue
			}
			if v, ok := s.funs[name]; ok {
				err = do(fmt.Sprintf("(%s 1 2)", name), fmt.Sprintf("(%d (1 2))", v))
				break
			}
			if !redefined || own {
				err = do(wsCalls[name][0], wsCalls[name][1])
			}
		case "macro":
			if v, ok := s.macs[name]; ok {
				err = do(fmt.Sprintf("(%s (+ 1 2))", name), fmt.Sprintf("(3 %d)", v))
			} else if _, fun := s.funs[name]; own && !fun {
				err = do(fmt.Sprintf("(%s (+ 1 2))", name), "ERR")
			}
		case "lib":
			if redefined {
				o.Label("library function redefined here")
				break
			}
			l := wsLib[(op.N*50+op.V)%len(wsLib)]
			err = do(l[0], l[1])
		case "handler", "catch":
			// another interpreter fails within the extent of a handler and a catch of this one
			other := ws[(op.W+1+op.V%2)%3]
			var inner outcome
			hook := &sink{onTr: func(string) {
				inner = evalText(bg, other.w, map[string]string{"handler": "(car 'verif)", "catch": "(throw 'verif 1)"}[op.K])
			}}
			curSink = hook
			err = do("(catch 'verif (with-handler (lambda (c) (throw 'verif 'handled)) (tr 1 2) 'normal))", "normal")
			curSink = nil
			if err == nil && inner.Err == nil {
				err = fmt.Errorf("the failing evaluation in the other interpreter gives %v", inner)
			}
		case "host":
			// functions given by the host in a scope are seen only there
			fw := s.w.Flet(gmnlisp.Functions{gmnlisp.NewSymbol("verif-f"): gmnlisp.Function1(func(_ context.Context, _ *gmnlisp.World, x gmnlisp.Node) (gmnlisp.Node, error) {
				return gmnlisp.List(x, gmnlisp.Integer(op.V)), nil
			})})
			if got := evalText(bg, fw, "(verif-f (+ 1 2))"); got.Value != fmt.Sprintf("(3 %d)", op.V) {
				err = fmt.Errorf("a function of the host gives %v", got)
			}
			for k, other := range ws {
				if got := evalText(bg, other.w, "(verif-f 1)"); got.Err == nil {
					err = fmt.Errorf("the function of a host scope is visible in interpreter %d: %v", k, got)
				}
			}
		}
		if err == nil {
			for k, x := range ws {
				if x.out.String() != x.want {
					err = fmt.Errorf("the output of interpreter %d is %q, expected %q", k, x.out.String(), x.want)
				}
			}
		}
		if err != nil {
			return fmt.Errorf("operation %d (%s): %v\n  %s", i, op.K, err, strings.Join(log, "\n  "))
		}
		o.Label("op %s", op.K)
	}
	o.Sample(strings.Join(log, "\n"))
	if len(used) > 1 && checks > 3 {
		o.NonTrivial()
	}
	return nil
}

// host scopes -----------------------------------------------------------------

type hsOp struct {
	K string `json:"k"`
	S int    `json:"s"` // scope
	X int    `json:"x"` // variable or function
	Y int    `json:"y"`
	V int    `json:"v"`
}

type hsCase struct {
	Ops []hsOp `json:"ops"`
}

var hsVars = []string{"ha", "hb", "hc"}
var hsFuns = []string{"hf", "hg"}

func genHs(t *rapid.T) hsCase {
	var c hsCase
	ks := []string{"let", "let", "pair", "flet", "get", "get", "setq", "setq", "closure", "shadow", "list", "call", "call", "funcall", "mapcar", "defun", "fshadow", "host-set", "incf", "call-g"}
	c.Ops = []hsOp{{K: "let", V: 1}}
	for n := between(t, 3, 25, "ops"); n > 0; n-- {
		c.Ops = append(c.Ops, hsOp{K: pickOf(t, ks, "op"), S: below(t, 8, "scope"), X: below(t, 3, "x"), Y: below(t, 3, "y"), V: below(t, 90, "v")})
	}
	return c
}

type hsScope struct {
	w    *gmnlisp.World
	up   *hsScope
	vars map[string]int
	funs map[string]int
	hv   gmnlisp.Variables
	hp   *gmnlisp.Pair
}

func (s *hsScope) find(v string) *hsScope {
	for ; s != nil; s = s.up {
		if _, ok := s.vars[v]; ok {
			return s
		}
	}
	return nil
}

func (s *hsScope) fun(f string) (int, bool) {
	for ; s != nil; s = s.up {
		if n, ok := s.funs[f]; ok {
			return n, true
		}
	}
	return 0, false
}

func runHs(c hsCase, o *Obs) error {
	w, _ := newWorld()
	scopes := []*hsScope{{w: w}}
	bg := context.Background()
	gdef := map[string]*hsScope{} // global functions and the scopes they were defined in
	gvar := map[string]string{}
	var log []string
	assigned := false
	for i, op := range c.Ops {
		si := op.S % len(scopes)
		s := scopes[si]
		x, y, f := hsVars[op.X], hsVars[op.Y], hsFuns[op.X%2]
		do := func(text, want string) error {
			log = append(log, fmt.Sprintf("scope %d: %s", si, text))
			got := evalText(bg, s.w, text)
			if want == "ERR" {
				if got.Err == nil {
					return fmt.Errorf("gives %v, expected an error", got)
				}
				return nil
			}
			if got.Err != nil || got.Value != want {
				return fmt.Errorf("gives %v, expected %s", got, want)
			}
			return nil
		}
		val := func(v string) string {
			if t := s.find(v); t != nil {
				return fmt.Sprint(t.vars[v])
			}
			return "ERR"
		}
		fval := func(arg int) string {
			if n, ok := s.fun(f); ok {
				return fmt.Sprint(n*1000 + arg)
			}
			return "ERR"
		}
		var err error
		switch op.K {
		case "let", "pair":
			n := &hsScope{up: s, vars: map[string]int{x: op.V}}
			if op.K == "let" {
				n.vars[y] = op.V + 100
				n.hv = gmnlisp.Variables{}
				for k, v := range n.vars {
					n.hv[gmnlisp.NewSymbol(k)] = gmnlisp.Integer(v)
				}
				n.w = s.w.Let(n.hv)
			} else {
				n.hp = &gmnlisp.Pair{Key: gmnlisp.NewSymbol(x), Value: gmnlisp.Integer(op.V)}
				n.w = s.w.Let(n.hp)
			}
			log = append(log, fmt.Sprintf("scope %d: in %d with %v", len(scopes), si, n.vars))
			scopes = append(scopes, n)
		case "flet":
			n := &hsScope{up: s, funs: map[string]int{f: op.V}}
			k := op.V
			n.w = s.w.Flet(gmnlisp.Functions{gmnlisp.NewSymbol(f): gmnlisp.Function1(func(ctx context.Context, w *gmnlisp.World, a gmnlisp.Node) (gmnlisp.Node, error) {
				v, err := gmnlisp.ExpectClass[gmnlisp.Integer](ctx, w, a)
				return gmnlisp.Integer(k*1000) + v, err
			})})
			log = append(log, fmt.Sprintf("scope %d: in %d with function %s %d", len(scopes), si, f, k))
			scopes = append(scopes, n)
		case "get":
			err = do(x, val(x))
		case "setq", "closure", "incf":
			t := s.find(x)
			if t == nil {
				err = do(x, "ERR")
				break
			}
			nv := op.V
			switch op.K {
			case "setq":
				err = do(fmt.Sprintf("(setq %s %d)", x, nv), fmt.Sprint(nv))
			case "incf":
				nv += t.vars[x]
				err = do(fmt.Sprintf("(progn (incf %s %d) %s)", x, op.V, x), fmt.Sprint(nv))
			default:
				err = do(fmt.Sprintf("(progn (mapc (lambda (v) (setq %s v)) '(1 2 %d)) %s)", x, nv, x), fmt.Sprint(nv))
			}
			t.vars[x] = nv
			assigned = true
		case "shadow":
			err = do(fmt.Sprintf("(let ((%s 1)) (setq %s (+ %s 1)) %s)", x, x, x, x), "2")
		case "list":
			if a, b := val(x), val(y); a != "ERR" && b != "ERR" {
				err = do(fmt.Sprintf("(let ((hz %s)) (list hz %s (funcall (lambda () %s))))", x, y, x), fmt.Sprintf("(%s %s %s)", a, b, a))
			}
		case "call":
			err = do(fmt.Sprintf("(%s %d)", f, op.V), fval(op.V))
		case "funcall":
			err = do(fmt.Sprintf("(funcall #'%s %d)", f, op.V), fval(op.V))
		case "mapcar":
			if r := fval(op.V); r != "ERR" {
				err = do(fmt.Sprintf("(mapcar #'%s '(%d %d))", f, op.V, op.V), "("+r+" "+r+")")
			}
		case "fshadow":
			err = do(fmt.Sprintf("(flet ((%s (a) (list a))) (%s 5))", f, f), "(5)")
		case "defun":
			// a function defined in a scope is global and sees the scope
			g := "hdef" + fmt.Sprint(op.Y)
			err = do(fmt.Sprintf("(defun %s () %s)", g, x), g)
			gdef[g], gvar[g] = s, x
		case "call-g":
			g := "hdef" + fmt.Sprint(op.Y)
			want := "ERR"
			if d := gdef[g]; d != nil {
				if t := d.find(gvar[g]); t != nil {
					want = fmt.Sprint(t.vars[gvar[g]])
				}
			}
			err = do(fmt.Sprintf("(%s)", g), want)
		case "host-set":
			t := s.find(x)
			if t == nil {
				break
			}
			t.vars[x] = op.V
			if t.hv != nil {
				t.hv[gmnlisp.NewSymbol(x)] = gmnlisp.Integer(op.V)
			} else {
				t.hp.Value = gmnlisp.Integer(op.V)
			}
			log = append(log, fmt.Sprintf("host: %s = %d", x, op.V))
			err = do(x, fmt.Sprint(op.V))
		}
		if err == nil {
			// the scopes hold what was assigned
			for k, s := range scopes {
				if s.hp != nil {
					if got := show(fromNode(s.hp.Value)); got != fmt.Sprint(s.vars[s.hp.Key.String()]) {
						err = fmt.Errorf("the scope %d holds %s = %s, expected %v", k, s.hp.Key, got, s.vars)
					}
				}
				if s.hv != nil {
					if len(s.hv) != len(s.vars) {
						err = fmt.Errorf("the scope %d holds %v, expected %v", k, s.hv, s.vars)
					}
					for n, v := range s.vars {
						if got := s.hv[gmnlisp.NewSymbol(n)]; got == nil || show(fromNode(got)) != fmt.Sprint(v) {
							err = fmt.Errorf("the scope %d holds %s = %v, expected %d", k, n, got, v)
						}
					}
				}
			}
		}
		if err != nil {
			return fmt.Errorf("operation %d (%s): %v\n  %s", i, op.K, err, strings.Join(log, "\n  "))
		}
		o.Label("op %s", op.K)
	}
	// the interpreter outside of the scopes
	for _, v := range hsVars {
		if got := evalText(bg, w, v); got.Err == nil {
			return fmt.Errorf("%s is visible outside of the scopes: %v\n  %s", v, got, strings.Join(log, "\n  "))
		}
	}
	o.Sample(strings.Join(log, "\n"))
	if assigned && len(scopes) > 2 {
		o.NonTrivial()
	}
	return nil
}

func initInstProps() {
	reg("C25", "nested", 20000, 600000, "forms of a second program ran in another interpreter from within an event of the first", genNest, runNest)
	reg("C25", "pieces", 15000, 400000, "a program of more than 4 forms was evaluated in five ways", genPieces, runPieces)
	reg("C25", "state", 20000, 600000, "at least 2 of 3 interpreters were used, and more than 3 results compared", genWs, runWs)
	reg("C25", "host-scopes", 20000, 600000, "an assignment was made and there were more than 2 scopes", genHs, runHs)
}
