package main

// C23: recursion, texts and values of any depth.

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// deepWraps are the contexts a recursive call R is put into, and what they add
// to its value.
var deepWraps = []struct {
	text string
	add  int
}{
	{"(+ 1 R)", 1}, {"(+ R 1)", 1}, {"(let ((a R)) (+ a 1))", 1}, {"(let ((a 1)) (+ a R))", 1}, {"(let* ((b 2) (a R)) (+ a b))", 2},
	{"(car (list R))", 0}, {"(car (mapcar (lambda (z) (+ z R)) '(1)))", 1}, {"(funcall (lambda (z) (+ z R)) 1)", 1}, {"(funcall (lambda (z) (+ z 1)) R)", 1},
	{"(catch 'kk (+ 1 R))", 1}, {"(catch 'kk (throw 'kk (+ 1 R)))", 1}, {"(block bb (+ 1 R))", 1}, {"(block bb (return-from bb (+ 1 R)))", 1},
	{"(progn (setq ent (+ ent 1)) (unwind-protect (+ 1 R) (setq cln (+ cln 1))))", 1},
	{"(progn (setq ent (+ ent 1)) (unwind-protect R (setq cln (+ cln 1))))", 0},
	{"(dynamic-let ((dd n)) (+ 1 R))", 1}, {"(dynamic-let ((dd R)) (+ (dynamic dd) 1))", 1},
	{"(apply #'+ 1 (list R))", 1}, {"(apply (lambda (&rest z) (+ (car z) R)) '(3))", 3}, {"(cond ((+ 1 R)))", 1}, {"(cond (nil 1) (t (+ 1 R)))", 1}, {"(cond ((numberp R) 5))", -1},
	{"(flet ((ff (z) (+ z R))) (ff 1))", 1}, {"(labels ((gg (z) (if (= z 0) R (+ 1 (gg (- z 1)))))) (gg 3))", 3},
	{"(case (mod n 2) ((0) (+ 1 R)) (t (+ R 1)))", 1}, {"(or nil (+ 1 R))", 1}, {"(and t (+ 1 R))", 1}, {"(the <integer> (+ 1 R))", 1}, {"(assure <integer> (+ 1 R))", 1},
	{"(let ((s 0)) (dolist (q '(1)) (setq s (+ s R))) (+ s 1))", 1}, {"(let ((s 0)) (dotimes (q 1) (setq s (+ s R))) s)", 0},
	{"(for ((i 0 (+ i 1)) (s 0 (+ s R))) ((= i 1) (+ s 1)))", 1}, {"(let ((s nil)) (while (null s) (setq s (+ 1 R))) s)", 1},
	{"(let ((s 0)) (tagbody (setq s (+ s R)) (go end) end) s)", 0}, {"(elt (vector R) 0)", 0}, {"(max 0 R)", 0}, {"(m1 R)", 1}, {"(m2 z (+ z R))", 1},
	{"(gg0 n (lambda () R))", 1}, {"(let ((x (list 0))) (setf (car x) R) (+ 1 (car x)))", 1}, {"(let ((x 1)) (incf x R) x)", 1}, {"(length (cons R (list R2)))", -2},
	{"(with-handler (lambda (c) (setq seen (+ seen 1)) (throw 'out 'handled)) (+ 1 R))", 1}, {"(eval (list '+ 1 (list 'NAME NEXT)))", 1}, {"(eval '(+ 1 2))", -2},
	{"(convert (convert R <string>) <integer>)", 0}, {"(let ((h (make-hash-table))) (setf (gethash 'a h) R) (gethash 'a h))", 0}, {"(acc (create (class <dc>) 'x R))", 0}, {"(prog1 (+ 1 R) 2)", 1}, {"(when t (+ 1 R))", 1},
	{"(car (sort1 (lambda () R)))", 0},
}

const deepSetup = `(defglobal ent 0) (defglobal cln 0) (defglobal seen 0) (defdynamic dd 0) (defmacro m1 (x) (list '+ 1 x)) (defmacro m2 (v x) (list 'let (list (list v 1)) x))
(defgeneric gg0 (n f)) (defmethod gg0 ((n <integer>) (f <function>)) (+ 1 (funcall f))) (defclass <dc> () ((x :initarg x :accessor acc)))
(defun sort1 (f) (list (funcall f)))`

// deepEndless are programs without end.
var deepEndless = []string{
	"(defmacro em (x) (list 'em x)) (em 1)", "(defmacro em (x) (list 'progn (list 'em x))) (em 1)", "(defmacro em (x) (list 'em x)) (defun emf () (em 1)) (emf)",
	"(defmacro em (x) (list 'em2 x)) (defmacro em2 (x) (list '+ 1 (list 'em x))) (let ((a (em 1))) a)", "(defmacro em (x) (list 'em x)) (macroexpand '(em 1)) (em 1)",
	"(defclass <rc> () ((s :initform (create (class <rc>))))) (create (class <rc>))",
	"(defclass <rc> () ()) (defmethod initialize-object ((x <rc>) &rest (l <object>)) (create (class <rc>))) (create (class <rc>))",
	"(defun h (c) (car 1)) (with-handler #'h (car 1)) (car 1)", "(defun h (c) (with-handler #'h (car 1))) (with-handler #'h (car 1))",
	"(defun h (c) (error \"again\")) (with-handler #'h (error \"first\"))",
	"(defgeneric eg (x)) (defmethod eg ((x <integer>)) (+ 1 (eg x))) (eg 1)", "(defgeneric eg (x)) (defmethod eg ((x <integer>)) (eg 1.5)) (defmethod eg ((x <float>)) (+ 1 (eg 1))) (eg 1)",
	"(defun ev () (eval '(+ 1 (ev)))) (ev)", "(defun ev () (unwind-protect 1 (ev))) (ev)", "(defun ev () (unwind-protect (ev) (ev2))) (defun ev2 () (+ 1 2)) (ev)",
	"(defun mc (x) (mapcar #'mc (list x))) (mc 1)", "(defun mc (x) (mapcan #'mc (list x))) (mc 1)", "(defun mc (x) (maplist #'mc (list x))) (mc 1)", "(defun ap (&rest x) (+ 1 (apply #'ap x))) (ap 1 2)",
	"(defun cu (a b) (cu2)) (defun cu2 () (case-using #'cu 1 ((1) 2) ((3) 4))) (+ 1 (cu2))", "(labels ((f (x) (list (f x)))) (f 1))", "(labels ((f (x) (+ 1 (g x))) (g (x) (+ 1 (f x)))) (f 1))",
	"(let ((f nil)) (setq f (lambda () (+ 1 (funcall f)))) (funcall f))", "(defun bl () (block b (+ 1 (bl)))) (bl)", "(defun tg () (tagbody a (tg) (go a))) (tg)",
	"(defun ld (x) (with-open-input-file (s \"nosuch\") (ld x)) (+ 1 (ld x))) (ld 1)", "(defun lt (x) (let* ((a (lt x))) a)) (lt 1)", "(defmacro lm (x) (lm x)) (lm 1)", "(defun ig () (ignore-errors (+ 1 (ig))) (car 1)) (ig)",
}

type deepCase struct {
	Kind  string `json:"kind"`
	Wraps []int  `json:"wraps,omitempty"`
	Next  []int  `json:"next,omitempty"`
	Depth int    `json:"depth,omitempty"` // -1: endless
	Base  int    `json:"base,omitempty"`
	Guard int    `json:"guard,omitempty"`
	Text  string `json:"text,omitempty"`
	Open  []int  `json:"open,omitempty"`
	Close int    `json:"close,omitempty"`
	Op    int    `json:"op,omitempty"`
}

var deepBases = []string{"0", "(throw 'out 'thrown)", "(car 'a)", "(error \"deep ~a\" 1)", "(nosuchfun)", "nosuchvar"}
var deepGuards = []string{"F", "(ignore-errors F)", "(catch 'out F)", "(catch 'out (with-handler (lambda (c) (throw 'out 'caught)) F))", "(unwind-protect F (setq seen (+ seen 1)))", "(block b (with-handler (lambda (c) (return-from b 'caught)) F))"}

var deepOpen = []string{"(", "'", "`", ",", "#(", "#'", "(quote ", "#1a(", "#2a((", "(a ", "(a . ", "((", "#|x|#("}
var deepClose = []string{")", "", "", "", ")", "", ")", ")", "))", ")", ")", "))", ")"}
var deepCanon = []bool{true, true, true, false, true, false, false, false, false, true, false, true, false}

var deepOps = []string{
	"(format nil \"~s\" dx)", "(format nil \"~a\" dx)", "(equal dx dy)", "(equalp dx dy)", "(eql dx dy)", "(eval dx)", "(convert dx <string>)", "(error \"~a\" dx)", "(+ 1 dx)", "(funcall dx)", "(length dx)", "(append dx dx)", "(format t \"~s\" dx)",
	"(let ((s (create-string-output-stream))) (format s \"~a\" dx) (length (get-output-stream-string s)))", "(eval (list 'quote dx))", "(eval (list 'quasiquote dx))", "(eval (list 'defun 'f nil dx))", "(eval (list 'lambda nil dx))",
	"(mapcar (lambda (x) x) (list dx))", "(member dx (list 1 dx))", "(assoc dx (list (cons dy 1)))", "(car dx)", "(nosuchfun dx)", "(create (class <nosuch>) dx)", "(signal-condition dx nil)", "(catch 'k (with-handler (lambda (c) (throw 'k (format nil \"~a\" c))) (car (vector dx))))",
	"(string-append dx)", "(apply #'list dx)", "(elt dx 0)", "(macroexpand dx)", "(format-object (standard-output) dx t)", "(let ((h (make-hash-table))) (setf (gethash 1 h) dx) (format nil \"~s\" h))", "(format nil \"~s\" (vector dx dx))", "(read (create-string-input-stream (format nil \"~s\" dx)))", "(reverse dx)", "(subseq dx 0 1)", "(case dx ((1) 2) (t 3))", "(defglobal dglob dx)", "(nreverse (list dx))", "(last dx)", "(subst 5 'zz dx)", "(subst dx 1 dx)", "(equal (vector dx) (vector dy))", "(member (list dx) (list 1 (list dy)))",
}

func genDeep(t *rapid.T) deepCase {
	var c deepCase
	switch k := below(t, 100, "kind"); {
	case k < 45:
		c.Kind = "finite"
		c.Depth = []int{between(t, 0, 30, "d"), between(t, 30, 2000, "d"), between(t, 2000, 8000, "d")}[pickOf(t, []int{0, 0, 0, 1, 1, 1, 1, 2}, "dk")]
	case k < 55:
		c.Kind, c.Depth = "endless", -1
	case k < 60:
		c.Kind, c.Op = "program", below(t, len(deepEndless), "program")
		c.Guard = below(t, 2, "guard")
	case k < 80:
		c.Kind = "text"
		c.Depth = []int{between(t, 0, 50, "d"), between(t, 50, 5000, "d"), between(t, 5000, 50000, "d"), between(t, 200000, 400000, "d"), between(t, 1000000, 3000000, "d")}[pickOf(t, []int{0, 0, 0, 1, 1, 1, 2, 3, 4}, "dk")]
		c.Close = below(t, 3, "close")
		c.Op = below(t, 6, "via")
		canon := pct(t, 50)
		for n := between(t, 1, 4, "openers"); len(c.Open) < n; {
			o := below(t, len(deepOpen), "open")
			if !canon || deepCanon[o] {
				c.Open = append(c.Open, o)
			}
		}
		return c
	default:
		c.Kind = "data"
		c.Depth = []int{between(t, 0, 50, "d"), between(t, 50, 5000, "d"), between(t, 5000, 50000, "d"), between(t, 300000, 1000000, "d"), between(t, 3000000, 5000000, "d"), 10000000}[pickOf(t, []int{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 4, 5}, "dk")]
		c.Op = below(t, len(deepOps), "op")
		for n := between(t, 1, 3, "links"); n > 0; n-- {
			c.Open = append(c.Open, below(t, 6, "link"))
		}
		if c.Depth > 5000000 { // only lists fit
			c.Open = []int{pickOf(t, []int{0, 1, 5}, "link")}
			c.Op = pickOf(t, []int{2, 3, 10, 0, len(deepOps) - 4}, "op")
		}
		return c
	}
	n := between(t, 1, 4, "funs")
	for i := 0; i < n; i++ {
		c.Wraps = append(c.Wraps, below(t, len(deepWraps), "wrap"))
		c.Next = append(c.Next, below(t, n, "next"))
	}
	c.Base = pickOf(t, []int{0, 0, 0, 0, 1, 2, 3, 4, 5}, "base")
	c.Guard = pickOf(t, []int{0, 0, 0, 1, 2, 3, 4, 5}, "guard")
	return c
}

// deepProgram gives the definitions, the call, and what the reference says.
func deepProgram(c deepCase) (text string, value int, entered int) {
	var sb strings.Builder
	step := "(- n 1)"
	if c.Depth < 0 {
		step = "n"
	}
	adds := make([]int, len(c.Wraps))
	enters := make([]bool, len(c.Wraps))
	for i, k := range c.Wraps {
		w := deepWraps[k]
		next := "f" + strconv.Itoa(c.Next[i])
		adds[i] = w.add
		body := w.text
		if w.text == "(eval '(+ 1 2))" || strings.Contains(w.text, "R2") {
			body = "(+ 2 R)"
			adds[i] = 2
		}
		if w.text == "(cond ((numberp R) 5))" {
			body, adds[i] = "(+ 3 (cond ((let ((q R)) (and (numberp q) q)))))", 3
		}
		body = strings.ReplaceAll(body, "NAME", next)
		nx := step
		body = strings.ReplaceAll(body, "NEXT", nx)
		body = strings.ReplaceAll(body, "R)", "("+next+" "+nx+"))")
		body = strings.ReplaceAll(body, " R ", " ("+next+" "+nx+") ")
		enters[i] = strings.Contains(body, "(setq ent")
		if c.Depth < 0 {
			fmt.Fprintf(&sb, "(defun f%d (n) %s)\n", i, body)
		} else {
			fmt.Fprintf(&sb, "(defun f%d (n) (if (= n 0) %s %s))\n", i, deepBases[c.Base], body)
		}
	}
	f := 0
	for n := c.Depth; n > 0; n-- {
		value += adds[f]
		if enters[f] {
			entered++
		}
		f = c.Next[f]
	}
	return sb.String(), value, entered
}

func deepNoPanic(w *gmnlisp.World, text string) outcome {
	v, err := w.Interpret(context.Background(), text)
	if err != nil {
		var cn interface {
			error
			ClassOf() gmnlisp.Class
		}
		o := outcome{Err: err}
		if errors.As(err, &cn) {
			o.Class = cn.ClassOf().Name().String()
		}
		return o
	}
	if l, ok := v.(gmnlisp.Integer); ok {
		return outcome{Value: strconv.Itoa(int(l))}
	}
	if s, ok := v.(gmnlisp.Symbol); ok {
		return outcome{Value: s.String()}
	}
	if gmnlisp.IsNone(v) {
		return outcome{Value: "nil"}
	}
	return outcome{Value: "another value"}
}

func deepUsable(w *gmnlisp.World) error {
	for i, p := range probes {
		if i > 6 {
			break
		}
		if got := evalText(context.Background(), w, p[0]); got.Err != nil || got.Value != p[1] {
			return fmt.Errorf("afterwards %s gives %v, expected %s", p[0], got, p[1])
		}
	}
	for _, p := range []string{"(car 1)", "(throw 'k 1)", "(throw 'out 1)", "(return-from b 1)", "(return-from bb 1)", "(go a)"} {
		if got := evalText(context.Background(), w, p); got.Err == nil {
			return fmt.Errorf("afterwards %s gives %s and is no error", p, got.Value)
		}
	}
	if got := evalText(context.Background(), w, "(progn (defun deepf (n) (if (= n 0) 0 (+ 1 (deepf (- n 1))))) (deepf 10000))"); got.Err != nil || got.Value != "10000" {
		return fmt.Errorf("afterwards a recursion of depth 10000 gives %v", got)
	}
	return nil
}

// splitForms cuts a text without parentheses in strings into its lists.
func splitForms(s string) []string {
	var l []string
	depth, from := 0, 0
	for i, c := range s {
		switch c {
		case '(':
			if depth == 0 {
				from = i
			}
			depth++
		case ')':
			if depth--; depth == 0 {
				l = append(l, s[from:i+1])
			}
		}
	}
	return l
}

func runDeep(c deepCase, o *Obs) error {
	w, _ := newWorld()
	o.Label("%s", c.Kind)
	switch c.Kind {
	case "finite", "endless":
		return runDeepCalls(w, c, o)
	case "program":
		p := deepEndless[c.Op]
		o.Sample(p)
		forms := splitForms(p)
		got := outcome{}
		for i, s := range forms {
			if i == len(forms)-1 && c.Guard == 1 {
				s = "(ignore-errors " + s + ")"
			}
			got = deepNoPanic(w, s)
		}
		if c.Guard == 0 && got.Err == nil {
			return fmt.Errorf("%s has no end, but gives %s", p, got.Value)
		}
		o.NonTrivial()
		return deepUsable(w)
	case "text":
		return runDeepText(w, c, o)
	default:
		return runDeepData(w, c, o)
	}
}

func runDeepCalls(w *gmnlisp.World, c deepCase, o *Obs) error {
	defs, value, entered := deepProgram(c)
	if _, err := w.Interpret(context.Background(), deepSetup+"(setq ent 0) (setq cln 0) (setq seen 0)"); err != nil {
		return err
	}
	if _, err := w.Interpret(context.Background(), defs); err != nil {
		return fmt.Errorf("%s: %v", defs, err)
	}
	call := strings.ReplaceAll(deepGuards[c.Guard], "F", "(f0 "+strconv.Itoa(c.Depth)+")")
	text := defs + call
	o.Sample(text)
	got := deepNoPanic(w, call)
	handlers := strings.Contains(defs, "with-handler")
	if c.Depth < 0 {
		switch {
		case c.Guard == 1 || handlers: // some nil, thrown or caught
			if got.Err == nil && got.Value != "nil" && got.Value != "handled" && got.Value != "caught" {
				return fmt.Errorf("%s has no end, but gives %v", text, got)
			}
		case c.Guard == 3 || c.Guard == 5:
			if got.Err != nil || got.Value != "caught" {
				return fmt.Errorf("%s has no end, but gives %v, expected caught", text, got)
			}
		case got.Err == nil || got.Class != "<storage-exhausted>":
			return fmt.Errorf("%s has no end, but gives %v, expected <storage-exhausted>", text, got)
		}
		if n := deepNoPanic(w, "(if (<= (- 0 3) (- ent cln) 3) 'ok (list ent cln))"); n.Value != "ok" {
			return fmt.Errorf("%s: cleanups missing: (ent cln) is %v", text, evalText(context.Background(), w, "(list ent cln)"))
		}
		o.NonTrivial()
		return deepUsable(w)
	}
	// a handler of a frame takes the error
	inHandler := false
	if handlers {
		f := 0
		for n := c.Depth; n > 0; n-- {
			if strings.Contains(deepWraps[c.Wraps[f]].text, "with-handler") {
				inHandler = true
			}
			f = c.Next[f]
		}
	}
	want, class := "", ""
	switch {
	case c.Base == 0:
		want = strconv.Itoa(value)
	case c.Base == 1:
		switch c.Guard {
		case 2, 3:
			want = "thrown"
		default:
			class = "<control-error>"
		}
	default:
		class = []string{"", "", "<domain-error>", "", "<undefined-function>", "<unbound-variable>"}[c.Base]
		if inHandler && (c.Guard == 2 || c.Guard == 3) {
			want = "handled"
		} else if inHandler {
			class = "<control-error>"
		} else if c.Guard == 3 || c.Guard == 5 {
			want = "caught"
		}
	}
	if want == "" && c.Guard == 1 {
		want, class = "nil", ""
	}
	if want == "" && (c.Guard == 5 || c.Guard == 3) {
		want = "caught"
	}
	if c.Base == 1 && inHandler && c.Guard != 2 && c.Guard != 3 {
		// the missing tag is an error whose handler throws again: either way an error
		if want == "" && got.Err == nil {
			return fmt.Errorf("%s gives %v, expected an error", text, got)
		}
	} else if want != "" {
		if got.Err != nil || got.Value != want {
			return fmt.Errorf("%s gives %v, expected %s", text, got, want)
		}
	} else if got.Err == nil || class != "" && got.Class != class {
		if !(class == "<control-error>" && got.Err != nil) {
			return fmt.Errorf("%s gives %v, expected %s", text, got, class)
		}
	}
	if n := evalText(context.Background(), w, "(list ent cln)"); n.Value != fmt.Sprintf("(%d %d)", entered, entered) {
		return fmt.Errorf("%s: (ent cln) is %v, expected %d of both", text, n, entered)
	}
	if c.Depth > 20 {
		o.NonTrivial()
		o.Label("depth over %d", map[bool]int{false: 20, true: 1000}[c.Depth > 1000])
	}
	if c.Base > 0 {
		o.Label("left by %s", deepBases[c.Base])
	}
	return deepUsable(w)
}

func runDeepText(w *gmnlisp.World, c deepCase, o *Obs) error {
	var sb, tail strings.Builder
	var closes []string
	canon := true
	for i := 0; i < c.Depth; i++ {
		k := c.Open[i%len(c.Open)]
		sb.WriteString(deepOpen[k])
		canon = canon && deepCanon[k]
		closes = append(closes, deepClose[k])
	}
	sb.WriteString("a")
	for i := len(closes) - 1; i >= 0; i-- {
		tail.WriteString(closes[i])
	}
	t := tail.String()
	whole := c.Close > 0 || t == ""
	if !whole {
		t = t[:len(t)/2]
	}
	text := sb.String() + t
	if len(text) < 300 {
		o.Sample(text)
	} else {
		o.Sample(fmt.Sprintf("%s… nested %d deep", text[:40], c.Depth))
	}
	if strings.Contains(text, "\"") {
		return nil
	}
	var got outcome
	via := []string{"QUOTE", "READ", "EVAL", "IN"}[c.Op%4]
	ww := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("dtext"): gmnlisp.String(text)})
	switch via {
	case "QUOTE":
		got = deepNoPanic(ww, "'"+text)
	case "READ":
		got = deepNoPanic(ww, "(read (create-string-input-stream dtext))")
	case "EVAL":
		got = deepNoPanic(ww, text)
	default:
		got = deepNoPanic(ww, "(list 1 '"+text+")")
	}
	if !whole && got.Err == nil && via != "READ" {
		return fmt.Errorf("the unfinished text %.200s… nested %d deep gives %v", text, c.Depth, got)
	}
	if whole && via != "EVAL" && c.Depth <= 50000 {
		if got.Err != nil {
			return fmt.Errorf("the text %.200s… nested %d deep: %.300s", text, c.Depth, got)
		}
		if canon {
			v, err := ww.Interpret(context.Background(), "(format nil \"~s\" (read (create-string-input-stream dtext)))")
			if err != nil {
				return fmt.Errorf("the text %.200s… nested %d deep: %.300s", text, c.Depth, err.Error())
			}
			if s, ok := v.(gmnlisp.String); !ok || string(s) != text {
				return fmt.Errorf("the text %.200s nested %d deep is read and printed as %.200s", text, c.Depth, v.String())
			}
			o.Label("printed again")
		}
	}
	if c.Depth > 50 {
		o.NonTrivial()
	}
	return deepUsable(w)
}

func runDeepData(w *gmnlisp.World, c deepCase, o *Obs) error {
	build := func() gmnlisp.Node {
		var x gmnlisp.Node = gmnlisp.NewSymbol("a")
		if c.Open[0] == 0 {
			x = gmnlisp.Null
		}
		q, bq := gmnlisp.NewSymbol("quote"), gmnlisp.NewSymbol("quasiquote")
		for i := 0; i < c.Depth; i++ {
			switch c.Open[i%len(c.Open)] {
			case 0:
				x = &gmnlisp.Cons{Car: gmnlisp.Integer(1), Cdr: x}
				if len(c.Open) > 1 {
					x = &gmnlisp.Cons{Car: x, Cdr: gmnlisp.Null}
				}
			case 1:
				x = &gmnlisp.Cons{Car: x, Cdr: gmnlisp.Null}
			case 2:
				x = gmnlisp.NewVector(context.Background(), w, x)
			case 3:
				x = &gmnlisp.Cons{Car: q, Cdr: &gmnlisp.Cons{Car: x, Cdr: gmnlisp.Null}}
			case 4:
				x = &gmnlisp.Cons{Car: bq, Cdr: &gmnlisp.Cons{Car: x, Cdr: gmnlisp.Null}}
			default:
				x = &gmnlisp.Cons{Car: x, Cdr: gmnlisp.Integer(2)}
			}
		}
		return x
	}
	x := build()
	y := x
	if c.Depth < 5000000 {
		y = build()
	}
	ww := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("dx"): x, gmnlisp.NewSymbol("dy"): y})
	op := deepOps[c.Op]
	o.Sample(fmt.Sprintf("%s with dx nested %d deep by links %v", op, c.Depth, c.Open))
	got := deepNoPanic(ww, op)
	if got.Err != nil {
		_ = got.Err.Error()
	}
	if op == "(equal dx dy)" || op == "(equalp dx dy)" {
		if got.Err != nil || got.Value == "nil" {
			return fmt.Errorf("%s of equal values nested %d deep by links %v gives %.200s", op, c.Depth, c.Open, got)
		}
		o.Label("compared")
	}
	if strings.HasPrefix(op, "(format nil \"~") && c.Depth <= 50000 {
		if got.Err != nil {
			return fmt.Errorf("%s of a value nested %d deep by links %v gives %.200s", op, c.Depth, c.Open, got)
		}
		o.Label("printed")
	}
	if c.Depth > 50 {
		o.NonTrivial()
	}
	return deepUsable(w)
}

func initDeepProps() {
	reg("C23", "deep", 400, 20000, "the nesting was deeper than 20 calls, or 50 brackets or links", genDeep, runDeep)
}
