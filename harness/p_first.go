package main

// C24: an interpreter whose very first evaluations were cancelled is complete.

import (
	"context"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type firstCut struct {
	Looks int    `json:"looks"`
	Via   int    `json:"via"`
	Text  string `json:"text"`
}

type firstCase struct {
	Cuts []firstCut `json:"cuts"`
	Prog Program    `json:"prog"`
	Pick []int      `json:"pick"`
}

// firstProbes use what is defined in Lisp at startup and on first use.
var firstProbes = [][2]string{
	{`(catch 'k (with-handler (lambda (c) (throw 'k (list (instancep c (class <simple-error>)) (simple-error-format-string c) (simple-error-format-arguments c)))) (error "e ~a" 1)))`, `(t "e ~a" (1))`},
	{`(let ((s (create-string-output-stream))) (catch 'k (with-handler (lambda (c) (report-condition c s) (throw 'k 1)) (error "n ~a" 5))) (get-output-stream-string s))`, `"n 5"`},
	{`(progn (set-property 'v 'fsym 'p) (set-property 'w 'fsym 'q) (list (property 'fsym 'p) (property 'fsym 'q)))`, `(v w)`},
	{`(progn (set-property 'v 'fsym2 'p) (set-property 'w 'fsym2 'q) (remove-property 'fsym2 'p) (list (ignore-errors (property 'fsym2 'p)) (property 'fsym2 'q)))`, `(nil w)`},
	{`(with-handler (lambda (c) (continue-condition c 7)) (+ 1 (cerror "go on" "e ~a" 1)))`, `8`},
	{`(let ((x (list 1 2)) (n 0)) (setf (car x) 5) (incf (car x)) (dolist (y x) (setq n (+ n y))) (dotimes (i 3) (setq n (+ n i))) (for ((i 0 (+ i 1))) ((> i 2) (list n x)) (setq n (+ n i))))`, `(14 (6 2))`},
	{`(list (case-using #'eql 'b ((a) 1) ((b) 2)) (when 1 2) (unless nil 3) (prog1 1 2) (first '(1 2)) (nth 1 '(1 2)) (max 1 2) (1+ 3) (cadr '(1 2)))`, `(2 2 3 1 1 2 2 4 2)`},
	{`(progn (defclass <fc> () ((a :initarg a :accessor fca :initform 3))) (defgeneric fg (x)) (defmethod fg ((x <fc>)) (fca x)) (fg (create (class <fc>))))`, `3`},
	{`(list (subclassp (class <simple-error>) (class <error>)) (subclassp (class <integer>) (class <number>)))`, `(t t)`},
	{`(let ((h (make-hash-table))) (setf (gethash 'a h) 1) (list (gethash 'a h) (format nil "~a" "x")))`, `(1 "x")`},
}

var firstTexts = []string{"1", "(+ 1 2)", "(error \"x\")", "(set-property 1 'a 'b)", "(dolist (x '(1 2)) x)", "(defun ff (x) (when x 1)) (ff 1)", "(let ((x (list 1))) (incf (car x)))", "(report-condition (create (class <simple-error>) 'format-string \"a\" 'format-arguments nil) (standard-output))", "", "(for ((i 0 (+ i 1))) (nil) i)", "(while t 1)", "(property 'a 'b)", "(unwind-protect (while t (dotimes (i 3) i)) (when 1 2))"}

func genFirst(t *rapid.T) firstCase {
	var c firstCase
	for n := between(t, 1, 4, "cuts"); n > 0; n-- {
		k := below(t, 60, "looks")
		if pct(t, 50) {
			k = below(t, 8, "few")
		}
		c.Cuts = append(c.Cuts, firstCut{k, below(t, 6, "via"), pickOf(t, firstTexts, "text")})
	}
	for n := between(t, 2, 5, "probes"); n > 0; n-- {
		c.Pick = append(c.Pick, below(t, len(firstProbes), "probe"))
	}
	if pct(t, 40) {
		c.Prog = genProgram(t, cancelCleanupCfg)
	}
	return c
}

func runFirst(c firstCase, o *Obs) error {
	w, out := newWorld()
	cancelled := 0
	var hist []string
	for _, k := range c.Cuts {
		ctx := newCountCtx(k.Looks)
		var err error
		var v gmnlisp.Node
		switch k.Via {
		case 1:
			v, err = w.InterpretBytes(ctx, []byte(k.Text))
		case 2:
			var ns []gmnlisp.Node
			if ns, err = gmnlisp.ReadAll(strings.NewReader(k.Text)); err == nil {
				v, err = w.InterpretNodes(ctx, ns)
			}
		case 3:
			v, err = w.Let(gmnlisp.Variables{}).Interpret(ctx, k.Text)
		case 4:
			v, err = w.Flet(gmnlisp.Functions{}).Interpret(ctx, k.Text)
		case 5:
			var ns []gmnlisp.Node
			if ns, err = gmnlisp.ReadAll(strings.NewReader(k.Text)); err == nil && len(ns) > 0 {
				v, err = w.Eval(ctx, ns[0])
			}
		default:
			v, err = w.Interpret(ctx, k.Text)
		}
		hist = append(hist, fmt.Sprintf("%d looks: %s", k.Looks, k.Text))
		if ctx.cancelled() {
			cancelled++
		}
		_ = v
		_ = err
	}
	out.Reset()
	o.Sample(strings.Join(hist, "\n"))
	o.Label("cancelled %d", cancelled)
	for _, i := range c.Pick {
		p := firstProbes[i]
		if got := evalText(context.Background(), w, p[0]); got.Err != nil || got.Value != p[1] {
			return fmt.Errorf("after %s\n  %s gives %v, expected %s", strings.Join(hist, "; "), p[0], got, p[1])
		}
	}
	if out.Len() > 0 {
		return fmt.Errorf("after %s: output %q", strings.Join(hist, "; "), out.String())
	}
	if len(c.Prog.Forms) > 0 {
		if err := runProgramIn(w, out, c.Prog, o, progOpts{}); err != nil {
			return fmt.Errorf("after %s: %w", strings.Join(hist, "; "), err)
		}
	}
	if cancelled > 0 {
		o.NonTrivial()
	}
	return nil
}

func initFirstProps() {
	reg("C24", "first-evaluations", 8000, 300000,
		"the first one to four evaluations of an interpreter, through every entry point, cancelled after 0 to 60 looks; then what is defined at startup and on first use must be there and programs behave like on the reference; non-trivial: an evaluation was cancelled",
		genFirst, runFirst)
}
