package main

// C24: cancelling the context stops any evaluation promptly, and only then.

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// program ---------------------------------------------------------------------

type cancelCase struct {
	Prog Program `json:"prog"`
	// At says where to cancel: the event or the look with this share of all
	At    []int `json:"at"` // per mille
	Looks bool  `json:"looks"`
}

var cancelWeights = weights{"catch": 4, "block": 4, "return-from": 2, "throw": 2, "go": 2, "tagbody": 2, "loop": 4, "with-handler": 3, "error-op": 1, "ignore-errors": 3,
	"dynamic-let": 2, "set-dynamic": 2, "mapc": 4, "mapcar": 4, "lambda": 4, "call": 6, "funcall": 4, "apply": 3, "tr": 5, "rec": 4, "macro": 3, "local-fun": 3, "stmt-expr": 4}

var (
	cancelCfg      = progCfg{w: with(cancelWeights, weights{"unwind-protect": 4}), depth: 6, funs: 3, macros: 2, dyns: true, mains: 2, recFuns: true}
	cancelLooksCfg = progCfg{w: with(cancelWeights, weights{"unwind-protect": 0}), depth: 6, funs: 3, macros: 2, dyns: true, mains: 2, recFuns: true}
)

func genCancel(looks bool) func(t *rapid.T) cancelCase {
	return func(t *rapid.T) cancelCase {
		c := cancelCase{Looks: looks}
		if looks {
			c.Prog = genProgram(t, cancelLooksCfg)
		} else {
			c.Prog = genProgram(t, cancelCfg)
		}
		for n := between(t, 1, 3, "points"); n > 0; n-- {
			c.At = append(c.At, between(t, 0, 1000, "at"))
		}
		return c
	}
}

// eventID: what cleanup forms compute may depend on assignments that the
// cancellation may or may not have prevented.
func eventID(ev string) string { return ev[:strings.IndexByte(ev, '=')] }

// defining forms are evaluated without cancelling.
func isDef(s string) bool { return strings.HasPrefix(s, "(def") }

func runCancel(c cancelCase, o *Obs) error {
	o.Sample(strings.Join(c.Prog.Forms, "\n") + fmt.Sprintf("\n; cancelled at %v", c.At))
	// without cancelling
	w, _ := newWorld()
	base := newRef(refFuel)
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	ctx := newCountCtx(lookFuel)
	type rec struct{ ev, looks int }
	marks := []rec{{}}
	var outs []outcome
	for i, text := range c.Prog.Forms {
		forms, err := readAllV(text)
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		_, _, stopped := base.top(forms[0])
		if stopped != "" {
			o.Label("stopped: %s", stopped)
			c.Prog.Forms = c.Prog.Forms[:i]
			break
		}
		outs = append(outs, evalText(ctx, w, text))
		marks = append(marks, rec{len(sk.trace), ctx.looks})
		if d := diffSeq(base.trace, sk.trace); d != "" {
			return fmt.Errorf("form %d without cancelling: effects differ: %s", i, d)
		}
	}
	full := sk.trace
	signals := base.feats["signal"] > 0
	for _, at := range c.At {
		for fi, text := range c.Prog.Forms {
			if isDef(text) {
				continue
			}
			if c.Looks && strings.Contains(strings.Join(c.Prog.Forms, " "), "unwind-protect") {
				o.Label("left out")
				continue
			}
			if c.Looks {
				n := marks[fi+1].looks - marks[fi].looks
				if err := cancelAtLook(c.Prog.Forms[:fi+1], at*(n-1)/1000, full[:marks[fi+1].ev], outs[fi], signals, o); err != nil {
					return err
				}
				o.NonTrivial()
				continue
			}
			n := marks[fi+1].ev - marks[fi].ev
			if n == 0 {
				continue
			}
			if err := cancelAtEvent(c.Prog.Forms[:fi+1], marks[fi].ev+1+at*(n-1)/1000, outs[fi], o); err != nil {
				return err
			}
		}
	}
	return nil
}

// cancelAtLook cancels the evaluation of the last form after k looks at the
// context; the programs have no cleanup forms.
func cancelAtLook(forms []string, k int, full []string, uncancelled outcome, signals bool, o *Obs) error {
	w, _ := newWorld()
	sk := &sink{}
	curSink = sk
	last := len(forms) - 1
	for _, f := range forms[:last] {
		evalText(context.Background(), w, f)
	}
	stopAt := -1
	ctx := newCountCtx(k)
	ctx.onDone = func() { stopAt = len(sk.trace) }
	got := evalText(ctx, w, forms[last])
	where := fmt.Sprintf("\n  %s\n  cancelled after %d looks at the context: %v", strings.Join(forms, "\n  "), k, got)
	if stopAt < 0 {
		o.Label("not cancelled")
		return nil
	}
	// calls begun before may still be made: the enclosing ones
	if n := len(sk.trace) - stopAt; n > 0 && n <= 2 && diffSeq(sk.trace, full[:min(len(sk.trace), len(full))]) == "" {
		o.Label("begun before")
	} else if n > 0 {
		return fmt.Errorf("%d events happen after the cancellation (%s)%s", len(sk.trace)-stopAt, sk.trace[stopAt], where)
	}
	if d := diffSeq(sk.trace, full); d != "" && !strings.HasPrefix(d, "additional") {
		return fmt.Errorf("the events before the cancellation differ: %s%s", d, where)
	}
	if got.Err == nil {
		if uncancelled.Err == nil && got.Value == uncancelled.Value && len(sk.trace) == len(full) {
			o.Label("cancelled at the end")
			return nil
		}
		return fmt.Errorf("the cancelled evaluation gives a value%s", where)
	}
	if !errors.Is(got.Err, context.Canceled) {
		if !signals {
			return fmt.Errorf("the error of the cancelled evaluation is not the context's%s", where)
		}
		o.Label("failed by itself while cancelled")
	}
	o.Label("cancelled at a look")
	return afterCancel(w, o, where)
}

// cancelAtEvent cancels the evaluation of the last form from within event n.
func cancelAtEvent(forms []string, n int, uncancelled outcome, o *Obs) error {
	r := newRef(refFuel)
	r.cancelAt = n
	var rv V
	var rc *Cond
	stopped := ""
	for _, f := range forms {
		v, err := readAllV(f)
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		rv, rc, stopped = r.top(v[0])
	}
	if stopped != "" && stopped != "cancelled" {
		o.Label("stopped: %s", stopped)
		return nil
	}
	w, _ := newWorld()
	sk := &sink{}
	curSink = sk
	last := len(forms) - 1
	for _, f := range forms[:last] {
		evalText(context.Background(), w, f)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sk.onTr = func(string) {
		if len(sk.trace) == n {
			cancel()
		}
	}
	got := evalText(ctx, w, forms[last])
	where := fmt.Sprintf("\n  %s\n  cancelled in event %d (%s): %v\n  expected trace %v (%v: begun before)\n  actual   trace %v", strings.Join(forms, "\n  "), n, r.trace[n-1], got,
		tailFrom(r.trace, n-1), r.pending, tailFrom(sk.trace, n-1))
	if len(sk.trace) < n {
		return fmt.Errorf("the event is missing%s", where)
	}
	// the events after it: those of cleanup forms must happen, the rest of
	// operations begun before may
	i := n
	for k, ev := range sk.trace[n:] {
		for i < len(r.trace) && eventID(r.trace[i]) != eventID(ev) && r.pending[i-n] {
			i++
		}
		if i == len(r.trace) || eventID(r.trace[i]) != eventID(ev) {
			return fmt.Errorf("event %s (number %d after the cancellation) must not happen%s", ev, k, where)
		}
		i++
	}
	for ; i < len(r.trace); i++ {
		if !r.pending[i-n] {
			return fmt.Errorf("the event %s of a cleanup form is missing%s", r.trace[i], where)
		}
	}
	switch {
	case stopped == "cancelled":
		if got.Err == nil {
			return fmt.Errorf("the cancelled evaluation gives a value%s", where)
		}
		if !errors.Is(got.Err, context.Canceled) && !r.anyError {
			return fmt.Errorf("the error of the cancelled evaluation is not the context's%s", where)
		}
		o.Label("cancelled")
		if r.feats["cleanup on exit"] > 0 {
			o.Label("with cleanup forms")
		}
		o.NonTrivial()
	case got.Err != nil && errors.Is(got.Err, context.Canceled):
		o.Label("cancelled at the end")
	case rc != nil:
		if got.Err == nil {
			return fmt.Errorf("expected an error%s", where)
		}
	default:
		if got.Err != nil || got.Value != show(rv) {
			return fmt.Errorf("the evaluation that ends in the event gives not %s%s", show(rv), where)
		}
		o.Label("ended in the event")
	}
	return afterCancel(w, o, where)
}

func afterCancel(w *gmnlisp.World, o *Obs, where string) error {
	curSink = nil
	for _, p := range probes[:7] {
		got := evalText(context.Background(), w, p[0])
		if got.Err != nil || got.Value != p[1] {
			return fmt.Errorf("afterwards %s gives %v, expected %s%s", p[0], got, p[1], where)
		}
	}
	for _, p := range probesMustFail {
		if got := evalText(context.Background(), w, p); got.Err == nil {
			return fmt.Errorf("afterwards %s gives %s and is no error%s", p, got.Value, where)
		}
	}
	return nil
}

// endless ---------------------------------------------------------------------

type endlessCase struct {
	Core     int    `json:"core"`
	Barriers []int  `json:"barriers"` // from the inside
	Mode     string `json:"mode"`     // looks, event, deadline, goroutine
	N        int    `json:"n"`
	Again    int    `json:"again"`
}

const endlessSetup = `(defdynamic dy 0)
(defgeneric gcall (f)) (defmethod gcall ((f <function>)) (funcall f))
(defun fcall (f) (funcall f))
(defun rcall (f &rest r) (apply f r))
(defmacro mwrap (b) (list 'let (list (list 'mw 1)) b))
(defgeneric gloop (n)) (defmethod gloop ((n <integer>)) (tr 'e n) (gloop (+ n 1)))
(defgeneric gquiet (n)) (defmethod gquiet ((n <integer>)) (gquiet n))
(defgeneric gquiet2 (n)) (defmethod gquiet2 ((n <integer>)) n 1 t)
(defun floop (n) (tr 'e n) (floop (+ n 1)))
(defun fdeep (n) (tr 'e n) (+ 1 (fdeep n)))
(defun feven (n) (if (= n -1) 0 (fodd (+ n 1)))) (defun fodd (n) (tr 'e n) (feven (+ n 1)))`

// cores do not end by themselves; the second is whether they signal errors
// that an outer handler would see
var endlessCores = []struct {
	text    string
	signals bool
}{
	{"(while t (tr 'e 1))", false},
	{"(while t)", false},
	{"(while 1 nil)", false},
	{"(labels ((lp (n) (tr 'e n) (lp (+ n 1)))) (lp 0))", false},
	{"(labels ((lp () (lp))) (lp))", false},
	{"(labels ((la (n) (lb n)) (lb (n) (tr 'e n) (la n))) (la 0))", false},
	{"(labels ((lp (n) (cond ((= n -1) 0) (t (let ((m (+ n 1))) (lp m)))))) (lp 0))", false},
	{"(labels ((lp (n) (let* ((m n)) (progn (if m (lp m) 1))))) (lp 0))", false},
	{"(labels ((lp (&rest r) (apply #'lp r))) (lp 1 2))", false},
	{"(labels ((lp (n) (funcall #'lp n))) (lp 1))", false},
	{"(labels ((lp (n) (+ 1 (lp n)))) (lp 0))", false},
	{"(floop 0)", false},
	{"(fdeep 0)", false},
	{"(feven 0)", false},
	{"(gloop 0)", false},
	{"(gquiet 0)", false},
	{"(while t (gquiet2 0))", false},
	{"(tagbody a (tr 'e 1) (go a))", false},
	{"(tagbody a (go b) b (go a))", false},
	{"(for ((i 0 (+ i 1))) (nil) (tr 'e i))", false},
	{"(for () (nil))", false},
	{"(dotimes (i 100000000) (tr 'e i))", false},
	{"(dotimes (i 100000000) nil)", false},
	{"(dolist (x (create-list 30000 1)) (tr 'e x))", false},
	{"(mapc (lambda (x) (tr 'e x)) (create-list 30000 1))", false},
	{"(mapcar #'car (create-list 60000 '(1)))", false},
	{"(mapcar #'list (create-list 60000 '(1)))", false},
	{"(mapcan (lambda (x) (list (tr 'e x))) (create-list 10000 1))", false},
	{"(maplist (lambda (x) (tr 'e 1)) (create-list 10000 1))", false},
	{"(let ((lp nil)) (setq lp (lambda () (funcall lp))) (funcall lp))", false},
	{"(while t (catch 'k (tr 'e 1) (throw 'k 1)))", false},
	{"(while t (block b (return-from b 1)))", false},
	{"(while t (ignore-errors (car 1)))", true},
	{"(while t (ignore-errors (tr 'e 2) (error \"x\")))", true},
	{"(while t (block b (with-handler (lambda (c) (return-from b (tr 'e 1))) (error \"x\"))))", false},
	{"(while t (with-handler (lambda (c) (continue-condition c 5)) (+ 1 (cerror \"x\" \"y\"))))", false},
	{"(while t (with-handler (lambda (c) (continue-condition c 5)) (/ 1 0)))", false},
	{"(while t (unwind-protect 1 2))", false},
	{"(while t (mapcar #'car '((1) (2))))", false},
	{"(while t (eval '(tr 'e 1)))", false},
	{"(while t (dynamic-let ((dy 5)) (tr 'e (dynamic dy))))", false},
	{"(labels ((lp (n) (dynamic-let ((dy n)) (lp (+ n 1))))) (lp 0))", false},
	{"(while t (let ((v (vector 1 2))) (setf (elt v 0) 3) (elt v 0)))", false},
	{"(while t (read-char (create-string-input-stream \"ab\")))", false},
	{"(while t (format nil \"~a\" 1))", false},
	{"(while t (setq zz 1))", false},
	{"(while t (+ 1 2))", false},
	{"(while t #'car)", false},
	{"(while t (case (tr 'e 1) ((1) 2) (t 3)))", false},
	{"(while t `(1 ,(tr 'e 2)))", false},
	{"(while t (mwrap (tr 'e 3)))", false},
	{"(while t (convert 65 <character>))", false},
	{"(while (not (car '(nil))) (incf zz))", false},
}

// barriers wrap %s; the number is unique in the case.
var endlessBarriers = []string{
	"(ignore-errors %s)",
	"(block bh%[2]d (with-handler (lambda (c) (tr 'h 1) (return-from bh%[2]d 1)) %[1]s))",
	"(catch 'c (with-handler (lambda (c) (throw 'c (tr 'h 2))) %s))",
	"(catch 'k %s)",
	"(block b %s)",
	"(unwind-protect %s (tr 'cl %d))",
	"(unwind-protect (progn %s) (dolist (x '(1 2)) (tr 'cl %[2]d)))",
	"(unwind-protect %s (if t (tr 'cl %d)) (let ((x (catch 'k (throw 'k 1)))) (tr 'cl %[2]d)))",
	"(dynamic-let ((dy %[2]d)) %[1]s)",
	"(dynamic-let ((dy %[2]d)) (unwind-protect %[1]s (tr 'dy (dynamic dy))))",
	"(let ((x 1)) %s)",
	"(let* ((x 1) (y %s)) y)",
	"(funcall (lambda () %s))",
	"((lambda (x) x) %s)",
	"(flet ((fl () %s)) (fl))",
	"(labels ((fl (n) (if (= n 0) %s (fl (- n 1))))) (fl 2))",
	"(tagbody %s end)",
	"(mapcar (lambda (x) %s) '(1 2))",
	"(mapc (lambda (x) %s) '(1 2))",
	"(maplist (lambda (x) %s) '(1 2))",
	"(with-standard-input (create-string-input-stream \"abc\") %s)",
	"(list 1 %s)",
	"(if %s 1 2)",
	"(cond (%s 1) (t 2))",
	"(cond (nil 1) (t %s))",
	"(progn %s (tr 'after 1))",
	"(list %s (tr 'after 2))",
	"(while %s (tr 'after 3))",
	"(fcall (lambda () %s))",
	"(rcall (lambda (a b) %s) 1 2)",
	"(gcall (lambda () %s))",
	"(mwrap %s)",
	"(setq zz %s)",
	"(case %s ((1) 1) (t 2))",
	"(apply (lambda () %s) nil)",
	"(and %s (tr 'after 4))",
	"(or %s (tr 'after 5))",
	"(dotimes (i 3) %s)",
	"(setf (car (list 1)) %s)",
	"`(1 ,%s)",
	"(eval '%s)",
	"(the <object> %s)",
	"(prog1 %s (tr 'after 6))",
}

var endlessModes = []string{"looks", "looks", "event", "event", "deadline", "goroutine", "reason"}

func genEndless(t *rapid.T) endlessCase {
	c := endlessCase{Core: below(t, len(endlessCores), "core"), Mode: pickOf(t, endlessModes, "mode"), N: between(t, 0, 60, "n"), Again: between(t, 0, 30, "again")}
	if pct(t, 20) {
		c.N *= 40
	}
	for n := between(t, 0, 5, "nbarriers"); n > 0; n-- {
		b := below(t, len(endlessBarriers), "barrier")
		if endlessCores[c.Core].signals && strings.Contains(endlessBarriers[b], "with-handler") {
			continue
		}
		c.Barriers = append(c.Barriers, b)
	}
	return c
}

var errHostStop = errors.New("stopped by the host")

func runEndless(c endlessCase, o *Obs) error {
	core := endlessCores[c.Core].text
	form := core
	var clean []string // the expected events of cleanup forms
	for i, bi := range c.Barriers {
		b := endlessBarriers[bi]
		n := i + 1
		if strings.Contains(b, "%[2]d") || strings.Contains(b, "%d") {
			form = fmt.Sprintf(b, form, n)
		} else {
			form = fmt.Sprintf(b, form)
		}
		for k := strings.Count(b, "(tr 'cl") + strings.Count(b, "(dolist"); k > 0; k-- {
			clean = append(clean, fmt.Sprintf("cl=%d", n))
		}
		if strings.Contains(b, "(tr 'dy") {
			clean = append(clean, fmt.Sprintf("dy=%d", n))
		}
	}
	o.Sample(fmt.Sprintf("%s %d: %s", c.Mode, c.N, form))
	w, _ := newWorld()
	bg := context.Background()
	if _, err := w.Interpret(bg, endlessSetup); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if _, err := w.Interpret(bg, "(let ((zz 0)) (defun zztop () zz))"); err != nil {
		return err
	}
	form = "(let ((zz 0)) " + form + ")"
	hasEvents := strings.Contains(core, "(tr 'e") || strings.Contains(core, "loop 0") || strings.Contains(core, "(fdeep") || strings.Contains(core, "(feven")
	for round, n := range []int{c.N, c.Again} {
		mode := c.Mode
		if round > 0 {
			mode = "looks"
		}
		if mode == "event" && !hasEvents {
			mode = "looks"
		}
		if (mode == "deadline" || mode == "goroutine") && strings.Contains(core, "create-list") {
			mode = "looks"
		}
		sk := &sink{}
		curSink = sk
		stopAt := -1
		var ctx context.Context
		want := context.Canceled
		cleanup := func() {}
		switch mode {
		case "event":
			cc, cancel := context.WithCancel(bg)
			ctx, cleanup = cc, cancel
			sk.onTr = func(string) {
				if len(sk.trace) == n+1 {
					stopAt = len(sk.trace)
					cancel()
				}
			}
		case "deadline":
			cc, cancel := context.WithTimeout(bg, time.Duration(200+n*20)*time.Microsecond)
			ctx, cleanup, want = cc, cancel, context.DeadlineExceeded
		case "goroutine":
			cc, cancel := context.WithCancel(bg)
			ctx, cleanup = cc, cancel
			time.AfterFunc(time.Duration(100+n*20)*time.Microsecond, cancel)
		default:
			cc := newCountCtx(n)
			cc.onDone = func() { stopAt = len(sk.trace) }
			if mode == "reason" {
				cc.reason, want = errHostStop, errHostStop
			}
			ctx = cc
		}
		got := evalText(ctx, w, form)
		cleanup()
		curSink = nil
		where := fmt.Sprintf("\n  %s\n  %s %d, round %d: %v\n  events %v", form, mode, n, round, got, tailFrom(sk.trace, max(len(sk.trace)-40, 0)))
		if got.Err == nil {
			return fmt.Errorf("the cancelled evaluation gives a value%s", where)
		}
		if !errors.Is(got.Err, want) {
			return fmt.Errorf("the error of the cancelled evaluation is not the context's%s", where)
		}
		// the events: those of the core, then those of the cleanup forms
		ev := sk.trace
		i := 0
		for i < len(ev) && strings.HasPrefix(ev[i], "e=") {
			i++
		}
		if stopAt >= 0 && i > stopAt {
			return fmt.Errorf("the loop goes on for %d events after the cancellation%s", i-stopAt, where)
		}
		exp := clean
		if stopAt >= 0 && mode != "event" && n < 25*len(c.Barriers)+25 && strings.Join(ev[i:], " ") != strings.Join(clean, " ") {
			// cancelled before all the cleanup forms were established
			if len(ev[i:]) > len(clean) {
				return fmt.Errorf("too many events of cleanup forms%s", where)
			}
			exp = clean[len(clean)-len(ev[i:]):]
			o.Label("cancelled on the way in")
		}
		if d := diffSeq(exp, ev[i:]); d != "" && !(mode == "deadline" || mode == "goroutine") {
			return fmt.Errorf("cleanup forms: %s%s", d, where)
		} else if d != "" {
			if len(ev[i:]) > len(clean) || diffSeq(clean[len(clean)-len(ev[i:]):], ev[i:]) != "" {
				return fmt.Errorf("cleanup forms: %s%s", d, where)
			}
		}
		if got := evalText(bg, w, "(list (dynamic dy) (zztop))"); got.Err != nil || got.Value != "(0 0)" {
			return fmt.Errorf("afterwards the dynamic variable and the variable are %v%s", got, where)
		}
		if err := afterCancel(w, o, where); err != nil {
			return err
		}
		o.Label("mode %s", mode)
	}
	o.Label("barriers: %d", len(c.Barriers))
	if len(c.Barriers) > 0 {
		o.NonTrivial()
	}
	return nil
}

func initCancelProps() {
	reg("C24", "program-events", 20000, 600000, "a generated program was cancelled from within one of its events and stopped", genCancel(false), runCancel)
	reg("C24", "program-looks", 12000, 400000, "a generated program was cancelled at one of its looks at the context", genCancel(true), runCancel)
	reg("C24", "endless", 15000, 500000, "an endless evaluation inside at least one construct was cancelled", genEndless, runEndless)
}

// C06: the cleanup forms of a cancelled evaluation.
var cancelCleanupCfg = progCfg{w: weights{"unwind-protect": 12, "block": 3, "catch": 3, "return-from": 3, "throw": 2, "go": 2, "tagbody": 2, "loop": 4, "with-handler": 3, "ignore-errors": 3, "error-op": 1,
	"dynamic-let": 2, "tr": 6, "call": 6, "lambda": 4, "mapcar": 3, "local-fun": 3}, depth: 6, funs: 3, mains: 2, methods: 20}

func initCancelCleanupProps() {
	reg("C06", "cancelled", 15000, 400000, "an evaluation was cancelled inside of an unwind-protect and its cleanup forms ran",
		func(t *rapid.T) cancelCase {
			c := cancelCase{Prog: genProgram(t, cancelCleanupCfg)}
			for n := between(t, 2, 4, "points"); n > 0; n-- {
				c.At = append(c.At, between(t, 0, 1000, "at"))
			}
			return c
		},
		func(c cancelCase, o *Obs) error {
			err := runCancel(c, o)
			o.nontrivial = o.labels["with cleanup forms"] > 0
			return err
		})
}
