package main

// C23: no program crashes the host, and the interpreter stays usable.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

var crashFuncs = strings.Fields(`* + - / /= < <= = > >= abort append apply aref arithmetic-error-operands arithmetic-error-operation array-dimensions assoc assure atom basic-array*-p basic-array-p car cdr ceiling char-index char/= char< char<= char= char> char>= characterp class-of close clrhash cons consp convert create create-array create-list create-string create-string-input-stream create-string-output-stream domain-error-expected-class domain-error-object elt eq eql equal equalp error-output eval evenp file-length floatp floor format format-char format-float format-integer format-object funcall functionp general-array*-p generic-function-p gensym get-internal-real-time get-internal-run-time get-output-stream-string get-universal-time gethash gmn:dump-session hash-table-count instancep integerp internal-time-units-per-second last length list listp load macroexpand make-hash-table mapc mapcan mapcar mapcon mapl maplist member minusp mod not nreverse null numberp oddp open-input-file open-output-file parse-number plusp probe-file quit read read-char read-line rem remhash rest reverse round set-aref set-car set-cdr set-gethash signal-condition sqrt standard-input standard-output string-append string-index string/= string< string<= string= string> string>= stringp subclassp subseq symbolp truncate undefined-entity-name undefined-entity-namespace vector zerop
1+ 1- caar cadddr caddr cadr cdddr cddr cerror error first max min nth nthcdr second set-assoc set-cadddr set-caddr set-cadr set-cdddr set-cddr set-elt set-nth set-nthcdr set-subseq third swap-elt swap-subseq
property set-property remove-property simple-error-format-string simple-error-format-arguments report-condition initialize-object stream-error-stream parse-error-string
kf kr kg kacc set-kacc kclo`)

var crashForms = strings.Fields(`and block case case-using catch class cond continue-condition defclass defconstant defdynamic defgeneric defglobal defmacro defmethod defun dynamic dynamic-let expand-defun flet function go if ignore-errors labels lambda lambda-macro let let* or prog1 prog2 progn psetq quasiquote quote return return-from setq tagbody the throw unless unwind-protect when while with-handler with-open-input-file with-open-output-file with-standard-input
decf dolist dotimes for incf set-dynamic set-setq setf km unquote assure convert apply macroexpand`)

// operators whose integer arguments are sizes or counts
var crashSizes = map[string]bool{}

func init() {
	for _, s := range strings.Fields("create-array create-list create-string format format-object dotimes eval load for while cerror error setf incf decf let let* setq mapc mapcar apply funcall") {
		crashSizes[s] = true
	}
}

// crashPool are expressions for values of all types, each evaluated afresh.
var crashInstances = builtinInstances()

var crashPool = []string{
	"(create-string-input-stream \"a (b c) 12 \\\"s\\\"\")", "(create-string-input-stream \"\")", "(create-string-input-stream \"(a\")", "(create-string-output-stream)",
	"(make-hash-table)", "(let ((h (make-hash-table))) (set-gethash 1 'a h) h)",
	"#'car", "#'kf", "#'kr", "#'kg", "#'kacc", "(lambda (x) x)", "(lambda (x &rest y) (cons x y))", "(lambda () 1)", "(let ((n 0)) (lambda (x) (setq n (+ n 1))))", "#'+",
	"(class <integer>)", "(class <kc>)", "(class <object>)", "(class <error>)", "(class <list>)", "(create (class <kc>) 'x 1)", "(create (class <kc>))", "(create (class <kd>) 'y '(1))",
	"(standard-output)", "(standard-input)", "(error-output)", "*err-exist*", "pi", "most-positive-fixnum", "most-negative-fixnum", "(gensym)",
	"(catch 'k (with-handler (lambda (c) (throw 'k c)) (car 1)))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (/ 1 0)))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (error \"e ~a\" 1)))",
	"(catch 'k (with-handler (lambda (c) (throw 'k c)) nosuchvar))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (nosuchfun)))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (car)))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (return-from nosuch 1)))", "(catch 'k (with-handler (lambda (c) (throw 'k c)) (read-char (create-string-input-stream \"\"))))",
	"(create-array '(2 2) 'a)", "(create-array '(1 2 3) 0)", "(vector)", "(vector 1 2 3)", "(elt (create-array '(2 2) 1) 0)", "(list 1 2 3)", "(list)", "'((a . 1) (b . 2))", "'(a . b)", "'(1 2 . 3)", "\"abc\"", "\"\"", "#\\a", "1.5", "-1", "0", "1", "2", "'a", "t", "nil", ":k", "'<integer>", "'(quote a)", "123456789012345678901234567890", "\"12\"", "\"~a ~d ~s\"", "\"~&~%~5,'0d\"",
}

func crashPoolPick(t *rapid.T) string {
	if pct(t, 12) {
		return pickOf(t, crashInstances, "instance")
	}
	return pickOf(t, crashPool, "pool")
}

// builtinInstances are attempts to make instances of built-in classes, some of
// which have none.
func builtinInstances() (l []string) {
	for _, c := range strings.Fields("<hashtable> <function> <stream> <built-in-class> <standard-class> <integer> <float> <number> <string> <symbol> <null> <cons> <list> <character> <array> <general-vector> <basic-vector> <basic-array> <general-array*> <object> <error> <domain-error> <arithmetic-error> <division-by-zero> <simple-error> <program-error> <control-error> <parse-error> <undefined-function> <unbound-variable> <undefined-entity> <stream-error> <end-of-stream> <storage-exhausted> <string-builder> <generic-function> <standard-generic-function> <keyword> <bignum> <file-stream> <standard-object>") {
		l = append(l, "(create (class "+c+"))")
		l = append(l, "(create (class "+c+") 'x 1)")
	}
	return l
}

// raw pieces of syntax
var crashSyntax = []string{"x", "(x)", "(x 1)", "((x 1))", "((x 1) (y 2))", "((f (a) a))", "(a b)", "(a &rest r)", "(&rest)", "(a &rest)", "(&rest a b)", "(a / b)", "(:rest r)", "()", "((x))", "((x 1 2))", "(x . 1)", "(1)", "((1 2))", "(else 1)", "((a b) 1)", "(t 1)", "(otherwise 1)", "((lambda (x) x) 1)", "(lambda", "'k", "'(x)", "(x <integer>)", "((x <integer>) y)", "((x <nosuch>))", "(<object>)", "((s :initarg s :initform 1 :reader rs :writer ws :accessor as :boundp bs))", "((s :initarg))", "((s :bad 1))", "(s)", "(:generic-function-class 1)", "(:method ((x <integer>)) x)", "(:method)", "(:abstractp t)", "(:metaclass 1)", "tag1", "(go tag1)", "(return-from x 1)", "(return 1)", "(throw 'k 1)", "(car 1)", "(error \"e\")", "(setf (car x) 1)", "`(a ,x ,@x)", ",x", ",@x", "(aref x 0)", "(dynamic x)", "(gethash 'a x)", "(i 0 (1+ i))", "((i 0 (1+ i)))", "((> i 3) i)", "(s \"a\")", "(i 3)", "(i '(1 2 3))", "<kc>", "(class <kc>)", "#'nosuch", "#'(lambda (x) x)"}

const crashSetup = `(defun kf (a b) (list a b)) (defun kr (a &rest r) (cons a r)) (defmacro km (a &rest r) (list 'list a (list 'quote r)))
(defclass <kc> () ((x :initarg x :accessor kacc :boundp kacc-p))) (defclass <kd> (<kc>) ((y :initarg y :reader kd-y)))
(defgeneric kg (a)) (defmethod kg ((a <integer>)) (+ a 1)) (defmethod kg ((a <kc>)) 'kc)
(let ((n 0)) (defun kclo (x) (setq n (+ n 1)) (list n x)))`

type crashCase struct {
	Texts []string `json:"texts"`
}

func safeText(s string) string { return strings.ReplaceAll(s, "/", "_") }

func genCrashArg(t *rapid.T, op string, d int) string {
	switch k := below(t, 20, "arg"); {
	case k < 9:
		p := crashPoolPick(t)
		if crashSizes[op] && (strings.HasPrefix(p, "most-") || strings.HasPrefix(p, "1234")) {
			p = "2"
		}
		return p
	case k < 11 && d > 0 && !crashSizes[op]:
		return genCrashCall(t, d-1)
	case k < 12:
		return pickOf(t, crashSyntax, "syntax")
	}
	x := genData(t, dataCfg{depth: 2, anySym: pct(t, 20), control: true, arrays: true, dotted: true, maxLen: 3})
	fixD(&x, op)
	return x.Quoted()
}

// fixD keeps sizes small and leaves out names whose redefinition would be a
// legitimate change of the interpreter.
func fixD(d *D, op string) {
	switch d.K {
	case "i":
		if crashSizes[op] && (d.I > 8 || d.I < -8) {
			d.I %= 7
		}
	case "f":
		if crashSizes[op] {
			d.F = "1.5"
		}
	case "s":
		d.S = safeText(d.S)
	case "c":
		if d.I == '/' {
			d.I = 'a'
		}
	case "y":
		if d.S == "car" || d.S == "quote" {
			d.S = "x"
		}
		d.S = safeText(d.S)
	}
	for i := range d.L {
		fixD(&d.L[i], op)
	}
	if d.T != nil {
		fixD(d.T, op)
	}
}

func genCrashCall(t *rapid.T, d int) string {
	if pct(t, 35) {
		op := pickOf(t, crashForms, "form")
		var l []string
		for n := below(t, 6, "n"); n > 0; n-- {
			switch below(t, 6, "part") {
			case 0, 1, 2:
				l = append(l, pickOf(t, crashSyntax, "syntax"))
			case 3:
				l = append(l, genCrashArg(t, "let", d))
			case 4:
				x := genData(t, dataCfg{depth: 2, dotted: true, maxLen: 3})
				fixD(&x, "let")
				l = append(l, x.Src())
			default:
				if d > 0 {
					l = append(l, genCrashCall(t, d-1))
				} else {
					l = append(l, "1")
				}
			}
		}
		return strings.ReplaceAll(strings.ReplaceAll("("+op+" "+strings.Join(l, " ")+")", "(lambda ", "(lambda () "), "(lambda)", "(lambda () 1)")
	}
	op := pickOf(t, crashFuncs, "op")
	var l []string
	for n := pickOf(t, []int{0, 1, 1, 2, 2, 3, 3, 4, 5}, "n"); n > 0; n-- {
		l = append(l, genCrashArg(t, op, d))
	}
	return callArgs(op, l, pickOf(t, []int{0, 0, 0, 1, 2, 4}, "mode"))
}

// crashPlaces are places a call is put into.
var crashPlaces = []string{
	"(let ((x 1) (s 2)) CALL)", "(let () CALL)", "((lambda (x) CALL) 1)", "(funcall (lambda () CALL))", "(labels ((lf (x) CALL)) (lf 1))", "(flet ((lf () CALL)) (lf))", "(mapcar (lambda (x) CALL) '(1 2))", "(dolist (x '(1 2)) CALL)",
	"(ignore-errors CALL)", "(block b CALL)", "(catch 'k CALL)", "(tagbody CALL)", "(unwind-protect CALL 1)", "(unwind-protect 1 CALL)", "(with-handler (lambda (c) CALL) (car 1))", "(with-handler (lambda (c) (continue-condition c CALL)) (cerror \"a\" \"b\"))", "(dynamic-let ((x CALL)) CALL)",
	"(with-standard-input (create-string-input-stream \"a b\") CALL)", "(with-open-input-file (s \"exists\") CALL)", "(with-open-input-file (s \"exists\") (setq s CALL))", "(let ((x CALL)) (setq x CALL) x)", "`(a ,CALL)", "(eval 'CALL)", "(list CALL CALL)", "(if CALL CALL CALL)", "(cond (CALL CALL) (t CALL))", "(case CALL ((1) CALL) (t CALL))", "(for ((x CALL)) (t CALL))",
	"(let* ((x CALL) (y x)) (list x y))", "(format nil \"~s\" CALL)", "(setf (car (list 1)) CALL)", "(let ((h (make-hash-table))) (setf (gethash 'a h) CALL) h)", "(vector CALL)", "(throw 'k CALL)", "(error \"~s\" CALL)", "(create (class <kc>) 'x CALL)", "(funcall CALL)", "(progn (defun kq (x) CALL) (kq 1))", "(progn (defmacro kqm () 'CALL) (kqm))", "(prog1 CALL)",
}

func genCrashCase(t *rapid.T) crashCase {
	var c crashCase
	for n := between(t, 1, 3, "calls"); n > 0; n-- {
		call := genCrashCall(t, 2)
		for pct(t, 25) {
			call = strings.ReplaceAll(pickOf(t, crashPlaces, "place"), "CALL", call)
		}
		c.Texts = append(c.Texts, call)
	}
	return c
}

// usableValue: the host can look at the value.
func usableValue(v gmnlisp.Node) error {
	if v == nil {
		return fmt.Errorf("the value is a Go nil")
	}
	if v.ClassOf() == nil {
		return fmt.Errorf("the value has no class")
	}
	show(fromNode(v))
	v.Equals(v, gmnlisp.STRICT)
	v.Equals(v, gmnlisp.EQUALP)
	s := v.String()
	if g, ok := v.(fmt.GoStringer); ok {
		s += g.GoString()
	}
	if strings.Contains(s, "PANIC=") {
		return fmt.Errorf("the value cannot be printed: %.200s", s)
	}
	return nil
}

// probes: programs whose values are known, run after anything else.
var probes = [][2]string{
	{`(list (+ 1 2) (- 7 3) (* 2 3) (/ 8 2) (mod -7 2) (car '(a b)) (cdr '(a b)) (cons 1 2) (list 1 2) (append '(1) '(2)) (length "abc") (reverse '(1 2 3)))`, `(3 4 6 4 1 a (b) (1 . 2) (1 2) (1 2) 3 (3 2 1))`},
	{`(let ((pa 1) (pb 2)) (setq pa (+ pa pb)) (let* ((pc pa) (pd (* pc 2))) (list pa pb pc pd)))`, `(3 2 3 6)`},
	{`(list (mapcar (lambda (x) (* x x)) '(1 2 3)) (let ((s 0)) (dolist (x '(1 2 3)) (setq s (+ s x))) s) (let ((s nil)) (dotimes (i 3) (setq s (cons i s))) s) (for ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i 4) s)))`, `((1 4 9) 6 (2 1 0) 6)`},
	{`(list (catch 'pk (throw 'pk 1)) (block pb (return-from pb 2)) (let ((x 0)) (tagbody (go pe) (setq x 1) pe) x) (let ((r nil)) (catch 'pk (unwind-protect (throw 'pk 1) (setq r 'cleaned))) r))`, `(1 2 0 cleaned)`},
	{`(list (let ((v (vector 1 2 3))) (setf (elt v 1) 9) (elt v 1)) (let ((l (list 1 2))) (setf (car l) 5) (incf (car l)) l) (let ((h (make-hash-table))) (setf (gethash 'a h) 1) (gethash 'a h)))`, `(9 (6 2) 1)`},
	{`(list (flet ((pf (x) (+ x 1))) (pf 1)) (labels ((pl (n) (if (= n 0) 'end (pl (- n 1))))) (pl 50)) (funcall (lambda (x &rest r) (list x r)) 1 2 3) (apply #'+ 1 '(2 3)))`, `(2 end (1 (2 3)) 6)`},
	{"(list (catch 'pk (with-handler (lambda (c) (throw 'pk (domain-error-object c))) (car 'px))) (case 2 ((1) 'one) ((2) 'two)) (cond (nil 1) (t 2)) (and 1 2) (or nil 3) (if nil 1 2) `(a ,(+ 1 1)))", `(px two 2 2 3 2 (a 2))`},
	{`(list (format nil "~a-~d-~s" "x" 5 "y") (string-append "a" "b") (subseq "hello" 1 3) (convert "12" <integer>) (read (create-string-input-stream "(p q)")) (kf 1 2) (kr 1 2 3) (kg 5) (km 1 2) (kacc (create (class <kc>) 'x 4)))`, `("x-5-\"y\"" "ab" "el" 12 (p q) (1 2) (1 2 3) 6 (1 (2)) 4)`},
}

// probesMustFail: evaluations that are errors unless something was left behind.
var probesMustFail = []string{
	"(car 1)", "(error \"nobody handles this\")", "(throw 'k 1)", "(throw 'pk 1)", "(return-from nil 1)", "(return-from x 1)", "(return-from a 1)", "(go tag1)", "(throw 'x 1)", "(throw 'a 1)", "(signal-condition (create (class <kc>)) nil)", "(nosuchfun)", "(dynamic probe-unbound)",
}

func checkUsable(w *gmnlisp.World, out *bytes.Buffer, stdin any, skip func(string) bool) error {
	ctx := context.Background()
	for _, p := range probes {
		if skip(p[0]) {
			continue
		}
		got := evalText(ctx, w, p[0])
		if got.Err != nil || got.Value != p[1] {
			return fmt.Errorf("afterwards %s gives %v, expected %s", p[0], got, p[1])
		}
	}
	for _, p := range probesMustFail {
		if skip(p) {
			continue
		}
		if got := evalText(ctx, w, p); got.Err == nil {
			return fmt.Errorf("afterwards %s gives %s and is no error", p, got.Value)
		}
	}
	n := out.Len()
	if got := evalText(ctx, w, `(format t "probe")`); got.Err != nil || !strings.HasSuffix(out.String()[n:], "probe") {
		return fmt.Errorf("afterwards (format t \"probe\") gives %v and writes %q", got, out.String()[n:])
	}
	if any(w.Stdin()) != stdin {
		return fmt.Errorf("afterwards the standard input is another")
	}
	return nil
}

func evalAbused(w *gmnlisp.World, text string, looks int, o *Obs) (err error) {
	if strings.Contains(text, "unwind-protect") && (strings.Contains(text, "while") || strings.Contains(text, "for ") || strings.Contains(text, "(go ")) {
		// a cleanup that does not end cannot be stopped by the context
		o.Label("left out")
		return nil
	}
	ctx := newCountCtx(looks)
	ctx.memCap = 400 << 20
	defer func() {
		if r := recover(); r != nil {
			panic(fmt.Sprintf("%v evaluating %s", r, text))
		}
	}()
	v, e := w.Interpret(ctx, text)
	if e != nil {
		s := e.Error()
		if strings.Contains(s, "PANIC=") {
			return fmt.Errorf("%s: the error cannot be printed: %.300s", text, s)
		}
		switch cls, _ := errClass(e); {
		case ctx.cancelled():
			o.Label("stopped after %d looks", looks)
		case cls != "":
			o.Label("error %s", cls)
		default:
			o.Label("other error")
		}
		return nil
	}
	o.Label("value")
	if err := usableValue(v); err != nil {
		return fmt.Errorf("%s: %v", text, err)
	}
	return nil
}

// assignsClass: the program may assign the variable that holds the class.
func assignsClass(s string) bool {
	return strings.Contains(s, "<kc>") && (strings.Contains(s, "set") || strings.Contains(s, "cf ") || strings.Contains(s, "for ") || strings.Contains(s, "do"))
}

var enteredScratch bool

func enterScratch() {
	if !enteredScratch {
		enteredScratch = true
		if err := os.Chdir(scratchDir()); err != nil {
			panic(err)
		}
		if err := os.WriteFile("exists", []byte("a (b) \"c\"\n12\n"), 0o600); err != nil {
			panic(err)
		}
	}
}

func runCrashCase(c crashCase, o *Obs) error {
	enterScratch()
	w, out := newWorld()
	if _, err := w.Interpret(context.Background(), crashSetup); err != nil {
		return err
	}
	stdin := any(w.Stdin())
	o.Sample(strings.Join(c.Texts, "\n"))
	all := strings.Join(c.Texts, "\n")
	for i, text := range c.Texts {
		if err := evalAbused(w, text, 20000, o); err != nil {
			return fmt.Errorf("%v\n  in the sequence %s", err, strings.Join(c.Texts[:i+1], "\n    "))
		}
	}
	for _, op := range append(append([]string{}, crashForms...), crashFuncs...) {
		if strings.Contains(all, "("+op+" ") || strings.Contains(all, "#'"+op+" ") {
			o.Label("uses %s", op)
		}
	}
	// what the programs define on purpose is no damage
	defines := strings.Contains(all, "(def") || strings.Contains(all, "expand-defun")
	err := checkUsable(w, out, stdin, func(p string) bool {
		return (defines || assignsClass(all)) && strings.Contains(p, "<kc>") || defines && strings.HasPrefix(p, "(return-from")
	})
	if err != nil {
		return fmt.Errorf("%v\n  after %s", err, strings.Join(c.Texts, "\n    "))
	}
	if o.labels["value"] > 0 || len(o.labels) > 0 && len(c.Texts) > 1 {
		o.NonTrivial()
	}
	return nil
}

// mutated programs ----------------------------------------------------------

var crashCfgs = []progCfg{
	{w: weights{"block": 5, "catch": 5, "return-from": 6, "throw": 5, "go": 4, "tagbody": 4, "loop": 4, "lambda": 5, "unwind-protect": 4, "with-handler": 4, "dynamic-let": 4, "dynamic": 4, "setf": 0, "error-op": 3}, depth: 6, funs: 3, globals: 3, mains: 3, dyns: true},
	{w: weights{"setf": 0, "lambda": 6, "let": 6, "local-fun": 6, "call": 5, "apply": 4, "funcall": 4, "with-handler": 4, "bad-call": 3}, depth: 6, funs: 3, globals: 3, mains: 3},
	{w: with(noExits, weights{"setf": 0, "macro": 10, "quasi": 6, "loop": 5, "cond": 4, "case": 4}), depth: 5, funs: 2, macros: 3, globals: 2, mains: 3},
	{w: weights{"setf": 0, "rec": 10, "unwind-protect": 5, "with-handler": 5, "throw": 4, "catch": 4}, depth: 5, funs: 3, globals: 1, mains: 3, recFuns: true},
}

// sub-expressions of a form, addressed in order.
func vSize(v V) int {
	n := 1
	for {
		p, ok := v.(*Pair)
		if !ok {
			return n
		}
		n += vSize(p.Car)
		v = p.Cdr
	}
}

// vEdit replaces the k-th sub-expression (pre-order, 0 is v itself); edit
// returns the replacements (none: deleted).
func vEdit(v V, k *int, edit func(V) []V) []V {
	if *k == 0 {
		*k--
		return edit(v)
	}
	*k--
	var l []V
	changed := false
	x := v
	for {
		p, ok := x.(*Pair)
		if !ok {
			break
		}
		if *k < 0 || changed {
			l = append(l, p.Car)
		} else {
			before := *k
			r := vEdit(p.Car, k, edit)
			l = append(l, r...)
			if before >= 0 && *k < 0 {
				changed = true
			}
		}
		x = p.Cdr
	}
	if !changed {
		return []V{v}
	}
	var r V = x
	for i := len(l) - 1; i >= 0; i-- {
		r = &Pair{l[i], r}
	}
	return []V{r}
}

func vAt(v V, k *int) V {
	if *k == 0 {
		return v
	}
	*k--
	for {
		p, ok := v.(*Pair)
		if !ok {
			return nil
		}
		if r := vAt(p.Car, k); r != nil {
			return r
		}
		v = p.Cdr
	}
}

func mutateForms(t *rapid.T, forms []V) []V {
	forms = append([]V{}, forms...)
	for n := between(t, 1, 4, "mutations"); n > 0; n-- {
		if len(forms) == 0 {
			break
		}
		i := below(t, len(forms), "form")
		size := vSize(forms[i])
		k := below(t, size, "at")
		donor := forms[below(t, len(forms), "donor")]
		kd := below(t, vSize(donor), "from")
		d := vAt(donor, &kd)
		if d == nil {
			d = Nil
		}
		kind := below(t, 9, "mutation")
		atom := pickOf(t, []V{Nil, Tru, Int(0), Int(-1), Str("s"), Sym("x"), Sym("f1"), Chr('c'), Flt(1.5), Kw(":k"), vlist(Sym("car"), Int(1)), vlist(Sym("f1")), vlist(Sym("throw"), vlist(Sym("quote"), Sym("k")), Int(1)), vlist(Sym("error"), Str("m")), vlist(Sym("lambda"), Nil, Int(1))}, "atom")
		op := Sym(pickOf(t, append([]string{}, crashForms...), "op"))
		if strings.HasPrefix(string(op), "def") || strings.HasPrefix(string(op), "with-open") || strings.HasPrefix(string(op), "expand") || strings.HasPrefix(string(op), "set-") || op == "setf" {
			op = "progn"
		}
		r := vEdit(forms[i], &k, func(v V) []V {
			switch kind {
			case 0:
				return nil
			case 1:
				return []V{v, v}
			case 2:
				return []V{atom}
			case 3:
				return []V{d}
			case 4:
				return []V{vlist(v)}
			case 5:
				return []V{vlist(op, v)}
			case 6:
				return []V{op}
			case 7:
				if p, ok := v.(*Pair); ok {
					return []V{p.Cdr}
				}
				return []V{Sym("unknown-name")}
			default:
				return []V{v, atom}
			}
		})
		forms = append(append(append([]V{}, forms[:i]...), r...), forms[i+1:]...)
	}
	return forms
}

func hasMutator(s string) bool {
	for _, k := range []string{"set-car", "set-cdr", "setf", "set-nth", "set-elt", "set-aref", "set-gethash", "set-ca", "set-cd", "incf", "decf", "swap-", "set-dynamic", "set-assoc", "set-subseq"} {
		if strings.Contains(s, k) {
			return true
		}
	}
	return false
}

type abuseCase struct {
	Defs    []string `json:"defs"`
	Garbage []string `json:"garbage"`
	Prog    Program  `json:"prog"`
}

func genAbuse(t *rapid.T) abuseCase {
	var c abuseCase
	c.Prog = genProgram(t, pickOf(t, crashCfgs, "cfg"))
	var mains []V
	for _, f := range c.Prog.Forms {
		if strings.HasPrefix(f, "(def") {
			c.Defs = append(c.Defs, f)
			continue
		}
		l, err := readAllV(f)
		if err != nil {
			panic(err)
		}
		mains = append(mains, l...)
	}
	for n := between(t, 1, 3, "garbage"); n > 0; n-- {
		for _, v := range mutateForms(t, mains) {
			s := show(v)
			if hasMutator(s) || strings.Contains(s, "(def") || strings.Contains(s, "quit") {
				continue
			}
			c.Garbage = append(c.Garbage, s)
		}
		if pct(t, 30) {
			s := genCrashCall(t, 1)
			if !hasMutator(s) && !strings.Contains(s, "def") && !strings.Contains(s, "eval") && !strings.Contains(s, "load") {
				c.Garbage = append(c.Garbage, s)
			}
		}
	}
	return c
}

func runAbuse(c abuseCase, o *Obs) error {
	enterScratch()
	w, out := newWorld()
	if _, err := w.Interpret(context.Background(), crashSetup); err != nil {
		return err
	}
	stdin := any(w.Stdin())
	curSink = &sink{}
	for _, d := range c.Defs {
		w.Interpret(newCountCtx(100000), d)
	}
	for _, g := range c.Garbage {
		if err := evalAbused(w, g, 30000, o); err != nil {
			return err
		}
	}
	curSink = nil
	where := func() string {
		return "\n  after " + strings.Join(append(append([]string{}, c.Defs...), c.Garbage...), "\n    ")
	}
	if err := checkUsable(w, out, stdin, func(p string) bool {
		return strings.Contains(p, "<kc>") && assignsClass(strings.Join(c.Garbage, "\n"))
	}); err != nil {
		return fmt.Errorf("%v%s", err, where())
	}
	out.Reset()
	if err := runProgramIn(w, out, c.Prog, o, progOpts{nontrivial: func(map[string]int) bool { return true }}); err != nil {
		return fmt.Errorf("in a used interpreter: %v%s", err, where())
	}
	o.Sample(strings.Join(append(append([]string{}, c.Garbage...), c.Prog.Forms...), "\n"))
	return nil
}

// text ------------------------------------------------------------------------

func genEvalSoup(t *rapid.T) textCase {
	var sb strings.Builder
	depth := 0
	for n := between(t, 1, 30, "n"); n > 0; n-- {
		switch below(t, 10, "tok") {
		case 0, 1, 2:
			sb.WriteString("(" + pickOf(t, append(append([]string{}, crashForms...), crashFuncs...), "op") + " ")
			depth++
		case 3, 4:
			if depth > 0 {
				sb.WriteString(") ")
				depth--
			}
		case 5:
			sb.WriteString(pickOf(t, crashSyntax, "syntax") + " ")
		case 6, 7:
			sb.WriteString(crashPoolPick(t) + " ")
		case 8:
			sb.WriteString(pickOf(t, []string{"'", "`", ",", "#'", ",@", ". ", "#(", "\"", "|", "#\\", "#|", "(", ")", ";", "#2a(", "1e", "-", "\\"}, "bit"))
		default:
			sb.WriteString(pickOf(t, []string{"a ", "x ", "1 ", "2 ", "-1 ", "t ", "nil ", "foo "}, "atom"))
		}
	}
	if pct(t, 85) {
		sb.WriteString(strings.Repeat(")", depth))
	}
	if pct(t, 15) {
		sb.WriteString(pickOf(t, []string{"|", "\"", "#\\", "#|", "\\", "'", "#", "`", ",", ",@", "#'", "#(", "(", ".", "|a", "#2a", ":", "&", "-", "1e", "#x", "\"\\", "||", "#||#", ";", ")"}, "end"))
	}
	s := sb.String()
	for _, k := range []string{"open-output-file", "load", "create-array"} {
		s = strings.ReplaceAll(s, k, "list")
	}
	return textCase{Text: s}
}

func runEvalSoup(c textCase, o *Obs) error {
	enterScratch()
	if hasMutator(c.Text) {
		o.Label("left out")
		return nil
	}
	w, out := newWorld()
	if _, err := w.Interpret(context.Background(), crashSetup); err != nil {
		return err
	}
	stdin := any(w.Stdin())
	o.Sample(c.Text)
	if err := evalAbused(w, c.Text, 20000, o); err != nil {
		return err
	}
	if !strings.Contains(c.Text, "def") {
		if err := checkUsable(w, out, stdin, func(p string) bool {
			return strings.Contains(p, "<kc>") && assignsClass(c.Text)
		}); err != nil {
			return fmt.Errorf("%v\n  after %s", err, c.Text)
		}
		o.NonTrivial()
	}
	return nil
}

func initCrashProps() {
	reg("C23", "calls", 30000, 900000, "an operator gave a value, or there were several calls", genCrashCase, runCrashCase)
	reg("C23", "abuse", 15000, 400000, "a program was compared with the reference after the failing evaluations", genAbuse, runAbuse)
	reg("C23", "text", 15000, 500000, "the text was evaluated and the interpreter probed", genEvalSoup, runEvalSoup)
}
