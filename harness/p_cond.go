package main

// C08: the conditions of failing operations, in random surroundings.

import (
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// condRow: a failing form ($i an integer, $s a string, $y a symbol without a
// value), the class of the condition, the classes it is an instance of, and
// pairs of an expression over the condition e and the form that evaluates to
// its value.
type condRow struct {
	form   string
	class  string
	supers string
	check  []string
	cont   bool // continue-condition with an integer makes the form return it
}

var (
	programC = "<program-error> <error>"
	undefV   = "<undefined-entity> <program-error> <error>"
)

func domRow(form, obj, class string) condRow {
	return condRow{form: form, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", obj, "(eq (domain-error-expected-class e) (class " + class + "))", "t"}}
}

var condRows = []condRow{
	{form: `(parse-number "x$i")`, class: "<parse-error>", supers: "<error>"},
	{form: `(convert "$sx" <integer>)`, class: "<parse-error>", supers: "<error>"},
	{form: `(convert "$sx" <float>)`, class: "<parse-error>", supers: "<error>"},
	{form: `(read-char (create-string-input-stream ""))`, class: "<end-of-stream>", supers: "<stream-error> <error>"},
	{form: `(let ((s (create-string-input-stream "$s"))) (read-line s) (read-line s))`, class: "<end-of-stream>", supers: "<stream-error> <error>"},
	{form: `(let ((s (create-string-input-stream "$s $i"))) (read s) (read s) (read s))`, class: "<end-of-stream>", supers: "<stream-error> <error>"},
	{form: `(error "m $s ~a" $i)`, class: "<simple-error>", supers: "<error>", check: []string{"(simple-error-format-string e)", `"m $s ~a"`, "(simple-error-format-arguments e)", "(list $i)"}},
	{form: `(error "$s")`, class: "<simple-error>", supers: "<error>", check: []string{"(simple-error-format-string e)", `"$s"`, "(simple-error-format-arguments e)", "nil"}},
	{form: `(error "~a ~a" '$y (list $i "$s"))`, class: "<simple-error>", supers: "<error>", check: []string{"(simple-error-format-arguments e)", `(list '$y (list $i "$s"))`}},
	{form: `(cerror "go $s" "m ~a" $i)`, class: "<simple-error>", supers: "<error>", cont: true, check: []string{"(simple-error-format-string e)", `"m ~a"`, "(simple-error-format-arguments e)", "(list $i)"}},
	{form: `(signal-condition (create (class <uc1>) 'a $i) nil)`, class: "<uc1>", supers: "<error>", check: []string{"(uc1-a e)", "$i"}},
	{form: `(signal-condition (create (class <uc1>) 'a "$s") t)`, class: "<uc1>", supers: "<error>", cont: true, check: []string{"(uc1-a e)", `"$s"`}},
	{form: `(signal-condition (create (class <uc2>) 'a $i 'b '$y) t)`, class: "<uc2>", supers: "<uc1> <error>", cont: true, check: []string{"(uc1-a e)", "$i", "(uc2-b e)", "'$y"}},
	{form: `(signal-condition (create (class <uc3>) 'format-string "$s" 'format-arguments (list $i)) t)`, class: "<uc3>", supers: "<simple-error> <error>", cont: true, check: []string{"(simple-error-format-string e)", `"$s"`, "(simple-error-format-arguments e)", "(list $i)"}},
	{form: `(throw '$y $i)`, class: "<control-error>", supers: "<error>"},
	{form: `(return-from $y $i)`, class: "<control-error>", supers: "<error>"},
	{form: `(go $y)`, class: "<control-error>", supers: "<error>"},
	{form: `(tagbody $y2 (go $y))`, class: "<control-error>", supers: "<error>"},
	{form: `(catch '$y2 (throw '$y $i))`, class: "<control-error>", supers: "<error>"},
	{form: `($y $i)`, class: "<undefined-function>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y", "(undefined-entity-namespace e)", "'function"}},
	{form: `#'$y`, class: "<undefined-function>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y", "(undefined-entity-namespace e)", "'function"}},
	{form: `(mapcar #'$y '($i))`, class: "<undefined-function>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y"}},
	{form: `$y`, class: "<unbound-variable>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y", "(undefined-entity-namespace e)", "'variable"}},
	{form: `(list $i $y)`, class: "<unbound-variable>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y"}},
	{form: `(setq $y $i)`, class: "<unbound-variable>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y"}},
	{form: `(dynamic $y)`, class: "<unbound-variable>", supers: undefV, check: []string{"(undefined-entity-name e)", "'$y"}},
	{form: `(g1 "$s")`, class: "<undefined-function>", supers: undefV, check: []string{"(undefined-entity-name e)", "'g1", "(undefined-entity-namespace e)", "'function"}},
	{form: `(uc1-a $i)`, class: "<undefined-function>", supers: undefV, check: []string{"(undefined-entity-name e)", "'uc1-a"}},
	{form: `(/ $i 0)`, class: "<division-by-zero>", supers: "<arithmetic-error> <error>", check: []string{"(arithmetic-error-operands e)", "(list $i 0)"}},
	{form: `(mod $i 0)`, class: "<division-by-zero>", supers: "<arithmetic-error> <error>", check: []string{"(arithmetic-error-operands e)", "(list $i 0)"}},
	{form: `(rem $i 0)`, class: "<division-by-zero>", supers: "<arithmetic-error> <error>", check: []string{"(arithmetic-error-operands e)", "(list $i 0)"}},
	{form: `(/ $i.5 0)`, class: "<division-by-zero>", supers: "<arithmetic-error> <error>", check: []string{"(car (arithmetic-error-operands e))", "$i.5"}},
	domRow("(car $i)", "$i", "<cons>"),
	domRow(`(cdr "$s")`, `"$s"`, "<cons>"),
	domRow("(set-car 1 '$y)", "'$y", "<cons>"),
	domRow(`(assure <integer> "$s")`, `"$s"`, "<integer>"),
	domRow(`(the <string> $i)`, "$i", "<string>"),
	domRow(`(string-append "a" '$y)`, "'$y", "<string>"),
	domRow(`(char= #\a $i)`, "$i", "<character>"),
	domRow(`(funcall "$s" $i)`, `"$s"`, "<function>"),
	domRow(`(apply $i '(1))`, "$i", "<function>"),
	domRow(`(mapcar '$y '(1))`, "'$y", "<function>"),
	domRow(`(length $i)`, "$i", "<list>"),
	domRow(`(gethash 1 "$s")`, `"$s"`, "<hashtable>"),
	domRow(`(aref (list $i) 0)`, "(list $i)", "<array>"),
	domRow(`(aref (vector 1) "$s")`, `"$s"`, "<integer>"),
	domRow(`(elt '(1 2) "$s")`, `"$s"`, "<integer>"),
	domRow(`(* 2 "$s")`, `"$s"`, "<integer>"),
	domRow(`(* 2.5 '$y)`, `'$y`, "<float>"),
	{form: `(+ 1 '$y)`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", "'$y"}},
	{form: `(- '$y 1)`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", "'$y"}},
	{form: `(* 1 "$s")`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", `"$s"`}},
	{form: `(set-aref $i (vector 1 2) 2)`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", "2"}},
	{form: `(f1)`, class: "<program-error>", supers: "<error>"},
	{form: `(f1 $i $i)`, class: "<program-error>", supers: "<error>"},
	{form: `((lambda (x) x))`, class: "<program-error>", supers: "<error>"},
	{form: `(funcall (lambda (x &rest y) y))`, class: "<program-error>", supers: "<error>"},
	{form: `(car)`, class: "<program-error>", supers: "<error>"},
	{form: `(cons $i $i "$s")`, class: "<program-error>", supers: "<error>"},
	{form: `(mapcar (lambda () 1) (list $i))`, class: "<program-error>", supers: "<error>"},
	{form: `(open-input-file "no/such/$s")`, class: "<error>"},
	{form: `(elt (vector 1) 5)`, class: "<error>"},
	{form: `(aref (vector 1) 5)`, class: "<error>"},
	{form: `(create-array '(1099511627776 1099511627776) 0)`, class: "<storage-exhausted>", supers: "<error>"},
	{form: `(property '$y '$y)`, class: "<simple-error>", supers: "<error>"},
	{form: `(eval '(car $i))`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", "$i"}},
	{form: `(f3 $i)`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", "$i"}},
	{form: `(funcall #'f3 "$s")`, class: "<domain-error>", supers: programC, check: []string{"(domain-error-object e)", `"$s"`}},
}

var condClasses = strings.Fields("<error> <program-error> <domain-error> <undefined-entity> <unbound-variable> <undefined-function> <arithmetic-error> <division-by-zero> <control-error> <parse-error> <simple-error> <stream-error> <end-of-stream> <storage-exhausted> <uc1> <uc2> <uc3>")

// condWraps are surroundings of the failing form that change nothing.
var condWraps = []string{
	"(progn %s)", "(let ((x 1) (y 2)) %s)", "(let* ((x 1) (y x)) %s)", "(list 1 %s 2)", "(f2 %s)", "(funcall (lambda (x) x) %s)",
	"(mapcar (lambda (x) %s) '(1 2))", "(mapc (lambda (x) %s) (list 1))", "(block wb %s)", "(catch 'wt %s)",
	"(while t %s)", "(dolist (x '(1 2 3)) %s)", "(dotimes (x 2) %s)", "(for ((x 0 (+ x 1))) ((= x 3)) %s)",
	"(cond ((null 1) 2) (t %s))", "(case 3 ((1 2) 0) ((3) %s))", "(if %s 1 2)", "(unwind-protect %s (list 1))", "(tagbody (list %s))", "(and 1 %s)", "(or nil %s)",
	"(flet ((w (x) (list x %s))) (w 1))", "(labels ((w (x) (if (= x 0) %s (w (- x 1))))) (w 3))", "(dynamic-let ((wd 1)) %s)",
	"(progn (ignore-errors (car 1)) %s)", "(progn (block wb (with-handler (lambda (e) (return-from wb 1)) (car 1))) %s)",
	"(progn (with-handler (lambda (e) (tr 'wrong 1)) 1) %s)", "(progn (catch 'wt (with-handler (lambda (e) (tr 'wrong 1)) (throw 'wt 1))) %s)",
	"(prog1 %s 2)", "(when 1 %s)", "(unless nil %s)", "(setq f0 %s)", "(apply #'list 1 (list %s))", "(car (mapcan (lambda (x) (list %s)) '(1)))", "(not %s)", "(dm %s)", "(g1 %s)",
	"(let ((h (lambda (x) %s))) (f2 (funcall h 1)))", "(unwind-protect (progn %s) (catch 'q (throw 'q 1)))", "(with-standard-input (create-string-input-stream \"\") %s)",
}

type condCase struct {
	Items []condItem `json:"items"`
}

type condItem struct {
	Row  int    `json:"row"`
	I    int    `json:"i"`
	S    string `json:"s"`
	Wrap []int  `json:"wrap"`
	How  int    `json:"how"` // 0 return-from, 1 throw, 2 go, 3 inner and outer handler, 4 the handler passes it on, 5 continue, 6 ignore-errors, 7 no handler
	Wrp2 []int  `json:"wrap2"`
}

func genCondCase(t *rapid.T) condCase {
	var c condCase
	for n := between(t, 1, 4, "items"); n > 0; n-- {
		it := condItem{Row: below(t, len(condRows), "row"), I: between(t, 1, 99, "i"), S: pickOf(t, []string{"abc", "q", "text", "w"}, "s"), How: below(t, 8, "how")}
		if it.How == 5 && !condRows[it.Row].cont {
			it.How = 0
		}
		for k := below(t, 4, "wraps"); k > 0; k-- {
			it.Wrap = append(it.Wrap, below(t, len(condWraps), "wrap"))
		}
		for k := below(t, 2, "wraps"); k > 0; k-- {
			it.Wrp2 = append(it.Wrp2, below(t, len(condWraps), "wrap"))
		}
		c.Items = append(c.Items, it)
	}
	return c
}

const condPrelude = `(defclass <uc1> (<error>) ((a :initarg a :accessor uc1-a)))
(defclass <uc2> (<uc1>) ((b :initarg b :accessor uc2-b)))
(defclass <uc3> (<simple-error>) ())
(defun f1 (x) x) (defun f2 (x) x) (defun f3 (x) (list (car x)))
(defgeneric g1 (x)) (defmethod g1 ((x <integer>)) x)
(defmacro dm (x) (list 'list 1 x))
(defglobal f0 0)`

func (it condItem) subst(s string) string {
	return strings.NewReplacer("$i", fmt.Sprint(it.I), "$s", it.S, "$y", "unk-"+it.S).Replace(s)
}

func checkCond(c condCase, o *Obs) error {
	ctx := newCountCtx(1000000)
	w, _ := newWorld()
	if _, err := w.Interpret(ctx, condPrelude); err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	var texts []string
	for _, it := range c.Items {
		row := condRows[it.Row]
		sk := &sink{}
		curSink = sk
		form := it.subst(row.form)
		for _, k := range it.Wrap {
			form = fmt.Sprintf(condWraps[k], form)
		}
		in := form
		var text string
		wantTrace := "[1=0]"
		want := "caught"
		wrap := func(f string) string {
			for _, k := range it.Wrp2 {
				f = fmt.Sprintf(condWraps[k], f)
			}
			return f
		}
		switch it.How {
		case 0:
			text = fmt.Sprintf("(block b %s)", wrap(fmt.Sprintf("(with-handler (lambda (e) (tr 1 0) (return-from b (list 'caught e))) (list 'value %s))", in)))
		case 1:
			text = fmt.Sprintf("(catch 'b %s)", wrap(fmt.Sprintf("(with-handler (lambda (e) (tr 1 0) (throw 'b (list 'caught e))) (list 'value %s))", in)))
		case 2:
			text = fmt.Sprintf("(let ((r nil)) (tagbody (with-handler (lambda (e) (tr 1 0) (setq r (list 'caught e)) (go out)) (setq r (list 'value %s))) out) r)", in)
		case 3:
			// only the inner of two handlers is called
			text = fmt.Sprintf("(block b (with-handler (lambda (e) (tr 2 0) (return-from b (list 'outer e))) (block c (with-handler (lambda (e) (tr 1 0) (return-from b (list 'caught e))) (list 'value %s)))))", in)
		case 4:
			// the inner handler signals the condition again
			text = fmt.Sprintf("(block b (with-handler (lambda (e) (tr 2 0) (return-from b (list 'caught e))) %s))", wrap(fmt.Sprintf("(with-handler (lambda (e) (tr 1 0) (signal-condition e nil)) (list 'value %s))", in)))
			wantTrace = "[1=0 2=0]"
		case 5:
			text = fmt.Sprintf("(let ((c nil)) (let ((v (with-handler (lambda (e) (tr 1 0) (setq c e) (continue-condition e 4711)) %s))) (list 'caught c v)))", it.subst(row.form))
		case 6:
			text = fmt.Sprintf("(block b (with-handler (lambda (e) (tr 1 0) (return-from b (list 'caught e))) (list 'value (ignore-errors %s 1))))", in)
			want, wantTrace = "value", "[]"
		default:
			text = in
			wantTrace = "[]"
		}
		texts = append(texts, text)
		o.Sample(strings.Join(texts, "\n"))
		o.Label("%s how %d", row.class, it.How)
		got, err := w.Interpret(ctx, text)
		curSink = nil
		fail := func(format string, a ...any) error {
			return fmt.Errorf("%s: %s", strings.Join(texts, "\n"), fmt.Sprintf(format, a...))
		}
		if tr := fmt.Sprint(sk.trace); tr != wantTrace {
			return fail("trace %s, expected %s", tr, wantTrace)
		}
		var cond gmnlisp.Node
		if it.How == 7 {
			if err == nil {
				return fail("no error but %v", got)
			}
			cls, _ := errClass(err)
			if cls == "" {
				cls = "<error>"
			}
			// (error) without a handler gives the text only
			if cls != row.class && !strings.Contains(row.form, "rror ") && !strings.Contains(row.form, "signal-condition") && row.class != "<simple-error>" {
				return fail("the host gets %T %v (%s), expected %s", err, err, cls, row.class)
			}
			if strings.HasPrefix(row.form, "(error \"m") && !strings.Contains(err.Error(), it.subst("m $s $i")) {
				return fail("the host gets %v", err)
			}
			continue
		}
		if err != nil {
			return fail("error %v", err)
		}
		l, ok := got.(*gmnlisp.Cons)
		if !ok || show(fromNode(l.Car)) != want {
			return fail("%s, expected %s", show(fromNode(got)), want)
		}
		if it.How == 6 {
			if v := show(fromNode(got)); v != "(value nil)" {
				return fail("%s", v)
			}
			continue
		}
		cond = l.Cdr.(*gmnlisp.Cons).Car
		if it.How == 5 {
			if v := show(fromNode(l.Cdr.(*gmnlisp.Cons).Cdr)); v != "(4711)" {
				return fail("continued with %s", v)
			}
		}
		lw := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("e"): cond})
		if name := cond.ClassOf().Name().String(); name != row.class {
			return fail("the condition is a %s, expected %s", name, row.class)
		}
		for _, cls := range condClasses {
			r, err := lw.Interpret(ctx, "(instancep e (class "+cls+"))")
			if err != nil {
				return fail("instancep %s: %v", cls, err)
			}
			is := cls == row.class || strings.Contains(" "+row.supers+" ", " "+cls+" ")
			if gmnlisp.IsSome(r) != is {
				return fail("the condition of class %s: instancep %s is %v", row.class, cls, r)
			}
		}
		for i := 0; i+1 < len(row.check); i += 2 {
			a, err := lw.Interpret(ctx, row.check[i])
			if err != nil {
				return fail("%s: %v", row.check[i], err)
			}
			b, err := lw.Interpret(ctx, it.subst(row.check[i+1]))
			if err != nil {
				return fail("harness: %s: %v", row.check[i+1], err)
			}
			if show(fromNode(a)) != show(fromNode(b)) {
				return fail("%s is %s, expected %s", row.check[i], show(fromNode(a)), show(fromNode(b)))
			}
		}
		o.NonTrivial()
	}
	// no handler is left behind
	if _, err := w.Interpret(ctx, "(car 5)"); err == nil {
		return fmt.Errorf("%s: (car 5) is no error afterwards", strings.Join(texts, "\n"))
	}
	return nil
}

func initCondProps() {
	reg("C08", "condition-table", 25000, 500000,
		"one to four failing operations of a table, in up to three surrounding forms, under handlers that return, throw, go, signal the condition again or continue, below an outer handler, in ignore-errors or without a handler; the handlers must be called once, with a condition of exactly the class and superclasses and contents of the table; non-trivial: a condition was looked at",
		genCondCase, checkCond)
}
