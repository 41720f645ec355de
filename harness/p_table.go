package main

// C28, C08 and C09 over a table of the built-in and library functions: wrong
// counts and types of arguments, the conditions they signal, and the order in
// which arguments are evaluated by every way to call.

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// fnRow is a function: the kinds of its parameters, the least and the largest
// number of arguments (-1: any), and exceptions for parameters:
// "err" any error will do, "open" nothing is specified, and +x lists more
// classes that are accepted.
type fnRow struct {
	name   string
	kinds  []string
	min    int
	max    int
	except map[int]string
}

// The kinds: A anything, L list, P list of five or more, PP list of lists,
// AL association list, S sequence, I0 I1 I2 small integers, RX a radix, N
// number, F function, R vector, C character, T string, D float, H hash table,
// O output stream, IS input stream, K class, ED EA EU conditions.
const fnTable = `
car L|1 1
cdr L|1 1
rest L|1 1
cons A A|2 2
set-car A P|2 2
set-cdr A P|2 2
caar PP|1 1
cadr P|1 1|0+string+null+array
cddr P|1 1|0?
caddr P|1 1|0+string+null+array
cdddr P|1 1|0?
cadddr P|1 1|0+string+null+array
first L|1 1
second P|1 1|0+string+null+array
third P|1 1|0+string+null+array
nth I1 P|2 2|1+string+null+array
nthcdr I1 P|2 2|0+float+character 1?
last P|1 1|0+null
append L A|0 -1|0!
append L L L|0 -1|0! 1! 2?
list A A A|0 -1
reverse L|1 1|0!
nreverse L|1 1
length S|1 1
elt S I1|2 -1
subseq S I0 I1|3 3
member A L|2 2|1+string
assoc A AL|2 2|1!
create-list I1 A|2 -1
mapcar F L|2 -1|1!+string
mapc F L|2 -1|1!+string
maplist F L|2 -1|1!+string
mapl F L|2 -1|1!+string
mapcan F L|2 -1|1!+string
mapcon F L|2 -1|1!+string
mapcar F L L|2 -1|1!+string 2!+string
funcall F A|- -1
funcall F A A|- -1
apply F L|- -1|1+string
apply F A L|- -1|2+string
vector A A|0 -1
aref R I1|2 -1
set-aref A R I1|3 -1
create-array L0 A|1 2|0!
array-dimensions R|1 1
basic-array-p A|1 1
general-array*-p A|1 1
create-string I1 C|1 2
string-append T T|0 -1
string-append T T T|0 -1
string= T T|2 2
string/= T T|2 2
string< T T|2 2
string<= T T|2 2
string> T T|2 2
string>= T T|2 2
char= C C|2 2
char/= C C|2 2
char< C C|2 2
char<= C C|2 2
char> C C|2 2
char>= C C|2 2
char-index C T|2 3
char-index C T I0|2 3
string-index T T|- 3
string-index T T I0|- 3
+ N N|0 -1|0+string+character 1+string+character
+ N N N|0 -1|0+string+character 1+string+character 2+string+character
- N N|1 -1|0+string+character 1+string+character
* N N|0 -1
/ N N|1 -1
mod I1 N1|2 2|0+float 1+float
rem I1 N1|2 2|0+float 1+float
= A A|- -1
/= A A|2 2
< N N|- -1|0+string 1+string
> N N|- -1|0+string 1+string
<= N N|- -1|0+string 1+string
>= N N|- -1|0+string 1+string
max N N|1 -1|0+string 1+string
min N N|1 -1|0+string 1+string
1+ N|1 1|0+string+character
1- N|1 1|0+string+character
floor N|1 1
ceiling N|1 1
round N|1 1
truncate N|1 1
sqrt D|1 1
zerop A|1 1
plusp A|1 1
minusp A|1 1
evenp A|1 1
oddp A|1 1
parse-number T|1 1
gethash A H|2 2
set-gethash A A H|3 3
remhash A H|2 2
clrhash H|1 1
hash-table-count H|1 1
format O T|2 -1|0!
format-object O A A|3 3|0!
format-char O C|2 2|0!
format-integer O I1 RX|3 3|0! 1!+float
format-float O D|2 2|0! 1!
create-string-input-stream T|1 1
create-string-output-stream|0 0
get-output-stream-string O|1 1
read-char IS|0 3|0!
read-line IS|0 3|0!
read IS|0 3|0!
close IS|1 1|0?
open-input-file T|1 1
probe-file T|1 1
subclassp K K|2 2|0! 1!
class-of A|1 1
eq A A|- -1
eql A A|- -1
equal A A|- -1
not A|1 1
null A|1 1
atom A|1 1
consp A|1 1
listp A|1 1
basic-array*-p A|1 1
symbolp A|1 1
stringp A|1 1
characterp A|1 1
integerp A|1 1
floatp A|1 1
numberp A|1 1
functionp A|1 1
generic-function-p A|1 1
make-hash-table|0 0
standard-output|0 0
standard-input|0 0
error-output|0 0
property Y Y|2 2|0? 1?
set-property A Y Y|3 3|1? 2?
domain-error-object ED|1 1
domain-error-expected-class ED|1 1
arithmetic-error-operands EA|1 1
arithmetic-error-operation EA|1 1
undefined-entity-name EU|1 1
undefined-entity-namespace EU|1 1
`

var fnRows = func() (rows []fnRow) {
	for _, line := range strings.Split(strings.TrimSpace(fnTable), "\n") {
		p := strings.Split(line, "|")
		head := strings.Fields(p[0])
		r := fnRow{name: head[0], kinds: head[1:], except: map[int]string{}}
		var lo, hi string
		fmt.Sscan(p[1], &lo, &hi)
		if lo == "-" {
			r.min = -1 // too few is not specified
		} else {
			fmt.Sscan(lo, &r.min)
		}
		fmt.Sscan(hi, &r.max)
		if len(p) > 2 {
			for _, x := range strings.Fields(p[2]) {
				r.except[int(x[0]-'0')] += " " + x[1:]
			}
		}
		rows = append(rows, r)
	}
	return
}()

// tableClasses are the wrong values by class.
var tableValues = map[string][]string{
	"symbol":    {"'wrong-sym", "'car", "t", "'a0"},
	"keyword":   {":wrong"},
	"string":    {`"wrong"`, `""`, `"12"`},
	"character": {`#\w`, `#\1`},
	"integer":   {"77", "0", "-1"},
	"float":     {"7.5", "0.0", "2.0"},
	"cons":      {"(cons 'wr 'ong)", "(list 1 2 3)", "(list 'tr 9 9)"},
	"null":      {"nil"},
	"array":     {"(vector 'wrong)", "(create-array '(2 2) 0)", "(vector)"},
	"function":  {"(lambda (x) x)", "#'car", "#'list"},
	"ostream":   {"(create-string-output-stream)"},
	"istream":   {`(create-string-input-stream "wrong")`},
	"hash":      {"(make-hash-table)"},
	"class":     {"(class <integer>)", "(class <error>)"},
	"condition": {`(create (class <simple-error>) 'format-string "wrong")`},
}

var tableClassNames = []string{"symbol", "keyword", "string", "character", "integer", "float", "cons", "null", "array", "function", "ostream", "istream", "hash", "class", "condition"}

// kindAccepts are the classes a kind takes, kindExpected the names a
// <domain-error> may give as the class that was expected.
var kindAccepts = map[string]string{
	"L": "cons null", "L0": "cons null integer", "P": "cons", "PP": "cons", "AL": "cons null", "S": "cons null string array function",
	"I0": "integer", "I1": "integer", "I2": "integer", "RX": "integer", "N": "integer float", "N1": "integer float",
	"F": "function", "R": "array", "C": "character", "T": "string", "D": "integer float", "H": "hash",
	"O": "ostream istream null symbol keyword", "IS": "istream ostream", "K": "class", "Y": "symbol keyword",
	"ED": "", "EA": "", "EU": "",
}

var kindExpected = map[string]string{
	"L": "<cons> <list>", "P": "<cons> <list>", "PP": "<cons> <list>", "AL": "<cons> <list>", "S": "<list> <sequence>",
	"I0": "<integer>", "I1": "<integer> <number>", "I2": "<integer>", "RX": "<integer>", "N": "<number> <integer> <float>", "N1": "<number> <integer> <float>",
	"F": "<function>", "R": "<array> <basic-array> <general-array*>", "C": "<character>", "T": "<string>", "D": "<float> <number>", "H": "<hashtable>",
	"K": "<class>", "O": "<string-builder> <stream>", "IS": "<stream>",
	"ED": "<domain-error>", "EA": "<arithmetic-error>", "EU": "<undefined-entity>",
}

func genAny(t *rapid.T, d int) string {
	switch k := below(t, 12, "any"); {
	case k == 0 && d > 0:
		return fmt.Sprintf("(list %s %s)", genAny(t, d-1), genAny(t, d-1))
	case k == 1:
		return "'" + pickOf(t, []string{"a0", "a1", "x", "(tr 9 9)", "a0", "(quote x)", "nil", "#'car", "(a0 . a1)", "((tr 8 8))"}, "code")
	case k == 2:
		return fmt.Sprint(between(t, -3, 9, "int"))
	}
	cls := pickOf(t, tableClassNames, "class")
	return pickOf(t, tableValues[cls], "value")
}

func genList(t *rapid.T, lo, hi int) string {
	var e []string
	for n := between(t, lo, hi, "len"); n > 0; n-- {
		e = append(e, genAny(t, 1))
	}
	return "(list " + strings.Join(e, " ") + ")"
}

func genKind(t *rapid.T, kind string) string {
	switch kind {
	case "A":
		return genAny(t, 1)
	case "L":
		if pct(t, 15) {
			return "nil"
		}
		return genList(t, 1, 3)
	case "L0":
		return pickOf(t, []string{"(list 2)", "(list 2 3)", "nil", "(list 0)", "(list 1 1 1)"}, "dims")
	case "P":
		return genList(t, 5, 6)
	case "PP":
		return fmt.Sprintf("(list %s %s)", genList(t, 1, 2), genAny(t, 1))
	case "AL":
		return fmt.Sprintf("(list (cons %s %s) (cons %s 2))", genAny(t, 0), genAny(t, 0), genAny(t, 0))
	case "S":
		switch below(t, 3, "seq") {
		case 0:
			return genList(t, 2, 4)
		case 1:
			return pickOf(t, []string{`"abc"`, `"日本語"`, `"xy"`}, "str")
		}
		return genList(t, 2, 4)
	case "I0":
		return pickOf(t, []string{"0", "1"}, "i0")
	case "I1":
		return "1"
	case "RX":
		return pickOf(t, []string{"2", "8", "10", "16"}, "radix")
	case "N":
		return pickOf(t, []string{"0", "1", "-7", "3", "12", "2.5", "-0.5", "1.0"}, "num")
	case "N1":
		return pickOf(t, []string{"1", "-7", "3", "12"}, "num")
	case "F":
		return pickOf(t, []string{"(lambda (&rest x) (list 1))", "#'list", "(lambda (&rest x) x)"}, "fun")
	case "R":
		return "(vector " + genAny(t, 1) + " " + genAny(t, 1) + ")"
	case "C":
		return pickOf(t, []string{`#\a`, `#\b`, `#\é`, `#\space`}, "char")
	case "T":
		return pickOf(t, []string{`"abc"`, `"b"`, `""`, `"日本"`}, "text")
	case "D":
		return pickOf(t, []string{"2.5", "0.25", "4.0", "9.0"}, "float")
	case "H":
		return "(let ((h (make-hash-table))) (set-gethash 1 'a h) (set-gethash 2 3 h) h)"
	case "O":
		return `(let ((s (create-string-output-stream))) (format s "q") s)`
	case "IS":
		return `(create-string-input-stream "abc def")`
	case "K":
		return pickOf(t, []string{"(class <integer>)", "(class <number>)", "(class <object>)"}, "class")
	case "Y":
		return pickOf(t, []string{"'p1", "'p2", "'p3"}, "sym")
	case "ED":
		return "(block b (with-handler (lambda (e) (return-from b e)) (car 5)))"
	case "EA":
		return "(block b (with-handler (lambda (e) (return-from b e)) (/ 5 0)))"
	case "EU":
		return "(block b (with-handler (lambda (e) (return-from b e)) no-such-variable))"
	}
	panic("kind " + kind)
}

// pointers are addresses in the printed form of functions.
var pointers = regexp.MustCompile("0x[0-9a-f]+")

type tableCase struct {
	Fn     string   `json:"fn"`
	Row    int      `json:"row"`
	Args   []string `json:"args"`
	Wrong  int      `json:"wrong"` // index of the wrong argument, or -1
	Class  string   `json:"class"` // of the wrong argument
	Want   string   `json:"want"`  // dom, err, program, order
	Exp    string   `json:"exp"`
	Route  int      `json:"route"`
	Route2 int      `json:"route2"`
}

const tableRoutes = 6

// tableCall is the call of fn by a route; arg(i) are the argument forms.
func tableCall(fn string, n, route int, arg func(i int) string) string {
	args := make([]string, n)
	for i := range args {
		args[i] = arg(i)
	}
	all := strings.Join(args, " ")
	switch {
	case fn == "funcall" || fn == "apply": // special forms here
		return fmt.Sprintf("(%s %s)", fn, all)
	case route == 1:
		return fmt.Sprintf("(funcall #'%s %s)", fn, all)
	case route == 2:
		return fmt.Sprintf("(apply #'%s (list %s))", fn, all)
	case route == 3 && n > 0:
		return fmt.Sprintf("(apply #'%s %s (list %s))", fn, args[0], strings.Join(args[1:], " "))
	case route == 4 && n > 0:
		return fmt.Sprintf("(car (mapcar #'%s (list %s)))", fn, strings.Join(args, ") (list "))
	case route == 5:
		return fmt.Sprintf("((lambda (&rest all) (apply #'%s all)) %s)", fn, all)
	}
	return fmt.Sprintf("(%s %s)", fn, all)
}

func pickRow(t *rapid.T, ok func(r fnRow) bool) int {
	for {
		i := below(t, len(fnRows), "row")
		if ok(fnRows[i]) {
			return i
		}
	}
}

func genTypesCase(t *rapid.T) tableCase {
	for {
		i := pickRow(t, func(r fnRow) bool { return len(r.kinds) > 0 })
		r := fnRows[i]
		c := tableCase{Fn: r.name, Row: i, Wrong: below(t, len(r.kinds), "wrong"), Route: below(t, tableRoutes, "route")}
		kind := r.kinds[c.Wrong]
		if kind == "A" {
			continue
		}
		c.Class = pickOf(t, tableClassNames, "class")
		ex := r.except[c.Wrong]
		acc := " " + kindAccepts[kind] + " "
		c.Want, c.Exp = "dom", kindExpected[kind]
		for _, x := range strings.Fields(ex) {
			switch {
			case x == "?":
				c.Want = "open"
			case strings.HasPrefix(x, "+"):
				acc += strings.ReplaceAll(x, "+", " ") + " "
			case strings.HasPrefix(x, "!"):
				f := strings.Split(x[1:], "+")
				if f[0] == "" || f[0] == c.Class {
					c.Want = "err"
				}
				acc += strings.Join(f[1:], " ") + " "
			}
		}
		if c.Want == "open" || strings.Contains(acc, " "+c.Class+" ") {
			continue
		}
		for j, k := range r.kinds {
			if j == c.Wrong {
				c.Args = append(c.Args, pickOf(t, tableValues[c.Class], "wrong value"))
			} else {
				a := genKind(t, k)
				if k == "L" && a == "nil" {
					a = "(list 1 2)"
				}
				c.Args = append(c.Args, a)
			}
		}
		return c
	}
}

func genArityCase(t *rapid.T) tableCase {
	i := pickRow(t, func(r fnRow) bool { return r.min > 0 || r.max >= 0 })
	r := fnRows[i]
	c := tableCase{Fn: r.name, Row: i, Wrong: -1, Want: "program", Route: below(t, tableRoutes, "route")}
	var n int
	if r.max >= 0 && (r.min <= 0 || pct(t, 60)) {
		n = r.max + between(t, 1, 3, "more")
	} else {
		n = below(t, r.min, "fewer")
	}
	for j := 0; j < n; j++ {
		if j < len(r.kinds) && pct(t, 85) {
			c.Args = append(c.Args, genKind(t, r.kinds[j]))
		} else {
			c.Args = append(c.Args, genAny(t, 1))
		}
	}
	return c
}

func genOrderCase(t *rapid.T) tableCase {
	i := pickRow(t, func(r fnRow) bool { return len(r.kinds) > 0 })
	r := fnRows[i]
	c := tableCase{Fn: r.name, Row: i, Wrong: -1, Want: "order", Route: below(t, tableRoutes, "route"), Route2: below(t, tableRoutes, "route2")}
	kinds := r.kinds
	if r.max < 0 && pct(t, 40) { // more of the last
		for n := between(t, 1, 4, "more"); n > 0; n-- {
			kinds = append(kinds[:len(kinds):len(kinds)], kinds[len(kinds)-1])
		}
	}
	for _, k := range kinds {
		if k != "F" && pct(t, 8) {
			c.Args = append(c.Args, genAny(t, 1))
		} else {
			c.Args = append(c.Args, genKind(t, k))
		}
	}
	return c
}

// tableArgs evaluates the argument expressions and binds them to a0, a1...
func tableArgs(ctx context.Context, w *gmnlisp.World, exprs []string) (*gmnlisp.World, []gmnlisp.Node, error) {
	vars := gmnlisp.Variables{}
	var nodes []gmnlisp.Node
	for i, x := range exprs {
		v, err := w.Interpret(ctx, x)
		if err != nil {
			return nil, nil, fmt.Errorf("harness: argument %s: %w", x, err)
		}
		vars[gmnlisp.NewSymbol(fmt.Sprintf("a%d", i))] = v
		nodes = append(nodes, v)
	}
	return w.Let(vars), nodes, nil
}

// argText shows the state of an argument, also of those that have no contents
// to print.
func argText(ctx context.Context, w *gmnlisp.World, n gmnlisp.Node) string {
	s := show(fromNode(n))
	if v, ok := n.(*gmnlisp.StringBuilder); ok {
		return s + " " + pointers.ReplaceAllString(v.String(), "")
	}
	if n.ClassOf().Name().String() == "<hashtable>" {
		for _, k := range []gmnlisp.Node{gmnlisp.NewSymbol("a"), gmnlisp.Integer(3)} {
			v, _ := w.Eval(ctx, &gmnlisp.Cons{Car: gmnlisp.NewSymbol("gethash"), Cdr: gmnlisp.UnevalList(k, n)})
			s += " " + show(fromNode(v))
		}
		v, _ := evalForm1(ctx, w, "hash-table-count", n)
		s += " " + show(fromNode(v))
	}
	return s
}

func argTexts(ctx context.Context, w *gmnlisp.World, ns []gmnlisp.Node) (r []string) {
	for _, n := range ns {
		r = append(r, argText(ctx, w, n))
	}
	return
}

func (c tableCase) desc() string {
	return tableCall(c.Fn, len(c.Args), c.Route, func(i int) string { return c.Args[i] })
}

func checkTypes(c tableCase, o *Obs) error {
	o.Sample(c.desc())
	o.Label("%s: %s", c.Want, c.Fn)
	ctx := newCountCtx(1000000)
	w, out := newWorld()
	lw, nodes, err := tableArgs(ctx, w, c.Args)
	if err != nil {
		return err
	}
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	before := argTexts(ctx, w, nodes)
	call := tableCall(c.Fn, len(c.Args), c.Route, func(i int) string { return fmt.Sprintf("a%d", i) })
	got, err := lw.Interpret(ctx, "(block vb (with-handler (lambda (e) (trh 1 e) (return-from vb (list 'caught e))) (list 'value "+call+")))")
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%s: %s", c.desc(), fmt.Sprintf(format, a...))
	}
	if err != nil {
		return fail("the handler was not called for %v", err)
	}
	l, ok := got.(*gmnlisp.Cons)
	if !ok {
		return fail("%v", got)
	}
	cond := l.Cdr.(*gmnlisp.Cons).Car
	if k := show(fromNode(l.Car)); k != "caught" {
		return fail("no error, the value is %s", show(fromNode(cond)))
	}
	if len(sk.htrace) != 1 {
		return fail("the handler was called %d times: %v", len(sk.htrace), sk.htrace)
	}
	if after := argTexts(ctx, w, nodes); strings.Join(after, " ") != strings.Join(before, " ") {
		return fail("the arguments %s are %s afterwards", strings.Join(before, " "), strings.Join(after, " "))
	}
	if out.Len() > 0 {
		return fail("wrote %q", out.String())
	}
	cls := cond.ClassOf().Name().String()
	switch c.Want {
	case "program":
		r, err := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("e"): cond}).Interpret(ctx, "(instancep e (class <program-error>))")
		if err != nil || gmnlisp.IsNone(r) {
			return fail("the condition is %s %v, no <program-error>", cls, cond)
		}
	case "dom":
		if cls != "<domain-error>" {
			return fail("the condition is %s %v, no <domain-error>", cls, cond)
		}
		r, err := lw.Let(gmnlisp.Variables{gmnlisp.NewSymbol("e"): cond}).Interpret(ctx, fmt.Sprintf("(list (eq a%d (domain-error-object e)) (domain-error-object e) (domain-error-expected-class e))", c.Wrong))
		if err != nil {
			return fail("accessors: %v", err)
		}
		x, _ := vslice(fromNode(r))
		if !truth(x[0]) {
			return fail("the object of the condition is %s, not the argument %s", show(x[1]), before[c.Wrong])
		}
		if name := r.(*gmnlisp.Cons).Cdr.(*gmnlisp.Cons).Cdr.(*gmnlisp.Cons).Car.(gmnlisp.Class).Name().String(); !strings.Contains(" "+c.Exp+" ", " "+name+" ") {
			return fail("the expected class of the condition is %s, not one of %s", name, c.Exp)
		}
	}
	// without a handler the host gets the same error
	lw, nodes, err = tableArgs(ctx, w, c.Args)
	if err != nil {
		return err
	}
	before = argTexts(ctx, w, nodes)
	got, err = lw.Interpret(ctx, call)
	if err == nil {
		return fail("a value without a handler: %v", got)
	}
	if after := argTexts(ctx, w, nodes); strings.Join(after, " ") != strings.Join(before, " ") {
		return fail("the arguments %s are %s afterwards", strings.Join(before, " "), strings.Join(after, " "))
	}
	if c.Want == "dom" {
		var de *gmnlisp.DomainError
		if !errors.As(err, &de) {
			return fail("the host gets %T %v, no DomainError", err, err)
		}
		if show(fromNode(de.Object)) != show(fromNode(nodes[c.Wrong])) {
			return fail("the host gets an error about %v", de.Object)
		}
	}
	// and the interpreter goes on
	if v, err := w.Interpret(ctx, "(block nil (list (car '(1)) (catch 'q (throw 'q 2))))"); err != nil || show(fromNode(v)) != "(1 2)" {
		return fail("the interpreter is damaged: %v %v", v, err)
	}
	o.NonTrivial()
	return nil
}

func checkOrder(c tableCase, o *Obs) error {
	o.Sample(c.desc())
	o.Label("%s", c.Fn)
	noHandler := ""
	run := func(route int, around ...string) (res string, trace, args []string, err error) {
		ctx := newCountCtx(1000000)
		w, out := newWorld()
		w.Interpret(ctx, "(progn (set-property 1 'p1 'p2) (set-property 2 'p2 'p2))")
		lw, nodes, err := tableArgs(ctx, w, c.Args)
		if err != nil {
			return "", nil, nil, err
		}
		for i, n := range nodes {
			trace = append(trace, fmt.Sprintf("%d=%s", i+1, show(fromNode(n))))
		}
		sk := &sink{}
		curSink = sk
		defer func() { curSink = nil }()
		call := tableCall(c.Fn, len(c.Args), route, func(i int) string { return fmt.Sprintf("(tr %d a%d)", i+1, i) })
		if len(around) > 0 {
			call = around[0] + call + around[1]
		}
		v, err := lw.Interpret(ctx, call)
		res = pointers.ReplaceAllString(toOutcome(v, err).String()+" "+out.String(), "")
		if err != nil {
			cls, _ := errClass(err)
			res = "ERR " + cls
		}
		if len(sk.htrace) > 0 {
			return "", nil, nil, fmt.Errorf("%s calls the handler for %s, but is %s without one", call, sk.htrace[0], noHandler)
		}
		if a, b := strings.Join(sk.trace, " "), strings.Join(trace, " "); a != b {
			return "", nil, nil, fmt.Errorf("%s: arguments evaluated: %s, expected %s", call, a, b)
		}
		return res, sk.trace, argTexts(ctx, w, nodes), nil
	}
	r1, t1, a1, err := run(c.Route)
	if err != nil {
		return err
	}
	if strings.HasPrefix(r1, "ERR") {
		o.Label("error")
	} else {
		o.Label("value")
	}
	if len(t1) > 1 {
		o.NonTrivial()
	}
	if !strings.HasPrefix(r1, "ERR") {
		noHandler = r1
		r3, _, a3, err := run(c.Route, "(block qb (with-handler (lambda (e) (trh 1 e) (return-from qb (list 'handler-called (class-of e)))) ", "))")
		if err != nil {
			return err
		}
		if r1 != r3 || strings.Join(a1, " ") != strings.Join(a3, " ") {
			return fmt.Errorf("%s is %s and leaves %v, but with a handler %s and %v", c.desc(), r1, a1, r3, a3)
		}
	}
	if c.Route2 != c.Route {
		r2, _, a2, err := run(c.Route2)
		if err != nil {
			return err
		}
		if r1 != r2 {
			return fmt.Errorf("%s is %s, but %s is %s", c.desc(), r1, tableCall(c.Fn, len(c.Args), c.Route2, func(i int) string { return c.Args[i] }), r2)
		}
		if strings.Join(a1, " ") != strings.Join(a2, " ") {
			return fmt.Errorf("%s leaves the arguments as %s, but %s as %s", c.desc(), a1, tableCall(c.Fn, len(c.Args), c.Route2, func(i int) string { return c.Args[i] }), a2)
		}
	}
	return nil
}

// fetchCase: argument forms that read and assign variables.
type fetchCase struct {
	Row   int        `json:"row"`
	Fn    string     `json:"fn"`
	Vals  []string   `json:"vals"` // the values, a0...
	Junk  []string   `json:"junk"` // j0...
	Init  []int      `json:"init"` // xi starts as this value
	Forms []fetchArg `json:"forms"`
	Route int        `json:"route"`
}

// fetchArg assigns a variable (before or as the argument) and reads one.
type fetchArg struct {
	Set  int `json:"s"` // variable assigned, or -1
	To   int `json:"v"` // value assigned: a<To> below len(Vals), then junk
	Read int `json:"r"` // variable read; -1: the value of the setq form itself
	How  int `json:"h"`
}

func genFetchCase(t *rapid.T) fetchCase {
	i := pickRow(t, func(r fnRow) bool { return len(r.kinds) > 1 })
	r := fnRows[i]
	c := fetchCase{Fn: r.name, Row: i, Route: below(t, tableRoutes, "route")}
	kinds := r.kinds
	if r.max < 0 && pct(t, 30) {
		kinds = append(kinds[:len(kinds):len(kinds)], kinds[len(kinds)-1])
	}
	for _, k := range kinds {
		c.Vals = append(c.Vals, genKind(t, k))
	}
	n := len(kinds)
	for j := 0; j < 2; j++ {
		c.Junk = append(c.Junk, genAny(t, 0))
	}
	for j := 0; j < n; j++ {
		init := j
		if j > 0 && pct(t, 30) {
			init = n + below(t, 2, "junk")
		}
		c.Init = append(c.Init, init)
	}
	have := append([]int{}, c.Init...)
	for j := 0; j < n; j++ {
		a := fetchArg{Set: -1, Read: j, How: below(t, 4, "how")}
		switch {
		case have[j] != j && pct(t, 50):
			a.Set, a.To, a.Read = j, j, -1
		case have[j] != j:
			a.Set, a.To = j, j
		case j > 0 && pct(t, 70): // spoil one that was read
			a.Set, a.To = below(t, j, "spoil"), n+below(t, 2, "junk")
		case j+1 < n && have[j+1] != j+1 && pct(t, 50): // prepare one that will be
			a.Set, a.To = j+1, j+1
		}
		if a.Set >= 0 {
			have[a.Set] = a.To
		}
		c.Forms = append(c.Forms, a)
	}
	return c
}

func (c fetchCase) forms() (args []string) {
	val := func(k int) string {
		if k < len(c.Vals) {
			return fmt.Sprintf("a%d", k)
		}
		return fmt.Sprintf("j%d", k-len(c.Vals))
	}
	for _, a := range c.Forms {
		set := fmt.Sprintf("(setq x%d %s)", a.Set, val(a.To))
		x := fmt.Sprintf("x%d", a.Read)
		switch {
		case a.Set < 0:
			args = append(args, x)
		case a.Read < 0:
			args = append(args, set)
		case a.How == 0:
			args = append(args, "(let ((q 1)) "+set+" "+x+")")
		case a.How == 1:
			args = append(args, "(if "+set+" "+x+" "+x+")")
		case a.How == 2:
			args = append(args, "(funcall (lambda () "+set+" "+x+"))")
		default:
			args = append(args, "(progn "+set+" "+x+")")
		}
	}
	return
}

func checkFetch(c fetchCase, o *Obs) error {
	forms := c.forms()
	call := tableCall(c.Fn, len(forms), c.Route, func(i int) string { return forms[i] })
	o.Sample(call)
	o.Label("%s", c.Fn)
	// what each argument is
	x := append([]int{}, c.Init...)
	var sel []string
	for _, a := range c.Forms {
		v := a.To
		if a.Set >= 0 {
			x[a.Set] = a.To
		}
		if a.Read >= 0 {
			v = x[a.Read]
		}
		if v < len(c.Vals) {
			sel = append(sel, fmt.Sprintf("a%d", v))
		} else {
			sel = append(sel, fmt.Sprintf("j%d", v-len(c.Vals)))
		}
	}
	direct := tableCall(c.Fn, len(forms), c.Route, func(i int) string { return sel[i] })
	run := func(call string) (string, []string, error) {
		ctx := newCountCtx(1000000)
		w, out := newWorld()
		w.Interpret(ctx, "(progn (set-property 1 'p1 'p2) (set-property 2 'p2 'p2))")
		lw, nodes, err := tableArgs(ctx, w, c.Vals)
		if err != nil {
			return "", nil, err
		}
		vars := gmnlisp.Variables{}
		for i, e := range c.Junk {
			v, err := w.Interpret(ctx, e)
			if err != nil {
				return "", nil, fmt.Errorf("harness: %s: %w", e, err)
			}
			vars[gmnlisp.NewSymbol(fmt.Sprintf("j%d", i))] = v
			nodes = append(nodes, v)
		}
		for i, k := range c.Init {
			vars[gmnlisp.NewSymbol(fmt.Sprintf("x%d", i))] = nodes[k]
		}
		v, err := lw.Let(vars).Interpret(ctx, call)
		res := pointers.ReplaceAllString(toOutcome(v, err).String()+" "+out.String(), "")
		if err != nil {
			cls, _ := errClass(err)
			res = "ERR " + cls
		}
		return res, argTexts(ctx, w, nodes), nil
	}
	r1, a1, err := run(call)
	if err != nil {
		return err
	}
	r2, a2, err := run(direct)
	if err != nil {
		return err
	}
	if r1 != r2 {
		return fmt.Errorf("%s with values %v, junk %v and x as %v is %s; with the values of its arguments, %s, it is %s", call, c.Vals, c.Junk, c.Init, r1, direct, r2)
	}
	if strings.Join(a1, " ") != strings.Join(a2, " ") {
		return fmt.Errorf("%s with values %v, junk %v and x as %v leaves the arguments as %s; %s as %s", call, c.Vals, c.Junk, c.Init, a1, direct, a2)
	}
	if strings.HasPrefix(r1, "ERR") {
		o.Label("error")
	} else {
		o.Label("value")
		for _, a := range c.Forms {
			if a.Set >= 0 {
				o.NonTrivial()
				break
			}
		}
	}
	return nil
}

func initTableProps() {
	reg("C09", "builtin-fetch", 25000, 500000,
		"a function of the table whose argument forms read and assign the same variables, by every way to call; result and arguments afterwards must be those of the call with the values the forms have when evaluated left to right; non-trivial: an assignment and a value",
		genFetchCase, checkFetch)

	const types = "a built-in or library function of a table called with one argument of a wrong class (directly, by funcall, apply, mapcar or in a lambda); a handler must get exactly one condition, "
	reg("C28", "builtin-types", 20000, 400000,
		types+"a <domain-error> about that very argument where the table says so, and the arguments stay as they are; all completed cases are non-trivial",
		genTypesCase, checkTypes)
	reg("C08", "builtin-conditions", 20000, 400000,
		types+"whose accessors return the very object and the class expected, and without a handler the host gets it; all completed cases are non-trivial",
		genTypesCase, checkTypes)
	reg("C28", "builtin-arity", 20000, 400000,
		"a function of the table called with too few or too many arguments by every way to call; a handler must get exactly one <program-error>, nothing is written and the arguments stay as they are; all completed cases are non-trivial",
		genArityCase, checkTypes)
	reg("C09", "builtin-order", 25000, 500000,
		"a function of the table called with traced arguments, some of them symbols and lists that look like variables and calls, by two ways to call; the traces must be the arguments in order, once each, and results and arguments afterwards be the same both ways; non-trivial: two or more arguments",
		genOrderCase, checkOrder)
}
