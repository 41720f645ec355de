package main

// C34: the same program gives the same results each time; instances print
// their slots.  C20: definitions that are rejected.

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type detSlot struct {
	Name int   `json:"name"`
	Form int   `json:"form"` // 0 no initform
	Args []int `json:"args"`
}

type detClass struct {
	Supers []int     `json:"supers"`
	Slots  []detSlot `json:"slots"`
}

type detCreate struct {
	C    int   `json:"c"`
	Args []int `json:"args"` // names of initargs
	How  int   `json:"how"`
}

type detCase struct {
	Prog    Program     `json:"prog"`
	Classes []detClass  `json:"classes"`
	Creates []detCreate `json:"creates"`
}

const detSlots, detArgs = 6, 7

func genDet(t *rapid.T) detCase {
	var c detCase
	if pct(t, 50) {
		c.Prog = genProgram(t, instCfg)
	}
	n := between(t, 1, 3, "classes")
	for i := 0; i < n; i++ {
		var k detClass
		for j := 0; j < i; j++ {
			if pct(t, 50) {
				k.Supers = append(k.Supers, j)
			}
		}
		used := map[int]bool{}
		for m := between(t, 0, 4, "slots"); m > 0; m-- {
			s := detSlot{Name: below(t, detSlots, "slot"), Form: between(t, 0, 5, "form")}
			if used[s.Name] {
				continue
			}
			used[s.Name] = true
			for a := below(t, 3, "args"); a > 0; a-- {
				s.Args = append(s.Args, below(t, detArgs, "arg"))
			}
			k.Slots = append(k.Slots, s)
		}
		c.Classes = append(c.Classes, k)
	}
	for m := between(t, 1, 3, "creates"); m > 0; m-- {
		k := detCreate{C: below(t, n, "class"), How: below(t, 4, "how")}
		for a := below(t, 4, "args"); a > 0; a-- {
			k.Args = append(k.Args, below(t, detArgs, "arg"))
		}
		c.Creates = append(c.Creates, k)
	}
	return c
}

func detName(i int) string { return string(rune('a' + i)) }

func (c detCase) forms() []string {
	forms := append([]string{}, c.Prog.Forms...)
	id := 1000
	tr := func(v string) string { id++; return fmt.Sprintf("(tr %d %s)", id, v) }
	for i, k := range c.Classes {
		var supers, slots []string
		for _, s := range k.Supers {
			supers = append(supers, fmt.Sprintf("<verif-det%d>", s))
		}
		for _, s := range k.Slots {
			text := fmt.Sprintf("(%s :reader verif-det-%s :boundp verif-det-%s-p", detName(s.Name), detName(s.Name), detName(s.Name))
			switch s.Form {
			case 1, 2:
				text += " :initform " + tr(fmt.Sprint(s.Name*10+i))
			case 3:
				text += " :initform " + tr("'(x . y)")
			case 4:
				text += " :initform (progn (format t \"" + detName(s.Name) + "\") \"s t\")"
			case 5:
				if i == 0 && s.Name < 2 {
					text += " :initform (error \"no " + detName(s.Name) + "\")"
				} else {
					text += " :initform nil"
				}
			}
			for _, a := range s.Args {
				text += fmt.Sprintf(" :initarg arg%d", a)
			}
			slots = append(slots, text+")")
		}
		forms = append(forms, fmt.Sprintf("(defclass <verif-det%d> (%s) (%s))", i, strings.Join(supers, " "), strings.Join(slots, " ")))
	}
	for n, k := range c.Creates {
		form := fmt.Sprintf("(create (class <verif-det%d>)", k.C)
		for j, a := range k.Args {
			form += fmt.Sprintf(" 'arg%d %s", a, tr(fmt.Sprint(100*n+j)))
		}
		form += ")"
		switch k.How {
		case 1:
			form = "(ignore-errors " + form + ")"
		case 2:
			form = fmt.Sprintf("(list %s (format nil \"~a\" %s))", form, form)
		case 3:
			form = fmt.Sprintf("(let ((o %s)) (list (format nil \"~s\" o) (equal o o)))", form)
		}
		forms = append(forms, form)
	}
	return forms
}

var rxPointer = regexp.MustCompile(`0x[0-9a-f]+|serial:\d+`)

type detRun struct {
	outs   []string
	trace  []string
	stdout string
	last   gmnlisp.Node
	w      *gmnlisp.World
}

func runDet(forms []string) detRun {
	w, out := newWorld()
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	ctx := newCountCtx(20000)
	r := detRun{w: w}
	for _, text := range forms {
		v, err := w.Interpret(ctx, text)
		o := toOutcome(v, err)
		s := o.String()
		if err != nil {
			s = "ERR " + o.Class + " " + o.Dom + " " + rxPointer.ReplaceAllString(err.Error(), "P")
		} else if strings.HasPrefix(text, "(create") {
			r.last = v
			s += " " + v.String()
		}
		r.outs = append(r.outs, s)
		r.trace = append(r.trace, fmt.Sprint(len(sk.trace), len(sk.htrace)))
	}
	r.trace = append(append(r.trace, sk.trace...), sk.htrace...)
	r.stdout = out.String()
	return r
}

func checkDet(c detCase, o *Obs) error {
	forms := c.forms()
	all := strings.Join(forms, "\n  ")
	o.Sample(all)
	first := runDet(forms)
	initforms := 0
	for _, k := range c.Classes {
		for _, s := range k.Slots {
			if s.Form > 0 {
				initforms++
			}
		}
	}
	if initforms > 1 {
		o.NonTrivial()
		o.Label("several initforms")
	}
	if len(c.Prog.Forms) > 0 {
		o.Label("with a general program")
	}
	for n := 0; n < 3; n++ {
		again := runDet(forms)
		for i := range first.outs {
			if strings.Contains(first.outs[i], "gensym") {
				continue
			}
			if a, b := first.outs[i], again.outs[i]; a != b {
				return fmt.Errorf("form %d gives %s, and in another interpreter %s\n  %s", i, a, b, all)
			}
		}
		if d := diffSeq(first.trace, again.trace); d != "" {
			return fmt.Errorf("effects differ between two runs: %s\n  %s", d, all)
		}
		if first.stdout != again.stdout {
			return fmt.Errorf("the output is %q, and in another interpreter %q\n  %s", first.stdout, again.stdout, all)
		}
	}
	// an instance prints each slot that has a value
	if first.last == nil {
		return nil
	}
	o.Label("instance printed")
	ctx := newCountCtx(20000)
	lw := letVars(first.w, map[string]gmnlisp.Node{"verif-o": first.last})
	for _, mode := range []string{"~s", "~a"} {
		text, err := evalString(ctx, lw, "(format nil \""+mode+"\" verif-o)")
		if err != nil {
			return fmt.Errorf("%v\n  %s", err, all)
		}
		if again, _ := evalString(ctx, lw, "(format nil \""+mode+"\" verif-o)"); again != text {
			return fmt.Errorf("one instance prints as %s and as %s\n  %s", text, again, all)
		}
		head, rest, ok := strings.Cut(text, "{")
		if !ok || !strings.HasPrefix(head, "<verif-det") || !strings.HasSuffix(rest, "}") {
			return fmt.Errorf("an instance prints as %q\n  %s", text, all)
		}
		rest = strings.TrimSuffix(rest, "}")
		length := 0
		for s := 0; s < detSlots; s++ {
			name := detName(s)
			v, err := lw.Interpret(ctx, fmt.Sprintf("(verif-det-%s-p verif-o)", name))
			if err != nil || v.Equals(gmnlisp.Null, gmnlisp.EQUAL) {
				continue // no such slot, or no value
			}
			val, err := evalString(ctx, lw, fmt.Sprintf("(format nil \"%s:%s\" (verif-det-%s verif-o))", name, mode, name))
			if err != nil {
				return fmt.Errorf("%v\n  %s", err, all)
			}
			if !strings.Contains(","+rest+",", ","+val+",") {
				return fmt.Errorf("an instance with %s prints as %q\n  %s", val, text, all)
			}
			if length > 0 {
				length++
			}
			length += len(val)
		}
		if length != len(rest) {
			return fmt.Errorf("an instance prints as %q\n  %s", text, all)
		}
	}
	return nil
}

// ---- C20: what is no class or no parameter list is rejected

var rejNonClass = []string{"5", "\"s\"", "'sym", "#\\a", "2.5", "nil", "t", "'(a)", "#'car", "(create (class <verif-rej>))", "'<verif-rej>", "(list (class <verif-rej>))", "#(1)", "':k", "nosuchvariable"}

var rejForms = []string{
	"(defclass <verif-new> (X) ())", "(defclass <verif-new> (X <verif-rej>) ((a :initarg a)))", "(defclass <verif-new> (<verif-rej> X) ((b :initarg b)))",
	"(defclass <verif-new> (<verif-rej> <verif-rej2> X))", "(defmethod verif-rg ((x X)) 'wrong)", "(defmethod verif-rg ((x <verif-rej>) &rest (r X)) 'wrong)",
	"(create X)", "(create X 'a 1)", "(instancep 1 X)", "(instancep (create (class <verif-rej>)) X)", "(subclassp (class <verif-rej>) X)", "(subclassp X (class <verif-rej>))",
	"(subclassp X X)", "(class X)", "(funcall #'create X)", "(apply #'subclassp (list (class <verif-rej>) X))", "(mapcar #'create (list X))",
	"(create (class <verif-rej>) Y 1)", "(create (class <verif-rej>) 'a 1 Y 2)", "(create (class <verif-rej2>) Y 2)",
	"(defclass <verif-new> () ((Z :initarg a)))", "(defclass <verif-new> (<verif-rej>) ((c :reader Z)))", "(defclass <verif-new> () ((c :writer Z) (d :initarg d)))", "(defclass <verif-new> () ((c :accessor verif-new) (d :accessor Z)))",
	"(defclass <verif-new> () ((c :initarg Z :reader verif-rc)))", "(defclass <verif-new> () ((c :boundp Z)))", "(defclass Z () ())", "(defgeneric Z (x))", "(defmethod Z ((x <verif-rej>)) 'wrong)", "(defmethod verif-rg ((Z <verif-rej>)) 'wrong)", "(class Z)",
	"(defclass <verif-new> () ((c :reader)))", "(defclass <verif-new> () ((c :nosuchoption c)))", "(defclass <verif-new> () ((c reader verif-rc)))", "(defclass <verif-new> (<verif-rej>) (()))",
}

var rejNonSymbol = []string{"5", "\"a\"", "#\\a", "2.5", "'(a)", "#'car", "#(1)", "(class <verif-rej>)"}

type rejCase struct {
	Form int `json:"form"`
	X    int `json:"x"`
	Wrap int `json:"wrap"`
}

func genRej(t *rapid.T) []rejCase {
	var l []rejCase
	for n := between(t, 1, 4, "n"); n > 0; n-- {
		l = append(l, rejCase{below(t, len(rejForms), "form"), below(t, 1000, "x"), below(t, 4, "wrap")})
	}
	return l
}

func checkRej(l []rejCase, o *Obs) error {
	w, _ := newWorld()
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	ctx := newCountCtx(lookFuel)
	var log []string
	run := func(text string) (string, error) {
		log = append(log, text)
		v, err := w.Interpret(ctx, text)
		if err != nil {
			return "", fmt.Errorf("%v\n  after %s", err, strings.Join(log, "\n        "))
		}
		return show(fromNode(v)), nil
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	if _, err := run(`(progn (defclass <verif-rej> () ((a :initarg a :accessor verif-ra))) (defclass <verif-rej2> (<verif-rej>) ((b :initform 2 :reader verif-rb)))
 (defgeneric verif-rg (x)) (defmethod verif-rg ((x <verif-rej>)) (list 'ok (verif-ra x))) (defglobal <verif-new> 'none))`); err != nil {
		return err
	}
	for _, c := range l {
		form := rejForms[c.Form]
		if strings.Contains(form, "X") {
			form = strings.ReplaceAll(form, "X", rejNonClass[c.X%len(rejNonClass)])
		} else {
			form = strings.ReplaceAll(form, "Y", rejNonSymbol[c.X%len(rejNonSymbol)])
			form = strings.ReplaceAll(form, "Z", []string{"5", "\"a\"", "#\\a", "2.5", "(a b)", "#(1)"}[c.X%6])
		}
		n := len(sk.htrace)
		calls := 0
		switch c.Wrap {
		case 0:
			log = append(log, form)
			if v, err := w.Interpret(ctx, form); err == nil {
				return fail("it is accepted and gives %s", show(fromNode(v)))
			}
		case 1:
			v, err := run("(ignore-errors (list " + form + "))")
			if err != nil {
				return err
			}
			if v != "nil" {
				return fail("it is accepted and gives %s", v)
			}
		case 2:
			v, err := run("(block b (with-handler (lambda (c) (trh 1 c) (return-from b 'caught)) (list " + form + ")))")
			if err != nil {
				return err
			}
			if v != "caught" {
				return fail("the handler does not leave, the value is %s", v)
			}
			calls = 1
		case 3:
			v, err := run("(catch 'k (with-handler (lambda (c) (throw 'k 'wrong)) (with-handler (lambda (c) (trh 1 c) (throw 'k 'caught)) (list 1 " + form + " 2))))")
			if err != nil {
				return err
			}
			if v != "caught" {
				return fail("the handler does not leave, the value is %s", v)
			}
			calls = 1
		}
		if got := len(sk.htrace) - n; got != calls {
			return fail("the handler is called %d times", got)
		}
		o.NonTrivial()
		o.Sample(log[len(log)-1])
		// nothing is defined, and what was is as it was
		for _, p := range [][2]string{
			{"<verif-new>", "none"}, {"(verif-rg (create (class <verif-rej>) 'a 3))", "(ok 3)"},
			{"(let ((o (create (class <verif-rej2>) 'a 4))) (list (verif-ra o) (verif-rb o) (verif-rg o) (instancep o (class <verif-rej>)) (subclassp (class <verif-rej2>) (class <verif-rej>)) (subclassp (class <verif-rej>) (class <verif-rej2>))))", "(4 2 (ok 4) t t nil)"},
			{"(ignore-errors (list (verif-rg 5)))", "nil"},
		} {
			v, err := run(p[0])
			if err != nil {
				return err
			}
			if v != p[1] {
				return fail("the value is %s, expected %s", v, p[1])
			}
		}
	}
	return nil
}

// ---- C28: names that appear twice in a parameter list

type dupCase struct {
	N     int  `json:"n"`
	At    int  `json:"at"`
	Of    int  `json:"of"`
	Rest  bool `json:"rest"`
	Where int  `json:"where"`
	Local bool `json:"local"`
}

var dupForms = []string{
	"(progn (defun verif-dup P 'wrong) 'wrong)", "(progn (lambda P 'wrong) 'wrong)", "(progn ((lambda P 'wrong) A) 'wrong)", "(flet ((verif-dup P 'wrong)) 'wrong)",
	"(labels ((verif-dup P 'wrong)) 'wrong)", "(progn (defmacro verif-dupm P 'wrong) 'wrong)", "(progn (funcall (lambda P 'wrong) A) 'wrong)",
}

func genDup(t *rapid.T) dupCase {
	c := dupCase{N: between(t, 2, 6, "n"), Rest: pct(t, 40), Where: below(t, len(dupForms), "where"), Local: pct(t, 40)}
	c.At = below(t, c.N, "at")
	c.Of = below(t, c.N-1, "of")
	if c.Of >= c.At {
		c.Of++
	}
	return c
}

func checkDup(c dupCase, o *Obs) error {
	w, _ := newWorld()
	ctx := newCountCtx(lookFuel)
	names := []string{"alpha", "beta", "gamma", "delta", "x", "nn"}[:c.N]
	list := func(names []string) string {
		l := append([]string{}, names...)
		if c.Rest {
			l = append(l[:c.N-1:c.N-1], []string{"&rest", ":rest"}[c.At%2], l[c.N-1])
		}
		return "(" + strings.Join(l, " ") + ")"
	}
	args := strings.TrimSpace(strings.Repeat(" 1", c.N))
	text := func(p string) string {
		return strings.ReplaceAll(strings.ReplaceAll(dupForms[c.Where], "P", p), "A", args)
	}
	good := text(list(names))
	v, err := w.Interpret(ctx, good)
	if err != nil {
		return fmt.Errorf("%s: %v", good, err)
	}
	if show(fromNode(v)) != "wrong" {
		return fmt.Errorf("%s: %s", good, show(fromNode(v)))
	}
	if _, err := w.Interpret(ctx, "(progn (defun verif-dup () 'before) (defmacro verif-dupm () ''before-m))"); err != nil {
		return err
	}
	dup := append([]string{}, names...)
	dup[c.At] = dup[c.Of]
	bad := text(list(dup))
	o.Sample(bad)
	o.NonTrivial()
	if c.Local {
		bad = "(let ((alpha 1)) " + bad + ")"
	}
	if v, err := w.Interpret(ctx, bad); err == nil {
		return fmt.Errorf("%s is accepted and gives %s", bad, show(fromNode(v)))
	}
	v, err = w.Interpret(ctx, "(list (verif-dup) (verif-dupm))")
	if err != nil || show(fromNode(v)) != "(before before-m)" {
		return fmt.Errorf("after %s, what was defined before gives %v %v", bad, v, err)
	}
	return nil
}

func initDetProps() {
	reg("C34", "again", 15000, 300000,
		"half of the time a random program, then up to 3 classes (superclasses, shared slot names and initargs, initforms with effects and errors) and instances made and printed, all of it evaluated in 4 new interpreters; values, errors, effects and output must be the same, and the text of an instance show each slot that has a value once; non-trivial: at least 2 initforms",
		genDet, checkDet)
	reg("C34", "hash-print", 8000, 150000,
		"hash tables made by up to 12 insertions and removals of keys of all kinds and printed three times in each of 3 new interpreters, also inside another table; the text must be the same each time and show each key with its value once; non-trivial: at least 2 keys",
		genDetHash, checkDetHash)
	reg("C20", "rejected", 15000, 300000,
		"1 to 4 definitions and calls of a table in which something else stands for a class or for the name of an initarg, with and without handlers; each must fail, call the handler once and leave what is defined as it was; all completed cases are non-trivial",
		genRej, checkRej)
	reg("C28", "duplicate-parameters", 8000, 100000,
		"parameter lists of 2 to 6 names of which two are the same (also the rest parameter), in each form that has one; the form must fail and define nothing, and the same list with different names be accepted; all completed cases are non-trivial",
		genDup, checkDup)
}

// ---- C34: what a hash table prints

type detHash struct {
	Keys []int `json:"keys"` // 3 of 4 put, the rest remove
	Vals []int `json:"vals"`
	Nest bool  `json:"nest"`
}

var detHashKeys = []string{"'a", "'b", "'zz", "\"a\"", "\"b c\"", "1", "2", "-30", "123456789", "1.5", "2.25", "#\\a", "#\\newline", "':k", "\"1\"", "\"\""}
var detHashVals = []string{"1", "nil", "\"x\"", "'(a . b)", "'(1 2 \"s\")", "#\\q", "'|A b|", "#(1 2)", "2.5"}

func genDetHash(t *rapid.T) detHash {
	c := detHash{Nest: pct(t, 30)}
	for n := between(t, 0, 12, "n"); n > 0; n-- {
		k := below(t, len(detHashKeys), "key")
		if pct(t, 20) {
			k = -1 - k
		}
		c.Keys = append(c.Keys, k)
		c.Vals = append(c.Vals, below(t, len(detHashVals), "val"))
	}
	return c
}

func checkDetHash(c detHash, o *Obs) error {
	ctx := newCountCtx(lookFuel)
	have := map[int]int{}
	form := "(let ((h (make-hash-table)) (h2 (make-hash-table)))"
	for i, k := range c.Keys {
		if k < 0 {
			k = -1 - k
			form += " (remhash " + detHashKeys[k] + " h)"
			delete(have, k)
		} else {
			form += " (setf (gethash " + detHashKeys[k] + " h) " + detHashVals[c.Vals[i]] + ")"
			have[k] = c.Vals[i]
		}
	}
	object := "h"
	if c.Nest {
		form += " (setf (gethash 'in h2) h)"
		object = "h2"
	}
	// ~s and ~a of the table, and ~s of what it holds
	form += " (list (format nil \"~s\" " + object + ") (format nil \"~s\" " + object + ") (format nil \"~s\" " + object + ")"
	var keys []int
	for k := range detHashKeys {
		if _, ok := have[k]; ok {
			keys = append(keys, k)
			form += fmt.Sprintf(" (format nil \"~s:~s\" %s (gethash %s h))", detHashKeys[k], detHashKeys[k])
		}
	}
	form += "))"
	o.Sample(form)
	if len(have) > 1 {
		o.NonTrivial()
	}
	if c.Nest {
		o.Label("a table in a table")
	}
	text := ""
	for n := 0; n < 3; n++ {
		w, _ := newWorld()
		v, err := w.Interpret(ctx, form)
		if err != nil {
			return fmt.Errorf("%s: %v", form, err)
		}
		var l []string
		for {
			p, ok := v.(*gmnlisp.Cons)
			if !ok {
				break
			}
			l = append(l, p.Car.String())
			v = p.Cdr
		}
		if len(l) != 3+len(keys) {
			return fmt.Errorf("%s: %q", form, l)
		}
		if n == 0 {
			text = l[0]
		}
		for _, s := range l[:3] {
			if s != text {
				return fmt.Errorf("a hash table prints as %s and as %s\n  %s", text, s, form)
			}
		}
		in := text
		if c.Nest {
			if !strings.HasPrefix(in, "{in:") || !strings.HasSuffix(in, "}") {
				return fmt.Errorf("a hash table prints as %q\n  %s", text, form)
			}
			in = in[4 : len(in)-1]
		}
		if !strings.HasPrefix(in, "{") || !strings.HasSuffix(in, "}") || len(in) < 2 {
			return fmt.Errorf("a hash table prints as %q\n  %s", text, form)
		}
		rest := "," + in[1:len(in)-1] + ","
		length := 0
		for i, e := range l[3:] {
			if !strings.Contains(rest, ","+e+",") {
				return fmt.Errorf("a hash table with %s prints as %q\n  %s", e, text, form)
			}
			if i > 0 {
				length++
			}
			length += len(e)
		}
		if length != len(in)-2 {
			return fmt.Errorf("a hash table prints as %q\n  %s", text, form)
		}
	}
	return nil
}
