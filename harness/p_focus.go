package main

// Dense small programs for single mechanisms.  The general generator of gen.go
// mixes everything with everything; these put many variations of one idiom in
// a few lines.  All run against the reference interpreter.

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type fg struct {
	t     *rapid.T
	n     int
	tags  []string // tags of the tagbodies around, all visible
	blk   []string
	depth int
	names []string
	bound []string
}

func (g *fg) id() string             { g.n++; return strconv.Itoa(g.n) }
func (g *fg) tr(e string) string     { return "(tr " + g.id() + " " + e + ")" }
func (g *fg) one(l ...string) string { return pickOf(g.t, l, "one") }
func (g *fg) pct(p int) bool         { return pct(g.t, p) }
func (g *fg) between(lo, hi int) int { return between(g.t, lo, hi, "n") }
func (g *fg) rep(lo, hi int, f func() string) string {
	var s []string
	for n := g.between(lo, hi); n > 0; n-- {
		s = append(s, f())
	}
	return strings.Join(s, " ")
}

// fdata are constants whose text is the same for eql and equalp.
var fdata = []string{"nil", "t", "'a", "'b", "'nil", "'()", "1", "2", "-1", "0", "\"s\"", "\"\"", "#\\a", "#\\b", "2.5", ":k", "'(a)", "'(nil)", "'(a . b)", "'list", "'(quote a)", "#(1)"}

func (g *fg) data() string { return pickOf(g.t, fdata, "data") }

func regFocus(prop, name string, quick, thorough int, rule string, gen func(g *fg) []string, nontrivial func(f map[string]int) bool) {
	reg(prop, name, quick, thorough, rule,
		func(t *rapid.T) Program { return Program{gen(&fg{t: t})} },
		func(p Program, o *Obs) error { return runProgram(p, o, progOpts{nontrivial: nontrivial}) })
}

// ---- C05: jumps

// guarded makes a jump happen only while there is fuel.
func (g *fg) guarded(jump string) string {
	c := "(> (setq fuel (- fuel 1)) 0)"
	switch g.between(0, 7) {
	case 0:
		return "(if " + c + " " + jump + ")"
	case 1:
		return fmt.Sprintf("(if (and %s (%s x %d)) %s)", c, g.one("<", ">", "="), g.between(0, 9), jump)
	case 2:
		return fmt.Sprintf("(cond ((not %s) nil) ((= (mod x 2) %d) %s))", c, g.between(0, 1), jump)
	case 3:
		return "(when " + c + " " + g.tr("x") + " " + jump + ")"
	case 4:
		return fmt.Sprintf("(and %s (= (mod fuel 3) %d) %s)", c, g.between(0, 2), jump)
	case 5:
		return fmt.Sprintf("(if (not %s) 0 (progn %s %s))", c, jump, g.tr("x"))
	case 6:
		return fmt.Sprintf("(case (mod fuel 3) ((%d) nil) (t (unless (not %s) %s)))", g.between(0, 2), c, jump)
	}
	return "(or (not " + c + ") " + jump + ")"
}

// wrap puts a jump somewhere it has to get out of.
func (g *fg) wrap(jump string) string {
	switch g.between(0, 17) {
	case 0:
		return "(mapc (lambda (i) " + g.tr("i") + " " + jump + ") '(1 2 3))"
	case 1:
		return "(funcall (lambda () " + jump + "))"
	case 2:
		return "(let ((k x)) " + jump + " " + g.tr("k") + ")"
	case 3:
		return "(progn (dotimes (i 2) " + g.tr("i") + " " + jump + ") 7)"
	case 4:
		return "(progn " + jump + " " + g.tr("x") + ")"
	case 5:
		return "(flet ((jf () " + jump + ")) (jf) " + g.tr("x") + ")"
	case 6:
		return "(unwind-protect " + jump + " " + g.tr("'clean") + ")"
	case 7:
		return "(catch 'c " + jump + ")"
	case 8:
		return "(list " + g.tr("1") + " " + jump + " " + g.tr("2") + ")"
	case 9:
		return "(block b " + jump + ")"
	case 10:
		return "(callit (lambda () " + jump + "))"
	case 11:
		return "(setq jk (lambda () " + jump + "))"
	case 12:
		return "(labels ((jf (n) (if (= n 0) " + jump + " (jf (- n 1))))) (jf 2))"
	case 13:
		return "(ignore-errors " + jump + " (car 1))"
	case 14:
		return "(setq x (+ x (progn " + jump + " 1)))"
	case 15:
		return "(dolist (i '(1 2)) " + jump + ")"
	}
	return jump
}

func (g *fg) jump() string {
	var j string
	switch g.between(0, 9) {
	case 0, 1:
		if len(g.blk) > 0 {
			j = "(return-from " + g.one(g.blk...) + " " + g.one("x", "fuel", "(setq x (+ x 10))") + ")"
			break
		}
		j = g.tr("x")
	default:
		if len(g.tags) == 0 {
			return g.segment()
		}
		j = "(go " + g.one(g.tags...) + ")"
	}
	if g.pct(50) {
		return g.guarded(g.wrap(j))
	}
	return g.wrap(g.guarded(j))
}

func (g *fg) segment() string {
	switch g.between(0, 9) {
	case 0, 1, 2:
		return g.tr("x")
	case 3, 4:
		return "(setq x (+ x " + strconv.Itoa(g.between(1, 3)) + "))"
	case 5:
		return g.guarded("(funcall jk)")
	case 6:
		if g.depth < 2 {
			return g.tagbody()
		}
	case 7:
		if g.depth < 2 {
			return g.block()
		}
	}
	return g.jump()
}

func (g *fg) tagbody() string {
	n := g.between(1, 5)
	pool := []string{"ta", "tb", "tc", "td", "x", "te"}
	save := g.tags
	var mine []string
	for i := 0; i < n; i++ {
		mine = append(mine, pool[(i*5+len(save))%len(pool)])
	}
	g.tags = append(append([]string{}, save...), mine...)
	if g.pct(40) {
		g.tags = mine
	}
	g.depth++
	var s []string
	for i := 0; i < n; i++ {
		if g.pct(70) {
			s = append(s, g.segment())
		}
		if g.pct(50) {
			s = append(s, g.segment())
		}
		s = append(s, mine[i])
	}
	s = append(s, g.rep(0, 2, g.segment))
	g.depth--
	g.tags = save
	return "(tagbody " + strings.Join(s, " ") + ")"
}

func (g *fg) block() string {
	b := g.one("b", "b", "c", "nil")
	save := g.blk
	g.blk = append(append([]string{}, save...), b)
	g.depth++
	s := g.rep(1, 3, g.segment)
	if len(g.tags) == 0 {
		s = g.tagbody() + " " + g.tr("x")
	}
	g.depth--
	g.blk = save
	return "(setq x (let ((v (block " + b + " " + s + "))) " + g.tr("v") + " (+ x 1)))"
}

func genJumps(g *fg) []string {
	body := g.tagbody()
	if g.pct(30) {
		body = g.block()
	}
	forms := []string{"(defun callit (f) " + g.tr("'in") + " (funcall f) " + g.tr("'out") + ")"}
	prog := fmt.Sprintf("(let ((fuel %d) (x 0) (jk (lambda () 0))) %s %s (list x fuel))", g.between(3, 14), body, g.one("", "", "(funcall jk)"))
	if g.pct(30) {
		forms = append(forms, "(defun jumper (fuel x jk) "+body+" (list x fuel))",
			fmt.Sprintf("(list (jumper %d 0 (lambda () 0)) (jumper %d 1 (lambda () 1)))", g.between(3, 12), g.between(3, 12)))
		return forms
	}
	return append(forms, prog, "(list 'after)")
}

// genInstances: several activations of the same block, tagbody or catch, and
// closures that leave one of them.
func genInstances(g *fg) []string {
	kind := g.between(0, 3)
	depth := g.between(2, 5)
	make1 := func() string {
		switch kind {
		case 0:
			return "(lambda () (return-from b (list 'from n)))"
		case 1:
			return "(lambda () (go out))"
		case 2:
			return "(lambda () (throw " + g.one("n", "'same", "(+ n 1)", "1") + " (list 'thrown n)))"
		}
		return "(lambda () (return-from rec (list 'from n)))"
	}
	k := "(if (= n " + strconv.Itoa(g.between(0, depth)) + ") " + make1() + " k)"
	if g.pct(20) {
		k = make1()
	}
	inner := fmt.Sprintf("(if (= n 0) %s (progn %s (rec (- n 1) %s)))", g.one("(funcall k)", "(progn (funcall k) 1)", "(mapcar (lambda (i) (funcall k)) '(1 2))", "(callit k)", "(unwind-protect (funcall k) "+g.tr("'cl")+")"), g.tr("n"), k)
	if g.pct(30) {
		inner = "(list " + g.tr("n") + " " + inner + ")"
	}
	if g.pct(25) {
		inner = "(unwind-protect " + inner + " " + g.tr("(list 'cleanup n)") + ")"
	}
	var body string
	switch kind {
	case 0:
		body = "(let ((v (block b " + inner + "))) " + g.tr("(list n v)") + " " + g.one("(list n v)", "v", "n") + ")"
	case 1:
		body = "(let ((v 'none)) (tagbody (setq v " + inner + ") " + g.tr("(list 'not n)") + " out " + g.tr("(list 'out n v)") + ") (list n v))"
	case 2:
		body = "(let ((v (catch " + g.one("n", "'same", "(mod n 2)") + " " + inner + "))) " + g.tr("(list n v)") + " (list n v))"
	default:
		body = g.one(inner, "(let ((v "+inner+")) "+g.tr("(list n v)")+" (list n v))", "(progn "+inner+")", "(cons n "+inner+")")
	}
	start := g.one("(lambda () 'start)", "(lambda () (throw 'top 'start))", "(lambda () (return-from top 'start))")
	forms := []string{
		"(defun callit (f) " + g.tr("'in") + " (funcall f) " + g.tr("'out") + ")",
		"(defun rec (n k) " + body + ")",
		fmt.Sprintf("(block top (catch 'top (list 'end (rec %d %s))))", depth, start),
	}
	if g.pct(30) { // a closure that outlives its block
		forms = append(forms, "(defglobal late nil)",
			"(block b (setq late (lambda () (return-from b 1))) 2)",
			fmt.Sprintf("(list (rec %d %s) 1)", depth, g.one("late", "(lambda () (funcall late))")))
	}
	return forms
}

// ---- C07: dynamic variables that are sometimes unbound

var dynNames = []string{"da", "db", "list", "dc"}

func (g *fg) dynRead() string {
	v := g.one(g.names...)
	switch g.between(0, 5) {
	case 0, 1, 2:
		return g.tr("(ignore-errors (list (dynamic " + v + ")))")
	case 3:
		return g.tr("(readall)")
	case 4:
		return g.tr("(block hb (with-handler (lambda (c) " + "(trh " + g.id() + " c) (return-from hb 'unbound)) (dynamic " + v + ")))")
	}
	if len(g.bound) > 0 {
		return g.tr("(dynamic " + g.one(g.bound...) + ")")
	}
	return g.tr("(ignore-errors (list (dynamic " + v + ")))")
}

func (g *fg) dynVal() string {
	if len(g.bound) > 0 && g.pct(30) {
		return g.one("(dynamic "+g.one(g.bound...)+")", "(list (dynamic "+g.one(g.bound...)+") 1)")
	}
	return g.one(g.data(), g.data(), "nil", g.id())
}

func (g *fg) dynStmt() string {
	if g.depth > 3 {
		return g.dynRead()
	}
	g.depth++
	defer func() { g.depth-- }()
	switch g.between(0, 12) {
	case 0, 1, 2, 3:
		n := g.between(1, 3)
		var bs, ns []string
		for i := 0; i < n; i++ {
			v := g.one(g.names...)
			dup := false
			for _, x := range ns {
				dup = dup || x == v
			}
			if dup {
				continue
			}
			ns = append(ns, v)
			bs = append(bs, "("+v+" "+g.dynVal()+")")
		}
		save := g.bound
		g.bound = append(append([]string{}, save...), ns...)
		s := "(dynamic-let (" + strings.Join(bs, " ") + ") " + g.rep(1, 4, g.dynStmt) + ")"
		g.bound = save
		return s
	case 4, 5:
		if len(g.bound) > 0 {
			v := g.one(g.bound...)
			return g.one("(set-dynamic "+g.dynVal()+" "+v+")", "(setf (dynamic "+v+") "+g.dynVal()+")")
		}
	case 6:
		return "(block eb " + g.rep(0, 2, g.dynStmt) + " (mapc (lambda (i) " + g.dynStmt() + " (return-from eb 1)) '(1 2)))"
	case 7:
		return "(catch 'ec " + g.rep(0, 2, g.dynStmt) + " (dynamic-let ((" + g.one(g.names...) + " " + g.dynVal() + ")) (throw 'ec 1)))"
	case 8:
		return "(ignore-errors " + g.rep(0, 2, g.dynStmt) + " (dynamic-let ((" + g.one(g.names...) + " " + g.dynVal() + ")) " + g.one("(car 1)", "(error \"e\")", "(undefd 1)", "unboundv", "(dynamic nodyn)") + "))"
	case 9:
		return "(tagbody (dynamic-let ((" + g.one(g.names...) + " " + g.dynVal() + ")) " + g.dynStmt() + " (go out)) out " + g.dynRead() + ")"
	case 10:
		return "(unwind-protect " + g.dynStmt() + " " + g.dynRead() + ")"
	case 11:
		return "(let ((" + g.one(g.names...) + " 'lexical)) " + g.dynRead() + ")"
	}
	return g.dynRead()
}

func genDynamics(g *fg) []string {
	g.names = dynNames[:g.between(1, 4)]
	var rd []string
	for _, v := range g.names {
		rd = append(rd, "(ignore-errors (list (dynamic "+v+")))")
	}
	forms := []string{"(defun readall () (list " + strings.Join(rd, " ") + "))"}
	for n := g.between(2, 5); n > 0; n-- {
		if g.pct(20) {
			forms = append(forms, "(defdynamic "+g.one(g.names...)+" "+g.dynVal()+")")
		}
		if g.pct(10) {
			forms = append(forms, "(defglobal "+g.one(g.names...)+" 'global)")
		}
		forms = append(forms, g.dynStmt())
	}
	return append(forms, "(readall)")
}

// ---- C08: names without a value or function

func genNames(g *fg) []string {
	names := []string{"list", "car", "novar", "mapc", "when", "if", "setf", "lambda", "gg", "ff", "loc", "dyn1", "tag1", "blk1", "*", "cdr", "format", "mm", "incf", "throw", "case", "labels"}
	funs := []string{"nofun", "novar", "gg", "loc", "dyn1", "tag1", "blk1", "<integer>", "flt", "lx"}
	forms := []string{"(defglobal gg 1)", "(defun ff (x) x)", "(defdynamic dyn1 3)", "(defmacro mm (x) x)"}
	bad := func() string {
		switch g.between(0, 5) {
		case 0, 1:
			return g.one(names...)
		case 2:
			return "(" + g.one(funs...) + g.one("", " 1", " 'a nil") + ")"
		case 3:
			return "(function " + g.one(funs...) + ")"
		case 4:
			return "(dynamic " + g.one("gg", "loc", "nodyn", "list", "dyn1") + ")"
		}
		return "(setq " + g.one("novar", "list", "dyn1", "mapc", "tag1") + " 1)"
	}
	one := func() string {
		b := bad()
		switch g.between(0, 7) {
		case 0:
			b = "(list 1 " + b + ")"
		case 1:
			b = "(let ((loc 1) (lx 2)) " + b + ")"
		case 2:
			b = "(flet ((flt (x) x)) " + b + ")"
		case 3:
			b = "(tagbody tag1 " + b + ")"
		case 4:
			b = "(block blk1 " + b + ")"
		case 5:
			b = "(funcall (lambda (loc) " + b + ") 5)"
		case 6:
			b = "(dynamic-let ((nodyn 1)) " + b + ")"
		}
		switch g.between(0, 4) {
		case 0:
			return b
		case 1:
			return "(list (ignore-errors (list " + b + ")))"
		}
		return "(block hb (with-handler (lambda (c) (trh " + g.id() + " c) (return-from hb 'handled)) " + b + "))"
	}
	for n := g.between(1, 5); n > 0; n-- {
		forms = append(forms, one())
	}
	return forms
}

// ---- C09: variables read and assigned in the same argument list

func (g *fg) fetchArg(vars []string) string {
	switch g.between(0, 9) {
	case 0, 1, 2, 3:
		return g.one(vars...)
	case 4, 5:
		return "(setq " + g.one(vars...) + " " + strconv.Itoa(g.between(1, 9)) + ")"
	case 6:
		return g.tr(g.one(vars...))
	case 7:
		return "(progn (setq " + g.one(vars...) + " " + strconv.Itoa(g.between(1, 9)) + ") " + g.one(vars...) + ")"
	case 8:
		if g.depth < 2 {
			g.depth++
			defer func() { g.depth-- }()
			return g.fetchNum(vars)
		}
	}
	return "(incf " + g.one(vars...) + ")"
}

func (g *fg) fetchNum(vars []string) string {
	a := func() string { return g.fetchArg(vars) }
	switch g.between(0, 10) {
	case 0, 1:
		return "(" + g.one("+", "-", "*") + " " + g.rep(2, 4, a) + ")"
	case 2:
		return "(" + g.one("max", "min") + " " + g.rep(2, 3, a) + ")"
	case 3:
		return "(mod " + a() + " " + a() + ")"
	case 4:
		return "(fn2 " + a() + " " + a() + ")"
	case 5:
		return "(length (list " + g.rep(0, 3, a) + "))"
	case 6:
		return "(if (" + g.one("<", ">", "=", "<=", ">=", "/=", "eql", "eq", "equal") + " " + a() + " " + a() + ") " + a() + " " + a() + ")"
	case 7:
		return "(gen2 " + a() + " " + a() + ")"
	case 8:
		return "((lambda (p q) (+ p (* 10 q))) " + a() + " " + a() + ")"
	case 9:
		return "(funcall " + g.one("#'fn2", "(lambda (p q) (- p q))", "#'-") + " " + a() + " " + a() + ")"
	}
	return "(let ((p " + a() + ") (q " + a() + ")) (+ p (* 10 q)))"
}

func genFetch(g *fg) []string {
	vars := []string{"x", "y"}
	a := func() string { return g.fetchArg(vars) }
	forms := []string{
		"(defun fn2 (p q) (+ (* p 100) q))",
		"(defun fnr (p &rest q) (list p q))",
		"(defgeneric gen2 (p q))", "(defmethod gen2 ((p <integer>) (q <object>)) (+ (* p 50) q))",
	}
	if g.pct(30) {
		forms = append(forms, "(defglobal x 3)", "(defglobal y 4)")
	}
	call := func() string {
		switch g.between(0, 12) {
		case 0, 1:
			return "(cons " + a() + " " + a() + ")"
		case 2:
			return "(list " + g.rep(2, 5, a) + ")"
		case 3:
			return "(vector " + g.rep(2, 4, a) + ")"
		case 4:
			return "(" + g.one("eq", "eql", "equal", "<", ">", "=", "<=", ">=", "/=") + " " + a() + " " + a() + ")"
		case 5:
			return "(fnr " + g.rep(1, 4, a) + ")"
		case 6:
			return "(apply #'fnr " + g.rep(1, 2, a) + " (list " + g.rep(0, 3, a) + "))"
		case 7:
			return "(append (list " + g.rep(1, 2, a) + ") (list " + g.rep(1, 2, a) + ") (list " + a() + "))"
		case 8:
			return "(nth (mod " + a() + " 3) (list " + a() + " " + a() + " " + a() + "))"
		case 9:
			return "(flet ((lf (p q) (list p q))) (lf " + a() + " " + a() + "))"
		case 10:
			return "(mapcar (lambda (p q) (list p q)) (list " + a() + " " + a() + ") (list " + a() + " " + a() + "))"
		}
		return g.fetchNum(vars)
	}
	for n := g.between(1, 3); n > 0; n-- {
		forms = append(forms, fmt.Sprintf("(let ((x %d) (y %d)) (list %s x y))", g.between(1, 9), g.between(1, 9), call()))
	}
	return forms
}

// ---- C10: what macro bodies see

func genCapture(g *fg) []string {
	forms := []string{"(defglobal ga 7)", "(defglobal gb '(gbp gbq))", "(defun fa (x) (list 'fa x))", "(defun f2 (x y) (list x y ga))"}
	type mac struct {
		name string
		req  []string
		rest bool
		body string
	}
	ps := []string{"p1", "p2", "p3"}
	var macs []mac
	tmpl := func(m mac) string {
		p := func() string {
			if len(m.req) == 0 {
				return g.one("ga", "(car gb)", "1")
			}
			return g.one(m.req...)
		}
		switch g.between(0, 17) {
		case 0:
			return "(list 'list " + p() + " ga " + p() + ")"
		case 1:
			return "`(list ,ga ," + p() + " ,(length gb))"
		case 2:
			return "`(list ga ," + p() + ")"
		case 3:
			return p()
		case 4:
			return "(list 'quote " + p() + ")"
		case 5:
			return "(if (consp " + p() + ") (list 'quote (car " + p() + ")) " + p() + ")"
		case 6:
			return "`(fa ,(+ ga 1))"
		case 7:
			return "(list 'quote (fa " + p() + "))"
		case 8:
			return "(let ((tmp ga)) `(list tmp0 ,tmp ," + p() + "))"
		case 9:
			return "`(let ((tmp0 ," + p() + ")) (list tmp0 ," + p() + "))"
		case 10:
			return g.one("nil", "t", "42", "'x", "'ga", "\"text\"", "'(quote (a b))", "':kw", "#\\c")
		case 11:
			return "(f2 'list 1)"
		case 12:
			return "(cons 'list (mapcar (lambda (i) (list 'quote (list i ga))) gb))"
		case 13:
			return "`(setq x (list x ," + p() + "))"
		case 14:
			return "`(funcall (lambda (ga) (list ga ," + p() + ")) ,ga)"
		case 15:
			return "(cond ((eq " + p() + " 'x) ''is-x) ((null " + p() + ") ''is-nil) (t (list 'list ''other " + p() + " ga)))"
		case 16:
			return "`(if ," + p() + " '," + p() + " ',gb)"
		}
		if len(macs) > 0 {
			o := macs[g.between(0, len(macs)-1)]
			s := "(" + o.name
			for range o.req {
				s += " ," + p()
			}
			if o.rest {
				s += g.one("", " 1", " ga 'b")
			}
			return "`(list ,ga " + s + "))"
		}
		return "`(list ,ga)"
	}
	for i := g.between(1, 3); i > 0; i-- {
		m := mac{name: fmt.Sprintf("m%d", i), req: ps[:g.between(0, 3)], rest: g.pct(25)}
		m.body = tmpl(m)
		if m.rest {
			switch g.between(0, 3) {
			case 0:
				m.body = "`(list ga ,@prest)"
			case 1:
				m.body = "(cons 'list (append prest (list ga)))"
			case 2:
				m.body = "(list 'quote (list ga prest))"
			}
		}
		params := strings.Join(m.req, " ")
		if m.rest {
			params += " &rest prest"
		}
		def := fmt.Sprintf("(defmacro %s (%s) %s)", m.name, params, m.body)
		macs = append(macs, m)
		forms = append(forms, def)
	}
	var call func(d int) string
	arg := func(d int) string {
		if d > 0 && g.pct(25) {
			return call(d - 1)
		}
		return g.one("x", "ga", "gb", "5", "nil", "'(a b)", "(list 1 2)", "'x", "(car gb)", "\"s\"", "t", g.tr("x"), "p1", "tmp0")
	}
	call = func(d int) string {
		m := macs[g.between(0, len(macs)-1)]
		s := "(" + m.name
		for range m.req {
			s += " " + arg(d)
		}
		if m.rest {
			for n := g.between(0, 3); n > 0; n-- {
				s += " " + arg(d)
			}
		}
		return s + ")"
	}
	use := func() string {
		c := func() string { return call(1) }
		switch g.between(0, 14) {
		case 0:
			return c()
		case 1:
			return "(list " + c() + " " + c() + ")"
		case 2:
			return "(if " + c() + " 1 2)"
		case 3:
			return "(let ((y " + c() + ")) (list y x))"
		case 4:
			return "(funcall (lambda (ga) " + c() + ") 'arg)"
		case 5:
			return "(cond ((null " + c() + ") 'none) (t " + c() + "))"
		case 6:
			return "(mapcar (lambda (x) " + c() + ") '(1 2))"
		case 7:
			return "(block b " + c() + " (return-from b " + c() + "))"
		case 8:
			return "(unwind-protect " + c() + " " + c() + ")"
		case 9:
			return "(and 1 " + c() + " " + c() + ")"
		case 10:
			return "(progn (dotimes (ga 2) " + g.tr(c()) + ") nil)"
		case 11:
			return "(flet ((fa (x) (list 'local x)) (lf (gb) " + c() + ")) (lf 1))"
		case 12:
			return "(let ((fa 1) (gb '(9))) " + c() + ")"
		case 13:
			return "(case 1 ((1) " + c() + "))"
		}
		return "(progn " + c() + " " + c() + ")"
	}
	for n := g.between(1, 4); n > 0; n-- {
		switch g.between(0, 4) {
		case 0:
			forms = append(forms, "(let ((x 1) (p1 'outer) (tmp0 'outer)) "+use()+")")
		case 1:
			forms = append(forms, fmt.Sprintf("(defun u%d (x ga p1 tmp0) %s)", n, use()), fmt.Sprintf("(list (u%d 1 2 3 4) (u%d nil '(z) 'pp 'tt))", n, n))
		default:
			forms = append(forms, "(let ((ga 0) (x '(ex)) (gb '(l)) (p1 'outer) (p2 3) (tmp0 'outer)) "+use()+")")
		}
	}
	return forms
}

// ---- C27: selection and iteration over any data

func (g *fg) keys() string {
	return g.rep(0, 3, func() string {
		return g.one("nil", "a", "b", "1", "2", "\"s\"", "#\\a", "2.5", ":k", "()", "(a)", "t", "0")
	})
}

func (g *fg) anyE(vars []string) string {
	if len(vars) > 0 && g.pct(50) {
		return g.one(vars...)
	}
	if g.pct(15) {
		return g.tr(g.data())
	}
	return g.data()
}

func (g *fg) select1(vars []string, d int) string {
	e := func() string { return g.anyE(vars) }
	act := func() string {
		return g.rep(0, 2, func() string {
			if d > 0 && g.pct(20) {
				return g.select1(vars, d-1)
			}
			return g.tr(e())
		})
	}
	switch g.between(0, 9) {
	case 0, 1, 2:
		s := "(case " + e()
		for n := g.between(0, 4); n > 0; n-- {
			s += " ((" + g.keys() + ") " + act() + ")"
		}
		if g.pct(60) {
			s += " (t " + act() + ")"
		}
		return s + ")"
	case 3:
		s := "(case-using " + g.one("#'eql", "#'equal", "(lambda (p q) (eq p q))", "(lambda (p q) (equal (list p) (list q)))") + " " + e()
		for n := g.between(0, 3); n > 0; n-- {
			s += " ((" + g.keys() + ") " + g.tr(e()) + ")"
		}
		if g.pct(60) {
			s += " (t " + g.tr(e()) + ")"
		}
		return s + ")"
	case 4, 5:
		s := "(cond"
		for n := g.between(0, 4); n > 0; n-- {
			s += " (" + e() + " " + act() + ")"
		}
		return s + ")"
	case 6:
		return "(" + g.one("and", "or") + " " + g.rep(0, 4, e) + ")"
	case 7:
		return "(if " + e() + " " + g.tr(e()) + " " + g.one("", g.tr(e())) + ")"
	case 8:
		return "(" + g.one("when", "unless") + " " + e() + " " + act() + ")"
	}
	return "(" + g.one("not", "null") + " " + e() + ")"
}

func genSelect(g *fg) []string {
	var forms []string
	for n := g.between(1, 4); n > 0; n-- {
		forms = append(forms, fmt.Sprintf("(let ((x %s) (y %s)) (list %s x y))", g.data(), g.data(), g.rep(1, 2, func() string { return g.select1([]string{"x", "y"}, 2) })))
	}
	return forms
}

func genLoops(g *fg) []string {
	var loop func(d int) string
	vars := []string{"x", "y", "z"}
	stmt := func(d int) string {
		if d > 0 && g.pct(25) {
			return loop(d - 1)
		}
		switch g.between(0, 4) {
		case 0:
			return "(setq " + g.one(vars...) + " " + g.anyE(vars) + ")"
		case 1:
			return g.select1(vars, 0)
		}
		return g.tr(g.one(vars...))
	}
	body := func(d int) string { return g.rep(0, 3, func() string { return stmt(d) }) }
	loop = func(d int) string {
		i := fmt.Sprintf("i%d", g.between(1, 3))
		switch g.between(0, 9) {
		case 0, 1, 2, 3:
			// several steps at once
			names := vars[:g.between(1, 3)]
			step := func() string {
				return g.one(append([]string{i, "(list " + g.one(names...) + " " + i + ")", "(cons " + i + " " + g.one(names...) + ")", g.data(), "t", "nil", g.tr(g.one(names...))}, names...)...)
			}
			specs := []string{"(" + i + " 0 (+ " + i + " 1))"}
			for _, v := range names {
				sp := "(" + v + " " + g.anyE(nil) + ")"
				if g.pct(75) {
					sp = "(" + v + " " + g.anyE(nil) + " " + step() + ")"
				}
				if g.pct(50) {
					specs = append(specs, sp)
				} else {
					specs = append([]string{sp}, specs...)
				}
			}
			return fmt.Sprintf("(for (%s) ((>= %s %d) %s) %s %s)", strings.Join(specs, " "), i, g.between(0, 4), g.one("", "(list "+strings.Join(names, " ")+")", i), g.tr("(list "+strings.Join(names, " ")+")"), body(d))
		case 4:
			return fmt.Sprintf("(progn (dotimes (%s %d) %s) %s)", i, g.between(-1, 3), g.tr(i)+" "+body(d), g.anyE(vars))
		case 5:
			return fmt.Sprintf("(dolist (%s (list %s)) %s)", i, g.rep(0, 4, func() string { return g.anyE(vars) }), g.tr(i)+" "+body(d))
		case 6:
			return fmt.Sprintf("(let ((%s %d)) (while (> %s 0) (setq %s (- %s 1)) %s))", i, g.between(0, 3), i, i, i, body(d))
		case 7:
			return fmt.Sprintf("(let ((%s (list %s))) (while %s %s (setq %s (cdr %s))))", i, g.rep(0, 4, g.data), i, body(d)+g.tr("(car "+i+")"), i, i)
		case 8:
			a, b := g.one(vars...), g.one(vars...)
			if g.pct(30) {
				return g.tr("(psetq " + g.rep(1, 4, func() string { return g.one(vars...) + " " + g.one(append([]string{g.anyE(vars)}, vars...)...) }) + ")")
			}
			if a == b {
				return fmt.Sprintf("(psetq %s %s)", a, g.anyE(vars))
			}
			return fmt.Sprintf("(psetq %s %s %s %s)", a, g.one("t", "nil", g.anyE(vars), "(list "+b+" 1)"), b, g.one(a, b, g.tr(a), "(list "+a+")"))
		}
		return fmt.Sprintf("(dolist (%s '(%s)) %s)", i, g.keys(), g.tr("(list "+i+")")+" "+body(d))
	}
	var forms []string
	for n := g.between(1, 3); n > 0; n-- {
		forms = append(forms, fmt.Sprintf("(let ((x %s) (y %s) (z %s)) (list %s x y z))", g.data(), g.data(), g.data(), g.rep(1, 2, func() string { return loop(2) })))
	}
	return forms
}

// ---- C03: names that are also functions, closures in loops

func genShadow(g *fg) []string {
	names := []string{"list", "car", "cons", "f", "a", "length", "lambda", "if"}
	fnames := []string{"car", "list", "f", "a", "length"}
	var e func(d int, vs, fs []string) string
	e = func(d int, vs, fs []string) string {
		v := func() string {
			if len(vs) == 0 {
				return g.data()
			}
			return g.one(vs...)
		}
		if d <= 0 {
			return g.one(v(), v(), g.data())
		}
		switch g.between(0, 15) {
		case 0, 1:
			x := g.one(names...)
			if g.pct(25) {
				// a name alone is bound to nil
				y := g.one(names...)
				body := e(d-1, append(append([]string{}, vs...), x), fs)
				if x == y {
					return "(" + g.one("let", "let*") + " (" + x + ") " + body + ")"
				}
				return "(let* (" + x + " (" + y + " (cons " + x + " " + e(d-1, vs, fs) + "))) " + e(d-1, append(append([]string{}, vs...), x, y), fs) + ")"
			}
			return "(let ((" + x + " " + e(d-1, vs, fs) + ")) " + e(d-1, append(append([]string{}, vs...), x), fs) + ")"
		case 2, 3:
			f := g.one(fnames...)
			p := g.one(names...)
			// flet: the body of the function sees the functions outside
			return "(flet ((" + f + " (" + p + ") " + e(d-1, append(append([]string{}, vs...), p), fs) + ")) " + e(d-1, vs, append(append([]string{}, fs...), f)) + ")"
		case 4:
			f, p := g.one(fnames...), g.one(names...)
			f2 := g.one(fnames...)
			if f == f2 {
				f2 = "other"
			}
			return "(flet ((" + f + " (" + p + ") " + e(d-1, append(append([]string{}, vs...), p), fs) + ") (" + f2 + " (" + p + ") (cons 2 " + e(d-1, append(append([]string{}, vs...), p), fs) + "))) " + e(d-1, vs, append(append([]string{}, fs...), f, f2)) + ")"
		case 5:
			x := g.one(names...)
			return "(funcall (lambda (" + x + ") " + e(d-1, append(append([]string{}, vs...), x), fs) + ") " + e(d-1, vs, fs) + ")"
		case 6, 7:
			if len(fs) > 0 {
				return "(" + g.one(fs...) + " " + e(d-1, vs, fs) + ")"
			}
		case 8:
			if len(fs) > 0 {
				return "(funcall #'" + g.one(fs...) + " " + e(d-1, vs, fs) + ")"
			}
		case 9:
			if len(vs) > 0 {
				return "(setq " + g.one(vs...) + " " + e(d-1, vs, fs) + ")"
			}
		case 10:
			if len(vs) > 0 {
				return "(progn (push-closure (lambda () (setq " + g.one(vs...) + " (cons 'c " + g.one(vs...) + ")))) " + e(d-1, vs, fs) + ")"
			}
		case 11:
			return "(cons " + e(d-1, vs, fs) + " " + e(d-1, vs, fs) + ")"
		case 12:
			if len(vs) > 0 {
				return "(progn (run-closures) " + g.one(vs...) + ")"
			}
		case 13:
			x := g.one(names...)
			return "(let* ((" + x + " " + e(d-1, vs, fs) + ") (" + g.one(names...) + "2 (cons 0 " + x + "))) " + e(d-1, append(append([]string{}, vs...), x), fs) + ")"
		case 14:
			f := g.one(fnames...)
			return "(labels ((" + f + " (n) (if (consp n) (cons 1 (" + f + " (cdr n))) " + e(d-1, append(append([]string{}, vs...), "n"), fs) + "))) " + e(d-1, vs, append(append([]string{}, fs...), f)) + ")"
		}
		return "(tr " + g.id() + " " + e(d-1, vs, fs) + ")"
	}
	forms := []string{
		"(defglobal closures nil)",
		"(defun push-closure (c) (setq closures (cons c closures)))",
		"(defun run-closures () (let ((cs closures)) (setq closures nil) (mapcar (lambda (c) (funcall c)) cs)))",
	}
	var gl []string
	for _, n := range []string{"list", "a"} {
		if g.pct(30) {
			forms = append(forms, "(defglobal "+n+" 'global-"+n+")")
			gl = append(gl, n)
		}
	}
	for n := g.between(1, 3); n > 0; n-- {
		forms = append(forms, e(4, gl, nil))
	}
	return append(forms, "(run-closures)")
}

// genClosureLoops: closures made in loops and used in and after them.
func genClosureLoops(g *fg) []string {
	mk := func(vars ...string) string {
		v := g.one(vars...)
		return g.one(
			"(lambda () "+v+")",
			"(lambda () (setq "+v+" (+ "+v+" 1)))",
			"(lambda () (list "+strings.Join(vars, " ")+"))",
			"(let (("+v+" (* 10 "+v+"))) (lambda () (setq "+v+" (+ "+v+" 1))))",
		)
	}
	st := func(vars ...string) string {
		return g.one("(setq cs (cons "+mk(vars...)+" cs))", "(setq cs (cons "+mk(vars...)+" cs))", g.tr("(funcall (car cs))"), "(setq "+vars[0]+" (+ "+vars[0]+" 1))", g.tr("(list "+strings.Join(vars, " ")+")"))
	}
	loop := func() string {
		b := func(vars ...string) string { return g.rep(1, 3, func() string { return st(vars...) }) }
		switch g.between(0, 6) {
		case 0:
			return "(for ((i 0 (+ i 1)) (j 5 (+ i j))) ((> i 2) " + g.tr("(list i j)") + ") " + b("j", "i", "n") + ")"
		case 1:
			return "(dolist (i '(1 2 3)) " + b("i", "n") + ")"
		case 2:
			return "(dotimes (i 3) (let ((j i)) " + b("j", "n") + "))"
		case 3:
			return "(let ((i 3)) (while (> i 0) (let ((j i)) " + b("j", "n") + ") (setq i (- i 1))))"
		case 4:
			return "(mapc (lambda (i) " + b("i", "n") + ") '(1 2 3))"
		case 5:
			return "(labels ((lp (i) (if (> i 0) (progn " + b("n", "i") + " (lp (- i 1)))))) (lp 2))"
		}
		return "(let ((i 0)) (tagbody again " + b("n", "i") + " (setq i (+ i 1)) (if (< i 3) (go again))))"
	}
	return []string{
		"(let ((cs (list (lambda () 'first))) (n 100)) " + g.rep(1, 2, loop) + " (list n (mapcar (lambda (c) (funcall c)) cs) (mapcar (lambda (c) (funcall c)) cs) n))",
	}
}

// ---- C28: parameter lists

func genParams(g *fg) []string {
	var forms []string
	type fn struct {
		name string
		req  int
		rest bool
	}
	var fns []fn
	def := func(kind string, name string) (string, fn) {
		f := fn{name, g.between(0, 4), g.pct(50)}
		var ps, ret []string
		for i := 0; i < f.req; i++ {
			ps = append(ps, fmt.Sprintf("p%d", i))
			ret = append(ret, fmt.Sprintf("p%d", i))
		}
		if f.rest {
			ps = append(ps, g.one("&rest", ":rest"), "pr")
			ret = append(ret, "pr")
		}
		body := "(list '" + name + " " + strings.Join(ret, " ") + ")"
		if f.rest && g.pct(20) {
			body = "(progn (setq pr (cons 'more pr)) " + body + ")"
		}
		if g.pct(20) && f.req > 0 {
			body = "(progn (setq p0 (list p0)) " + body + ")"
		}
		return "(" + kind + name + " (" + strings.Join(ps, " ") + ") " + body + ")", f
	}
	for i := g.between(1, 3); i > 0; i-- {
		s, f := def("defun ", fmt.Sprintf("f%d", i))
		forms = append(forms, s)
		fns = append(fns, f)
	}
	arg := func() string { return g.one("1", "'a", "nil", "t", "'(x y)", "\"s\"", "2.5", "''q", ":k", "&rest") }
	count := func(f fn) int {
		n := f.req
		switch g.between(0, 5) {
		case 0:
			n--
		case 1:
			n++
		case 2:
			n += g.between(0, 4)
		case 3:
			if f.rest {
				n += g.between(0, 4)
			}
		}
		if n < 0 {
			n = 0
		}
		return n
	}
	call := func() string {
		f := fns[g.between(0, len(fns)-1)]
		fexp := "#'" + f.name
		pre, post := "", ""
		if g.pct(25) {
			s, l := def("lambda", "")
			f, fexp = l, strings.Replace(s, "(list ' ", "(list ", 1)
			f.name = ""
		} else if g.pct(25) {
			s, l := def("", "lf")
			pre, post = "("+g.one("flet", "labels")+" ("+s+") ", ")"
			f, fexp = l, "#'lf"
		}
		n := count(f)
		var as []string
		for i := 0; i < n; i++ {
			as = append(as, arg())
		}
		all := strings.Join(as, " ")
		var c string
		switch r := g.between(0, 5); {
		case r == 0:
			c = "(funcall " + fexp + " " + all + ")"
		case r == 1:
			c = "(apply " + fexp + " (list " + all + "))"
		case r == 2 && n > 0:
			k := g.between(1, n)
			c = "(apply " + fexp + " " + strings.Join(as[:k], " ") + " (list " + strings.Join(as[k:], " ") + "))"
		case r == 3 && n > 0:
			c = "(mapcar " + fexp + " (list " + strings.Join(as, " 5) (list ") + " 5))"
		case f.name == "":
			c = "(" + fexp + " " + all + ")"
		default:
			c = "(" + f.name + " " + all + ")"
		}
		c = pre + c + post
		switch g.between(0, 3) {
		case 0:
			return c
		case 1:
			return "(list (ignore-errors " + c + "))"
		}
		return "(block hb (with-handler (lambda (c) (trh " + g.id() + " c) (return-from hb 'handled)) " + c + "))"
	}
	for n := g.between(1, 4); n > 0; n-- {
		forms = append(forms, call())
	}
	return forms
}

func initFocusProps() {
	regFocus("C05", "jumps", 60000, 800000,
		"tagbodies with several tags, guarded jumps forwards and backwards from every kind of form, stored jumps, nested tagbodies and blocks of the same names; non-trivial: two or more exits were taken",
		genJumps, func(f map[string]int) bool { return exits(f) > 1 })
	regFocus("C05", "instances", 15000, 400000,
		"recursive functions with a block, tagbody or catch in every activation and closures that leave one chosen activation; non-trivial: an exit was taken across calls",
		genInstances, func(f map[string]int) bool { return f["exit across call"] > 0 })
	regFocus("C07", "unbound", 25000, 600000,
		"sequences of dynamic-let, set-dynamic, defdynamic and reads of names that are often unbound, left by every exit, with values of any type; non-trivial: a dynamic binding was made and one read",
		genDynamics, func(f map[string]int) bool { return f["dynamic-let"] > 0 && f["dynamic read"] > 0 })
	regFocus("C08", "names", 20000, 500000,
		"variables, functions and dynamics that do not exist under names that exist in another namespace, with and without handlers; non-trivial: a condition was signalled",
		genNames, func(f map[string]int) bool { return f["signal"] > 0 })
	regFocus("C09", "fetch", 25000, 600000,
		"argument lists of built-in, generic, local and user functions in which the same variables are read and assigned; non-trivial: an assignment was made",
		genFetch, func(f map[string]int) bool { return f["setq"]+f["incf/decf"] > 0 })
	regFocus("C10", "capture", 25000, 600000,
		"macros whose bodies read globals and call functions, used where locals have the same names, in every position, with expansions of every type; non-trivial: a macro was expanded",
		genCapture, func(f map[string]int) bool { return f["macro call"] > 0 })
	regFocus("C27", "select", 25000, 600000,
		"case, case-using, cond, if, and, or, when and unless over data of any type and keys of any type; non-trivial: a key was compared or a clause tested",
		genSelect, func(f map[string]int) bool { return f["key compared"]+f["clause tested"] > 0 })
	regFocus("C27", "steps", 25000, 600000,
		"for with several variables stepped at once over any data, psetq, dolist, dotimes and while nested; non-trivial: two or more iterations ran",
		genLoops, func(f map[string]int) bool { return f["iteration"] > 1 })
	regFocus("C03", "shadowing", 25000, 600000,
		"variables and local functions named like each other and like built-in functions, closures over them called later; non-trivial: a closure or local function was made and called",
		genShadow, func(f map[string]int) bool { return f["user call"] > 0 })
	regFocus("C03", "closure-loops", 15000, 400000,
		"closures made in every kind of loop and called in and after it; non-trivial: two or more calls",
		genClosureLoops, func(f map[string]int) bool { return f["user call"] > 1 })
	regFocus("C28", "parameters", 25000, 600000,
		"functions, lambdas and local functions of 0-4 required parameters with and without &rest called by every way with about the right number of arguments; non-trivial: a call was made or rejected",
		genParams, func(f map[string]int) bool { return f["user call"]+f["arity error"] > 0 })
}
