package main

import (
	"fmt"
)

// ---- C04: calls in tail position and who they reach

func (g *fg) tailCall(fs []string) string {
	f := g.one(fs...)
	n := g.one("(- n 1)", "(- n 1)", "(- n 2)", "(setq n (- n 1))")
	acc := g.one("acc", "(cons (lambda () n) acc)", "(cons (lambda () (list n "+g.id()+")) acc)", "(cons (lambda () (setq n (+ n 100))) acc)", "(progn "+g.tr("n")+" acc)")
	args := n + " " + acc
	switch g.between(0, 9) {
	case 0:
		return "(funcall #'" + f + " " + args + ")"
	case 1:
		return "(apply #'" + f + " (list " + args + "))"
	case 2:
		return "(apply #'" + f + " " + n + " (list " + acc + "))"
	case 3:
		return "(let ((k (lambda () (" + f + " " + args + "))) (n n)) (funcall k))"
	}
	return "(" + f + " " + args + ")"
}

func (g *fg) tail(d int, fs []string) string {
	if d <= 0 {
		return g.tailCall(fs)
	}
	t := func() string { return g.tail(d-1, fs) }
	local := func() string {
		f := g.one(fs...)
		return f + " (n acc) (if (<= n 0) (list 'local-" + f + " n (mapcar (lambda (k) (funcall k)) acc)) " + g.tail(d-2, fs) + ")"
	}
	switch g.between(0, 22) {
	case 0:
		return "(flet ((" + local() + ")) " + t() + ")"
	case 1:
		return "(labels ((" + local() + ")) " + t() + ")"
	case 2:
		return "(let ((n (- n 1))) " + t() + ")"
	case 3:
		return "(let ((" + g.one(fs...) + " 5) (m n)) " + t() + ")"
	case 4:
		f := g.one(fs...)
		return "(progn (defun " + f + " (n acc) (list 'new-" + f + " n)) " + t() + ")"
	case 5:
		return fmt.Sprintf("(cond ((= (mod n 2) %d) %s) (t %s))", g.between(0, 1), t(), t())
	case 6:
		return "(progn " + g.tr("n") + " " + t() + ")"
	case 7:
		return fmt.Sprintf("(case (mod n 3) ((%d) %s) (t %s))", g.between(0, 2), t(), t())
	case 8:
		return "(" + g.one("and n", "or nil", "progn n", "if n", "when n", "unless nil") + " " + t() + ")"
	case 9:
		return "(block b " + t() + ")"
	case 10:
		return "(catch 'c " + t() + ")"
	case 11:
		return "(dynamic-let ((dv n)) " + g.tr("(dynamic dv)") + " " + t() + ")"
	case 12:
		return "(unwind-protect " + t() + " " + g.tr("(list 'cl n)") + ")"
	case 13:
		return "(list n " + t() + ")"
	case 14:
		return "(block b " + g.tr("n") + " (return-from b " + t() + "))"
	case 15:
		return "(let ((v " + t() + ")) " + g.tr("n") + " v)"
	case 16:
		return "(prog1 " + t() + " " + g.tr("n") + ")"
	case 17:
		return "(return-from " + g.one(fs...) + " " + t() + ")"
	case 18:
		return "(let* ((m n) (n (- m 1))) (setq acc (cons (lambda () (list m n)) acc)) " + t() + ")"
	case 19:
		return "(car (mapcar (lambda (i) " + t() + ") '(1)))"
	}
	return t()
}

func genTails(g *fg) []string {
	fs := []string{"fa", "fb", "fa"}[:g.between(1, 3)]
	var forms []string
	for _, f := range []string{"fa", "fb"} {
		forms = append(forms, fmt.Sprintf("(defun %s (n acc) (if (<= n 0) (list '%s n (mapcar (lambda (k) (funcall k)) acc) (mapcar (lambda (k) (funcall k)) acc)) %s))", f, f, g.tail(g.between(1, 3), fs)))
	}
	for n := g.between(1, 3); n > 0; n-- {
		forms = append(forms, fmt.Sprintf("(%s %d nil)", g.one("fa", "fb"), g.between(0, 6)))
	}
	return forms
}

// ---- C10: macros and functions defined anew

func genRedefine(g *fg) []string {
	names := []string{"ma", "mb"}
	is := map[string]int{} // 1 function, 2 macro
	var forms []string
	users := 0
	for n := g.between(4, 10); n > 0; n-- {
		name := g.one(names...)
		switch g.between(0, 7) {
		case 0, 1:
			forms = append(forms, "(defmacro "+name+" (x) "+g.one("(list 'quote (list 'macro-"+g.id()+" x))", "`(list 'macro-"+g.id()+" ,x)", "`(list "+g.id()+" ',x ,x)")+")")
			is[name] = 2
		case 2:
			forms = append(forms, "(defun "+name+" (x) (list 'function-"+g.id()+" x))")
			is[name] = 1
		case 3:
			forms = append(forms, "(defgeneric "+name+" (x))", "(defmethod "+name+" ((x <integer>)) (list 'method-"+g.id()+" x))")
			is[name] = 1
		case 4:
			if is[name] != 0 {
				users++
				forms = append(forms, fmt.Sprintf("(defun u%d (y) %s)", users, g.one("("+name+" 1)", "(list y ("+name+" 2))", "(let ((x 3)) ("+name+" 4))", "(if y ("+name+" 5) 6)")))
				forms = append(forms, fmt.Sprintf("(list (u%d 1) (u%d nil))", users, users))
			}
		default:
			if is[name] != 0 {
				forms = append(forms, g.one("("+name+" 1)", "(let ((y 2)) (list ("+name+" 3) y))", "(funcall (lambda (y) ("+name+" 3)) 4)", "(mapcar (lambda (y) ("+name+" 7)) '(1 2))"))
			}
		}
	}
	return forms
}

func initFocus2Props() {
	regFocus("C04", "tail-forms", 30000, 800000,
		"functions that call themselves and each other in the tail of every kind of form, under local functions and new definitions of the same name, with closures over the parameters of each activation; non-trivial: three or more calls",
		genTails, func(f map[string]int) bool { return f["user call"] > 2 })
	regFocus("C10", "redefinition", 20000, 400000,
		"sequences of definitions of the same names as macros, functions and generic functions with calls between; non-trivial: a macro was expanded and a function called",
		genRedefine, func(f map[string]int) bool { return f["macro call"] > 0 && f["user call"] > 0 })
}
