package main

// C08, C06: handlers that fail, leave, continue or signal again below other
// handlers, with cleanup forms that do the same between them.

import "fmt"

type hnest struct {
	*fg
	marks []string // catch tags and blocks around
	conds []string // variables with conditions that can be continued
}

func (h *hnest) fail() string {
	l := []string{
		"(error \"e\")", "(car 1)", "(/ 1 0)", "(+ 'a 1)", "(nosuch)", "nosuch", "(cons 1)", "(throw 'none 1)", "((lambda (x) x))",
		"(ff 1)", "(dynamic nodyn)", "(cerror \"go\" \"c\")", "(+ 1 (cerror \"go\" \"c\"))",
	}
	if len(h.conds) > 0 {
		c := h.conds[len(h.conds)-1]
		l = append(l, "(signal-condition "+c+" nil)", "(signal-condition "+c+" t)")
	}
	return h.one(l...)
}

func (h *hnest) leave() string {
	if len(h.marks) == 0 || h.pct(15) {
		return h.fail()
	}
	m := h.one(h.marks...)
	v := h.one(h.tr("'v"), "'w")
	if m[0] == 'b' {
		return "(return-from " + m + " " + v + ")"
	}
	return "(throw '" + m + " " + v + ")"
}

// act is what a handler, a cleanup form or a body does.
func (h *hnest) act(d int) string {
	switch r := h.between(0, 11); {
	case r < 3:
		return h.leave()
	case r < 6:
		return h.fail()
	case r < 8 && len(h.conds) > 0:
		return "(continue-condition " + h.one(h.conds...) + " " + h.one("1", h.tr("2")) + ")"
	case r < 9:
		return h.tr("'done")
	}
	if d <= 0 {
		return h.leave()
	}
	return h.form(d - 1)
}

func (h *hnest) seq(d int) string {
	s := h.act(d)
	if h.pct(40) {
		s = h.tr("'pre") + " " + s
	}
	if h.pct(30) {
		s += " " + h.tr("'post")
	}
	return s
}

func (h *hnest) form(d int) string {
	switch r := h.between(0, 11); {
	case r < 4:
		h.n++
		e := fmt.Sprintf("e%d", h.n)
		saved := h.conds
		h.conds = append(saved[:len(saved):len(saved)], e)
		f := "(trh " + h.id() + " " + e + ") " + h.seq(d-1)
		h.conds = saved
		return "(with-handler (lambda (" + e + ") " + f + ") " + h.seq(d) + ")"
	case r < 6:
		return "(unwind-protect " + h.act(d) + " " + h.seq(d-1) + ")"
	case r < 7:
		return "(list (ignore-errors " + h.seq(d) + "))"
	case r < 9:
		m := fmt.Sprintf("%s%d", h.one("b", "k"), h.between(1, 3))
		saved := h.marks
		h.marks = append(saved[:len(saved):len(saved)], m)
		s := h.seq(d)
		h.marks = saved
		if m[0] == 'b' {
			return "(list 'blk (block " + m + " " + s + "))"
		}
		return "(list 'cat (catch '" + m + " " + s + "))"
	case r < 10:
		return "(dynamic-let ((dy " + h.id() + ")) " + h.seq(d) + ")"
	case r < 11:
		return "(mapcar (lambda (x) " + h.seq(d) + ") '(1 2))"
	}
	return "(list (dynamic dy) " + h.act(d) + ")"
}

func genHandlerNest(g *fg) []string {
	forms := []string{"(defdynamic dy 0)", "(defun ff () 1)"}
	for n := g.between(1, 2); n > 0; n-- {
		h := &hnest{fg: g}
		s := h.form(g.between(2, 4))
		if g.pct(70) {
			h.marks = []string{"b1", "k1", "k2"}
			s = "(block b1 (catch 'k1 (catch 'k2 (with-handler (lambda (e0) (trh " + g.id() + " e0) (throw 'k1 'outermost)) " + h.form(g.between(1, 4)) + "))))"
		}
		forms = append(forms, s)
	}
	return forms
}

func initHandlerNest() {
	regFocus("C08", "nested-handlers", 60000, 800000,
		"handlers and cleanup forms that fail, leave, continue or signal again, nested in each other and in blocks, catches, dynamic-let and ignore-errors; non-trivial: an error in a handler or in a cleanup form",
		genHandlerNest, func(f map[string]int) bool {
			return f["error in handler"]+f["error in a cleanup form"]+f["exit from a cleanup form"] > 0
		})
	regFocus("C06", "nested-cleanups", 40000, 500000,
		"the programs of C08 nested-handlers that enter cleanup forms; non-trivial: cleanup forms ran on an exit, and an error or an exit happened in them",
		genHandlerNest, func(f map[string]int) bool {
			return f["cleanup on exit"] > 0 && f["error in a cleanup form"]+f["exit from a cleanup form"] > 0
		})
}
