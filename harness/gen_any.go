package main

// Expressions whose values are any data: what passes through calls, bindings
// and exits must not be looked at, whatever it is.

import (
	"fmt"
	"strings"
)

// anyData: values that a careless evaluator could take for something else.
var anyData = []string{"nil", "t", "'()", "'a", "'e", "'f1", "'nil", "'(a b)", "'(tr 99 1)", "'(quote a)", "'(nil)", "'(lambda (a) a)", "'car", "\"str\"", "\"\"", "#\\a", "#\\space", "1.5", "0.0", "-0.5", "0", "-1", "12345678901", ":key", "&rest", "'(a . b)", "'(1 2 . nil)", "''x", "#(1 2)", "'unquote", "'(unquote e)"}

func (g *gen) ablocks() (r []string) {
	for s := g.sc; s != nil; s = s.up {
		r = append(r, s.ablocks...)
	}
	return
}

func (g *gen) anyBody(d, max int) string {
	n := between(g.t, 0, max-1, "body")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(g.stmt(d))
		sb.WriteByte(' ')
	}
	sb.WriteString(g.anyExpr(d))
	return sb.String()
}

var anyTags = []string{"'ct", "'ct2", "1", "2", "#\\a", ":tag", "1.0"}

func (g *gen) anyExpr(d int) string {
	ps := []production{
		{"any-lit", 5, func(int) string { return g.pick(anyData, "data") }},
		{"any-nil", 2, func(int) string { return "nil" }},
	}
	if vs := g.visible("eoz"); len(vs) > 0 {
		ps = append(ps, production{"any-var", 6, func(int) string { return g.pick(vs, "any") }})
	}
	if len(g.adyns) > 0 {
		ps = append(ps, production{"any-dynamic", 3, func(int) string { return "(dynamic " + g.pick(g.adyns, "dyn") + ")" }})
	}
	if d <= 0 {
		return g.choose(ps, d)
	}
	set := func(prefix string, f func(v string) string) {
		if vs := g.visible(prefix); len(vs) > 0 {
			ps = append(ps, production{"any-setq", 2, func(int) string { return f(g.pick(vs, "var")) }})
		}
	}
	set("eoz", func(v string) string { return fmt.Sprintf("(setq %s %s)", v, g.anyExpr(d-1)) })
	binds := func(star string) func(int) string {
		return func(d int) string {
			n := between(g.t, 1, 2, "nbind")
			var sb strings.Builder
			var names []string
			sb.WriteString("(let" + star + " (")
			if star != "" {
				g.push()
			}
			for i := 0; i < n; i++ {
				v := g.newVar("any")
				if len(names) > 0 && names[0] == v {
					continue
				}
				names = append(names, v)
				fmt.Fprintf(&sb, "(%s %s)", v, g.anyExpr(d-1))
				if star != "" {
					g.sc.vars[v] = true
				}
			}
			if star == "" {
				g.push()
			}
			for _, v := range names {
				g.sc.vars[v] = true
			}
			b := g.anyBody(d-1, 2)
			g.pop()
			return sb.String() + ") " + b + ")"
		}
	}
	ps = append(ps,
		production{"any-int", 1, func(d int) string { return g.intExpr(d - 1) }},
		production{"any-list", 1, func(d int) string { return g.listExpr(d - 1) }},
		production{"any-tr", 2, func(d int) string { return g.tr(g.anyExpr(d - 1)) }},
		production{"any-if", 2, func(d int) string {
			if g.chance(20) {
				return fmt.Sprintf("(if %s %s)", g.anyExpr(d-1), g.anyExpr(d-1))
			}
			return fmt.Sprintf("(if %s %s %s)", g.anyExpr(d-1), g.anyExpr(d-1), g.anyExpr(d-1))
		}},
		production{"any-cond", 2, func(d int) string {
			var sb strings.Builder
			sb.WriteString("(cond")
			for i := between(g.t, 1, 3, "clauses"); i > 0; i-- {
				if g.chance(25) {
					fmt.Fprintf(&sb, " (%s)", g.anyExpr(d-1))
				} else {
					fmt.Fprintf(&sb, " (%s %s)", g.anyExpr(d-1), g.anyBody(d-1, 2))
				}
			}
			return sb.String() + ")"
		}},
		production{"any-bool", 2, func(d int) string {
			var l []string
			for i := between(g.t, 1, 3, "n"); i > 0; i-- {
				l = append(l, g.anyExpr(d-1))
			}
			return "(" + g.pick([]string{"and", "or"}, "op") + " " + strings.Join(l, " ") + ")"
		}},
		production{"any-let", 3, binds("")},
		production{"any-let*", 2, binds("*")},
		production{"any-progn", 1, func(d int) string {
			return fmt.Sprintf("(%s %s)", g.pick([]string{"progn", "when t", "unless nil"}, "op"), g.anyBody(d-1, 2))
		}},
		production{"any-prog1", 1, func(d int) string {
			if g.chance(50) {
				return fmt.Sprintf("(prog2 %s %s %s)", g.stmt(d-1), g.anyExpr(d-1), g.stmt(d-1))
			}
			return fmt.Sprintf("(prog1 %s %s)", g.anyExpr(d-1), g.stmt(d-1))
		}},
		production{"any-call", 3, func(d int) string {
			v := g.newVar("any")
			arg := g.anyExpr(d - 1)
			g.push()
			g.sc.vars[v] = true
			b := g.anyBody(d-1, 2)
			g.pop()
			switch g.intn(6, "call") {
			case 0:
				return fmt.Sprintf("((lambda (%s) %s) %s)", v, b, arg)
			case 1:
				return fmt.Sprintf("(funcall (lambda (%s) %s) %s)", v, b, arg)
			case 2:
				return fmt.Sprintf("(apply (lambda (%s) %s) (list %s))", v, b, arg)
			case 3:
				return fmt.Sprintf("(car (mapcar (lambda (%s) %s) (list %s)))", v, b, arg)
			case 4:
				return fmt.Sprintf("(flet ((j (%s) %s)) (j %s))", v, b, arg)
			default:
				return fmt.Sprintf("(labels ((j (%s) %s)) (funcall #'j %s))", v, b, arg)
			}
		}},
		production{"any-rest", 1, func(d int) string {
			v := g.newVar("any")
			var args []string
			for i := g.intn(4, "n"); i > 0; i-- {
				args = append(args, g.anyExpr(d-1))
			}
			g.push()
			g.sc.vars[v] = true
			b := g.anyBody(d-1, 2)
			g.pop()
			return fmt.Sprintf("(funcall (lambda (&rest %s) %s) %s)", v, b, strings.Join(args, " "))
		}},
		production{"any-cons", 2, func(d int) string {
			switch g.intn(5, "cons") {
			case 0:
				return fmt.Sprintf("(car (cons %s %s))", g.anyExpr(d-1), g.anyExpr(d-1))
			case 1:
				return fmt.Sprintf("(cdr (cons %s %s))", g.anyExpr(d-1), g.anyExpr(d-1))
			case 2:
				return fmt.Sprintf("(aref (vector %s %s) %d)", g.anyExpr(d-1), g.anyExpr(d-1), g.intn(2, "i"))
			case 3:
				return fmt.Sprintf("(list %s %s)", g.anyExpr(d-1), g.anyExpr(d-1))
			default:
				return fmt.Sprintf("`(x ,%s ,%s)", g.anyExpr(d-1), g.anyExpr(d-1))
			}
		}},
		production{"any-block", 2, func(d int) string {
			n := g.pick([]string{"x1", "x2"}, "block")
			g.push()
			g.sc.ablocks = append(g.sc.ablocks, n)
			b := g.anyBody(d-1, 3)
			g.pop()
			return fmt.Sprintf("(block %s %s)", n, b)
		}},
		production{"any-catch", 2, func(d int) string {
			tag := g.pick(anyTags, "tag")
			g.push()
			b := g.anyBody(d-1, 2)
			g.pop()
			if g.exitsAllowed() && g.chance(50) {
				b += fmt.Sprintf(" (throw %s %s)", g.pick([]string{tag, tag, g.pick(anyTags, "tag")}, "tag"), g.anyExpr(d-1))
				if g.chance(30) {
					b += " " + g.anyExpr(d-1)
				}
			}
			return fmt.Sprintf("(catch %s %s)", tag, b)
		}},
		production{"any-unwind", 1, func(d int) string {
			g.push()
			b := g.anyExpr(d - 1)
			g.pop()
			return fmt.Sprintf("(unwind-protect %s %s)", b, g.cleanup(d))
		}},
		production{"any-handler", 1, func(d int) string {
			g.nid++
			g.ntr++
			id, ntr := g.nid, g.ntr
			g.push()
			b := g.anyBody(d-1, 2)
			if g.exitsAllowed() && g.chance(50) {
				b += " " + g.errorOp(d-1)
			}
			g.pop()
			return fmt.Sprintf("(block h%d (with-handler (lambda (e) (trh %d e) (return-from h%d %s)) %s))", id, ntr, id, g.pick(anyData, "data"), b)
		}},
		production{"any-dynamic-let", 2, func(d int) string {
			v := g.pick([]string{"za", "zb"}, "dyn")
			init := g.anyExpr(d - 1)
			saved := g.adyns
			g.adyns = append(append([]string{}, g.adyns...), v)
			b := g.anyBody(d-1, 3)
			g.adyns = saved
			return fmt.Sprintf("(dynamic-let ((%s %s)) %s)", v, init, b)
		}},
	)
	if len(g.adyns) > 0 {
		ps = append(ps, production{"any-set-dynamic", 2, func(d int) string {
			return fmt.Sprintf("(set-dynamic %s %s)", g.anyExpr(d-1), g.pick(g.adyns, "dyn"))
		}})
	}
	if g.exitsAllowed() {
		if bs := g.ablocks(); len(bs) > 0 {
			ps = append(ps, production{"any-return", 3, func(d int) string {
				return fmt.Sprintf("(return-from %s %s)", g.pick(bs, "block"), g.anyExpr(d-1))
			}})
		}
	}
	// the property under test decides which of these matter
	for i := range ps {
		if k, ok := anyLike[ps[i].name]; ok {
			if w, ok := g.w[k]; ok && w == 0 {
				ps[i].w = 0
			} else if w > 4 {
				ps[i].w *= 3
			}
		}
	}
	return g.choose(ps, d)
}

// anyLike: the production of typed programs whose weight counts.
var anyLike = map[string]string{
	"any-block": "block", "any-return": "return-from", "any-catch": "catch", "any-unwind": "unwind-protect", "any-handler": "with-handler",
	"any-dynamic-let": "dynamic-let", "any-dynamic": "dynamic", "any-set-dynamic": "set-dynamic", "any-let": "let", "any-let*": "let*",
	"any-call": "lambda", "any-setq": "setq", "any-if": "if", "any-cond": "cond", "any-bool": "bool-op", "any-tr": "tr",
}
