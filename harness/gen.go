package main

// The program generator.  Programs are typed by construction: the kind of a
// variable or function follows from the first letter of its name, so that
// shadowing (which is frequent, the name pools being small) keeps them
// meaningful.
//
//	a b c d     integers          p q r      lists of integers
//	f g h       functions of one integer     k  functions of no argument
//	v w         vectors of integers, 3 long  m  hash tables
//	u x y       dynamic variables (the names a b are used as well)
//	f1 g1 h1    named functions of one integer, f2 g2 of two, r1 with &rest
//	e o z       any data; za zb dynamic variables of any data
//	i0 i1 ...   loop counters, never assigned by the body

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

type weights map[string]int

type gen struct {
	t   *rapid.T
	cfg progCfg
	w   weights
	ntr int // number of tr calls so far
	nid int

	fnames  map[string]int // global functions: arity (-1: &rest)
	gnames  map[string]int // global functions the bodies may call
	macros  map[string]macroInfo
	globals map[string]bool
	dyns    []string
	adyns   []string

	sc  *scope
	rec *recInfo
}

type macroInfo struct {
	params int
	rest   bool
	kind   string // what its call yields: "int" or "stmt"
}

type recInfo struct {
	name string
	fuel string // the parameter that decreases
	pre  string // further leading arguments
}

type scope struct {
	up      *scope
	vars    map[string]bool
	funs    map[string]int
	blocks  []string
	ablocks []string // blocks of any value
	tags    []string
	noMut   bool // inside cleanup or handler: no exits
	loop    int
	lambda  bool
}

func (g *gen) push() *scope {
	g.sc = &scope{up: g.sc, vars: map[string]bool{}, funs: map[string]int{}}
	if g.sc.up != nil {
		g.sc.noMut = g.sc.up.noMut
		g.sc.loop = g.sc.up.loop
	}
	return g.sc
}

func (g *gen) pop() { g.sc = g.sc.up }

func (g *gen) visible(prefix string) (r []string) {
	seen := map[string]bool{}
	for s := g.sc; s != nil; s = s.up {
		for _, n := range namePool {
			if s.vars[n] && !seen[n] && strings.ContainsRune(prefix, rune(n[0])) {
				seen[n] = true
				r = append(r, n)
			}
		}
	}
	for _, n := range namePool {
		if g.globals[n] && !seen[n] && strings.ContainsRune(prefix, rune(n[0])) {
			r = append(r, n)
		}
	}
	return
}

var namePool = []string{"e", "o", "z", "a", "b", "c", "d", "p", "q", "r", "f", "g", "h", "k", "v", "w", "m", "i0", "i1", "i2", "i3", "n"}

func (g *gen) visibleFuns() (r []string, ar map[string]int) {
	ar = map[string]int{}
	for s := g.sc; s != nil; s = s.up {
		for _, n := range funPool {
			if a, ok := s.funs[n]; ok {
				if _, dup := ar[n]; !dup {
					ar[n] = a
					r = append(r, n)
				}
			}
		}
	}
	for _, n := range funPool {
		if a, ok := g.gnames[n]; ok {
			if _, dup := ar[n]; !dup {
				ar[n] = a
				r = append(r, n)
			}
		}
	}
	// a local function hides a global one of the same name even if it may not
	// be called: only callable names are listed, and hidden ones have entries
	var out []string
	for _, n := range r {
		if ar[n] != hidden {
			out = append(out, n)
		}
	}
	return out, ar
}

const hidden = -99

var funPool = []string{"f1", "g1", "h1", "f2", "g2", "r1"}

func arityOf(name string) int {
	switch name[0] {
	case 'r':
		return -1
	}
	return int(name[1] - '0')
}

func (g *gen) blocks() (r []string) {
	for s := g.sc; s != nil; s = s.up {
		r = append(r, s.blocks...)
	}
	return
}

func (g *gen) tagsInScope() (r []string) {
	for s := g.sc; s != nil; s = s.up {
		r = append(r, s.tags...)
	}
	return
}

func (g *gen) intn(n int, label string) int { return between(g.t, 0, n-1, label) }

func (g *gen) pick(list []string, label string) string {
	return list[g.intn(len(list), label)]
}

func (g *gen) chance(percent int) bool { return between(g.t, 0, 99, "%") >= 100-percent }

type production struct {
	name string
	w    int
	f    func(d int) string
}

func (g *gen) choose(ps []production, d int) string {
	total := 0
	for i := range ps {
		if w, ok := g.w[ps[i].name]; ok {
			ps[i].w = w
		}
		total += ps[i].w
	}
	n := between(g.t, 0, total-1, "p")
	for _, p := range ps {
		if n < p.w {
			return p.f(d)
		}
		n -= p.w
	}
	panic("choose")
}

func (g *gen) tr(v string) string {
	g.ntr++
	return fmt.Sprintf("(tr %d %s)", g.ntr, v)
}

func (g *gen) lit() string { return fmt.Sprint(between(g.t, -3, 9, "n")) }

// newVar draws a name of the kind.
func (g *gen) newVar(kind string) string {
	switch kind {
	case "int":
		return g.pick([]string{"a", "b", "c", "d"}, "var")
	case "list":
		return g.pick([]string{"p", "q", "r"}, "var")
	case "fun":
		return g.pick([]string{"f", "g", "h"}, "var")
	case "thunk":
		return "k"
	case "vec":
		return g.pick([]string{"v", "w"}, "var")
	case "hash":
		return "m"
	case "any":
		return g.pick([]string{"e", "o", "z"}, "var")
	}
	panic(kind)
}

func (g *gen) kind() string {
	// weights of the kinds of variables bound
	n := g.intn(23, "kind")
	switch {
	case n < 11:
		return "int"
	case n < 14:
		return "list"
	case n < 17:
		return "fun"
	case n < 18:
		return "thunk"
	case n < 19:
		return "vec"
	case n >= 20:
		return "any"
	}
	return "hash"
}

func (g *gen) ofKind(kind string, d int) string {
	switch kind {
	case "int":
		return g.intExpr(d)
	case "list":
		return g.listExpr(d)
	case "fun":
		return g.funExpr(d)
	case "thunk":
		return g.thunkExpr(d)
	case "vec":
		return g.vecExpr(d)
	case "hash":
		return g.hashExpr(d)
	case "any":
		return g.anyExpr(d)
	}
	panic(kind)
}

func (g *gen) vecExpr(d int) string {
	if vs := g.visible("vw"); len(vs) > 0 && g.chance(30) {
		return g.pick(vs, "vec")
	}
	d--
	return fmt.Sprintf("(vector %s %s %s)", g.intExpr(d), g.intExpr(d), g.lit())
}

func (g *gen) hashExpr(d int) string {
	if vs := g.visible("m"); len(vs) > 0 && g.chance(30) {
		return g.pick(vs, "hash")
	}
	return "(make-hash-table)"
}

func (g *gen) body(d, max int) string {
	n := between(g.t, 0, max-1, "body")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(g.stmt(d))
		sb.WriteByte(' ')
	}
	sb.WriteString(g.intExpr(d))
	return sb.String()
}

func (g *gen) stmts(d, max int) string {
	n := between(g.t, 1, max, "stmts")
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.stmt(d))
	}
	return strings.Join(l, " ")
}

func (g *gen) boolExpr(d int) string {
	ps := []production{
		{"cmp", 6, func(d int) string {
			return fmt.Sprintf("(%s %s %s)", g.pick([]string{"<", ">", "=", "<=", ">=", "/="}, "cmp"), g.intExpr(d-1), g.intExpr(d-1))
		}},
		{"const-test", 2, func(int) string { return g.pick([]string{"t", "nil", "0", "'x"}, "c") }},
		{"pred", 2, func(d int) string {
			return fmt.Sprintf("(%s %s)", g.pick([]string{"zerop", "plusp", "minusp", "evenp", "oddp"}, "pred"), g.intExpr(d-1))
		}},
	}
	if d > 0 {
		ps = append(ps,
			production{"any", 2, func(d int) string {
				if g.chance(40) {
					return "(null " + g.anyExpr(d-1) + ")"
				}
				return g.anyExpr(d - 1)
			}},
			production{"null", 2, func(d int) string {
				return fmt.Sprintf("(%s %s)", g.pick([]string{"null", "consp", "not"}, "pred"), g.listExpr(d-1))
			}},
			production{"bool-op", 2, func(d int) string {
				n := between(g.t, 0, 3, "n")
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, g.boolExpr(d-1))
				}
				return "(" + strings.TrimSpace(g.pick([]string{"and", "or"}, "op")+" "+strings.Join(l, " ")) + ")"
			}},
			production{"not", 1, func(d int) string { return "(not " + g.boolExpr(d-1) + ")" }},
		)
	}
	return g.choose(ps, d)
}

func (g *gen) listExpr(d int) string {
	ps := []production{
		{"list-lit", 3, func(int) string {
			n := between(g.t, 0, 4, "n")
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, g.lit())
			}
			return "'(" + strings.Join(l, " ") + ")"
		}},
	}
	if vs := g.visible("pqr"); len(vs) > 0 {
		ps = append(ps, production{"list-var", 5, func(int) string { return g.pick(vs, "list") }})
	}
	if d > 0 {
		ps = append(ps,
			production{"list", 3, func(d int) string {
				n := between(g.t, 1, 3, "n")
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, g.intExpr(d-1))
				}
				return "(list " + strings.Join(l, " ") + ")"
			}},
			production{"cons", 2, func(d int) string { return fmt.Sprintf("(cons %s %s)", g.intExpr(d-1), g.listExpr(d-1)) }},
			production{"append", 1, func(d int) string { return fmt.Sprintf("(append %s %s)", g.listExpr(d-1), g.listExpr(d-1)) }},
			production{"reverse", 1, func(d int) string { return fmt.Sprintf("(reverse %s)", g.listExpr(d-1)) }},
			production{"mapcar", 2, func(d int) string {
				return fmt.Sprintf("(mapcar %s %s)", g.funExpr(d-1), g.listExpr(d-1))
			}},
			production{"maplist", 1, func(d int) string {
				g.push()
				g.sc.vars["p"] = true
				b := g.intExpr(d - 1)
				g.pop()
				return fmt.Sprintf("(maplist (lambda (p) %s) %s)", b, g.listExpr(d-1))
			}},
			production{"quasi", 2, func(d int) string {
				return fmt.Sprintf("`(%s ,%s %s)", g.lit(), g.intExpr(d-1), g.lit())
			}},
			production{"list-if", 1, func(d int) string {
				return fmt.Sprintf("(if %s %s %s)", g.boolExpr(d-1), g.listExpr(d-1), g.listExpr(d-1))
			}},
			production{"list-let", 1, func(d int) string {
				k := g.kind()
				v := g.newVar(k)
				init := g.ofKind(k, d-1)
				g.push()
				g.sc.vars[v] = true
				b := g.listExpr(d - 1)
				g.pop()
				return fmt.Sprintf("(let ((%s %s)) %s)", v, init, b)
			}},
		)
	}
	return g.choose(ps, d)
}

// funExpr yields an expression whose value is a function of one integer.
func (g *gen) funExpr(d int) string {
	ps := []production{
		{"lambda", 4, func(d int) string {
			v := g.newVar("int")
			g.push()
			g.sc.vars[v] = true
			b := g.body(d-1, 2)
			g.pop()
			return fmt.Sprintf("(lambda (%s) %s)", v, b)
		}},
		{"builtin-ref", 1, func(int) string { return "#'" + g.pick([]string{"1+", "1-", "-"}, "fn") }},
	}
	if vs := g.visible("fgh"); len(vs) > 0 {
		ps = append(ps, production{"fun-var", 4, func(int) string { return g.pick(vs, "fun") }})
	}
	fs, ar := g.visibleFuns()
	var ones []string
	for _, f := range fs {
		if ar[f] == 1 || ar[f] == -1 {
			ones = append(ones, f)
		}
	}
	if len(ones) > 0 {
		ps = append(ps, production{"fun-ref", 2, func(int) string { return "#'" + g.pick(ones, "fn") }})
	}
	return g.choose(ps, d)
}

func (g *gen) thunkExpr(d int) string {
	if vs := g.visible("k"); len(vs) > 0 && g.chance(30) {
		return g.pick(vs, "thunk")
	}
	g.push()
	b := g.body(d-1, 2)
	g.pop()
	return "(lambda () " + b + ")"
}

func (g *gen) callArgs(f string, ar, d int) string {
	n := ar
	if ar < 0 {
		n = between(g.t, 0, 3, "nargs")
	}
	s := "(" + f
	for i := 0; i < n; i++ {
		s += " " + g.intExpr(d)
	}
	return s + ")"
}

func (g *gen) binders(d int) (names, kinds []string) {
	n := between(g.t, 1, 3, "nbind")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := g.kind()
		v := g.newVar(k)
		if seen[v] {
			continue
		}
		seen[v] = true
		names = append(names, v)
		kinds = append(kinds, k)
	}
	return
}

func (g *gen) exitsAllowed() bool { return !g.sc.noMut }

func (g *gen) intExpr(d int) string {
	ps := []production{
		{"lit", 3, func(int) string { return g.lit() }},
	}
	if vs := g.visible("abcdni"); len(vs) > 0 {
		ps = append(ps, production{"var", 6, func(int) string { return g.pick(vs, "int") }})
	}
	if len(g.dyns) > 0 {
		ps = append(ps, production{"dynamic", 1, func(int) string { return "(dynamic " + g.pick(g.dyns, "dyn") + ")" }})
	}
	if d <= 0 {
		return g.choose(ps, d)
	}
	ps = append(ps,
		production{"tr", 3, func(d int) string { return g.tr(g.intExpr(d - 1)) }},
		production{"arith", 4, func(d int) string {
			return fmt.Sprintf("(%s %s %s)", g.pick([]string{"+", "-", "*", "max", "min"}, "op"), g.intExpr(d-1), g.intExpr(d-1))
		}},
		production{"if", 3, func(d int) string {
			return fmt.Sprintf("(if %s %s %s)", g.boolExpr(d-1), g.intExpr(d-1), g.intExpr(d-1))
		}},
		production{"cond", 1, func(d int) string {
			n := between(g.t, 1, 3, "clauses")
			var sb strings.Builder
			sb.WriteString("(cond ")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "(%s %s) ", g.boolExpr(d-1), g.body(d-1, 2))
			}
			sb.WriteString("(t " + g.intExpr(d-1) + "))")
			return sb.String()
		}},
		production{"case", 1, func(d int) string {
			n := between(g.t, 1, 3, "clauses")
			var sb strings.Builder
			head := "(case "
			lit := g.lit
			if g.chance(25) {
				head = "(case-using #'= "
			}
			sb.WriteString(head + g.intExpr(d-1) + " ")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "((%s %s) %s) ", lit(), lit(), g.body(d-1, 2))
			}
			sb.WriteString("(t " + g.intExpr(d-1) + "))")
			return sb.String()
		}},
		production{"let", 4, func(d int) string {
			names, kinds := g.binders(d)
			var sb strings.Builder
			sb.WriteString("(let (")
			for i := range names {
				fmt.Fprintf(&sb, "(%s %s)", names[i], g.ofKind(kinds[i], d-1))
			}
			g.push()
			for _, n := range names {
				g.sc.vars[n] = true
			}
			sb.WriteString(") " + g.body(d-1, 3) + ")")
			g.pop()
			return sb.String()
		}},
		production{"let*", 2, func(d int) string {
			names, kinds := g.binders(d)
			var sb strings.Builder
			sb.WriteString("(let* (")
			g.push()
			for i := range names {
				fmt.Fprintf(&sb, "(%s %s)", names[i], g.ofKind(kinds[i], d-1))
				g.sc.vars[names[i]] = true
			}
			sb.WriteString(") " + g.body(d-1, 3) + ")")
			g.pop()
			return sb.String()
		}},
		production{"progn", 2, func(d int) string { return "(progn " + g.body(d-1, 3) + ")" }},
		production{"prog1", 1, func(d int) string {
			if g.chance(40) {
				return fmt.Sprintf("(prog2 %s %s %s)", g.stmt(d-1), g.intExpr(d-1), g.stmt(d-1))
			}
			return fmt.Sprintf("(prog1 %s %s)", g.intExpr(d-1), g.stmt(d-1))
		}},
		production{"funcall", 3, func(d int) string { return fmt.Sprintf("(funcall %s %s)", g.funExpr(d-1), g.intExpr(d-1)) }},
		production{"thunk-call", 1, func(d int) string { return fmt.Sprintf("(funcall %s)", g.thunkExpr(d-1)) }},
		production{"apply", 1, func(d int) string {
			if g.chance(50) {
				return fmt.Sprintf("(apply #'+ %s %s)", g.intExpr(d-1), g.listExpr(d-1))
			}
			return fmt.Sprintf("(apply %s (list %s))", g.funExpr(d-1), g.intExpr(d-1))
		}},
		production{"lambda-call", 1, func(d int) string {
			v := g.newVar("int")
			g.push()
			g.sc.vars[v] = true
			b := g.body(d-1, 2)
			g.pop()
			return fmt.Sprintf("((lambda (%s) %s) %s)", v, b, g.intExpr(d-1))
		}},
		production{"length", 1, func(d int) string { return "(length " + g.listExpr(d-1) + ")" }},
		production{"list-ref", 1, func(d int) string {
			return fmt.Sprintf("(car (append %s (list %s)))", g.listExpr(d-1), g.intExpr(d-1))
		}},
		production{"local-fun", 2, g.localFun},
		production{"setq", 3, g.setqExpr},
	)
	if fs, ar := g.visibleFuns(); len(fs) > 0 {
		ps = append(ps, production{"call", 4, func(d int) string {
			f := g.pick(fs, "fn")
			return g.callArgs(f, ar[f], d-1)
		}})
	}
	if g.rec != nil {
		ps = append(ps, production{"rec", 3, func(d int) string {
			return fmt.Sprintf("(%s (- %s 1) %s)", g.rec.name, g.rec.fuel, g.intExpr(d-1))
		}})
	}
	if vs := g.visible("vw"); len(vs) > 0 {
		ps = append(ps, production{"aref", 2, func(d int) string {
			return fmt.Sprintf("(%s %s %d)", g.pick([]string{"aref", "elt"}, "op"), g.pick(vs, "vec"), g.intn(3, "idx"))
		}})
	}
	if vs := g.visible("m"); len(vs) > 0 {
		ps = append(ps, production{"gethash", 2, func(d int) string {
			return fmt.Sprintf("(or (gethash '%s %s) %s)", g.pick([]string{"x", "y", "1"}, "key"), g.pick(vs, "hash"), g.lit())
		}})
	}
	ps = append(ps, g.exitProductions()...)
	if len(g.macros) > 0 {
		ps = append(ps, production{"macro", 1, g.macroCall})
	}
	return g.choose(ps, d)
}

func (g *gen) setqExpr(d int) string {
	vs := g.visible("abcd")
	if len(vs) == 0 {
		return g.intExpr(d - 1)
	}
	v := g.pick(vs, "var")
	if g.chance(20) {
		return fmt.Sprintf("(%s %s)", g.pick([]string{"incf", "decf"}, "op"), v)
	}
	return fmt.Sprintf("(setq %s %s)", v, g.intExpr(d-1))
}

func (g *gen) localFun(d int) string {
	op := g.pick([]string{"flet", "labels"}, "op")
	name := g.pick(funPool, "fn")
	ar := arityOf(name)
	n := 1
	if g.chance(30) {
		n = 2
	}
	var names []string
	names = append(names, name)
	if n == 2 {
		name2 := g.pick(funPool, "fn")
		if name2 != name {
			names = append(names, name2)
		}
	}
	_ = ar
	var sb strings.Builder
	sb.WriteString("(" + op + " (")
	outer := g.sc
	g.push()
	frame := g.sc
	if op == "labels" {
		// inside of the bodies, the names are visible but calling them could
		// recurse without end; only calls with decreasing fuel are made
		for i, nm := range names {
			frame.funs[nm] = hidden
			_ = i
		}
	}
	var savedRec = g.rec
	for i, nm := range names {
		params := g.params(nm)
		g.sc = &scope{up: outer, vars: map[string]bool{}, funs: map[string]int{}, noMut: outer.noMut, loop: outer.loop}
		if op == "labels" {
			g.sc.up = frame
			// a labels function may call the ones defined before it
			for j := 0; j < i; j++ {
				g.sc.funs[names[j]] = arityOf(names[j])
			}
		}
		for _, p := range params {
			if p[0] != '&' && p[0] != ':' {
				g.sc.vars[p] = true
			}
		}
		if op == "labels" && g.rec == nil || true {
			if g.rec != nil && g.rec.name == nm {
				g.rec = nil
			}
		}
		b := g.body(d-1, 2)
		if op == "labels" && g.chance(40) {
			// return from the function's own block
			b = fmt.Sprintf("(if %s (return-from %s %s)) %s", g.boolExpr(d-2), nm, g.intExpr(d-2), b)
		}
		g.rec = savedRec
		fmt.Fprintf(&sb, "(%s (%s) %s)", nm, strings.Join(params, " "), b)
	}
	g.sc = frame
	for _, nm := range names {
		frame.funs[nm] = arityOf(nm)
	}
	if g.rec != nil {
		for _, nm := range names {
			if g.rec.name == nm {
				g.rec = nil
				break
			}
		}
	}
	fmt.Fprintf(&sb, ") %s)", g.body(d-1, 3))
	g.rec = savedRec
	g.sc = outer
	return sb.String()
}

func (g *gen) params(name string) []string {
	switch arityOf(name) {
	case 1:
		return []string{g.newVar("int")}
	case 2:
		p := []string{"a", "b"}
		if g.chance(50) {
			p = []string{"c", "a"}
		}
		return p
	default:
		return []string{g.pick([]string{"&rest", ":rest"}, "rest"), g.newVar("list")}
	}
}

// exitProductions are the forms of non-local control.
func (g *gen) exitProductions() []production {
	ps := []production{
		{"block", 1, func(d int) string {
			n := g.pick([]string{"b1", "b2", "nil"}, "block")
			g.push()
			g.sc.blocks = append(g.sc.blocks, n)
			b := g.body(d-1, 3)
			g.pop()
			return fmt.Sprintf("(block %s %s)", n, b)
		}},
		{"catch", 1, func(d int) string {
			n := g.pick([]string{"c1", "c2"}, "tag")
			g.push()
			b := g.body(d-1, 3)
			g.pop()
			return fmt.Sprintf("(catch '%s %s)", n, b)
		}},
		{"unwind-protect", 1, func(d int) string {
			g.push()
			b := g.protected(d - 1)
			g.pop()
			return fmt.Sprintf("(unwind-protect %s %s)", b, g.cleanup(d))
		}},
		{"dynamic-let", 1, func(d int) string {
			n := between(g.t, 1, 2, "n")
			var sb strings.Builder
			names := []string{"u", "x", "y", "a"}
			var used []string
			sb.WriteString("(dynamic-let (")
			for i := 0; i < n; i++ {
				v := g.pick(names, "dyn")
				if len(used) > 0 && used[0] == v {
					continue
				}
				used = append(used, v)
				fmt.Fprintf(&sb, "(%s %s)", v, g.intExpr(d-1))
			}
			saved := g.dyns
			g.dyns = append(append([]string{}, g.dyns...), used...)
			sb.WriteString(") " + g.body(d-1, 3) + ")")
			g.dyns = saved
			return sb.String()
		}},
		{"with-handler", 1, g.withHandler},
		{"ignore-errors", 0, func(d int) string {
			return fmt.Sprintf("(or (ignore-errors %s) %s)", g.body(d-1, 2), g.lit())
		}},
	}
	if g.exitsAllowed() {
		if bs := g.blocks(); len(bs) > 0 {
			ps = append(ps, production{"return-from", 3, func(d int) string {
				b := g.pick(bs, "block")
				if b == "nil" && g.chance(50) {
					return "(return " + g.intExpr(d-1) + ")"
				}
				return fmt.Sprintf("(return-from %s %s)", b, g.intExpr(d-1))
			}})
		}
		ps = append(ps,
			production{"throw", 1, func(d int) string {
				return fmt.Sprintf("(throw '%s %s)", g.pick([]string{"c1", "c2"}, "tag"), g.intExpr(d-1))
			}},
			production{"error-op", 0, g.errorOp},
			production{"bad-call", 0, g.badCall},
		)
		if ts := g.tagsInScope(); len(ts) > 0 {
			ps = append(ps, production{"go", 2, func(d int) string { return "(go " + g.pick(ts, "tag") + ")" }})
		}
	}
	return ps
}

func (g *gen) cleanup(d int) string {
	saved := g.sc
	g.push()
	g.sc.noMut = true
	n := between(g.t, 1, 2, "n")
	var l []string
	for i := 0; i < n; i++ {
		if vs := g.visible("abcd"); len(vs) > 0 && g.chance(40) {
			v := g.pick(vs, "var")
			l = append(l, fmt.Sprintf("(setq %s %s)", v, g.tr(fmt.Sprintf("(+ %s 1)", v))))
		} else {
			switch c := g.tr("'cleanup"); g.intn(9, "cleanup") {
			case 0:
				l = append(l, fmt.Sprintf("(unwind-protect %s %s)", c, g.tr("'cleanup2")))
			case 1:
				l = append(l, fmt.Sprintf("(catch 'c1 %s (throw 'c1 1))", c))
			case 2:
				l = append(l, fmt.Sprintf("(block b1 (mapc (lambda (a) %s (return-from b1 a)) '(1 2)))", c))
			case 3:
				l = append(l, fmt.Sprintf("(ignore-errors %s (car 5))", c))
			case 4:
				l = append(l, fmt.Sprintf("(catch 'c2 (unwind-protect (throw 'c2 nil) %s))", c))
			default:
				l = append(l, c)
			}
		}
	}
	if d > 0 && g.chance(12) {
		// a form that fails in, or leaves, the cleanup forms
		bad := ""
		if g.chance(50) {
			bad = g.errorOp(d - 1)
		} else {
			bad = g.exitForm(d - 1)
		}
		if vs := g.visible("abcd"); len(vs) > 0 && g.chance(50) {
			bad = fmt.Sprintf("(if (< %s %d) %s)", g.pick(vs, "var"), g.intn(6, "n"), bad)
		}
		l = append(l, bad)
		if g.chance(50) {
			l = append(l, g.tr("'cleanup3"))
		}
	}
	g.sc = saved
	return strings.Join(l, " ")
}

// badCall calls a function with a wrong number of plain arguments.
func (g *gen) badCall(d int) string {
	args := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			if vs := g.visible("abcd"); len(vs) > 0 && g.chance(50) {
				s += " " + g.pick(vs, "var")
			} else {
				s += " " + g.lit()
			}
		}
		return s
	}
	fs, ar := g.visibleFuns()
	var fixed []string
	for _, f := range fs {
		if ar[f] > 0 {
			fixed = append(fixed, f)
		}
	}
	other := func(n int) int {
		k := g.intn(4, "args")
		if k >= n {
			k++
		}
		return k
	}
	if len(fixed) > 0 && g.chance(60) {
		f := g.pick(fixed, "fn")
		switch g.intn(4, "via") {
		case 0:
			return "(" + f + args(other(ar[f])) + ")"
		case 1:
			return "(funcall #'" + f + args(other(ar[f])) + ")"
		case 2:
			return "(apply #'" + f + " (list" + args(other(ar[f])) + "))"
		default:
			l := ""
			for i := other(ar[f]); i > 0; i-- {
				l += " (list" + args(2) + ")"
			}
			if l == "" {
				return "(" + f + ")"
			}
			return "(mapcar #'" + f + l + ")"
		}
	}
	if vs := g.visible("fgh"); len(vs) > 0 && g.chance(60) {
		return "(funcall " + g.pick(vs, "fun") + args(other(1)) + ")"
	}
	n := g.intn(3, "params")
	params := strings.Join([]string{"a", "b", "c"}[:n], " ")
	lam := "(lambda (" + params + ") " + g.tr("0") + ")"
	if g.chance(30) && n > 0 {
		lam = "(lambda (" + params + " &rest p) " + g.tr("p") + ")"
		k := g.intn(n, "few")
		return "(" + lam + args(k) + ")"
	}
	switch g.intn(3, "via") {
	case 0:
		return "(" + lam + args(other(n)) + ")"
	case 1:
		return "(funcall " + lam + args(other(n)) + ")"
	default:
		return "(apply " + lam + " (list" + args(other(n)) + "))"
	}
}

// errorOp is a form that fails.
func (g *gen) errorOp(d int) string {
	if vs := g.visible("pqr"); len(vs) > 0 && g.chance(15) {
		return fmt.Sprintf("(car %s)", g.pick(vs, "list"))
	}
	ops := []string{
		"(error \"e ~a\" 1)", "(car 5)", "(+ 1 'x)", "(/ 7 0)", "(mod 7 0)", "nosuchvar", "(nosuchfun 1)", "(funcall 3 1)",
		"(cons 1)", "(cons 1 2 3)", "((lambda (a) a))", "((lambda (a) a) 1 2)", "(set-car 1 2)", "(1+ nil)", "(go nosuchtag)",
		"(return-from nosuchblock 1)", "(throw 'nosuchtag 2)", "(#'car 1)", "(< 1 'a)", "(max 1 'z)", "(funcall (lambda (a b) b) 1)",
		"(setq nosuchvar 3)", "(apply #'cons '(1 2 3))", "(mapcar (lambda (a b) a) '(1 2))", "(dynamic nosuchdyn)",
	}
	op := g.pick(ops, "error")
	if op == "(#'car 1)" {
		op = "(funcall #'cdr 1)"
	}
	return op
}

func (g *gen) withHandler(d int) string {
	g.nid++
	id := g.nid
	g.ntr++
	trh := fmt.Sprintf("(trh %d e)", g.ntr)
	val := g.lit()
	body := func() string {
		if g.chance(60) {
			saved := g.w["error-op"]
			_ = saved
			return g.stmt(d-1) + " " + g.errStmt(d-1) + " " + g.intExpr(d-1)
		}
		return g.body(d-1, 3)
	}
	switch g.intn(8, "handler") {
	case 4:
		// a handler that fails
		g.push()
		b := body()
		g.pop()
		return fmt.Sprintf("(or (ignore-errors (with-handler (lambda (e) %s %s) %s)) %s)", trh, g.errStmt(d-1), b, val)
	case 5:
		g.push()
		b := body()
		g.pop()
		g.ntr++
		return fmt.Sprintf("(block h%d (with-handler (lambda (e) %s (return-from h%d %s)) (with-handler (lambda (e) (trh %d e) %s) %s)))", id, trh, id, val, g.ntr, g.errStmt(d-1), b)
	case 6:
		// continue-condition out of other forms of the handler
		g.push()
		b := g.intExpr(d - 1)
		g.pop()
		c := fmt.Sprintf("(continue-condition e %s)", val)
		g.ntr++
		switch g.intn(4, "through") {
		case 0:
			c = fmt.Sprintf("(ignore-errors %s %s)", g.stmt(d-1), c)
		case 1:
			c = fmt.Sprintf("(with-handler (lambda (e2) (trh %d e2) (continue-condition e %s)) %s)", g.ntr, val, g.errStmt(d-1))
		case 2:
			c = fmt.Sprintf("(with-handler (lambda (e2) (trh %d e2)) (unwind-protect %s %s))", g.ntr, c, g.tr("'hc"))
		default:
			c = fmt.Sprintf("(with-handler (lambda (e2) (trh %d e2) (continue-condition e2 5)) %s (+ 1 (cerror \"x\" \"y\"))) %s", g.ntr, g.stmt(d-1), c)
		}
		return fmt.Sprintf("(with-handler (lambda (e) %s %s) (+ %s (cerror \"go on\" \"c ~a\" %s)))", trh, c, b, g.intExpr(d-1))
	case 7:
		// errors ignored below the handler
		g.push()
		b := body()
		g.pop()
		return fmt.Sprintf("(block h%d (with-handler (lambda (e) %s (return-from h%d %s)) (or (ignore-errors %s) 1) %s %s))", id, trh, id, val, b, g.errStmt(d-1), g.intExpr(d-1))
	case 0, 1:
		g.push()
		b := body()
		g.pop()
		return fmt.Sprintf("(block h%d (with-handler (lambda (e) %s (return-from h%d %s)) %s))", id, trh, id, val, b)
	case 2:
		g.push()
		b := body()
		g.pop()
		return fmt.Sprintf("(catch 'h%d (with-handler (lambda (e) %s (throw 'h%d %s)) %s))", id, trh, id, val, b)
	default:
		g.push()
		b := g.intExpr(d - 1)
		g.pop()
		return fmt.Sprintf("(with-handler (lambda (e) %s (continue-condition e %s)) (+ %s (cerror \"go on\" \"c ~a\" %s)))", trh, val, b, g.intExpr(d-1))
	}
}

// errStmt is a statement that fails, perhaps inside of calls and other forms.
func (g *gen) errStmt(d int) string {
	e := g.errorOp(d)
	if d > 0 {
		switch g.intn(6, "wrap") {
		case 1:
			return fmt.Sprintf("(mapcar (lambda (a) %s) (list %s 2))", e, g.intExpr(d-1))
		case 2:
			return fmt.Sprintf("(let ((b %s)) %s)", g.intExpr(d-1), e)
		case 3:
			return fmt.Sprintf("(unwind-protect %s %s)", e, g.cleanup(d))
		case 4:
			return fmt.Sprintf("(funcall (lambda (c) %s) %s)", e, g.intExpr(d-1))
		case 5:
			return fmt.Sprintf("(if %s %s)", g.boolExpr(d-1), e)
		}
	}
	return e
}

// stmt is a form evaluated for its effects; its value is not used.
func (g *gen) stmt(d int) string {
	ps := []production{
		{"stmt-tr", 4, func(d int) string { return g.tr(g.intExpr(d - 1)) }},
		{"stmt-expr", 2, func(d int) string { return g.intExpr(d) }},
	}
	if d <= 0 {
		return g.choose(ps, d)
	}
	ps = append(ps,
		production{"stmt-any", 3, func(d int) string { return g.tr(g.anyExpr(d - 1)) }},
		production{"stmt-setq", 4, g.setqStmt},
		production{"stmt-if", 2, func(d int) string {
			switch g.intn(3, "kind") {
			case 0:
				return fmt.Sprintf("(if %s %s)", g.boolExpr(d-1), g.stmt(d-1))
			case 1:
				return fmt.Sprintf("(when %s %s)", g.boolExpr(d-1), g.stmts(d-1, 2))
			default:
				return fmt.Sprintf("(unless %s %s)", g.boolExpr(d-1), g.stmts(d-1, 2))
			}
		}},
		production{"loop", 2, g.loopStmt},
		production{"mapc", 1, func(d int) string {
			return fmt.Sprintf("(mapc %s %s)", g.funExpr(d-1), g.listExpr(d-1))
		}},
		production{"setf", 2, g.setfStmt},
		production{"tagbody", 1, g.tagbody},
	)
	if len(g.dyns) > 0 {
		ps = append(ps, production{"set-dynamic", 1, func(d int) string {
			v := g.pick(g.dyns, "dyn")
			if g.chance(30) {
				return fmt.Sprintf("(setf (dynamic %s) %s)", v, g.intExpr(d-1))
			}
			return fmt.Sprintf("(set-dynamic %s %s)", g.intExpr(d-1), v)
		}})
	}
	return g.choose(ps, d)
}

func (g *gen) setqStmt(d int) string {
	var kinds []string
	for _, k := range []struct{ kind, prefix string }{{"int", "abcd"}, {"list", "pqr"}, {"fun", "fgh"}, {"thunk", "k"}} {
		if len(g.visible(k.prefix)) > 0 {
			kinds = append(kinds, k.kind)
			if k.kind == "int" {
				kinds = append(kinds, k.kind, k.kind)
			}
		}
	}
	if len(kinds) == 0 {
		return g.tr(g.intExpr(d - 1))
	}
	switch k := g.pick(kinds, "kind"); k {
	case "int":
		return g.setqExpr(d)
	case "list":
		vs := g.visible("pqr")
		return fmt.Sprintf("(setq %s %s)", g.pick(vs, "list"), g.listExpr(d-1))
	case "fun":
		v := g.pick(g.visible("fgh"), "fun")
		// a function that calls the variable it is assigned to would not end
		hide := g.sc
		g.push()
		saved := hideFuns(g, hide)
		s := fmt.Sprintf("(setq %s %s)", v, g.funExpr(d-1))
		saved()
		g.sc = hide
		return s
	default:
		hide := g.sc
		g.push()
		saved := hideFuns(g, hide)
		s := fmt.Sprintf("(setq k %s)", g.thunkExpr(d-1))
		saved()
		g.sc = hide
		return s
	}
}

// hideFuns makes the function variables invisible and returns the undo.
func hideFuns(g *gen, from *scope) func() {
	type h struct {
		s *scope
		n string
	}
	var hs []h
	for s := from; s != nil; s = s.up {
		for _, n := range []string{"f", "g", "h", "k"} {
			if s.vars[n] {
				delete(s.vars, n)
				hs = append(hs, h{s, n})
			}
		}
	}
	var gs []string
	for _, n := range []string{"f", "g", "h", "k"} {
		if g.globals[n] {
			delete(g.globals, n)
			gs = append(gs, n)
		}
	}
	return func() {
		for _, x := range hs {
			x.s.vars[x.n] = true
		}
		for _, n := range gs {
			g.globals[n] = true
		}
	}
}

func (g *gen) loopStmt(d int) string {
	if g.sc.loop >= 3 {
		return g.tr(g.intExpr(d - 1))
	}
	i := fmt.Sprintf("i%d", g.sc.loop)
	n := between(g.t, 0, 3, "times")
	g.push()
	g.sc.loop++
	defer g.pop()
	switch g.intn(4, "loop") {
	case 0:
		lst := g.listExpr(d - 1)
		g.sc.vars[i] = true
		g.sc.blocks = append(g.sc.blocks, "nil")
		return fmt.Sprintf("(dolist (%s %s) %s)", i, lst, g.stmts(d-1, 2))
	case 1:
		g.sc.vars[i] = true
		return fmt.Sprintf("(dotimes (%s %d) %s)", i, n, g.stmts(d-1, 2))
	case 2:
		g.sc.vars[i] = true
		return fmt.Sprintf("(let ((%s 0)) (while (< %s %d) %s (setq %s (+ %s 1))))", i, i, n, g.stmts(d-1, 2), i, i)
	default:
		v := g.newVar("int")
		init := g.intExpr(d - 1)
		g.sc.vars[i] = true
		g.sc.vars[v] = true
		step := g.intExpr(d - 1)
		if g.chance(30) {
			return fmt.Sprintf("(for ((%s 0 (+ %s 1)) (%s %s)) ((>= %s %d) %s) %s)", i, i, v, init, i, n, g.intExpr(d-1), g.stmts(d-1, 2))
		}
		return fmt.Sprintf("(for ((%s %s %s) (%s 0 (+ %s 1))) ((>= %s %d) %s) %s)", v, init, step, i, i, i, n, g.intExpr(d-1), g.stmts(d-1, 2))
	}
}

func (g *gen) tagbody(d int) string {
	if g.sc.loop >= 3 {
		return g.tr(g.intExpr(d - 1))
	}
	g.nid++
	i := fmt.Sprintf("i%d", g.sc.loop)
	n := between(g.t, 1, 3, "times")
	// names from a small pool, so that nested tagbodies share them
	t1 := g.pick([]string{"t1", "t2"}, "tag")
	end := g.pick([]string{"e1", "e2"}, "tag")
	g.push()
	g.sc.loop++
	g.sc.vars[i] = true
	defer g.pop()
	var sb strings.Builder
	fmt.Fprintf(&sb, "(let ((%s 0)) (tagbody ", i)
	// before the first tag only forward exits are possible
	g.sc.tags = append(g.sc.tags, end)
	sb.WriteString(g.stmts(d-1, 2))
	fmt.Fprintf(&sb, " %s (setq %s (+ %s 1)) ", t1, i, i)
	sb.WriteString(g.stmts(d-1, 2))
	switch g.intn(3, "jump") {
	case 0:
		fmt.Fprintf(&sb, " (if (< %s %d) (go %s)) ", i, n, t1)
	case 1:
		fmt.Fprintf(&sb, " (mapc (lambda (a) (if (< %s %d) (go %s))) '(1 2)) ", i, n, t1)
	default:
		fmt.Fprintf(&sb, " (when (and (< %s %d) %s) %s (go %s)) ", i, n, g.boolExpr(d-1), g.stmt(d-1), t1)
	}
	sb.WriteString(g.stmts(d-1, 2))
	fmt.Fprintf(&sb, " %s ", end)
	g.sc.tags = nil
	sb.WriteString(g.stmts(d-1, 1))
	sb.WriteString("))")
	return sb.String()
}

// setfStmt assigns a place of a list, vector or hash table made for it.
func (g *gen) setfStmt(d int) string {
	var opts []func() string
	if vs := g.visible("vw"); len(vs) > 0 {
		opts = append(opts, func() string {
			op := g.pick([]string{"setf", "incf", "decf"}, "op")
			return fmt.Sprintf("(%s (%s %s %d) %s)", op, g.pick([]string{"aref", "elt"}, "acc"), g.pick(vs, "vec"), g.intn(3, "idx"), g.intExpr(d-1))
		})
	}
	if vs := g.visible("m"); len(vs) > 0 {
		opts = append(opts, func() string {
			return fmt.Sprintf("(setf (gethash '%s %s) %s)", g.pick([]string{"x", "y", "1"}, "key"), g.pick(vs, "hash"), g.intExpr(d-1))
		})
	}
	opts = append(opts, func() string {
		// a fresh list of four, one place assigned, everything traced
		place := g.pick([]string{"(car zz)", "(first zz)", "(cadr zz)", "(second zz)", "(caddr zz)", "(third zz)", "(cadddr zz)",
			"(elt zz 0)", "(elt zz 3)", "(nth 2 zz)", "(car (cdr zz))"}, "place")
		op := g.pick([]string{"setf", "incf", "decf"}, "op")
		v := g.intExpr(d - 1)
		g.ntr += 2
		return fmt.Sprintf("(let* ((zz (list %s 2 3 4)) (z2 (cdr zz))) (tr %d (%s %s %s)) (tr %d (list zz z2)))", g.intExpr(d-1), g.ntr-1, op, place, v, g.ntr)
	}, func() string {
		place := g.pick([]string{"(cdr zz)", "(cddr zz)", "(cdddr zz)", "(cdr (cdr zz))"}, "place")
		g.ntr += 2
		return fmt.Sprintf("(let* ((zz (list 1 2 3 4)) (z2 (cdr zz))) (tr %d (setf %s %s)) (tr %d (list zz z2)))", g.ntr-1, place, g.listExpr(d-1), g.ntr)
	})
	return opts[g.intn(len(opts), "setf")]()
}

// macros -----------------------------------------------------------------

func (g *gen) macroCall(d int) string {
	var names []string
	for _, n := range []string{"m1", "m2", "m3", "m4", "m5", "m6"} {
		if _, ok := g.macros[n]; ok {
			names = append(names, n)
		}
	}
	n := g.pick(names, "macro")
	mi := g.macros[n]
	s := "(" + n
	for i := 0; i < mi.params; i++ {
		s += " " + g.intExpr(d-1)
	}
	if mi.rest {
		k := between(g.t, 1, 3, "n")
		for i := 0; i < k; i++ {
			s += " " + g.intExpr(d-1)
		}
	}
	return s + ")"
}

// macroDef makes a macro definition named n.  A template over parameters:
// every unquote place is an integer expression.
func (g *gen) macroDef(n string) string {
	params := between(g.t, 0, 2, "params")
	rest := g.chance(40)
	if params == 0 && !rest {
		params = 1
	}
	mi := macroInfo{params: params, rest: rest}
	pn := []string{"$1", "$2"}[:params]
	pl := strings.Join(pn, " ")
	if rest {
		pl += " &rest $r"
	}
	pre := ""
	hole := func() string {
		if params > 0 && g.chance(80) {
			return "," + g.pick(pn, "param")
		}
		if rest && g.chance(50) {
			return ",(car $r)"
		}
		return g.lit()
	}
	var tmpl func(d int) string
	tmpl = func(d int) string {
		if d <= 0 {
			return hole()
		}
		switch g.intn(9, "tmpl") {
		case 0, 1:
			return hole()
		case 2:
			return fmt.Sprintf("(%s %s %s)", g.pick([]string{"+", "-", "*"}, "op"), tmpl(d-1), tmpl(d-1))
		case 3:
			return fmt.Sprintf("(if (< %s %s) %s %s)", tmpl(d-1), tmpl(d-1), tmpl(d-1), tmpl(d-1))
		case 4:
			// captures the name a deliberately
			return fmt.Sprintf("(let ((%s %s)) (+ %s %s))", "a", tmpl(d-1), "a", tmpl(d-1))
		case 5:
			if rest {
				return fmt.Sprintf("(+ %s ,@$r)", tmpl(d-1))
			}
			return fmt.Sprintf("(progn %s %s)", tmpl(d-1), tmpl(d-1))
		case 6:
			if rest {
				return "(progn ,@$r)"
			}
			return fmt.Sprintf("(funcall (lambda (b) (+ b %s)) %s)", tmpl(d-1), tmpl(d-1))
		case 7:
			g.ntr++
			return fmt.Sprintf("(tr %d %s)", g.ntr, tmpl(d-1))
		default:
			// call a macro defined before
			var names []string
			for _, m := range []string{"m1", "m2", "m3"} {
				if _, ok := g.macros[m]; ok && m != n {
					names = append(names, m)
				}
			}
			if len(names) == 0 {
				return fmt.Sprintf("(list-length-of %s)", "")[:0] + tmpl(d-1)
			}
			m := g.pick(names, "macro")
			s := "(" + m
			for i := 0; i < g.macros[m].params; i++ {
				s += " " + tmpl(d-1)
			}
			if g.macros[m].rest {
				s += " " + tmpl(d-1)
			}
			return s + ")"
		}
	}
	body := "`" + tmpl(2+g.intn(2, "depth"))
	if !strings.HasPrefix(body, "`(") {
		body = "`(+ 0 " + body[1:] + ")"
	}
	switch g.intn(5, "form") {
	case 1:
		// a temporary made by gensym
		if params > 0 {
			body = fmt.Sprintf("(let ((g (gensym))) `(let ((,g %s)) (+ ,g %s)))", hole(), hole())
		}
	case 2:
		// built by list functions
		body = fmt.Sprintf("(list '+ %s %s)", listHole(g, params, rest), listHole(g, params, rest))
	case 3:
		// decides at expansion time
		if rest {
			body = fmt.Sprintf("(if (= (length $r) 1) (car $r) %s)", body)
		} else if params > 0 {
			body = fmt.Sprintf("(if (integerp $1) %s %s)", "(+ $1 1)", body)
		}
	}
	g.macros[n] = mi
	return fmt.Sprintf("(defmacro %s (%s) %s%s)", n, strings.TrimSpace(pl), pre, body)
}

func listHole(g *gen, params int, rest bool) string {
	if params > 0 {
		return g.pick([]string{"$1", "$2"}[:params], "param")
	}
	return "(car $r)"
}

// programs ---------------------------------------------------------------

type progCfg struct {
	w       weights
	depth   int
	macros  int  // 0..n macro definitions
	recFuns bool // prefer recursive functions
	funs    int
	globals int
	dyns    bool
	mains   int
	methods int // per cent of the functions that are generic ones
}

func genProgram(t *rapid.T, cfg progCfg) Program {
	g := &gen{t: t, w: cfg.w, fnames: map[string]int{}, gnames: map[string]int{}, macros: map[string]macroInfo{}, globals: map[string]bool{}}
	g.push()
	var p Program
	add := func(s string) { p.Forms = append(p.Forms, s) }
	if cfg.dyns {
		add("(defdynamic u 100)")
		add("(defdynamic x 200)")
		g.dyns = []string{"u", "x"}
		add("(defdynamic za nil)")
		g.adyns = []string{"za"}
	}
	ng := 0
	if cfg.globals > 0 {
		ng = between(t, 0, cfg.globals, "nglobals")
	}
	for i := 0; i < ng; i++ {
		k := g.kind()
		v := g.newVar(k)
		if g.globals[v] {
			continue
		}
		// globals live as long as the process: defining them must not fail
		g.push()
		g.sc.noMut = true
		d := 1
		if g.w["with-handler"] > 0 || g.w["unwind-protect"] > 0 {
			d = 0
		}
		add(fmt.Sprintf("(defglobal %s %s)", v, g.ofKind(k, d)))
		g.pop()
		g.globals[v] = true
	}
	nm := 0
	if cfg.macros > 0 {
		nm = between(t, 1, cfg.macros, "nmacros")
	}
	for i := 0; i < nm; i++ {
		add(g.macroDef(fmt.Sprintf("m%d", i+1)))
	}
	g.cfg = cfg
	nf := between(t, 0, cfg.funs, "nfuns")
	if cfg.recFuns {
		nf = max(nf, 1)
	}
	for i := 0; i < nf; i++ {
		add(g.defun())
	}
	nmain := between(t, 1, cfg.mains, "nmain")
	for i := 0; i < nmain; i++ {
		d := between(t, min(3, cfg.depth), cfg.depth, "depth")
		g.push()
		add(g.intExpr(d))
		g.pop()
		if i+1 < nmain && g.chance(20) {
			add(g.defun())
		}
	}
	return p
}

// defun makes a global function: plain, or recursive with fuel.
func (g *gen) defun() string {
	name := g.pick(funPool, "fn")
	if g.cfg.recFuns && g.chance(70) {
		name = g.pick([]string{"f2", "g2"}, "fn")
	}
	if _, dup := g.gnames[name]; dup {
		// redefinition: later functions may already call it, which could
		// make a cycle; give it a leaf body
		saved := g.gnames
		g.gnames = map[string]int{}
		s := g.defunNamed(name, 2)
		g.gnames = saved
		return s
	}
	s := g.defunNamed(name, 4)
	g.gnames[name] = arityOf(name)
	return s
}

// asMethod makes a generic function with one method of a definition.
func (g *gen) asMethod(name, def string) string {
	open := strings.Index(def, "(")
	open += 1 + strings.Index(def[open+1:], "(")
	end := open + strings.Index(def[open:], ")")
	params := strings.Fields(def[open+1 : end])
	typed := ""
	for _, p := range params {
		switch {
		case p[0] == '&' || p[0] == ':':
			typed += " :rest"
		default:
			typed += fmt.Sprintf(" (%s %s)", p, g.pick([]string{"<integer>", "<object>"}, "class"))
		}
	}
	generic := strings.ReplaceAll(strings.Join(params, " "), "&rest", ":rest")
	decoy := strings.ReplaceAll(strings.ReplaceAll(typed, "<integer>", "<string>"), "<object>", "<string>")
	s := fmt.Sprintf("(progn (defgeneric %s (%s))", name, generic)
	if g.chance(50) {
		s += fmt.Sprintf(" (defmethod %s (%s) (tr 'wrong 0))", name, decoy)
	}
	return s + fmt.Sprintf(" (defmethod %s (%s)%s) '%s)", name, typed, def[end+1:len(def)-1], name)
}

func (g *gen) defunNamed(name string, depth int) (s string) {
	d := between(g.t, 1, depth, "depth")
	params := g.params(name)
	savedMacros := g.macros
	g.push()
	defer func() { g.pop(); g.macros = savedMacros }()
	for _, p := range params {
		if p[0] != '&' && p[0] != ':' {
			g.sc.vars[p] = true
		}
	}
	method := g.chance(g.cfg.methods)
	if method {
		defer func() { s = g.asMethod(name, s) }()
	} else {
		g.sc.blocks = append(g.sc.blocks, name)
	}
	if arityOf(name) == 2 && (g.chance(60) || g.cfg.recFuns && g.chance(80)) {
		// recursive: the first parameter is the fuel
		savedRec := g.rec
		g.sc.vars = map[string]bool{"n": true, "c": true}
		g.rec = &recInfo{name: name, fuel: "n"}
		base := g.intExpr(d - 1)
		g.rec = &recInfo{name: name, fuel: "n"}
		body := g.body(d, 2)
		g.rec = savedRec
		// the base case must not recurse
		g.rec = nil
		base = g.intExpr(d - 1)
		g.rec = savedRec
		return fmt.Sprintf("(defun %s (n c) (if (or (<= n 0) (> n 4)) %s (progn %s)))", name, base, body)
	}
	local := ""
	if !method && g.chance(10) && params[0][0] != '&' && params[0][0] != ':' {
		for _, v := range []string{"d", "b"} {
			if !g.sc.vars[v] {
				local = " / " + v
				g.sc.vars[v] = true
				// a local starts as nil: assign before use
				return fmt.Sprintf("(defun %s (%s%s) (setq %s %s) %s)", name, strings.Join(params, " "), local, v, g.lit(), g.body(d, 3))
			}
		}
	}
	return fmt.Sprintf("(defun %s (%s) %s)", name, strings.Join(params, " "), g.body(d, 3))
}

// protected is a form for unwind-protect, most often one that is left early.
func (g *gen) protected(d int) string {
	if !g.exitsAllowed() || g.chance(35) {
		return g.intExpr(d)
	}
	e := g.exitForm(d)
	for i := g.intn(3, "wraps"); i > 0; i-- {
		e = g.wrapExit(e, d-i)
	}
	return e
}

// exitForm leaves the forms around it.
func (g *gen) exitForm(d int) string {
	var l []func() string
	if bs := g.blocks(); len(bs) > 0 {
		f := func() string { return fmt.Sprintf("(return-from %s %s)", g.pick(bs, "block"), g.intExpr(d-1)) }
		l = append(l, f, f, f)
	}
	if bs := g.ablocks(); len(bs) > 0 {
		l = append(l, func() string { return fmt.Sprintf("(return-from %s %s)", g.pick(bs, "block"), g.anyExpr(d-1)) })
	}
	if ts := g.tagsInScope(); len(ts) > 0 {
		f := func() string { return "(go " + g.pick(ts, "tag") + ")" }
		l = append(l, f, f)
	}
	if w, ok := g.w["throw"]; !ok || w > 0 {
		f := func() string {
			return fmt.Sprintf("(throw '%s %s)", g.pick([]string{"c1", "c2"}, "tag"), g.intExpr(d-1))
		}
		l = append(l, f, f)
	}
	if g.w["error-op"] > 0 || len(l) == 0 {
		l = append(l, func() string { return g.errorOp(d) })
	}
	return l[g.intn(len(l), "exit")]()
}

// wrapExit puts something between a form and the place it returns to.
func (g *gen) wrapExit(e string, d int) string {
	if d < 1 {
		d = 1
	}
	switch g.intn(12, "wrap") {
	case 0:
		return fmt.Sprintf("(car (mapcar (lambda (a) %s) (list %s 2)))", e, g.intExpr(d-1))
	case 1:
		return fmt.Sprintf("(let ((b %s)) %s %s)", g.intExpr(d-1), e, g.intExpr(d-1))
	case 2:
		return fmt.Sprintf("(+ %s %s)", g.tr(g.intExpr(d-1)), e)
	case 3:
		return fmt.Sprintf("(funcall (lambda (c) %s) %s)", e, g.intExpr(d-1))
	case 4:
		return fmt.Sprintf("(progn %s %s %s 3)", g.stmt(d-1), e, g.stmt(d-1))
	case 5:
		return fmt.Sprintf("(unwind-protect %s %s)", e, g.cleanup(d))
	case 6:
		return fmt.Sprintf("(flet ((j (a) %s)) (j %s))", e, g.intExpr(d-1))
	case 7:
		return fmt.Sprintf("(progn (while t %s %s) 1)", g.stmt(d-1), e)
	case 8:
		return fmt.Sprintf("(progn (dolist (c '(1 2)) (if (= c %s) %s) %s) 2)", g.lit(), e, g.tr("c"))
	case 9:
		return fmt.Sprintf("(block h0 %s)", e)
	case 10:
		return fmt.Sprintf("(catch 'h0 %s)", e)
	default:
		return fmt.Sprintf("(if %s %s %s)", g.boolExpr(d-1), e, g.intExpr(d-1))
	}
}
