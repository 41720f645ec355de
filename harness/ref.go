package main

// The reference interpreter: a direct definition of the ISLisp subset the
// program generator uses, written from the language's documentation.  Control
// transfers are Go panics, so that nothing of the implementation's error
// plumbing, tail-call optimisation or scoping is shared with it.

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

// Fun is a function or a macro.
type Fun struct {
	name   string
	block  string // name of the block its body is, or ""
	params []string
	rest   string
	locals []string
	body   []V
	env    *env
	prim   func(r *ref, args []V) V
	method bool
	types  []string
	min    int
	max    int // -1: any
}

// Hash is a hash table.
type Hash struct{ m map[string]V }

// Cond is a condition.
type Cond struct {
	Class string
	Obj   V // domain-error-object, name, or format arguments
	Fmt   string
	late  bool
}

type cell struct{ v V }

type env struct {
	up    *env
	vars  map[string]*cell
	funs  map[string]*Fun
	block *blockRec
	tags  *tagsRec
	fn    *Fun // the function whose body this is
}

type blockRec struct {
	name   string
	active bool
	depth  int
}

type tagsRec struct {
	names  map[string]int
	active bool
	depth  int
}

type catchRec struct {
	tag   V
	depth int
}

type handlerRec struct {
	fn      *Fun
	up      *handlerRec
	cleanup int // how many cleanups it was established in
	guards  int // and how many forms whose end matters to it
}

// the panics
type (
	exitBlock struct {
		b *blockRec
		v V
	}
	exitGo struct {
		t   *tagsRec
		idx int
	}
	exitThrow struct {
		c *catchRec
		v V
	}
	exitContinue struct {
		c *Cond
		v V
	}
	lispErr    struct{ c *Cond }
	refStop    struct{ why string } // the program leaves the specified subset
	exitCancel struct{}             // the host cancelled the evaluation
)

type ref struct {
	globals   map[string]*cell
	funs      map[string]*Fun
	macros    map[string]*Fun
	dyn       map[string]V
	props     map[string]V
	catches   []*catchRec
	handler   *handlerRec
	handling  []*Cond
	cleanup   int  // > 0 while cleanup forms run
	lateCross bool // a handler was called for a late error across guards
	guards    int  // unwind-protect, dynamic-let and catch forms being evaluated
	inHand    int  // > 0 while a handler runs
	depth     int  // nesting of function calls
	fuel      int
	trace     []string
	htrace    []string
	writes    int // assignments so far
	out       strings.Builder
	feats     map[string]int
	gensyms   int
	maxDepth  int

	// cancelling: the event with number cancelAt (from 1) cancels the context
	cancelAt  int
	cancelled bool   // and no cleanup forms run
	wasCancel bool   // the cancellation happened
	pending   []bool // for each event after it: begun before the cancellation
	anyError  bool   // an operation begun before it failed by itself
}

func newRef(fuel int) *ref {
	return &ref{
		globals: map[string]*cell{}, funs: map[string]*Fun{}, macros: map[string]*Fun{},
		dyn: map[string]V{}, props: map[string]V{}, fuel: fuel, feats: map[string]int{},
	}
}

func (r *ref) feat(s string) { r.feats[s]++ }

func (r *ref) stop(f string, a ...any) { panic(refStop{fmt.Sprintf(f, a...)}) }

func (r *ref) step() {
	r.fuel--
	if r.fuel < 0 {
		r.stop("fuel")
	}
}

// top evaluates one top-level form; the error condition is nil on success.
func (r *ref) top(form V) (v V, c *Cond, stopped string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case lispErr:
			c = e.c
		case refStop:
			stopped = e.why
		case exitCancel:
			stopped = "cancelled"
		case exitContinue:
			stopped = "continue-condition outside of a handler"
		default:
			panic(e)
		}
		r.catches, r.handler, r.handling, r.cleanup, r.inHand, r.depth = nil, nil, nil, 0, 0, 0
	}()
	v = r.eval(form, nil)
	if n := 4000; huge(v, &n) {
		r.stop("huge value")
	}
	return v, nil, ""
}

// huge values are not compared.
func huge(v V, n *int) bool {
	for {
		if *n--; *n < 0 {
			return true
		}
		switch x := v.(type) {
		case *Pair:
			if huge(x.Car, n) {
				return true
			}
			v = x.Cdr
		case *Arr:
			for _, e := range x.El {
				if huge(e, n) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// signal reports a condition to the active handler.
func (r *ref) signal(c *Cond, continuable bool) V {
	return r.signalLate(c, continuable, c.late)
}

func (r *ref) signalLate(c *Cond, continuable, late bool) V {
	r.feat("signal")
	r.feat("signal " + c.Class)
	if r.cancelled {
		r.anyError = true
		panic(exitCancel{})
	}
	h := r.handler
	if h != nil && late && r.guards != h.guards {
		r.lateCross = true
	}
	if r.cleanup > 0 {
		if r.lateCross {
			r.stop("error in a cleanup form after a late error")
		}
		if r.wasCancel {
			r.stop("error in a cleanup form and a cancellation")
		}
		if h != nil && h.cleanup != r.cleanup {
			if late {
				// it may run before or after the end of the cleanup
				r.stop("late error in a cleanup form, a handler outside")
			}
			r.feat("error in a cleanup form, a handler outside")
		}
		r.feat("error in a cleanup form")
	}
	if h == nil {
		panic(lispErr{c})
	}
	if r.inHand > 0 {
		r.feat("error in handler")
	}
	cont := func() (v V, ok bool) {
		saved := r.handler
		r.handler = h.up
		r.inHand++
		handling := r.handling
		r.handling = append(handling[:len(handling):len(handling)], c)
		traced := len(r.trace) + r.writes
		guards := r.guards
		defer func() {
			r.handler = saved
			r.handling = handling
			r.inHand--
			if late && guards != h.guards && len(r.trace)+r.writes != traced {
				// it may run before or after the cleanup forms of
				// what is left
				panic(refStop{"effects in the handler of a late error"})
			}
			if e := recover(); e != nil {
				if _, is := e.(exitThrow); is && late && guards != h.guards {
					panic(refStop{"throw in the handler of a late error"})
				}
				if ec, is := e.(exitContinue); is && ec.c == c {
					v, ok = ec.v, true
					return
				}
				panic(e)
			}
		}()
		r.call(h.fn, []V{c})
		return nil, false
	}
	v, ok := cont()
	if ok {
		if !continuable {
			r.stop("continue-condition on an error that is not continuable")
		}
		r.feat("continued")
		return v
	}
	r.stop("a handler that returns")
	return nil
}

func (r *ref) domain(obj V, class string) V {
	return r.signal(&Cond{Class: "<domain-error>", Obj: obj, Fmt: class}, false)
}

func (r *ref) program(what string) V {
	return r.signal(&Cond{Class: "<program-error>", Fmt: what, late: true}, false)
}

func (r *ref) control(what string) V {
	r.feat("control-error")
	return r.signal(&Cond{Class: "<control-error>", Fmt: what, late: true}, false)
}

func (e *env) lookup(name string) *cell {
	for ; e != nil; e = e.up {
		if c, ok := e.vars[name]; ok {
			return c
		}
	}
	return nil
}

func (e *env) lookupFun(name string) *Fun {
	for ; e != nil; e = e.up {
		if f, ok := e.funs[name]; ok {
			return f
		}
	}
	return nil
}

func (r *ref) variable(name string, e *env) *cell {
	if c := e.lookup(name); c != nil {
		return c
	}
	return r.globals[name]
}

func (r *ref) function(name string, e *env) *Fun {
	if f := e.lookupFun(name); f != nil {
		r.feat("local function")
		return f
	}
	if f, ok := r.funs[name]; ok {
		return f
	}
	if f, ok := prims[name]; ok {
		return f
	}
	return nil
}

func (r *ref) progn(forms V, e *env) V {
	var v V = Nil
	for {
		p, ok := forms.(*Pair)
		if !ok {
			return v
		}
		v = r.eval(p.Car, e)
		forms = p.Cdr
	}
}

func (r *ref) eval(form V, e *env) V {
	r.step()
	switch x := form.(type) {
	case Sym:
		if c := r.variable(string(x), e); c != nil {
			return c.v
		}
		return r.signal(&Cond{Class: "<unbound-variable>", Obj: x, late: true}, false)
	case *Pair:
		if op, ok := x.Car.(Sym); ok {
			if e.lookupFun(string(op)) == nil {
				if m, ok := r.macros[string(op)]; ok {
					r.feat("macro call")
					args, _ := vslice(x.Cdr)
					return r.eval(r.expand(m, args), e)
				}
				if sf, ok := specials[string(op)]; ok {
					switch op {
					case "setq", "psetq", "setf", "incf", "decf", "set-dynamic", "defglobal", "defdynamic":
						r.writes++
					}
					return sf(r, x.Cdr, e)
				}
			}
			f := r.function(string(op), e)
			if f == nil {
				return r.signal(&Cond{Class: "<undefined-function>", Obj: op, late: true}, false)
			}
			r.checkCancel()
			if strings.HasPrefix(string(op), "set-") {
				r.writes++
			}
			return r.call(f, r.args(x.Cdr, e))
		}
		if p, ok := x.Car.(*Pair); ok && p.Car == V(Sym("lambda")) {
			r.checkCancel()
			f := r.lambda(p.Cdr, e, "")
			return r.call(f, r.args(x.Cdr, e))
		}
		return r.domain(x.Car, "<function>")
	}
	return form
}

func (r *ref) checkCancel() {
	if r.cancelled {
		panic(exitCancel{})
	}
}

func (r *ref) args(forms V, e *env) []V {
	var a []V
	for {
		p, ok := forms.(*Pair)
		if !ok {
			return a
		}
		a = append(a, r.eval(p.Car, e))
		forms = p.Cdr
	}
}

func (r *ref) lambda(def V, e *env, block string) *Fun {
	p := def.(*Pair)
	f := &Fun{env: e, block: block, name: block}
	params, _ := vslice(p.Car)
	f.params, f.rest, f.locals = paramList(params)
	f.body, _ = vslice(p.Cdr)
	r.feat("closure")
	return f
}

func paramList(params []V) (req []string, rest string, locals []string) {
	slash := false
	for i := 0; i < len(params); i++ {
		switch x := params[i].(type) {
		case Kw:
			i++
			rest = string(params[i].(Sym))
		case Sym:
			if x == "/" {
				slash = true
			} else if slash {
				locals = append(locals, string(x))
			} else {
				req = append(req, string(x))
			}
		}
	}
	return
}

func (r *ref) bind(f *Fun, args []V) map[string]*cell {
	vars := map[string]*cell{}
	for i, p := range f.params {
		vars[p] = &cell{args[i]}
	}
	for _, l := range f.locals {
		vars[l] = &cell{Nil}
	}
	if f.rest != "" {
		vars[f.rest] = &cell{vlist(args[len(f.params):]...)}
	}
	return vars
}

func (r *ref) call(f *Fun, args []V) (result V) {
	r.step()
	if f.prim != nil {
		if len(args) < f.min || (f.max >= 0 && len(args) > f.max) {
			r.feat("arity error")
			return r.program("arity")
		}
		return f.prim(r, args)
	}
	if f.method {
		if len(args) < len(f.params) || (f.rest == "" && len(args) > len(f.params)) {
			r.stop("no applicable method")
		}
		for i, t := range f.types {
			for k, a := range args {
				if _, ok := a.(Int); !ok && t == "<integer>" && (k == i || k >= i && i == len(f.params)) {
					r.stop("no applicable method")
				}
			}
		}
		r.feat("method call")
	}
	if len(args) < len(f.params) || (f.rest == "" && len(args) > len(f.params)) {
		r.feat("arity error")
		return r.program("arity")
	}
	r.feat("user call")
	r.depth++
	if r.depth > r.maxDepth {
		r.maxDepth = r.depth
	}
	if r.depth > 600 {
		r.stop("depth")
	}
	ne := &env{up: f.env, vars: r.bind(f, args), fn: f}
	if f.block != "" {
		b := &blockRec{name: f.block, active: true, depth: r.depth}
		ne.block = b
		defer func() {
			b.active = false
			if e := recover(); e != nil {
				if x, ok := e.(exitBlock); ok && x.b == b {
					result = x.v
					r.depth = b.depth - 1
					return
				}
				panic(e)
			}
		}()
	}
	for _, form := range f.body {
		result = r.eval(form, ne)
	}
	if len(f.body) == 0 {
		result = Nil
	}
	r.depth--
	return result
}

// expand returns the form a macro call stands for.
func (r *ref) expand(m *Fun, args []V) V {
	if len(args) < len(m.params) {
		r.stop("macro with too few arguments")
	}
	if m.rest == "" && len(args) > len(m.params) {
		r.stop("macro with too many arguments")
	}
	vars := r.bind(m, args)
	if m.rest != "" {
		vars["@"+m.rest] = &cell{vars[m.rest].v}
	}
	ne := &env{up: m.env, vars: vars}
	// macros may be expanded before they are reached
	saved := r.cancelled
	r.cancelled = false
	defer func() { r.cancelled = saved }()
	var v V = Nil
	for _, form := range m.body {
		v = r.eval(form, ne)
	}
	return v
}

func (r *ref) quasi(t V, e *env) V {
	p, ok := t.(*Pair)
	if !ok {
		return t
	}
	if p.Car == V(Sym("unquote")) {
		r.feat("unquote")
		return r.eval(p.Cdr.(*Pair).Car, e)
	}
	if sub, ok := p.Car.(*Pair); ok && sub.Car == V(Sym("unquote")) {
		if s, ok := sub.Cdr.(*Pair).Car.(Sym); ok && strings.HasPrefix(string(s), "@") {
			r.feat("splice")
			items, _ := vslice(r.eval(s, e))
			tail := r.quasi(p.Cdr, e)
			for i := len(items) - 1; i >= 0; i-- {
				tail = &Pair{items[i], tail}
			}
			return tail
		}
	}
	car := r.quasi(p.Car, e)
	cdr := r.quasi(p.Cdr, e)
	return &Pair{car, cdr}
}

func truth(v V) bool { return !isNil(v) }

func (r *ref) condName(v V) string {
	if isNil(v) {
		return ""
	}
	if s, ok := v.(Sym); ok {
		return string(s)
	}
	r.stop("bad block name")
	return ""
}

func (r *ref) doBlock(name string, body V, e *env) (v V) {
	b := &blockRec{name: name, active: true, depth: r.depth}
	ne := &env{up: e, block: b}
	defer func() {
		b.active = false
		if x := recover(); x != nil {
			if ex, ok := x.(exitBlock); ok && ex.b == b {
				v = ex.v
				r.noteExit("return-from", b.depth)
				r.depth = b.depth
				return
			}
			panic(x)
		}
	}()
	return r.progn(body, ne)
}

func (r *ref) noteExit(kind string, depth int) {
	r.feat("exit " + kind)
	if r.depth > depth {
		r.feat("exit across call")
	}
}

func (r *ref) returnFrom(name string, val func() V, e *env) V {
	for x := e; x != nil; x = x.up {
		if x.block != nil && x.block.name == name {
			if !x.block.active {
				return r.control("block left")
			}
			v := val()
			if !x.block.active {
				r.stop("block left by its own value form")
			}
			panic(exitBlock{x.block, v})
		}
	}
	return r.control("no block")
}

func list1(v V) (V, V) {
	p, ok := v.(*Pair)
	if !ok {
		panic(refStop{"malformed form"})
	}
	return p.Car, p.Cdr
}

var specials map[string]func(r *ref, x V, e *env) V

func (r *ref) bindings(bs V, e *env, sequential bool) *env {
	ne := &env{up: e, vars: map[string]*cell{}}
	items, _ := vslice(bs)
	for _, it := range items {
		if s, ok := it.(Sym); ok {
			ne.vars[string(s)] = &cell{Nil}
			continue
		}
		name, rest := list1(it)
		init, _ := list1(rest)
		var v V
		if sequential {
			// a binding is visible to the initialisers after it, and closures
			// made by them see it
			v = r.eval(init, ne)
			ne = &env{up: ne, vars: map[string]*cell{}}
		} else {
			v = r.eval(init, e)
		}
		ne.vars[string(name.(Sym))] = &cell{v}
	}
	return ne
}

func (r *ref) setVar(name string, v V, e *env) V {
	c := r.variable(name, e)
	if c == nil {
		return r.signal(&Cond{Class: "<unbound-variable>", Obj: Sym(name), late: true}, false)
	}
	c.v = v
	return v
}

func (r *ref) loopIter(body func() bool) {
	for body() {
		r.step()
	}
}

func init() {
	specials = map[string]func(r *ref, x V, e *env) V{
		"quote": func(r *ref, x V, e *env) V { v, _ := list1(x); return v },
		"quasiquote": func(r *ref, x V, e *env) V {
			v, _ := list1(x)
			return r.quasi(v, e)
		},
		"function": func(r *ref, x V, e *env) V {
			n, _ := list1(x)
			if s, ok := n.(Sym); ok {
				if f := r.function(string(s), e); f != nil {
					return f
				}
				return r.signal(&Cond{Class: "<undefined-function>", Obj: s, late: true}, false)
			}
			r.stop("function of a non-symbol")
			return nil
		},
		"lambda": func(r *ref, x V, e *env) V { return r.lambda(x, e, "") },
		"progn":  func(r *ref, x V, e *env) V { return r.progn(x, e) },
		"if": func(r *ref, x V, e *env) V {
			c, rest := list1(x)
			th, rest := list1(rest)
			if truth(r.eval(c, e)) {
				return r.eval(th, e)
			}
			if p, ok := rest.(*Pair); ok {
				return r.eval(p.Car, e)
			}
			return Nil
		},
		"when": func(r *ref, x V, e *env) V {
			c, body := list1(x)
			if truth(r.eval(c, e)) {
				return r.progn(body, e)
			}
			return Nil
		},
		"unless": func(r *ref, x V, e *env) V {
			c, body := list1(x)
			if truth(r.eval(c, e)) {
				return Nil
			}
			return r.progn(body, e)
		},
		"and": func(r *ref, x V, e *env) V {
			items, _ := vslice(x)
			var v V = Tru
			for _, it := range items {
				if v = r.eval(it, e); !truth(v) {
					return Nil
				}
			}
			return v
		},
		"or": func(r *ref, x V, e *env) V {
			items, _ := vslice(x)
			for _, it := range items {
				if v := r.eval(it, e); truth(v) {
					return v
				}
			}
			return Nil
		},
		"cond": func(r *ref, x V, e *env) V {
			clauses, _ := vslice(x)
			for _, cl := range clauses {
				test, body := list1(cl)
				r.feat("clause tested")
				if v := r.eval(test, e); truth(v) {
					if isNil(body) {
						return v
					}
					return r.progn(body, e)
				}
			}
			return Nil
		},
		"case": func(r *ref, x V, e *env) V {
			k, cl := list1(x)
			kv := r.eval(k, e)
			clauses, _ := vslice(cl)
			for _, c := range clauses {
				keys, body := list1(c)
				if keys == V(Tru) {
					return r.progn(body, e)
				}
				ks, _ := vslice(keys)
				for _, key := range ks {
					r.feat("key compared")
					if refEqual(kv, key) {
						return r.progn(body, e)
					}
				}
			}
			return Nil
		},
		"case-using": func(r *ref, x V, e *env) V {
			pf, rest := list1(x)
			kf, cl := list1(rest)
			// both are evaluated once, the keys are not
			pred := r.eval(pf, e)
			kv := r.eval(kf, e)
			clauses, _ := vslice(cl)
			for _, c := range clauses {
				keys, body := list1(c)
				if keys == V(Tru) {
					return r.progn(body, e)
				}
				ks, _ := vslice(keys)
				for _, key := range ks {
					f, ok := pred.(*Fun)
					if !ok {
						r.stop("case-using predicate")
					}
					r.feat("key compared")
					if truth(r.call(f, []V{kv, key})) {
						if isNil(body) {
							return Tru
						}
						return r.progn(body, e)
					}
				}
			}
			return Nil
		},
		"prog1": func(r *ref, x V, e *env) V {
			a, rest := list1(x)
			v := r.eval(a, e)
			r.progn(rest, e)
			return v
		},
		"prog2": func(r *ref, x V, e *env) V {
			a, rest := list1(x)
			b, rest := list1(rest)
			r.eval(a, e)
			v := r.eval(b, e)
			r.progn(rest, e)
			return v
		},
		"let":  func(r *ref, x V, e *env) V { b, body := list1(x); return r.progn(body, r.bindings(b, e, false)) },
		"let*": func(r *ref, x V, e *env) V { b, body := list1(x); return r.progn(body, r.bindings(b, e, true)) },
		"setq": func(r *ref, x V, e *env) V {
			var v V = Nil
			items, _ := vslice(x)
			for i := 0; i+1 < len(items); i += 2 {
				v = r.eval(items[i+1], e)
				r.feat("setq")
				v = r.setVar(string(items[i].(Sym)), v, e)
			}
			return v
		},
		"psetq": func(r *ref, x V, e *env) V {
			items, _ := vslice(x)
			var vals []V
			for i := 0; i+1 < len(items); i += 2 {
				vals = append(vals, r.eval(items[i+1], e))
			}
			for i, v := range vals {
				r.setVar(string(items[2*i].(Sym)), v, e)
			}
			return Nil
		},
		"defglobal": func(r *ref, x V, e *env) V {
			n, rest := list1(x)
			f, _ := list1(rest)
			r.globals[string(n.(Sym))] = &cell{r.eval(f, e)}
			return n
		},
		"defun": func(r *ref, x V, e *env) V {
			n, def := list1(x)
			name := string(n.(Sym))
			r.funs[name] = r.lambda(def, e, name)
			delete(r.macros, name)
			return n
		},
		"defgeneric": func(r *ref, x V, e *env) V {
			n, _ := list1(x)
			delete(r.macros, string(n.(Sym)))
			return n
		},
		"defmethod": func(r *ref, x V, e *env) V {
			n, def := list1(x)
			ps, body := list1(def)
			items, _ := vslice(ps)
			var plain []V
			var types []string
			for _, p := range items {
				if l, ok := p.(*Pair); ok {
					c, _ := list1(l.Cdr)
					types = append(types, string(c.(Sym)))
					p = l.Car
				}
				plain = append(plain, p)
			}
			if len(types) > 0 && types[0] == "<string>" {
				return n // no such argument is ever given
			}
			f := r.lambda(&Pair{vlist(plain...), body}, e, "")
			f.method, f.types = true, types
			r.funs[string(n.(Sym))] = f
			return n
		},
		"defmacro": func(r *ref, x V, e *env) V {
			n, def := list1(x)
			m := r.lambda(def, e, "")
			m.name = string(n.(Sym))
			r.macros[m.name] = m
			return n
		},
		"flet": func(r *ref, x V, e *env) V {
			defs, body := list1(x)
			ne := &env{up: e, funs: map[string]*Fun{}}
			items, _ := vslice(defs)
			for _, d := range items {
				n, def := list1(d)
				f := r.lambda(def, e, "")
				ne.funs[string(n.(Sym))] = f
			}
			return r.progn(body, ne)
		},
		"labels": func(r *ref, x V, e *env) V {
			defs, body := list1(x)
			ne := &env{up: e, funs: map[string]*Fun{}}
			items, _ := vslice(defs)
			for _, d := range items {
				n, def := list1(d)
				name := string(n.(Sym))
				ne.funs[name] = r.lambda(def, ne, name)
			}
			return r.progn(body, ne)
		},
		"funcall": func(r *ref, x V, e *env) V {
			args := r.args(x, e)
			if len(args) == 0 {
				return r.program("funcall")
			}
			f, ok := args[0].(*Fun)
			if !ok {
				return r.domain(args[0], "<function>")
			}
			return r.call(f, args[1:])
		},
		"apply": func(r *ref, x V, e *env) V {
			args := r.args(x, e)
			f, ok := args[0].(*Fun)
			if !ok {
				return r.domain(args[0], "<function>")
			}
			last, ok := vslice(args[len(args)-1])
			if !ok {
				r.stop("apply to an improper list")
			}
			r.feat("apply")
			return r.call(f, append(append([]V{}, args[1:len(args)-1]...), last...))
		},
		"while": func(r *ref, x V, e *env) V {
			test, body := list1(x)
			var v V = Nil
			r.loopIter(func() bool {
				if !truth(r.eval(test, e)) {
					return false
				}
				r.feat("iteration")
				v = r.progn(body, e)
				return true
			})
			return v
		},
		"dolist": func(r *ref, x V, e *env) V {
			spec, body := list1(x)
			name, rest := list1(spec)
			lf, _ := list1(rest)
			b := &blockRec{name: "", active: true, depth: r.depth}
			var result V
			func() {
				defer func() {
					b.active = false
					if ex := recover(); ex != nil {
						if xb, ok := ex.(exitBlock); ok && xb.b == b {
							r.noteExit("return", b.depth)
							r.depth = b.depth
							result = xb.v
							return
						}
						panic(ex)
					}
				}()
				be := &env{up: e, block: b}
				items, ok := vslice(r.eval(lf, be))
				if !ok {
					r.stop("dolist over an improper list")
				}
				c := &cell{Nil}
				ne := &env{up: be, vars: map[string]*cell{string(name.(Sym)): c}}
				result = Nil
				for _, it := range items {
					r.step()
					r.feat("iteration")
					c.v = it
					result = r.progn(body, ne)
				}
			}()
			return result
		},
		"dotimes": func(r *ref, x V, e *env) V {
			spec, body := list1(x)
			name, rest := list1(spec)
			nf, _ := list1(rest)
			n, ok := r.eval(nf, e).(Int)
			if !ok {
				r.stop("dotimes count")
			}
			c := &cell{Int(0)}
			ne := &env{up: e, vars: map[string]*cell{string(name.(Sym)): c}}
			for i := Int(0); i < n; i++ {
				r.step()
				r.feat("iteration")
				r.progn(body, ne)
				c.v = i + 1
			}
			return Nil
		},
		"for": func(r *ref, x V, e *env) V {
			specs, rest := list1(x)
			tr, body := list1(rest)
			test, res := list1(tr)
			items, _ := vslice(specs)
			ne := &env{up: e, vars: map[string]*cell{}}
			type stepT struct {
				c *cell
				f V
			}
			var steps []stepT
			for _, it := range items {
				l, _ := vslice(it)
				c := &cell{r.eval(l[1], e)}
				ne.vars[string(l[0].(Sym))] = c
				if len(l) > 2 {
					steps = append(steps, stepT{c, l[2]})
				}
			}
			for {
				r.step()
				if truth(r.eval(test, ne)) {
					break
				}
				r.feat("iteration")
				r.progn(body, ne)
				var vals []V
				for _, s := range steps {
					vals = append(vals, r.eval(s.f, ne))
				}
				for i, s := range steps {
					s.c.v = vals[i]
				}
			}
			return r.progn(res, ne)
		},
		"block": func(r *ref, x V, e *env) V {
			n, body := list1(x)
			return r.doBlock(r.condName(n), body, e)
		},
		"return-from": func(r *ref, x V, e *env) V {
			n, rest := list1(x)
			f, _ := list1(rest)
			return r.returnFrom(r.condName(n), func() V { return r.eval(f, e) }, e)
		},
		"return": func(r *ref, x V, e *env) V {
			f, _ := list1(x)
			// return is a function: its argument is evaluated first
			v := r.eval(f, e)
			return r.returnFrom("", func() V { return v }, e)
		},
		"catch": func(r *ref, x V, e *env) V {
			t, body := list1(x)
			tag := r.eval(t, e)
			return r.doCatch(tag, body, e)
		},
		"throw": func(r *ref, x V, e *env) V {
			a := r.args(x, e)
			for i := len(r.catches) - 1; i >= 0; i-- {
				if refEql(r.catches[i].tag, a[0]) {
					panic(exitThrow{r.catches[i], a[1]})
				}
			}
			return r.control("no catch")
		},
		"tagbody": func(r *ref, x V, e *env) V {
			items, _ := vslice(x)
			t := &tagsRec{names: map[string]int{}, active: true, depth: r.depth}
			for i, it := range items {
				if s, ok := it.(Sym); ok {
					t.names[string(s)] = i
				}
			}
			ne := &env{up: e, tags: t}
			defer func() { t.active = false }()
			run := func(form V) (jump int) {
				jump = -1
				defer func() {
					if ex := recover(); ex != nil {
						if g, ok := ex.(exitGo); ok && g.t == t {
							r.noteExit("go", t.depth)
							r.depth = t.depth
							jump = g.idx
							return
						}
						panic(ex)
					}
				}()
				r.eval(form, ne)
				return
			}
			for i := 0; i < len(items); i++ {
				r.step()
				if _, ok := items[i].(Sym); ok {
					continue
				}
				if j := run(items[i]); j >= 0 {
					if j < i {
						r.feat("go backwards")
					}
					i = j
				}
			}
			return Nil
		},
		"go": func(r *ref, x V, e *env) V {
			n, _ := list1(x)
			name := string(n.(Sym))
			for y := e; y != nil; y = y.up {
				if y.tags == nil {
					continue
				}
				if idx, ok := y.tags.names[name]; ok {
					if !y.tags.active {
						return r.control("tagbody left")
					}
					panic(exitGo{y.tags, idx})
				}
			}
			return r.control("no tag")
		},
		"unwind-protect": func(r *ref, x V, e *env) V {
			f, clean := list1(x)
			normal := false
			if r.cancelled {
				r.stop("unwind-protect begun after the cancellation")
			}
			r.guards++
			defer func() {
				if normal {
					return
				}
				r.guards--
				ex := recover()
				if _, ok := ex.(refStop); ok {
					panic(ex)
				}
				r.feat("cleanup on exit")
				r.runCleanup(clean, e)
				panic(ex)
			}()
			v := r.eval(f, e)
			normal = true
			r.guards--
			r.feat("cleanup on normal end")
			r.runCleanup(clean, e)
			return v
		},
		"defdynamic": func(r *ref, x V, e *env) V {
			n, rest := list1(x)
			f, _ := list1(rest)
			r.dyn[string(n.(Sym))] = r.eval(f, e)
			return n
		},
		"dynamic": func(r *ref, x V, e *env) V {
			n, _ := list1(x)
			v, ok := r.dyn[string(n.(Sym))]
			if !ok {
				return r.signal(&Cond{Class: "<unbound-variable>", Obj: n, late: true}, false)
			}
			r.feat("dynamic read")
			if r.inHand > 0 {
				r.writes++ // its value depends on when the handler runs
			}
			return v
		},
		"set-dynamic": func(r *ref, x V, e *env) V {
			f, rest := list1(x)
			n, _ := list1(rest)
			v := r.eval(f, e)
			r.dyn[string(n.(Sym))] = v
			r.feat("set-dynamic")
			return v
		},
		"dynamic-let": func(r *ref, x V, e *env) V {
			bs, body := list1(x)
			items, _ := vslice(bs)
			var names []string
			var vals []V
			for _, it := range items {
				n, rest := list1(it)
				f, _ := list1(rest)
				names = append(names, string(n.(Sym)))
				vals = append(vals, r.eval(f, e))
			}
			type old struct {
				v  V
				ok bool
			}
			var olds []old
			for i, n := range names {
				v, ok := r.dyn[n]
				olds = append(olds, old{v, ok})
				r.dyn[n] = vals[i]
			}
			r.feat("dynamic-let")
			ended := false
			r.guards++
			defer func() {
				r.guards--
				if !ended {
					r.feat("dynamic-let left by an exit")
				}
				for i := len(names) - 1; i >= 0; i-- {
					if olds[i].ok {
						r.dyn[names[i]] = olds[i].v
					} else {
						delete(r.dyn, names[i])
					}
				}
			}()
			v := r.progn(body, e)
			ended = true
			return v
		},
		"with-handler": func(r *ref, x V, e *env) V {
			hf, body := list1(x)
			f, ok := r.eval(hf, e).(*Fun)
			if !ok {
				r.stop("handler is not a function")
			}
			saved := r.handler
			r.handler = &handlerRec{fn: f, up: saved, cleanup: r.cleanup, guards: r.guards}
			defer func() { r.handler = saved }()
			return r.progn(body, e)
		},
		"ignore-errors": func(r *ref, x V, e *env) (v V) {
			d := r.depth
			saved := r.handler
			if saved != nil {
				r.feat("ignore-errors inside of with-handler")
			}
			r.handler = nil
			defer func() {
				r.handler = saved
				if ex := recover(); ex != nil {
					if _, ok := ex.(lispErr); ok {
						r.feat("error ignored")
						r.depth = d
						v = Nil
						return
					}
					panic(ex)
				}
			}()
			return r.progn(x, e)
		},
		"continue-condition": func(r *ref, x V, e *env) V {
			a := r.args(x, e)
			for _, c := range r.handling {
				if a[0] == V(c) {
					if c.late {
						r.stop("continue-condition of a late error")
					}
					panic(exitContinue{c, a[1]})
				}
			}
			r.stop("continue-condition of a condition not being handled")
			return nil
		},
		"setf": func(r *ref, x V, e *env) V {
			place, rest := list1(x)
			f, _ := list1(rest)
			return r.setf(place, f, e)
		},
		"incf": func(r *ref, x V, e *env) V { return r.incf(x, e, 1) },
		"decf": func(r *ref, x V, e *env) V { return r.incf(x, e, -1) },
	}
}

func (r *ref) doCatch(tag V, body V, e *env) (v V) {
	c := &catchRec{tag: tag, depth: r.depth}
	n := len(r.catches)
	r.catches = append(r.catches, c)
	r.guards++
	defer func() {
		r.guards--
		r.catches = r.catches[:n]
		if x := recover(); x != nil {
			if ex, ok := x.(exitThrow); ok && ex.c == c {
				v = ex.v
				r.noteExit("throw", c.depth)
				r.depth = c.depth
				return
			}
			panic(x)
		}
	}()
	return r.progn(body, e)
}

func (r *ref) runCleanup(clean V, e *env) {
	left := false
	func() {
		r.cleanup++
		saved, d := r.cancelled, r.depth
		r.cancelled = false
		defer func() {
			r.cleanup--
			r.cancelled = saved
			switch ex := recover().(type) {
			case nil:
				r.depth = d
			case exitBlock, exitGo, exitThrow, exitContinue:
				left = true
				r.depth = d
			default:
				panic(ex)
			}
		}()
		r.progn(clean, e)
	}()
	if left {
		r.feat("exit from a cleanup form")
		if r.wasCancel || r.lateCross {
			r.stop("exit from a cleanup form")
		}
		r.signal(&Cond{Class: "<control-error>", Fmt: "cleanup"}, false)
	}
}

func (r *ref) incf(x V, e *env, sign Int) V {
	place, rest := list1(x)
	var delta V = Int(1)
	if p, ok := rest.(*Pair); ok {
		delta = p.Car
	}
	op := Sym("+")
	if sign < 0 {
		op = "-"
	}
	r.feat("incf/decf")
	return r.setf(place, vlist(op, place, delta), e)
}

// setf evaluates the value form, then the subforms of the place, and stores.
func (r *ref) setf(place V, f V, e *env) V {
	if s, ok := place.(Sym); ok {
		r.feat("setf variable")
		v := r.eval(f, e)
		return r.setVar(string(s), v, e)
	}
	opV, args := list1(place)
	op := string(opV.(Sym))
	v := r.eval(f, e)
	r.feat("setf " + op)
	switch op {
	case "dynamic":
		n, _ := list1(args)
		r.dyn[string(n.(Sym))] = v
		return v
	}
	a := r.args(args, e)
	consAt := func(x V, n int) *Pair {
		for ; n > 0; n-- {
			p, ok := x.(*Pair)
			if !ok {
				r.stop("setf beyond the end")
			}
			x = p.Cdr
		}
		p, ok := x.(*Pair)
		if !ok {
			r.stop("setf beyond the end")
		}
		return p
	}
	idx := func(x V) int {
		n, ok := x.(Int)
		if !ok || n < 0 {
			r.stop("setf index")
		}
		return int(n)
	}
	switch op {
	case "car", "first":
		consAt(a[0], 0).Car = v
	case "cdr":
		consAt(a[0], 0).Cdr = v
	case "cadr", "second":
		consAt(a[0], 1).Car = v
	case "caddr", "third":
		consAt(a[0], 2).Car = v
	case "cadddr":
		consAt(a[0], 3).Car = v
	case "cddr":
		consAt(a[0], 1).Cdr = v
	case "cdddr":
		consAt(a[0], 2).Cdr = v
	case "nth":
		consAt(a[1], idx(a[0])).Car = v
	case "elt":
		switch seq := a[0].(type) {
		case *Arr:
			i := idx(a[1])
			if len(seq.Dims) != 1 || i >= len(seq.El) {
				r.stop("setf index")
			}
			seq.El[i] = v
		default:
			consAt(a[0], idx(a[1])).Car = v
		}
	case "aref":
		arr, ok := a[0].(*Arr)
		if !ok || len(arr.Dims) != len(a)-1 {
			r.stop("setf aref")
		}
		p := 0
		for i, d := range arr.Dims {
			n := idx(a[1+i])
			if n >= d {
				r.stop("setf index")
			}
			p = p*d + n
		}
		arr.El[p] = v
	case "gethash":
		h, ok := a[1].(*Hash)
		if !ok {
			r.stop("setf gethash")
		}
		h.m[hashKey(r, a[0])] = v
	case "assoc":
		// replaces the pair found
		x := a[1]
		for {
			p, ok := x.(*Pair)
			if !ok {
				r.stop("setf assoc without a match")
			}
			if q, ok := p.Car.(*Pair); ok && refEqual(q.Car, a[0]) {
				p.Car = v
				return v
			}
			x = p.Cdr
		}
	case "nthcdr":
		n := idx(a[0])
		if n < 1 {
			r.stop("setf nthcdr")
		}
		consAt(a[1], n-1).Cdr = v
	case "property":
		s, ok1 := a[0].(Sym)
		k, ok2 := a[1].(Sym)
		if !ok1 || !ok2 {
			r.stop("setf property")
		}
		r.props[string(s)+" "+string(k)] = v
	default:
		r.stop("setf %s", op)
	}
	return v
}

func hashKey(r *ref, k V) string {
	switch k.(type) {
	case Int, Str, Sym, Chr, Flt, Kw:
		return show(k)
	}
	r.stop("hash key")
	return ""
}

// refEql is identity, or sameness of type and value of atoms.
func refEql(a, b V) bool {
	switch x := a.(type) {
	case *Pair, *Arr, *Hash, *Fun, *Cond:
		return a == b
	case Flt:
		y, ok := b.(Flt)
		return ok && (x == y)
	default:
		switch b.(type) {
		case *Pair, *Arr, *Hash, *Fun, *Cond:
			return false
		}
		return a == b
	}
}

func refEqual(a, b V) bool {
	switch x := a.(type) {
	case *Pair:
		y, ok := b.(*Pair)
		return ok && refEqual(x.Car, y.Car) && refEqual(x.Cdr, y.Cdr)
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || fmt.Sprint(x.Dims) != fmt.Sprint(y.Dims) {
			return false
		}
		for i := range x.El {
			if !refEqual(x.El[i], y.El[i]) {
				return false
			}
		}
		return true
	}
	return refEql(a, b)
}

// the primitives --------------------------------------------------------

var prims map[string]*Fun

func defprim(name string, min, max int, f func(r *ref, a []V) V) {
	prims[name] = &Fun{name: name, prim: f, min: min, max: max}
}

func (r *ref) num(v V) Int {
	n, ok := v.(Int)
	if !ok {
		r.domain(v, "<number>")
	}
	return n
}

func (r *ref) cons(v V) *Pair {
	p, ok := v.(*Pair)
	if !ok {
		r.domain(v, "<cons>")
	}
	return p
}

func (r *ref) list(v V) []V {
	l, ok := vslice(v)
	if !ok {
		r.stop("improper list")
	}
	return l
}

func (r *ref) sym(v V) Sym {
	s, ok := v.(Sym)
	if !ok {
		r.stop("not a symbol")
	}
	return s
}

func (r *ref) fun(v V) *Fun {
	f, ok := v.(*Fun)
	if !ok {
		r.domain(v, "<function>")
	}
	return f
}

func (r *ref) divZero(op string, a, b V) V {
	r.feat("division by zero")
	return r.signal(&Cond{Class: "<division-by-zero>", Obj: vlist(a, b)}, false)
}

func init() {
	prims = map[string]*Fun{}
	cmp := func(name string, f func(a, b Int) bool, min, max int) {
		defprim(name, min, max, func(r *ref, a []V) V {
			for _, x := range a {
				r.num(x)
			}
			for i := 0; i+1 < len(a); i++ {
				if !f(r.num(a[i]), r.num(a[i+1])) {
					return Nil
				}
			}
			return Tru
		})
	}
	cmp("<", func(a, b Int) bool { return a < b }, 2, -1)
	cmp("<=", func(a, b Int) bool { return a <= b }, 2, -1)
	cmp(">", func(a, b Int) bool { return a > b }, 2, -1)
	cmp(">=", func(a, b Int) bool { return a >= b }, 2, -1)
	cmp("=", func(a, b Int) bool { return a == b }, 2, -1)
	cmp("/=", func(a, b Int) bool { return a != b }, 2, 2)
	defprim("+", 0, -1, func(r *ref, a []V) V {
		var s Int
		for _, x := range a {
			s += r.num(x)
		}
		return s
	})
	defprim("*", 0, -1, func(r *ref, a []V) V {
		s := Int(1)
		for _, x := range a {
			s *= r.num(x)
		}
		return s
	})
	defprim("-", 1, -1, func(r *ref, a []V) V {
		s := r.num(a[0])
		if len(a) == 1 {
			return -s
		}
		for _, x := range a[1:] {
			s -= r.num(x)
		}
		return s
	})
	defprim("/", 2, 2, func(r *ref, a []V) V {
		x, y := r.num(a[0]), r.num(a[1])
		if y == 0 {
			return r.divZero("/", x, y)
		}
		if x == math.MinInt64 && y == -1 {
			return x
		}
		return x / y
	})
	defprim("mod", 2, 2, func(r *ref, a []V) V {
		x, y := r.num(a[0]), r.num(a[1])
		if y == 0 {
			return r.divZero("mod", x, y)
		}
		m := x % y
		if m != 0 && (m < 0) != (y < 0) {
			m += y
		}
		return m
	})
	defprim("rem", 2, 2, func(r *ref, a []V) V {
		x, y := r.num(a[0]), r.num(a[1])
		if y == 0 {
			return r.divZero("rem", x, y)
		}
		return x % y
	})
	defprim("1+", 1, 1, func(r *ref, a []V) V { return r.num(a[0]) + 1 })
	defprim("1-", 1, 1, func(r *ref, a []V) V { return r.num(a[0]) - 1 })
	defprim("max", 1, -1, func(r *ref, a []V) V {
		m := r.num(a[0])
		for _, x := range a[1:] {
			if n := r.num(x); n > m {
				m = n
			}
		}
		return m
	})
	defprim("min", 1, -1, func(r *ref, a []V) V {
		m := r.num(a[0])
		for _, x := range a[1:] {
			if n := r.num(x); n < m {
				m = n
			}
		}
		return m
	})
	pred := func(name string, f func(v V) bool) {
		defprim(name, 1, 1, func(r *ref, a []V) V { return boolV(f(a[0])) })
	}
	pred("not", isNil)
	pred("null", isNil)
	pred("consp", func(v V) bool { _, ok := v.(*Pair); return ok })
	pred("integerp", func(v V) bool { _, ok := v.(Int); return ok })
	pred("numberp", func(v V) bool { _, ok := v.(Int); return ok })
	pred("listp", func(v V) bool { _, ok := v.(*Pair); return ok || isNil(v) })
	pred("functionp", func(v V) bool { _, ok := v.(*Fun); return ok })
	npred := func(name string, f func(n Int) bool) {
		defprim(name, 1, 1, func(r *ref, a []V) V { return boolV(f(r.num(a[0]))) })
	}
	npred("zerop", func(n Int) bool { return n == 0 })
	npred("plusp", func(n Int) bool { return n > 0 })
	npred("minusp", func(n Int) bool { return n < 0 })
	npred("evenp", func(n Int) bool { return n%2 == 0 })
	npred("oddp", func(n Int) bool { return n%2 != 0 })
	defprim("eq", 2, 2, func(r *ref, a []V) V { return boolV(refEql(a[0], a[1])) })
	defprim("eql", 2, 2, func(r *ref, a []V) V { return boolV(refEql(a[0], a[1])) })
	defprim("equal", 2, 2, func(r *ref, a []V) V { return boolV(refEqual(a[0], a[1])) })
	defprim("cons", 2, 2, func(r *ref, a []V) V { return &Pair{a[0], a[1]} })
	defprim("list", 0, -1, func(r *ref, a []V) V { return vlist(a...) })
	defprim("vector", 0, -1, func(r *ref, a []V) V { return &Arr{Dims: []int{len(a)}, El: append([]V{}, a...)} })
	cxr := func(name string, path string) {
		defprim(name, 1, 1, func(r *ref, a []V) V {
			v := a[0]
			for i := len(path) - 1; i >= 0; i-- {
				p := r.cons(v)
				if path[i] == 'a' {
					v = p.Car
				} else {
					v = p.Cdr
				}
			}
			return v
		})
	}
	cxr("car", "a")
	cxr("cdr", "d")
	cxr("rest", "d")
	cxr("first", "a")
	cxr("caar", "aa")
	elt := func(r *ref, seq V, i int) V {
		switch s := seq.(type) {
		case Str:
			rs := []rune(string(s))
			if i < 0 || i >= len(rs) {
				r.stop("elt index")
			}
			return Chr(rs[i])
		case *Arr:
			if len(s.Dims) != 1 || i < 0 || i >= len(s.El) {
				r.stop("elt index")
			}
			return s.El[i]
		case *Pair:
			l, _ := vslice(seq)
			if i < 0 || i >= len(l) {
				r.stop("elt index")
			}
			return l[i]
		}
		r.stop("elt of something else")
		return nil
	}
	nthf := func(name string, i int) {
		defprim(name, 1, 1, func(r *ref, a []V) V { return elt(r, a[0], i) })
	}
	nthf("second", 1)
	nthf("third", 2)
	nthf("cadr", 1)
	nthf("caddr", 2)
	nthf("cadddr", 3)
	tailf := func(name string, n int) {
		defprim(name, 1, 1, func(r *ref, a []V) V {
			v := a[0]
			for i := 0; i < n; i++ {
				p, ok := v.(*Pair)
				if !ok {
					r.stop("beyond the end")
				}
				v = p.Cdr
			}
			return v
		})
	}
	tailf("cddr", 2)
	tailf("cdddr", 3)
	defprim("elt", 2, -1, func(r *ref, a []V) V {
		if len(a) != 2 {
			r.stop("elt")
		}
		n, ok := a[1].(Int)
		if !ok {
			r.stop("elt index")
		}
		return elt(r, a[0], int(n))
	})
	defprim("nth", 2, 2, func(r *ref, a []V) V {
		n, ok := a[0].(Int)
		if !ok {
			r.stop("nth index")
		}
		return elt(r, a[1], int(n))
	})
	defprim("aref", 2, -1, func(r *ref, a []V) V {
		arr, ok := a[0].(*Arr)
		if !ok || len(arr.Dims) != len(a)-1 {
			r.stop("aref")
		}
		p := 0
		for i, d := range arr.Dims {
			n, ok := a[1+i].(Int)
			if !ok || n < 0 || int(n) >= d {
				r.stop("aref index")
			}
			p = p*d + int(n)
		}
		return arr.El[p]
	})
	defprim("nthcdr", 2, 2, func(r *ref, a []V) V {
		n, ok := a[0].(Int)
		if !ok || n < 0 {
			r.stop("nthcdr index")
		}
		v := a[1]
		for ; n > 0; n-- {
			p, ok := v.(*Pair)
			if !ok {
				r.stop("nthcdr beyond the end")
			}
			v = p.Cdr
		}
		return v
	})
	defprim("length", 1, 1, func(r *ref, a []V) V {
		switch s := a[0].(type) {
		case Str:
			return Int(utf8.RuneCountInString(string(s)))
		case *Pair, NilT:
			return Int(len(r.list(a[0])))
		}
		r.stop("length")
		return nil
	})
	defprim("append", 0, -1, func(r *ref, a []V) V {
		if len(a) == 0 {
			return Nil
		}
		tail := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			l := r.list(a[i])
			for j := len(l) - 1; j >= 0; j-- {
				tail = &Pair{l[j], tail}
			}
		}
		return tail
	})
	defprim("reverse", 1, 1, func(r *ref, a []V) V {
		var v V = Nil
		for _, x := range r.list(a[0]) {
			v = &Pair{x, v}
		}
		return v
	})
	defprim("last", 1, 1, func(r *ref, a []V) V {
		l := r.list(a[0])
		if len(l) == 0 {
			r.stop("last of nil")
		}
		return l[len(l)-1]
	})
	defprim("member", 2, 2, func(r *ref, a []V) V {
		v := a[1]
		for {
			p, ok := v.(*Pair)
			if !ok {
				return Nil
			}
			if refEqual(p.Car, a[0]) {
				return p
			}
			v = p.Cdr
		}
	})
	defprim("assoc", 2, 2, func(r *ref, a []V) V {
		for _, x := range r.list(a[1]) {
			if p, ok := x.(*Pair); ok && refEqual(p.Car, a[0]) {
				return p
			}
		}
		return Nil
	})
	defprim("set-car", 2, 2, func(r *ref, a []V) V { r.cons(a[1]).Car = a[0]; r.feat("set-car"); return a[0] })
	defprim("set-cdr", 2, 2, func(r *ref, a []V) V { r.cons(a[1]).Cdr = a[0]; r.feat("set-cdr"); return a[0] })
	defprim("make-hash-table", 0, 0, func(r *ref, a []V) V { return &Hash{map[string]V{}} })
	defprim("gethash", 2, 2, func(r *ref, a []V) V {
		h, ok := a[1].(*Hash)
		if !ok {
			r.stop("gethash")
		}
		if v, ok := h.m[hashKey(r, a[0])]; ok {
			return v
		}
		return Nil
	})
	defprim("set-property", 3, 3, func(r *ref, a []V) V {
		r.props[string(r.sym(a[1]))+" "+string(r.sym(a[2]))] = a[0]
		return a[0]
	})
	defprim("property", 2, 2, func(r *ref, a []V) V {
		v, ok := r.props[string(r.sym(a[0]))+" "+string(r.sym(a[1]))]
		if !ok {
			r.stop("absent property")
		}
		return v
	})
	mapf := func(name string, tails bool, mode int) {
		defprim(name, 2, -1, func(r *ref, a []V) V {
			f := r.fun(a[0])
			lists := append([]V{}, a[1:]...)
			for _, l := range lists {
				r.list(l)
			}
			var res []V
			r.feat("mapping")
			for {
				var args []V
				for i, l := range lists {
					p, ok := l.(*Pair)
					if !ok {
						args = nil
						break
					}
					if tails {
						args = append(args, p)
					} else {
						args = append(args, p.Car)
					}
					lists[i] = p.Cdr
				}
				if args == nil || len(args) < len(lists) {
					break
				}
				r.step()
				res = append(res, r.call(f, args))
			}
			switch mode {
			case 0:
				return vlist(res...)
			case 1:
				return a[1]
			default:
				var v V = Nil
				for i := len(res) - 1; i >= 0; i-- {
					l := r.list(res[i])
					for j := len(l) - 1; j >= 0; j-- {
						v = &Pair{l[j], v}
					}
				}
				return v
			}
		})
	}
	mapf("mapcar", false, 0)
	mapf("maplist", true, 0)
	mapf("mapc", false, 1)
	mapf("mapl", true, 1)
	mapf("mapcan", false, 2)
	mapf("mapcon", true, 2)
	defprim("gensym", 0, 0, func(r *ref, a []V) V {
		r.gensyms++
		return Sym(fmt.Sprintf("\x00gensym%d", r.gensyms))
	})
	defprim("macroexpand", 1, 1, func(r *ref, a []V) V {
		n, args := list1(a[0])
		m, ok := r.macros[string(r.sym(n))]
		if !ok {
			r.stop("macroexpand of no macro")
		}
		r.feat("macroexpand")
		l, _ := vslice(args)
		return r.expand(m, l)
	})
	// eval in the global environment is not in the subset
	defprim("error", 1, -1, func(r *ref, a []V) V {
		s, ok := a[0].(Str)
		if !ok {
			r.stop("error format")
		}
		return r.signal(&Cond{Class: "<simple-error>", Fmt: string(s), Obj: vlist(a[1:]...)}, false)
	})
	defprim("cerror", 2, -1, func(r *ref, a []V) V {
		s, ok := a[1].(Str)
		if !ok {
			r.stop("error format")
		}
		return r.signal(&Cond{Class: "<simple-error>", Fmt: string(s), Obj: vlist(a[2:]...)}, true)
	})
	defprim("signal-condition", 2, 2, func(r *ref, a []V) V {
		c, ok := a[0].(*Cond)
		if !ok || r.handler == nil {
			r.stop("signal-condition")
		}
		r.feat("signalled again")
		return r.signalLate(c, !isNil(a[1]), false)
	})
	// host functions of the harness
	defprim("tr", 2, 2, func(r *ref, a []V) V {
		if n := 4000; huge(a[1], &n) {
			r.stop("huge value")
		}
		r.trace = append(r.trace, show(a[0])+"="+show(a[1]))
		if r.wasCancel {
			r.pending = append(r.pending, r.cancelled)
		} else if len(r.trace) == r.cancelAt {
			if r.cleanup > 0 {
				r.stop("cancelled in a cleanup form")
			}
			r.cancelled, r.wasCancel = true, true
		}
		return a[1]
	})
	defprim("trh", 2, 2, func(r *ref, a []V) V {
		c, ok := a[1].(*Cond)
		if !ok {
			r.stop("trh of no condition")
		}
		r.htrace = append(r.htrace, show(a[0])+"="+condText(c))
		return Nil
	})
}

// condText shows the class of a condition and, where the accessors of the
// class define it, what it is about.
func condText(c *Cond) string {
	switch c.Class {
	case "<domain-error>":
		return c.Class + " " + show(c.Obj)
	case "<unbound-variable>", "<undefined-function>":
		return c.Class + " " + show(c.Obj)
	case "<division-by-zero>":
		return c.Class + " " + show(c.Obj)
	case "<simple-error>":
		return fmt.Sprintf("%s %q %s", c.Class, c.Fmt, show(c.Obj))
	}
	return c.Class
}
