package main

// C26: histories of setf, incf and decf on all kinds of places, nested in one
// another, over objects that share their parts.

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// pStep gets from an object to a part of it.
type pStep struct {
	F string `json:"f"`
	I []int  `json:"i,omitempty"`
	K *D     `json:"k,omitempty"`
}

// pPlace is a variable (x0…), dynamic variable (d0…) or property (p0…), and
// the way from there.
type pPlace struct {
	Base  string  `json:"base"`
	Steps []pStep `json:"steps,omitempty"`
}

type pVal struct {
	D *D      `json:"d,omitempty"`
	P *pPlace `json:"p,omitempty"`
}

type pOp struct {
	O    string `json:"o"` // setf incf decf set get new
	P    pPlace `json:"p"`
	V    *pVal  `json:"v,omitempty"`
	New  string `json:"new,omitempty"`
	Args []pVal `json:"args,omitempty"`
	M    int    `json:"m,omitempty"`
}

type pCase struct {
	Ops []pOp `json:"ops"`
}

const (
	pSlots = 5
	pDyns  = 2
	pProps = 2
)

type pModel struct {
	vars map[string]V
}

func pBases() (r []string) {
	for i := 0; i < pSlots; i++ {
		r = append(r, fmt.Sprintf("x%d", i))
	}
	for i := 0; i < pDyns; i++ {
		r = append(r, fmt.Sprintf("d%d", i))
	}
	for i := 0; i < pProps; i++ {
		r = append(r, fmt.Sprintf("p%d", i))
	}
	return
}

func newPModel() *pModel {
	m := &pModel{vars: map[string]V{}}
	for _, b := range pBases() {
		m.vars[b] = Nil
	}
	return m
}

func baseText(b string) string {
	switch b[0] {
	case 'd':
		return "(dynamic " + b + ")"
	case 'p':
		return "(property 'obj '" + b + ")"
	}
	return b
}

// carDepth are the accessors of the car of the n-th cons, cdrDepth those of
// its cdr.
var carDepth = map[string]int{"car": 0, "first": 0, "cadr": 1, "second": 1, "caddr": 2, "third": 2, "cadddr": 3}
var cdrDepth = map[string]int{"cdr": 0, "rest": 0, "cddr": 1, "cdddr": 2}

func (s pStep) text(of string) string {
	idx := ""
	for _, i := range s.I {
		idx += fmt.Sprintf(" %d", i)
	}
	switch s.F {
	case "nth", "nthcdr":
		return fmt.Sprintf("(%s%s %s)", s.F, idx, of)
	case "assoc", "gethash":
		return fmt.Sprintf("(%s %s %s)", s.F, s.K.Quoted(), of)
	}
	return fmt.Sprintf("(%s %s%s)", s.F, of, idx)
}

func (p pPlace) text() string {
	r := baseText(p.Base)
	for _, s := range p.Steps {
		r = s.text(r)
	}
	return r
}

// get follows one step.
func (s pStep) get(v V) (V, string) {
	var idx []V
	for _, i := range s.I {
		idx = append(idx, Int(i))
	}
	nth := func(n int) (*Pair, bool) {
		for ; n > 0; n-- {
			p, ok := v.(*Pair)
			if !ok {
				return nil, false
			}
			v = p.Cdr
		}
		p, ok := v.(*Pair)
		return p, ok
	}
	if n, ok := carDepth[s.F]; ok {
		if p, ok := nth(n); ok {
			return p.Car, hOK
		}
		return nil, hSkip
	}
	if n, ok := cdrDepth[s.F]; ok {
		if p, ok := nth(n); ok {
			return p.Cdr, hOK
		}
		return nil, hSkip
	}
	switch s.F {
	case "nth":
		if p, ok := nth(s.I[0]); ok {
			return p.Car, hOK
		}
	case "nthcdr":
		if s.I[0] == 0 {
			return v, hOK
		}
		if p, ok := nth(s.I[0] - 1); ok {
			return p.Cdr, hOK
		}
	case "assoc":
		if p, ok := assocCell(v, s.K.V()); ok {
			return p.Car, hOK
		}
	case "gethash":
		if h, ok := v.(*HTab); ok {
			if x, ok := h.M[hKey(s.K.V())]; ok {
				return x, hOK
			}
			return Nil, hOK
		}
	case "aref":
		if a, ok := v.(*Arr); ok && len(idx) == len(a.Dims) {
			r, _, st := subArray(a, idx)
			return r, st
		}
	case "elt":
		if x, ok := v.(Str); ok {
			if r := []rune(string(x)); s.I[0] >= 0 && s.I[0] < len(r) {
				return Chr(r[s.I[0]]), hOK
			}
			return nil, hSkip
		}
		if a, ok := v.(*Arr); ok && len(idx) == len(a.Dims) {
			r, _, st := subArray(a, idx)
			return r, st
		}
		if p, ok := nth(s.I[0]); ok && s.I[0] >= 0 {
			return p.Car, hOK
		}
	case "subseq":
		if x, ok := v.(Str); ok {
			r := []rune(string(x))
			if s.I[0] <= s.I[1] && s.I[1] <= len(r) {
				return Str(r[s.I[0]:s.I[1]]), hOK
			}
			return nil, hSkip
		}
		l, st := proper(v)
		if st == hOK && s.I[0] <= s.I[1] && s.I[1] <= len(l) {
			return freshList(l[s.I[0]:s.I[1]]), hOK
		}
	case "pa", "pb":
		if o, ok := v.(*Obj); ok {
			if x, ok := o.Slot[s.F]; ok {
				return x, hOK
			}
		}
	}
	return nil, hSkip
}

// assocCell is the cons of the list whose car is the association.
func assocCell(v V, key V) (*Pair, bool) {
	l, st := proper(v)
	if st != hOK {
		return nil, false
	}
	for _, p := range l {
		a, ok := p.Car.(*Pair)
		if !ok {
			return nil, false
		}
		n := 2000
		if vequal(a.Car, key, &n) {
			return p, true
		}
	}
	return nil, false
}

func (m *pModel) get(p pPlace) (V, string) {
	v := m.vars[p.Base]
	for _, s := range p.Steps {
		var st string
		v, st = s.get(v)
		if st != hOK {
			return nil, hSkip
		}
	}
	return v, hOK
}

// set stores into a place.
func (m *pModel) set(p pPlace, nv V) string {
	if len(p.Steps) == 0 {
		m.vars[p.Base] = nv
		return hOK
	}
	last := len(p.Steps) - 1
	s := p.Steps[last]
	outer := pPlace{p.Base, p.Steps[:last]}
	v, st := m.get(outer)
	if st != hOK {
		return hSkip
	}
	store := func(c *Pair, cdr bool) string {
		if reaches(nv, func(o V) bool { return o == V(c) }) {
			return hSkip
		}
		if cdr {
			c.Cdr = nv
		} else {
			c.Car = nv
		}
		return hOK
	}
	cell := func(n int, err string) (*Pair, string) {
		c := v
		for ; n > 0; n-- {
			x, ok := c.(*Pair)
			if !ok {
				return nil, err
			}
			c = x.Cdr
		}
		x, ok := c.(*Pair)
		if !ok {
			return nil, err
		}
		return x, hOK
	}
	if n, ok := carDepth[s.F]; ok {
		c, st := cell(n, hDomain)
		if st != hOK {
			return st
		}
		return store(c, false)
	}
	if n, ok := cdrDepth[s.F]; ok {
		if s.F == "rest" {
			return hSkip
		}
		c, st := cell(n, hDomain)
		if st != hOK {
			return st
		}
		return store(c, true)
	}
	switch s.F {
	case "nthcdr":
		if s.I[0] < 1 {
			return hAny
		}
		c, st := cell(s.I[0]-1, hAny)
		if st != hOK {
			return st
		}
		return store(c, true)
	case "assoc":
		if c, ok := assocCell(v, s.K.V()); ok {
			return store(c, false)
		}
		return hSkip
	case "gethash":
		h, ok := v.(*HTab)
		if !ok {
			return hDomain
		}
		if reaches(nv, func(o V) bool { return o == V(h) }) {
			return hSkip
		}
		h.M[hKey(s.K.V())] = nv
		return hOK
	case "aref":
		a, ok := v.(*Arr)
		if !ok {
			return hDomain
		}
		if len(s.I) != len(a.Dims) {
			return hSkip
		}
		var idx []V
		for _, i := range s.I {
			idx = append(idx, Int(i))
		}
		_, st := setCells(a, idx, nv)
		return st
	case "elt", "nth":
		if x, ok := v.(Str); ok {
			if s.F == "nth" {
				return hSkip
			}
			r := []rune(string(x))
			if s.I[0] < 0 || s.I[0] >= len(r) {
				return hAny
			}
			c, ok := nv.(Chr)
			if !ok {
				return hAny
			}
			r[s.I[0]] = rune(c)
			return m.set(outer, Str(r))
		}
		var idx []V
		for _, i := range s.I {
			idx = append(idx, Int(i))
		}
		if _, ok := v.(*Arr); ok && s.F == "nth" {
			return hSkip
		}
		_, st := setEltOf(v, idx, nv)
		return st
	case "subseq":
		if x, ok := v.(Str); ok {
			r := []rune(string(x))
			y, ok := nv.(Str)
			if !ok || s.I[0] > s.I[1] || s.I[1] > len(r) {
				return hSkip
			}
			return m.set(outer, Str(string(r[:s.I[0]])+string(y)+string(r[s.I[1]:])))
		}
		l, st := proper(v)
		if st != hOK || s.I[0] > s.I[1] || s.I[1] > len(l) {
			return hSkip
		}
		y, st := proper(nv)
		if st != hOK {
			return hSkip
		}
		for _, c := range l {
			if reaches(nv, func(o V) bool { return o == V(c) }) {
				return hSkip
			}
		}
		for i := s.I[0]; i < s.I[1] && i-s.I[0] < len(y); i++ {
			l[i].Car = y[i-s.I[0]].Car
		}
		if again, st := m.get(outer); st != hOK || !veql(again, v) {
			return hSkip // the elements are what the place is found by
		}
		return m.set(outer, v) // it stores the list into its place as well
	case "pa", "pb":
		o, ok := v.(*Obj)
		if !ok {
			return hAny
		}
		if reaches(nv, func(x V) bool { return x == V(o) }) {
			return hSkip
		}
		o.Slot[s.F] = nv
		return hOK
	}
	return hSkip
}

func (m *pModel) val(v pVal) (V, string) {
	if v.D != nil {
		return v.D.V(), hOK
	}
	return m.get(*v.P)
}

func (v pVal) text() string {
	if v.D != nil {
		switch v.D.K {
		case "i", "f", "s", "c":
			return v.D.Src()
		}
		return v.D.Quoted()
	}
	return v.P.text()
}

func numAdd(a, b V, sign int64) (V, string) {
	switch x := a.(type) {
	case Int:
		switch y := b.(type) {
		case Int:
			return Int(int64(x) + sign*int64(y)), hOK
		case Flt:
			return Flt(float64(x) + float64(sign)*float64(y)), hOK
		}
	case Flt:
		switch y := b.(type) {
		case Int:
			return Flt(float64(x) + float64(sign)*float64(y)), hOK
		case Flt:
			return Flt(float64(x) + float64(sign)*float64(y)), hOK
		}
	case *Pair, *Arr, NilT, Sym, *HTab:
		switch b.(type) {
		case Int, Flt:
			return nil, hAny
		}
	}
	return nil, hSkip
}

// apply runs the operation on the model; the second result is the number of
// times the value form runs before it is refused.
func (m *pModel) apply(op pOp) (V, string) {
	if op.local() {
		// the object is the value of another variable
		last := len(op.P.Steps) - 1
		v, st := m.get(pPlace{op.P.Base, op.P.Steps[:last]})
		if st != hOK {
			return nil, hSkip
		}
		m.vars["local"] = v
		defer delete(m.vars, "local")
		op.P = pPlace{"local", op.P.Steps[last:]}
	}
	switch op.O {
	case "get":
		return m.get(op.P)
	case "new":
		var args []V
		for _, a := range op.Args {
			v, st := m.val(a)
			if st != hOK {
				return nil, st
			}
			args = append(args, v)
		}
		var v V
		switch op.New {
		case "value":
			v = args[0]
		case "list":
			v = vlist(args...)
		case "vector":
			v = &Arr{Dims: []int{len(args)}, El: args}
		case "cons":
			v = &Pair{args[0], args[1]}
		case "table":
			v = &HTab{map[string]V{}}
		case "object":
			v = &Obj{Slot: map[string]V{"pa": args[0], "pb": args[1]}}
		case "matrix":
			a := &Arr{Dims: []int{2, 2}}
			for i := 0; i < 4; i++ {
				a.El = append(a.El, args[0])
			}
			v = a
		}
		st := m.set(op.P, v)
		return v, st
	case "setf", "set":
		v, st := m.val(*op.V)
		if st != hOK {
			return nil, hSkip
		}
		st = m.set(op.P, v)
		return v, st
	case "incf", "decf":
		old, st := m.get(op.P)
		if st != hOK {
			return nil, hSkip
		}
		var d V = Int(1)
		if op.V != nil {
			d, st = m.val(*op.V)
			if st != hOK {
				return nil, hSkip
			}
		}
		sign := int64(1)
		if op.O == "decf" {
			sign = -1
		}
		v, st := numAdd(old, d, sign)
		if st != hOK {
			return nil, st
		}
		st = m.set(op.P, v)
		return v, st
	}
	return nil, hSkip
}

func (op pOp) local() bool {
	return op.M > 0 && len(op.P.Steps) > 0 && op.O != "get" && op.O != "new" && op.O != "set"
}

func (op pOp) value(n int) string {
	if op.V == nil {
		return ""
	}
	return fmt.Sprintf(" (tr %d %s)", n, op.V.text())
}

func newText(kind string, args []pVal) string {
	var a []string
	for _, x := range args {
		a = append(a, x.text())
	}
	s := strings.Join(a, " ")
	switch kind {
	case "value":
		return s
	case "table":
		return "(make-hash-table)"
	case "object":
		return fmt.Sprintf("(create (class <verif-pc>) 'a %s 'b %s)", a[0], a[1])
	case "matrix":
		return fmt.Sprintf("(create-array '(2 2) %s)", s)
	}
	return fmt.Sprintf("(%s %s)", kind, s)
}

// directSet are the functions and macros setf stands for.
func directSet(s pStep) (string, bool) {
	switch s.F {
	case "first":
		return "set-car", true
	case "second":
		return "set-cadr", true
	case "third":
		return "set-caddr", true
	case "elt", "subseq", "assoc":
		return "", false
	}
	return "set-" + s.F, true
}

func (op pOp) text(n int) string {
	switch op.O {
	case "get":
		return op.P.text()
	case "new":
		return fmt.Sprintf("(setf %s %s)", op.P.text(), newText(op.New, op.Args))
	case "set":
		s := op.P.Steps[len(op.P.Steps)-1]
		f, _ := directSet(s)
		of := pPlace{op.P.Base, op.P.Steps[:len(op.P.Steps)-1]}.text()
		return fmt.Sprintf("(%s%s%s", f, op.value(n), strings.TrimPrefix(s.text(of), "("+s.F))
	}
	if op.local() {
		// the object the place is in is the value of another variable
		s := op.P.Steps[len(op.P.Steps)-1]
		of := pPlace{op.P.Base, op.P.Steps[:len(op.P.Steps)-1]}.text()
		switch op.M {
		case 1:
			return fmt.Sprintf("(let ((obj %s)) (%s %s%s))", of, op.O, s.text("obj"), op.value(n))
		case 2:
			return fmt.Sprintf("((lambda (l) (%s %s%s)) %s)", op.O, s.text("l"), op.value(n), of)
		case 3:
			return fmt.Sprintf("(car (mapcar (lambda (v) (%s %s%s)) (list %s)))", op.O, s.text("v"), op.value(n), of)
		}
	}
	return fmt.Sprintf("(%s %s%s)", op.O, op.P.text(), op.value(n))
}

// sameCopy compares the elements of a fresh list.
func sameCopy(b *bij, n gmnlisp.Node, v V) error {
	for i := 0; ; i++ {
		p, ok := v.(*Pair)
		if !ok {
			return b.same(n, v, "the value")
		}
		c, ok := n.(*gmnlisp.Cons)
		if !ok {
			return fmt.Errorf("the value is shorter than %d elements", i+1)
		}
		if err := b.same(c.Car, p.Car, fmt.Sprintf("the value[%d]", i)); err != nil {
			return err
		}
		n, v = c.Cdr, p.Cdr
	}
}

func runPlaces(c pCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	m := newPModel()
	vars := gmnlisp.Variables{}
	for i := 0; i < pSlots; i++ {
		vars[gmnlisp.NewSymbol(fmt.Sprintf("x%d", i))] = gmnlisp.Null
	}
	setup := "(defclass <verif-pc> () ((a :initarg a :accessor pa) (b :initarg b :accessor pb)))"
	for i := 0; i < pDyns; i++ {
		setup += fmt.Sprintf("(defdynamic d%d nil)", i)
	}
	for i := 0; i < pProps; i++ {
		setup += fmt.Sprintf("(set-property nil 'obj 'p%d)", i)
	}
	if _, err := w.Interpret(ctx, setup); err != nil {
		return fmt.Errorf("%s: %v", setup, err)
	}
	lw := w.Let(vars)
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	nested, updates, refused := 0, 0, 0
	for opN, op := range c.Ops {
		want, st := m.apply(op)
		if st == hSkip {
			return fmt.Errorf("harness: operation left the specified subset: %s", op.text(opN))
		}
		text := op.text(opN)
		log = append(log, text)
		sk.trace = nil
		got, err := lw.Interpret(ctx, text)
		if op.O != "new" && op.O != "get" {
			l := "variable"
			if n := len(op.P.Steps); n > 0 {
				l = op.P.Steps[n-1].F
				if n > 1 {
					nested++
				}
			} else if op.P.Base[0] != 'x' {
				l = map[byte]string{'d': "dynamic", 'p': "property"}[op.P.Base[0]]
			}
			o.Label("%s %s", op.O, l)
			updates++
		}
		if st != hOK {
			refused++
			o.Label("refused")
			if err == nil {
				return fail("expected an error, got %s", show(fromNode(got)))
			}
			if st != hAny {
				if cls, _ := errClass(err); cls != st {
					return fail("expected a %s, got %s (%v)", st, cls, err)
				}
			}
		} else if err != nil {
			return fail("%v\n  expected %s", err, show(want))
		} else if op.V != nil && len(sk.trace) != 1 {
			return fail("the value form was evaluated %d times: %v", len(sk.trace), sk.trace)
		}
		b := newBij()
		b.className = func(int) string { return "<verif-pc>" }
		if st == hOK && want != nil {
			fresh := false
			if n := len(op.P.Steps); op.O == "get" && n > 0 {
				fresh = op.P.Steps[n-1].F == "subseq"
			}
			if !fresh {
				if err := b.same(got, want, "the value"); err != nil {
					return fail("%v", err)
				}
			} else if err := sameCopy(b, got, want); err != nil {
				return fail("%v", err)
			}
		}
		for _, base := range pBases() {
			v, err := lw.Interpret(ctx, baseText(base))
			if err != nil {
				return fail("%s: %v", baseText(base), err)
			}
			if err := b.same(v, m.vars[base], base); err != nil {
				return fail("%v", err)
			}
		}
		for i := 0; i < len(b.objs); i++ {
			t := b.objs[i]
			ow := letVars(w, map[string]gmnlisp.Node{"o": t.real})
			for _, f := range []string{"pa", "pb"} {
				v, err := ow.Interpret(ctx, "("+f+" o)")
				if err != nil {
					return fail("(%s %s): %v", f, t.path, err)
				}
				if err := b.same(v, t.model.Slot[f], fmt.Sprintf("(%s %s)", f, t.path)); err != nil {
					return fail("%v", err)
				}
			}
		}
		if opN%4 == 3 || opN == len(c.Ops)-1 {
			if err := checkTabs(ctx, w, newHModel(), b); err != nil {
				return fail("%v", err)
			}
		}
	}
	if s := out.String(); s != "" {
		return fail("unexpected output %q", s)
	}
	o.Sample(strings.Join(log, "\n"))
	if updates >= 3 && nested > 0 {
		o.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------------------

var pKeys = []D{dInt(1), dSym("a"), dStr("a"), dSym("b"), dChr('a'), dFlt(1), dKw(":a"), dInt(2)}

// genSteps draws a way into the object v: steps that can be followed, the
// last one may be refused.
func (m *pModel) genStep(t *rapid.T, v V, place bool) (pStep, bool) {
	bad := place && pct(t, 4)
	switch x := v.(type) {
	case *Pair:
		l, _, ok := spine(x)
		if !ok {
			return pStep{}, false
		}
		n := len(l)
		if bad {
			n += 2
		}
		type alt struct {
			s pStep
			w int
		}
		var alts []string
		for f, k := range carDepth {
			if k < n {
				alts = append(alts, f)
			}
		}
		for f, k := range cdrDepth {
			if k < n && !(place && f == "rest") {
				alts = append(alts, f)
			}
		}
		sort.Strings(alts)
		alts = append(alts, "elt", "nth", "nthcdr", "elt", "nth", "nthcdr", "subseq", "subseq")
		var keys []D
		if _, st := proper(x); st == hOK {
			for _, k := range pKeys {
				if _, ok := assocCell(x, k.V()); ok {
					keys = append(keys, k)
				}
			}
		}
		if len(keys) > 0 {
			alts = append(alts, "assoc", "assoc", "assoc", "assoc")
		}
		s := pStep{F: pickOf(t, alts, "accessor")}
		switch s.F {
		case "elt", "nth":
			s.I = []int{below(t, n, "index")}
		case "nthcdr":
			s.I = []int{between(t, 1, n, "index")}
		case "subseq":
			a := below(t, len(l)+1, "start")
			s.I = []int{a, between(t, a, len(l), "end")}
		case "assoc":
			k := pickOf(t, keys, "key")
			s.K = &k
		}
		return s, true
	case *Arr:
		s := pStep{F: pickOf(t, []string{"aref", "elt"}, "accessor")}
		for _, d := range x.Dims {
			i := below(t, d, "index")
			if bad {
				i = d
			}
			s.I = append(s.I, i)
		}
		return s, true
	case *HTab:
		k := pickOf(t, pKeys, "key")
		return pStep{F: "gethash", K: &k}, true
	case *Obj:
		return pStep{F: pickOf(t, []string{"pa", "pb"}, "accessor")}, true
	case Str:
		n := len([]rune(string(x)))
		if pct(t, 50) && n > 0 {
			i := below(t, n, "index")
			if bad {
				i = n
			}
			return pStep{F: "elt", I: []int{i}}, true
		}
		a := below(t, n+1, "start")
		return pStep{F: "subseq", I: []int{a, between(t, a, n, "end")}}, true
	}
	if bad {
		s := pStep{F: pickOf(t, []string{"car", "cdr", "cadr", "gethash", "aref", "pa"}, "accessor")}
		switch s.F {
		case "gethash":
			s.K = &pKeys[0]
		case "aref":
			s.I = []int{0}
		}
		return s, true
	}
	return pStep{}, false
}

// genPlace draws a place; wantFn: the kind of value it should have.
func (m *pModel) genPlace(t *rapid.T, place bool) pPlace {
	p := pPlace{Base: pickOf(t, pBases(), "base")}
	if m.vars[p.Base] == V(Nil) || pct(t, 30) { // prefer variables that hold something
		p.Base = pickOf(t, pBases(), "base")
	}
	v := m.vars[p.Base]
	for d := below(t, 5, "depth"); d > 0; d-- {
		s, ok := m.genStep(t, v, place && d == 1)
		if !ok {
			break
		}
		nv, st := s.get(v)
		if st != hOK && d > 1 {
			break
		}
		p.Steps = append(p.Steps, s)
		v = nv
		if _, isStr := nv.(Str); st != hOK || s.F == "subseq" && !isStr {
			break // a copy is no place
		}
	}
	return p
}

// numeric places for incf
func (m *pModel) genNumPlace(t *rapid.T) (pPlace, bool) {
	var p pPlace
	for i := 0; i < 6; i++ {
		p = m.genPlace(t, true)
		v, st := m.get(p)
		switch v.(type) {
		case Int, Flt:
			if st == hOK {
				return p, true
			}
		}
	}
	return p, pct(t, 30)
}

func genPAtom(t *rapid.T) D {
	if pct(t, 60) {
		return dInt(int64(below(t, 9, "int")))
	}
	return pickOf(t, []D{dFlt(1.5), dStr("abc"), dStr("zß漢"), dStr(""), dChr('q'), dSym("a"), dSym("b"), dKw(":a"), {K: "n"}, {K: "t"}}, "atom")
}

func genPData(t *rapid.T, depth int) D {
	switch k := below(t, 10, "data"); {
	case depth == 0 || k < 3:
		return genPAtom(t)
	case k < 5:
		return genAlistOf(t, func() D { return pickOf(t, pKeys, "key") }, func() D { return genPData(t, depth-1) })
	case k < 6:
		d := D{K: "a", Dim: []int{between(t, 1, 3, "dim")}}
		for i := 0; i < d.Dim[0]; i++ {
			d.L = append(d.L, genPAtom(t))
		}
		return d
	default:
		d := D{K: "l"}
		for i := between(t, 1, 5, "len"); i > 0; i-- {
			d.L = append(d.L, genPData(t, depth-1))
		}
		if pct(t, 8) {
			x := dInt(9)
			d.T = &x
		}
		return d
	}
}

func genAlistOf(t *rapid.T, key, val func() D) D {
	d := D{K: "l"}
	for i := between(t, 1, 4, "len"); i > 0; i-- {
		p := dList(key())
		v := val()
		if v.K != "n" && v.K != "l" {
			p.T = &v
		} else if v.K == "l" {
			p.L = append(p.L, v.L...)
			p.T = v.T
		}
		d.L = append(d.L, p)
	}
	return d
}

func (m *pModel) genVal(t *rapid.T) pVal {
	if pct(t, 45) {
		p := m.genPlace(t, false)
		return pVal{P: &p}
	}
	d := genPData(t, below(t, 3, "depth"))
	return pVal{D: &d}
}

// clone copies the state, so that an operation can be tried.
func (m *pModel) tryApply(op pOp) bool {
	n := newPModel()
	seen := map[V]V{}
	roots := map[*V][]V{}
	var cp func(v V) V
	cp = func(v V) V {
		if r, ok := seen[v]; ok {
			return r
		}
		switch x := v.(type) {
		case *Pair:
			r := &Pair{}
			seen[v] = r
			r.Car, r.Cdr = cp(x.Car), cp(x.Cdr)
			return r
		case *Arr:
			r := &Arr{Dims: x.Dims}
			seen[v] = r
			root := x.root()
			if el, ok := roots[root]; ok && root != nil {
				r.El = el[:len(x.El)]
				return r
			}
			r.El = make([]V, len(x.El))
			roots[root] = r.El
			for i, e := range x.El {
				r.El[i] = cp(e)
			}
			return r
		case *HTab:
			r := &HTab{map[string]V{}}
			seen[v] = r
			for k, e := range x.M {
				r.M[k] = cp(e)
			}
			return r
		case *Obj:
			r := &Obj{Class: x.Class, Slot: map[string]V{}}
			seen[v] = r
			for k, e := range x.Slot {
				r.Slot[k] = cp(e)
			}
			return r
		}
		return v
	}
	for k, v := range m.vars {
		n.vars[k] = cp(v)
	}
	_, st := n.apply(op)
	if st == hSkip {
		return false
	}
	if st != hOK { // the message shows objects
		for _, v := range m.vars {
			if treeTooLarge(v) {
				return false
			}
		}
	}
	return true
}

func genPlaces(t *rapid.T) pCase {
	m := newPModel()
	var c pCase
	n := between(t, 6, 30, "ops")
	for i := 0; i < n; i++ {
		op := pOp{M: below(t, 8, "mode")}
		if op.M > 3 {
			op.M = 0
		}
		k := below(t, 20, "op")
		if len(c.Ops) < 4 {
			k = 19
		}
		switch {
		case k < 8:
			op.O = "setf"
			op.P = m.genPlace(t, true)
			v := m.genVal(t)
			op.V = &v
			// values that fit parts of strings and lists
			if s := len(op.P.Steps); s > 0 {
				of, st := m.get(pPlace{op.P.Base, op.P.Steps[:s-1]})
				_, isStr := of.(Str)
				last := op.P.Steps[s-1]
				if st == hOK && last.F == "subseq" || isStr {
					var d D
					switch {
					case isStr && last.F == "elt":
						d = pickOf(t, []D{dChr('q'), dChr('漢'), dChr('Z'), dInt(1)}, "char")
					case isStr:
						d = dStr(pickOf(t, []string{"", "x", "漢字", "long text"}, "text"))
					default:
						d = D{K: "l"}
						for j := between(t, 1, 4, "len"); j > 0; j-- {
							d.L = append(d.L, genPAtom(t))
						}
					}
					op.V = &pVal{D: &d}
				}
			}
		case k < 12:
			op.O = pickOf(t, []string{"incf", "decf"}, "op")
			p, ok := m.genNumPlace(t)
			if !ok {
				continue
			}
			op.P = p
			if pct(t, 60) {
				d := dInt(int64(between(t, -3, 9, "delta")))
				if pct(t, 10) {
					d = dFlt(0.5)
				}
				op.V = &pVal{D: &d}
				if pct(t, 20) {
					q, ok := m.genNumPlace(t)
					if ok {
						op.V = &pVal{P: &q}
					}
				}
			}
		case k < 14:
			op.O = "set"
			op.P = m.genPlace(t, true)
			if len(op.P.Steps) == 0 {
				continue
			}
			if _, ok := directSet(op.P.Steps[len(op.P.Steps)-1]); !ok {
				continue
			}
			v := m.genVal(t)
			op.V = &v
		case k < 15:
			op.O = "get"
			op.P = m.genPlace(t, false)
		default:
			op.O = "new"
			op.P = m.genPlace(t, false)
			if pct(t, 70) {
				op.P.Steps = nil
			}
			if n := len(op.P.Steps); n > 0 && (op.P.Steps[n-1].F == "subseq" || op.P.Steps[n-1].F == "assoc") {
				continue
			}
			op.New = pickOf(t, []string{"value", "value", "list", "vector", "cons", "table", "object", "matrix"}, "new")
			k := map[string]int{"value": 1, "list": between(t, 1, 4, "len"), "vector": between(t, 1, 3, "len"), "cons": 2, "object": 2, "matrix": 1}[op.New]
			for ; k > 0; k-- {
				if op.New == "value" {
					d := genPData(t, 3)
					op.Args = append(op.Args, pVal{D: &d})
				} else {
					op.Args = append(op.Args, m.genVal(t))
				}
			}
		}
		// subseq and elt of strings store into the place the string is in
		if n := len(op.P.Steps); n > 1 {
			f := op.P.Steps[n-1].F
			g := op.P.Steps[n-2].F
			if (f == "subseq" || f == "elt") && g == "rest" {
				continue
			}
		}
		if !m.tryApply(op) {
			continue
		}
		m.apply(op)
		c.Ops = append(c.Ops, op)
	}
	return c
}

func initPlaceProps() {
	reg("C26", "place-history", 12000, 300000, "at least 3 updates, one of them of a nested place", genPlaces, runPlaces)
}
