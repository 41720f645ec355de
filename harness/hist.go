package main

// Histories of operations over a heap of shared objects (C14, C17, C18): the
// same operations run on the interpreter and on a model, and after each one
// the graphs reachable from all the variables must be the same: the same
// values, and the same objects shared in the same places.

import (
	"context"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// HTab is a hash table of the model.
type HTab struct{ M map[string]V }

// hKey is the canonical key under which the model stores k.
func hKey(k V) string { return fmt.Sprintf("%T %s", k, show(k)) }

const hSlots = 6

// hArg is the argument of an operation: the variable S-1, or a literal.
type hArg struct {
	S int `json:"s,omitempty"`
	D *D  `json:"d,omitempty"`
}

type hOp struct {
	O   string `json:"o"`
	A   []hArg `json:"a,omitempty"`
	Dst int    `json:"dst"`
	M   int    `json:"m,omitempty"` // how it is called
}

type hCase struct {
	Ops []hOp `json:"ops"`
}

func (a hArg) text() string {
	if a.D != nil {
		switch a.D.K {
		case "i", "f", "s", "c":
			return a.D.Src()
		}
		return a.D.Quoted()
	}
	return fmt.Sprintf("x%d", a.S-1)
}

// hDef is an operation.
type hDef struct {
	name  string
	kinds string // one letter per argument; see hGenArg
	rest  byte   // kind of further arguments
	tmpl  string // $0 $1 …, $* all the arguments; default: a call of the function
	run   func(m *hModel, a []V) (V, string)
	w     int // weight
}

// hModel is the state of the model.
type hModel struct {
	slot  [hSlots]V
	props map[string]V
	note  map[string]int
	keys  []D  // keys used, for the generator
	abort bool // the generator found no object for the operation
}

func newHModel() *hModel {
	m := &hModel{props: map[string]V{}, note: map[string]int{}}
	for i := range m.slot {
		m.slot[i] = Nil
	}
	return m
}

const (
	hOK     = ""
	hAny    = "error"
	hDomain = "<domain-error>"
	hSkip   = "skip"
)

const hLimit = 60

// spine returns the conses of a list and its tail; ok is false for lists too
// long to be worth (or circular).
func spine(v V) (l []*Pair, tail V, ok bool) {
	for {
		p, isPair := v.(*Pair)
		if !isPair {
			return l, v, true
		}
		if len(l) >= hLimit {
			return nil, nil, false
		}
		l = append(l, p)
		v = p.Cdr
	}
}

// proper returns the elements of a proper list: "" or the reason why not.
func proper(v V) ([]*Pair, string) {
	l, tail, ok := spine(v)
	if !ok {
		return nil, hSkip
	}
	if !isNil(tail) {
		return l, hAny
	}
	return l, hOK
}

func intOf(v V) (int, bool) {
	n, ok := v.(Int)
	return int(n), ok
}

// veql: the same object, or equal atoms.
func veql(a, b V) bool {
	switch x := a.(type) {
	case *Pair:
		y, ok := b.(*Pair)
		return ok && x == y
	case *Arr:
		y, ok := b.(*Arr)
		return ok && x == y
	case *HTab:
		y, ok := b.(*HTab)
		return ok && x == y
	}
	return hKey(a) == hKey(b)
}

// root identifies the cells an array shares with others.
func (a *Arr) root() *V {
	c := a.El[:cap(a.El)]
	if len(c) == 0 {
		return nil
	}
	return &c[len(c)-1]
}

// reaches tells whether hit holds for an object reachable from v.
func reaches(v V, hit func(V) bool) bool {
	seen := map[V]bool{}
	var walk func(v V) bool
	walk = func(v V) bool {
		switch v.(type) {
		case *Pair, *Arr, *HTab, *Obj:
		default:
			return false
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		if hit(v) {
			return true
		}
		switch x := v.(type) {
		case *Pair:
			return walk(x.Car) || walk(x.Cdr)
		case *Arr:
			for _, e := range x.El {
				if walk(e) {
					return true
				}
			}
		case *HTab:
			for _, e := range x.M {
				if walk(e) {
					return true
				}
			}
		case *Obj:
			for _, e := range x.Slot {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// reachesCells: v reaches an array that shares cells with a.
func reachesCells(v V, a *Arr) bool {
	return reaches(v, func(o V) bool {
		b, ok := o.(*Arr)
		return ok && b.root() != nil && b.root() == a.root()
	})
}

func size(dims []int) int {
	n := 1
	for _, d := range dims {
		n *= d
	}
	return n
}

// subArray follows indexes into an array.
func subArray(a *Arr, idx []V) (res V, flat int, status string) {
	dims, el, off := a.Dims, a.El, 0
	for k, iv := range idx {
		if len(dims) == 0 {
			return nil, 0, hAny
		}
		i, ok := intOf(iv)
		if !ok {
			return nil, 0, hDomain
		}
		if i < 0 || i >= dims[0] {
			return nil, 0, hAny
		}
		n := size(dims[1:])
		el, dims, off = el[i*n:(i+1)*n], dims[1:], off+i*n
		if len(dims) == 0 {
			if k != len(idx)-1 {
				return nil, 0, hAny
			}
			return el[0], off, hOK
		}
	}
	return &Arr{Dims: dims, El: el}, -1, hOK
}

// setCells stores into an array; status hAny for all refusals.
func setCells(a *Arr, idx []V, v V) (V, string) {
	if len(idx) > len(a.Dims) {
		return nil, hAny
	}
	for k, iv := range idx {
		i, ok := intOf(iv)
		if !ok || i < 0 || i >= a.Dims[k] {
			if ok {
				return nil, hDomain
			}
			return nil, hDomain
		}
	}
	if reachesCells(v, a) {
		if b, ok := v.(*Arr); !ok || len(idx) == len(a.Dims) || b.root() != a.root() {
			return nil, hSkip
		}
	}
	if len(idx) == len(a.Dims) {
		_, off, _ := subArray(a, idx)
		a.El[off] = v
		return v, hOK
	}
	sub, _, _ := subArray(a, idx)
	s := sub.(*Arr)
	b, ok := v.(*Arr)
	if !ok {
		return nil, hDomain
	}
	if fmt.Sprint(b.Dims) != fmt.Sprint(s.Dims) {
		return nil, hSkip
	}
	for _, e := range b.El {
		if reachesCells(e, a) {
			return nil, hSkip
		}
	}
	copy(s.El, append([]V{}, b.El...))
	return v, hOK
}

// eltOf is elt with any number of indexes.
func eltOf(v V, idx []V) (V, string) {
	for _, iv := range idx {
		i, ok := intOf(iv)
		if !ok {
			return nil, hDomain
		}
		switch x := v.(type) {
		case *Arr:
			r, _, st := subArray(x, []V{iv})
			if st != hOK {
				return nil, st
			}
			v = r
		case *Pair, NilT:
			if i < 0 {
				return nil, hAny
			}
			l, tail, ok := spine(x)
			if !ok {
				return nil, hSkip
			}
			if i >= len(l) {
				if !isNil(tail) {
					return nil, hSkip
				}
				return Nil, hOK
			} else {
				v = l[i].Car
			}
		default:
			return nil, hSkip
		}
	}
	return v, hOK
}

func setEltOf(v V, idx []V, nv V) (V, string) {
	switch x := v.(type) {
	case *Arr:
		if len(idx) != len(x.Dims) {
			return nil, hSkip
		}
		return setCells(x, idx, nv)
	case *Pair, NilT:
		if len(idx) != 1 {
			return nil, hSkip
		}
		i, ok := intOf(idx[0])
		l, st := proper(x)
		if st != hOK || !ok {
			return nil, hSkip
		}
		if i < 0 || i >= len(l) {
			return nil, hAny
		}
		if reaches(nv, func(o V) bool { return o == l[i] }) {
			return nil, hSkip
		}
		l[i].Car = nv
		return nv, hOK
	}
	return nil, hSkip
}

// nthcdrOf is nthcdr; cars of an atom count as nil.
func nthcdrOf(n int, v V) (V, string) {
	for ; n > 0; n-- {
		p, ok := v.(*Pair)
		if !ok {
			return Nil, hOK
		}
		v = p.Cdr
	}
	return v, hOK
}

// setNth stores into the car (or cdr) of the n-th cons of a list.
func setNth(n int, cdr bool) func(m *hModel, a []V) (V, string) {
	return func(m *hModel, a []V) (V, string) {
		c := a[1]
		for i := 0; i < n; i++ {
			p, ok := c.(*Pair)
			if !ok {
				return nil, hDomain
			}
			c = p.Cdr
		}
		p, ok := c.(*Pair)
		if !ok {
			return nil, hDomain
		}
		if cdr {
			p.Cdr = a[0]
		} else {
			p.Car = a[0]
		}
		return a[0], hOK
	}
}

func getNth(n int) func(m *hModel, a []V) (V, string) {
	return func(m *hModel, a []V) (V, string) {
		if _, ok := a[0].(*Arr); ok {
			return nil, hSkip
		}
		return eltOf(a[0], []V{Int(n)})
	}
}

func carOf(v V) (V, string) {
	if p, ok := v.(*Pair); ok {
		return p.Car, hOK
	}
	return nil, hDomain
}

func cdrOf(v V) (V, string) {
	if p, ok := v.(*Pair); ok {
		return p.Cdr, hOK
	}
	return nil, hDomain
}

func fun1(f func(V) (V, string)) func(m *hModel, a []V) (V, string) {
	return func(m *hModel, a []V) (V, string) { return f(a[0]) }
}

func pred(f func(V) bool) func(m *hModel, a []V) (V, string) {
	return func(m *hModel, a []V) (V, string) { return boolV(f(a[0])), hOK }
}

var listDefs = []*hDef{
	{name: "ref", kinds: "s", tmpl: "$0", w: 4, run: func(m *hModel, a []V) (V, string) { return a[0], hOK }},
	{name: "literal", kinds: "d", tmpl: "$0", w: 6, run: func(m *hModel, a []V) (V, string) { return a[0], hOK }},
	{name: "cons", kinds: "vv", w: 6, run: func(m *hModel, a []V) (V, string) { return &Pair{a[0], a[1]}, hOK }},
	{name: "list", rest: 'v', w: 5, run: func(m *hModel, a []V) (V, string) { return vlist(a...), hOK }},
	{name: "car", kinds: "l", w: 3, run: fun1(carOf)},
	{name: "first", kinds: "l", run: fun1(carOf)},
	{name: "cdr", kinds: "l", w: 3, run: fun1(cdrOf)},
	{name: "rest", kinds: "l", run: fun1(cdrOf)},
	{name: "caar", kinds: "l", run: fun1(func(v V) (V, string) {
		x, st := carOf(v)
		if st != hOK {
			return x, st
		}
		return carOf(x)
	})},
	{name: "cadr", kinds: "l", w: 1, run: getNth(1)},
	{name: "second", kinds: "l", run: getNth(1)},
	{name: "caddr", kinds: "l", run: getNth(2)},
	{name: "third", kinds: "l", run: getNth(2)},
	{name: "cadddr", kinds: "l", run: getNth(3)},
	{name: "cddr", kinds: "l", w: 2, run: fun1(func(v V) (V, string) { return nthcdrOf(2, v) })},
	{name: "cdddr", kinds: "l", w: 2, run: fun1(func(v V) (V, string) { return nthcdrOf(3, v) })},
	{name: "nthcdr", kinds: "il", w: 3, run: func(m *hModel, a []V) (V, string) {
		n, ok := intOf(a[0])
		if !ok {
			return nil, hSkip
		}
		return nthcdrOf(n, a[1])
	}},
	{name: "nth", kinds: "il", w: 2, run: func(m *hModel, a []V) (V, string) { return eltOf(a[1], a[:1]) }},
	{name: "elt", kinds: "li", w: 2, run: func(m *hModel, a []V) (V, string) { return eltOf(a[0], a[1:]) }},
	{name: "elt", kinds: "lii", run: func(m *hModel, a []V) (V, string) { return eltOf(a[0], a[1:]) }},
	{name: "append", rest: 'l', w: 8, run: func(m *hModel, a []V) (V, string) {
		if len(a) == 0 {
			return Nil, hOK
		}
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			l, st := proper(a[i])
			if st != hOK {
				return nil, st
			}
			for k := len(l) - 1; k >= 0; k-- {
				r = &Pair{l[k].Car, r}
			}
		}
		return r, hOK
	}},
	{name: "reverse", kinds: "l", w: 3, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			return nil, st
		}
		var r V = Nil
		for _, p := range l {
			r = &Pair{p.Car, r}
		}
		return r, hOK
	}},
	// all the variables that reach the list are cleared afterwards
	{name: "nreverse", kinds: "l", w: 2, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			return nil, hSkip
		}
		in := map[V]bool{}
		for _, p := range l {
			in[p] = true
		}
		hit := func(v V) bool { return in[v] }
		var r V = Nil
		for _, p := range l {
			if reaches(p.Car, hit) {
				return nil, hSkip
			}
			r = &Pair{p.Car, r}
		}
		for _, v := range m.props {
			if reaches(v, hit) {
				return nil, hSkip
			}
		}
		for i := range m.slot {
			if reaches(m.slot[i], hit) {
				m.slot[i] = Nil
			}
		}
		return r, hOK
	}},
	{name: "length", kinds: "l", w: 2, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			if _, tail, _ := spine(a[0]); tail != nil {
				if _, ok := tail.(Str); ok {
					return nil, hSkip
				}
			}
			return nil, st
		}
		return Int(len(l)), hOK
	}},
	{name: "last", kinds: "l", w: 2, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			return nil, st
		}
		if len(l) == 0 {
			return Nil, hOK
		}
		return l[len(l)-1].Car, hOK
	}},
	{name: "member", kinds: "el", w: 4, run: func(m *hModel, a []V) (V, string) {
		l, tail, ok := spine(a[1])
		if !ok {
			return nil, hSkip
		}
		for _, p := range l {
			if veql(a[0], p.Car) {
				m.note["member found"]++
				return p, hOK
			}
		}
		if !isNil(tail) {
			return nil, hSkip
		}
		return Nil, hOK
	}},
	{name: "assoc", kinds: "Kz", w: 4, run: func(m *hModel, a []V) (V, string) {
		l, tail, ok := spine(a[1])
		if !ok {
			return nil, hSkip
		}
		for _, p := range l {
			q, ok := p.Car.(*Pair)
			if !ok {
				return nil, hSkip
			}
			if veql(a[0], q.Car) {
				m.note["assoc found"]++
				return q, hOK
			}
		}
		if !isNil(tail) {
			return nil, hSkip
		}
		return Nil, hOK
	}},
	{name: "subseq", kinds: "lii", w: 3, run: func(m *hModel, a []V) (V, string) {
		s, ok1 := intOf(a[1])
		e, ok2 := intOf(a[2])
		l, st := proper(a[0])
		if !ok1 || !ok2 || st != hOK || s < 0 || s > e || e > len(l) {
			return nil, hSkip
		}
		var r V = Nil
		for i := e - 1; i >= s; i-- {
			r = &Pair{l[i].Car, r}
		}
		return r, hOK
	}},
	{name: "create-list", kinds: "iv", w: 2, run: func(m *hModel, a []V) (V, string) {
		n, ok := intOf(a[0])
		if !ok || n < 0 {
			return nil, hSkip
		}
		var r V = Nil
		for ; n > 0; n-- {
			r = &Pair{a[1], r}
		}
		return r, hOK
	}},
	{name: "listp", kinds: "v", run: pred(func(v V) bool { _, ok := v.(*Pair); return ok || isNil(v) })},
	{name: "consp", kinds: "v", run: pred(func(v V) bool { _, ok := v.(*Pair); return ok })},
	{name: "atom", kinds: "v", run: pred(func(v V) bool { _, ok := v.(*Pair); return !ok })},
	{name: "null", kinds: "v", run: pred(isNil)},
	{name: "not", kinds: "v", run: pred(isNil)},
	{name: "eq", kinds: "LL", w: 2, run: func(m *hModel, a []V) (V, string) { return boolV(veql(a[0], a[1])), hOK }},
	{name: "set-car", kinds: "vc", w: 5, run: setNth(0, false)},
	{name: "set-cdr", kinds: "vc", w: 5, run: setNth(0, true)},
	{name: "setf car", kinds: "vc", tmpl: "(setf (car $1) $0)", w: 3, run: setNth(0, false)},
	{name: "setf first", kinds: "vc", tmpl: "(setf (first $1) $0)", run: setNth(0, false)},
	{name: "setf cdr", kinds: "vc", tmpl: "(setf (cdr $1) $0)", w: 3, run: setNth(0, true)},
	{name: "setf cadr", kinds: "vc", tmpl: "(setf (cadr $1) $0)", run: setNth(1, false)},
	{name: "setf second", kinds: "vc", tmpl: "(setf (second $1) $0)", run: setNth(1, false)},
	{name: "setf caddr", kinds: "vc", tmpl: "(setf (caddr $1) $0)", run: setNth(2, false)},
	{name: "setf third", kinds: "vc", tmpl: "(setf (third $1) $0)", run: setNth(2, false)},
	{name: "setf cadddr", kinds: "vc", tmpl: "(setf (cadddr $1) $0)", run: setNth(3, false)},
	{name: "setf cddr", kinds: "vc", tmpl: "(setf (cddr $1) $0)", run: setNth(1, true)},
	{name: "setf cdddr", kinds: "vc", tmpl: "(setf (cdddr $1) $0)", run: setNth(2, true)},
	{name: "setf nthcdr", kinds: "vic", tmpl: "(setf (nthcdr $1 $2) $0)", w: 2, run: func(m *hModel, a []V) (V, string) {
		n, ok := intOf(a[1])
		if !ok || n < 1 {
			return nil, hSkip
		}
		return setNth(n-1, true)(m, []V{a[0], a[2]})
	}},
	{name: "setf nth", kinds: "vic", tmpl: "(setf (nth $1 $2) $0)", w: 2, run: func(m *hModel, a []V) (V, string) { return setEltOf(a[2], a[1:2], a[0]) }},
	{name: "setf elt", kinds: "vci", tmpl: "(setf (elt $1 $2) $0)", w: 2, run: func(m *hModel, a []V) (V, string) { return setEltOf(a[1], a[2:], a[0]) }},
	{name: "set-elt", kinds: "vCi", tmpl: "(set-elt $0 $1 $2)", w: 2, run: func(m *hModel, a []V) (V, string) { return setEltOf(a[1], a[2:], a[0]) }},
	{name: "setf subseq", kinds: "lCii", tmpl: "(setf (subseq $1 $2 $3) $0)", w: 2, run: func(m *hModel, a []V) (V, string) {
		s, ok1 := intOf(a[2])
		e, ok2 := intOf(a[3])
		l, st := proper(a[1])
		nl, st2 := proper(a[0])
		if !ok1 || !ok2 || st != hOK || st2 != hOK || s < 0 || s > e || e > len(l) || len(nl) != e-s {
			return nil, hSkip
		}
		for _, p := range l {
			for _, q := range nl {
				if p == q {
					return nil, hSkip
				}
			}
		}
		for i := s; i < e; i++ {
			l[i].Car = nl[i-s].Car
		}
		return a[0], hOK
	}},
	{name: "copy", kinds: "l", tmpl: "(mapcar (lambda (v) v) $0)", w: 1, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			return nil, hSkip
		}
		var r V = Nil
		for k := len(l) - 1; k >= 0; k-- {
			r = &Pair{l[k].Car, r}
		}
		return r, hOK
	}},
	{name: "rest list", kinds: "v", rest: 'v', tmpl: "((lambda (&rest r) r) $*)", w: 2, run: func(m *hModel, a []V) (V, string) { return vlist(a...), hOK }},
	{name: "apply rest", kinds: "l", tmpl: "(apply (lambda (&rest r) r) $0)", w: 2, run: func(m *hModel, a []V) (V, string) {
		l, st := proper(a[0])
		if st != hOK {
			return nil, hSkip
		}
		var r V = Nil
		for k := len(l) - 1; k >= 0; k-- {
			r = &Pair{l[k].Car, r}
		}
		return r, hOK
	}},
	{name: "equal", kinds: "LL", w: 2, run: func(m *hModel, a []V) (V, string) {
		for _, x := range a {
			if reaches(x, func(v V) bool { _, bad := v.(*HTab); return bad }) {
				return nil, hSkip
			}
		}
		n := 3000
		e := vequal(a[0], a[1], &n)
		if n <= 0 {
			return nil, hSkip
		}
		return boolV(e), hOK
	}},
}

// vequal gives up (n is 0) on large and circular structures.
func vequal(a, b V, n *int) bool {
	*n--
	if *n <= 0 {
		return false
	}
	switch x := a.(type) {
	case *Pair:
		y, ok := b.(*Pair)
		return ok && vequal(x.Car, y.Car, n) && vequal(x.Cdr, y.Cdr, n)
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || fmt.Sprint(x.Dims) != fmt.Sprint(y.Dims) {
			return false
		}
		for i := range x.El {
			if !vequal(x.El[i], y.El[i], n) {
				return false
			}
		}
		return true
	}
	return veql(a, b)
}

func freshList(l []*Pair) V {
	var r V = Nil
	for k := len(l) - 1; k >= 0; k-- {
		r = &Pair{l[k].Car, r}
	}
	return r
}

var arrayDefs = []*hDef{
	{name: "ref", kinds: "s", tmpl: "$0", w: 3, run: func(m *hModel, a []V) (V, string) { return a[0], hOK }},
	{name: "array literal", kinds: "A", tmpl: "$0", w: 4, run: func(m *hModel, a []V) (V, string) { return a[0], hOK }},
	{name: "create-array", kinds: "mv", w: 8, run: createArray},
	{name: "create-array", kinds: "m", w: 1, run: createArray},
	{name: "vector", rest: 'v', w: 5, run: func(m *hModel, a []V) (V, string) {
		return &Arr{Dims: []int{len(a)}, El: append([]V{}, a...)}, hOK
	}},
	{name: "apply vector", kinds: "l", tmpl: "(apply #'vector $0)", w: 1, run: toVector},
	{name: "convert vector", kinds: "l", tmpl: "(convert $0 <general-vector>)", w: 2, run: toVector},
	{name: "convert list", kinds: "a", tmpl: "(convert $0 <list>)", w: 2, run: func(m *hModel, a []V) (V, string) {
		x, ok := a[0].(*Arr)
		if !ok {
			return nil, hSkip
		}
		if len(x.Dims) != 1 {
			return nil, hAny
		}
		return vlist(x.El...), hOK
	}},
	{name: "list", rest: 'v', w: 3, run: func(m *hModel, a []V) (V, string) { return vlist(a...), hOK }},
	{name: "aref", kinds: "ai", rest: 'i', w: 8, run: func(m *hModel, a []V) (V, string) {
		x, ok := a[0].(*Arr)
		if !ok {
			return nil, hDomain
		}
		m.note[fmt.Sprintf("aref rank %d, %d indexes", len(x.Dims), len(a)-1)]++
		if len(a)-1 > len(x.Dims) {
			return nil, hAny
		}
		r, _, st := subArray(x, a[1:])
		return r, st
	}},
	{name: "elt", kinds: "ai", rest: 'i', w: 5, run: func(m *hModel, a []V) (V, string) { return eltOf(a[0], a[1:]) }},
	{name: "set-aref", kinds: "vai", rest: 'i', w: 14, run: setAref},
	{name: "setf aref", kinds: "vai", rest: 'i', tmpl: "(setf (aref $+) $0)", w: 8, run: setAref},
	{name: "set-elt", kinds: "vBi", rest: 'i', tmpl: "(set-elt $*)", w: 4, run: func(m *hModel, a []V) (V, string) { return setEltOf(a[1], a[2:], a[0]) }},
	{name: "setf elt", kinds: "vBi", rest: 'i', tmpl: "(setf (elt $+) $0)", w: 4, run: func(m *hModel, a []V) (V, string) { return setEltOf(a[1], a[2:], a[0]) }},
	{name: "array-dimensions", kinds: "a", w: 3, run: func(m *hModel, a []V) (V, string) {
		x, ok := a[0].(*Arr)
		if !ok {
			return nil, hDomain
		}
		var l []V
		for _, d := range x.Dims {
			l = append(l, Int(d))
		}
		return vlist(l...), hOK
	}},
	{name: "basic-array-p", kinds: "v", run: func(m *hModel, a []V) (V, string) {
		_, ok := a[0].(*Arr)
		_, ok2 := a[0].(Str)
		return boolV(ok || ok2), hOK
	}},
	{name: "general-array*-p", kinds: "v", run: func(m *hModel, a []V) (V, string) {
		x, ok := a[0].(*Arr)
		return boolV(ok && len(x.Dims) != 1), hOK
	}},
	{name: "eq", kinds: "VV", w: 1, run: func(m *hModel, a []V) (V, string) { return boolV(veql(a[0], a[1])), hOK }},
	{name: "equal", kinds: "VV", w: 2, run: func(m *hModel, a []V) (V, string) {
		n := 3000
		e := vequal(a[0], a[1], &n)
		if n <= 0 {
			return nil, hSkip
		}
		return boolV(e), hOK
	}},
}

func toVector(m *hModel, a []V) (V, string) {
	l, st := proper(a[0])
	if st != hOK {
		return nil, hSkip
	}
	x := &Arr{Dims: []int{len(l)}, El: make([]V, 0, len(l))}
	for _, p := range l {
		x.El = append(x.El, p.Car)
	}
	return x, hOK
}

func setAref(m *hModel, a []V) (V, string) {
	x, ok := a[1].(*Arr)
	if !ok {
		return nil, hDomain
	}
	m.note[fmt.Sprintf("set-aref rank %d, %d indexes", len(x.Dims), len(a)-2)]++
	return setCells(x, a[2:], a[0])
}

func createArray(m *hModel, a []V) (V, string) {
	l, st := proper(a[0])
	if st != hOK {
		return nil, hSkip
	}
	x := &Arr{}
	cells := 1.0
	for _, p := range l {
		n, ok := intOf(p.Car)
		if !ok || n <= 0 {
			if cells > 1e9 {
				return nil, hAny
			}
			return nil, hDomain
		}
		cells *= float64(n)
		x.Dims = append(x.Dims, n)
	}
	if cells > 1e9 {
		return nil, hAny
	}
	if size(x.Dims) > 200 {
		return nil, hSkip
	}
	x.El = make([]V, size(x.Dims))
	for i := range x.El {
		if len(a) > 1 {
			x.El[i] = a[1]
		} else {
			x.El[i] = Nil
		}
	}
	return x, hOK
}

func tab(v V) (*HTab, string) {
	h, ok := v.(*HTab)
	if !ok {
		return nil, hDomain
	}
	return h, hOK
}

func keyOK(v V) bool {
	switch v.(type) {
	case Int, Flt, Str, Chr, Sym, Kw:
		return true
	}
	return false
}

func unkey(v V) bool {
	switch v.(type) {
	case *Pair, *Arr, *HTab:
		return true
	}
	return false
}

var hashDefs = []*hDef{
	{name: "ref", kinds: "s", tmpl: "$0", w: 2, run: func(m *hModel, a []V) (V, string) { return a[0], hOK }},
	{name: "make-hash-table", w: 4, run: func(m *hModel, a []V) (V, string) { return &HTab{map[string]V{}}, hOK }},
	{name: "list", rest: 'v', w: 2, run: func(m *hModel, a []V) (V, string) { return vlist(a...), hOK }},
	{name: "set-gethash", kinds: "vkh", w: 14, run: setHash},
	{name: "setf gethash", kinds: "vkh", tmpl: "(setf (gethash $1 $2) $0)", w: 6, run: setHash},
	{name: "gethash", kinds: "kh", w: 10, run: func(m *hModel, a []V) (V, string) {
		h, st := tab(a[1])
		if st != hOK {
			return nil, st
		}
		if unkey(a[0]) {
			return nil, hAny
		}
		if v, ok := h.M[hKey(a[0])]; ok {
			m.note["gethash found"]++
			return v, hOK
		}
		return Nil, hOK
	}},
	{name: "remhash", kinds: "kh", w: 6, run: func(m *hModel, a []V) (V, string) {
		h, st := tab(a[1])
		if st != hOK {
			return nil, st
		}
		if unkey(a[0]) {
			return nil, hAny
		}
		if _, ok := h.M[hKey(a[0])]; ok {
			m.note["remhash found"]++
		}
		delete(h.M, hKey(a[0]))
		return Nil, hOK
	}},
	{name: "clrhash", kinds: "h", w: 1, run: func(m *hModel, a []V) (V, string) {
		h, st := tab(a[0])
		if st != hOK {
			return nil, st
		}
		for k := range h.M {
			delete(h.M, k)
		}
		return Nil, hOK
	}},
	{name: "hash-table-count", kinds: "h", w: 3, run: func(m *hModel, a []V) (V, string) {
		h, st := tab(a[0])
		if st != hOK {
			return nil, st
		}
		return Int(len(h.M)), hOK
	}},
	{name: "set-property", kinds: "vyy", w: 10, run: func(m *hModel, a []V) (V, string) {
		m.props[show(vlist(a[1], a[2]))] = a[0]
		return a[0], hOK
	}},
	{name: "property", kinds: "yy", w: 8, run: func(m *hModel, a []V) (V, string) {
		v, ok := m.props[show(vlist(a[0], a[1]))]
		if !ok {
			return nil, hAny
		}
		m.note["property found"]++
		return v, hOK
	}},
	{name: "remove-property", kinds: "yy", w: 5, run: func(m *hModel, a []V) (V, string) {
		delete(m.props, show(vlist(a[0], a[1])))
		return nil, hOK // its value is not specified
	}},
	{name: "setf property", kinds: "vyy", tmpl: "(setf (property $1 $2) $0)", w: 3, run: func(m *hModel, a []V) (V, string) {
		m.props[show(vlist(a[1], a[2]))] = a[0]
		return a[0], hOK
	}},
}

func setHash(m *hModel, a []V) (V, string) {
	h, st := tab(a[2])
	if st != hOK {
		return nil, st
	}
	if unkey(a[1]) {
		return nil, hAny
	}
	if reaches(a[0], func(v V) bool { return v == V(h) }) {
		return nil, hSkip
	}
	h.M[hKey(a[1])] = a[0]
	return a[0], hOK
}

// ------------------------------------------------------------------------

// text writes the form of the operation.
func (d *hDef) text(op hOp) string {
	var args []string
	for _, a := range op.A {
		args = append(args, a.text())
	}
	if d.tmpl == "" {
		return callArgs(d.name, args, op.M)
	}
	s := d.tmpl
	for i, a := range args {
		s = strings.ReplaceAll(s, fmt.Sprintf("$%d", i), a)
	}
	s = strings.ReplaceAll(s, "$*", strings.Join(args, " "))
	if len(args) > 1 {
		s = strings.ReplaceAll(s, "$+", strings.Join(args[1:], " "))
	}
	return s
}

// bij relates the objects of the interpreter to those of the model.
type bij struct {
	fwd  map[any]V
	rev  map[V]any
	tabs []tabPair
	objs []objPair
	// className names the user classes
	className func(int) string
}

type objPair struct {
	real  gmnlisp.Node
	model *Obj
	path  string
}

type tabPair struct {
	real  gmnlisp.Node
	model *HTab
	path  string
}

func newBij() *bij { return &bij{fwd: map[any]V{}, rev: map[V]any{}} }

// pair registers that n and v are the same object; seen: they were known.
func (b *bij) pair(n any, v V, path string) (seen bool, err error) {
	if x, ok := b.fwd[n]; ok {
		if x != v {
			return false, fmt.Errorf("%s: is an object shared with a place where it should not be (%s)", path, show(v))
		}
		return true, nil
	}
	if _, ok := b.rev[v]; ok {
		return false, fmt.Errorf("%s: should be the very object found elsewhere (%s), but is another one", path, show(v))
	}
	b.fwd[n] = v
	b.rev[v] = n
	return false, nil
}

func (b *bij) same(n gmnlisp.Node, v V, path string) error {
	for i := 0; ; i++ {
		switch x := v.(type) {
		case *Pair:
			c, ok := n.(*gmnlisp.Cons)
			if !ok || c == nil {
				return fmt.Errorf("%s: is %s, expected %s", path, show(fromNode(n)), show(v))
			}
			seen, err := b.pair(c, x, path)
			if err != nil || seen {
				return err
			}
			if err := b.same(c.Car, x.Car, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
			n, v = c.Cdr, x.Cdr
			if n == nil {
				n = gmnlisp.Null
			}
			continue
		case *Arr:
			c, ok := n.(*gmnlisp.Array)
			if !ok || c == nil {
				return fmt.Errorf("%s: is %s, expected %s", path, show(fromNode(n)), show(v))
			}
			seen, err := b.pair(c, x, path)
			if err != nil || seen {
				return err
			}
			if g, w := realDims(c), fmt.Sprint(x.Dims); g != w {
				return fmt.Errorf("%s: has the dimensions %s, expected %s", path, g, w)
			}
			for i := range x.El {
				var e gmnlisp.Node = c
				for _, k := range unflatten(i, x.Dims) {
					e, err = e.(*gmnlisp.Array).Elt(k)
					if err != nil {
						return fmt.Errorf("%s: element %d: %v", path, i, err)
					}
				}
				if len(x.Dims) == 0 {
					break // no element of rank 0 can be got at
				}
				if err := b.same(e, x.El[i], fmt.Sprintf("%s%v", path, unflatten(i, x.Dims))); err != nil {
					return err
				}
			}
			return nil
		case *HTab:
			if n == nil || n.ClassOf().Name().String() != "<hashtable>" {
				return fmt.Errorf("%s: is %s, expected a hash table", path, show(fromNode(n)))
			}
			for _, t := range b.tabs {
				if (t.model == x) != t.real.Equals(n, gmnlisp.STRICT) {
					return fmt.Errorf("%s: is the wrong hash table (compared with %s)", path, t.path)
				}
				if t.model == x {
					return nil
				}
			}
			b.tabs = append(b.tabs, tabPair{n, x, path})
			return nil
		case *Obj:
			if n == nil || n.ClassOf() == nil || n.ClassOf().Name().String() != b.className(x.Class) {
				return fmt.Errorf("%s: is %s, expected an instance of %s", path, show(fromNode(n)), b.className(x.Class))
			}
			for _, t := range b.objs {
				if (t.model == x) != t.real.Equals(n, gmnlisp.STRICT) {
					return fmt.Errorf("%s: is the wrong instance (compared with %s)", path, t.path)
				}
				if t.model == x {
					return nil
				}
			}
			b.objs = append(b.objs, objPair{n, x, path})
			return nil
		default:
			if g, w := show(fromNode(n)), show(v); g != w {
				return fmt.Errorf("%s: is %s, expected %s", path, g, w)
			}
			return nil
		}
	}
}

func realDims(a *gmnlisp.Array) string {
	if v, ok := fromNode(a).(*Arr); ok {
		return fmt.Sprint(v.Dims)
	}
	return "?"
}

func (m *hModel) arg(a hArg) V {
	if a.D != nil {
		return a.D.V()
	}
	return m.slot[a.S-1]
}

// apply runs the operation on the model.
func (m *hModel) apply(d *hDef, op hOp) (V, string) {
	var args []V
	for _, a := range op.A {
		args = append(args, m.arg(a))
	}
	v, st := d.run(m, args)
	if st != hOK {
		// the messages of errors show the objects
		for _, a := range args {
			if treeTooLarge(a) {
				return nil, hSkip
			}
		}
	}
	return v, st
}

// treeTooLarge: the printed form would be large or endless.
func treeTooLarge(v V) bool {
	n := 2000
	var walk func(v V)
	walk = func(v V) {
		if n--; n < 0 {
			return
		}
		switch x := v.(type) {
		case *Pair:
			walk(x.Car)
			walk(x.Cdr)
		case *Arr:
			for _, e := range x.El {
				walk(e)
			}
		case *HTab:
			for _, e := range x.M {
				walk(e)
			}
		case *Obj:
			for _, e := range x.Slot {
				walk(e)
			}
		}
	}
	walk(v)
	return n < 0
}

func defOf(defs []*hDef, op hOp) *hDef {
	for _, d := range defs {
		if d.name == op.O && (len(op.A) == len(d.kinds) || d.rest != 0 && len(op.A) >= len(d.kinds)) {
			return d
		}
	}
	return nil
}

var hashProbe = []D{dInt(1), dInt(2), dInt(97), dFlt(1), dFlt(2.5), dStr("a"), dStr("A"), dStr("1"), dStr("あ"), dChr('a'), dChr('1'), dSym("a"), dSym("A"), dSym("b"), dKw(":a"), dKw("&a"), dSym("1"), {K: "n"}, {K: "t"}, dStr("")}

// allProbes are all the keys an operation can get at.
var allProbes = func() (r []D) {
	r = append(r, hashProbe...)
	r = append(r, dFlt(1.5), dStr("b"))
	for i := int64(0); i < 60; i++ {
		if i != 1 && i != 2 {
			r = append(r, dInt(i))
		}
	}
	return
}()

func runHist(defs []*hDef) func(c hCase, o *Obs) error {
	return func(c hCase, o *Obs) error {
		ctx := context.Background()
		w, out := newWorld()
		m := newHModel()
		vars := gmnlisp.Variables{}
		name := func(i int) gmnlisp.Symbol { return gmnlisp.NewSymbol(fmt.Sprintf("x%d", i)) }
		for i := range m.slot {
			vars[name(i)] = gmnlisp.Null
		}
		lw := w.Let(vars)
		var log []string
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
		}
		errors := 0
		for opN, op := range c.Ops {
			d := defOf(defs, op)
			if d == nil {
				return fmt.Errorf("harness: unknown operation %v", op)
			}
			want, st := m.apply(d, op)
			if st == hSkip {
				continue
			}
			text := d.text(op)
			log = append(log, fmt.Sprintf("x%d <- %s", op.Dst, text))
			got, err := lw.Interpret(ctx, text)
			o.Label("op %s", d.name)
			if st != hOK {
				o.Label("refused: %s", d.name)
				errors++
				if err == nil {
					return fail("expected an error, got %s", show(fromNode(got)))
				}
				if st != hAny {
					if cls, _ := errClass(err); cls != st {
						return fail("expected a %s, got %s (%v)", st, cls, err)
					}
				}
			} else {
				if err != nil {
					return fail("%v\n  expected %s", err, show(want))
				}
				if want == nil {
					want, got = Nil, gmnlisp.Null
				}
				m.slot[op.Dst] = want
				vars[name(op.Dst)] = got
				if op.O == "nreverse" {
					for i := range m.slot {
						if i != op.Dst && isNil(m.slot[i]) {
							vars[name(i)] = gmnlisp.Null
						}
					}
				}
			}
			b := newBij()
			for i := range m.slot {
				if err := b.same(vars[name(i)], m.slot[i], fmt.Sprintf("x%d", i)); err != nil {
					return fail("%v", err)
				}
			}
			if opN%4 != 3 && opN != len(c.Ops)-1 {
				continue
			}
			if err := checkProps(ctx, w, m, b); err != nil {
				return fail("%v", err)
			}
			if err := checkTabs(ctx, w, m, b); err != nil {
				return fail("%v", err)
			}
		}
		if s := out.String(); s != "" {
			return fail("unexpected output %q", s)
		}
		o.Sample(strings.Join(log, "\n"))
		for k := range m.note {
			o.Label("%s", k)
		}
		shared := false
		seen := map[V]int{}
		for i := range m.slot {
			mine := map[V]bool{}
			reaches(m.slot[i], func(v V) bool { mine[v] = true; return false })
			for v := range mine {
				seen[v]++
				shared = shared || seen[v] > 1
			}
		}
		if shared {
			o.Label("variables share objects at the end")
		}
		found := m.note["gethash found"]+m.note["property found"] > 0
		if len(log) >= 4 && (shared || found) {
			o.NonTrivial()
		}
		return nil
	}
}

var propSyms = []D{dSym("p"), dSym("q"), dSym("P"), dSym("r1")}

// checkProps looks at all the properties.
func checkProps(ctx context.Context, w *gmnlisp.World, m *hModel, b *bij) error {
	if len(m.props) == 0 {
		return nil
	}
	for _, s := range propSyms {
		for _, n := range propSyms {
			text := fmt.Sprintf("(property %s %s)", s.Quoted(), n.Quoted())
			want, ok := m.props[show(vlist(s.V(), n.V()))]
			got, err := w.Interpret(ctx, text)
			if (err == nil) != ok {
				return fmt.Errorf("%s: value %v, error %v, but the property should exist: %v", text, got, err, ok)
			}
			if ok {
				if err := b.same(got, want, text); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// checkTabs looks at the contents of all the hash tables.
func checkTabs(ctx context.Context, w *gmnlisp.World, m *hModel, b *bij) error {
	for i := 0; i < len(b.tabs); i++ {
		t := b.tabs[i]
		lw := letVars(w, map[string]gmnlisp.Node{"h": t.real})
		n, err := lw.Interpret(ctx, "(hash-table-count h)")
		if err != nil {
			return err
		}
		if show(fromNode(n)) != fmt.Sprint(len(t.model.M)) {
			return fmt.Errorf("%s: hash-table-count is %v, expected %d", t.path, n, len(t.model.M))
		}
		found := 0
		for _, k := range allProbes {
			text := fmt.Sprintf("(gethash %s h)", k.Quoted())
			got, err := lw.Interpret(ctx, text)
			if err != nil {
				return fmt.Errorf("%s of %s: %v", text, t.path, err)
			}
			want, ok := t.model.M[hKey(k.V())]
			if !ok {
				want = Nil
			} else {
				found++
			}
			if err := b.same(got, want, fmt.Sprintf("%s of %s", text, t.path)); err != nil {
				return err
			}
		}
		if found != len(t.model.M) {
			return fmt.Errorf("harness: %d of %d keys probed", found, len(t.model.M))
		}
	}
	return nil
}

// ------------------------------------------------------------------------

// slotsWith lists the variables that hold objects of a kind.
func (m *hModel) slotsWith(f func(V) bool) (r []int) {
	for i, v := range m.slot {
		if f(v) {
			r = append(r, i)
		}
	}
	return
}

func isPair(v V) bool { _, ok := v.(*Pair); return ok }
func isArr(v V) bool  { _, ok := v.(*Arr); return ok }
func isTab(v V) bool  { _, ok := v.(*HTab); return ok }

var hAtoms = dataCfg{depth: 0}

func lit(d D) hArg { return hArg{D: &d} }

func genHAtom(t *rapid.T) D {
	if pct(t, 50) {
		return pickOf(t, []D{dInt(1), dSym("a"), dStr("a"), {K: "n"}}, "atom")
	}
	return pickOf(t, []D{dInt(0), dInt(1), dInt(2), dFlt(1.5), dFlt(1), dStr("a"), dStr("b"), dChr('a'), dSym("a"), dSym("b"), dKw(":a"), {K: "n"}, {K: "t"}}, "atom")
}

func genHList(t *rapid.T, depth int) D {
	d := D{K: "l"}
	for i := below(t, 5, "len"); i > 0; i-- {
		if depth > 0 && pct(t, 35) {
			d.L = append(d.L, genHList(t, depth-1))
		} else {
			d.L = append(d.L, genHAtom(t))
		}
	}
	if len(d.L) == 0 {
		return D{K: "n"}
	}
	if pct(t, 10) {
		a := genHAtom(t)
		if a.K != "n" {
			d.T = &a
		}
	}
	return d
}

func genAlist(t *rapid.T) D {
	d := D{K: "l"}
	for i := between(t, 1, 4, "len"); i > 0; i-- {
		p := dList(genHAtom(t))
		if pct(t, 70) {
			v := genHAtom(t)
			if v.K != "n" {
				p.T = &v
			}
		}
		d.L = append(d.L, p)
	}
	return d
}

// genArg draws an argument; prev are the arguments before it.
func (m *hModel) genArg(t *rapid.T, kind byte, prev []hArg) hArg {
	anySlot := func() hArg { return hArg{S: 1 + below(t, hSlots, "slot")} }
	from := func(f func(V) bool) (hArg, bool) {
		if s := m.slotsWith(f); len(s) > 0 && !pct(t, 3) {
			return hArg{S: 1 + pickOf(t, s, "slot")}, true
		} else if len(s) == 0 && !pct(t, 10) {
			m.abort = true
		}
		return hArg{}, false
	}
	switch kind {
	case 's':
		return anySlot()
	case 'v':
		if pct(t, 60) {
			return anySlot()
		}
		return lit(genHAtom(t))
	case 'd':
		if pct(t, 30) {
			return lit(genAlist(t))
		}
		return lit(genHList(t, 2))
	case 'l':
		if pct(t, 12) {
			return lit(genHList(t, 1))
		}
		if a, ok := from(func(v V) bool { return isPair(v) || isNil(v) && pct(t, 30) }); ok {
			return a
		}
		m.abort = false
		if pct(t, 20) {
			return lit(genHAtom(t))
		}
		return lit(genHList(t, 1))
	case 'z':
		if a, ok := from(func(v V) bool {
			l, st := proper(v)
			for _, p := range l {
				if !isPair(p.Car) {
					return false
				}
			}
			return st == hOK && len(l) > 0
		}); ok {
			return a
		}
		return lit(genAlist(t))
	case 'L':
		if a, ok := from(isPair); ok {
			return a
		}
		return anySlot()
	case 'V':
		return anySlot()
	case 'c':
		if a, ok := from(isPair); ok {
			return a
		}
		if pct(t, 50) {
			return anySlot()
		}
		return lit(genHList(t, 1))
	case 'C', 'B':
		f := isPair
		if kind == 'B' {
			f = isArr
		}
		if a, ok := from(f); ok {
			return a
		}
		return anySlot()
	case 'a':
		if a, ok := from(isArr); ok {
			return a
		}
		return anySlot()
	case 'h':
		if a, ok := from(isTab); ok {
			return a
		}
		return anySlot()
	case 'e': // an element to look for
		if pct(t, 50) {
			return lit(genHAtom(t))
		}
		return anySlot()
	case 'K':
		return lit(genHAtom(t))
	case 'k':
		if pct(t, 4) {
			return anySlot()
		}
		if len(m.keys) > 0 && pct(t, 65) {
			return lit(pickOf(t, m.keys, "key"))
		}
		k := pickOf(t, hashProbe, "key")
		m.keys = append(m.keys, k)
		return lit(k)
	case 'y':
		return lit(pickOf(t, propSyms, "symbol"))
	case 'm': // dimensions
		d := D{K: "l"}
		for i := between(t, 1, 4, "rank"); i > 0; i-- {
			n := between(t, 1, 3, "dim")
			if pct(t, 2) {
				n = 0
			} else if pct(t, 2) {
				n = pickOf(t, []int{1 << 62, 1<<63 - 1, -1 << 63, 1 << 40, 1 << 61, 6148914691236517206, 1<<62 + 1}, "huge")
			}
			d.L = append(d.L, dInt(int64(n)))
		}
		return lit(d)
	case 'A':
		d := D{K: "a"}
		n := 1
		for i := between(t, 1, 3, "rank"); i > 0; i-- {
			d.Dim = append(d.Dim, between(t, 1, 3, "dim"))
			n *= d.Dim[len(d.Dim)-1]
		}
		for ; n > 0; n-- {
			d.L = append(d.L, genHAtom(t))
		}
		return lit(d)
	case 'i':
		return lit(dInt(int64(m.genIndex(t, prev))))
	}
	panic("genArg " + string(kind))
}

// hugeInts are sizes no array has; products of them overflow.
var hugeInts = []int{1 << 62, 1<<63 - 1, -1 << 63, -1 << 62, 1 << 40, 1 << 61, 3074457345618258603, 6148914691236517206, 1<<62 + 1, -1<<63 + 1, 1<<61 + 1, 4611686018427387905}

// genIndex prefers indexes within the object that comes before.
func (m *hModel) genIndex(t *rapid.T, prev []hArg) int {
	if pct(t, 6) {
		return pickOf(t, []int{-1, 3, 4, 7, 100}, "index")
	}
	k := 0
	for i := len(prev) - 1; i >= 0; i-- {
		if a, ok := m.arg(prev[i]).(*Arr); ok && prev[i].S > 0 {
			if pct(t, 2) {
				return pickOf(t, hugeInts, "huge")
			}
			if k < len(a.Dims) {
				return below(t, max(1, a.Dims[k]+boolInt(pct(t, 4))), "index")
			}
			break
		}
		k++
	}
	return below(t, 4, "index")
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// genRest draws how many further arguments.
func (m *hModel) genRest(t *rapid.T, d *hDef, prev []hArg) int {
	if d.rest == 'i' {
		for i := len(prev) - 1; i >= 0; i-- {
			if a, ok := m.arg(prev[i]).(*Arr); ok && prev[i].S > 0 {
				n := len(a.Dims) - (len(prev) - 1 - i)
				if n >= 0 {
					if pct(t, 15) {
						return below(t, n+1, "indexes")
					}
					if pct(t, 4) {
						return n + 1
					}
					return n
				}
			}
		}
	}
	return below(t, 4, "args")
}

func genHist(defs []*hDef, minOps, maxOps int) func(t *rapid.T) hCase {
	var table []*hDef
	for _, d := range defs {
		w := d.w
		if w == 0 {
			w = 1
		}
		for ; w > 0; w-- {
			table = append(table, d)
		}
	}
	return func(t *rapid.T) hCase {
		m := newHModel()
		var c hCase
		n := between(t, minOps, maxOps, "ops")
		for i := 0; i < n; i++ {
			d := pickOf(t, table, "op")
			if len(c.Ops) < 3 && pct(t, 70) {
				d = defs[1] // makes an object
				if d.name != "literal" {
					d = pickOf(t, defs[1:5], "op")
				}
			}
			m.abort = false
			op := hOp{O: d.name, Dst: below(t, hSlots, "dst"), M: below(t, 4, "mode")}
			for k := range []byte(d.kinds) {
				op.A = append(op.A, m.genArg(t, d.kinds[k], op.A))
			}
			if d.rest != 0 {
				for k := m.genRest(t, d, op.A); k > 0; k-- {
					op.A = append(op.A, m.genArg(t, d.rest, op.A))
				}
			}
			if m.abort || defOf(defs, op) != d {
				continue
			}
			v, st := m.apply(d, op)
			if st == hSkip {
				continue
			}
			if st == hOK {
				if v == nil {
					v = Nil
				}
				m.slot[op.Dst] = v
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func initHistProps() {
	reg("C14", "list-history", 40000, 1000000, "at least 4 operations, and at the end two variables share an object", genHist(listDefs, 6, 50), runHist(listDefs))
	reg("C17", "array-history", 40000, 1000000, "at least 4 operations, and at the end two variables share an object", genHist(arrayDefs, 6, 50), runHist(arrayDefs))
	reg("C18", "table-history", 8000, 150000, "at least 4 operations, and at the end two variables share an object or a key or property was found", genHist(hashDefs, 8, 50), runHist(hashDefs))
}
