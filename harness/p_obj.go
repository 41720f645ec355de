package main

// C19 objects, C20 classes and generic functions.

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type slotDecl struct {
	Name     string   `json:"name"`
	Initargs []string `json:"initargs,omitempty"`
	Form     int      `json:"form,omitempty"` // see initform
	Const    *D       `json:"const,omitempty"`
	Readers  []string `json:"readers,omitempty"`
	Writers  []string `json:"writers,omitempty"`
	Accs     []string `json:"accs,omitempty"`
	Boundps  []string `json:"boundps,omitempty"`
}

const (
	formNone = iota
	formConst
	formFresh
	formCounter
	formNil
	formVar
)

type classDecl struct {
	Super []int      `json:"super,omitempty"` // earlier classes
	Slots []slotDecl `json:"slots,omitempty"`
	// Init: an initialize-object method that sets the slot through a writer
	Init string `json:"init,omitempty"`
	// Extra names a built-in superclass
	Extra string `json:"extra,omitempty"`
}

type hierarchy []classDecl

func (h hierarchy) name(i int) string { return fmt.Sprintf("<v%d>", i) }

// lineage is the class and its superclasses, the most specific first.
func (h hierarchy) lineage(i int) (r []int) {
	r = append(r, i)
	for _, s := range h[i].Super {
		r = append(r, h.lineage(s)...)
	}
	return
}

func (h hierarchy) isSub(i, j int) bool { // i is j or below
	for _, k := range h.lineage(i) {
		if k == j {
			return true
		}
	}
	return false
}

// slots are the names of the slots of the instances.
func (h hierarchy) slots(i int) (r []string) {
	m := map[string]bool{}
	for _, k := range h.lineage(i) {
		for _, s := range h[k].Slots {
			if !m[s.Name] {
				m[s.Name] = true
				r = append(r, s.Name)
			}
		}
	}
	sort.Strings(r)
	return
}

func (h hierarchy) defclass(i int) string {
	c := h[i]
	var sb strings.Builder
	fmt.Fprintf(&sb, "(let ((n%d 0)) (defclass %s (", i, h.name(i))
	var sup []string
	for _, s := range c.Super {
		sup = append(sup, h.name(s))
	}
	if c.Extra != "" {
		sup = append(sup, c.Extra)
	}
	sb.WriteString(strings.Join(sup, " ") + ") (")
	for k, s := range c.Slots {
		if k > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString("(" + s.Name)
		for _, x := range s.Initargs {
			sb.WriteString(" :initarg " + x)
		}
		switch s.Form {
		case formConst:
			sb.WriteString(" :initform " + s.Const.Quoted())
		case formFresh:
			fmt.Fprintf(&sb, " :initform (tr '%s-%d (list 1 2))", s.Name, i)
		case formCounter:
			fmt.Fprintf(&sb, " :initform (setq n%d (+ n%d 1))", i, i)
		case formNil:
			sb.WriteString(" :initform nil")
		case formVar:
			fmt.Fprintf(&sb, " :initform n%d", i)
		}
		for _, x := range s.Readers {
			sb.WriteString(" :reader " + x)
		}
		for _, x := range s.Writers {
			sb.WriteString(" :writer " + x)
		}
		for _, x := range s.Accs {
			sb.WriteString(" :accessor " + x)
		}
		for _, x := range s.Boundps {
			sb.WriteString(" :boundp " + x)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))")
	return sb.String()
}

// slotFun is what a slot function does for the instances of a class.
type slotFun struct {
	kind  byte // r, w, b
	class int
	slot  string
}

// funs lists the slot functions by name.
func (h hierarchy) funs() map[string][]slotFun {
	m := map[string][]slotFun{}
	for i, c := range h {
		for _, s := range c.Slots {
			for _, x := range s.Readers {
				m[x] = append(m[x], slotFun{'r', i, s.Name})
			}
			for _, x := range s.Accs {
				m[x] = append(m[x], slotFun{'r', i, s.Name})
				m["set-"+x] = append(m["set-"+x], slotFun{'w', i, s.Name})
			}
			for _, x := range s.Writers {
				m[x] = append(m[x], slotFun{'w', i, s.Name})
			}
			for _, x := range s.Boundps {
				m[x] = append(m[x], slotFun{'b', i, s.Name})
			}
		}
	}
	return m
}

// slotOf is the slot the function concerns in instances of class c: "" if
// none, and unknown if superclasses that are not related disagree.
func (h hierarchy) slotOf(fs []slotFun, c int) (slot string, unknown bool) {
	var app []slotFun
	for _, f := range fs {
		if h.isSub(c, f.class) {
			app = append(app, f)
		}
	}
	var best []slotFun
	for _, f := range app {
		min := true
		for _, g := range app {
			if g.class != f.class && h.isSub(g.class, f.class) {
				min = false
			}
		}
		if min {
			best = append(best, f)
		}
	}
	for _, f := range best {
		if f.slot != best[0].slot {
			return "", true
		}
	}
	if len(best) == 0 {
		return "", false
	}
	return best[0].slot, false
}

// genHierarchy draws classes whose superclasses have no class in common.
func genHierarchy(t *rapid.T, max int, slots bool) hierarchy {
	var h hierarchy
	n := between(t, 1, max, "classes")
	used := map[string]byte{} // what kind of function a name is
	for i := 0; i < n; i++ {
		var c classDecl
		seen := map[int]bool{}
		if i > 0 && pct(t, 80) {
			for k := pickOf(t, []int{1, 1, 1, 2, 2, 3}, "supers"); k > 0; k-- {
				s := below(t, i, "super")
				if pct(t, 50) {
					s = i - 1
				}
				ok := true
				for _, a := range h.lineage(s) {
					ok = ok && !seen[a]
				}
				if ok {
					for _, a := range h.lineage(s) {
						seen[a] = true
					}
					c.Super = append(c.Super, s)
				}
			}
		}
		if len(c.Super) == 0 && pct(t, 15) {
			c.Extra = pickOf(t, []string{"<object>", "<error>"}, "extra")
		}
		h = append(h, c)
		if !slots {
			continue
		}
		have := map[string]bool{}
		for _, s := range h.slots(i) {
			have[s] = true
		}
		names := []string{"a", "b", "c", "d"}
		for _, name := range names {
			if !pct(t, 45) {
				continue
			}
			s := slotDecl{Name: name}
			if pct(t, 60) {
				s.Initargs = append(s.Initargs, name)
			}
			if pct(t, 20) {
				s.Initargs = append(s.Initargs, fmt.Sprintf("%s-%d", name, i))
			}
			if pct(t, 60) {
				s.Form = between(t, 1, 5, "form")
				if s.Form == formConst {
					d := genHList(t, 1)
					s.Const = &d
				}
			}
			unique := func(k string) string { return fmt.Sprintf("%s-%s-%d", k, name, i) }
			if !have[name] || pct(t, 30) {
				s.Boundps = append(s.Boundps, unique("bound"))
				s.Readers = append(s.Readers, unique("read"))
			}
			add := func(list *[]string, kind byte) {
				x := unique(string(kind))
				switch below(t, 3, "name") {
				case 0: // shared by the slots of the name
					x = string(kind) + "-" + name
				case 1: // shared by all
					x = string(kind) + "-slot"
				}
				if used[x] == 0 || used[x] == kind {
					used[x] = kind
					*list = append(*list, x)
				}
			}
			if pct(t, 30) {
				add(&s.Readers, 'r')
			}
			if pct(t, 40) {
				add(&s.Writers, 'w')
			}
			if pct(t, 50) {
				add(&s.Accs, 'x')
			}
			if pct(t, 20) {
				add(&s.Boundps, 'b')
			}
			h[i].Slots = append(h[i].Slots, s)
		}
		// a function must not concern two slots of one class
		seenFun := map[string]bool{}
		for k := range h[i].Slots {
			s := &h[i].Slots[k]
			for _, l := range []*[]string{&s.Readers, &s.Writers, &s.Accs, &s.Boundps} {
				var keep []string
				for _, x := range *l {
					if !seenFun[x] {
						seenFun[x] = true
						keep = append(keep, x)
					}
				}
				*l = keep
			}
		}
	}
	return h
}

// Obj is an instance in the model.
type Obj struct {
	Class int
	Slot  map[string]V
}

type objOp struct {
	O     string   `json:"o"` // create, call
	Class int      `json:"class,omitempty"`
	Args  []hArg   `json:"args,omitempty"`
	Names []string `json:"names,omitempty"`
	F     string   `json:"f,omitempty"`
	Dst   int      `json:"dst"`
	M     int      `json:"m,omitempty"`
}

type objCase struct {
	H   hierarchy `json:"h"`
	Ops []objOp   `json:"ops"`
}

type objModel struct {
	h      hierarchy
	hm     *hModel
	count  []int
	consts map[string]V
	events []string
}

func newObjModel(h hierarchy) *objModel {
	return &objModel{h: h, hm: newHModel(), count: make([]int, len(h)), consts: map[string]V{}}
}

// initializer is the class whose initialize-object method applies, -1 for the
// default, -2 if that is ambiguous.
func (m *objModel) initializer(c int) int {
	var app []int
	for _, k := range m.h.lineage(c) {
		if m.h[k].Init != "" {
			app = append(app, k)
		}
	}
	best := -1
	for _, k := range app {
		min := true
		for _, j := range app {
			if j != k && m.h.isSub(j, k) {
				min = false
			}
		}
		if min {
			if best >= 0 {
				return -2
			}
			best = k
		}
	}
	return best
}

// apply runs the operation on the model.
func (m *objModel) apply(op objOp) (V, string) {
	vals := make([]V, len(op.Args))
	for i, a := range op.Args {
		vals[i] = m.hm.arg(a)
	}
	arg := func(i int) V { return vals[i] }
	h := m.h
	switch op.O {
	case "create":
		o := &Obj{Class: op.Class, Slot: map[string]V{}}
		lin := h.lineage(op.Class)
		switch k := m.initializer(op.Class); {
		case k == -2:
			return nil, hSkip
		case k >= 0:
			f := h[k].Init
			slot, unknown := h.slotOf(h.funs()[f], op.Class)
			if unknown || slot == "" {
				return nil, hSkip
			}
			var v V = Int(100)
			if len(op.Args) > 0 {
				v = arg(len(op.Args) - 1)
			}
			o.Slot[slot] = v
			m.events = append(m.events, fmt.Sprintf("init-%d=%d", k, 2*len(op.Args)))
			return o, hOK
		}
		for i, n := range op.Names {
			slot := ""
			for _, k := range lin {
				for _, s := range h[k].Slots {
					for _, x := range s.Initargs {
						if x == n && slot == "" {
							slot = s.Name
						}
					}
				}
			}
			if slot == "" {
				continue // ignored
			}
			if _, ok := o.Slot[slot]; ok {
				return nil, hSkip // given twice
			}
			o.Slot[slot] = arg(i)
		}
		done := map[string]bool{}
		counters := map[int]int{}
		reads := map[int]bool{}
		for _, k := range lin {
			for _, s := range h[k].Slots {
				if s.Form == formNone || done[s.Name] {
					continue
				}
				done[s.Name] = true
				if _, ok := o.Slot[s.Name]; ok {
					continue
				}
				switch s.Form {
				case formConst:
					id := fmt.Sprintf("%s-%d", s.Name, k)
					if m.consts[id] == nil {
						m.consts[id] = s.Const.V()
					}
					o.Slot[s.Name] = m.consts[id]
				case formFresh:
					o.Slot[s.Name] = vlist(Int(1), Int(2))
					m.events = append(m.events, fmt.Sprintf("%s-%d=(1 2)", s.Name, k))
				case formCounter:
					counters[k]++
					m.count[k]++
					o.Slot[s.Name] = Int(m.count[k])
				case formNil:
					o.Slot[s.Name] = Nil
				case formVar:
					reads[k] = true
					o.Slot[s.Name] = Int(m.count[k])
				}
			}
		}
		for k, n := range counters {
			if n > 1 || reads[k] {
				return nil, "order" // depends on the order of the initforms
			}
		}
		return o, hOK
	case "call":
		fs := h.funs()[op.F]
		if len(fs) == 0 {
			return nil, hSkip
		}
		kind := fs[0].kind
		ov := arg(len(op.Args) - 1)
		o, ok := ov.(*Obj)
		if !ok {
			return nil, hAny
		}
		slot, unknown := h.slotOf(fs, o.Class)
		if unknown {
			return nil, hSkip
		}
		if slot == "" {
			return nil, hAny
		}
		switch kind {
		case 'r':
			v, ok := o.Slot[slot]
			if !ok {
				return nil, hSkip
			}
			return v, hOK
		case 'b':
			_, ok := o.Slot[slot]
			return boolV(ok), hOK
		default:
			o.Slot[slot] = arg(0)
			return arg(0), hOK
		}
	case "eq":
		return vlist(boolV(vsame(arg(0), arg(1))), boolV(vsame(arg(0), arg(1)))), hOK
	case "set-car":
		p, ok := arg(1).(*Pair)
		if !ok {
			return nil, hSkip
		}
		if reaches(arg(0), func(v V) bool { return v == V(p) }) {
			return nil, hSkip
		}
		p.Car = arg(0)
		return arg(0), hOK
	case "ref":
		return arg(0), hOK
	}
	panic(op.O)
}

func vsame(a, b V) bool {
	if x, ok := a.(*Obj); ok {
		y, ok := b.(*Obj)
		return ok && x == y
	}
	if _, ok := b.(*Obj); ok {
		return false
	}
	return veql(a, b)
}

func (op objOp) text(h hierarchy) string {
	var args []string
	for _, a := range op.Args {
		args = append(args, a.text())
	}
	switch op.O {
	case "create":
		l := []string{"(class " + h.name(op.Class) + ")"}
		for i, n := range op.Names {
			l = append(l, "'"+n, args[i])
		}
		return callArgs("create", l, op.M)
	case "eq":
		return fmt.Sprintf("(list (eq %s %s) (eql %s %s))", args[0], args[1], args[0], args[1])
	case "ref":
		return args[0]
	case "set-car":
		return callArgs("set-car", args, op.M)
	}
	if strings.HasPrefix(op.F, "set-x-") && op.M >= 2 {
		return fmt.Sprintf("(setf (%s %s) %s)", strings.TrimPrefix(op.F, "set-"), args[1], args[0])
	}
	return callArgs(op.F, args, op.M)
}

func genObjCase(t *rapid.T) objCase {
	c := objCase{H: genHierarchy(t, 6, true)}
	h := c.H
	funs := h.funs()
	var names []string
	for n := range funs {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := range h {
		if pct(t, 12) {
			// the writers that are sure to concern a slot of the class
			var w []string
			for _, n := range names {
				if funs[n][0].kind == 'w' {
					if s, u := h.slotOf(funs[n], i); s != "" && !u {
						w = append(w, n)
					}
				}
			}
			if len(w) > 0 {
				h[i].Init = pickOf(t, w, "init")
			}
		}
	}
	m := newObjModel(h)
	m.hm.note["obj"] = 1
	objs := func() []int { return m.hm.slotsWith(func(v V) bool { _, ok := v.(*Obj); return ok }) }
	value := func() hArg {
		switch k := below(t, 10, "value"); {
		case k < 4:
			return hArg{S: 1 + below(t, hSlots, "slot")}
		case k < 8:
			return lit(genHAtom(t))
		}
		return lit(genHList(t, 1))
	}
	object := func() hArg {
		if l := objs(); len(l) > 0 && !pct(t, 4) {
			return hArg{S: 1 + pickOf(t, l, "obj")}
		}
		return value()
	}
	for n := between(t, 3, 25, "ops"); n > 0; n-- {
		op := objOp{Dst: below(t, hSlots, "dst"), M: below(t, 4, "mode")}
		switch k := below(t, 20, "op"); {
		case k < 6 || len(c.Ops) < 2:
			op.O = "create"
			op.Class = len(h) - 1 - min(below(t, len(h), "class"), below(t, len(h), "class"))
			seen := map[string]bool{}
			for _, k := range h.lineage(op.Class) {
				for _, s := range h[k].Slots {
					if len(s.Initargs) > 0 && !seen[s.Name] && pct(t, 40) {
						seen[s.Name] = true
						op.Names = append(op.Names, pickOf(t, s.Initargs, "initarg"))
						op.Args = append(op.Args, value())
					}
				}
			}
			if pct(t, 5) {
				op.Names = append(op.Names, "unknown")
				op.Args = append(op.Args, value())
			}
			// in any order
			for i := len(op.Names) - 1; i > 0; i-- {
				j := below(t, i+1, "perm")
				op.Names[i], op.Names[j] = op.Names[j], op.Names[i]
				op.Args[i], op.Args[j] = op.Args[j], op.Args[i]
			}
		case k < 17:
			if len(names) == 0 {
				continue
			}
			op.O = "call"
			ob := object()
			// prefer functions that apply
			cand := names
			if o, ok := m.hm.arg(ob).(*Obj); ok && !pct(t, 8) {
				cand = nil
				for _, n := range names {
					if s, u := h.slotOf(funs[n], o.Class); s != "" && !u {
						cand = append(cand, n)
						if funs[n][0].kind == 'w' {
							cand = append(cand, n, n)
						}
					}
				}
				if len(cand) == 0 {
					continue
				}
			}
			op.F = pickOf(t, cand, "fun")
			if funs[op.F][0].kind == 'w' {
				op.Args = []hArg{value(), ob}
			} else {
				op.Args = []hArg{ob}
			}
		case k < 18:
			op.O, op.Args = "eq", []hArg{object(), object()}
		case k < 19:
			op.O, op.Args = "set-car", []hArg{value(), {S: 1 + below(t, hSlots, "slot")}}
		default:
			op.O, op.Args = "ref", []hArg{object()}
		}
		v, st := m.apply(op)
		if st == hSkip || st == "order" {
			if st == "order" {
				return c // the counters are not known any more
			}
			continue
		}
		if st == hOK {
			m.hm.slot[op.Dst] = v
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runObjCase(c objCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	h := c.H
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	run := func(text string) error {
		log = append(log, text)
		if _, err := w.Interpret(ctx, text); err != nil {
			return fail("%v", err)
		}
		return nil
	}
	for i := range h {
		if err := run(h.defclass(i)); err != nil {
			return err
		}
	}
	for i, d := range h {
		if d.Init != "" {
			if err := run(fmt.Sprintf("(defmethod initialize-object ((o %s) :rest (r <object>)) (tr 'init-%d (length r)) (%s (if r (car (reverse r)) 100) o) o)", h.name(i), i, d.Init)); err != nil {
				return err
			}
		}
	}
	funs := h.funs()
	m := newObjModel(h)
	vars := gmnlisp.Variables{}
	name := func(i int) gmnlisp.Symbol { return gmnlisp.NewSymbol(fmt.Sprintf("x%d", i)) }
	for i := range m.hm.slot {
		vars[name(i)] = gmnlisp.Null
	}
	lw := w.Let(vars)
	created, calls, inherited := 0, 0, false
	for _, op := range c.Ops {
		nev := len(m.events)
		want, st := m.apply(op)
		if st == hSkip || st == "order" {
			break
		}
		text := op.text(h)
		log = append(log, fmt.Sprintf("x%d <- %s", op.Dst, text))
		got, err := lw.Interpret(ctx, text)
		o.Label("%s", op.O)
		if st != hOK {
			o.Label("refused: %s", op.O)
			if err == nil {
				return fail("expected an error, got %s", show(fromNode(got)))
			}
		} else {
			if err != nil {
				return fail("%v", err)
			}
			m.hm.slot[op.Dst] = want
			vars[name(op.Dst)] = got
			if op.O == "create" {
				created++
				if len(h.lineage(op.Class)) > 1 {
					inherited = true
				}
			} else if op.O == "call" {
				calls++
			}
		}
		ev := append([]string{}, sk.trace...)
		wantEv := append([]string{}, m.events[nev:]...)
		sk.trace = nil
		sort.Strings(ev)
		sort.Strings(wantEv)
		if d := diffSeq(wantEv, ev); d != "" {
			return fail("effects: %s", d)
		}
		b := newBij()
		b.className = h.name
		for i := range m.hm.slot {
			if err := b.same(vars[name(i)], m.hm.slot[i], fmt.Sprintf("x%d", i)); err != nil {
				return fail("%v", err)
			}
		}
		for i := 0; i < len(b.objs); i++ {
			ob := b.objs[i]
			for _, slot := range h.slots(ob.model.Class) {
				wv, bound := ob.model.Slot[slot]
				for f, fs := range funs {
					s, u := h.slotOf(fs, ob.model.Class)
					if u || s != slot || fs[0].kind == 'w' || fs[0].kind == 'r' && !bound {
						continue
					}
					v, err := letVars(w, map[string]gmnlisp.Node{"o": ob.real}).Interpret(ctx, "("+f+" o)")
					path := fmt.Sprintf("(%s %s)", f, ob.path)
					if err != nil {
						return fail("%s: %v", path, err)
					}
					if fs[0].kind == 'b' {
						if show(fromNode(v)) != show(boolV(bound)) {
							return fail("%s: %s, expected %v", path, show(fromNode(v)), bound)
						}
					} else if err := b.same(v, wv, path); err != nil {
						return fail("%v", err)
					}
				}
			}
		}
	}
	if s := out.String(); s != "" {
		return fail("unexpected output %q", s)
	}
	o.Sample(strings.Join(log, "\n"))
	if inherited {
		o.Label("instances of classes with superclasses")
	}
	if created >= 2 && calls >= 2 {
		o.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------------------
// C20

var builtinSupers = map[string][]string{
	"<integer>": {"<number>"}, "<float>": {"<number>"}, "<number>": nil, "<null>": {"<symbol>", "<list>"}, "<symbol>": nil, "<list>": nil, "<cons>": {"<list>"},
	"<string>": nil, "<character>": nil, "<function>": nil, "<hashtable>": nil, "<array>": nil, "<keyword>": nil,
	"<error>": nil, "<arithmetic-error>": {"<error>"}, "<division-by-zero>": {"<arithmetic-error>", "<error>"}, "<program-error>": {"<error>"}, "<domain-error>": {"<program-error>", "<error>"},
	"<undefined-entity>": {"<program-error>", "<error>"}, "<unbound-variable>": {"<undefined-entity>", "<program-error>", "<error>"}, "<undefined-function>": {"<undefined-entity>", "<program-error>", "<error>"},
	"<control-error>": {"<error>"}, "<parse-error>": {"<error>"}, "<stream-error>": {"<error>"}, "<end-of-stream>": {"<stream-error>", "<error>"}, "<storage-exhausted>": {"<error>"}, "<simple-error>": {"<error>"},
	"<object>": nil,
}

// builtinValues are forms with the class of their values ("" for t: only its
// membership in <symbol> is documented).
var builtinValues = []struct{ form, class string }{
	{"5", "<integer>"}, {"-7", "<integer>"}, {"1.5", "<float>"}, {`"str"`, "<string>"}, {`""`, "<string>"}, {`#\a`, "<character>"}, {"'sym", "<symbol>"}, {"nil", "<null>"}, {"'()", "<null>"},
	{"'(1 2)", "<cons>"}, {"(cons 1 2)", "<cons>"}, {"(vector 1 2)", "<array>"}, {"(create-array '(2 2) 0)", "<array>"}, {"#'car", "<function>"}, {"(lambda (x) x)", "<function>"}, {"(make-hash-table)", "<hashtable>"}, {":key", "<keyword>"},
	{"(catch 'c (with-handler (lambda (e) (throw 'c e)) (car 1)))", "<domain-error>"}, {"(catch 'c (with-handler (lambda (e) (throw 'c e)) (/ 1 0)))", "<division-by-zero>"},
	{"(catch 'c (with-handler (lambda (e) (throw 'c e)) no-such-variable))", "<unbound-variable>"}, {"(catch 'c (with-handler (lambda (e) (throw 'c e)) (no-such-function)))", "<undefined-function>"},
	{"(catch 'c (with-handler (lambda (e) (throw 'c e)) (error \"x\")))", "<simple-error>"}, {"(catch 'c (with-handler (lambda (e) (throw 'c e)) (read-char (create-string-input-stream \"\"))))", "<end-of-stream>"},
	{"(catch 'c (with-handler (lambda (e) (throw 'c e)) (parse-number \"xx\")))", "<parse-error>"},
}

func builtinIsSub(a, b string) bool {
	if a == b || b == "<object>" {
		return true
	}
	for _, s := range builtinSupers[a] {
		if builtinIsSub(s, b) {
			return true
		}
	}
	return false
}

var builtinNames = func() (r []string) {
	for n := range builtinSupers {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}()

// cref is a class: user class U-1 or built-in B.
type cref struct {
	U int    `json:"u,omitempty"`
	B string `json:"b,omitempty"`
}

func (h hierarchy) cname(c cref) string {
	if c.U > 0 {
		return h.name(c.U - 1)
	}
	return c.B
}

// sub: a is b or inherits from it.
func (h hierarchy) sub(a, b cref) bool {
	if a.U > 0 && b.U > 0 {
		return h.isSub(a.U-1, b.U-1)
	}
	if b.B == "<object>" && b.U == 0 {
		return true
	}
	if a.U > 0 {
		for _, k := range h.lineage(a.U - 1) {
			if e := h[k].Extra; e != "" && builtinIsSub(e, b.B) {
				return true
			}
		}
		return false
	}
	if b.U > 0 {
		return false
	}
	return builtinIsSub(a.B, b.B)
}

// obj is a value: an instance of user class U-1 or the built-in value V.
type objRef struct {
	U int `json:"u,omitempty"`
	V int `json:"v,omitempty"`
}

func (h hierarchy) objForm(o objRef) string {
	if o.U > 0 {
		return "(create (class " + h.name(o.U-1) + "))"
	}
	return builtinValues[o.V].form
}

func (h hierarchy) objClass(o objRef) cref {
	if o.U > 0 {
		return cref{U: o.U}
	}
	return cref{B: builtinValues[o.V].class}
}

type relCase struct {
	H    hierarchy `json:"h"`
	C    []cref    `json:"c"`
	Objs []objRef  `json:"objs"`
}

func genCref(t *rapid.T, h hierarchy, user int) cref {
	if pct(t, user) {
		return cref{U: 1 + below(t, len(h), "class")}
	}
	return cref{B: pickOf(t, builtinNames, "class")}
}

func genObjRef(t *rapid.T, h hierarchy, user int) objRef {
	if pct(t, user) {
		return objRef{U: 1 + below(t, len(h), "class")}
	}
	return objRef{V: below(t, len(builtinValues), "value")}
}

func genRelCase(t *rapid.T) relCase {
	c := relCase{H: genHierarchy(t, 8, false)}
	for i := between(t, 3, 10, "classes"); i > 0; i-- {
		c.C = append(c.C, genCref(t, c.H, 60))
	}
	for i := between(t, 1, 6, "objects"); i > 0; i-- {
		c.Objs = append(c.Objs, genObjRef(t, c.H, 60))
	}
	return c
}

func runRelCase(c relCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	h := c.H
	var log []string
	for i := range h {
		text := h.defclass(i)
		log = append(log, text)
		if _, err := w.Interpret(ctx, text); err != nil {
			return fmt.Errorf("%s: %v", text, err)
		}
	}
	o.Sample(strings.Join(log, "\n"))
	ask := func(want bool, text string) error {
		v, err := w.Interpret(ctx, text)
		if err != nil {
			return fmt.Errorf("%s: %v\n  after %s", text, err, strings.Join(log, "\n        "))
		}
		if g, w := show(fromNode(v)), show(boolV(want)); g != w {
			return fmt.Errorf("%s: %s, expected %s\n  after %s", text, g, w, strings.Join(log, "\n        "))
		}
		return nil
	}
	deep := false
	for i, a := range c.C {
		for j, b := range c.C {
			text := fmt.Sprintf("(subclassp (class %s) (class %s))", h.cname(a), h.cname(b))
			want := a != b && h.sub(a, b)
			if err := ask(want, text); err != nil {
				return err
			}
			if want && a.U > 0 && b.U > 0 {
				o.Label("subclassp of user classes")
				deep = true
			}
			_, _ = i, j
			if err := ask(a == b, fmt.Sprintf("(eq (class %s) (class %s))", h.cname(a), h.cname(b))); err != nil {
				return err
			}
		}
	}
	for _, x := range c.Objs {
		cls := h.objClass(x)
		if err := ask(true, fmt.Sprintf("(eq (class-of %s) (class %s))", h.objForm(x), h.cname(cls))); err != nil {
			return err
		}
		for _, b := range c.C {
			if err := ask(h.sub(cls, b), fmt.Sprintf("(instancep %s (class %s))", h.objForm(x), h.cname(b))); err != nil {
				return err
			}
			// assure agrees with instancep
			_, err := w.Interpret(ctx, fmt.Sprintf("(assure (class %s) %s)", h.cname(b), h.objForm(x)))
			if (err == nil) != h.sub(cls, b) {
				return fmt.Errorf("(assure (class %s) %s): %v\n  after %s", h.cname(b), h.objForm(x), err, strings.Join(log, "\n        "))
			}
		}
		if x.U > 0 {
			o.Label("instances of user classes")
		}
	}
	if deep {
		o.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------------------

type methodDef struct {
	G     int    `json:"g"`
	Types []cref `json:"types"`
	Rest  *cref  `json:"rest,omitempty"`
}

type genericCase struct {
	H    hierarchy `json:"h"`
	Argc []int     `json:"argc"` // required parameters of the generic functions
	Rest []bool    `json:"rest"`
	Ops  []gOp     `json:"ops"`
}

// gOp defines a method or calls a generic function.
type gOp struct {
	Def  *methodDef `json:"def,omitempty"`
	G    int        `json:"g"`
	Args []objRef   `json:"args,omitempty"`
	M    int        `json:"m,omitempty"`
}

func genGenericCase(t *rapid.T) genericCase {
	c := genericCase{H: genHierarchy(t, 6, false)}
	h := c.H
	for i := between(t, 1, 3, "generics"); i > 0; i-- {
		c.Argc = append(c.Argc, pickOf(t, []int{1, 1, 2, 2, 2, 3}, "argc"))
		c.Rest = append(c.Rest, pct(t, 20))
	}
	var defs []methodDef
	mclass := func() cref {
		if pct(t, 15) {
			return cref{B: "<object>"}
		}
		return genCref(t, h, 65)
	}
	for i := between(t, 3, 22, "ops"); i > 0; i-- {
		g := below(t, len(c.Argc), "g")
		if len(defs) < 2 || pct(t, 40) {
			d := methodDef{G: g}
			for k := 0; k < c.Argc[g]; k++ {
				d.Types = append(d.Types, mclass())
			}
			if c.Rest[g] {
				r := mclass()
				if pct(t, 60) {
					r = cref{B: "<object>"}
				}
				d.Rest = &r
			}
			if len(defs) > 0 && pct(t, 50) {
				// like another, more or less specific somewhere, or the same
				e := pickOf(t, defs, "like")
				d = methodDef{G: e.G, Types: append([]cref{}, e.Types...), Rest: e.Rest}
				if k := below(t, len(d.Types)+1, "at"); k < len(d.Types) {
					if u := d.Types[k].U; u > 0 && pct(t, 80) {
						if l := h.lineage(u - 1); len(l) > 1 && pct(t, 60) {
							d.Types[k] = cref{U: 1 + l[between(t, 1, len(l)-1, "up")]}
						} else {
							d.Types[k] = cref{U: 1 + below(t, len(h), "class")}
						}
					} else {
						d.Types[k] = mclass()
					}
				}
			}
			defs = append(defs, d)
			c.Ops = append(c.Ops, gOp{Def: &d, G: d.G})
			continue
		}
		if pct(t, 70) {
			g = pickOf(t, defs, "d").G
		}
		op := gOp{G: g, M: below(t, 4, "mode")}
		n := c.Argc[g]
		if c.Rest[g] {
			n += below(t, 3, "rest")
		}
		if pct(t, 4) {
			n = below(t, 4, "wrong")
		}
		for k := 0; k < n; k++ {
			x := genObjRef(t, h, 65)
			// a value some method accepts there
			if pct(t, 80) {
				d := pickOf(t, defs, "d")
				if d.G == g && k < len(d.Types) {
					var fit []objRef
					for i := range h {
						if h.sub(cref{U: i + 1}, d.Types[k]) {
							fit = append(fit, objRef{U: i + 1})
						}
					}
					for i := range builtinValues {
						if h.sub(h.objClass(objRef{V: i}), d.Types[k]) {
							fit = append(fit, objRef{V: i})
						}
					}
					if len(fit) > 0 {
						x = pickOf(t, fit, "fit")
					}
				}
			}
			op.Args = append(op.Args, x)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runGenericCase(c genericCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	h := c.H
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	run := func(text string) error {
		log = append(log, text)
		if _, err := w.Interpret(ctx, text); err != nil {
			return fail("%v", err)
		}
		return nil
	}
	for i := range h {
		if err := run(h.defclass(i)); err != nil {
			return err
		}
	}
	for g, n := range c.Argc {
		var ps []string
		for k := 0; k < n; k++ {
			ps = append(ps, fmt.Sprintf("p%d", k))
		}
		if c.Rest[g] {
			ps = append(ps, []string{":rest", "&rest"}[g%2], "r")
		}
		if err := run(fmt.Sprintf("(defgeneric g%d (%s))", g, strings.Join(ps, " "))); err != nil {
			return err
		}
		if err := func() error {
			v, err := w.Interpret(ctx, fmt.Sprintf("(list (generic-function-p #'g%d) (generic-function-p #'car))", g))
			if err != nil || show(fromNode(v)) != "(t nil)" {
				return fail("generic-function-p: %v %v", v, err)
			}
			return nil
		}(); err != nil {
			return err
		}
	}
	type live struct {
		methodDef
		id int
	}
	methods := make([][]live, len(c.Argc))
	classAt := func(m live, i int) cref {
		if i < len(m.Types) {
			return m.Types[i]
		}
		return *m.Rest
	}
	calls, chosen, competing := 0, 0, 0
	for id, op := range c.Ops {
		if d := op.Def; d != nil {
			var ps, names []string
			for k, ty := range d.Types {
				ps = append(ps, fmt.Sprintf("(p%d %s)", k, h.cname(ty)))
				names = append(names, fmt.Sprintf("p%d", k))
			}
			if d.Rest != nil {
				ps = append(ps, []string{"&rest", ":rest"}[id%2], "(r "+h.cname(*d.Rest)+")")
				names = append(names, "r")
			}
			// the variables around the definition belong to the body
			text := fmt.Sprintf("(let ((here %d) (count 0)) (defmethod g%d (%s) (setq count (+ count 1)) (tr 'ran (list here count)) (list here %s)))", id, d.G, strings.Join(ps, " "), strings.Join(names, " "))
			if err := run(text); err != nil {
				return err
			}
			var keep []live
			for _, m := range methods[d.G] {
				same := (m.Rest == nil) == (d.Rest == nil)
				for k := range m.Types {
					same = same && m.Types[k] == d.Types[k]
				}
				if m.Rest != nil && d.Rest != nil {
					same = same && *m.Rest == *d.Rest
				}
				if !same {
					keep = append(keep, m)
				}
			}
			methods[d.G] = append(keep, live{*d, id})
			continue
		}
		// which method applies?
		var app []live
		for _, m := range methods[op.G] {
			ok := len(op.Args) == len(m.Types) || m.Rest != nil && len(op.Args) > len(m.Types)
			for k, a := range op.Args {
				ok = ok && h.sub(h.objClass(a), classAt(m, k))
			}
			if ok {
				app = append(app, m)
			}
		}
		var best *live
		unknown := false
		for i := range app {
			b := &app[i]
			for j := range app {
				if i == j || b == nil {
					continue
				}
				for k := range op.Args {
					x, y := classAt(app[i], k), classAt(app[j], k)
					if x == y {
						if k == len(op.Args)-1 {
							unknown = true // they differ only where there is no argument
						}
						continue
					}
					if !h.sub(x, y) {
						b = nil
						if !h.sub(y, x) {
							unknown = true
						}
					}
					break
				}
				if len(op.Args) == 0 {
					unknown = true
				}
			}
			if b != nil {
				best = b
			}
		}
		if unknown {
			o.Label("no unique method")
			continue
		}
		calls++
		var forms, names []string
		vars := map[string]gmnlisp.Node{}
		for k, a := range op.Args {
			v, err := w.Interpret(ctx, h.objForm(a))
			if err != nil {
				return fail("%s: %v", h.objForm(a), err)
			}
			vars[fmt.Sprintf("x%d", k)] = v
			names = append(names, fmt.Sprintf("x%d", k))
			forms = append(forms, h.objForm(a))
		}
		text := "(let ((here 'caller) (count 100)) " + callArgs(fmt.Sprintf("g%d", op.G), names, op.M) + ")"
		log = append(log, text+" with "+strings.Join(forms, " , "))
		n := len(sk.trace)
		got, err := letVars(w, vars).Interpret(ctx, text)
		ran := sk.trace[n:]
		if best == nil {
			o.Label("no applicable method")
			if err == nil {
				return fail("expected an error, got %s", show(fromNode(got)))
			}
			if len(ran) > 0 {
				return fail("no method applies, but %v ran", ran)
			}
			continue
		}
		chosen++
		if len(app) > 1 {
			competing++
			o.Label("several applicable methods")
		}
		if err != nil {
			return fail("%v, expected method %d", err, best.id)
		}
		if len(ran) != 1 || !strings.HasPrefix(ran[0], fmt.Sprintf("ran=(%d ", best.id)) {
			return fail("%v ran, expected method %d", ran, best.id)
		}
		want := []gmnlisp.Node{gmnlisp.Integer(best.id)}
		for k := range op.Args {
			want = append(want, vars[fmt.Sprintf("x%d", k)])
		}
		l := got
		take := func() gmnlisp.Node {
			p, ok := l.(*gmnlisp.Cons)
			if !ok {
				return nil
			}
			l = p.Cdr
			return p.Car
		}
		for k, wn := range want {
			if best.Rest != nil && k == len(best.Types)+1 {
				l = take()
			}
			g := take()
			if g == nil || !g.Equals(wn, gmnlisp.STRICT) {
				return fail("value %s: element %d is not what was passed", show(fromNode(got)), k)
			}
		}
		if best.Rest != nil && len(want) == len(best.Types)+1 {
			l = take()
		}
		if l != nil && gmnlisp.IsSome(l) {
			return fail("value %s is too long", show(fromNode(got)))
		}
	}
	if s := out.String(); s != "" {
		return fail("unexpected output %q", s)
	}
	o.Sample(strings.Join(log, "\n"))
	if competing > 0 {
		o.NonTrivial()
	}
	return nil
}

func initObjProps() {
	reg("C19", "object-history", 12000, 400000, "at least two instances were created and two slot functions called", genObjCase, runObjCase)
	reg("C20", "relations", 6000, 200000, "one user class inherits from another", genRelCase, runRelCase)
	reg("C20", "dispatch", 20000, 600000, "a call with several applicable methods", genGenericCase, runGenericCase)
}
