package main

// C16 strings and characters.

import (
	"context"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// strOp is an operation on the string variables x0…x3.
type strOp struct {
	O   string `json:"o"`
	S   []int  `json:"s,omitempty"` // string variables
	N   []int  `json:"n,omitempty"` // numbers
	C   string `json:"c,omitempty"` // a character
	Dst int    `json:"dst"`
	M   int    `json:"m,omitempty"`
}

type strCase struct {
	Init []string `json:"init"`
	Ops  []strOp  `json:"ops"`
}

const hAbsent = "absent" // an error or nil

const strSlots = 4

var strOps = []string{"length", "elt", "elt", "subseq", "subseq", "string-append", "string-append", "create-string", "char-index", "char-index", "string-index", "string-index", "string-index",
	"compare", "compare", "char-compare", "setf elt", "set-elt", "setf subseq", "to list", "to vector", "rebuild", "rebuild vector", "stringp", "equal", "char code", "to symbol", "output", "substring index", "input"}

// genShortStr draws from few characters so that parts of strings are equal.
func genShortStr(t *rapid.T, max int) string {
	var sb strings.Builder
	alpha := []rune("aabbAé漢😀あ\u0301\"\\ \u00ff\u0100\uffff\U00010000")
	if pct(t, 30) {
		alpha = []rune("aé漢😀")
	}
	for n := below(t, max+1, "len"); n > 0; n-- {
		if pct(t, 6) {
			sb.WriteRune(genRune(t, true))
		} else {
			sb.WriteRune(pickOf(t, alpha, "r"))
		}
	}
	return sb.String()
}

func genStrCase(t *rapid.T) strCase {
	var c strCase
	for i := 0; i < strSlots; i++ {
		s := genShortStr(t, 8)
		if i > 0 && pct(t, 40) {
			// related to an earlier one
			r := []rune(c.Init[below(t, i, "base")])
			switch below(t, 4, "rel") {
			case 0:
				s = string(r)
			case 1:
				a := below(t, len(r)+1, "a")
				s = string(r[a:between(t, a, len(r), "b")])
			case 2:
				s = string(r) + s
			case 3:
				if len(r) > 0 {
					r[below(t, len(r), "at")]++
				}
				s = string(r)
			}
		}
		c.Init = append(c.Init, s)
	}
	m := make([][]rune, strSlots)
	for i, s := range c.Init {
		m[i] = []rune(s)
	}
	for n := between(t, 1, 12, "ops"); n > 0; n-- {
		op := strOp{O: pickOf(t, strOps, "op"), Dst: below(t, strSlots, "dst"), M: below(t, 4, "mode")}
		for i := 0; i < 3; i++ {
			op.S = append(op.S, below(t, strSlots, "s"))
		}
		r := m[op.S[0]]
		a := below(t, len(r)+1, "a")
		b := between(t, a, len(r), "b")
		if pct(t, 8) {
			a = pickOf(t, []int{-1, len(r), len(r) + 1, len(r) + 5, -100}, "a")
		}
		op.N = []int{a, b, below(t, 4, "k")}
		ch := genRune(t, true)
		if len(r) > 0 && pct(t, 60) {
			ch = r[below(t, len(r), "ch")]
		}
		op.C = string(ch)
		// follow the model so that later operations see the right lengths
		v, _, _ := strModel(op, m)
		if s, ok := v.(Str); ok && len(s) < 200 {
			m[op.Dst] = []rune(string(s))
		} else if ok {
			continue
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func indexRunes(r, sub []rune) int {
	for i := 0; i+len(sub) <= len(r); i++ {
		ok := true
		for k := range sub {
			if r[i+k] != sub[k] {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func cmpRunes(a, b []rune) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func charList(r []rune) V {
	var l []V
	for _, c := range r {
		l = append(l, Chr(c))
	}
	return vlist(l...)
}

// strModel returns the value (nil: not specified), how the operation changes
// variables, and the status.
func strModel(op strOp, m [][]rune) (v V, set map[int][]rune, status string) {
	r, q := m[op.S[0]], m[op.S[1]]
	a, b := op.N[0], op.N[1]
	ch := []rune(op.C)[0]
	inside := a >= 0 && a < len(r)
	okRange := a >= 0 && a <= b && b <= len(r)
	index := func(sub []rune) (V, map[int][]rune, string) {
		start := 0
		if op.N[2] > 0 {
			start = a
		}
		if start < 0 {
			return nil, nil, hSkip // refused or not is not specified
		}
		if start > len(r) {
			return Nil, nil, hOK
		}
		if i := indexRunes(r[start:], sub); i >= 0 {
			return Int(start + i), nil, hOK
		}
		return Nil, nil, hOK
	}
	switch op.O {
	case "length":
		return Int(len(r)), nil, hOK
	case "elt":
		if a < 0 {
			return nil, nil, hAny
		}
		if !inside {
			return nil, nil, hAbsent
		}
		return Chr(r[a]), nil, hOK
	case "subseq":
		if !okRange {
			return nil, nil, hSkip
		}
		return Str(r[a:b]), nil, hOK
	case "string-append":
		var s []rune
		for _, i := range op.S[:op.N[2]] {
			s = append(s, m[i]...)
		}
		return Str(s), nil, hOK
	case "create-string":
		if a < 0 {
			return nil, nil, hDomain
		}
		c := ch
		if op.N[2] == 0 {
			c = ' '
		}
		return Str(strings.Repeat(string(c), a)), nil, hOK
	case "char-index":
		return index([]rune{ch})
	case "string-index", "substring index":
		return index(q)
	case "compare":
		n := cmpRunes(r, q)
		return vlist(boolV(n == 0), boolV(n != 0), boolV(n < 0), boolV(n > 0), boolV(n <= 0), boolV(n >= 0)), nil, hOK
	case "char-compare":
		if len(q) == 0 {
			return nil, nil, hSkip
		}
		n := int(ch) - int(q[0])
		return vlist(boolV(n == 0), boolV(n != 0), boolV(n < 0), boolV(n > 0), boolV(n <= 0), boolV(n >= 0)), nil, hOK
	case "setf elt", "set-elt":
		if a < 0 || a >= len(r) {
			return nil, nil, hAny
		}
		s := append([]rune{}, r...)
		s[a] = ch
		return Chr(ch), map[int][]rune{op.S[0]: s}, hOK
	case "setf subseq":
		if !okRange || len(q) != b-a {
			return nil, nil, hSkip
		}
		s := append([]rune{}, r[:a]...)
		s = append(append(s, q...), r[b:]...)
		return Str(q), map[int][]rune{op.S[0]: s}, hOK
	case "to list":
		return charList(r), nil, hOK
	case "to vector":
		l, _ := vslice(charList(r))
		return &Arr{Dims: []int{len(r)}, El: l}, nil, hOK
	case "rebuild", "rebuild vector", "output", "input":
		return Str(r), nil, hOK
	case "stringp":
		return vlist(Tru, Nil, Nil, Tru, Nil), nil, hOK
	case "equal":
		e := boolV(cmpRunes(r, q) == 0)
		return vlist(e, e), nil, hOK
	case "char code":
		return vlist(Int(ch), Chr(ch)), nil, hOK
	case "to symbol":
		if s := string(r); s == "nil" || s == "t" || s == "" {
			return nil, nil, hSkip
		}
		return Str(r), nil, hOK
	}
	panic(op.O)
}

func strText(op strOp) string {
	x := func(i int) string { return fmt.Sprintf("x%d", op.S[i]) }
	n := func(i int) string { return fmt.Sprint(op.N[i]) }
	ch := chrSrc([]rune(op.C)[0])
	opt := func(l ...string) []string {
		if op.N[2] > 0 {
			l = append(l, n(0))
		}
		return l
	}
	six := func(p, a, b string) string {
		var l []string
		for _, o := range []string{"=", "/=", "<", ">", "<=", ">="} {
			l = append(l, callArgs(p+o, []string{a, b}, op.M))
		}
		return "(list " + strings.Join(l, " ") + ")"
	}
	switch op.O {
	case "length":
		return callArgs("length", []string{x(0)}, op.M)
	case "elt":
		return callArgs("elt", []string{x(0), n(0)}, op.M)
	case "subseq":
		return callArgs("subseq", []string{x(0), n(0), n(1)}, op.M)
	case "string-append":
		var l []string
		for i := range op.S[:op.N[2]] {
			l = append(l, x(i))
		}
		return callArgs("string-append", l, op.M)
	case "create-string":
		if op.N[2] == 0 {
			return callArgs("create-string", []string{n(0)}, op.M)
		}
		return callArgs("create-string", []string{n(0), ch}, op.M)
	case "char-index":
		return callArgs("char-index", opt(ch, x(0)), op.M)
	case "string-index":
		return callArgs("string-index", opt(x(1), x(0)), op.M)
	case "substring index":
		return callArgs("string-index", opt("(string-append "+x(1)+")", x(0)), op.M)
	case "compare":
		return six("string", x(0), x(1))
	case "char-compare":
		return six("char", ch, "(elt "+x(1)+" 0)")
	case "setf elt":
		return fmt.Sprintf("(setf (elt %s %s) %s)", x(0), n(0), ch)
	case "set-elt":
		return fmt.Sprintf("(set-elt %s %s %s)", ch, x(0), n(0))
	case "setf subseq":
		return fmt.Sprintf("(setf (subseq %s %s %s) %s)", x(0), n(0), n(1), x(1))
	case "to list":
		return fmt.Sprintf("(convert %s <list>)", x(0))
	case "to vector":
		return fmt.Sprintf("(convert %s <general-vector>)", x(0))
	case "rebuild":
		return fmt.Sprintf("(apply #'string-append (mapcar (lambda (c) (create-string 1 c)) (convert %s <list>)))", x(0))
	case "rebuild vector":
		return fmt.Sprintf(`(let ((s "") (v (convert %s <general-vector>))) (dotimes (i (length (convert v <list>))) (setq s (string-append s (create-string 1 (aref v i))))) s)`, x(0))
	case "stringp":
		return fmt.Sprintf("(list (stringp %s) (stringp %s) (characterp %s) (characterp %s) (symbolp %s))", x(0), ch, x(0), ch, x(0))
	case "equal":
		return fmt.Sprintf("(list (equal %s %s) (eql %s %s))", x(0), x(1), x(0), x(1))
	case "char code":
		return fmt.Sprintf("(list (convert %s <integer>) (convert (convert %s <integer>) <character>))", ch, ch)
	case "to symbol":
		return fmt.Sprintf("(convert (convert %s <symbol>) <string>)", x(0))
	case "output":
		return fmt.Sprintf(`(let ((o (create-string-output-stream)) (s %s)) (dotimes (i (length s)) (format-char o (elt s i))) (get-output-stream-string o))`, x(0))
	case "input":
		return fmt.Sprintf(`(let ((i (create-string-input-stream %s)) (s "") c) (while (setq c (read-char i nil nil)) (setq s (string-append s (create-string 1 c)))) s)`, x(0))
	}
	panic(op.O)
}

func runStrCase(c strCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	m := make([][]rune, strSlots)
	vars := gmnlisp.Variables{}
	name := func(i int) gmnlisp.Symbol { return gmnlisp.NewSymbol(fmt.Sprintf("x%d", i)) }
	var log []string
	wide := false
	for i, s := range c.Init {
		m[i] = []rune(s)
		vars[name(i)] = gmnlisp.String(s)
		log = append(log, fmt.Sprintf("x%d = %q", i, s))
		wide = wide || len(m[i]) != len(s)
	}
	lw := w.Let(vars)
	done := 0
	for _, op := range c.Ops {
		want, set, st := strModel(op, m)
		if st == hSkip {
			continue
		}
		text := strText(op)
		log = append(log, fmt.Sprintf("x%d <- %s", op.Dst, text))
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
		}
		got, err := lw.Interpret(ctx, text)
		o.Label("%s", op.O)
		done++
		if st == hAbsent {
			o.Label("outside: %s", op.O)
			if err == nil && gmnlisp.IsSome(got) {
				return fail("got %s, expected an error or nil", show(fromNode(got)))
			}
		} else if st != hOK {
			o.Label("refused: %s", op.O)
			if err == nil {
				return fail("expected an error, got %s", show(fromNode(got)))
			}
			if cls, _ := errClass(err); st == hDomain && cls != hDomain {
				return fail("expected a domain error, got %v", err)
			}
		} else {
			if err != nil {
				return fail("%v, expected %s", err, show(want))
			}
			if g := show(fromNode(got)); g != show(want) {
				return fail("got %s, expected %s", g, show(want))
			}
			for i, r := range set {
				m[i] = r
			}
			if s, ok := want.(Str); ok {
				m[op.Dst] = []rune(string(s))
				vars[name(op.Dst)] = got
			}
		}
		for i := range m {
			v, err := lw.Interpret(ctx, fmt.Sprintf("x%d", i))
			if err != nil {
				return fail("%v", err)
			}
			if g, w := show(fromNode(v)), show(Str(m[i])); g != w {
				return fail("x%d is %s, expected %s", i, g, w)
			}
		}
	}
	if s := out.String(); s != "" {
		return fmt.Errorf("unexpected output %q", s)
	}
	o.Sample(strings.Join(log, "\n"))
	if wide {
		o.Label("multi-byte characters")
	}
	if done >= 2 && wide {
		o.NonTrivial()
	}
	return nil
}

func initStrProps() {
	reg("C16", "string-history", 40000, 1200000, "at least two operations, and strings with multi-byte characters", genStrCase, runStrCase)
}
