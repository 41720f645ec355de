package main

// C11 arithmetic, C12 comparisons and predicates.

import (
	"context"
	"fmt"
	"math"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type numCase struct {
	Op   string `json:"op"`
	Args []D    `json:"args"`
	Mode int    `json:"mode"`
}

// callText is the call of op on the variables x0 x1 ...
func callText(op string, n, mode int) string {
	var vs []string
	for i := 0; i < n; i++ {
		vs = append(vs, fmt.Sprintf("x%d", i))
	}
	return callArgs(op, vs, mode)
}

// callArgs is a call of the function in one of several ways.
func callArgs(op string, vs []string, mode int) string {
	n := len(vs)
	a := strings.Join(vs, " ")
	switch mode {
	case 1:
		return fmt.Sprintf("(funcall #'%s %s)", op, a)
	case 2:
		return fmt.Sprintf("(apply #'%s (list %s))", op, a)
	case 3:
		return fmt.Sprintf("((lambda (&rest r) (apply #'%s r)) %s)", op, a)
	case 4:
		if n > 0 {
			return fmt.Sprintf("(car (mapcar #'%s (list %s)))", op, strings.Join(vs, ") (list "))
		}
	case 5:
		if n > 0 {
			return fmt.Sprintf("(let ((f #'%s) (first %s)) (funcall f first %s))", op, vs[0], strings.Join(vs[1:], " "))
		}
	}
	return fmt.Sprintf("(%s %s)", op, a)
}

// bindArgs makes a world whose variables x0 x1 ... hold the arguments.
func bindArgs(ctx context.Context, w *gmnlisp.World, args []D) *gmnlisp.World {
	m := map[string]gmnlisp.Node{}
	for i, a := range args {
		m[fmt.Sprintf("x%d", i)] = a.Node(ctx, w)
	}
	return letVars(w, m)
}

// argsUnchanged looks whether the variables still show what they were given.
func argsUnchanged(ctx context.Context, w *gmnlisp.World, args []D) error {
	for i, a := range args {
		v, err := w.Interpret(ctx, fmt.Sprintf("x%d", i))
		if err != nil {
			return err
		}
		if got, want := show(fromNode(v)), show(a.V()); got != want {
			return fmt.Errorf("argument %d was %s and is now %s", i, want, got)
		}
	}
	return nil
}

func (d D) isNum() bool { return d.K == "i" || d.K == "f" }

func toF(v V) float64 {
	switch x := v.(type) {
	case Int:
		return float64(x)
	case Flt:
		return float64(x)
	}
	panic("toF")
}

// arith2 is one step of the fold of + - * /.
func arith2(op string, a, b V) (V, bool) {
	x, xi := a.(Int)
	y, yi := b.(Int)
	if xi && yi {
		switch op {
		case "+":
			return Int(int64(uint64(x) + uint64(y))), true
		case "-":
			return Int(int64(uint64(x) - uint64(y))), true
		case "*":
			return Int(int64(uint64(x) * uint64(y))), true
		default:
			if y == 0 {
				return nil, false
			}
			if y == -1 {
				return Int(-x), true
			}
			q := int64(x) / int64(y)
			return Int(q), true
		}
	}
	f, g := toF(a), toF(b)
	switch op {
	case "+":
		return Flt(f + g), true
	case "-":
		return Flt(f - g), true
	case "*":
		return Flt(f * g), true
	}
	if g == 0 {
		return nil, false
	}
	return Flt(f / g), true
}

func floorDivRem(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r != 0 && (r < 0) != (b < 0) {
		q--
		r += b
	}
	return
}

// numModel returns the value, or the error: "zero", "dom" (an operand is no number).
func numModel(c numCase) (V, string, []string) {
	var vs []V
	var bad []string
	for _, a := range c.Args {
		if !a.isNum() {
			bad = append(bad, show(a.V()))
		}
		vs = append(vs, a.V())
	}
	if len(bad) > 0 {
		return nil, "dom", bad
	}
	switch c.Op {
	case "+", "-", "*", "/":
		if len(vs) == 0 {
			if c.Op == "+" {
				return Int(0), "", nil
			}
			return Int(1), "", nil
		}
		if len(vs) == 1 {
			if c.Op == "-" {
				if x, ok := vs[0].(Int); ok {
					return Int(-x), "", nil
				}
				return Flt(-vs[0].(Flt)), "", nil
			}
			return vs[0], "", nil
		}
		acc := vs[0]
		for _, v := range vs[1:] {
			var ok bool
			if acc, ok = arith2(c.Op, acc, v); !ok {
				return nil, "zero", nil
			}
		}
		return acc, "", nil
	case "1+":
		v, _ := arith2("+", vs[0], Int(1))
		return v, "", nil
	case "1-":
		v, _ := arith2("-", vs[0], Int(1))
		return v, "", nil
	case "mod", "rem":
		x, xi := vs[0].(Int)
		y, yi := vs[1].(Int)
		if xi && yi {
			if y == 0 {
				return nil, "zero", nil
			}
			if y == -1 {
				return Int(0), "", nil
			}
			if c.Op == "rem" {
				return Int(int64(x) % int64(y)), "", nil
			}
			_, r := floorDivRem(int64(x), int64(y))
			return Int(r), "", nil
		}
		f, g := toF(vs[0]), toF(vs[1])
		if g == 0 {
			return nil, "zero", nil
		}
		r := math.Mod(f, g)
		if c.Op == "mod" && r != 0 && (r < 0) != (g < 0) {
			r += g
		}
		return Flt(r), "", nil
	case "floor", "ceiling", "truncate", "round":
		if x, ok := vs[0].(Int); ok {
			return x, "", nil
		}
		f := float64(vs[0].(Flt))
		switch c.Op {
		case "floor":
			f = math.Floor(f)
		case "ceiling":
			f = math.Ceil(f)
		case "truncate":
			f = math.Trunc(f)
		default:
			f = math.RoundToEven(f)
		}
		if f >= 1<<63 || f < -(1<<63) {
			return nil, "dom", []string{show(vs[0])} // no integer of the implementation
		}
		return Int(int64(f)), "", nil
	case "max", "min":
		acc := vs[0]
		for _, v := range vs[1:] {
			if c.Op == "max" && numCmp(v, acc) > 0 || c.Op == "min" && numCmp(v, acc) < 0 {
				acc = v
			}
		}
		return acc, "", nil
	case "sqrt":
		return Flt(math.Sqrt(float64(vs[0].(Flt)))), "", nil
	}
	panic(c.Op)
}

// numCmp compares mathematically.
func numCmp(a, b V) int {
	x, xi := a.(Int)
	y, yi := b.(Int)
	if xi && yi {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	f, g := toF(a), toF(b)
	switch {
	case f < g:
		return -1
	case f > g:
		return 1
	}
	return 0
}

func sameNum(a, b V) bool {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		return ok && x == y
	case Flt:
		y, ok := b.(Flt)
		return ok && (x == y || x != x && y != y)
	}
	return false
}

func genNum(t *rapid.T, exact bool) D {
	if pct(t, 60) {
		n := genInt(t)
		if exact && (n > 1<<53 || n < -(1<<53)) {
			n %= 1 << 53
		}
		return dInt(n)
	}
	return dFlt(genFloat(t))
}

// genNonNum: what is no number.
func genNonNum(t *rapid.T) D {
	for {
		d := genData(t, dataCfg{depth: 1, noFloat: true, arrays: true})
		if !d.isNum() && d.K != "s" && d.K != "c" { // + and < take strings and characters, too
			return d
		}
	}
}

func genArith(t *rapid.T) numCase {
	c := numCase{Op: pickOf(t, []string{"+", "-", "*", "/", "+", "-", "*", "/", "mod", "rem", "mod", "rem", "floor", "ceiling", "truncate", "round", "1+", "1-", "max", "min", "sqrt"}, "op"), Mode: below(t, 6, "mode")}
	n := 1
	switch c.Op {
	case "+", "*":
		n = below(t, 6, "n")
	case "-":
		n = between(t, 1, 5, "n")
	case "max", "min":
		n = between(t, 2, 5, "n")
	case "/":
		n = between(t, 2, 4, "n")
	case "mod", "rem":
		n = 2
	}
	kind := below(t, 4, "kind") // all integers, all floats, mixed
	for i := 0; i < n; i++ {
		var d D
		switch kind {
		case 0, 1:
			d = dInt(genInt(t))
		case 2:
			d = dFlt(genFloat(t))
		default:
			d = genNum(t, true)
		}
		if c.Op == "sqrt" {
			d = dFlt(math.Abs(genFloat(t)))
		}
		if (c.Op == "/" || c.Op == "mod" || c.Op == "rem") && i > 0 && pct(t, 12) {
			d = pickOf(t, []D{dInt(0), dFlt(0), dFlt(math.Copysign(0, -1))}, "zero")
		}
		c.Args = append(c.Args, d)
	}
	if c.Op == "round" && pct(t, 50) {
		c.Args[0] = dFlt(float64(between(t, -21, 21, "half")) + 0.5)
	}
	if len(c.Args) > 0 && c.Op != "sqrt" && pct(t, 10) {
		c.Args[below(t, len(c.Args), "bad")] = genNonNum(t)
	}
	return c
}

func hasFloat(args []D) bool {
	for _, a := range args {
		if a.K == "f" {
			return true
		}
	}
	return false
}

// quietValue: the text, which has a value, has the same one under a handler,
// and the handler is not called.
func quietValue(ctx context.Context, lw *gmnlisp.World, text, want string) error {
	sk := &sink{}
	saved := curSink
	curSink = sk
	v, err := lw.Interpret(ctx, "(block qb (with-handler (lambda (c) (trh 1 c) (return-from qb (list 'handler-called c))) "+text+"))")
	curSink = saved
	if len(sk.htrace) > 0 {
		return fmt.Errorf("%s calls the handler for %s, but has the value %s", text, sk.htrace[0], want)
	}
	if out := toOutcome(v, err); out.Err != nil || out.Value != want {
		return fmt.Errorf("%s with a handler: %v, without one %s", text, out, want)
	}
	return nil
}

func checkArith(c numCase, o *Obs) error {
	want, werr, bad := numModel(c)
	if (c.Op == "max" || c.Op == "min") && (werr == "dom" || hasFloat(c.Args) && hasBig(c.Args)) {
		// comparisons of integers beyond 2^53 with floats are not covered
		if werr != "dom" {
			return nil
		}
	}
	ctx := context.Background()
	w, _ := newWorld()
	lw := bindArgs(ctx, w, c.Args)
	text := callText(c.Op, len(c.Args), c.Mode)
	o.Sample(c.Op + " " + dShows(c.Args))
	o.Label("op %s", c.Op)
	v, err := lw.Interpret(ctx, text)
	out := toOutcome(v, err)
	desc := fmt.Sprintf("%s with %s", text, dShows(c.Args))
	switch werr {
	case "dom":
		o.NonTrivial()
		o.Label("not a number")
		if err == nil {
			return fmt.Errorf("%s: value %s, expected a domain error", desc, out.Value)
		}
		if out.Class == "<division-by-zero>" && (c.Op == "/" || c.Op == "mod" || c.Op == "rem") {
			break
		}
		if out.Class != "<domain-error>" || !contains(bad, out.Dom) {
			return fmt.Errorf("%s: %v (object %s), expected a domain error of one of %v", desc, out, out.Dom, bad)
		}
	case "zero":
		o.NonTrivial()
		o.Label("zero divisor")
		if out.Class != "<division-by-zero>" {
			return fmt.Errorf("%s: %v, expected <division-by-zero>", desc, out)
		}
		// the condition a handler sees carries the operands
		hv, herr := lw.Interpret(ctx, "(block b (with-handler (lambda (c) (return-from b (list (class-of c) (instancep c (class <arithmetic-error>)) (arithmetic-error-operands c)))) "+text+"))")
		if herr != nil {
			return fmt.Errorf("%s with a handler: %v", desc, herr)
		}
		l, ok := vslice(fromNode(hv))
		if !ok || len(l) != 3 || show(l[1]) != "t" {
			return fmt.Errorf("%s: the handler saw %s", desc, show(fromNode(hv)))
		}
		ops, ok := vslice(l[2])
		if !ok || len(ops) != 2 || toFOr(ops[1], 1) != 0 {
			return fmt.Errorf("%s: operands of the condition are %s", desc, show(l[2]))
		}
		if len(c.Args) == 2 && (show(ops[0]) != show(c.Args[0].V()) || show(ops[1]) != show(c.Args[1].V())) {
			return fmt.Errorf("%s: operands of the condition are %s", desc, show(l[2]))
		}
	default:
		if err != nil {
			return fmt.Errorf("%s: %v, expected %s", desc, out, show(want))
		}
		if err := quietValue(ctx, lw, text, out.Value); err != nil {
			return fmt.Errorf("%s: %w", desc, err)
		}
		got := fromNode(v)
		ok := sameNum(got, want)
		if c.Op == "max" || c.Op == "min" {
			// equal operands of different types: either
			ok = (isNumV(got) && numCmp(got, want) == 0)
			found := false
			for _, a := range c.Args {
				found = found || sameNum(a.V(), got)
			}
			ok = ok && found
		}
		if !ok {
			return fmt.Errorf("%s: %s, expected %s", desc, show(got), show(want))
		}
		if len(c.Args) > 1 || c.Args != nil && len(c.Args) == 1 && (c.Args[0].K == "f" || c.Args[0].I < 0) {
			o.NonTrivial()
		}
		// agreement with incf and decf
		if (c.Op == "+" || c.Op == "-") && len(c.Args) == 2 {
			m := map[string]string{"+": "incf", "-": "decf"}[c.Op]
			iv, err := lw.Interpret(ctx, fmt.Sprintf("(let ((p x0) (q (list x0)) (r nil)) (setq r (%s p x1)) (list r p (%s (car q) x1) (car q)))", m, m))
			if err != nil {
				return fmt.Errorf("%s of %s: %v", m, dShows(c.Args), err)
			}
			l, _ := vslice(fromNode(iv))
			for _, x := range l {
				if !sameNum(x, want) {
					return fmt.Errorf("%s of %s: %s, expected %s", m, dShows(c.Args), show(fromNode(iv)), show(want))
				}
			}
		}
		// the division law
		if c.Op == "rem" && c.Args[0].K == "i" && c.Args[1].K == "i" {
			iv, err := lw.Interpret(ctx, "(= x0 (+ (* (/ x0 x1) x1) (rem x0 x1)))")
			if err != nil || show(fromNode(iv)) != "t" {
				return fmt.Errorf("(= a (+ (* (/ a b) b) (rem a b))) fails for %s: %v %v", dShows(c.Args), iv, err)
			}
		}
	}
	return argsUnchanged(ctx, lw, c.Args)
}

func isNumV(v V) bool {
	switch v.(type) {
	case Int, Flt:
		return true
	}
	return false
}

func toFOr(v V, other float64) float64 {
	if isNumV(v) {
		return toF(v)
	}
	return other
}

func hasBig(args []D) bool {
	for _, a := range args {
		if a.K == "i" && (a.I > 1<<53 || a.I < -(1<<53)) {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func dShows(args []D) string {
	var l []string
	for _, a := range args {
		l = append(l, show(a.V()))
	}
	return strings.Join(l, " ")
}

// C12 ----------------------------------------------------------------------

var cmpOps = map[string]func(c int) bool{
	"<":  func(c int) bool { return c < 0 },
	">":  func(c int) bool { return c > 0 },
	"<=": func(c int) bool { return c <= 0 },
	">=": func(c int) bool { return c >= 0 },
	"=":  func(c int) bool { return c == 0 },
	"/=": func(c int) bool { return c != 0 },
}

func genCompare(t *rapid.T) numCase {
	c := numCase{Op: pickOf(t, []string{"<", ">", "<=", ">=", "=", "/="}, "op"), Mode: below(t, 6, "mode")}
	n := between(t, 2, 5, "n")
	if c.Op == "/=" {
		n = 2
	}
	ints := pct(t, 40)
	for i := 0; i < n; i++ {
		var d D
		if ints {
			d = dInt(genInt(t))
		} else {
			d = genNum(t, true)
		}
		if i > 0 && pct(t, 60) {
			// near the previous one
			p := c.Args[i-1]
			switch k := below(t, 5, "near"); {
			case k == 0 && !ints:
				v := toF(p.V())
				if p.K == "f" && v == math.Trunc(v) && math.Abs(v) < 1<<53 {
					d = dInt(int64(v))
				} else {
					d = dFlt(v)
				}
			case k == 1 && p.K == "f":
				d = dFlt(math.Nextafter(p.float(), math.Inf(1)))
			case k == 1 && p.K == "i" && p.I < math.MaxInt64 && (ints || p.I < 1<<53):
				d = dInt(p.I + 1)
			case k == 2 && p.K == "i" && p.I > math.MinInt64 && (ints || p.I > -(1<<53)):
				d = dInt(p.I - 1)
			case k == 3 && !ints && math.Abs(toF(p.V())) < 1<<51:
				d = dFlt(toF(p.V()) + pickOf(t, []float64{0.5, -0.5, 0.25}, "d"))
			default:
				d = p
			}
			if d.K == "f" && math.IsInf(d.float(), 0) {
				d = p
			}
		}
		c.Args = append(c.Args, d)
	}
	if n == 2 && c.Op != "=" && c.Op != "/=" && pct(t, 8) {
		c.Args[below(t, 2, "bad")] = genNonNum(t)
	}
	return c
}

func checkCompare(c numCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	lw := bindArgs(ctx, w, c.Args)
	text := callText(c.Op, len(c.Args), c.Mode)
	v, err := lw.Interpret(ctx, text)
	out := toOutcome(v, err)
	desc := fmt.Sprintf("%s with %s", text, dShows(c.Args))
	o.Sample(c.Op + " " + dShows(c.Args))
	o.Label("op %s", c.Op)
	var bad []string
	for _, a := range c.Args {
		if !a.isNum() {
			bad = append(bad, show(a.V()))
		}
	}
	if bad != nil {
		o.NonTrivial()
		if out.Class != "<domain-error>" || !contains(bad, out.Dom) {
			return fmt.Errorf("%s: %v (object %s), expected a domain error of one of %v", desc, out, out.Dom, bad)
		}
		return nil
	}
	want := true
	types := map[string]bool{}
	for i := range c.Args {
		types[c.Args[i].K] = true
		if i > 0 && !cmpOps[c.Op](numCmp(c.Args[i-1].V(), c.Args[i].V())) {
			want = false
		}
	}
	if err != nil || IsTrueText(out.Value) != want {
		return fmt.Errorf("%s: %v, expected %v", desc, out, want)
	}
	if err := quietValue(ctx, lw, text, out.Value); err != nil {
		return fmt.Errorf("%s: %w", desc, err)
	}
	if len(types) == 2 || len(c.Args) > 2 || want {
		o.NonTrivial()
	}
	// trichotomy and the relations derived from each other, on the first pair
	hv, err := lw.Interpret(ctx, "(list (< x0 x1) (= x0 x1) (> x0 x1) (<= x0 x1) (>= x0 x1) (/= x0 x1) (< x1 x0) (= x1 x0) (not (< x0 x1)))")
	if err != nil {
		return fmt.Errorf("comparisons of %s: %v", dShows(c.Args[:2]), err)
	}
	cmp := numCmp(c.Args[0].V(), c.Args[1].V())
	b := func(x bool) string {
		if x {
			return "t"
		}
		return "nil"
	}
	wantL := strings.Join([]string{b(cmp < 0), b(cmp == 0), b(cmp > 0), b(cmp <= 0), b(cmp >= 0), b(cmp != 0), b(cmp > 0), b(cmp == 0), b(cmp >= 0)}, " ")
	if got := show(fromNode(hv)); got != "("+wantL+")" {
		return fmt.Errorf("< = > <= >= /= and the converse < = and (not <) of %s are %s, expected (%s)", dShows(c.Args[:2]), got, wantL)
	}
	return argsUnchanged(ctx, lw, c.Args)
}

func IsTrueText(s string) bool { return s != "nil" }

func checkPredicate(d D, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	lw := bindArgs(ctx, w, []D{d})
	v := d.V()
	_, isInt := v.(Int)
	_, isFlt := v.(Flt)
	num := isInt || isFlt
	o.Sample(show(v))
	if d.K == "f" || d.K == "i" && d.I < 0 || !num {
		o.NonTrivial()
	}
	sign := 0
	if num {
		sign = numCmp(v, Int(0))
	}
	for _, p := range []struct {
		op   string
		ok   bool // does it take the object
		want bool
	}{
		{"numberp", true, num}, {"integerp", true, isInt}, {"floatp", true, isFlt},
		{"zerop", num, num && sign == 0}, {"plusp", num, sign > 0}, {"minusp", num, sign < 0},
		{"evenp", isInt, isInt && int64(d.I)%2 == 0}, {"oddp", isInt, isInt && int64(d.I)%2 != 0},
	} {
		text := "(" + p.op + " x0)"
		rv, err := lw.Interpret(ctx, text)
		out := toOutcome(rv, err)
		if !p.ok {
			if out.Value == "nil" { // false for whatever is no number is taken as well
				continue
			}
			if out.Class != "<domain-error>" || out.Dom != show(v) {
				return fmt.Errorf("(%s %s): %v %s, expected a domain error", p.op, show(v), out, out.Dom)
			}
			continue
		}
		if err != nil || IsTrueText(out.Value) != p.want {
			return fmt.Errorf("(%s %s): %v, expected %v", p.op, show(v), out, p.want)
		}
		if err := quietValue(ctx, lw, text, out.Value); err != nil {
			return err
		}
	}
	return argsUnchanged(ctx, lw, []D{d})
}

func initNumProps() {
	reg("C11", "arithmetic", 60000, 2000000,
		"one operator (+ - * / mod rem floor ceiling truncate round 1+ 1- max min sqrt) on random operands (small, boundary and random 64-bit integers, floats of all magnitudes, halves, zero divisors, 10% operands that are no numbers) called directly, by funcall, apply, mapcar and through &rest, against exact arithmetic in Go; also incf/decf and the division law; non-trivial: two or more operands, a float or a negative, or an error due",
		genArith, checkArith)
	reg("C12", "comparison", 60000, 2000000,
		"one comparison of 2 to 5 random numbers, often neighbours (equal, next float, +-1, the same value in the other type), against the mathematical order; the trichotomy of the first pair; non-trivial: mixed types, three or more operands, or true",
		genCompare, checkCompare)
	reg("C12", "predicate", 20000, 500000,
		"zerop plusp minusp evenp oddp numberp integerp floatp on random numbers and other data; non-trivial: float, negative or not a number",
		func(t *rapid.T) D {
			if pct(t, 75) {
				return genNum(t, false)
			}
			return genNonNum(t)
		}, checkPredicate)
}
