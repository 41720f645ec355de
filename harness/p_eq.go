package main

// C13 eq, eql, equal, equalp.

import (
	"context"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// poolNodes are objects without notation: D{K:"p", I:index} stands for them.
var poolForms = []string{
	"(make-hash-table)", "(make-hash-table)", "(let ((h (make-hash-table))) (set-gethash 'a 1 h) h)",
	"#'car", "#'cdr", "#'list", "(lambda (x) x)", "(lambda (x) x)", "(let ((n 0)) (lambda () n))", "(flet ((f (x) x)) #'f)", "#'1+", "#'verif-gf",
	"(create (class <verif-eq>) 'a 1 'b 2)", "(create (class <verif-eq>) 'a 1)", "(create (class <verif-eq>) 'b 2)", "(create (class <verif-eq>) 'a nil)", "(create (class <verif-eq2>) 'a 1 'b 2)",
	"(class <verif-eq>)", "(class <verif-eq2>)", "(class <integer>)", "(class <object>)", "(class <error>)", "(class <list>)", "(class <null>)",
	"(create-string-input-stream \"abc\")", "(create-string-input-stream \"abc\")", "(create-string-output-stream)", "(standard-output)", "(standard-input)", "(error-output)",
}

const poolPrelude = `(defclass <verif-eq> () ((a :initarg a) (b :initarg b)))
(defclass <verif-eq2> (<verif-eq>) ())
(defgeneric verif-gf (x))`

var poolNodes []gmnlisp.Node

func makePool(ctx context.Context, w *gmnlisp.World) error {
	if _, err := w.Interpret(ctx, poolPrelude); err != nil {
		return err
	}
	poolNodes = nil
	for _, f := range poolForms {
		v, err := w.Interpret(ctx, f)
		if err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
		poolNodes = append(poolNodes, v)
	}
	return nil
}

// poolV identifies a pool object in the model.
type poolV int

type eqCase struct {
	L []D `json:"l"`
	// Same[i] = j+1: object i is the very object j
	Same []int `json:"same"`
}

func dEql(a, b D) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case "l":
		return len(a.L) == 0 && len(b.L) == 0 // otherwise only the same object
	case "a":
		return false
	case "f":
		return a.float() == b.float()
	case "p", "i", "c":
		return a.I == b.I
	case "n", "t":
		return true
	}
	return a.S == b.S
}

func foldEq(a, b string) bool {
	x, y := []rune(a), []rune(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if unicode.ToLower(x[i]) != unicode.ToLower(y[i]) {
			return false
		}
	}
	return true
}

// dEqual: equal, or equalp.  unknown is set for pairs the model leaves open.
func dEqual(a, b D, p bool, unknown *bool) bool {
	if p && a.isNum() && b.isNum() {
		return numCmp(a.V(), b.V()) == 0
	}
	if a.K == "p" && b.K == "p" && a.I != b.I {
		*unknown = true
		return false
	}
	if p && (a.K == "b" && b.K == "f" || a.K == "f" && b.K == "b") {
		*unknown = true
		return false
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case "l":
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !dEqual(a.L[i], b.L[i], p, unknown) {
				return false
			}
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		return dEqual(*a.T, *b.T, p, unknown)
	case "a":
		if fmt.Sprint(a.Dim) != fmt.Sprint(b.Dim) {
			return false
		}
		for i := range a.L {
			if !dEqual(a.L[i], b.L[i], p, unknown) {
				return false
			}
		}
		return true
	case "s":
		if p {
			return foldEq(a.S, b.S)
		}
	case "c":
		if p {
			return unicode.ToLower(rune(a.I)) == unicode.ToLower(rune(b.I))
		}
	}
	return dEql(a, b)
}

var eqCfg = dataCfg{depth: 2, arrays: true, dotted: true, anySym: false}

// genShape gives array dimensions for n elements.
func genShape(t *rapid.T, n int) []int {
	r := []int{}
	for len(r) < 3 {
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		d := pickOf(t, ds, "dim")
		r = append(r, d)
		n /= d
		if n == 1 && pct(t, 50) {
			break
		}
	}
	if n > 1 {
		r[len(r)-1] *= n
	}
	return r
}

func genEqArray(t *rapid.T) D {
	n := pickOf(t, []int{2, 3, 4, 6, 8}, "size")
	d := D{K: "a", Dim: genShape(t, n)}
	for i := 0; i < n; i++ {
		d.L = append(d.L, dInt(int64(below(t, 3, "elem"))))
	}
	return d
}

func genEqData(t *rapid.T, depth int) D {
	if depth > 0 && pct(t, 12) {
		return genEqArray(t)
	}
	if pct(t, 4) {
		return genBig(t)
	}
	if pct(t, 22) {
		return D{K: "p", I: int64(below(t, len(poolForms), "pool"))}
	}
	c := eqCfg
	c.depth = depth
	d := genData(t, c)
	return sanitizeEq(t, d)
}

// sanitizeEq puts pool objects into structures and keeps numbers comparable.
func sanitizeEq(t *rapid.T, d D) D {
	switch d.K {
	case "f":
		if d.float() == 0 {
			return dFlt(0)
		}
	case "i":
		return dInt(d.I % (1 << 53))
	case "s":
		return dStr(strings.Map(asciiOnly, d.S))
	case "c":
		return dChr(asciiOnly(rune(d.I)))
	}
	if d.L != nil {
		l := append([]D{}, d.L...)
		for i := range l {
			l[i] = sanitizeEq(t, l[i])
			if pct(t, 3) {
				l[i] = genBig(t)
			}
			if pct(t, 8) {
				l[i] = D{K: "p", I: int64(below(t, len(poolForms), "pool"))}
			}
		}
		d.L = l
	}
	if d.T != nil {
		x := sanitizeEq(t, *d.T)
		d.T = &x
	}
	return d
}

// clampEq keeps the integers exactly representable as floats, where equalp is
// the comparison of the numbers.
func clampEq(d D) D {
	if d.K == "i" {
		return dInt(d.I % (1 << 53))
	}
	if d.L != nil {
		l := append([]D{}, d.L...)
		for i := range l {
			l[i] = clampEq(l[i])
		}
		d.L = l
	}
	if d.T != nil {
		x := clampEq(*d.T)
		d.T = &x
	}
	return d
}

// genBig gives integers beyond 64 bits.
func genBig(t *rapid.T) D {
	n := new(big.Int).Lsh(big.NewInt(int64(below(t, 3, "factor")+1)), uint(64+below(t, 3, "bits")*32))
	n.Add(n, big.NewInt(int64(below(t, 3, "rest"))))
	if pct(t, 30) {
		n.Neg(n)
	}
	return D{K: "b", S: n.String()}
}

func asciiOnly(r rune) rune {
	if r > 126 {
		return 'A' + r%26
	}
	return r
}

// mutate makes a datum that differs from d a little, or only in the eyes of
// some of the predicates.
func mutate(t *rapid.T, d D) D {
	switch d.K {
	case "b":
		n, _ := new(big.Int).SetString(d.S, 10)
		switch below(t, 5, "mut") {
		case 0:
			return D{K: "b", S: n.Neg(n).String()}
		case 1:
			return dInt(n.And(n, big.NewInt(1<<62)).Int64())
		case 2:
			return dInt(new(big.Int).Rem(n, big.NewInt(1<<32)).Int64())
		case 3:
			return D{K: "b", S: n.Lsh(n, 64).String()}
		}
		return D{K: "b", S: n.Sub(n, big.NewInt(1)).String()}
	case "i":
		if pct(t, 10) {
			// the same in the lower 64 bits
			n := new(big.Int).Lsh(big.NewInt(1), 64)
			return D{K: "b", S: n.Add(n, big.NewInt(d.I)).String()}
		}
		return pickOf(t, []D{dFlt(float64(d.I)), dInt(d.I + 1), dInt(-d.I), dStr(fmt.Sprint(d.I)), dChr(rune(d.I & 0x7f))}, "mut")
	case "f":
		f := d.float()
		if f == float64(int64(f)) && f < 1<<53 && f > -(1<<53) {
			return dInt(int64(f))
		}
		return dFlt(f / 2)
	case "s":
		return pickOf(t, []D{dStr(strings.ToUpper(d.S)), dStr(strings.ToLower(d.S)), dStr(d.S + "x"), dSym(d.S + "y")}, "mut")
	case "c":
		return pickOf(t, []D{dChr(unicode.ToUpper(rune(d.I))), dChr(unicode.ToLower(rune(d.I))), dInt(d.I), dStr(string(rune(d.I)))}, "mut")
	case "y":
		return pickOf(t, []D{dSym(strings.ToUpper(d.S)), dStr(d.S), dSym(d.S + "x"), dKw(":" + d.S)}, "mut")
	case "k":
		return pickOf(t, []D{dSym(d.S[1:] + "z"), dStr(d.S), dKw(":b")}, "mut")
	case "l", "a":
		if len(d.L) == 0 {
			return D{K: "n"}
		}
		n := d
		n.L = append([]D{}, d.L...)
		i := below(t, len(n.L), "at")
		if d.K == "a" && len(d.Dim) > 1 && pct(t, 30) {
			n.Dim = genShape(t, len(n.L))
			return n
		}
		switch k := below(t, 5, "mut"); {
		case k < 3:
			n.L[i] = mutate(t, n.L[i])
		case k == 3 && d.K == "l" && len(n.L) > 1:
			n.L = n.L[:len(n.L)-1]
		case d.K == "a" && (k == 3 || pct(t, 50)):
			n.Dim = genShape(t, len(n.L))
		case d.K == "a" && len(d.Dim) == 1:
			return dList(n.L...)
		case d.K == "a":
			n.Dim = []int{len(n.L)}
		case d.T == nil:
			x := dInt(1)
			n.T = &x
		default:
			n.T = nil
		}
		return n
	case "n":
		return pickOf(t, []D{dSym("nill"), {K: "t"}, dInt(0), dStr(""), dList(D{K: "n"})}, "mut")
	case "t":
		return pickOf(t, []D{{K: "n"}, dStr("t"), dSym("tt"), dInt(1)}, "mut")
	}
	return D{K: "p", I: int64(below(t, len(poolForms), "pool"))}
}

func genEqCase(t *rapid.T) eqCase {
	var c eqCase
	c.L = []D{genEqData(t, between(t, 0, 3, "depth"))}
	c.Same = []int{0}
	for i := 1; i < 3; i++ {
		p := c.L[below(t, i, "base")]
		same := 0
		var d D
		switch k := below(t, 10, "how"); {
		case k < 2:
			d = genEqData(t, 2)
		case k < 4:
			d = p
		case k < 5:
			j := below(t, i, "same")
			d, same = c.L[j], j+1
		default:
			d = mutate(t, p)
		}
		c.L = append(c.L, clampEq(d))
		c.Same = append(c.Same, same)
	}
	return c
}

func checkEq(c eqCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	if err := makePool(ctx, w); err != nil {
		return err
	}
	vars := map[string]gmnlisp.Node{}
	root := make([]int, len(c.L))
	for i, d := range c.L {
		root[i] = i
		if s := c.Same[i]; s > 0 {
			root[i] = root[s-1]
			vars[fmt.Sprintf("x%d", i)] = vars[fmt.Sprintf("x%d", s-1)]
			continue
		}
		vars[fmt.Sprintf("x%d", i)] = d.Node(ctx, w)
	}
	lw := letVars(w, vars)
	var descs []string
	for i, d := range c.L {
		s := show(fromNode(vars[fmt.Sprintf("x%d", i)]))
		if c.Same[i] > 0 {
			s = fmt.Sprintf("the same object as %d", c.Same[i]-1)
		}
		descs = append(descs, s)
		o.Label("kind %s", d.K)
	}
	o.Sample(strings.Join(descs, " | "))
	n := len(c.L)
	res := map[string][][]bool{}
	for _, op := range []string{"eq", "eql", "equal", "equalp"} {
		m := make([][]bool, n)
		for i := range m {
			m[i] = make([]bool, n)
			for j := range m[i] {
				text := fmt.Sprintf("(%s x%d x%d)", op, i, j)
				v, err := lw.Interpret(ctx, text)
				if err != nil {
					return fmt.Errorf("%s of %s and %s: %v", op, descs[i], descs[j], err)
				}
				switch show(fromNode(v)) {
				case "t":
					m[i][j] = true
				case "nil":
				default:
					return fmt.Errorf("%s of %s and %s: value %s", op, descs[i], descs[j], show(fromNode(v)))
				}
			}
		}
		res[op] = m
		for i := range m {
			if !m[i][i] {
				return fmt.Errorf("%s is not reflexive for %s", op, descs[i])
			}
			for j := range m {
				if m[i][j] != m[j][i] {
					return fmt.Errorf("%s is not symmetric: %s | %s", op, descs[i], descs[j])
				}
				for k := range m {
					if m[i][j] && m[j][k] && !m[i][k] {
						return fmt.Errorf("%s is not transitive: %s | %s | %s", op, descs[i], descs[j], descs[k])
					}
				}
			}
		}
	}
	mixed := false
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			pair := descs[i] + " | " + descs[j]
			for _, im := range [][2]string{{"eq", "eql"}, {"eql", "equal"}, {"equal", "equalp"}} {
				if res[im[0]][i][j] && !res[im[1]][i][j] {
					return fmt.Errorf("%s but not %s: %s", im[0], im[1], pair)
				}
				if i != j && res[im[1]][i][j] && !res[im[0]][i][j] {
					mixed = true
					o.Label("%s not %s", im[1], im[0])
				}
			}
			same := root[i] == root[j]
			if want := same || dEql(c.L[i], c.L[j]); res["eql"][i][j] != want {
				return fmt.Errorf("eql is %v, expected %v: %s", !want, want, pair)
			}
			unknown := false
			if want := same || dEqual(c.L[i], c.L[j], false, &unknown); !unknown && res["equal"][i][j] != want {
				return fmt.Errorf("equal is %v, expected %v: %s", !want, want, pair)
			}
			unknown = false
			if want := same || dEqual(c.L[i], c.L[j], true, &unknown); !unknown && res["equalp"][i][j] != want {
				return fmt.Errorf("equalp is %v, expected %v: %s", !want, want, pair)
			}
			if same && !res["eq"][i][j] {
				return fmt.Errorf("eq is false for the same object: %s", descs[i])
			}
		}
	}
	if mixed {
		o.NonTrivial()
	}
	return nil
}

func initEqProps() {
	reg("C13", "laws", 40000, 1000000,
		"three data of any type (numbers, characters, strings, symbols, keywords, lists, arrays, hash tables, functions, objects, classes, streams, alone and inside of structures), derived from each other by copying, sharing and small changes; all pairs under eq eql equal equalp; laws plus an own model of eql, equal and equalp; non-trivial: two of the predicates differ on a pair",
		genEqCase, checkEq)
}
