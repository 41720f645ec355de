package main

// Generated data.

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// D is a generated datum; it survives JSON.
//
//	K: i integer, b integer beyond int64 (only C13), f float, s string, c character, y symbol, k keyword,
//	   n nil, t true, l list (T its tail if dotted), a array of dimensions Dim
type D struct {
	K   string `json:"k"`
	I   int64  `json:"i,omitempty"`
	F   string `json:"f,omitempty"`
	S   string `json:"s,omitempty"`
	L   []D    `json:"l,omitempty"`
	T   *D     `json:"t,omitempty"`
	Dim []int  `json:"dim,omitempty"`
}

func dInt(n int64) D { return D{K: "i", I: n} }
func dFlt(f float64) D {
	return D{K: "f", F: strconv.FormatFloat(f, 'g', -1, 64)}
}
func dStr(s string) D { return D{K: "s", S: s} }
func dChr(r rune) D   { return D{K: "c", I: int64(r)} }
func dSym(s string) D { return D{K: "y", S: s} }
func dKw(s string) D  { return D{K: "k", S: s} }
func dList(l ...D) D  { return D{K: "l", L: l} }
func (d D) float() float64 {
	f, _ := strconv.ParseFloat(d.F, 64)
	return f
}

// V is the datum in the reference model.
func (d D) V() V {
	switch d.K {
	case "i":
		return Int(d.I)
	case "f":
		return Flt(d.float())
	case "s":
		return Str(d.S)
	case "c":
		return Chr(rune(d.I))
	case "y":
		return Sym(d.S)
	case "k":
		return Kw(d.S)
	case "n":
		return Nil
	case "t":
		return Tru
	case "l":
		var r V = Nil
		if d.T != nil && len(d.L) > 0 {
			r = d.T.V()
		}
		for i := len(d.L) - 1; i >= 0; i-- {
			r = &Pair{d.L[i].V(), r}
		}
		return r
	case "a":
		a := &Arr{Dims: d.Dim}
		for _, e := range d.L {
			a.El = append(a.El, e.V())
		}
		return a
	}
	panic("D: " + d.K)
}

// K p is an object of the pool of p_eq.go.

// Node builds the datum with the host API.
func (d D) Node(ctx context.Context, w *gmnlisp.World) gmnlisp.Node {
	switch d.K {
	case "i":
		return gmnlisp.Integer(d.I)
	case "f":
		return gmnlisp.Float(d.float())
	case "b":
		n, _ := new(big.Int).SetString(d.S, 10)
		return gmnlisp.BigInt{Int: n}
	case "s":
		return gmnlisp.String(d.S)
	case "c":
		return gmnlisp.Rune(rune(d.I))
	case "y":
		return gmnlisp.NewSymbol(d.S)
	case "k":
		return gmnlisp.NewKeyword(d.S)
	case "n":
		return gmnlisp.Null
	case "t":
		return gmnlisp.True
	case "l":
		var r gmnlisp.Node = gmnlisp.Null
		if d.T != nil && len(d.L) > 0 {
			r = d.T.Node(ctx, w)
		}
		for i := len(d.L) - 1; i >= 0; i-- {
			r = &gmnlisp.Cons{Car: d.L[i].Node(ctx, w), Cdr: r}
		}
		return r
	case "p":
		return poolNodes[d.I]
	case "a":
		if len(d.Dim) == 1 {
			var l []gmnlisp.Node
			for _, e := range d.L {
				l = append(l, e.Node(ctx, w))
			}
			return gmnlisp.NewVector(ctx, w, l...)
		}
		var dims []string
		for _, n := range d.Dim {
			dims = append(dims, fmt.Sprint(n))
		}
		arr, err := w.Interpret(ctx, "(create-array '("+strings.Join(dims, " ")+") 0)")
		if err != nil {
			panic(err)
		}
		for i, e := range d.L {
			form := []gmnlisp.Node{e.Node(ctx, w), arr}
			for _, x := range unflatten(i, d.Dim) {
				form = append(form, gmnlisp.Integer(x))
			}
			if _, err := w.Eval(ctx, &gmnlisp.Cons{Car: gmnlisp.NewSymbol("set-aref"), Cdr: gmnlisp.UnevalList(form...)}); err != nil {
				panic(err)
			}
		}
		return arr
	}
	panic("D: " + d.K)
}

func unflatten(i int, dim []int) []int {
	r := make([]int, len(dim))
	for k := len(dim) - 1; k >= 0; k-- {
		r[k] = i % dim[k]
		i /= dim[k]
	}
	return r
}

// Src is the notation of the datum, written by the harness.
func (d D) Src() string {
	switch d.K {
	case "i":
		return strconv.FormatInt(d.I, 10)
	case "f":
		return fltSrc(d.float())
	case "s":
		return strSrc(d.S)
	case "c":
		return chrSrc(rune(d.I))
	case "y":
		return symSrc(d.S)
	case "k":
		return d.S
	case "n":
		return "nil"
	case "t":
		return "t"
	case "l":
		if len(d.L) == 0 {
			return "()"
		}
		var l []string
		for _, e := range d.L {
			l = append(l, e.Src())
		}
		if d.T != nil {
			l = append(l, ".", d.T.Src())
		}
		return "(" + strings.Join(l, " ") + ")"
	case "a":
		if len(d.Dim) == 1 {
			var l []string
			for _, e := range d.L {
				l = append(l, e.Src())
			}
			return "#(" + strings.Join(l, " ") + ")"
		}
		return fmt.Sprintf("#%da", len(d.Dim)) + arraySrc(d.L, d.Dim)
	}
	panic("D: " + d.K)
}

func arraySrc(l []D, dim []int) string {
	var p []string
	if len(dim) == 1 {
		for _, e := range l {
			p = append(p, e.Src())
		}
	} else {
		n := len(l) / dim[0]
		for i := 0; i < dim[0]; i++ {
			p = append(p, arraySrc(l[i*n:(i+1)*n], dim[1:]))
		}
	}
	return "(" + strings.Join(p, " ") + ")"
}

func fltSrc(f float64) string {
	s := strconv.FormatFloat(f, 'e', -1, 64)
	if !strings.Contains(s, ".") {
		s = strings.Replace(s, "e", ".0e", 1)
	}
	return s
}

func strSrc(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func chrSrc(r rune) string {
	if r > ' ' && r < 0x7f {
		return "#\\" + string(r)
	}
	return fmt.Sprintf("#\\U%X", r)
}

func symSrc(s string) string {
	for i, c := range s {
		if c >= 'a' && c <= 'z' || i > 0 && (c >= '0' && c <= '9' || c == '-') {
			continue
		}
		return "|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(s) + "|"
	}
	if s == "" || s == "t" || s == "nil" {
		return "|" + s + "|"
	}
	return s
}

// Quoted is a form whose value is the datum.
func (d D) Quoted() string { return "(quote " + d.Src() + ")" }

// generators -------------------------------------------------------------

type dataCfg struct {
	depth   int
	anySym  bool // symbols with arbitrary names
	control bool // strings and characters with control characters
	arrays  bool
	dotted  bool
	noFloat bool
	noKw    bool
	maxLen  int
}

var interestingInts = []int64{0, 1, -1, 2, 3, 7, 10, -10, 63, 64, 100, 255, 256, 1000, 1 << 31, -(1 << 31), 1 << 53, 1<<53 + 1, -(1 << 53) - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 62, 3037000500}

func genInt(t *rapid.T) int64 {
	switch below(t, 4, "int") {
	case 0, 1:
		return int64(between(t, -20, 20, "n"))
	case 2:
		return pickOf(t, interestingInts, "n")
	default:
		return rapid.Int64().Draw(t, "n")
	}
}

var interestingFloats = []float64{0, 1, -1, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 1e6, 1e7, 123456.789, 1234567.891, 1e15, 1e16, 1e20, 1e21, 1e22, 1e100, -1e-5, 1e-6, 1e-7, 1.0000001, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Pi, 1 << 53, 1<<53 + 2, 9.3e18, 4.5, 1e300}

func genFloat(t *rapid.T) float64 {
	switch below(t, 4, "float") {
	case 0:
		return float64(between(t, -40, 40, "n")) / 4
	case 1:
		return pickOf(t, interestingFloats, "f")
	case 2:
		f := float64(between(t, -999999, 999999, "m")) * math.Pow(10, float64(between(t, -20, 20, "e")))
		return f
	default:
		f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 1.25
		}
		return f
	}
}

var plainRunes = []rune("abcdefgxyz0123456789ABCXYZ -_+*/<>=.!?")
var trickyRunes = []rune("\"\\|()'`,;#~%:&@ \t\n.")
var wideRunes = []rune("éßλЖ漢字あいう😀€\u00a0\u3000")
var controlRunes = []rune{0, 1, 7, 8, 11, 12, 13, 27, 31, 127, 0x85, 0xa0, 0x200b, 0x2028, 0xfeff, 0xfffd, 0xffff, 0x10ffff, 0x1680}

func genRune(t *rapid.T, control bool) rune {
	switch n := below(t, 10, "rune"); {
	case n < 4:
		return pickOf(t, plainRunes, "r")
	case n < 7:
		return pickOf(t, trickyRunes, "r")
	case n < 9:
		return pickOf(t, wideRunes, "r")
	}
	if control {
		if pct(t, 50) {
			return pickOf(t, controlRunes, "r")
		}
		r := rune(between(t, 0, utf8.MaxRune, "r"))
		if utf8.ValidRune(r) {
			return r
		}
	}
	return 'q'
}

func genStr(t *rapid.T, max int, control bool) string {
	n := below(t, max+1, "len")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(genRune(t, control))
	}
	return sb.String()
}

// trickyNames look like other tokens.
var trickyNames = []string{"", ".", "..", "1", "-1", "+1", "1.", "1.5", "-.5", "1e5", "1e", "+", "-", "1+", "1-", "#", "#x1f", "#\\a", "#'", "#(", "#|", "|", "||", "\"", "\\", "a\\", "\\|", "'", "`", ",", ",@", ":a", "&rest", ":", "&", "T", "NIL", "Nil", "a b", "a(b", "a)b", "a;b", "a'b", "a\"b", "a|b", "a,b", "a\nb", " a", "a ", "\u3000", "a\u00a0b", "#1a", "#2a(", "-0", "1/2", "quote", "unquote", "function", "quasiquote", "#b1", "#o7", "inf", "NaN", "0x10", "1_000"}

func genSymName(t *rapid.T, anySym bool) string {
	if !anySym || pct(t, 50) {
		return pickOf(t, []string{"a", "b", "foo", "bar-1", "x", "y", "quote", "car"}, "sym")
	}
	if pct(t, 50) {
		return pickOf(t, trickyNames, "name")
	}
	s := genStr(t, 4, true)
	return s
}

// symOK: names that denote other objects are left out.
func symOK(s string) bool { return s != "nil" && s != "t" }

func genAtom(t *rapid.T, c dataCfg) D {
	switch n := below(t, 16, "atom"); {
	case n < 4:
		return dInt(genInt(t))
	case n < 6:
		if c.noFloat {
			return dInt(genInt(t))
		}
		return dFlt(genFloat(t))
	case n < 8:
		return dStr(genStr(t, 6, c.control))
	case n < 10:
		return dChr(genRune(t, c.control))
	case n < 13:
		if s := genSymName(t, c.anySym); symOK(s) {
			return dSym(s)
		}
		return dSym("foo")
	case n < 14:
		if c.noKw {
			return dSym("kw")
		}
		return dKw(pickOf(t, []string{":a", ":key", "&rest", ":rest", "&x", ":B"}, "kw"))
	case n < 15:
		return D{K: "n"}
	}
	return D{K: "t"}
}

func genData(t *rapid.T, c dataCfg) D {
	if c.depth <= 0 || pct(t, 35) {
		return genAtom(t, c)
	}
	c.depth--
	max := c.maxLen
	if max == 0 {
		max = 4
	}
	if c.arrays && pct(t, 25) {
		d := D{K: "a"}
		if pct(t, 8) {
			d.Dim = []int{0}
			return d
		}
		size := 1
		for i := between(t, 1, 3, "rank"); i > 0; i-- {
			n := between(t, 1, 3, "dim")
			d.Dim = append(d.Dim, n)
			size *= n
		}
		if size > 9 {
			c.depth = 0
		}
		for i := 0; i < size; i++ {
			d.L = append(d.L, genData(t, c))
		}
		return d
	}
	if pct(t, 12) {
		// the shapes the printer abbreviates
		q := dSym(pickOf(t, []string{"quote", "quasiquote", "unquote", "function"}, "q"))
		d := dList(q)
		for i := below(t, 3, "n"); i > 0; i-- {
			d.L = append(d.L, genData(t, c))
		}
		if c.dotted && pct(t, 20) {
			tl := genAtom(t, c)
			if tl.K != "n" {
				d.T = &tl
			}
		}
		return d
	}
	n := below(t, max+1, "len")
	d := D{K: "l"}
	for i := 0; i < n; i++ {
		d.L = append(d.L, genData(t, c))
	}
	if n == 0 {
		return D{K: "n"}
	}
	if c.dotted && pct(t, 20) {
		tl := genAtom(t, c)
		if c.arrays && pct(t, 20) {
			tl = genData(t, c)
		}
		if tl.K != "n" && tl.K != "l" {
			d.T = &tl
		}
	}
	return d
}

func (d D) size() int {
	n := 1
	for _, e := range d.L {
		n += e.size()
	}
	if d.T != nil {
		n += d.T.size()
	}
	return n
}

func (d D) kinds(f func(d D)) {
	f(d)
	for _, e := range d.L {
		e.kinds(f)
	}
	if d.T != nil {
		d.T.kinds(f)
	}
}

var _ = big.NewInt
