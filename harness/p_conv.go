package main

// C29: convert and parse-number.

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// ---- number syntax, read by hand ----

// numSyntax tells what number a text denotes in the notation of the reader:
// an Int, a *big.Int beyond 64 bits or a Flt.  ok is false for anything else;
// vague is set where the notation leaves it open.
func numSyntax(s string) (v any, ok, vague bool) {
	isDigit := func(c byte) bool { return c >= '0' && c <= '9' }
	if len(s) > 2 && s[0] == '#' {
		base := map[byte]int{'x': 16, 'X': 16, 'o': 8, 'O': 8, 'b': 2, 'B': 2}[s[1]]
		if base == 0 {
			return nil, false, false
		}
		n := new(big.Int)
		for i := 2; i < len(s); i++ {
			d := strings.IndexByte("0123456789abcdef", byte(unicode.ToLower(rune(s[i]))))
			if s[i] >= 0x80 || d < 0 || d >= base {
				return nil, false, false
			}
			n.Add(n.Mul(n, big.NewInt(int64(base))), big.NewInt(int64(d)))
		}
		if n.IsInt64() {
			return Int(n.Int64()), true, false
		}
		return n, true, false
	}
	i := 0
	sign := byte(0)
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		sign = s[i]
		i++
	}
	mant := new(big.Int)
	d0 := i
	for i < len(s) && isDigit(s[i]) {
		mant.Add(mant.Mul(mant, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
		i++
	}
	if i == d0 {
		// ".5" and the like are left open
		rest := s[i:]
		return nil, false, len(rest) > 1 && rest[0] == '.' && isDigit(rest[1])
	}
	if i == len(s) {
		if sign == '+' {
			return nil, false, true // +1 is a symbol to the reader
		}
		if sign == '-' {
			mant.Neg(mant)
		}
		if mant.IsInt64() {
			return Int(mant.Int64()), true, false
		}
		return mant, true, false
	}
	exp10 := 0
	if s[i] == '.' {
		i++
		for i < len(s) && isDigit(s[i]) {
			mant.Add(mant.Mul(mant, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
			exp10--
			i++
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		neg := false
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			neg = s[i] == '-'
			i++
		}
		e0 := i
		e := 0
		for i < len(s) && isDigit(s[i]) {
			if e < 100000 {
				e = e*10 + int(s[i]-'0')
			}
			i++
		}
		if i == e0 {
			return nil, false, false
		}
		if neg {
			e = -e
		}
		exp10 += e
	}
	if i < len(s) {
		return nil, false, false
	}
	if exp10 > 5000 || exp10 < -5000 {
		return nil, false, true
	}
	// the nearest float of mant * 10^exp10
	r := new(big.Rat).SetInt(mant)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp10))), nil)
	if exp10 < 0 {
		r.Quo(r, new(big.Rat).SetInt(p))
	} else {
		r.Mul(r, new(big.Rat).SetInt(p))
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return nil, false, false
	}
	if f == 0 && mant.Sign() != 0 {
		return nil, false, true // underflow
	}
	if sign == '-' {
		f = -f
	}
	return Flt(f), true, false
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func genNumText(t *rapid.T) string {
	var s string
	switch below(t, 10, "kind") {
	case 0, 1:
		s = strconv.FormatInt(genInt(t), 10)
		if pct(t, 30) {
			s = strings.Replace(s, "-", "", 1)
			s = pickOf(t, []string{"-", "+", "", ""}, "sign") + strings.Repeat("0", below(t, 3, "z")) + s
		}
	case 2:
		// about the limits of 64 bits
		n := new(big.Int).SetUint64(1 << 63)
		n.Add(n, big.NewInt(int64(between(t, -2, 2, "d"))))
		if pct(t, 50) {
			n.Neg(n)
		}
		if pct(t, 20) {
			n.Mul(n, big.NewInt(int64(between(t, 2, 1000, "f"))))
		}
		s = n.String()
	case 3, 4:
		v := genInt(t)
		if v < 0 {
			v = -(v + 1)
		}
		b := pickOf(t, []int{16, 8, 2}, "base")
		s = strconv.FormatInt(v, b)
		if pct(t, 15) {
			s += strconv.FormatInt(v, b)
		}
		if pct(t, 40) {
			s = strings.ToUpper(s)
		}
		s = map[int]string{16: pickOf(t, []string{"#x", "#X"}, "x"), 8: pickOf(t, []string{"#o", "#O"}, "o"), 2: pickOf(t, []string{"#b", "#B"}, "b")}[b] + s
	case 5, 6:
		f := genFloat(t)
		s = strconv.FormatFloat(f, pickOf(t, []byte{'f', 'e', 'E'}, "fmt"), pickOf(t, []int{-1, -1, 0, 1, 6, 17}, "prec"), 64)
	case 7, 8:
		dig := func(max int, label string) string {
			var sb strings.Builder
			for n := below(t, max+1, label); n > 0; n-- {
				sb.WriteByte('0' + byte(below(t, 10, "digit")))
			}
			return sb.String()
		}
		s = pickOf(t, []string{"", "", "-", "+"}, "sign") + dig(4, "int")
		if pct(t, 70) {
			s += "." + dig(5, "frac")
		}
		if pct(t, 60) {
			s += pickOf(t, []string{"e", "E"}, "e") + pickOf(t, []string{"", "-", "+"}, "esign") + dig(3, "exp")
		}
	default:
		var sb strings.Builder
		for n := below(t, 7, "len"); n > 0; n-- {
			sb.WriteRune(pickOf(t, []rune("0123456789--++..eE#xXobBaAfF_ /:'\t\nnit漢０"), "r"))
		}
		s = sb.String()
	}
	if pct(t, 25) && s != "" {
		// damaged
		at := below(t, len(s)+1, "at")
		ins := pickOf(t, []string{"", " ", "-", "+", ".", "e", "x", "0x", "#", "_", "9", "g", "\n", "inf", "p1", "，", ","}, "ins")
		cut := 0
		if at < len(s) && pct(t, 50) {
			cut = 1
		}
		s = s[:at] + ins + s[at+cut:]
		s = strings.ToValidUTF8(s, "")
	}
	return s
}

type numTextCase struct {
	S    string `json:"s"`
	Mode int    `json:"mode"`
}

func showNumSyntax(v any) string {
	switch x := v.(type) {
	case Int:
		return show(x)
	case Flt:
		return show(x)
	case *big.Int:
		return x.String()
	}
	return "?"
}

// sameFloatV is bitwise apart from NaN.
func nodeIs(n gmnlisp.Node, want any) bool {
	switch x := want.(type) {
	case Int:
		i, ok := n.(gmnlisp.Integer)
		return ok && int64(i) == int64(x)
	case Flt:
		f, ok := n.(gmnlisp.Float)
		return ok && math.Float64bits(float64(f)) == math.Float64bits(float64(x))
	case *big.Int:
		_, isInt := n.(gmnlisp.Integer)
		_, isFlt := n.(gmnlisp.Float)
		return !isInt && !isFlt && n.String() == x.String()
	}
	return false
}

// parseFail wants a parse-error for the text: returned to the host, seen by a
// handler, and kept by ignore-errors.
func parseFail(ctx context.Context, w *gmnlisp.World, form, text string, err error, got gmnlisp.Node) error {
	if err == nil {
		return fmt.Errorf("%s with %q: %s, expected a parse error", form, text, show(fromNode(got)))
	}
	cls, _ := errClass(err)
	if cls != "<parse-error>" {
		return fmt.Errorf("%s with %q: %v (%s), expected a <parse-error>", form, text, err, cls)
	}
	if !strings.Contains(err.Error(), text) {
		return fmt.Errorf("%s with %q: the message %q does not name the string", form, text, err)
	}
	v, err := w.Interpret(ctx, "(block b (with-handler (lambda (c) (return-from b (list (instancep c (class <parse-error>)) (instancep c (class <error>))))) "+form+"))")
	if err != nil {
		return fmt.Errorf("%s with %q: the handler was not called: %v", form, text, err)
	}
	if g := show(fromNode(v)); g != "(t t)" {
		return fmt.Errorf("%s with %q: the handler saw %s", form, text, g)
	}
	v, err = w.Interpret(ctx, "(ignore-errors "+form+")")
	if err != nil || gmnlisp.IsSome(v) {
		return fmt.Errorf("(ignore-errors %s) with %q: %v %v", form, text, v, err)
	}
	return nil
}

func checkNumText(c numTextCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	lw := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("s"): gmnlisp.String(c.S)})
	o.Sample(fmt.Sprintf("%q", c.S))
	want, ok, vague := numSyntax(c.S)
	form := "(parse-number s)"
	switch c.Mode {
	case 1:
		form = "(car (mapcar #'parse-number (list s)))"
	case 2:
		form = "(let ((f #'parse-number)) (funcall f s))"
	}
	switch {
	case ok:
		o.Label("%T", want)
	case vague:
		o.Label("left open")
	default:
		o.Label("no number")
	}
	if c.S != "" && (!ok || len(c.S) > 2) {
		o.NonTrivial()
	}
	got, err := lw.Interpret(ctx, form)
	switch {
	case ok:
		if err != nil {
			return fmt.Errorf("(parse-number %q): %v, expected %s", c.S, err, showNumSyntax(want))
		}
		if !nodeIs(got, want) {
			return fmt.Errorf("(parse-number %q): %s, expected %s", c.S, show(fromNode(got)), showNumSyntax(want))
		}
	case vague:
		if err == nil {
			// it may be taken as a number of that value
			switch x := got.(type) {
			case gmnlisp.Integer:
				if strings.TrimLeft(c.S, "+0") != strings.TrimLeft(fmt.Sprint(int64(x)), "0") {
					return fmt.Errorf("(parse-number %q): %d", c.S, x)
				}
			case gmnlisp.Float:
				if f, e := strconv.ParseFloat(c.S, 64); e != nil || f != float64(x) {
					return fmt.Errorf("(parse-number %q): %v", c.S, float64(x))
				}
			}
		}
	default:
		if cls, _ := errClass(err); err != nil && strings.HasPrefix(cls, "<floating-point-") && strings.ContainsAny(c.S, "eE") {
			o.Label("overflow")
			break
		}
		if e := parseFail(ctx, lw, form, c.S, err, got); e != nil {
			return e
		}
	}
	// the reader and convert agree
	if ok {
		node, rerr := gmnlisp.ReadNode(strings.NewReader(c.S + " "))
		if rerr != nil || !nodeIs(node, want) {
			return fmt.Errorf("the reader makes %v %v of %s", node, rerr, c.S)
		}
	}
	if ok && c.S[0] != '#' || !ok && !vague {
		gi, ei := lw.Interpret(ctx, "(convert s <integer>)")
		if x, isInt := want.(Int); isInt {
			if ei != nil || !nodeIs(gi, x) {
				return fmt.Errorf("(convert %q <integer>): %v %v", c.S, gi, ei)
			}
		} else if e := parseFail(ctx, lw, "(convert s <integer>)", c.S, ei, gi); e != nil {
			return e
		}
		gf, ef := lw.Interpret(ctx, "(convert s <float>)")
		if ok {
			f := new(big.Float)
			switch x := want.(type) {
			case Int:
				f.SetInt64(int64(x))
			case *big.Int:
				f.SetInt(x)
			case Flt:
				f.SetFloat64(float64(x))
			}
			fv, _ := f.Float64()
			if math.IsInf(fv, 0) {
				return parseFail(ctx, lw, "(convert s <float>)", c.S, ef, gf)
			}
			if g, isF := gf.(gmnlisp.Float); ef != nil || !isF || float64(g) != fv {
				return fmt.Errorf("(convert %q <float>): %v %v, expected %v", c.S, gf, ef, fv)
			}
		} else if e := parseFail(ctx, lw, "(convert s <float>)", c.S, ef, gf); e != nil {
			return e
		}
	}
	return nil
}

// ---- convert ----

type convCase struct {
	D     D      `json:"d"`
	Class string `json:"class"`
	Mode  int    `json:"mode"`
}

var convClasses = []string{"<character>", "<integer>", "<float>", "<string>", "<symbol>", "<list>", "<general-vector>"}

// convSource draws mostly values that some conversion accepts.
func convSource(t *rapid.T) D {
	switch below(t, 16, "source") {
	case 0, 1:
		return dInt(genInt(t))
	case 2:
		return dInt(int64(pickOf(t, []int{0, 65, 127, 128, 255, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, -1, 1 << 32, 1<<32 + 65, 0xfffd}, "code")))
	case 3:
		return dInt(int64(genRune(t, true)))
	case 4, 5:
		return dFlt(genFloat(t))
	case 6:
		return dFlt(pickOf(t, []float64{1 << 62, 1 << 63, -1 << 63, 1<<63 - 1024, -(1<<63 + 2048), 0.9, -0.9, 1e18, -0.0}, "edge"))
	case 7, 8:
		return dChr(genRune(t, true))
	case 9:
		return dStr(genStr(t, 8, true))
	case 10:
		return dStr(genNumText(t))
	case 11:
		return dSym(genSymName(t, true))
	case 12, 13:
		n := below(t, 6, "n")
		if n == 0 {
			return D{K: "n"}
		}
		d := D{K: "l"}
		for i := 0; i < n; i++ {
			d.L = append(d.L, genData(t, dataCfg{}))
		}
		if pct(t, 15) {
			tail := genAtom(t, dataCfg{})
			if tail.K != "n" {
				d.T = &tail
			}
		}
		return d
	case 14:
		n := below(t, 6, "n")
		d := D{K: "a", Dim: []int{n}}
		for i := 0; i < n; i++ {
			d.L = append(d.L, genData(t, dataCfg{}))
		}
		return d
	}
	return genData(t, dataCfg{})
}

// convModel tells what the conversion gives: hOK with the value, "error" (any
// error), hDomain, "parse" (a parse error of the string) or hSkip.
func convModel(d D, class string) (V, string) {
	v := d.V()
	switch d.K {
	case "c":
		switch class {
		case "<character>":
			return v, hOK
		case "<integer>":
			return Int(d.I), hOK
		case "<symbol>":
			if s := string(rune(d.I)); s == "t" {
				return nil, hSkip
			} else {
				return Sym(s), hOK
			}
		}
	case "s":
		switch class {
		case "<integer>", "<float>":
			x, ok, vague := numSyntax(d.S)
			if vague || ok && (d.S[0] == '#' || d.S[0] == '+') {
				return nil, hSkip
			}
			if class == "<integer>" {
				if i, isInt := x.(Int); ok && isInt {
					return i, hOK
				}
				return nil, "parse"
			}
			switch n := x.(type) {
			case Int:
				if n == 0 {
					return nil, hSkip // the sign of "-0"
				}
				return Flt(float64(n)), hOK
			case Flt:
				return n, hOK
			case *big.Int:
				f, _ := new(big.Float).SetInt(n).Float64()
				if math.IsInf(f, 0) {
					return nil, "parse"
				}
				return Flt(f), hOK
			}
			return nil, "parse"
		case "<string>":
			return v, hOK
		case "<symbol>":
			if d.S == "nil" || d.S == "t" {
				return nil, hSkip
			}
			return Sym(d.S), hOK
		case "<list>":
			return charList([]rune(d.S)), hOK
		case "<general-vector>":
			a := &Arr{Dims: []int{len([]rune(d.S))}}
			for _, r := range d.S {
				a.El = append(a.El, Chr(r))
			}
			return a, hOK
		}
	case "f":
		switch class {
		case "<integer>":
			f := math.Trunc(d.float())
			if f >= 1<<63 || f < -(1<<63) {
				return nil, hDomain
			}
			return Int(int64(f)), hOK
		case "<float>":
			return v, hOK
		case "<string>":
			return nil, "float-text"
		}
	case "i":
		switch class {
		case "<character>":
			if d.I < 0 || d.I > 0x10ffff || d.I >= 0xd800 && d.I < 0xe000 {
				return nil, hDomain
			}
			return Chr(rune(d.I)), hOK
		case "<integer>":
			return v, hOK
		case "<float>":
			f, _ := new(big.Float).SetInt64(d.I).Float64()
			return Flt(f), hOK
		case "<string>":
			return Str(strconv.FormatInt(d.I, 10)), hOK
		}
	case "l":
		l, proper := vslice(v)
		switch class {
		case "<list>":
			return v, hOK
		case "<general-vector>":
			if !proper {
				return nil, "error"
			}
			return &Arr{Dims: []int{len(l)}, El: l}, hOK
		}
	case "a":
		if len(d.Dim) == 1 {
			switch class {
			case "<list>":
				return vlist(v.(*Arr).El...), hOK
			case "<general-vector>":
				return nil, hSkip
			}
		}
	case "n":
		switch class {
		case "<list>":
			return Nil, hOK
		case "<general-vector>":
			return &Arr{Dims: []int{0}}, hOK
		}
		return nil, hSkip // nil as a symbol
	case "y":
		switch class {
		case "<string>":
			return Str(d.S), hOK
		case "<symbol>":
			return nil, hSkip
		}
	case "t", "k":
		return nil, hSkip
	}
	return nil, "error"
}

func checkConvert(c convCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	src := c.D.Node(ctx, w)
	lw := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("x"): src})
	want, st := convModel(c.D, c.Class)
	o.Sample(fmt.Sprintf("(convert %s %s)", show(c.D.V()), c.Class))
	if st == hSkip {
		o.Label("left open")
		return nil
	}
	form := fmt.Sprintf("(convert x %s)", c.Class)
	switch c.Mode {
	case 1:
		form = fmt.Sprintf("(car (mapcar (lambda (e) (convert e %s)) (list x)))", c.Class)
	case 2:
		form = fmt.Sprintf("(flet ((cv (&rest a) (convert (car a) %s))) (cv x))", c.Class)
	}
	desc := fmt.Sprintf("(convert %s %s)", show(c.D.V()), c.Class)
	got, err := lw.Interpret(ctx, form)
	cls, _ := errClass(err)
	switch st {
	case hOK:
		o.Label("%s to %s", c.D.K, c.Class)
		if err != nil {
			return fmt.Errorf("%s: %v, expected %s", desc, err, show(want))
		}
		if g := show(fromNode(got)); g != show(want) {
			return fmt.Errorf("%s: %s, expected %s", desc, g, show(want))
		}
		switch want.(type) {
		case Flt, Int:
			if !nodeIs(got, want) {
				return fmt.Errorf("%s: %v, expected %v", desc, got, show(want))
			}
		}
		if c.D.K != "i" || c.Class != "<integer>" {
			o.NonTrivial()
		}
	case "float-text":
		o.Label("float to text")
		o.NonTrivial()
		s, isStr := got.(gmnlisp.String)
		if err != nil || !isStr {
			return fmt.Errorf("%s: %v %v", desc, got, err)
		}
		f, e := strconv.ParseFloat(s.String(), 64)
		if e != nil || math.Float64bits(f) != math.Float64bits(c.D.float()) {
			return fmt.Errorf("%s: %q does not denote the number", desc, s.String())
		}
		if v, ok, vague := numSyntax(s.String()); !vague && (!ok || !nodeIs(gmnlisp.Float(c.D.float()), v)) {
			return fmt.Errorf("%s: %q is not the notation of the number", desc, s.String())
		}
	case hDomain:
		o.Label("outside the range")
		o.NonTrivial()
		if err == nil || cls != hDomain {
			return fmt.Errorf("%s: %v %v, expected a domain error", desc, got, err)
		}
	case "parse":
		o.Label("not the notation")
		o.NonTrivial()
		if e := parseFail(ctx, lw, form, c.D.S, err, got); e != nil {
			return e
		}
	default:
		o.Label("unsupported %s to %s", c.D.K, c.Class)
		if err == nil {
			return fmt.Errorf("%s: %s, expected an error", desc, show(fromNode(got)))
		}
	}
	// the source is untouched
	v, err := lw.Interpret(ctx, "x")
	if err != nil || show(fromNode(v)) != show(c.D.V()) {
		return fmt.Errorf("%s: the source is now %v %v", desc, v, err)
	}
	return nil
}

// ---- chains of conversions that invert each other, and independence ----

type chainCase struct {
	D     D   `json:"d"`
	Chain int `json:"chain"`
	At    int `json:"at"`
}

var convChains = []struct {
	kind string
	text string // gives t
}{
	{"i", `(eql x (convert (convert x <string>) <integer>))`},
	{"i", `(eql x (parse-number (convert x <string>)))`},
	{"i", `(eql x (read (create-string-input-stream (convert x <string>))))`},
	{"i", `(if (and (< x 9007199254740992) (< -9007199254740992 x)) (eql x (convert (convert x <float>) <integer>)) t)`},
	{"i", `(let ((c (mod x 55296))) (eql c (convert (convert c <character>) <integer>)))`},
	{"i", `(equal (convert x <string>) (let ((o (create-string-output-stream))) (format o "~D" x) (get-output-stream-string o)))`},
	{"i", `(and (integerp x) (floatp (convert x <float>)) (stringp (convert x <string>)))`},
	{"f", `(eql x (convert (convert x <string>) <float>))`},
	{"f", `(= x (parse-number (convert x <string>)))`},
	{"f", `(if (and (< x 1e15) (< -1e15 x)) (eql (truncate x) (convert x <integer>)) t)`},
	{"f", `(equal (convert x <string>) (let ((o (create-string-output-stream))) (format o "~A" x) (get-output-stream-string o)))`},
	{"c", `(eql x (convert (convert x <integer>) <character>))`},
	{"c", `(equal (create-string 1 x) (convert (convert x <symbol>) <string>))`},
	{"c", `(eql x (elt (create-string 1 x) 0))`},
	{"c", `(eql x (car (convert (create-string 2 x) <list>)))`},
	{"s", `(equal x (apply #'string-append (mapcar (lambda (c) (create-string 1 c)) (convert x <list>))))`},
	{"s", `(equal (convert x <list>) (convert (convert x <general-vector>) <list>))`},
	{"s", `(equal x (convert (convert x <symbol>) <string>))`},
	{"s", `(= (length x) (length (convert x <list>)))`},
	{"s", `(equal x (convert x <string>))`},
	{"l", `(equal x (convert (convert x <general-vector>) <list>))`},
	{"l", `(eq x (convert x <list>))`},
	{"l", `(let ((v (convert x <general-vector>)) (i 0) (ok t)) (dolist (e x) (if (not (eq e (aref v i))) (setq ok (eql e (aref v i)))) (setq i (+ i 1))) ok)`},
	{"a", `(equal x (convert (convert x <list>) <general-vector>))`},
	{"y", `(eq x (convert (convert x <string>) <symbol>))`},
	// a conversion makes a new object: changing it leaves the source alone
	{"l", `(let ((v (convert x <general-vector>))) (if (< 0 (length x)) (set-aref 'zap v (mod at (length x)))) (eq 'same (if (equal x y) 'same x)))`},
	{"a", `(let ((l (convert x <list>))) (if l (set-car 'zap l)) (equal x y))`},
	{"s", `(let ((l (convert x <list>))) (if l (set-car 'zap l)) (equal x y))`},
	{"a", `(let ((l (convert x <list>)) (m (convert x <list>))) (if l (set-car 'zap l)) (equal x (convert m <general-vector>)))`},
}

func genChain(t *rapid.T) chainCase {
	c := chainCase{Chain: below(t, len(convChains), "chain"), At: below(t, 9, "at")}
	switch k := convChains[c.Chain].kind; k {
	case "l", "a":
		n := between(t, 0, 5, "n")
		c.D = D{K: k}
		for i := 0; i < n; i++ {
			c.D.L = append(c.D.L, genData(t, dataCfg{}))
		}
		if k == "a" {
			c.D.Dim = []int{n}
		} else if n == 0 {
			c.D = D{K: "n"}
		}
	case "i":
		c.D = dInt(genInt(t))
	case "f":
		c.D = dFlt(genFloat(t))
	case "c":
		c.D = dChr(genRune(t, true))
	case "s":
		c.D = dStr(genStr(t, 8, true))
	case "y":
		c.D = dSym(genSymName(t, true))
	}
	return c
}

func checkChain(c chainCase, o *Obs) error {
	if (c.D.K == "s" || c.D.K == "y" || c.D.K == "c") && strings.Contains(convChains[c.Chain].text, "<symbol>") {
		if s := c.D.S; s == "nil" || s == "t" || c.D.K == "c" && c.D.I == 't' {
			o.Label("left open")
			return nil
		}
	}
	ctx := context.Background()
	w, _ := newWorld()
	lw := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("x"): c.D.Node(ctx, w), gmnlisp.NewSymbol("y"): c.D.Node(ctx, w), gmnlisp.NewSymbol("at"): gmnlisp.Integer(c.At)})
	text := convChains[c.Chain].text
	o.Label("%s", text)
	o.Sample(show(c.D.V()) + " " + text)
	o.NonTrivial()
	v, err := lw.Interpret(ctx, text)
	if err != nil || show(fromNode(v)) != "t" {
		return fmt.Errorf("%s with x = %s: %v %v", text, show(c.D.V()), v, err)
	}
	return nil
}

func initConvProps() {
	reg("C29", "number-texts", 100000, 1200000,
		"texts of numbers in every notation of the reader (about the 64-bit limits, all radixes, floats of all magnitudes), damaged ones and random ones, given to parse-number, the reader and convert, against a hand-written reading of the notation with exact rational arithmetic; non-trivial: more than two characters or no number",
		func(t *rapid.T) numTextCase {
			return numTextCase{genNumText(t), below(t, 3, "mode")}
		}, checkNumText)
	reg("C29", "convert", 100000, 1200000,
		"a value of any type converted to each class against a table of the conversions; unsupported pairs must be refused and the source stay as it is; non-trivial: a conversion that changes the type, or a refusal",
		func(t *rapid.T) convCase {
			return convCase{convSource(t), pickOf(t, convClasses, "class"), below(t, 3, "mode")}
		}, checkConvert)
	reg("C29", "inverses", 60000, 900000,
		"a chain of conversions that is the identity, agrees with another way to get the result, or whose result is changed without changing the source; all cases are non-trivial",
		genChain, checkChain)
}
