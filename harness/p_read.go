package main

// C01 printing and reading back, C02 the reader.

import (
	"context"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

func letVars(w *gmnlisp.World, vars map[string]gmnlisp.Node) *gmnlisp.World {
	v := gmnlisp.Variables{}
	for k, n := range vars {
		v[gmnlisp.NewSymbol(k)] = n
	}
	return w.Let(v)
}

func evalString(ctx context.Context, w *gmnlisp.World, text string) (string, error) {
	v, err := w.Interpret(ctx, text)
	if err != nil {
		return "", fmt.Errorf("%s: %w", text, err)
	}
	s, ok := v.(gmnlisp.String)
	if !ok {
		return "", fmt.Errorf("%s: not a string but %s", text, show(fromNode(v)))
	}
	return string(s), nil
}

func checkRoundTrip(d D, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	node := d.Node(ctx, w)
	want := show(d.V())
	if got := show(fromNode(node)); got != want {
		return fmt.Errorf("harness: built %s for %s", got, want)
	}
	lw := letVars(w, map[string]gmnlisp.Node{"x": node})
	s1, err := evalString(ctx, lw, `(format nil "~s" x)`)
	if err != nil {
		return err
	}
	s2, err := evalString(ctx, lw, `(let ((o (create-string-output-stream))) (format-object o x t) (get-output-stream-string o))`)
	if err != nil {
		return err
	}
	if s1 != s2 {
		return fmt.Errorf("~s writes %q, format-object writes %q", s1, s2)
	}
	texts := []string{s1}
	if d.K == "l" || d.K == "s" || d.K == "y" || d.K == "c" || d.K == "a" {
		if g, ok := node.(fmt.GoStringer); ok {
			if gs := g.GoString(); gs != s1 {
				texts = append(texts, gs)
			}
		}
	}
	for _, s := range texts {
		nodes, err := gmnlisp.ReadAll(strings.NewReader(s))
		if err != nil {
			return fmt.Errorf("printed as %q, which cannot be read: %v", s, err)
		}
		if len(nodes) != 1 {
			return fmt.Errorf("printed as %q, which reads as %d data", s, len(nodes))
		}
		if got := show(fromNode(nodes[0])); got != want {
			return fmt.Errorf("%s is printed as %q, which reads as %s", want, s, got)
		}
		again, err := evalString(ctx, letVars(w, map[string]gmnlisp.Node{"x": nodes[0]}), `(format nil "~s" x)`)
		if err != nil {
			return err
		}
		if again != s1 {
			return fmt.Errorf("printed as %q, and after reading back as %q", s1, again)
		}
		// Lisp read, between other data
		lw := letVars(w, map[string]gmnlisp.Node{"x": node, "s": gmnlisp.String("before " + s + " after")})
		v, err := lw.Interpret(ctx, `(let* ((i (create-string-input-stream s)) (a (read i)) (y (read i)) (b (read i)) (e (read i nil 'end))) (list a y b e (equal x y)))`)
		if err != nil {
			return fmt.Errorf("reading %q: %v", s, err)
		}
		if got := show(fromNode(v)); got != "(before "+want+" after end t)" {
			return fmt.Errorf("%s is printed as %q; read and equal give %s", want, s, got)
		}
		// in a quoted form
		v, err = w.Interpret(ctx, "(car (cdr '(1 "+s+" 2)))")
		if err != nil {
			return fmt.Errorf("evaluating with %q: %v", s, err)
		}
		if got := show(fromNode(v)); got != want {
			return fmt.Errorf("quoted %q in a list is %s, expected %s", s, got, want)
		}
	}
	nt := false
	d.kinds(func(e D) {
		o.Label("kind %s", e.K)
		switch e.K {
		case "y", "s":
			if strings.IndexFunc(e.S, func(c rune) bool { return !(c >= 'a' && c <= 'z') }) >= 0 || e.S == "" {
				nt = true
			}
		case "f", "a":
			nt = true
		case "c":
			if !(e.I >= 'a' && e.I <= 'z') {
				nt = true
			}
		case "l":
			if e.T != nil || len(e.L) > 0 && e.L[0].K == "y" && strings.Contains("quote quasiquote unquote function", e.L[0].S) {
				nt = true
			}
		}
	})
	if nt {
		o.NonTrivial()
	}
	o.Sample(s1)
	return nil
}

type dataSeq struct {
	L   []D    `json:"l"`
	Sep string `json:"sep"`
}

// checkSequence prints several data to one stream and reads them back.
func checkSequence(c dataSeq, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	var l []gmnlisp.Node
	var want []string
	for _, d := range c.L {
		l = append(l, d.Node(ctx, w))
		want = append(want, show(d.V()))
	}
	lw := letVars(w, map[string]gmnlisp.Node{"l": gmnlisp.List(l...), "sep": gmnlisp.String(c.Sep)})
	v, err := lw.Interpret(ctx, `(let ((o (create-string-output-stream)))
 (mapc (lambda (x) (format o "~s" x) (format o sep)) l)
 (let ((i (create-string-input-stream (get-output-stream-string o))) (r nil) (x nil))
  (while (progn (setq x (read i nil l)) (not (eq x l))) (setq r (cons x r)))
  (reverse r)))`)
	if err != nil {
		return err
	}
	var got []string
	vs, _ := vslice(fromNode(v))
	for _, x := range vs {
		got = append(got, show(x))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("printed with %q between, %v reads back as %v", c.Sep, want, got)
	}
	if len(want) > 1 {
		o.NonTrivial()
	}
	return nil
}

// C02 --------------------------------------------------------------------

// readCase is a text with what it denotes.  States has for every prefix length
// E (must be an error), K (must be read, Done data) or ? (cuts a token).
type readCase struct {
	Text   string   `json:"text"`
	Want   []string `json:"want"`
	States string   `json:"states"`
	Done   []int    `json:"done"`
	Cuts   []int    `json:"cuts"`
}

type notation struct {
	t       *rapid.T
	sb      strings.Builder
	states  []byte
	done    []int
	ndone   int
	parens  int
	pending int
	last    string // the last token if it was not followed by layout
	feats   map[string]bool
}

func (n *notation) mark() {
	if n.parens+n.pending > 0 {
		n.states = append(n.states, 'E')
	} else {
		n.states = append(n.states, 'K')
	}
	n.done = append(n.done, n.ndone)
}

func (n *notation) inner(b byte) {
	n.states = append(n.states, b)
	n.done = append(n.done, n.ndone)
}

// raw emits a piece of text; each of its inner boundaries gets the state.
func (n *notation) raw(s string, state func(i int) byte) {
	for i := 0; i < len(s); i++ {
		if i == 0 {
			n.mark()
		} else {
			n.inner(state(i))
		}
	}
	n.sb.WriteString(s)
}

func (n *notation) layout(need bool) {
	k := below(n.t, 4, "layout")
	if need && k == 0 {
		k = 1
	}
	outer := func(int) byte {
		if n.parens+n.pending > 0 {
			return 'E'
		}
		return 'K'
	}
	// a comment must not follow a token directly
	for i := 0; i < k; i++ {
		c := below(n.t, 9, "piece")
		if i == 0 && need && c >= 7 {
			c = 0
		}
		switch c {
		case 0, 1, 2:
			n.raw(" ", outer)
		case 3:
			n.raw("\n", outer)
		case 4:
			n.raw(pickOf(n.t, []string{"\t", "\r\n", "  ", "\f", " \n\n "}, "ws"), outer)
		case 5, 6:
			n.raw(genLineComment(n.t), outer)
			n.feats["line comment"] = true
		default:
			s := genComment(n.t)
			n.raw(s, func(i int) byte {
				if i >= 2 || n.parens > 0 {
					return 'E'
				}
				return '?'
			})
			n.feats["block comment"] = true
		}
	}
	if k > 0 {
		n.last = ""
	}
}

func opens(tok string) bool {
	return strings.HasSuffix(tok, "(") && !strings.HasPrefix(tok, "#\\")
}

// tok emits a token with the layout it needs before it.
func (n *notation) tok(s string) {
	open := n.last == "" || opens(n.last) || n.last == ")" || n.last == "'" || n.last == "`" || n.last == "," || n.last == "#'"
	need := !open && s != "(" && s != ")"
	n.layout(need)
	str := s[0] == '"' || s[0] == '|'
	n.raw(s, func(int) byte {
		if str || n.parens > 0 {
			return 'E'
		}
		return '?'
	})
	n.last = s
	switch {
	case s == ")":
		n.parens--
	case opens(s):
		n.parens++
	}
}

func (n *notation) atom() V {
	switch below(n.t, 16, "atom") {
	case 0, 1:
		v := genInt(n.t)
		n.tok(strconv.FormatInt(v, 10))
		return Int(v)
	case 2:
		v := genInt(n.t)
		if v < 0 {
			v = -(v + 1)
		}
		s := strconv.FormatInt(v, 10)
		neg := pct(n.t, 30)
		s = strings.Repeat("0", below(n.t, 3, "zeros")) + s
		if neg {
			s = "-" + s
			v = -v
		}
		n.tok(s)
		return Int(v)
	case 3, 4:
		v := genInt(n.t)
		if v < 0 {
			v = -(v + 1)
		}
		var s string
		switch below(n.t, 6, "base") {
		case 0:
			s = fmt.Sprintf("#x%x", v)
		case 1:
			s = fmt.Sprintf("#x%X", v)
		case 2:
			s = fmt.Sprintf("#X%04x", v)
		case 3:
			s = fmt.Sprintf("#o%o", v)
		case 4:
			s = fmt.Sprintf("#b%b", v)
		default:
			s = fmt.Sprintf("#B%08b", v)
		}
		n.feats["radix"] = true
		n.tok(s)
		return Int(v)
	case 5, 6:
		f := genFloat(n.t)
		var s string
		switch below(n.t, 5, "form") {
		case 0:
			s = fltSrc(f)
		case 1:
			s = strings.Replace(fltSrc(f), "e", "E", 1)
		case 2:
			s = strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += "."
			}
		case 3:
			m := int64(between(n.t, -9999, 9999, "m"))
			e := between(n.t, -30, 30, "e")
			s = fmt.Sprintf("%d%s%d", m, pickOf(n.t, []string{"e", "E"}, "e"), e)
			if e >= 0 && pct(n.t, 50) {
				s = strings.NewReplacer("e", "e+", "E", "E+").Replace(s)
			}
			f, _ = strconv.ParseFloat(s, 64)
		default:
			s = strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".00"
			}
			if f >= 0 && s[0] != '-' && pct(n.t, 50) {
				s = "+" + s
			}
		}
		n.feats["float"] = true
		n.tok(s)
		return Flt(f)
	case 7, 8:
		r := genRune(n.t, true)
		var s string
		names := map[rune][]string{' ': {"#\\space"}, '\n': {"#\\newline", "#\\linefeed"}, '\t': {"#\\tab"}, '\r': {"#\\return"}}
		switch {
		case names[r] != nil && pct(n.t, 60):
			s = pickOf(n.t, names[r], "name")
		case r > ' ' && r != 127 && r < 0x80 && pct(n.t, 70), strings.ContainsRune("漢字あいλЖ😀", r):
			s = "#\\" + string(r)
		default:
			s = pickOf(n.t, []string{fmt.Sprintf("#\\U%X", r), fmt.Sprintf("#\\U%04x", r)}, "hex")
		}
		n.feats["character"] = true
		n.tok(s)
		return Chr(r)
	case 9, 10:
		k := below(n.t, 7, "len")
		var src, val strings.Builder
		src.WriteByte('"')
		for i := 0; i < k; i++ {
			r := genRune(n.t, true)
			if pct(n.t, 4) {
				// no letter is special after a backslash
				r = rune(pickOf(n.t, strings.Split("abefnrtuvxU0N", ""), "escaped")[0])
				src.WriteByte('\\')
			} else if r == '"' || r == '\\' {
				src.WriteByte('\\')
			} else if pct(n.t, 8) && r != '\uFEFF' {
				src.WriteByte('\\') // a needless escape
			}
			src.WriteRune(r)
			val.WriteRune(r)
		}
		src.WriteByte('"')
		n.feats["string"] = true
		n.tok(src.String())
		return Str(val.String())
	case 11:
		name := genSymName(n.t, true)
		n.tok("|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(name) + "|")
		n.feats["bar symbol"] = true
		return Sym(name)
	case 12:
		k := pickOf(n.t, []string{":a", ":key", "&rest", ":B"}, "kw")
		n.tok(k)
		return Kw(k)
	case 13:
		s := pickOf(n.t, []string{"nil", "NIL", "Nil", "()"}, "nil")
		if s == "()" {
			n.tok("(")
			n.layout(false)
			n.tok(")")
		} else {
			n.tok(s)
		}
		return Nil
	case 14:
		n.tok(pickOf(n.t, []string{"t", "T"}, "t"))
		return Tru
	}
	s := pickOf(n.t, []string{"a", "foo", "Bar", "1+", "-", "+", "a.b", "<=", "a-b", "set!", "x1", "*g*", "1a", "-a", "漢字", "...", "a:b", "%x"}, "sym")
	n.tok(s)
	return Sym(s)
}

func (n *notation) datum(d int) V {
	if d <= 0 || pct(n.t, 35) {
		return n.atom()
	}
	switch below(n.t, 8, "shape") {
	case 0, 1, 2, 3:
		k := below(n.t, 5, "len")
		n.tok("(")
		var items []V
		for i := 0; i < k; i++ {
			items = append(items, n.datum(d-1))
		}
		var tail V = Nil
		if k > 0 && pct(n.t, 30) {
			n.layout(true)
			n.tok(".")
			n.layout(true)
			tail = n.datum(d - 1)
			n.feats["dot"] = true
		}
		n.tok(")")
		for i := len(items) - 1; i >= 0; i-- {
			tail = &Pair{items[i], tail}
		}
		return tail
	case 4, 5:
		q := below(n.t, 4, "quote")
		n.tok([]string{"'", "`", ",", "#'"}[q])
		n.pending++
		v := n.datum(d - 1)
		n.pending--
		n.feats["quote"] = true
		return vlist(Sym([]string{"quote", "quasiquote", "unquote", "function"}[q]), v)
	default:
		rank := between(n.t, 1, 3, "rank")
		a := &Arr{}
		for i := 0; i < rank; i++ {
			a.Dims = append(a.Dims, between(n.t, 1, 3, "dim"))
		}
		if rank == 1 && pct(n.t, 15) {
			a.Dims[0] = 0
		}
		if rank == 3 {
			d = 1
		}
		n.array(a, a.Dims, d, rank)
		n.feats["array"] = true
		return a
	}
}

func (n *notation) array(a *Arr, dims []int, d, rank int) {
	if len(dims) == len(a.Dims) {
		if rank == 1 && pct(n.t, 80) {
			n.tok("#(")
		} else {
			n.tok(fmt.Sprintf("#%d%s(", rank, pickOf(n.t, []string{"a", "A"}, "a")))
		}
	} else {
		n.tok("(")
	}
	for i := 0; i < dims[0]; i++ {
		if len(dims) > 1 {
			n.array(a, dims[1:], d, rank)
		} else {
			a.El = append(a.El, n.datum(d-1))
		}
	}
	n.tok(")")
}

func genReadCase(t *rapid.T) readCase {
	n := &notation{t: t, feats: map[string]bool{}}
	var c readCase
	k := between(t, 1, 3, "data")
	for i := 0; i < k; i++ {
		v := n.datum(between(t, 0, 4, "depth"))
		n.ndone++
		c.Want = append(c.Want, show(v))
	}
	n.layout(false)
	n.mark()
	c.Text = n.sb.String()
	c.States = string(n.states)
	c.Done = n.done
	for i := 0; i < 12; i++ {
		c.Cuts = append(c.Cuts, below(t, len(c.Text)+1, "cut"))
	}
	return c
}

func showAll(nodes []gmnlisp.Node) (r []string) {
	for _, x := range nodes {
		r = append(r, show(fromNode(x)))
	}
	return
}

func checkRead(c readCase, o *Obs) error {
	nodes, err := gmnlisp.ReadAll(strings.NewReader(c.Text))
	if err != nil {
		return fmt.Errorf("%q: error %v, expected %v", c.Text, err, c.Want)
	}
	if got := showAll(nodes); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", c.Want) {
		return fmt.Errorf("%q reads as %q, expected %q", c.Text, got, c.Want)
	}
	// the same through Lisp
	ctx := context.Background()
	w, _ := newWorld()
	lw := letVars(w, map[string]gmnlisp.Node{"s": gmnlisp.String(c.Text)})
	v, err := lw.Interpret(ctx, `(let ((i (create-string-input-stream s)) (r nil) (x nil))
  (while (progn (setq x (read i nil 'end-of-it)) (not (eq x 'end-of-it))) (setq r (cons x r)))
  (reverse r))`)
	if err != nil {
		return fmt.Errorf("%q: read: %v", c.Text, err)
	}
	var got []string
	vs, _ := vslice(fromNode(v))
	for _, x := range vs {
		got = append(got, show(x))
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", c.Want) {
		return fmt.Errorf("%q: read gives %q, expected %q", c.Text, got, c.Want)
	}
	if len(c.Text) > 12 && strings.ContainsAny(c.Text, "(#|\"';") {
		o.NonTrivial()
	}
	o.Sample(c.Text)
	return nil
}

func checkTruncated(c readCase, o *Obs) error {
	for _, p := range c.Cuts {
		if p >= len(c.States) {
			continue
		}
		text := c.Text[:p]
		switch c.States[p] {
		case 'E':
			o.NonTrivial()
			o.Label("cut inside")
			nodes, err := gmnlisp.ReadAll(strings.NewReader(text))
			if err == nil {
				return fmt.Errorf("truncated %q is accepted as %q", text, showAll(nodes))
			}
			w, _ := newWorld()
			if v, err := w.Interpret(context.Background(), "nil "+text); err == nil {
				return fmt.Errorf("truncated program %q is accepted, value %s", text, show(fromNode(v)))
			}
		case 'K':
			o.Label("cut between")
			nodes, err := gmnlisp.ReadAll(strings.NewReader(text))
			if err != nil {
				return fmt.Errorf("%q: error %v", text, err)
			}
			if got := showAll(nodes); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", c.Want[:c.Done[p]]) {
				return fmt.Errorf("%q reads as %q, expected %q", text, got, c.Want[:c.Done[p]])
			}
		}
	}
	o.Sample(c.Text)
	return nil
}

type textCase struct {
	Text string `json:"text"`
}

func genSoup(t *rapid.T) textCase {
	n := between(t, 0, 25, "n")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch below(t, 6, "piece") {
		case 0:
			sb.WriteRune(genRune(t, true))
		case 1:
			sb.WriteString(pickOf(t, []string{" ", "\n", "(", ")", "(", ")"}, "p"))
		case 2:
			sb.WriteString(pickOf(t, trickyNames, "name"))
		default:
			sb.WriteString(pickOf(t, []string{"#(", "#1a(", "#2a(", "#2A((", "#0a(", "#99999999999a(", "#-1a(", "#a(", "#\\", "#\\space", "#\\U", "#\\Uffffffffff", "#x", "#xg", "#b2", "#'", "'", "`", ",", ",@", "|", "\"", "\\", "\\\"", "#|", "|#", ";", "#", ".", " . ", "1e999", "-1e-999", "99999999999999999999", "#xffffffffffffffffff", "#\\(", "#\\)", "#\\\"", "#\\|", "#\\;", "nil", "t", "a", ":", "&", "..", "#:g", "#+x", "#.", "--1", "1.2.3", "1e+", "+.5", "\x00"}, "tok"))
		}
	}
	return textCase{sb.String()}
}

func checkSoup(c textCase, o *Obs) error {
	nodes, err := gmnlisp.ReadAll(strings.NewReader(c.Text))
	o.Sample(c.Text)
	if err != nil {
		o.Label("rejected")
		if len(c.Text) > 3 {
			o.NonTrivial()
		}
		return nil
	}
	o.Label("read %d data", min(len(nodes), 5))
	if len(nodes) > 1 {
		o.NonTrivial()
	}
	// what was read is usable: it prints, and the text reads as the same data
	w, _ := newWorld()
	ctx := context.Background()
	for i, x := range nodes {
		if x == nil {
			return fmt.Errorf("%q: datum %d is a Go nil", c.Text, i)
		}
		if !printable(x) {
			continue
		}
		want := show(fromNode(x))
		s, err := evalString(ctx, letVars(w, map[string]gmnlisp.Node{"x": x}), `(format nil "~s" x)`)
		if err != nil {
			return fmt.Errorf("%q: datum %d cannot be printed: %v", c.Text, i, err)
		}
		again, err := gmnlisp.ReadAll(strings.NewReader(s))
		if err != nil || len(again) != 1 || show(fromNode(again[0])) != want {
			return fmt.Errorf("%q: datum %d is %s, printed as %q, which reads as %q (%v)", c.Text, i, want, s, showAll(again), err)
		}
	}
	return nil
}

// printable: infinite floats and empty arrays of several dimensions have no
// notation, and big integers are compared as text.
func printable(n gmnlisp.Node) bool {
	ok := true
	var walk func(v V)
	walk = func(v V) {
		switch x := v.(type) {
		case Flt:
			if float64(x) > 1.7e308 || float64(x) < -1.7e308 {
				ok = false
			}
		case *Pair:
			walk(x.Car)
			walk(x.Cdr)
		case *Arr:
			if len(x.El) == 0 && len(x.Dims) > 1 {
				ok = false
			}
			for _, e := range x.El {
				walk(e)
			}
		case Chr:
			if !(x >= 0 && x <= 0x10ffff) || x >= 0xd800 && x < 0xe000 {
				ok = false
			}
		case Kw:
			// a keyword is read as written and has no notation with escapes
			for _, c := range string(x)[1:] {
				if !(c >= 'a' && c <= 'z') {
					ok = false
				}
			}
		case Opaque:
			ok = false
		case Sym:
			if x == ")" || x == "nil" || x == "t" {
				ok = false
			}
		}
	}
	walk(fromNode(n))
	return ok
}

type bigCase struct {
	Digits string `json:"digits"`
}

func initReadProps() {
	reg("C01", "roundtrip", 40000, 1000000,
		"random data of every readable type built with the host API, printed by ~s, format-object and GoString and read back by the host reader, read and quote; non-trivial: contains a float, an array, a dotted or quote-like list, or a string, character or symbol that is not just lower-case letters",
		func(t *rapid.T) D {
			return genData(t, dataCfg{depth: between(t, 0, 4, "depth"), anySym: true, control: true, arrays: true, dotted: true})
		}, checkRoundTrip)
	reg("C01", "sequence", 10000, 200000,
		"several random data written one after the other to one stream with a separator and read back one by one; non-trivial: at least two data",
		func(t *rapid.T) dataSeq {
			c := dataSeq{Sep: pickOf(t, []string{" ", "\n", "\t", "  \n", " ;c\n"}, "sep")}
			for i := between(t, 1, 5, "n"); i > 0; i-- {
				c.L = append(c.L, genData(t, dataCfg{depth: between(t, 0, 2, "depth"), anySym: true, control: true, arrays: true, dotted: true}))
			}
			return c
		}, checkSequence)
	reg("C01", "big-integer", 3000, 50000,
		"integers beyond 64 bits in decimal read and printed again; non-trivial: more than 19 digits",
		func(t *rapid.T) bigCase {
			n := between(t, 17, 60, "n")
			s := pickOf(t, []string{"", "-"}, "sign") + string(rune('1'+below(t, 9, "d")))
			for i := 0; i < n; i++ {
				s += string(rune('0' + below(t, 10, "d")))
			}
			return bigCase{s}
		}, func(c bigCase, o *Obs) error {
			if len(c.Digits) > 20 {
				o.NonTrivial()
			}
			want, ok := new(big.Int).SetString(c.Digits, 10)
			if !ok {
				return fmt.Errorf("harness")
			}
			w, _ := newWorld()
			s, err := evalString(context.Background(), w, `(format nil "~s" '(`+c.Digits+`))`)
			if err != nil {
				return err
			}
			if s != "("+want.String()+")" {
				return fmt.Errorf("%s is printed as %s", want, s)
			}
			return nil
		})
	reg("C02", "notation", 40000, 1000000,
		"random data written in random equivalent notations with random layout (spaces, line and nested block comments) between the tokens, read by the host reader and by read; non-trivial: more than 12 characters with structure",
		genReadCase, checkRead)
	reg("C02", "truncation", 30000, 800000,
		"the same texts cut at 12 random places; inside a structure, string, bar symbol, block comment or after a quote an error is due, between data exactly the complete ones; non-trivial: a cut inside",
		genReadCase, checkTruncated)
	reg("C02", "soup", 40000, 1000000,
		"random sequences of token fragments and characters; the reader must end without a panic, and what it accepts must print and read back; non-trivial: rejected after more than 3 characters, or more than one datum",
		genSoup, checkSoup)
}

var commentPieces = []string{"|", "|", "#", "#", "#|", "|#", " ", "a", "x y", "(", ")", "\"", "'", ";", "\\", "\n", "漢", ",", "`", "#\\", "; c\n", "(a b)", "1"}

// genComment makes a block comment of random pieces, nested as they come.
func genComment(t *rapid.T) string {
	var sb strings.Builder
	for i := below(t, 7, "n"); i > 0; i-- {
		sb.WriteString(pickOf(t, commentPieces, "piece"))
	}
	body := sb.String()
	// the scanner of the notation: |# closes, #| opens, from left to right
	depth := 1
	for i := 0; i < len(body); i++ {
		if i+1 < len(body) && body[i:i+2] == "#|" {
			depth++
			i++
		} else if i+1 < len(body) && body[i:i+2] == "|#" {
			depth--
			i++
			if depth == 0 {
				return "#|" + body[:i+1]
			}
		}
	}
	if strings.HasSuffix(body, "#") {
		body += " "
	}
	return "#|" + body + strings.Repeat("|#", depth)
}

func genLineComment(t *rapid.T) string {
	var sb strings.Builder
	sb.WriteString(";")
	for i := below(t, 5, "n"); i > 0; i-- {
		sb.WriteString(strings.ReplaceAll(pickOf(t, commentPieces, "piece"), "\n", ""))
	}
	return sb.String() + "\n"
}
