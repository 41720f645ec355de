package main

// An S-expression reader and a canonical printer that share no code with the
// code under test.  They are the reference for the data the programs handle.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hymkor/gmnlisp"
)

// V is a value of the reference model.
type V interface{}

type (
	NilT struct{}
	TruT struct{}
	Int  int64
	Flt  float64
	Str  string
	Chr  rune
	Sym  string
	Kw   string
)

// Pair is a cons.
type Pair struct{ Car, Cdr V }

// Arr is an array.
type Arr struct {
	Dims []int
	El   []V
}

// Opaque stands for objects that are only shown by their class.
type Opaque struct{ Class string }

var (
	Nil = NilT{}
	Tru = TruT{}
)

func isNil(v V) bool { _, ok := v.(NilT); return ok }

func boolV(b bool) V {
	if b {
		return Tru
	}
	return Nil
}

func vlist(v ...V) V {
	var r V = Nil
	for i := len(v) - 1; i >= 0; i-- {
		r = &Pair{v[i], r}
	}
	return r
}

// vslice returns the elements of a proper list.
func vslice(v V) (r []V, ok bool) {
	for {
		switch p := v.(type) {
		case NilT:
			return r, true
		case *Pair:
			r = append(r, p.Car)
			v = p.Cdr
		default:
			return r, false
		}
	}
}

// show is the canonical text of a value.
func show(v V) string {
	var sb strings.Builder
	n := 20000
	showTo(&sb, v, &n, 0)
	return sb.String()
}

func showSymbol(name string) string {
	plain := name != ""
	for _, c := range name {
		if c <= ' ' || c > '~' || strings.ContainsRune("()'`,\"|;\\", c) || (c >= 'A' && c <= 'Z') {
			plain = false
		}
	}
	if plain {
		return name
	}
	return "|" + strconv.Quote(name) + "|"
}

func showFloat(f float64) string {
	if math.IsNaN(f) {
		return "NaN.f"
	}
	return strconv.FormatFloat(f, 'g', -1, 64) + "f"
}

func showTo(sb *strings.Builder, v V, n *int, depth int) {
	*n--
	if *n < 0 || depth > 5000 {
		sb.WriteString("<too large>")
		return
	}
	switch x := v.(type) {
	case nil:
		sb.WriteString("<go nil>")
	case NilT:
		sb.WriteString("nil")
	case TruT:
		sb.WriteString("t")
	case Int:
		sb.WriteString(strconv.FormatInt(int64(x), 10))
	case Flt:
		sb.WriteString(showFloat(float64(x)))
	case Str:
		sb.WriteString(strconv.Quote(string(x)))
	case Chr:
		fmt.Fprintf(sb, "#\\U+%04X", int32(x))
	case Sym:
		sb.WriteString(showSymbol(string(x)))
	case Kw:
		sb.WriteString("<kw " + strconv.Quote(string(x)) + ">")
	case *Pair:
		sb.WriteByte('(')
		showTo(sb, x.Car, n, depth+1)
		var rest V = x.Cdr
		for {
			if p, ok := rest.(*Pair); ok {
				sb.WriteByte(' ')
				showTo(sb, p.Car, n, depth+1)
				rest = p.Cdr
				if *n < 0 {
					break
				}
				continue
			}
			break
		}
		if !isNil(rest) {
			sb.WriteString(" . ")
			showTo(sb, rest, n, depth+1)
		}
		sb.WriteByte(')')
	case *Arr:
		fmt.Fprintf(sb, "#%v[", x.Dims)
		for i, e := range x.El {
			if i > 0 {
				sb.WriteByte(' ')
			}
			showTo(sb, e, n, depth+1)
		}
		sb.WriteByte(']')
	case Opaque:
		sb.WriteString("#<" + x.Class + ">")
	case *Fun:
		sb.WriteString("#<<function>>")
	case *Hash:
		sb.WriteString("#<<hashtable>>")
	case *Cond:
		sb.WriteString("#<" + x.Class + ">")
	default:
		fmt.Fprintf(sb, "#<%T>", v)
	}
}

// fromNode translates a value of the interpreter under test.
func fromNode(n gmnlisp.Node) V {
	limit := 20000
	return fromNodeN(n, &limit, 0)
}

func fromNodeN(node gmnlisp.Node, limit *int, depth int) V {
	*limit--
	if *limit < 0 || depth > 5000 {
		return Opaque{"too large"}
	}
	if node == nil {
		if depth > 0 {
			return Nil // the cdr of a cons may be a Go nil
		}
		return nil
	}
	switch x := node.(type) {
	case gmnlisp.Integer:
		return Int(x)
	case gmnlisp.Float:
		return Flt(x)
	case gmnlisp.String:
		return Str(x)
	case gmnlisp.Rune:
		return Chr(x)
	case gmnlisp.Keyword:
		return Kw(x.String())
	case *gmnlisp.Cons:
		if x == nil {
			return nil
		}
		first := &Pair{}
		cur := first
		for {
			cur.Car = fromNodeN(x.Car, limit, depth+1)
			if next, ok := x.Cdr.(*gmnlisp.Cons); ok && next != nil && *limit > 0 {
				*limit--
				p := &Pair{}
				cur.Cdr = p
				cur, x = p, next
				continue
			}
			cur.Cdr = fromNodeN(x.Cdr, limit, depth+1) // depth+1 > 0: nil is the empty list
			return first
		}
	case *gmnlisp.Array:
		return arrayFromNode(x, limit, depth)
	case gmnlisp.FunctionRef:
		return Opaque{"<function>"}
	}
	if gmnlisp.IsNone(node) {
		return Nil
	}
	if node == gmnlisp.Node(gmnlisp.True) {
		return Tru
	}
	if s, ok := node.(gmnlisp.Symbol); ok {
		return Sym(s.String())
	}
	cls := "?"
	func() {
		defer func() { recover() }()
		if c := node.ClassOf(); c != nil {
			cls = c.Name().String()
		}
	}()
	return Opaque{cls}
}

// arrayFromNode finds out the dimensions from the lengths reachable by Elt.
func arrayFromNode(a *gmnlisp.Array, limit *int, depth int) V {
	var elems []gmnlisp.Node
	for i := 0; ; i++ {
		e, err := a.Elt(i)
		if err != nil {
			break
		}
		elems = append(elems, e)
		if i > 20000 {
			return Opaque{"too large"}
		}
	}
	rank := arrayRank(a)
	if rank <= 1 {
		r := &Arr{Dims: []int{len(elems)}}
		for _, e := range elems {
			r.El = append(r.El, fromNodeN(e, limit, depth+1))
		}
		return r
	}
	r := &Arr{}
	for i, e := range elems {
		sub, ok := e.(*gmnlisp.Array)
		if !ok {
			return Opaque{"bad array"}
		}
		sv, ok := arrayFromNode(sub, limit, depth+1).(*Arr)
		if !ok {
			return Opaque{"bad array"}
		}
		if i == 0 {
			r.Dims = append([]int{len(elems)}, sv.Dims...)
		} else if fmt.Sprint(r.Dims[1:]) != fmt.Sprint(sv.Dims) {
			return Opaque{"ragged array"}
		}
		r.El = append(r.El, sv.El...)
	}
	if r.Dims == nil {
		r.Dims = make([]int, rank)
	}
	return r
}

// arrayRank is read off the printed form (#( = 1, #na = n).
func arrayRank(a *gmnlisp.Array) int {
	var w prefixWriter
	a.PrintTo(&w, gmnlisp.PRINT)
	s := string(w)
	if strings.HasPrefix(s, "#(") {
		return 1
	}
	i := 1
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i < 2 {
		return 1
	}
	n, _ := strconv.Atoi(s[1:i])
	return n
}

type prefixWriter []byte

func (w *prefixWriter) Write(p []byte) (int, error) {
	if room := 16 - len(*w); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		*w = append(*w, p[:room]...)
	}
	return len(p), nil
}

// sxReader reads the program subset.
type sxReader struct {
	s   string
	pos int
}

type sxError string

func (r *sxReader) fail(f string, a ...any) { panic(sxError(fmt.Sprintf(f, a...))) }

func (r *sxReader) peek() rune {
	if r.pos >= len(r.s) {
		return -1
	}
	c, _ := utf8.DecodeRuneInString(r.s[r.pos:])
	return c
}

func (r *sxReader) next() rune {
	if r.pos >= len(r.s) {
		r.fail("unexpected end")
	}
	c, n := utf8.DecodeRuneInString(r.s[r.pos:])
	r.pos += n
	return c
}

func (r *sxReader) skip() {
	for r.pos < len(r.s) {
		switch c := r.s[r.pos]; {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			r.pos++
		case c == ';':
			for r.pos < len(r.s) && r.s[r.pos] != '\n' {
				r.pos++
			}
		default:
			return
		}
	}
}

// readAllV reads all the data of a text.
func readAllV(s string) (r []V, err error) {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(sxError); ok {
				err = fmt.Errorf("sx: %s in %q", string(se), s)
				return
			}
			panic(e)
		}
	}()
	rd := &sxReader{s: s}
	for {
		rd.skip()
		if rd.pos >= len(rd.s) {
			return r, nil
		}
		r = append(r, rd.read())
	}
}

func (r *sxReader) read() V {
	r.skip()
	switch c := r.next(); c {
	case '(':
		var items []V
		for {
			r.skip()
			if r.peek() == ')' {
				r.next()
				return vlist(items...)
			}
			if r.peek() == '.' && r.pos+1 < len(r.s) && r.s[r.pos+1] == ' ' {
				r.next()
				tail := r.read()
				r.skip()
				if r.next() != ')' {
					r.fail("bad dotted list")
				}
				for i := len(items) - 1; i >= 0; i-- {
					tail = &Pair{items[i], tail}
				}
				return tail
			}
			items = append(items, r.read())
		}
	case ')':
		r.fail("unexpected )")
	case '\'':
		return vlist(Sym("quote"), r.read())
	case '`':
		return vlist(Sym("quasiquote"), r.read())
	case ',':
		return vlist(Sym("unquote"), r.read())
	case '"':
		var sb strings.Builder
		for {
			c := r.next()
			if c == '"' {
				return Str(sb.String())
			}
			if c == '\\' {
				c = r.next()
				if c == 'n' {
					c = '\n'
				}
			}
			sb.WriteRune(c)
		}
	case '#':
		switch r.peek() {
		case '\'':
			r.next()
			return vlist(Sym("function"), r.read())
		case '\\':
			r.next()
			c := r.next()
			tok := string(c) + r.token()
			switch tok {
			case "space":
				return Chr(' ')
			case "newline":
				return Chr('\n')
			}
			if utf8.RuneCountInString(tok) != 1 {
				r.fail("unknown character %q", tok)
			}
			return Chr(c)
		case '(':
			l, ok := vslice(r.read())
			if !ok {
				r.fail("bad vector")
			}
			return &Arr{Dims: []int{len(l)}, El: l}
		}
		r.fail("unknown # form")
	default:
		tok := string(c) + r.token()
		return atomV(tok)
	}
	return nil
}

func (r *sxReader) token() string {
	start := r.pos
	for r.pos < len(r.s) && !strings.ContainsRune(" \t\r\n()'`,\";", rune(r.s[r.pos])) {
		r.pos++
	}
	return r.s[start:r.pos]
}

func atomV(tok string) V {
	if tok == "nil" {
		return Nil
	}
	if tok == "t" {
		return Tru
	}
	if n, err := strconv.ParseInt(tok, 10, 64); err == nil {
		return Int(n)
	}
	if tok[0] == '-' || (tok[0] >= '0' && tok[0] <= '9') {
		if f, err := strconv.ParseFloat(tok, 64); err == nil {
			return Flt(f)
		}
	}
	if tok[0] == ':' || tok[0] == '&' {
		return Kw(tok)
	}
	return Sym(tok)
}
