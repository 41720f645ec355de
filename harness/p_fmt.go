package main

// C21 format and the format-* functions: histories of writes to every kind of
// destination, against a model of the characters each destination gets.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// fmtPar is a parameter of a directive: a number written out, a 'c padding, v
// (taken from the arguments) or # (the number of remaining arguments).
type fmtPar struct {
	K string `json:"k"` // n c v #
	N int    `json:"n,omitempty"`
	C string `json:"c,omitempty"`
}

// fmtSeg is a text or a directive.
type fmtSeg struct {
	Text string   `json:"x,omitempty"`
	Dir  string   `json:"d,omitempty"`
	Par  []fmtPar `json:"p,omitempty"`
}

type fmtOp struct {
	Op   string   `json:"o"` // format format-object format-char format-integer format-float host new-stdout
	Dest string   `json:"to"`
	Segs []fmtSeg `json:"seg,omitempty"`
	Args []D      `json:"a,omitempty"`
	Flag bool     `json:"f,omitempty"` // bad format string; format-object's escape flag
	Rdx  int      `json:"r,omitempty"`
	Mode int      `json:"m,omitempty"`
}

type fmtCase struct {
	Ops []fmtOp `json:"ops"`
}

var fmtDests = []string{"nil", "nil", "t", "t", "so", "eo", "s0", "s0", "s1", "f0", "f0", "f1", "bad"}

func genFmtArg(t *rapid.T, dir string) D {
	if pct(t, 4) {
		dir = pickOf(t, []string{"a", "d", "f", "c"}, "wrong")
	}
	switch strings.ToLower(dir) {
	case "d", "b", "o", "x":
		return dInt(genInt(t))
	case "f", "e", "g":
		if pct(t, 30) {
			return dInt(int64(between(t, -1<<53, 1<<53, "int")))
		}
		return dFlt(genFloat(t))
	case "c":
		return dChr(genRune(t, true))
	}
	if pct(t, 20) {
		return dStr(genShortStr(t, 6) + pickOf(t, []string{"\n", "x", "\n\n", "~a"}, "end"))
	}
	if pct(t, 2) {
		return dStr(strings.Repeat(genShortStr(t, 6)+"x", 1000))
	}
	return genData(t, dataCfg{depth: 2, anySym: true, control: true, arrays: true, dotted: true})
}

func genFmtText(t *rapid.T) string {
	s := genStr(t, 5, true)
	if pct(t, 30) {
		s += "\n"
	}
	return strings.ReplaceAll(s, "~", "-")
}

func genFormat(t *rapid.T) (segs []fmtSeg, args []D) {
	for n := between(t, 0, 6, "segs"); n > 0; n-- {
		if pct(t, 35) {
			segs = append(segs, fmtSeg{Text: genFmtText(t)})
			continue
		}
		dir := pickOf(t, []string{"a", "a", "s", "d", "b", "o", "x", "f", "e", "g", "%", "&", "&", "~"}, "dir")
		if pct(t, 30) {
			dir = strings.ToUpper(dir)
		}
		if pct(t, 1) {
			dir = pickOf(t, []string{"z", "q", "(", "漢"}, "bad")
		}
		s := fmtSeg{Dir: dir}
		par := func(max int) {
			switch below(t, 10, "par") {
			case 0:
				s.Par = append(s.Par, fmtPar{K: "v"})
				args = append(args, dInt(int64(between(t, 0, max, "v"))))
			case 1:
				s.Par = append(s.Par, fmtPar{K: "#"})
			default:
				s.Par = append(s.Par, fmtPar{K: "n", N: between(t, 0, max, "n")})
			}
		}
		switch d := strings.ToLower(dir); d {
		case "a", "s", "d", "b", "o", "x":
			if pct(t, 45) {
				par(16)
				if strings.Contains("dbox", d) && pct(t, 50) {
					s.Par = append(s.Par, fmtPar{K: "c", C: string(pickOf(t, []rune("0*, 漢5x'v#"), "pad"))})
				}
			}
		case "f", "e", "g":
			if pct(t, 45) {
				par(20)
				if pct(t, 60) {
					par(8)
				}
			}
		case "%", "&":
			if pct(t, 25) {
				par(3)
			}
		}
		if !strings.Contains("%&~", dir) {
			args = append(args, genFmtArg(t, dir))
		}
		segs = append(segs, s)
	}
	if len(args) > 0 && pct(t, 3) {
		args = args[:below(t, len(args), "few")]
	}
	return
}

func genFmtCase(t *rapid.T) fmtCase {
	var c fmtCase
	for n := between(t, 1, 8, "ops"); n > 0; n-- {
		op := fmtOp{Op: "format", Dest: pickOf(t, fmtDests, "to"), Mode: below(t, 4, "mode")}
		if op.Dest == "bad" && pct(t, 70) {
			op.Dest = "t"
		}
		switch k := below(t, 20, "op"); {
		case k < 11:
			op.Segs, op.Args = genFormat(t)
			op.Flag = pct(t, 1)
		case k < 13:
			op.Op = "format-object"
			op.Flag = pct(t, 50)
			op.Args = []D{genFmtArg(t, "a")}
		case k < 15:
			op.Op = "format-char"
			op.Args = []D{genFmtArg(t, "c")}
		case k < 17:
			op.Op = "format-integer"
			op.Rdx = between(t, 2, 36, "radix")
			if pct(t, 4) {
				op.Rdx = pickOf(t, []int{-1, 0, 1, 37, 100}, "radix")
			}
			op.Args = []D{genFmtArg(t, "d")}
		case k < 18:
			op.Op = "format-float"
			op.Args = []D{genFmtArg(t, "f")}
		case k < 19:
			op.Op = "host"
			op.Dest = "t"
			op.Segs = []fmtSeg{{Text: genFmtText(t)}}
		default:
			op.Op = "new-stdout"
			op.Dest = "t"
			if pct(t, 50) {
				op.Op = "host-rune"
				op.Args = []D{dChr(genRune(t, true))}
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// renderPlain is the printed form of data without characters or shapes whose
// notation is a matter of choice; ok is false for others.
func renderPlain(d D, readable bool) (string, bool) {
	switch d.K {
	case "i":
		return strconv.FormatInt(d.I, 10), true
	case "f":
		// six decimals when that is the number; otherwise the notation is a matter of choice
		s := strconv.FormatFloat(d.float(), 'f', 6, 64)
		g, err := strconv.ParseFloat(s, 64)
		return s, err == nil && g == d.float()
	case "s":
		if !readable {
			return d.S, true
		}
		for _, r := range d.S {
			if !unicode.IsPrint(r) {
				return "", false
			}
		}
		return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(d.S) + `"`, true
	case "c":
		r := rune(d.I)
		if !readable {
			return string(r), true
		}
		if !unicode.IsLetter(r) {
			return "", false
		}
		return `#\` + string(r), true
	case "y":
		if !readable {
			return d.S, true
		}
		for _, r := range d.S {
			if r < 'a' || r > 'z' {
				return "", false
			}
		}
		return d.S, d.S != ""
	case "k":
		return d.S, true
	case "n":
		return "nil", true
	case "t":
		return "t", true
	case "l":
		if len(d.L) == 0 {
			return "nil", true
		}
		if h := d.L[0]; h.K == "y" && contains([]string{"quote", "quasiquote", "unquote", "function"}, h.S) {
			return "", false
		}
		var l []string
		for _, e := range d.L {
			s, ok := renderPlain(e, readable)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		if d.T != nil {
			if d.T.K == "l" || len(d.L) > 1 {
				return "", false
			}
			s, ok := renderPlain(*d.T, readable)
			if !ok {
				return "", false
			}
			l = append(l, ".", s)
		}
		return "(" + strings.Join(l, " ") + ")", true
	case "a":
		var l []string
		for _, e := range d.L {
			s, ok := renderPlain(e, readable)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		dim := d.Dim
		if len(d.L) == 0 {
			return "#()", true
		}
		for k := len(dim) - 1; k >= 0; k-- {
			var r []string
			for i := 0; i < len(l); i += dim[k] {
				r = append(r, "("+strings.Join(l[i:i+dim[k]], " ")+")")
			}
			l = r
		}
		if len(dim) == 1 {
			return "#" + l[0], true
		}
		return fmt.Sprintf("#%dA%s", len(dim), l[0]), true
	}
	panic(d.K)
}

// fmtRender is the printed form; the notation of unusual names and characters
// is taken from a print of the datum alone by another interpreter instance.
func fmtRender(d D, readable bool) string {
	if s, ok := renderPlain(d, readable); ok {
		return s
	}
	n := d.Node(context.Background(), fmtWorld())
	var sb strings.Builder
	p, ok := n.(interface {
		PrintTo(io.Writer, gmnlisp.PrintMode) (int, error)
	})
	if ok {
		mode := gmnlisp.PRINC
		if readable {
			mode = gmnlisp.PRINT
		}
		p.PrintTo(&sb, mode)
		return sb.String()
	}
	if readable {
		if g, ok := n.(fmt.GoStringer); ok {
			return g.GoString()
		}
	}
	return n.String()
}

var fmtW *gmnlisp.World

func fmtWorld() *gmnlisp.World {
	if fmtW == nil {
		fmtW = gmnlisp.New()
	}
	return fmtW
}

func padLeft(s string, width int, pad string) string {
	if n := width - utf8.RuneCountInString(s); n > 0 {
		return strings.Repeat(pad, n) + s
	}
	return s
}

func intText(v D, base int, par []int) (string, bool) {
	if v.K != "i" {
		return "", false
	}
	s := strings.ToUpper(strconv.FormatInt(v.I, base))
	if len(par) >= 1 {
		pad := " "
		if len(par) >= 2 {
			pad = string(rune(par[1]))
		}
		s = padLeft(s, par[0], pad)
	}
	return s, true
}

func floatText(v D, verb byte, par []int) (string, bool) {
	var f float64
	switch v.K {
	case "i":
		f = float64(v.I)
	case "f":
		f = v.float()
	default:
		return "", false
	}
	prec := -1
	if len(par) >= 2 {
		prec = par[1]
	}
	s := strconv.FormatFloat(f, verb, prec, 64)
	if len(par) >= 1 {
		s = padLeft(s, par[0], " ")
	}
	return s, true
}

// fmtModel gives the characters written by the operation to a destination
// whose column is zero or not; status as in hist.go.
func fmtModel(op fmtOp, col0 bool) (string, string) {
	var sb strings.Builder
	put := func(s string) {
		if s != "" {
			sb.WriteString(s)
			col0 = strings.HasSuffix(s, "\n")
		}
	}
	arg := func() D { return op.Args[0] }
	switch op.Op {
	case "host":
		return op.Segs[0].Text, hOK
	case "host-rune":
		return string(rune(arg().I)), hOK
	case "format-object":
		return fmtRender(arg(), op.Flag), hOK
	case "format-char":
		if arg().K != "c" {
			return "", hDomain
		}
		return string(rune(arg().I)), hOK
	case "format-integer":
		if op.Rdx < 2 || op.Rdx > 36 {
			return "", hAny
		}
		if arg().K == "f" {
			return "", hSkip
		}
		s, ok := intText(arg(), op.Rdx, nil)
		if !ok {
			return "", hAny
		}
		return s, hOK
	case "format-float":
		s, ok := floatText(arg(), 'f', nil)
		if !ok {
			return "", hAny
		}
		return s, hOK
	}
	if op.Flag {
		return "", hDomain
	}
	args := op.Args
	for _, s := range op.Segs {
		if s.Dir == "" {
			put(s.Text)
			continue
		}
		if s.Dir == "~" {
			put("~")
			continue
		}
		var par []int
		for _, p := range s.Par {
			switch p.K {
			case "n":
				par = append(par, p.N)
			case "c":
				par = append(par, int([]rune(p.C)[0]))
			case "#":
				par = append(par, len(args))
			case "v":
				if len(args) == 0 {
					return sb.String(), hAny
				}
				if args[0].K != "i" || args[0].I < 0 || args[0].I > 200 {
					return "", hSkip
				}
				par = append(par, int(args[0].I))
				args = args[1:]
			}
		}
		n := 1
		if len(par) > 0 {
			n = par[0]
		}
		switch s.Dir {
		case "%":
			put(strings.Repeat("\n", n))
			continue
		case "&":
			if col0 {
				n--
			}
			if n > 0 {
				put(strings.Repeat("\n", n))
			}
			continue
		}
		if len(args) == 0 {
			return sb.String(), hAny
		}
		v := args[0]
		args = args[1:]
		var text string
		ok := true
		switch d := strings.ToLower(s.Dir); d {
		case "a", "s":
			text = fmtRender(v, d == "s")
			if len(par) > 0 {
				if k := par[0] - utf8.RuneCountInString(text); k > 0 {
					text += strings.Repeat(" ", k)
				}
			}
		case "d", "b", "o", "x":
			if v.K == "f" {
				return "", hSkip
			}
			text, ok = intText(v, map[string]int{"d": 10, "b": 2, "o": 8, "x": 16}[d], par)
		case "f", "e", "g":
			text, ok = floatText(v, d[0], par)
		default:
			ok = false
		}
		if !ok {
			return sb.String(), hAny
		}
		put(text)
	}
	if len(args) > 0 {
		return "", hSkip
	}
	return sb.String(), hOK
}

func fmtString(segs []fmtSeg) string {
	var sb strings.Builder
	for _, s := range segs {
		if s.Dir == "" {
			sb.WriteString(s.Text)
			continue
		}
		sb.WriteByte('~')
		for i, p := range s.Par {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch p.K {
			case "n":
				sb.WriteString(strconv.Itoa(p.N))
			case "c":
				sb.WriteString("'" + p.C)
			default:
				sb.WriteString(p.K)
			}
		}
		sb.WriteString(s.Dir)
	}
	return sb.String()
}

func fmtText(op fmtOp) string {
	dest := map[string]string{"nil": "nil", "t": "t", "so": "(standard-output)", "eo": "(error-output)", "bad": "'stream"}[op.Dest]
	if dest == "" {
		dest = op.Dest
	}
	l := []string{dest}
	switch op.Op {
	case "format":
		s := strSrc(fmtString(op.Segs))
		if op.Flag {
			s = "#\\a"
		}
		l = append(l, s)
		for i := range op.Args {
			l = append(l, fmt.Sprintf("x%d", i))
		}
	case "format-object":
		l = append(l, "x0", map[bool]string{true: "t", false: "nil"}[op.Flag])
	case "format-integer":
		l = append(l, "x0", strconv.Itoa(op.Rdx))
	default:
		l = append(l, "x0")
	}
	return callArgs(op.Op, l, op.Mode)
}

// fmtOut is the model of a destination.
type fmtOut struct {
	text    string
	unknown bool
}

func runFmtCase(c fmtCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	var buf, ebuf *bytes.Buffer = &bytes.Buffer{}, &bytes.Buffer{}
	w.SetStdout(buf)
	w.SetErrout(ebuf)
	outs := map[string]*fmtOut{}
	for _, k := range []string{"t", "eo", "s0", "s1", "f0", "f1"} {
		outs[k] = &fmtOut{}
	}
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	dir := scratchDir()
	path := func(k string) string { return filepath.Join(dir, k) }
	opened := map[string]bool{}
	dests := map[string]bool{}
	directives := 0
	defer func() {
		for k := range opened {
			if k[0] == 'f' {
				w.Interpret(ctx, "(close "+k+")")
				os.Remove(path(k))
			}
		}
	}()
	for _, op := range c.Ops {
		key := op.Dest
		if key == "so" {
			key = "t"
		}
		if op.Op == "new-stdout" {
			log = append(log, "SetStdout of the host")
			buf = &bytes.Buffer{}
			w.SetStdout(buf)
			outs["t"] = &fmtOut{}
			continue
		}
		if (key[0] == 's' || key[0] == 'f') && !opened[key] {
			opened[key] = true
			open := "(create-string-output-stream)"
			if key[0] == 'f' {
				open = "(open-output-file " + strSrc(path(key)) + ")"
			}
			if _, err := w.Interpret(ctx, "(defglobal "+key+" "+open+")"); err != nil {
				return fail("%s: %v", open, err)
			}
		}
		out := outs[key]
		if out != nil && out.unknown {
			continue
		}
		col0 := true
		if out != nil {
			col0 = out.text == "" || strings.HasSuffix(out.text, "\n")
		}
		text, st := fmtModel(op, col0)
		if st == hSkip {
			continue
		}
		if key == "bad" {
			st = hAny
		}
		before := buf.Len()
		var got gmnlisp.Node
		var err error
		switch op.Op {
		case "host":
			log = append(log, fmt.Sprintf("host writes %q", text))
			io.WriteString(w.Stdout(), text)
			got = gmnlisp.Null
		case "host-rune":
			log = append(log, fmt.Sprintf("host writes %q", text))
			w.Stdout().Write([]byte(text))
			got = gmnlisp.Null
		default:
			src := fmtText(op)
			log = append(log, src+"  "+dShows(op.Args))
			got, err = bindArgs(ctx, w, op.Args).Interpret(ctx, src)
		}
		o.Label("%s", op.Op)
		o.Label("to %s", key)
		for _, s := range op.Segs {
			if s.Dir != "" {
				o.Label("~%s", strings.ToLower(s.Dir))
				if len(s.Par) > 0 {
					o.Label("~%s with %d parameters", strings.ToLower(s.Dir), len(s.Par))
				}
				directives++
			}
		}
		if st != hOK {
			o.Label("error")
			if err == nil {
				return fail("expected an error, got %s", show(fromNode(got)))
			}
			if cls, _ := errClass(err); st == hDomain && cls != hDomain {
				return fail("expected a domain error, got %v", err)
			}
			switch key {
			case "t":
				if buf.Len() < before || !strings.HasPrefix(text, buf.String()[before:]) && !strings.HasPrefix(buf.String()[before:], text) {
					return fail("standard output has %q after the error, expected at most %q", buf.String()[before:], text)
				}
				out.text = buf.String()
			case "bad", "nil":
			default:
				out.unknown = true
			}
			continue
		}
		if err != nil {
			return fail("%v, expected output %q", err, text)
		}
		dests[key] = true
		if key == "nil" {
			if g, ok := got.(gmnlisp.String); !ok || string(g) != text {
				return fail("got %s, expected %q", show(fromNode(got)), text)
			}
			continue
		}
		if gmnlisp.IsSome(got) {
			return fail("the value is %s, expected nil", show(fromNode(got)))
		}
		out.text += text
		if text != "" && col0 && strings.Contains(fmtString(op.Segs), "&") {
			o.Label("fresh line at column 0")
		}
		if got, want := buf.String(), outs["t"].text; got != want {
			return fail("standard output is %q, expected %q", got, want)
		}
		if got, want := ebuf.String(), outs["eo"].text; !outs["eo"].unknown && got != want {
			return fail("error output is %q, expected %q", got, want)
		}
	}
	for _, k := range []string{"s0", "s1"} {
		if opened[k] && !outs[k].unknown {
			v, err := w.Interpret(ctx, "(get-output-stream-string "+k+")")
			if err != nil {
				return fail("%v", err)
			}
			if g, ok := v.(gmnlisp.String); !ok || string(g) != outs[k].text {
				return fail("%s has %s, expected %q", k, show(fromNode(v)), outs[k].text)
			}
		}
	}
	for _, k := range []string{"f0", "f1"} {
		if opened[k] {
			if v, err := w.Interpret(ctx, "(close "+k+")"); err != nil || gmnlisp.IsSome(v) {
				return fail("close %s: %v %v", k, v, err)
			}
			data, err := os.ReadFile(path(k))
			if err != nil {
				return fail("%v", err)
			}
			if !outs[k].unknown && string(data) != outs[k].text {
				return fail("file %s has %q, expected %q", k, data, outs[k].text)
			}
			os.Remove(path(k))
			delete(opened, k)
		}
	}
	o.Sample(strings.Join(log, "\n"))
	if len(dests) >= 2 && directives >= 2 {
		o.NonTrivial()
	}
	return nil
}

func initFmtProps() {
	reg("C21", "write-history", 40000, 1000000, "at least two destinations written and two directives", genFmtCase, runFmtCase)
}
