package main

// C22 streams and files.

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

// stNode is an operation of a program over input streams.
type stNode struct {
	Op   string   `json:"o"` // char line read with-std with-file throw return go error
	S    string   `json:"s,omitempty"`
	Eof  int      `json:"e,omitempty"`
	N    int      `json:"n,omitempty"` // levels out for exits
	Body []stNode `json:"b,omitempty"`
}

// stPiece is a piece of a text: layout or a datum.
type stPiece struct {
	Lay string `json:"l,omitempty"`
	D   *D     `json:"d,omitempty"`
}

type stCase struct {
	Texts [][]stPiece `json:"texts"` // 0 1: string streams, 2: a file open throughout, 3: the file of with-open-input-file
	Prog  []stNode    `json:"prog"`
}

func noCR(s string) string { return strings.ReplaceAll(s, "\r", "_") }

func genStText(t *rapid.T) (p []stPiece) {
	if pct(t, 40) {
		// lines of any characters
		s := ""
		for n := below(t, 5, "lines"); n > 0; n-- {
			s += genStr(t, 6, true) + pickOf(t, []string{"\n", "\n", "\n", "\r\n", "\r\n", "\n\r\n", "\r\n\r\n", "\r\r\n"}, "end")
		}
		if pct(t, 2) {
			s += strings.Repeat("abcdefghij漢", 1500)
		}
		if pct(t, 50) {
			s += genStr(t, 4, true)
		}
		return []stPiece{{Lay: s}}
	}
	for n := below(t, 7, "data"); n > 0; n-- {
		d := genData(t, dataCfg{depth: 2, dotted: true, arrays: true, maxLen: 3})
		p = append(p, stPiece{D: &d})
		lay := pickOf(t, []string{" ", "\n", "  ", "\n\n", " ; note (\n", " #| x ( |# ", "\t", "\n\n  ", "\r\n", " \r\n\r\n"}, "lay")
		if pct(t, 25) && d.K == "l" && strings.HasSuffix(d.Src(), ")") {
			continue
		}
		p = append(p, stPiece{Lay: lay})
	}
	if len(p) > 0 && pct(t, 40) {
		if p[len(p)-1].D == nil {
			p = p[:len(p)-1]
		}
	}
	return p
}

// stText is the model of a text.
type stText struct {
	r     []rune
	data  map[int]D   // the datum starting at a position
	end   map[int]int // and where it ends
	begin map[int]bool
}

func buildText(pieces []stPiece) *stText {
	x := &stText{data: map[int]D{}, end: map[int]int{}, begin: map[int]bool{}}
	plain := len(pieces) == 1 && pieces[0].D == nil
	for _, p := range pieces {
		if p.D != nil {
			x.begin[len(x.r)] = true
			at := len(x.r)
			x.r = append(x.r, []rune(noCR(p.D.Src()))...)
			x.data[at] = *p.D
			x.end[at] = len(x.r)
			continue
		}
		if !plain {
			lay := []rune(p.Lay)
			for i, c := range lay {
				if c == ';' || c == '#' {
					x.begin[len(x.r)+i] = true
					break
				}
				x.begin[len(x.r)+i] = true
			}
			if k := strings.LastIndexAny(p.Lay, "#"); k > 0 {
				x.begin[len(x.r)+len([]rune(p.Lay[:k+1]))] = true
			}
		}
		x.r = append(x.r, []rune(p.Lay)...)
	}
	if !plain {
		x.begin[len(x.r)] = true
	}
	return x
}

// next datum at or after a boundary.
func (x *stText) nextDatum(pos int) (int, bool) {
	for at := pos; at <= len(x.r); at++ {
		if _, ok := x.data[at]; ok {
			return at, true
		}
	}
	return 0, false
}

// stRes is a permitted result of reading.
type stRes struct {
	text string
	pos  int
}

const stEOS = "<<eos>>"

// read gives the permitted results of an operation at a position; nil when
// the text is not made for it.
func (x *stText) read(op string, pos int) []stRes {
	switch op {
	case "char":
		if pos >= len(x.r) {
			return []stRes{{stEOS, pos}}
		}
		return []stRes{{show(Chr(x.r[pos])), pos + 1}}
	case "line":
		if pos >= len(x.r) {
			return []stRes{{stEOS, pos}}
		}
		e := pos
		for e < len(x.r) && x.r[e] != '\n' {
			e++
		}
		n := e
		if e < len(x.r) {
			n++
		}
		if n > e && e > pos && x.r[e-1] == '\r' { // a line may end with CR LF
			e--
		}
		return []stRes{{show(Str(x.r[pos:e])), n}}
	case "read":
		if !x.begin[pos] {
			return nil
		}
		at, ok := x.nextDatum(pos)
		if !ok {
			return []stRes{{stEOS, len(x.r)}}
		}
		v := show(x.data[at].V())
		end := x.end[at]
		r := []stRes{{v, end}}
		if c := x.r[end-1]; (c != ')' || x.data[at].K == "c") && c != '"' && end < len(x.r) && (x.r[end] == ' ' || x.r[end] == '\n' || x.r[end] == '\r' || x.r[end] == '\t') {
			// the white space that ends a token may be taken with it
			r = append(r, stRes{v, end + 1})
		}
		return r
	}
	panic(op)
}

// stState is the position of each stream (several when not determined).
type stState struct {
	texts []*stText
	pos   map[string]map[int]bool // nil: not known any more
	text  map[string]*stText
}

func newStState(c stCase) *stState {
	s := &stState{pos: map[string]map[int]bool{}, text: map[string]*stText{}}
	for i, p := range c.Texts {
		s.texts = append(s.texts, buildText(p))
		name := fmt.Sprintf("s%d", i)
		s.text[name] = s.texts[i]
		s.pos[name] = map[int]bool{0: true}
	}
	return s
}

// possible results at all positions the stream can have.
func (s *stState) results(name, op string) (r []stRes) {
	p := s.pos[name]
	if p == nil {
		return nil
	}
	for pos := range p {
		l := s.text[name].read(op, pos)
		if l == nil {
			return nil
		}
		r = append(r, l...)
	}
	return r
}

func genStProg(t *rapid.T, st *stState, depth, n int, std string, files []string, withs int) (l []stNode) {
	for ; n > 0; n-- {
		switch k := below(t, 20, "op"); {
		case k < 14 || depth <= 0:
			names := []string{"s0", "s0", "s1", "s2"}
			if std != "" {
				names = append(names, "std", "std", "std")
			}
			for _, f := range files {
				names = append(names, f, f)
			}
			nd := stNode{S: pickOf(t, names, "s"), Op: pickOf(t, []string{"char", "line", "read", "read"}, "how"), Eof: below(t, 4, "eof")}
			nd.N = below(t, 4, "call")
			real := nd.S
			if real == "std" {
				real = std
				nd.Eof = 0
			}
			// follow the positions, so that data are read where data begin
			r := st.results(real, nd.Op)
			if r == nil && nd.Op == "read" {
				nd.Op = pickOf(t, []string{"char", "line"}, "how")
				r = st.results(real, nd.Op)
			}
			if len(r) > 0 {
				st.pos[real] = map[int]bool{r[0].pos: true}
			}
			l = append(l, nd)
		case k < 16:
			src := pickOf(t, append([]string{"s0", "s1", "s2"}, files...), "s")
			l = append(l, stNode{Op: "with-std", S: src, N: below(t, 2, "shape"), Body: genStProg(t, st, depth-1, between(t, 1, 5, "n"), src, files, withs+1)})
		case k < 18:
			name := fmt.Sprintf("f%d", len(files))
			st.pos[name] = map[int]bool{0: true}
			st.text[name] = st.texts[3]
			l = append(l, stNode{Op: "with-file", S: name, N: below(t, 2, "shape"), Body: genStProg(t, st, depth-1, between(t, 1, 5, "n"), std, append(append([]string{}, files...), name), withs+1)})
		default:
			if withs > 0 && pct(t, 60) {
				l = append(l, stNode{Op: pickOf(t, []string{"throw", "return", "go", "error"}, "exit"), N: below(t, withs, "levels")})
				return l
			}
		}
	}
	return l
}

func genStCase(t *rapid.T) stCase {
	var c stCase
	for i := 0; i < 4; i++ {
		c.Texts = append(c.Texts, genStText(t))
	}
	c.Prog = genStProg(t, newStState(c), 3, between(t, 2, 12, "n"), "", nil, 0)
	return c
}

type stWriter struct {
	sb  strings.Builder
	id  int
	dir string
}

// emit writes the program text; read operations get ids in order of appearance.
func (e *stWriter) emit(l []stNode, std string, ids []int) {
	for i := range l {
		nd := &l[i]
		switch nd.Op {
		case "char", "line", "read":
			e.id++
			f := map[string]string{"char": "read-char", "line": "read-line", "read": "read"}[nd.Op]
			var args []string
			if nd.S != "std" {
				args = append(args, nd.S)
				switch nd.Eof {
				case 1:
					args = append(args, "t")
				case 2:
					args = append(args, "nil")
				case 3:
					args = append(args, "nil", "'(eof)")
				}
			}
			fmt.Fprintf(&e.sb, " (tr %d (catch 'e (with-handler (lambda (c) (throw 'e (if (instancep c (class <end-of-stream>)) 'eos (list 'failed (class-of c))))) %s)))", e.id, callArgs(f, args, nd.N%4))
		case "with-std", "with-file":
			e.id++
			k := e.id
			fmt.Fprintf(&e.sb, "\n (catch 'k%d (block b%d (with-handler (lambda (c) (throw 'k%d nil)) (tagbody ", k, k, k)
			if nd.Op == "with-std" {
				fmt.Fprintf(&e.sb, "(with-standard-input %s", nd.S)
			} else {
				fmt.Fprintf(&e.sb, "(with-open-input-file (%s %s)", nd.S, strSrc(filepath.Join(e.dir, "in3")))
			}
			e.emit(nd.Body, std, append(append([]int{}, ids...), k))
			fmt.Fprintf(&e.sb, " nil) t%d))))", k)
		default:
			if len(ids) == 0 {
				continue
			}
			k := ids[len(ids)-1-nd.N%len(ids)]
			switch nd.Op {
			case "throw":
				fmt.Fprintf(&e.sb, " (throw 'k%d 1)", k)
			case "return":
				fmt.Fprintf(&e.sb, " (return-from b%d 1)", k)
			case "go":
				fmt.Fprintf(&e.sb, " (go t%d)", k)
			case "error":
				fmt.Fprintf(&e.sb, " (error \"leave\")")
			}
		}
	}
}

type stCheck struct {
	st     *stState
	trace  []string
	next   int
	id     int
	checks int
	o      *Obs
	kinds  map[string]bool
}

// run follows the program; it returns the depth of the with left by an exit,
// or -1.
func (c *stCheck) run(l []stNode, std string, depth int, live bool) (int, error) {
	for i := range l {
		nd := &l[i]
		switch nd.Op {
		case "char", "line", "read":
			c.id++
			if !live {
				continue
			}
			if c.next >= len(c.trace) {
				return -1, fmt.Errorf("the read numbered %d did not happen", c.id)
			}
			got := c.trace[c.next]
			c.next++
			prefix := fmt.Sprintf("%d=", c.id)
			if !strings.HasPrefix(got, prefix) {
				return -1, fmt.Errorf("expected the read numbered %d, got %s", c.id, got)
			}
			got = got[len(prefix):]
			name := nd.S
			if name == "std" {
				name = std
			}
			r := c.st.results(name, nd.Op)
			if r == nil {
				c.st.pos[name] = nil
				continue
			}
			eos := "eos"
			if nd.S != "std" {
				eos = []string{"eos", "eos", "nil", "(eof)"}[nd.Eof]
			}
			np := map[int]bool{}
			var want []string
			for _, x := range r {
				s := x.text
				if s == stEOS {
					s = eos
				}
				want = append(want, s)
				if s == got {
					np[x.pos] = true
				}
			}
			if len(np) == 0 {
				return -1, fmt.Errorf("the read numbered %d (%s of %s) gave %s, expected %s", c.id, nd.Op, nd.S, got, strings.Join(want, " or "))
			}
			c.st.pos[name] = np
			c.checks++
			c.o.Label("%s", nd.Op)
			c.kinds[nd.Op] = true
			if got == eos {
				c.o.Label("end of stream, %s", nd.Op)
			}
		case "with-std", "with-file":
			c.id++
			s2 := std
			if nd.Op == "with-std" {
				s2 = nd.S
			} else if live {
				c.st.pos[nd.S] = map[int]bool{0: true}
				c.st.text[nd.S] = c.st.texts[3]
			}
			if live {
				c.o.Label("%s", nd.Op)
				c.kinds[nd.Op] = true
			}
			x, err := c.run(nd.Body, s2, depth+1, live)
			if err != nil {
				return -1, err
			}
			if x >= 0 && x < depth+1 {
				// left through this form; count the ids behind it
				live = false
				if _, err := c.run(l[i+1:], std, depth, false); err != nil {
					return -1, err
				}
				return x, nil
			}
		default:
			if depth == 0 || !live {
				continue
			}
			c.o.Label("left by %s", nd.Op)
			x := depth - nd.N%depth
			if nd.Op == "error" {
				x = depth
			}
			if _, err := c.run(l[i+1:], std, depth, false); err != nil {
				return -1, err
			}
			return x, nil
		}
	}
	return -1, nil
}

// openPaths lists the files of the directory this process has open.
func openPaths(dir string) (r []string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range ents {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, dir+"/") {
			r = append(r, s)
		}
	}
	return
}

func runStCase(c stCase, o *Obs) error {
	ctx := context.Background()
	dir := scratchDir()
	st := newStState(c)
	w, out := newWorld()
	for i, x := range st.texts {
		switch i {
		case 0, 1:
			lit := strSrc(string(x.r))
			if _, err := w.Interpret(ctx, fmt.Sprintf("(defglobal s%d (create-string-input-stream %s))", i, lit)); err != nil {
				return fmt.Errorf("stream of %q: %v", string(x.r), err)
			}
		default:
			name := filepath.Join(dir, fmt.Sprintf("in%d", i))
			if err := os.WriteFile(name, []byte(string(x.r)), 0o600); err != nil {
				panic(err)
			}
			defer os.Remove(name)
			if i == 2 {
				if _, err := w.Interpret(ctx, "(defglobal s2 (open-input-file "+strSrc(name)+"))"); err != nil {
					return err
				}
				defer w.Interpret(ctx, "(close s2)")
			}
		}
	}
	e := &stWriter{dir: dir}
	e.sb.WriteString("(progn")
	e.emit(c.Prog, "", nil)
	e.sb.WriteString(" 'end)")
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	stdin := w.Stdin()
	before := len(openPaths(dir))
	v, err := w.Interpret(ctx, e.sb.String())
	ck := &stCheck{st: st, trace: sk.trace, o: o, kinds: map[string]bool{}}
	var texts strings.Builder
	for i, x := range newStState(c).texts {
		s := fmt.Sprintf("%q", string(x.r))
		if len(s) > 300 {
			s = s[:300]
		}
		fmt.Fprintf(&texts, "  text %d %s\n", i, s)
	}
	where := "\n" + texts.String() + e.sb.String()
	o.Sample(where)
	if err != nil {
		return fmt.Errorf("%v%s", err, where)
	}
	if got := show(fromNode(v)); got != "end" {
		return fmt.Errorf("value %s%s", got, where)
	}
	if _, err := ck.run(c.Prog, "", 0, true); err != nil {
		return fmt.Errorf("%v%s", err, where)
	}
	if ck.next != len(sk.trace) {
		return fmt.Errorf("additional event %s%s", sk.trace[ck.next], where)
	}
	if w.Stdin() != stdin {
		return fmt.Errorf("the standard input is not restored%s", where)
	}
	if l := openPaths(dir); len(l) != before {
		return fmt.Errorf("left open: %v%s", l, where)
	}
	if s := out.String(); s != "" {
		return fmt.Errorf("unexpected output %q%s", s, where)
	}
	if ck.checks >= 3 && len(ck.kinds) >= 2 {
		o.NonTrivial()
	}
	return nil
}

// files --------------------------------------------------------------------

type fileOp struct {
	Op    string   `json:"o"`
	F     int      `json:"f"`
	G     int      `json:"g,omitempty"`
	Parts []string `json:"p,omitempty"`
	How   []int    `json:"h,omitempty"`
	Exit  int      `json:"x,omitempty"`
	N     int      `json:"n,omitempty"`
}

type fileCase struct {
	Ops []fileOp `json:"ops"`
}

var fileOps = []string{"write", "write", "write", "open-write", "interleave", "nested", "read", "read", "read", "copy", "probe", "length", "host", "remove", "missing", "refused"}

func genFileCase(t *rapid.T) fileCase {
	var c fileCase
	for n := between(t, 2, 9, "ops"); n > 0; n-- {
		op := fileOp{Op: pickOf(t, fileOps, "op"), F: below(t, 3, "f"), Exit: below(t, 6, "exit"), N: below(t, 8, "n")}
		op.G = (op.F + between(t, 1, 2, "g")) % 3
		for k := below(t, 5, "parts"); k > 0; k-- {
			s := noCR(genStr(t, 6, true))
			if pct(t, 40) {
				s += "\n"
			}
			if pct(t, 4) {
				s += strings.Repeat("0123456789漢字\n", 700)
			}
			op.Parts = append(op.Parts, s)
			op.How = append(op.How, below(t, 4, "how"))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// writeForm writes s to the stream in one of several ways.
func writeForm(stream, s string, how int) string {
	switch how {
	case 1:
		if len([]rune(s)) < 20 {
			var sb strings.Builder
			sb.WriteString("(progn nil")
			for _, r := range s {
				fmt.Fprintf(&sb, " (format-char %s %s)", stream, chrSrc(r))
			}
			return sb.String() + ")"
		}
	case 2:
		return fmt.Sprintf("(format-object %s %s nil)", stream, strSrc(s))
	case 3:
		if strings.HasSuffix(s, "\n") {
			return fmt.Sprintf("(format %s \"~a~%%\" %s)", stream, strSrc(strings.TrimSuffix(s, "\n")))
		}
	}
	return fmt.Sprintf("(format %s \"~a\" %s)", stream, strSrc(s))
}

func runFileCase(c fileCase, o *Obs) error {
	ctx := context.Background()
	base := scratchDir()
	dir := filepath.Join(base, "files")
	if err := os.MkdirAll(dir, 0o700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w, out := newWorld()
	model := map[int]string{}
	path := func(i int) string { return filepath.Join(dir, fmt.Sprintf("f%d", i)) }
	src := func(i int) string { return strSrc(path(i)) }
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	run := func(text string) (gmnlisp.Node, error) {
		if s := text; len(s) > 600 {
			log = append(log, s[:600]+"...")
		} else {
			log = append(log, s)
		}
		return w.Interpret(ctx, text)
	}
	wrote, reads := 0, 0
	for _, op := range c.Ops {
		o.Label("%s", op.Op)
		// the parts written before the exit
		stop := len(op.Parts)
		exit := ""
		if op.Exit > 0 && op.Exit <= 4 {
			stop = op.N % (len(op.Parts) + 1)
			exit = []string{"", "(throw 'k 'left)", "(return-from b 'left)", "(go out)", "(error \"leave\")"}[op.Exit]
		}
		var body strings.Builder
		all := ""
		for i, p := range op.Parts {
			if i == stop && exit != "" {
				body.WriteString(" " + exit)
			}
			body.WriteString(" " + writeForm("s", p, op.How[i]))
			if i < stop {
				all += p
			}
		}
		if stop == len(op.Parts) {
			body.WriteString(" " + exit)
		}
		frame := func(form string) string {
			return fmt.Sprintf("(catch 'k (block b (with-handler (lambda (c) (throw 'k 'left)) (let ((r 'left)) (tagbody (setq r %s) out) r))))", form)
		}
		value := func(text, want string) error {
			v, err := run(text)
			if err != nil {
				return fail("%v", err)
			}
			if got := show(fromNode(v)); got != want {
				if len(want) > 400 {
					want = want[:400] + "..."
				}
				return fail("the value is %.400s, expected %s", got, want)
			}
			return nil
		}
		var err error
		switch op.Op {
		case "write":
			want := "done"
			if exit != "" {
				want = "left"
				o.Label("left by an exit")
			}
			last := "'done"
			text := body.String()
			switch op.N / 3 % 8 { // the variable is an ordinary one
			case 0:
				last = "(setq s nil) 'done"
			case 1:
				last = "(setq s 'other) (if (eq s 'other) 'done 'kept)"
			case 2:
				text = " (let ((q s)) (setq s nil) (setq s q))" + text
			case 3:
				text = " (setq s (let ((q s)) (setq s 1) q))" + text
			}
			err = value(frame(fmt.Sprintf("(with-open-output-file (s %s)%s %s)", src(op.F), text, last)), want)
			model[op.F] = all
			wrote++
		case "open-write":
			err = value(fmt.Sprintf("(let ((s (open-output-file %s)))%s (close s))", src(op.F), strings.Replace(body.String(), " "+exit, "", 1)), "nil")
			model[op.F] = strings.Join(op.Parts, "")
			wrote++
		case "interleave":
			// two files open at the same time
			var sb strings.Builder
			var ta, tb string
			for i, p := range op.Parts {
				if op.How[i]%2 == 0 {
					sb.WriteString(" " + writeForm("a", p, op.How[i]))
					ta += p
				} else {
					sb.WriteString(" " + writeForm("b", p, op.How[i]))
					tb += p
				}
			}
			order := "(close a) (close b)"
			if op.N%2 == 0 {
				order = "(close b) (close a)"
			}
			err = value(fmt.Sprintf("(let* ((a (open-output-file %s)) (b (open-output-file %s)))%s %s)", src(op.F), src(op.G), sb.String(), order), "nil")
			model[op.F], model[op.G] = ta, tb
			wrote++
		case "nested":
			want := "done"
			if exit != "" {
				want = "left"
				o.Label("left by an exit")
			}
			err = value(frame(fmt.Sprintf("(with-open-output-file (o %s) (format o \"head~%%\") (with-open-output-file (s %s)%s) (format o \"tail\") 'done)", src(op.G), src(op.F), body.String())), want)
			model[op.F] = all
			model[op.G] = "head\ntail"
			if exit != "" {
				model[op.G] = "head\n"
			}
			wrote++
		case "read":
			reads++
			text, ok := model[op.F]
			if !ok {
				_, e := run(fmt.Sprintf("(with-open-input-file (s %s) 'opened)", src(op.F)))
				if e == nil {
					err = fail("opening a missing file is no error")
				}
				break
			}
			switch op.N % 3 {
			case 0:
				var l []V
				if text != "" {
					for _, s := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
						l = append(l, Str(s))
					}
				}
				if len(l) > 300 {
					break
				}
				err = value(fmt.Sprintf("(with-open-input-file (s %s) (let ((l nil) (x nil)) (while (setq x (read-line s nil nil)) (setq l (cons x l))) (reverse l)))", src(op.F)), show(vlist(l...)))
			case 1:
				r := []rune(text)
				if len(r) > 300 {
					r = r[:300]
				}
				err = value(fmt.Sprintf("(let ((s (open-input-file %s)) (l nil) (x nil)) (while (and (< (length l) 300) (setq x (read-char s nil nil))) (setq l (cons x l))) (close s) (reverse l))", src(op.F)), show(charList(r)))
			case 2:
				// two streams on one file
				r := []rune(text)
				if len(r) < 2 || len(r) > 300 {
					break
				}
				form := "(list (read-char a) (read-char a) (read-char b))"
				switch op.N / 3 % 5 {
				case 0:
					form = "(let ((c (read-char a)) (d (read-char a)) (q b)) (setq a 1) (setq b a) (list c d (read-char q)))"
				case 1:
					form = "(let ((q nil)) (setq q a) (setq a nil) (setq a q) (list (read-char a) (read-char q) (read-char b)))"
				case 2:
					form = "(progn (setq a (list (read-char a) (read-char a))) (setq b (read-char b)) (list (car a) (car (cdr a)) b))"
				}
				err = value(fmt.Sprintf("(with-open-input-file (a %s) (with-open-input-file (b %s) %s))", src(op.F), src(op.F), form), show(charList([]rune{r[0], r[1], r[0]})))
			}
		case "copy":
			text, ok := model[op.F]
			if !ok || len(text) > 3000 {
				break
			}
			reads++
			wrote++
			loop := "(let ((x nil)) (while (setq x (read-char i nil nil)) (format-char o x)))"
			want := text
			if op.N%2 == 0 {
				loop = `(let ((x nil)) (while (setq x (read-line i nil nil)) (format o "~a~%" x)))`
				if text != "" && !strings.HasSuffix(text, "\n") {
					want += "\n"
				}
			}
			err = value(fmt.Sprintf("(with-open-input-file (i %s) (with-open-output-file (o %s) %s 'copied))", src(op.F), src(op.G), loop), "copied")
			model[op.G] = want
		case "probe":
			_, ok := model[op.F]
			err = value(fmt.Sprintf("(if (probe-file %s) 'yes 'no)", src(op.F)), map[bool]string{true: "yes", false: "no"}[ok])
		case "length":
			text, ok := model[op.F]
			n := []int{8, 8, 8, 1, 16}[op.N%5]
			want := "nil"
			if ok {
				want = fmt.Sprint(len(text) * 8 / n)
			}
			err = value(fmt.Sprintf("(file-length %s %d)", src(op.F), n), want)
		case "host":
			text := strings.Join(op.Parts, "")
			log = append(log, fmt.Sprintf("host writes f%d %.200q", op.F, text))
			if e := os.WriteFile(path(op.F), []byte(text), 0o600); e != nil {
				panic(e)
			}
			model[op.F] = text
		case "remove":
			log = append(log, fmt.Sprintf("host removes f%d", op.F))
			os.Remove(path(op.F))
			delete(model, op.F)
		case "missing", "refused":
			// the body must not be run
			p := strSrc(filepath.Join(dir, "no", "such"))
			f := "with-open-input-file"
			if op.Op == "refused" {
				f = "with-open-output-file"
			}
			err = value(fmt.Sprintf("(let ((r 'refused)) (catch 'k (with-handler (lambda (c) (throw 'k 1)) (%s (s %s) (setq r 'opened)))) r)", f, p), "refused")
			if _, e := run(fmt.Sprintf("(%s (s %s) 1)", f, p)); err == nil && e == nil {
				err = fail("no error")
			}
		}
		if err != nil {
			return err
		}
		if l := openPaths(dir); len(l) > 0 {
			return fail("left open: %v", l)
		}
		for i := 0; i < 3; i++ {
			data, e := os.ReadFile(path(i))
			text, ok := model[i]
			if (e == nil) != ok || ok && string(data) != text {
				return fail("file %d has %.300q (%v), expected %.300q (exists: %v)", i, data, e, text, ok)
			}
		}
	}
	if s := out.String(); s != "" {
		return fail("unexpected output %q", s)
	}
	o.Sample(strings.Join(log, "\n"))
	if wrote > 0 && reads > 0 {
		o.NonTrivial()
	}
	return nil
}

func initStreamProps() {
	reg("C22", "input", 25000, 600000, "at least three reads checked, of two kinds of operation", genStCase, runStCase)
	reg("C22", "files", 10000, 250000, "a file is written by the program and a file is read by it", genFileCase, runFileCase)
}
