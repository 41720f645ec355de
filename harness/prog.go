package main

// Running programs on the interpreter under test and comparing what they do
// with the reference interpreter.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
)

// sink receives the host-function events of the case being run (one case at a
// time runs in a worker process).
type sink struct {
	trace  []string
	htrace []string
	events int
	limit  int
	onTr   func(id string)
}

var curSink *sink

type classNode interface {
	ClassOf() gmnlisp.Class
}

func evalForm1(ctx context.Context, w *gmnlisp.World, f string, arg gmnlisp.Node) (gmnlisp.Node, error) {
	return w.Eval(ctx, &gmnlisp.Cons{Car: gmnlisp.NewSymbol(f), Cdr: gmnlisp.UnevalList(arg)})
}

// nodeCondText is condText for a condition of the interpreter under test.
func nodeCondText(ctx context.Context, w *gmnlisp.World, c gmnlisp.Node) string {
	cls := c.ClassOf().Name().String()
	acc := func(f string) string {
		v, err := evalForm1(ctx, w, f, c)
		if err != nil {
			return "<" + f + " failed: " + err.Error() + ">"
		}
		return show(fromNode(v))
	}
	switch cls {
	case "<domain-error>":
		return cls + " " + acc("domain-error-object")
	case "<unbound-variable>", "<undefined-function>":
		return cls + " " + acc("undefined-entity-name")
	case "<division-by-zero>":
		return cls + " " + acc("arithmetic-error-operands")
	case "<simple-error>":
		return cls + " " + acc("simple-error-format-string") + " " + acc("simple-error-format-arguments")
	}
	return cls
}

func initHost() {
	gmnlisp.Export(gmnlisp.NewSymbol("tr"), gmnlisp.Function2(func(ctx context.Context, w *gmnlisp.World, id, v gmnlisp.Node) (gmnlisp.Node, error) {
		if s := curSink; s != nil {
			s.events++
			if s.events < 100000 {
				s.trace = append(s.trace, show(fromNode(id))+"="+show(fromNode(v)))
			}
			if s.onTr != nil {
				s.onTr(show(fromNode(id)))
			}
		}
		return v, nil
	}))
	gmnlisp.Export(gmnlisp.NewSymbol("trh"), gmnlisp.Function2(func(ctx context.Context, w *gmnlisp.World, id, c gmnlisp.Node) (gmnlisp.Node, error) {
		if s := curSink; s != nil {
			s.events++
			if s.events < 100000 {
				s.htrace = append(s.htrace, show(fromNode(id))+"="+nodeCondText(ctx, w, c))
			}
		}
		return gmnlisp.Null, nil
	}))
}

// outcome is what evaluating one top-level form gave.
type outcome struct {
	Value string
	Err   error
	Class string
	Dom   string
}

func (o outcome) String() string {
	if o.Err != nil {
		return "ERR " + o.Class + " " + strings.SplitN(o.Err.Error(), "\n", 2)[0]
	}
	return o.Value
}

// errClass finds the class of the condition in an error returned to the host.
func errClass(err error) (cls, dom string) {
	var de *gmnlisp.DomainError
	if errors.As(err, &de) {
		if de.Object == nil {
			return "<domain-error>", "<go nil>"
		}
		return "<domain-error>", show(fromNode(de.Object))
	}
	var cn interface {
		error
		ClassOf() gmnlisp.Class
	}
	if errors.As(err, &cn) {
		return cn.ClassOf().Name().String(), ""
	}
	return "", ""
}

func evalText(ctx context.Context, w *gmnlisp.World, text string) outcome {
	v, err := w.Interpret(ctx, text)
	return toOutcome(v, err)
}

func toOutcome(v gmnlisp.Node, err error) outcome {
	if err != nil {
		c, d := errClass(err)
		return outcome{Err: err, Class: c, Dom: d}
	}
	return outcome{Value: show(fromNode(v))}
}

// newWorld makes an interpreter whose standard output goes to a buffer.
func newWorld() (*gmnlisp.World, *bytes.Buffer) {
	w := gmnlisp.New()
	var out bytes.Buffer
	w.SetStdout(&out)
	w.SetErrout(&out)
	return w, &out
}

// refFuel bounds the steps of the reference; the interpreter under test gets a
// context that is cancelled after far more looks than it can need for them.
const (
	refFuel  = 12000
	lookFuel = 3000000
)

// Program is a differential case: top-level forms evaluated one after another.
type Program struct {
	Forms []string `json:"forms"`
}

// mismatchHook lets properties look at the interpreter after the program.
type progOpts struct {
	// wantFeats: the case is non-trivial when each group has one feature
	nontrivial func(f map[string]int) bool
	after      func(w *gmnlisp.World, o *Obs) error
}

func featSum(f map[string]int, names ...string) int {
	n := 0
	for _, k := range names {
		n += f[k]
	}
	return n
}

// runProgram compares a program with the reference.
func runProgram(p Program, o *Obs, opt progOpts) error {
	w, out := newWorld()
	return runProgramIn(w, out, p, o, opt)
}

func runProgramIn(w *gmnlisp.World, out *bytes.Buffer, p Program, o *Obs, opt progOpts) error {
	r := newRef(refFuel)
	sk := &sink{}
	curSink = sk
	defer func() { curSink = nil }()
	ctx := newCountCtx(lookFuel)
	o.Sample(strings.Join(p.Forms, "\n"))
	compared := 0
	for i, text := range p.Forms {
		forms, err := readAllV(text)
		if err != nil {
			return fmt.Errorf("harness: %w", err)
		}
		nt, nh := len(r.trace), len(r.htrace)
		var rv V
		var rc *Cond
		var stopped string
		for _, f := range forms {
			rv, rc, stopped = r.top(f)
			if rc != nil || stopped != "" {
				break
			}
		}
		if stopped != "" {
			o.Label("stopped: %s", stopped)
			break
		}
		compared++
		got := evalText(ctx, w, text)
		where := func() string {
			var sb strings.Builder
			for _, f := range p.Forms[:i+1] {
				sb.WriteString("\n  " + f)
			}
			fmt.Fprintf(&sb, "\n  expected trace %v handlers %v\n  actual   trace %v handlers %v", r.trace[nt:], r.htrace[nh:], tailFrom(sk.trace, nt), tailFrom(sk.htrace, nh))
			return sb.String()
		}
		if ctx.cancelled() {
			return fmt.Errorf("form %d does not end (expected %s)%s", i, showRef(rv, rc), where())
		}
		if rc != nil {
			o.Label("error to host")
			if got.Err == nil {
				return fmt.Errorf("form %d: expected an error %s, got value %s%s", i, condText(rc), got.Value, where())
			}
			if rc.Class != "<simple-error>" && got.Class != rc.Class {
				return fmt.Errorf("form %d: expected an error %s, got %v%s", i, condText(rc), got, where())
			}
			if rc.Class == "<domain-error>" && got.Dom != show(rc.Obj) {
				return fmt.Errorf("form %d: expected a domain error of %s, got one of %s%s", i, show(rc.Obj), got.Dom, where())
			}
		} else {
			if got.Err != nil {
				return fmt.Errorf("form %d: expected %s, got %v%s", i, show(rv), got, where())
			}
			if want := show(rv); want != got.Value && !strings.Contains(want, "gensym") {
				return fmt.Errorf("form %d: expected %s, got %s%s", i, want, got.Value, where())
			}
		}
		if d := diffSeq(r.trace, sk.trace); d != "" {
			return fmt.Errorf("form %d: effects differ: %s%s", i, d, where())
		}
		if d := diffSeq(r.htrace, sk.htrace); d != "" {
			return fmt.Errorf("form %d: handler calls differ: %s%s", i, d, where())
		}
	}
	if s := out.String(); s != "" {
		return fmt.Errorf("unexpected output %q", s)
	}
	o.Label("compared forms: %d", min(compared, 8))
	if compared == len(p.Forms) {
		o.Label("compared completely")
	}
	for k := range r.feats {
		o.Label("%s", k)
	}
	if compared > 0 && opt.nontrivial != nil && opt.nontrivial(r.feats) {
		o.NonTrivial()
	}
	if opt.after != nil {
		return opt.after(w, o)
	}
	return nil
}

func tailFrom(s []string, n int) []string {
	if n > len(s) {
		return nil
	}
	s = s[n:]
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func showRef(v V, c *Cond) string {
	if c != nil {
		return "error " + condText(c)
	}
	return show(v)
}

func diffSeq(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("missing event %s (number %d)", want[i], i)
		}
		if want[i] != got[i] {
			return fmt.Sprintf("event %d is %s, expected %s", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("additional event %s (number %d)", got[len(want)], len(want))
	}
	return ""
}
