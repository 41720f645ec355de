package main

// C35: looking at a program (trace, expand-defun, load of its text) does not change it.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

type lookAct struct {
	After int `json:"after"` // index of a form
	What  int `json:"what"`  // 0,1 trace; 2 end of trace; 3,4 expand-defun and evaluate what it prints; 5 print only
	Which int `json:"which"`
}

type lookCase struct {
	Prog Program   `json:"prog"`
	Acts []lookAct `json:"acts"`
	Load int       `json:"load"` // >0: the forms of the program from that one on are loaded from a file
}

var lookCfg = func() progCfg {
	c := instCfg
	c.funs, c.mains = 4, 4
	return c
}()

func genLook(t *rapid.T) lookCase {
	c := lookCase{Prog: genProgram(t, lookCfg)}
	n := len(c.Prog.Forms)
	if n > 1 && pct(t, 25) {
		c.Load = between(t, 1, n-1, "load")
	}
	for k := between(t, 1, 4, "acts"); k > 0; k-- {
		c.Acts = append(c.Acts, lookAct{below(t, n, "after"), below(t, 6, "what"), below(t, 64, "which")})
	}
	return c
}

var rxDefun = regexp.MustCompile(`^\(defun (\S+) `)

var devNull *os.File

func runLook(c lookCase, o *Obs) error {
	all := strings.Join(c.Prog.Forms, "\n  ")
	o.Sample(fmt.Sprintf("%s\n  ; %+v load %d", all, c.Acts, c.Load))
	r, exp, err := refRun(c.Prog)
	if err != nil {
		return err
	}
	if devNull == nil {
		if devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
			return err
		}
	}
	w, out := newWorld()
	sk := &sink{}
	curSink = sk
	ctx := newCountCtx(lookFuel)
	stderr := os.Stderr
	os.Stderr = devNull
	defer func() {
		curSink = nil
		w.Interpret(newCountCtx(lookFuel), "(trace)")
		os.Stderr = stderr
	}()
	where := func() string { return fmt.Sprintf("\n  %s\n  with %+v load %d", all, c.Acts, c.Load) }
	var names []string
	touched := map[string]bool{}
	for i, e := range exp {
		if e.stopped {
			o.Label("stopped")
			break
		}
		text := c.Prog.Forms[i]
		if c.Load > 0 && i >= c.Load && e.c == nil {
			name := filepath.Join(scratchDir(), fmt.Sprintf("look%d.lsp", i))
			if err := os.WriteFile(name, []byte(text+"\n"), 0o644); err != nil {
				return err
			}
			text = "(load " + lispStr(name) + ")"
			o.Label("loaded from a file")
			o.NonTrivial()
		}
		for n := range touched {
			if strings.Contains(c.Prog.Forms[i], "("+n+" ") || strings.Contains(c.Prog.Forms[i], "#'"+n) {
				o.NonTrivial()
				o.Label("a function is used that was looked at")
			}
		}
		from := out.Len()
		got := evalText(ctx, w, text)
		if err := compareForm(r, e, got, sk); err != nil {
			return fmt.Errorf("form %d: %v%s", i, err, where())
		}
		if s := out.String()[from:]; s != "" {
			return fmt.Errorf("form %d writes %q%s", i, s, where())
		}
		if m := rxDefun.FindStringSubmatch(c.Prog.Forms[i]); m != nil && e.c == nil {
			names = append(names, m[1])
		}
		for _, a := range c.Acts {
			if a.After != i || len(names) == 0 {
				continue
			}
			name := names[a.Which%len(names)]
			switch a.What {
			case 0, 1:
				form := "(trace " + name + ")"
				if a.What == 1 {
					form = "(trace " + strings.Join(names, " ") + " nosuchfunction)"
				}
				if got := evalText(ctx, w, form); got.Err != nil || got.Value != "nil" {
					return fmt.Errorf("%s gives %v%s", form, got, where())
				}
				o.Label("trace")
			case 2:
				if got := evalText(ctx, w, "(trace)"); got.Err != nil || got.Value != "nil" {
					return fmt.Errorf("(trace) gives %v%s", got, where())
				}
			default:
				from := out.Len()
				if got := evalText(ctx, w, "(expand-defun "+name+")"); got.Err != nil || got.Value != "nil" {
					return fmt.Errorf("(expand-defun %s) gives %v%s", name, got, where())
				}
				shown := out.String()[from:]
				if a.What < 5 {
					if got := evalText(ctx, w, shown); got.Err != nil || got.Value != name {
						return fmt.Errorf("(expand-defun %s) shows %s which gives %v%s", name, shown, got, where())
					}
					o.Label("defined by what expand-defun shows")
				}
			}
			touched[name] = true
			if d := diffSeq(r.trace[:e.nt], sk.trace); d != "" {
				return fmt.Errorf("action %+v has effects: %s%s", a, d, where())
			}
		}
	}
	for _, p := range []string{"(expand-defun nosuchfunction)", "(expand-defun car)", "(trace 5)", "(expand-defun 5)"} {
		if got := evalText(ctx, w, p); got.Err == nil {
			return fmt.Errorf("%s gives %v%s", p, got, where())
		}
	}
	return nil
}

func initLookProps() {
	reg("C35", "looked-at", 30000, 600000,
		"programs whose functions are traced, printed with expand-defun, or replaced by evaluating what expand-defun printed, at random places between the forms, or whose forms are loaded from files; non-trivial: a function that was looked at is mentioned in a later form, or a form is loaded",
		genLook, runLook)
}
