package main

// C30: the gmnlisp command.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// cliForm is a form of the script: what it is made of and what it does is in
// cliSteps.
type cliForm struct {
	K string    `json:"k"`
	N int       `json:"n"`
	S string    `json:"s,omitempty"`
	F []cliForm `json:"f,omitempty"` // the forms inside: of load, progn, unwind-protect, defun
	G string    `json:"g,omitempty"` // the layout after the form
}

type cliCase struct {
	Exec   bool      `json:"exec"` // -e
	First  string    `json:"first"`
	Pad    int       `json:"pad,omitempty"` // further characters in the first line
	Forms  []cliForm `json:"forms"`
	Broken string    `json:"broken,omitempty"` // text that cannot be read
	Args   []string  `json:"args"`
	Stdin  string    `json:"stdin"`
}

// first is the first line, which is not program text.
func (c cliCase) first() string {
	if c.First == "" || c.Pad <= 0 {
		return c.First
	}
	return c.First[:1] + strings.Repeat(" (error 1)", c.Pad/10+1)[:c.Pad] + c.First[1:]
}

var cliOKs = []string{"out", "out", "out", "nonl", "fun", "var", "argv", "argv-nth", "loop", "caught", "ignored", "line", "line-eof", "char", "wide", "value", "errout", "big", "catch", "ignore-out", "float"}
var cliFails = []string{"error", "domain", "unbound", "undefined", "zero", "throw", "abort", "quit", "quit", "abort", "partial", "assure", "elt", "eof", "no-file", "deep", "quit-in-fun", "abort-in-fun", "cerror", "handler-fails", "handler-quits", "case-end", "return"}

func genCliForm(t *rapid.T, d int, failPct int) cliForm {
	f := cliForm{N: below(t, 100, "n"), G: pickOf(t, []string{"\n", " ", "\n\n", " ; a ( comment\n", "\n#| block ) |#\n", "\t", "\r\n"}, "gap")}
	switch {
	case pct(t, failPct):
		f.K = pickOf(t, cliFails, "fail")
	case d > 0 && pct(t, 25):
		f.K = pickOf(t, []string{"progn", "load", "protect", "defun", "let", "eval"}, "inner")
		for i := between(t, 1, 3, "inside"); i > 0; i-- {
			f.F = append(f.F, genCliForm(t, d-1, failPct))
		}
	default:
		f.K = pickOf(t, cliOKs, "ok")
	}
	f.S = pickOf(t, []string{"a", "", "x y", "漢字", "(", "~~", "\"", "\\", "é😀", ";", "#|", "|"}, "s")
	return f
}

func genCliCase(t *rapid.T) cliCase {
	c := cliCase{Exec: pct(t, 35)}
	fp := pickOf(t, []int{0, 4, 8, 15}, "fail")
	for i := below(t, 8, "forms"); i > 0; i-- {
		c.Forms = append(c.Forms, genCliForm(t, 2, fp))
	}
	if !c.Exec {
		c.First = pickOf(t, []string{"", "", "#!/usr/bin/env gmnlisp\n", "@gmnlisp \"%~f0\" %* & exit /b (\n", "#\n", "@\r\n", "#(\n", "# \" |\n"}, "first")
		if c.First != "" && len(c.Forms) == 0 && pct(t, 50) {
			c.First = strings.TrimSuffix(c.First, "\n")
		}
	}
	if c.First != "" && pct(t, 15) {
		c.Pad = pickOf(t, []int{1, 80, 4000, 4090, 4094, 4096, 5000, 9000, 70000}, "pad") + below(t, 10, "more")
	}
	if pct(t, 8) {
		c.Broken = pickOf(t, []string{"(", "(format t \"x\"", "\"abc", "'", "#|", "#(1 2", "(a . ", "|abc", "#\\", "`(a ,", "#'"}, "broken")
		if c.Broken == "#\\" {
			c.Broken = "(format t \"y\") ("
		}
		if c.First != "" && !strings.HasSuffix(c.First, "\n") {
			c.First += "\n"
		}
	}
	for i := below(t, 5, "args"); i > 0; i-- {
		a := pickOf(t, []string{"a", "", "-x", "--", "-e", "b c", "漢", "1", "nil", "\"", "*", "-", "\\", "a=b", ":k"}, "arg")
		if c.Exec && len(c.Args) == 0 && strings.HasPrefix(a, "-") && a != "-" {
			a = "x" // it would be an option
		}
		c.Args = append(c.Args, a)
	}
	for i := below(t, 4, "lines"); i > 0; i-- {
		line := pickOf(t, []string{"a", "", "b c", "漢字", "(", "42"}, "line")
		if pct(t, 10) {
			line += strings.Repeat("x", pickOf(t, []int{70, 4090, 4100, 70000}, "long")+below(t, 10, "more"))
		}
		c.Stdin += line + "\n"
	}
	if pct(t, 30) {
		c.Stdin = strings.TrimSuffix(c.Stdin, "\n")
	}
	return c
}

// cliRun predicts a run.
type cliRun struct {
	c      cliCase
	out    strings.Builder
	err    strings.Builder
	stdin  []rune
	end    string // "", "quit", "fail"
	funs   int
	files  map[string]string
	labels map[string]bool
	unsure bool
}

func lispStr(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (r *cliRun) readLine() (string, bool) {
	if len(r.stdin) == 0 {
		return "", false
	}
	for i, c := range r.stdin {
		if c == '\n' {
			s := string(r.stdin[:i])
			r.stdin = r.stdin[i+1:]
			return s, true
		}
	}
	s := string(r.stdin)
	r.stdin = nil
	return s, true
}

// form returns the text of a form and, when live, what evaluating it does.
func (r *cliRun) form(f cliForm, live bool) string {
	live = live && r.end == ""
	say := func(s string) {
		if live {
			r.out.WriteString(s)
		}
	}
	end := func(how string) {
		if live {
			r.end = how
		}
	}
	if live {
		r.labels[f.K] = true
	}
	n := f.N
	body := func() string {
		var sb strings.Builder
		for _, g := range f.F {
			sb.WriteString(r.form(g, live))
			sb.WriteString(g.G)
		}
		return sb.String()
	}
	switch f.K {
	case "out":
		say(fmt.Sprintf("[%d %s]\n", n, f.S))
		return fmt.Sprintf(`(format (standard-output) "[~D ~A]~%%" %d %s)`, n, lispStr(f.S))
	case "nonl":
		say(fmt.Sprint(n))
		return fmt.Sprintf(`(format-integer (standard-output) %d 10)`, n)
	case "wide":
		say("漢" + f.S)
		return fmt.Sprintf(`(format-object (standard-output) %s nil)`, lispStr("漢"+f.S))
	case "fun":
		r.funs++
		say(fmt.Sprint(2*n, "\n"))
		return fmt.Sprintf(`(defun f%d (x) (+ x x)) (format t "~A~%%" (f%d %d))`, r.funs, r.funs, n)
	case "var":
		r.funs++
		say(fmt.Sprintf("(%d %q)", n, "v"))
		return fmt.Sprintf(`(defglobal v%d (list %d "v")) (format t "~S" v%d)`, r.funs, n, r.funs)
	case "argv":
		for _, a := range r.c.Args {
			say("<" + a + ">")
		}
		return `(dolist (a *posix-argv*) (format t "<~A>" a))`
	case "argv-nth":
		k := n % 4
		a := "none"
		if k < len(r.c.Args) {
			a = r.c.Args[k]
		}
		say(fmt.Sprint(len(r.c.Args), a))
		return fmt.Sprintf(`(format t "~A~A" (length *posix-argv*) (if (< %d (length *posix-argv*)) (elt *posix-argv* %d) "none"))`, k, k)
	case "loop":
		k := n % 20
		for i := 0; i < k; i++ {
			say(fmt.Sprint(i, " "))
		}
		return fmt.Sprintf(`(dotimes (i %d) (format t "~D " i))`, k)
	case "big":
		for i := 0; i < 3000; i++ {
			say(fmt.Sprintf("%d:%s\n", i, f.S))
		}
		return fmt.Sprintf(`(dotimes (i 3000) (format t "~D:~A~%%" i %s))`, lispStr(f.S))
	case "value":
		return pickText(n, []string{"1", `"a"`, "t", "nil", "'(a b)", "#'car", "(lambda (x) x)", ":k", "#\\a", "1.5", "(vector 1)", "(progn)", "(if nil nil)"})
	case "float":
		say("1.5")
		return `(format t "~A" (if (= 1.5 (/ 3.0 2)) "1.5" "no"))`
	case "errout":
		if live {
			r.err.WriteString("e" + f.S)
		}
		return fmt.Sprintf(`(format (error-output) "~A" %s)`, lispStr("e"+f.S))
	case "caught":
		say("caught\n")
		return fmt.Sprintf(`(format t "~A~%%" (block b (with-handler (lambda (c) (return-from b "caught")) (car %d))))`, n)
	case "ignored":
		say("NIL")
		return `(format t "~A" (if (ignore-errors (error "x")) "T" "NIL"))`
	case "ignore-out":
		say("p")
		return `(ignore-errors (format t "p") (car 1) (format t "q"))`
	case "catch":
		say(fmt.Sprint(n))
		return fmt.Sprintf(`(format t "~D" (catch 'k (progn (throw 'k %d) 0)))`, n)
	case "line":
		if live {
			if s, ok := r.readLine(); ok {
				say("{" + s + "}")
			} else {
				say("{}")
			}
		}
		return `(format t "{~A}" (read-line (standard-input) nil ""))`
	case "line-eof":
		if live {
			if s, ok := r.readLine(); ok {
				say("{" + s + "}")
			} else {
				end("fail")
			}
		}
		return `(format t "{~A}" (read-line))`
	case "char":
		if live {
			if len(r.stdin) > 0 {
				say(string(r.stdin[0]))
				r.stdin = r.stdin[1:]
			} else {
				say("EOF")
			}
		}
		return `(format t "~A" (read-char (standard-input) nil "EOF"))`
	case "progn":
		return "(progn " + body() + ")"
	case "let":
		return "(let ((q 1)) " + body() + ")"
	case "eval":
		return "(eval '(progn " + body() + "))"
	case "protect":
		b := r.form(f.F[0], live)
		saved := r.end
		var sb strings.Builder
		sb.WriteString("(unwind-protect (progn " + b + ")" + f.F[0].G)
		if live {
			r.end = ""
		}
		if strings.Contains(" fun var defun ", " "+f.F[0].K+" ") {
			sb.Reset() // two forms
			sb.WriteString("(unwind-protect (progn " + b + f.F[0].G + ") ")
		}
		for _, g := range f.F[1:] {
			sb.WriteString(r.form(g, live))
			sb.WriteString(g.G)
		}
		if live && r.end == "" {
			r.end = saved
		} else if live && saved != "" && saved != r.end {
			r.unsure = true // left in two ways
		}
		sb.WriteString(")")
		return sb.String()
	case "defun":
		r.funs++
		k := r.funs
		return fmt.Sprintf(`(defun g%d () %s) (g%d)`, k, body(), k)
	case "load":
		name := fmt.Sprintf("load%d.lsp", len(r.files))
		r.files[name] = ""
		b := body()
		r.files[name] = b
		return fmt.Sprintf(`(load %s)`, lispStr(name))
	}
	// the ones that end the run
	if f.K == "quit" || f.K == "quit-in-fun" || f.K == "handler-quits" {
		if f.K == "handler-quits" {
			say("h")
		}
		end("quit")
	} else {
		switch f.K {
		case "partial":
			say("part")
		case "deep":
			say("0123")
		case "eof":
			if live {
				r.stdin = nil
			}
		}
		end("fail")
	}
	switch f.K {
	case "error":
		return fmt.Sprintf(`(error "failed ~A" %d)`, n)
	case "cerror":
		return `(cerror "go on" "failed ~A" 1)`
	case "domain":
		return fmt.Sprintf(`(car %d)`, n)
	case "unbound":
		return `(list no-such-variable)`
	case "undefined":
		return `(no-such-function 1 2)`
	case "zero":
		return fmt.Sprintf(`(/ %d 0)`, n)
	case "throw":
		return `(throw 'no-such-tag 1)`
	case "return":
		return `(return-from no-such-block 1)`
	case "abort":
		return `(abort)`
	case "quit":
		return `(quit)`
	case "quit-in-fun":
		r.funs++
		return fmt.Sprintf(`(defun q%d (x) (if (= x 0) (quit) (list (q%d (- x 1))))) (q%d %d)`, r.funs, r.funs, r.funs, n%9)
	case "abort-in-fun":
		r.funs++
		return fmt.Sprintf(`(defun q%d (x) (if (= x 0) (abort) (list (q%d (- x 1))))) (mapcar #'q%d (list %d))`, r.funs, r.funs, r.funs, n%9)
	case "partial":
		return `(let ((s (standard-output))) (format s "part") (car 'x) (format s "no"))`
	case "assure":
		return `(assure <integer> "x")`
	case "elt":
		return `(elt (vector 1 2) 2)`
	case "eof":
		return `(while t (read-line (standard-input)))`
	case "no-file":
		return `(open-input-file "no/such/file")`
	case "deep":
		return `(dotimes (i 9) (format t "~D" i) (if (= i 3) (error "stop")))`
	case "handler-fails":
		return `(with-handler (lambda (c) (car 'again)) (car 'x))`
	case "handler-quits":
		return `(with-handler (lambda (c) (format t "h") (quit)) (car 'x))`
	case "case-end":
		return `(block b (tagbody (return-from b (error "inside"))))`
	}
	panic(f.K)
}

func pickText(n int, l []string) string { return l[n%len(l)] }

func runCli(c cliCase, o *Obs) error {
	r := &cliRun{c: c, stdin: []rune(c.Stdin), files: map[string]string{}, labels: map[string]bool{}}
	var sb strings.Builder
	for _, f := range c.Forms {
		sb.WriteString(r.form(f, c.Broken == ""))
		sb.WriteString(f.G)
	}
	if r.unsure {
		o.Label("left in two ways")
		return nil
	}
	text := sb.String() + c.Broken
	if c.Exec && text == "" {
		text = " "
	}
	dir := filepath.Join(scratchDir(), "cli")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	for name, b := range r.files {
		os.WriteFile(filepath.Join(dir, name), []byte(b), 0o644)
	}
	var argv []string
	if c.Exec {
		argv = append([]string{"-e", text}, c.Args...)
	} else {
		if c.First == "" && text != "" && (text[0] == '#' || text[0] == '@') {
			text = " " + text // it would be skipped
		}
		os.WriteFile(filepath.Join(dir, "script.lsp"), []byte(c.first()+text), 0o644)
		argv = append([]string{"script.lsp"}, c.Args...)
	}
	bin := os.Getenv("HARNESS_BIN")
	if bin == "" {
		bin = "/tmp"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(bin, "gmnlisp"), argv...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(c.Stdin)
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "LANG=C.UTF-8"}
	var out, errout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errout
	err := cmd.Run()
	status := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		status = ee.ExitCode()
	} else if err != nil {
		return fmt.Errorf("harness: running the command: %v", err)
	}
	desc := fmt.Sprintf("gmnlisp %q\n  script: %q\n  files: %q\n  stdin: %q", argv, c.first()+text, r.files, c.Stdin)
	o.Sample(desc)
	for k := range r.labels {
		o.Label("%s", k)
	}
	how := r.end
	if c.Broken != "" {
		how = "unreadable"
	}
	o.Label("end: %s", map[string]string{"": "last form", "quit": "quit", "fail": "failure", "unreadable": "unreadable"}[how])
	if c.Exec {
		o.Label("-e")
	}
	if len(c.Forms) >= 2 {
		o.NonTrivial()
	}
	if ctx.Err() != nil {
		return fmt.Errorf("%s\n  the command did not end", desc)
	}
	if strings.Contains(errout.String(), "goroutine ") {
		return fmt.Errorf("%s\n  the command crashed: %.600s", desc, errout.String())
	}
	if out.String() != r.out.String() {
		return fmt.Errorf("%s\n  standard output %.400q, expected %.400q (stderr %.200q, status %d)", desc, out.String(), r.out.String(), errout.String(), status)
	}
	if !strings.HasPrefix(errout.String(), r.err.String()) {
		return fmt.Errorf("%s\n  standard error %.400q, expected to begin with %.400q", desc, errout.String(), r.err.String())
	}
	msg := errout.String()[r.err.Len():]
	if how == "" || how == "quit" {
		if status != 0 {
			return fmt.Errorf("%s\n  exit status %d: %.300q", desc, status, msg)
		}
		if msg != "" {
			return fmt.Errorf("%s\n  the command succeeded with the message %.300q", desc, msg)
		}
		return nil
	}
	if status == 0 {
		return fmt.Errorf("%s\n  exit status 0 after a failure (%s)", desc, how)
	}
	if strings.TrimSpace(msg) == "" {
		return fmt.Errorf("%s\n  no message on standard error", desc)
	}
	return nil
}

func initCliProps() {
	reg("C30", "command", 4000, 100000,
		"scripts of up to seven forms (nested in functions, load, eval, unwind-protect) that write, read standard input and arguments, and fail, abort or quit at a random place, run by the command from a file (with or without a first line to skip) or -e, a twelfth unreadable; output, message and exit status against a prediction; non-trivial: two or more forms",
		genCliCase, runCli)
}
