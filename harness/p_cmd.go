package main

// C36: the command function of pkg/command.

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	_ "github.com/hymkor/gmnlisp/pkg/command"
	"pgregory.net/rapid"
)

type cmdStep struct {
	Kind int      `json:"kind"` // 0-4 printf, 5 exit status, 6 no such program, 7 text between, 8 standard error, 9 a cancelled context
	Via  int      `json:"via"`
	Args []string `json:"args,omitempty"` // Lisp literals
	Code int      `json:"code,omitempty"`
	Wrap int      `json:"wrap"`
}

var cmdPieces = []string{"a", "b c", " ", "", "é", "日本", "$HOME", "`true`", "$(true)", "*", "?", "zqx;zqx", "&", "|", "#", "'", "\\", "\\n", "\t", "\n", "%s", "-n", "--", "-", "=", "~", "{a,b}", "[a-z]", "!", "(", ")", "/"}

var cmdAtoms = [][2]string{{"5", "5"}, {"-30", "-30"}, {"'sym", "sym"}, {"#\\a", "a"}, {"nil", "nil"}, {"'(1 \"x\" b)", "(1 x b)"}, {"t", "t"}, {"(+ 1 2)", "3"}, {"(string-append \"a\" \" b\")", "a b"}, {"#(1 2)", "#(1 2)"}}

func genCmd(t *rapid.T) []cmdStep {
	var l []cmdStep
	for n := between(t, 1, 4, "n"); n > 0; n-- {
		s := cmdStep{Kind: below(t, 9, "kind"), Via: below(t, 4, "via"), Wrap: below(t, 4, "wrap"), Code: between(t, 0, 3, "code")}
		if pct(t, 1) {
			s.Kind = 9
		}
		for a := below(t, 5, "args"); a > 0 && s.Kind < 5; a-- {
			if pct(t, 25) {
				s.Args = append(s.Args, fmt.Sprint(below(t, len(cmdAtoms), "atom")))
				continue
			}
			arg := "s"
			for p := below(t, 4, "pieces"); p > 0; p-- {
				arg += pickOf(t, cmdPieces, "piece")
			}
			s.Args = append(s.Args, arg)
		}
		l = append(l, s)
	}
	return l
}

func runCmd(l []cmdStep, o *Obs) error {
	w, out := newWorld()
	var errout bytes.Buffer
	w.SetErrout(&errout)
	var want, wantErr strings.Builder
	var log []string
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
	}
	for i, s := range l {
		ctx := context.Context(newCountCtx(lookFuel))
		var args []string
		bad := false
		switch s.Kind {
		default:
			args = []string{`"printf"`, `"<%s>"`}
			for _, a := range s.Args {
				if a[0] == 's' {
					args = append(args, lispStr(a[1:]))
					want.WriteString("<" + a[1:] + ">")
					continue
				}
				var k int
				fmt.Sscan(a, &k)
				args = append(args, cmdAtoms[k][0])
				want.WriteString("<" + cmdAtoms[k][1] + ">")
			}
			if len(s.Args) == 0 {
				want.WriteString("<>")
			} else {
				o.NonTrivial()
			}
		case 5:
			args = []string{`"sh"`, `"-c"`, lispStr(fmt.Sprintf("echo x%d; exit %d", i, s.Code))}
			fmt.Fprintf(&want, "x%d\n", i)
			bad = s.Code != 0
			o.Label("exit status")
		case 6:
			args = []string{`"/nonexistent/verif-command"`, `"a"`}
			bad = true
		case 7:
			text := fmt.Sprintf("(format (standard-output) \"t%d~%%\")", i)
			if s.Code%2 == 1 { // on a new line
				text = fmt.Sprintf("(format (standard-output) \"~&t%d~%%\")", i)
				if have := want.String(); have != "" && !strings.HasSuffix(have, "\n") {
					want.WriteString("\n")
					o.Label("~& after a command")
				}
			}
			log = append(log, text)
			if _, err := w.Interpret(ctx, text); err != nil {
				return fail("%v", err)
			}
			fmt.Fprintf(&want, "t%d\n", i)
			continue
		case 8:
			args = []string{`"sh"`, `"-c"`, `"echo \"$1\" >&2"`, `"sh"`, lispStr(fmt.Sprint("e ", i))}
			fmt.Fprintf(&wantErr, "e %d\n", i)
		case 9:
			args = []string{`"sleep"`, `"12"`}
			c, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
			defer cancel()
			ctx = c
			bad = true
			o.Label("cancelled")
			s.Wrap = 0
		}
		call := "(command " + strings.Join(args, " ") + ")"
		switch s.Via {
		case 1:
			call = "(funcall #'command " + strings.Join(args, " ") + ")"
		case 2:
			call = "(apply #'command (list " + strings.Join(args, " ") + "))"
		case 3:
			for j := range args {
				args[j] = "(list " + args[j] + ")"
			}
			call = "(car (mapcar #'command " + strings.Join(args, " ") + "))"
		}
		form, value := call, "nil"
		switch s.Wrap {
		case 1:
			form, value = "(progn "+call+" 'after)", "after"
		case 2:
			form, value = "(ignore-errors "+call+" 'after)", "after"
			if bad {
				bad, value = false, "nil"
			}
		case 3:
			form, value = "(block b (with-handler (lambda (c) (return-from b 'handled)) "+call+" 'after))", "after"
			if bad {
				bad, value = false, "handled"
			}
		}
		log = append(log, form)
		start := time.Now()
		v, err := w.Interpret(ctx, form)
		if d := time.Since(start); s.Kind == 9 && d > 8*time.Second {
			return fail("a command is not ended within %v when its context is", d)
		}
		if bad {
			if err == nil {
				return fail("it is no error, the value is %s", show(fromNode(v)))
			}
			o.NonTrivial()
		} else if err != nil {
			return fail("%v", err)
		} else if got := show(fromNode(v)); got != value {
			return fail("the value is %s, expected %s", got, value)
		}
		if got := out.String(); got != want.String() {
			return fail("the output is %q, expected %q", got, want.String())
		}
		if got := errout.String(); got != wantErr.String() {
			return fail("the output on standard error is %q, expected %q", got, wantErr.String())
		}
	}
	o.Sample(strings.Join(log, "\n"))
	return nil
}

func initCmdProps() {
	reg("C36", "commands", 3000, 60000,
		"1 to 4 calls of command by all ways of calling, with arguments of all kinds and strings with characters that a shell would interpret, with commands that fail, do not exist, write to standard error or outlive their context, and text written between; non-trivial: a command with arguments, or one that fails",
		genCmd, runCmd)
}
