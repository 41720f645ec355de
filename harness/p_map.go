package main

// C15 mapcar mapc maplist mapl mapcan mapcon.

import (
	"context"
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp"
	"pgregory.net/rapid"
)

type mapCase struct {
	Op    string `json:"op"`
	Lists []D    `json:"lists"`
	// Same[i] = j+1: list i is the very list j; Tail[i] = k: list i is its k-th tail
	Same []int `json:"same"`
	Tail []int `json:"tail"`
	Res  []D   `json:"res"`
	Fn   int   `json:"fn"`
	Call int   `json:"call"`
	// Exit: the call number (from 1) that is left by a non-local exit, or 0
	Exit int `json:"exit"`
	Kind int `json:"kind"`
	// Inner: the function itself maps
	Inner bool `json:"inner"`
}

// mapRec records the calls of verif-rec.
type mapRec struct {
	calls [][]gmnlisp.Node
	res   []gmnlisp.Node
	exit  int
}

var curMap *mapRec

func init() {
	gmnlisp.Export(gmnlisp.NewSymbol("verif-rec"), &gmnlisp.Function{F: func(ctx context.Context, w *gmnlisp.World, args []gmnlisp.Node) (gmnlisp.Node, error) {
		r := curMap
		r.calls = append(r.calls, append([]gmnlisp.Node{}, args...))
		if n := len(r.calls); n <= len(r.res) {
			return r.res[n-1], nil
		}
		return gmnlisp.Null, nil
	}})
	gmnlisp.Export(gmnlisp.NewSymbol("verif-leave"), gmnlisp.Function0(func(ctx context.Context, w *gmnlisp.World) (gmnlisp.Node, error) {
		if curMap.exit > 0 && len(curMap.calls) == curMap.exit {
			return gmnlisp.True, nil
		}
		return gmnlisp.Null, nil
	}))
}

var mapElems = dataCfg{depth: 2, anySym: false, dotted: true, arrays: true, maxLen: 3}

func genMapCase(t *rapid.T) mapCase {
	c := mapCase{Op: pickOf(t, []string{"mapcar", "mapc", "maplist", "mapl", "mapcan", "mapcon"}, "op")}
	n := pickOf(t, []int{1, 1, 1, 2, 2, 3, 4, 7}, "lists")
	shortest := 99
	length := 0
	if pct(t, 85) {
		length = between(t, 1, 7, "length")
	}
	var lens []int
	for i := 0; i < n; i++ {
		c.Same = append(c.Same, 0)
		c.Tail = append(c.Tail, 0)
		if i > 0 && pct(t, 15) {
			j := below(t, i, "same")
			if c.Same[j] == 0 {
				c.Same[i] = j + 1
				c.Tail[i] = below(t, 3, "tail")
				c.Lists = append(c.Lists, D{K: "n"})
				l := max(0, lens[j]-c.Tail[i])
				lens = append(lens, l)
				shortest = min(shortest, l)
				continue
			}
		}
		l := length
		if pct(t, 35) {
			l = below(t, 8, "length")
		}
		d := D{K: "l"}
		for k := 0; k < l; k++ {
			if pct(t, 50) {
				d.L = append(d.L, genMapAtom(t))
			} else {
				d.L = append(d.L, genData(t, mapElems))
			}
		}
		if l == 0 {
			d = D{K: "n"}
		}
		lens = append(lens, l)
		shortest = min(shortest, l)
		c.Lists = append(c.Lists, d)
	}
	for i := 0; i < shortest; i++ {
		if c.Op == "mapcan" || c.Op == "mapcon" {
			d := D{K: "l"}
			for k := below(t, 4, "len"); k > 0; k-- {
				d.L = append(d.L, genMapAtom(t))
			}
			if len(d.L) == 0 {
				d = D{K: "n"}
			} else if i == shortest-1 && pct(t, 10) {
				a := dInt(7)
				d.T = &a
			}
			c.Res = append(c.Res, d)
		} else if pct(t, 50) {
			c.Res = append(c.Res, genMapAtom(t))
		} else {
			c.Res = append(c.Res, genData(t, mapElems))
		}
	}
	c.Fn = below(t, 6, "fn")
	c.Call = below(t, 3, "call")
	if shortest > 0 && pct(t, 15) {
		c.Exit = between(t, 1, shortest, "exit")
		c.Kind = below(t, 3, "kind")
	}
	c.Inner = pct(t, 20)
	return c
}

func genMapAtom(t *rapid.T) D {
	return pickOf(t, []D{dSym("car"), dSym("undefined-variable"), dInt(1), dInt(2), {K: "n"}, {K: "t"}, dStr("s"), dChr('c'), dKw(":k"), dList(dSym("quote"), dSym("x")), dList(dSym("car"), dInt(1)), dList(dSym("unquote"), dSym("x"))}, "atom")
}

func runMapCase(c mapCase, o *Obs) error {
	ctx := context.Background()
	w, out := newWorld()
	k := len(c.Lists)
	rec := &mapRec{exit: c.Exit}
	curMap = rec
	defer func() { curMap = nil }()
	lists := make([]gmnlisp.Node, k)
	model := make([]V, k)
	vars := map[string]gmnlisp.Node{}
	for i, d := range c.Lists {
		lists[i] = d.Node(ctx, w)
		model[i] = d.V()
		if s := c.Same[i]; s > 0 {
			lists[i], model[i] = lists[s-1], model[s-1]
			for n := c.Tail[i]; n > 0; n-- {
				if p, ok := model[i].(*Pair); ok {
					model[i] = p.Cdr
					lists[i] = lists[i].(*gmnlisp.Cons).Cdr
				}
			}
		}
		vars[fmt.Sprintf("x%d", i)] = lists[i]
	}
	for _, d := range c.Res {
		rec.res = append(rec.res, d.Node(ctx, w))
	}
	lw := letVars(w, vars)
	var params, args []string
	for i := 0; i < k; i++ {
		params = append(params, fmt.Sprintf("p%d", i))
		args = append(args, fmt.Sprintf("x%d", i))
	}
	ps, as := strings.Join(params, " "), strings.Join(args, " ")
	leave := ""
	if c.Exit > 0 {
		leave = "(if (verif-leave) " + []string{"(return-from b 'left)", "(throw 'c 'left)", "(go over)"}[c.Kind] + ")"
	}
	inner := ""
	if c.Inner {
		inner = fmt.Sprintf("(%s (lambda (q) (mapcar (lambda (y) y) (list q q))) '(1 2))", c.Op)
	}
	body := fmt.Sprintf("(let ((r (verif-rec %s))) %s %s r)", ps, inner, leave)
	var fn, prelude string
	wrap := "%s"
	switch {
	case c.Fn == 0 && c.Exit == 0 && !c.Inner:
		fn = "#'verif-rec"
	case c.Fn <= 1:
		fn = fmt.Sprintf("(lambda (%s) %s)", ps, body)
	case c.Fn == 2:
		fn = fmt.Sprintf("(lambda (&rest a) (let ((r (apply #'verif-rec a))) %s %s r))", inner, leave)
	case c.Fn == 3:
		wrap = fmt.Sprintf("(flet ((f (%s) %s)) %%s)", ps, body)
		fn = "#'f"
	case c.Fn == 4:
		wrap = fmt.Sprintf("(labels ((f (%s) %s)) (let ((g #'f)) %%s))", ps, body)
		fn = "g"
	default:
		if c.Exit == 0 {
			prelude = fmt.Sprintf("(defun verif-f (%s) %s)", ps, body)
			fn = "#'verif-f"
		} else {
			fn = fmt.Sprintf("(lambda (%s :rest z) %s)", ps, body)
		}
	}
	call := []string{"(%s %s %s)", "(funcall #'%s %s %s)", "(apply #'%s %s (list %s))"}[c.Call]
	text := fmt.Sprintf(wrap, fmt.Sprintf(call, c.Op, fn, as))
	if c.Exit > 0 {
		switch c.Kind {
		case 0:
			text = "(block b " + text + ")"
		case 1:
			text = "(catch 'c " + text + ")"
		case 2:
			text = "(let ((v 'left)) (tagbody (setq v " + text + ") over) v)"
		}
	}
	if prelude != "" {
		if _, err := w.Interpret(ctx, prelude); err != nil {
			return fmt.Errorf("%s: %v", prelude, err)
		}
	}
	desc := func() string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s\n  where", text)
		for i := range model {
			fmt.Fprintf(&sb, " x%d=%s", i, show(model[i]))
		}
		return sb.String()
	}
	o.Sample(desc())
	got, err := lw.Interpret(ctx, text)
	if err != nil {
		return fmt.Errorf("%s\n  %v", desc(), err)
	}
	// the calls
	tails := c.Op == "maplist" || c.Op == "mapl" || c.Op == "mapcon"
	var want [][]V
	cur := append([]V{}, model...)
	curN := append([]gmnlisp.Node{}, lists...)
	var wantN [][]gmnlisp.Node
loop:
	for {
		var tuple []V
		var tupleN []gmnlisp.Node
		for i := range cur {
			p, ok := cur[i].(*Pair)
			if !ok {
				break loop
			}
			if tails {
				tuple, tupleN = append(tuple, p), append(tupleN, curN[i])
			} else {
				tuple, tupleN = append(tuple, p.Car), append(tupleN, curN[i].(*gmnlisp.Cons).Car)
			}
		}
		want, wantN = append(want, tuple), append(wantN, tupleN)
		if len(want) == c.Exit {
			break
		}
		for i := range cur {
			cur[i] = cur[i].(*Pair).Cdr
			curN[i] = curN[i].(*gmnlisp.Cons).Cdr
		}
	}
	if len(rec.calls) != len(want) {
		return fmt.Errorf("%s\n  the function was called %d times, expected %d", desc(), len(rec.calls), len(want))
	}
	for i := range want {
		if len(rec.calls[i]) != k {
			return fmt.Errorf("%s\n  call %d has %d arguments", desc(), i+1, len(rec.calls[i]))
		}
		for j := range want[i] {
			if g, w := show(fromNode(rec.calls[i][j])), show(want[i][j]); g != w {
				return fmt.Errorf("%s\n  call %d: argument %d is %s, expected %s", desc(), i+1, j, g, w)
			}
			switch x := wantN[i][j].(type) {
			case *gmnlisp.Cons:
				if y, ok := rec.calls[i][j].(*gmnlisp.Cons); !ok || x != y {
					return fmt.Errorf("%s\n  call %d: argument %d is a copy of %s", desc(), i+1, j, show(want[i][j]))
				}
			case *gmnlisp.Array:
				if y, ok := rec.calls[i][j].(*gmnlisp.Array); !ok || x != y {
					return fmt.Errorf("%s\n  call %d: argument %d is a copy of %s", desc(), i+1, j, show(want[i][j]))
				}
			}
		}
	}
	// the value
	var wv V
	switch {
	case c.Exit > 0:
		wv = Sym("left")
	case c.Op == "mapcar" || c.Op == "maplist":
		var l []V
		for _, d := range c.Res {
			l = append(l, d.V())
		}
		wv = vlist(l...)
	case c.Op == "mapc" || c.Op == "mapl":
		wv = model[0]
		if x, ok := lists[0].(*gmnlisp.Cons); ok {
			if y, ok := got.(*gmnlisp.Cons); !ok || x != y {
				return fmt.Errorf("%s\n  the value is not the first list but %s", desc(), show(fromNode(got)))
			}
		}
	default:
		wv = Nil
		for i := len(c.Res) - 1; i >= 0; i-- {
			v := c.Res[i].V()
			if i == len(c.Res)-1 {
				wv = v
				continue
			}
			l, _ := vslice(v)
			for k := len(l) - 1; k >= 0; k-- {
				wv = &Pair{l[k], wv}
			}
		}
	}
	if g, w := show(fromNode(got)), show(wv); g != w {
		return fmt.Errorf("%s\n  the value is %s, expected %s", desc(), g, w)
	}
	for i := range lists {
		if g, w := show(fromNode(lists[i])), show(model[i]); g != w {
			return fmt.Errorf("%s\n  the argument x%d was changed to %s", desc(), i, g)
		}
		if v, _ := lw.Interpret(ctx, args[i]); show(fromNode(v)) != show(model[i]) {
			return fmt.Errorf("%s\n  the variable x%d was changed to %s", desc(), i, show(fromNode(v)))
		}
	}
	if (c.Op == "mapcar" || c.Op == "maplist") && c.Exit == 0 {
		// the results are the very objects the function returned
		var n gmnlisp.Node = got
		for i, r := range rec.res {
			p := n.(*gmnlisp.Cons)
			if x, ok := r.(*gmnlisp.Cons); ok && gmnlisp.Node(x) != p.Car {
				return fmt.Errorf("%s\n  result %d is a copy", desc(), i)
			}
			n = p.Cdr
		}
	}
	if s := out.String(); s != "" {
		return fmt.Errorf("unexpected output %q", s)
	}
	o.Label("%s with %d lists", c.Op, k)
	o.Label("calls: %d", min(len(want), 4))
	if c.Exit > 0 {
		o.Label("left by a non-local exit")
	}
	if len(want) >= 2 {
		o.NonTrivial()
	}
	return nil
}

func initMapProps() {
	reg("C15", "mapping", 30000, 1000000, "the function is called at least twice", genMapCase, runMapCase)
}
