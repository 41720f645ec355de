package main

// C31: the functions of pkg/regexp, pkg/wildcard and pkg/subst.

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
	"pgregory.net/rapid"
)

// ---- =~ and =~i ----

type rxCall struct {
	P     int  `json:"p"`
	S     int  `json:"s"`
	Index bool `json:"index"`
	Form  int  `json:"form"` // 0 direct, 1 funcall, 2 apply, 3 mapcar
	World int  `json:"world"`
	Zap   bool `json:"zap"` // the result is changed afterwards
}

type rxCase struct {
	Pats  []string `json:"pats"`
	Subs  []string `json:"subs"`
	Calls []rxCall `json:"calls"`
}

func genRx(t *rapid.T, d int) string {
	n := between(t, 1, 3, "items")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch k := below(t, 16, "rx"); {
		case k < 6:
			sb.WriteString(pickOf(t, []string{"a", "b", "a", "b", "é", "漢", "1", " ", "\\.", "=", "A", "ab"}, "lit"))
		case k < 7:
			sb.WriteString(".")
		case k < 9:
			sb.WriteString(pickOf(t, []string{"[ab]", "[^a]", "[a-c1-3]", "\\d", "\\w", "\\s", "\\S", "[é漢]", "\\pL", "[[:alpha:]]"}, "class"))
		case k < 10:
			sb.WriteString(pickOf(t, []string{"^", "$", "\\b", "(?i)", "(?s)", "(?m)^"}, "assert"))
			continue
		case d > 0 && k < 13:
			sb.WriteString(pickOf(t, []string{"(", "(", "(", "(?:", "(?P<n>"}, "open") + genRx(t, d-1) + ")")
		case d > 0 && k < 14:
			sb.WriteString("(" + genRx(t, d-1) + "|" + genRx(t, d-1) + ")")
		default:
			sb.WriteString(pickOf(t, []string{"a", "b"}, "lit"))
		}
		if pct(t, 35) {
			sb.WriteString(pickOf(t, []string{"*", "+", "?", "*?", "+?", "{1,2}", "{0}"}, "rep"))
		}
	}
	if pct(t, 10) {
		return sb.String() + "|" + genRx(t, 0)
	}
	return sb.String()
}

func genRxCase(t *rapid.T) rxCase {
	var c rxCase
	for i := between(t, 1, 3, "pats"); i > 0; i-- {
		p := genRx(t, 2)
		switch below(t, 12, "odd") {
		case 0:
			p = pickOf(t, []string{"", "a(", "[", "*a", "a**", "(?P<x", "\\", "a{2,1}", "[b-a]", ")", "(?z)", "x*", "a|", "^$"}, "bad")
		case 1:
			p += pickOf(t, []string{"(", "[", "\\", ")"}, "bad tail")
		}
		c.Pats = append(c.Pats, p)
	}
	for i := between(t, 1, 3, "subs"); i > 0; i-- {
		var sb strings.Builder
		for n := below(t, 13, "len"); n > 0; n-- {
			sb.WriteString(pickOf(t, []string{"a", "b", "a", "b", "é", "漢", "1", " ", ".", "=", "A", "É", "\n", "c", "😀", "ab"}, "r"))
		}
		c.Subs = append(c.Subs, sb.String())
	}
	for i := between(t, 1, 6, "calls"); i > 0; i-- {
		c.Calls = append(c.Calls, rxCall{below(t, len(c.Pats), "p"), below(t, len(c.Subs), "s"), pct(t, 50), below(t, 4, "form"), below(t, 2, "world"), pct(t, 30)})
	}
	return c
}

func runRx(c rxCase, o *Obs) error {
	ctx := context.Background()
	var ws [2]*gmnlisp.World
	for i := range ws {
		w, _ := newWorld()
		vars := gmnlisp.Variables{gmnlisp.NewSymbol("r"): gmnlisp.Null}
		for j, p := range c.Pats {
			vars[gmnlisp.NewSymbol(fmt.Sprintf("p%d", j))] = gmnlisp.String(p)
		}
		for j, s := range c.Subs {
			vars[gmnlisp.NewSymbol(fmt.Sprintf("s%d", j))] = gmnlisp.String(s)
		}
		ws[i] = w.Let(vars)
	}
	matched, wide, bad := 0, false, false
	for n, call := range c.Calls {
		w := ws[call.World]
		f := "=~"
		if call.Index {
			f = "=~i"
		}
		p, s := fmt.Sprintf("p%d", call.P), fmt.Sprintf("s%d", call.S)
		form := fmt.Sprintf([]string{"(%s %s %s)", "(funcall #'%s %s %s)", "(apply #'%s %s (list %s))", "(car (mapcar #'%s (list %s) (list %s)))"}[call.Form], f, p, s)
		desc := fmt.Sprintf("call %d: (%s %q %q)", n, f, c.Pats[call.P], c.Subs[call.S])
		o.Sample(desc)
		got, err := w.Interpret(ctx, form)
		re, rerr := regexp.Compile(c.Pats[call.P])
		if rerr != nil {
			bad = true
			o.Label("bad pattern")
			if err == nil {
				return fmt.Errorf("%s: %s, expected an error", desc, show(fromNode(got)))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		var want []V
		for _, m := range re.FindAllStringSubmatchIndex(c.Subs[call.S], -1) {
			var l []V
			if call.Index {
				for _, k := range m {
					l = append(l, Int(k))
				}
			} else {
				for k := 0; k < len(m); k += 2 {
					g := ""
					if m[k] >= 0 {
						g = c.Subs[call.S][m[k]:m[k+1]]
					}
					wide = wide || len(g) != utf8.RuneCountInString(g)
					l = append(l, Str(g))
				}
			}
			want = append(want, vlist(l...))
		}
		if g := show(fromNode(got)); g != show(vlist(want...)) {
			return fmt.Errorf("%s: %s, expected %s", desc, g, show(vlist(want...)))
		}
		o.Label("matches: %d", min(len(want), 4))
		if len(want) > 0 {
			matched++
		}
		if call.Zap && len(want) > 0 {
			if _, err := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("r"): got}).Interpret(ctx, "(progn (set-car 'zap (car r)) (set-cdr nil r))"); err != nil {
				return fmt.Errorf("%s: changing the result: %v", desc, err)
			}
		}
	}
	for i := range ws {
		for j, s := range c.Subs {
			if v, err := ws[i].Interpret(ctx, fmt.Sprintf("s%d", j)); err != nil || show(fromNode(v)) != show(Str(s)) {
				return fmt.Errorf("subject %q is now %v %v", s, v, err)
			}
		}
	}
	if wide {
		o.Label("multi-byte group")
	}
	if matched > 0 || bad {
		o.NonTrivial()
	}
	return nil
}

// ---- wildcard ----

type globStep struct {
	Add []string `json:"add"`
	Del []string `json:"del"`
	Pat []string `json:"pat"` // components; each in the notation of globs
	Bad bool     `json:"bad"`
}

type globCase struct {
	Steps []globStep `json:"steps"`
}

func genFileName(t *rapid.T) string {
	var sb strings.Builder
	for n := between(t, 1, 4, "len"); n > 0; n-- {
		sb.WriteString(pickOf(t, []string{"a", "b", "a", "b", "c", "é", "漢", ".", "-", "1", "[", "]", "*", "?", "^", "A", " ", "\\", ".lsp"}, "r"))
	}
	if s := sb.String(); s != "." && s != ".." {
		return s
	}
	return "x"
}

func genGlob(t *rapid.T, names []string) string {
	esc := func(r rune) string {
		if strings.ContainsRune(`*?[\`, r) {
			return `\` + string(r)
		}
		return string(r)
	}
	var sb strings.Builder
	if len(names) > 0 && pct(t, 70) {
		// made from a name
		for _, r := range pickOf(t, names, "name") {
			switch below(t, 8, "how") {
			case 0:
				sb.WriteString("?")
			case 1:
				sb.WriteString("*")
			case 2:
				if r != ']' && r != '^' && r != '-' && r != '\\' && r != '[' {
					sb.WriteString("[" + pickOf(t, []string{"", "^", "x", "a-b"}, "cls") + string(r) + "]")
				} else {
					sb.WriteString(esc(r))
				}
			case 3:
				if pct(t, 30) {
					break // left out
				}
				fallthrough
			default:
				sb.WriteString(esc(r))
			}
		}
	}
	if sb.Len() == 0 || pct(t, 25) {
		for n := between(t, 1, 3, "n"); n > 0; n-- {
			sb.WriteString(pickOf(t, []string{"*", "*", "?", "a", "b", "[ab]", "[^a]", "[a-c]", ".", "漢", "[é漢]"}, "g"))
		}
	}
	if s := sb.String(); s != "." && s != ".." {
		return s
	}
	return "*"
}

func genGlobCase(t *rapid.T) globCase {
	var c globCase
	var names []string // first components
	var all []string
	for i := between(t, 1, 4, "steps"); i > 0; i-- {
		var st globStep
		for n := below(t, 6, "add"); n > 0; n-- {
			f := genFileName(t)
			if pct(t, 30) && len(all) > 0 {
				// beside an earlier one, or its relative
				f = pickOf(t, all, "base") + pickOf(t, []string{"a", "b", ".lsp", "/a", "/b", "/c"}, "more")
			} else if pct(t, 35) {
				f += "/" + genFileName(t)
			}
			st.Add = append(st.Add, f)
			all = append(all, f)
			names = append(names, strings.Split(f, "/")...)
		}
		if len(all) > 0 && pct(t, 30) {
			st.Del = append(st.Del, pickOf(t, all, "del"))
		}
		st.Pat = []string{genGlob(t, names)}
		if pct(t, 40) {
			st.Pat = append(st.Pat, genGlob(t, names))
		}
		if pct(t, 8) {
			st.Bad = true
			k := len(st.Pat) - 1
			st.Pat[k] += pickOf(t, []string{"[", "[a", "[]", "[^]", "[a-"}, "bad")
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// globMatch matches one component, as the host defines it.
func globMatch(p, s string) bool {
	ok, err := filepath.Match(p, s)
	return ok && err == nil
}

func runGlob(c globCase, o *Obs) error {
	ctx := context.Background()
	root := filepath.Join(scratchDir(), "glob")
	if err := os.MkdirAll(root, 0o755); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	defer os.RemoveAll(root)
	w, _ := newWorld()
	var log []string
	for n, st := range c.Steps {
		for _, f := range st.Add {
			// a file in the way of a directory is left; so is the new one
			p := filepath.Join(root, f)
			if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
				if _, err := os.Lstat(p); err != nil {
					os.WriteFile(p, nil, 0o644)
				}
			}
		}
		for _, f := range st.Del {
			os.Remove(filepath.Join(root, f))
		}
		// what is there
		var paths [][]string
		filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
			if err == nil && p != root {
				paths = append(paths, strings.Split(p[len(root)+1:], "/"))
			}
			return nil
		})
		var want []string
		for _, p := range paths {
			if st.Bad || len(p) != len(st.Pat) {
				continue
			}
			ok := true
			for i := range p {
				ok = ok && globMatch(st.Pat[i], p[i])
			}
			if ok {
				want = append(want, filepath.Join(append([]string{root}, p...)...))
			}
		}
		pat := root + "/" + strings.Join(st.Pat, "/")
		log = append(log, fmt.Sprintf("add %q, remove %q, (wildcard %q)", st.Add, st.Del, strings.Join(st.Pat, "/")))
		got, err := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("p"): gmnlisp.String(pat)}).Interpret(ctx, []string{"(wildcard p)", "(funcall #'wildcard p)"}[n%2])
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s\n  after %s", fmt.Sprintf(f, a...), strings.Join(log, "\n        "))
		}
		if st.Bad {
			o.Label("bad pattern")
			o.NonTrivial()
			// the host notices an invalid pattern only when it gets there
			if err == nil && gmnlisp.IsSome(got) {
				return fail("%s, expected an error or nil", show(fromNode(got)))
			}
			continue
		}
		if err != nil {
			return fail("%v", err)
		}
		l, ok := vslice(fromNode(got))
		if !ok {
			return fail("the result %s is no list", show(fromNode(got)))
		}
		var have []string
		for _, v := range l {
			s, ok := v.(Str)
			if !ok {
				return fail("the result %s holds no strings only", show(fromNode(got)))
			}
			have = append(have, string(s))
		}
		sort.Strings(want)
		sort.Strings(have)
		if strings.Join(want, "\n") != strings.Join(have, "\n") {
			return fail("wildcard returned %q, expected %q", have, want)
		}
		o.Label("paths: %d", min(len(want), 4))
		if len(want) > 0 && len(want) < len(paths) {
			o.NonTrivial()
		}
	}
	o.Sample(strings.Join(log, "; "))
	return nil
}

// ---- subst ----

type substCase struct {
	Tree D `json:"tree"`
	Old  D `json:"old"`
	New  D `json:"new"`
	// OldAt >= 0: the old item is the very cons at this place of the tree
	OldAt int  `json:"oldat"`
	Again bool `json:"again"`
}

func genSubstCase(t *rapid.T) substCase {
	leaf := func() D {
		return pickOf(t, []D{dInt(1), dInt(2), dFlt(1), dStr("x"), dStr("X"), dStr("1"), dSym("x"), dSym("y"), dChr('x'), {K: "n"}, {K: "t"}, dKw(":x"), dInt(-1), {K: "a", Dim: []int{1}, L: []D{dSym("x")}}}, "leaf")
	}
	var tree func(d int) D
	tree = func(d int) D {
		if d == 0 || pct(t, 30) {
			return leaf()
		}
		x := D{K: "l"}
		for n := between(t, 1, 4, "n"); n > 0; n-- {
			x.L = append(x.L, tree(d-1))
		}
		if pct(t, 25) {
			if l := leaf(); l.K != "n" {
				x.T = &l
			}
		}
		return x
	}
	c := substCase{Tree: tree(between(t, 1, 4, "depth")), Old: leaf(), New: leaf(), OldAt: -1, Again: pct(t, 30)}
	if pct(t, 20) {
		c.New = tree(2)
	}
	if pct(t, 15) {
		c.Old = tree(2)
	} else if pct(t, 25) {
		c.OldAt = below(t, 12, "at")
	}
	return c
}

func runSubst(c substCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	tree, old, nw := c.Tree.Node(ctx, w), c.Old.Node(ctx, w), c.New.Node(ctx, w)
	// the conses of the tree, in preorder
	type cell struct {
		c        *gmnlisp.Cons
		car, cdr gmnlisp.Node
	}
	var cells []cell
	var walk func(n gmnlisp.Node)
	walk = func(n gmnlisp.Node) {
		if p, ok := n.(*gmnlisp.Cons); ok {
			cells = append(cells, cell{p, p.Car, p.Cdr})
			walk(p.Car)
			walk(p.Cdr)
		}
	}
	walk(tree)
	if c.OldAt >= 0 && len(cells) > 0 {
		old = cells[c.OldAt%len(cells)].c
	}
	isOld := func(n gmnlisp.Node) bool {
		switch x := n.(type) {
		case *gmnlisp.Cons:
			return n == old
		case *gmnlisp.Array:
			return n == old
		case gmnlisp.Float:
			y, ok := old.(gmnlisp.Float)
			return ok && x == y
		}
		if _, ok := old.(*gmnlisp.Array); ok {
			return false
		}
		return n == old
	}
	hits := 0
	// compares the result with the tree and new item
	var cmp func(got, src gmnlisp.Node) error
	cmp = func(got, src gmnlisp.Node) error {
		if isOld(src) {
			hits++
			if got != nw {
				return fmt.Errorf("%s where the new item is due", show(fromNode(got)))
			}
			return nil
		}
		if p, ok := src.(*gmnlisp.Cons); ok {
			g, ok := got.(*gmnlisp.Cons)
			if !ok {
				return fmt.Errorf("%s for the list %s", show(fromNode(got)), show(fromNode(src)))
			}
			if err := cmp(g.Car, p.Car); err != nil {
				return err
			}
			return cmp(g.Cdr, p.Cdr)
		}
		if got != src {
			return fmt.Errorf("%s for the item %s", show(fromNode(got)), show(fromNode(src)))
		}
		return nil
	}
	lw := w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("new"): nw, gmnlisp.NewSymbol("old"): old, gmnlisp.NewSymbol("tree"): tree})
	desc := fmt.Sprintf("(subst %s %s %s)", show(c.New.V()), show(fromNode(old)), show(c.Tree.V()))
	o.Sample(desc)
	before := show(fromNode(tree))
	n := 1
	if c.Again {
		n = 2
	}
	for i := 0; i < n; i++ {
		got, err := lw.Interpret(ctx, "(subst new old tree)")
		if err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		hits = 0
		if err := cmp(got, tree); err != nil {
			return fmt.Errorf("%s: %s: %v", desc, show(fromNode(got)), err)
		}
		for _, x := range cells {
			if x.c.Car != x.car || x.c.Cdr != x.cdr {
				return fmt.Errorf("%s: the tree %s is now %s", desc, before, show(fromNode(tree)))
			}
		}
		if after := show(fromNode(nw)); after != show(c.New.V()) {
			return fmt.Errorf("%s: the new item is now %s", desc, after)
		}
	}
	o.Label("occurrences: %d", min(hits, 4))
	if hits > 0 && len(cells) > 1 {
		o.NonTrivial()
	}
	return nil
}

// ---- arguments ----

type extArgCase struct {
	F    string `json:"f"`
	Args []D    `json:"args"`
}

func runExtArgs(c extArgCase, o *Obs) error {
	ctx := context.Background()
	w, _ := newWorld()
	need := map[string]int{"=~": 2, "=~i": 2, "wildcard": 1, "subst": 3}[c.F]
	lw := bindArgs(ctx, w, c.Args)
	var vs []string
	for i := range c.Args {
		vs = append(vs, fmt.Sprintf("x%d", i))
	}
	form := "(" + c.F + " " + strings.Join(vs, " ") + ")"
	desc := c.F + " " + dShows(c.Args)
	o.Sample(desc)
	got, err := lw.Interpret(ctx, form)
	if len(c.Args) != need {
		o.Label("wrong count")
		o.NonTrivial()
		if err == nil {
			return fmt.Errorf("%s: %s, expected an error", desc, show(fromNode(got)))
		}
		return argsUnchanged(ctx, lw, c.Args)
	}
	bad := false
	if c.F != "subst" {
		for _, a := range c.Args {
			bad = bad || a.K != "s"
		}
	}
	if bad {
		o.Label("wrong type")
		o.NonTrivial()
		if cls, _ := errClass(err); err == nil || cls != hDomain && c.Args[0].K != "s" {
			return fmt.Errorf("%s: %v %v, expected a domain error", desc, got, err)
		}
	}
	return argsUnchanged(ctx, lw, c.Args)
}

func initExtProps() {
	reg("C31", "regexp-histories", 30000, 900000,
		"one to three patterns (a tenth invalid) and subjects, called one to six times through =~ and =~i directly, by funcall, apply or mapcar, in two Worlds, some results changed in between; every result against Go's regexp; non-trivial: a match or an invalid pattern",
		genRxCase, runRx)
	reg("C31", "wildcard-histories", 20000, 200000,
		"files added and removed in a scratch directory between calls of wildcard with patterns of one or two components, against the matching of single names by the host, over a walk of the directory; non-trivial: some but not all paths match, or an invalid pattern",
		genGlobCase, runGlob)
	reg("C31", "subst-trees", 40000, 1200000,
		"trees with dotted tails and repeated leaves; the old item is a leaf value, a fresh tree or a very cons of the tree; the result node by node and the tree cell by cell; non-trivial: the old item occurs",
		genSubstCase, runSubst)
	reg("C31", "arguments", 10000, 200000,
		"wrong numbers and types of arguments are refused; non-trivial: a refusal is due",
		func(t *rapid.T) extArgCase {
			c := extArgCase{F: pickOf(t, []string{"=~", "=~i", "wildcard", "subst"}, "f")}
			for n := below(t, 5, "n"); n > 0; n-- {
				if pct(t, 50) {
					c.Args = append(c.Args, dStr(pickOf(t, []string{"a", "b*", "", "xa"}, "s")))
				} else {
					c.Args = append(c.Args, genData(t, dataCfg{}))
				}
			}
			return c
		}, runExtArgs)
}
