package main

import (
	"strings"

	"pgregory.net/rapid"
)

func with(base weights, over weights) weights {
	r := weights{}
	for k, v := range base {
		r[k] = v
	}
	for k, v := range over {
		r[k] = v
	}
	return r
}

func regProg(prop, name string, quick, thorough int, rule string, cfg progCfg, nontrivial func(f map[string]int) bool) {
	reg(prop, name, quick, thorough, rule,
		func(t *rapid.T) Program { return genProgram(t, cfg) },
		func(p Program, o *Obs) error { return runProgram(p, o, progOpts{nontrivial: nontrivial}) })
}

func exits(f map[string]int) int {
	n := 0
	for k, v := range f {
		if strings.HasPrefix(k, "exit ") {
			n += v
		}
	}
	return n
}

var noExits = weights{"return-from": 1, "throw": 0, "catch": 0, "unwind-protect": 0, "with-handler": 0, "dynamic-let": 0, "tagbody": 1}

func initProgProps() {
	regProg("C03", "scope", 40000, 1200000,
		"typed random programs (globals, defuns, closures, let/let*, flet/labels, setq, small name pools) run on the interpreter and the reference; non-trivial: a closure or local function was used and a user function called",
		progCfg{w: with(noExits, weights{"lambda": 7, "let": 6, "let*": 4, "local-fun": 4, "setq": 5, "stmt-setq": 6, "fun-var": 6, "thunk-call": 3}),
			depth: 6, funs: 3, globals: 3, mains: 3, methods: 25},
		func(f map[string]int) bool { return featSum(f, "closure", "local function") > 1 && f["user call"] > 1 })
	regProg("C04", "recursion", 25000, 600000,
		"random programs whose functions call themselves with decreasing fuel in tail and other positions; non-trivial: at least 3 user calls",
		progCfg{w: with(noExits, weights{"rec": 14, "call": 6, "if": 5, "let": 5, "let*": 4, "progn": 3, "cond": 3, "lambda": 5, "setq": 4}),
			depth: 5, funs: 4, globals: 2, mains: 3, recFuns: true},
		func(f map[string]int) bool { return f["user call"] > 3 })
	regProg("C05", "exits", 40000, 1000000,
		"random programs of nested block/catch/tagbody, calls, closures, loops and mapping with return-from/return/throw/go at every depth; non-trivial: an exit was taken",
		progCfg{w: weights{"block": 6, "catch": 5, "return-from": 7, "throw": 5, "go": 5, "tagbody": 5, "loop": 4, "lambda": 5, "mapc": 3, "mapcar": 4, "unwind-protect": 2, "local-fun": 3, "with-handler": 0, "call": 6},
			depth: 6, funs: 3, globals: 1, mains: 3, methods: 20},
		func(f map[string]int) bool { return exits(f) > 0 })
	regProg("C06", "cleanup", 40000, 1000000,
		"random programs with unwind-protect around every kind of exit (values, return-from, throw, go, errors, handlers); non-trivial: a cleanup ran because of an exit",
		progCfg{w: weights{"unwind-protect": 8, "block": 4, "catch": 4, "return-from": 6, "throw": 4, "go": 4, "tagbody": 3, "loop": 3, "with-handler": 3, "error-op": 2, "dynamic-let": 1, "ignore-errors": 1},
			depth: 6, funs: 3, globals: 1, mains: 3, methods: 20},
		func(f map[string]int) bool { return f["cleanup on exit"] > 0 })
	regProg("C07", "dynamic", 40000, 1000000,
		"random programs with defdynamic, nested dynamic-let, set-dynamic, reads through calls and closures and every kind of exit; non-trivial: a dynamic binding was made and one read",
		progCfg{w: weights{"dynamic-let": 9, "dynamic": 7, "set-dynamic": 5, "call": 6, "block": 3, "catch": 3, "return-from": 3, "throw": 3, "with-handler": 2, "error-op": 1, "unwind-protect": 2, "ignore-errors": 1, "lambda": 4},
			depth: 6, funs: 3, globals: 1, dyns: true, mains: 3, methods: 20},
		func(f map[string]int) bool { return f["dynamic-let"] > 0 && f["dynamic read"] > 0 })
	regProg("C08", "handlers", 40000, 1000000,
		"random programs with nested with-handler (leaving by return-from, throw or continue-condition) around failing operations of every class; non-trivial: a condition was signalled",
		progCfg{w: weights{"with-handler": 10, "error-op": 3, "block": 2, "catch": 2, "return-from": 2, "throw": 2, "unwind-protect": 2, "call": 5, "ignore-errors": 2, "dynamic-let": 1, "lambda": 4},
			depth: 6, funs: 3, globals: 1, mains: 3, methods: 20},
		func(f map[string]int) bool { return f["signal"] > 0 })
	regProg("C09", "order", 40000, 1000000,
		"random programs in which most argument forms have effects (traced values, assignments); non-trivial: a user function or closure called and an assignment made",
		progCfg{w: with(noExits, weights{"tr": 10, "setq": 7, "arith": 5, "call": 6, "funcall": 5, "apply": 4, "lambda-call": 3, "list": 5, "cond": 3, "case": 3, "bool-op": 4, "prog1": 3, "local-fun": 2}),
			depth: 5, funs: 3, globals: 2, mains: 3, methods: 20},
		func(f map[string]int) bool { return f["user call"] > 0 && f["setq"] > 0 })
	regProg("C10", "macros", 40000, 1000000,
		"random programs with generated macro definitions (templates with unquote and splice, computed bodies, macros using macros) called everywhere; non-trivial: a macro was expanded",
		progCfg{w: with(noExits, weights{"macro": 14, "quasi": 5, "setq": 4, "local-fun": 2, "lambda": 4, "stmt-expr": 5}),
			depth: 5, funs: 3, macros: 4, globals: 2, mains: 3},
		func(f map[string]int) bool { return f["macro call"] > 0 })
	regProg("C26", "places", 30000, 800000,
		"random programs assigning through setf, incf, decf to variables, list places, vector elements, hash values, dynamics; non-trivial: such an assignment was made",
		progCfg{w: with(noExits, weights{"setf": 12, "stmt-setq": 5, "aref": 4, "gethash": 4, "let": 5, "dynamic-let": 1, "set-dynamic": 3}),
			depth: 5, funs: 2, globals: 4, dyns: true, mains: 3},
		func(f map[string]int) bool {
			for k := range f {
				if strings.HasPrefix(k, "setf ") {
					return true
				}
			}
			return f["incf/decf"] > 0
		})
	regProg("C27", "iteration", 40000, 1000000,
		"random programs of nested conditionals and loops with effects in tests, steps and bodies; non-trivial: at least 2 iterations ran",
		progCfg{w: with(noExits, weights{"loop": 8, "stmt-if": 5, "if": 6, "cond": 5, "case": 5, "bool-op": 6, "not": 3, "prog1": 3, "progn": 4, "tr": 5, "mapc": 0, "null": 4}),
			depth: 5, funs: 2, globals: 2, mains: 3},
		func(f map[string]int) bool { return f["iteration"] > 1 })
	regProg("C28", "arity", 30000, 800000,
		"random programs in which calls of user functions, closures, &rest functions and mapping have too few or too many arguments; non-trivial: a call was rejected",
		progCfg{w: weights{"bad-call": 6, "with-handler": 8, "call": 5, "funcall": 4, "apply": 3, "lambda-call": 3, "throw": 0, "catch": 1, "local-fun": 4},
			depth: 5, funs: 4, globals: 1, mains: 3},
		func(f map[string]int) bool { return f["arity error"] > 0 })
}
