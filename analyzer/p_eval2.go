package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rawEval: functions that evaluate the expressions they are given.
var rawEval = setOf("Eval", "evalHelper", "Apply", "(*Function).Apply", "(*Function).ApplyWithFrame", "(*Function).ApplyOveriddingEnvironment", "(*PrimitiveFunction).Apply", "(*Macro).Apply")

// valueApply: functions that apply to values, or evaluate source text.
var valueApply = setOf("ApplyWithoutEval", "(*Function).ApplyWithoutEval", "(*Function).ApplyWithoutEvalWithFrame", "(*PrimitiveFunction).ApplyWithoutEval", "(*Macro).ApplyWithoutEval", "(*Macro).Expand")

// evaluators: builtins whose job is to evaluate a value or a text.
var evaluators = setOf("eval", "global-eval", "load")

// evaluatesOnce: the arguments of an ordinary builtin have been evaluated;
// neither it nor anything it calls evaluates them again.
func evaluatesOnce(pr *Program, rep *Report) {
	for _, r := range pr.regs {
		if r.special || evaluators[r.name] {
			continue
		}
		rep.Ob("evaluated-once", r.name)
		from := map[*ssa.Function]*ssa.Function{}
		var walk func(f *ssa.Function)
		path := func(f *ssa.Function) string {
			var p []string
			for g := f; g != nil; g = from[g] {
				p = append([]string{pr.short(g)}, p...)
			}
			return strings.Join(p, " > ")
		}
		walk = func(f *ssa.Function) {
			eachInstr(f, func(in ssa.Instruction) {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				g := c.Common().StaticCallee()
				if g == nil || !pr.inRepo(g) {
					return
				}
				n := pr.short(g)
				if rawEval[n] {
					rep.Viol("evaluated-once", pr.short(f), pr.instrPos(in), "the builtin "+r.name+" evaluates a value again: it calls "+n, r.name, path(f))
				}
			})
			for _, g := range pr.callees(f) {
				n := pr.short(g)
				if _, done := from[g]; done || rawEval[n] || valueApply[n] || g == r.fn || n == "DebugRepl" {
					continue
				}
				from[g] = f
				walk(g)
			}
		}
		walk(r.fn)
	}
}

// specialForms take their arguments unevaluated; every other builtin is handed
// values.  (expand, quote and the setters are among them because they evaluate
// what they need themselves.)
var specialForms = setOf("->", "=>", "and", "append!", "apply-slot", "apply-slot-super", "begin", "case", "cond", "define", "definition-of", "defmacro", "do", "expand", "if", "lambda", "let", "let*", "letrec", "named-lambda", "on-error", "or", "profile", "quasiquote", "quote", "set!", "set-car!", "set-cdr!", "set-nth!", "time", "unless", "unquote", "unquote-splicing", "when")

// formsRegistered: a builtin is registered as a special form exactly if it
// evaluates its own arguments.  An ordinary builtin never evaluates (checked
// by evaluatesOnce), so what is left is that nothing else became special.
func formsRegistered(pr *Program, rep *Report) {
	seen := map[string]bool{}
	for _, r := range pr.regs {
		rep.Ob("form", r.name)
		seen[r.name] = true
		if specialForms[r.name] && !r.special {
			rep.Viol("form", pr.short(r.fn), pr.pos(r.site), r.name+" takes its arguments unevaluated but is registered as an ordinary builtin", r.name, "")
		}
		if !specialForms[r.name] && r.special && knownOrdinary[r.name] {
			rep.Viol("form", pr.short(r.fn), pr.pos(r.site), r.name+" works on values but is registered as a special form", r.name, "")
		}
	}
	for n := range specialForms {
		if !seen[n] {
			rep.Viol("form", n, "-", "the special form "+n+" is no longer registered", n, "")
		}
	}
}
