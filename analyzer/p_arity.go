package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numbers of arguments: what each builtin accepts, and that any other number is
// refused before anything of the call has happened.

//go:embed arity.txt
var arityTable string

// accepts: whether an arity description covers n arguments.
func accepts(spec string, n int) bool {
	as, ok := parseArity(spec)
	if !ok {
		return false
	}
	for _, a := range as {
		if a.n == n || a.tail && n >= a.n {
			return true
		}
	}
	return false
}

func aritySet(spec string) string {
	out := ""
	for n := 0; n <= 9; n++ {
		if accepts(spec, n) {
			out += fmt.Sprint(n)
		} else {
			out += "-"
		}
	}
	return out
}

// aritiesAsDocumented compares each builtin's declared number of arguments.
func aritiesAsDocumented(pr *Program, rep *Report) {
	want := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(arityTable), "\n") {
		f := strings.Fields(l)
		want[f[0]] = f[1]
	}
	seen := map[string]bool{}
	for _, r := range pr.regs {
		seen[r.name] = true
		if _, ok := parseArity(r.args); !ok {
			rep.Viol("arity-form", r.name, pr.pos(r.site), fmt.Sprintf("the number of arguments %q of %s is not understood, so no call of it is accepted", r.args, r.name), "-", "")
			continue
		}
		w, ok := want[r.name]
		if !ok {
			continue
		}
		rep.Ob("arity", r.name)
		if aritySet(w) != aritySet(r.args) {
			rep.Viol("arity", r.name, pr.pos(r.site), fmt.Sprintf("%s is registered for %s arguments, it takes %s", r.name, r.args, w), "-", "")
		}
	}
	for n := range want {
		if !seen[n] {
			rep.Viol("anchors", n, "-", "the builtin "+n+" is no longer registered", "-", "")
		}
	}
}

// countRoots: for each way of registering a builtin and each description used,
// a call with each number of arguments.
func countRoots(pr *Program) (out []troot) {
	type key struct {
		maker *ssa.Function
		args  string
	}
	seen := map[key]bool{}
	regs := append([]*Registration(nil), pr.regs...)
	// descriptions a host may use
	for _, r := range pr.regs {
		if r.maker != nil && !r.special && !r.restricted {
			for _, d := range []string{"(1,3)", "0|>=2", "(0,1)|4", "3|1", ">=0", "(2,10)", "11", ">=10", "(0,2)|(4,5)", "*|1", "2|*", "1|2|3|4"} {
				regs = append(regs, &Registration{name: r.name, args: d, maker: r.maker})
			}
			break
		}
	}
	for _, r := range regs {
		k := key{r.maker, r.args}
		if seen[k] || r.maker == nil {
			continue
		}
		seen[k] = true
		r := r
		for _, method := range []string{"(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval"} {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 30} {
				if n > 12 && accepts(r.args, n) && n != 20 && !strings.Contains(r.args, "10") {
					continue
				}
				if n > 6 && n < 13 && !strings.Contains(r.args, "1") {
					continue
				}
				args := strings.Join(seq("x", n), " ")
				t := troot{name: fmt.Sprintf("%s of %s %q / %d arguments", method, pr.short(r.maker), r.args, n), fn: method}
				if accepts(r.args, n) {
					ev, v := "", args
					if method == "(*PrimitiveFunction).Apply" && !r.special {
						v = ""
						for _, a := range seq("x", n) {
							ev += "eval " + a + "; "
							v += "[" + a + "] "
						}
						v = strings.TrimSpace(v)
					}
					t.want = []string{ev + "body B(" + v + "); => [body B(" + v + ")]"}
				} else {
					t.want = []string{"=> error"}
				}
				t.mk = func(x *Exec, s *State) []*Term {
					x.shapes = map[string]*Term{}
					ft := r.maker.Signature.Params().At(2).Type()
					body := x.ts.sym(ft, "shape", "B", nil)
					x.setNil(s, body, false)
					p := registered(x, s, r, body)
					env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
					x.setNil(s, env, false)
					if p == nil {
						p = x.obj(s, x.pr.primT, "P", nil)
					}
					s.heap.set(x.field(env, "IsRestricted"), x.ts.boolc(false))
					s.setTag("tr", "")
					return []*Term{p, x.shapeList(s, args), env}
				}
				out = append(out, t)
			}
		}
	}
	return
}

// functionRoots: functions and macros with parameter lists of each length, with
// and without a rest parameter, called with each number of arguments.
func functionRoots(pr *Program, maxP, maxA int) (out []troot) {
	for _, m := range []struct{ maker, method string }{
		{"MakeFunction", "(*Function).Apply"}, {"MakeFunction", "(*Function).ApplyWithoutEval"}, {"MakeFunction", "(*Function).ApplyWithFrame"},
		{"MakeFunction", "(*Function).ApplyWithoutEvalWithFrame"}, {"MakeFunction", "(*Function).ApplyOveriddingEnvironment"},
		{"MakeMacro", "(*Macro).Apply"}, {"MakeMacro", "(*Macro).ApplyWithoutEval"}, {"MakeMacro", "(*Macro).Expand"},
	} {
		m := m
		for np := 0; np <= 17; np++ {
			if np > maxP && np != 9 && np != 17 {
				continue
			}
			for _, rest := range []bool{false, true} {
				var ps []string
				for _, p := range seq("p", np) {
					ps = append(ps, p+":Symbol")
				}
				params := "(" + strings.Join(ps, " ")
				switch {
				case rest && np == 0:
					params = "r:Symbol"
				case rest:
					params += " . r:Symbol)"
				default:
					params += ")"
				}
				for n := 0; n <= 20; n++ {
					n := n
					switch {
					case np > maxP && n != np-1 && n != np && n != np+1 && n != 2:
						continue
					case np <= maxP && n > maxA && n != 20:
						continue
					}
					right := n == np || rest && n > np
					args := strings.Join(seq("x", n), " ")
					out = append(out, troot{name: fmt.Sprintf("%s of %s %s / %d arguments", m.method, m.maker, params, n), fn: m.method,
						min: 1, mk: func(x *Exec, s *State) []*Term {
							x.shapes = map[string]*Term{}
							body := x.shape1(s, "(b1)")
							if m.maker == "MakeMacro" {
								body = x.shape1(s, "b1")
							}
							f := x.construct(s, m.maker, x.ts.constv(constStr("f"), types.Typ[types.String]), x.shape1(s, params), body, x.envSym(s, "fenv"))
							env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
							x.setNil(s, env, false)
							as := []*Term{f, x.shapeList(s, args), env}
							if strings.Contains(m.method, "WithFrame") {
								fr := x.ts.sym(x.pr.ptrTo(x.pr.frameMapT), "shape", "frame", nil)
								x.setNil(s, fr, false)
								as = append(as, fr)
							}
							s.setTag("tr", "")
							return as
						},
						judge: func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
							switch {
							case right && failed && !strings.Contains(tr, " fails"):
								return fmt.Sprintf("a call with %d arguments is refused, although the parameters are %s", n, params)
							case !right && !failed:
								return fmt.Sprintf("a call with %d arguments is accepted, although the parameters are %s", n, params)
							case !right && (strings.Contains(tr, "eval ") || strings.Contains(tr, "bind ")):
								return fmt.Sprintf("a call with a wrong number of arguments (%d for %s) is not refused before anything is evaluated or bound", n, params)
							}
							return ""
						}})
				}
			}
		}
	}
	return
}

// construct runs a constructor abstractly and gives what it makes.
func (x *Exec) construct(s *State, fn string, args ...*Term) *Term {
	f := x.pr.fn(fn)
	old := x.rules.Return
	x.rules.Return = nil
	defer func() { x.rules.Return = old }()
	var res *Term
	for _, o := range x.runFunction(f, args, nil, s, nil) {
		if !o.panicked && len(o.rets) == 1 {
			res = o.rets[0]
			*s = *o.st.fork()
		}
	}
	if res == nil {
		res = x.ts.sym(f.Signature.Results().At(0).Type(), "made", fn, nil)
	}
	return res
}

// registered runs a registration abstractly and gives the primitive it makes.
func registered(x *Exec, s *State, r *Registration, body *Term) *Term {
	saved := x.rules.Call
	old := x.rules.Return
	x.rules.Return = nil
	defer func() { x.rules.Call, x.rules.Return = saved, old }()
	str := types.Typ[types.String]
	x.rules.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && x.pr.inRepo(ci.fn) {
			for i := 0; i < ci.fn.Signature.Results().Len(); i++ {
				if isError(ci.fn.Signature.Results().At(i).Type()) {
					// binding the name
					for _, a := range ci.args {
						x.escape(s, a)
					}
					var rets []*Term
					for j := 0; j < ci.fn.Signature.Results().Len(); j++ {
						rets = append(rets, x.ts.zeroOf(ci.fn.Signature.Results().At(j).Type()))
					}
					return one(s, rets...), true
				}
			}
		}
		return nil, false
	}
	outs := x.runFunction(r.maker, []*Term{x.ts.constv(constStr(r.name), str), x.ts.constv(constStr(r.args), str), body}, nil, s, nil)
	var found *Term
	n := 0
	for _, o := range outs {
		if o.panicked {
			continue
		}
		n++
		o.st.heap.each(func(k, v *Term) {
			if k.op == OFieldAddr && x.pr.isPtrTo(k.args[0].typ, x.pr.primT) && int(k.iaux) == x.pr.fieldIdx(x.pr.primT, "Body") && strip(v) == body {
				found = k.args[0]
			}
		})
		*s = *o.st.fork()
	}
	debugf("registered: %d outcomes", n)
	if n != 1 || found == nil {
		return nil
	}
	return found
}

func init() {
	props["C13"] = &Prop{id: "C13", run: func(pr *Program, rep *Report, th bool) {
		if onlyRoot == "" {
			aritiesAsDocumented(pr, rep)
		}
		runTroots(pr, rep, "count", countRoots(pr), traceOpts{nonNil: true, call: primBody, inline: setOf("(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval")})
		maxP, maxA := 3, 5
		if th {
			maxP, maxA = 6, 9
		}
		runTroots(pr, rep, "parameters", functionRoots(pr, maxP, maxA), traceOpts{nonNil: true, norm: norm12,
			inline: setOf("(*Function).Apply", "(*Function).ApplyWithoutEval", "(*Function).ApplyWithFrame", "(*Function).ApplyWithoutEvalWithFrame", "(*Function).ApplyOveriddingEnvironment", "(*Macro).Apply", "(*Macro).ApplyWithoutEval", "(*Macro).Expand")})
	}}
}
