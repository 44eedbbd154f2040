package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The evaluator: what applying a function, primitive or macro evaluates and
// binds, and in which environment.

type troot struct {
	name    string
	fn      string
	mk      func(x *Exec, s *State) []*Term
	want    []string
	judge   func(x *Exec, s *State, rs []*Term, tr string, failed bool) string
	min     int // judged outcomes expected
	world   bool
	builtin string
}

// field gives the address of a field of an object.
func (x *Exec) field(o *Term, name string) *Term {
	_, n := structOf(o.typ)
	return x.fieldAddr(o, x.pr.fieldIdx(n, name))
}

// obj is a non-nil object of a named struct type with some fields known.
func (x *Exec) obj(s *State, n *types.Named, name string, fields map[string]*Term) *Term {
	o := x.ts.sym(x.pr.ptrTo(n), "shape", name, nil)
	x.setNil(s, o, false)
	var ks []string
	for k := range fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.heap.set(x.field(o, k), fields[k])
	}
	return o
}

func (x *Exec) shapeList(s *State, src string) *Term {
	if x.shapes == nil {
		x.shapes = map[string]*Term{}
	}
	return x.buildList(s, parseShapes(src), nil, x.shapes)
}

// shape1 builds one value: "(p . r:Symbol)".
func (x *Exec) shape1(s *State, src string) *Term {
	if x.shapes == nil {
		x.shapes = map[string]*Term{}
	}
	return x.buildShape(s, parseShapes(src)[0], x.shapes)
}

func (x *Exec) envSym(s *State, name string) *Term {
	if x.shapes == nil {
		x.shapes = map[string]*Term{}
	}
	if t := x.shapes["env "+name]; t != nil {
		return t
	}
	e := x.ts.sym(x.pr.ptrTo(x.pr.envT), "shape", name, nil)
	x.setNil(s, e, false)
	x.shapes["env "+name] = e
	return e
}

// calm says that no debugger or trace is active.
func (x *Exec) calm(s *State) {
	for _, g := range []string{"IsInteractive", "DebugSingleStep", "LispTrace", "DebugEvalInDebugRepl"} {
		if m, ok := x.pr.lisp.Members[g].(*ssa.Global); ok {
			s.heap.set(x.ts.mk(OGlobal, m.Type(), m.Name(), 0), x.ts.boolc(false))
		}
	}
	for _, g := range []string{"DebugCurrentFrame", "DebugReturnValue"} {
		if m, ok := x.pr.lisp.Members[g].(*ssa.Global); ok {
			s.heap.set(x.ts.mk(OGlobal, m.Type(), m.Name(), 0), x.ts.nilOf(ptrElem(m.Type())))
		}
	}
}

func runTroots(pr *Program, rep *Report, rule string, ts []troot, o traceOpts) {
	var roots []Root
	spec := map[string]troot{}
	seen := map[string]map[string]bool{}
	count := map[string]int{}
	for _, t := range ts {
		t := t
		fn := pr.fn(t.fn)
		var reg *Registration
		if t.builtin != "" {
			for _, r := range pr.regs {
				if r.name == t.builtin {
					reg = r
					fn = r.fn
				}
			}
		}
		if fn == nil {
			rep.Viol("anchors", t.fn, "-", "the function "+t.fn+t.builtin+" is gone", "-", "")
			continue
		}
		w := map[string]bool{}
		for i := range t.want {
			t.want[i] = normTrace(t.want[i])
			w[t.want[i]] = true
		}
		spec[t.name] = t
		seen[t.name] = map[string]bool{}
		roots = append(roots, Root{name: t.name, fn: fn, run: func(x *Exec) {
			s := x.newState()
			x.calm(s)
			args := t.mk(x, s)
			var bind []*Term
			if reg != nil {
				bind = reg.bindIn(x, s)
			}
			x.runFunction(fn, args, bind, s, nil)
		}})
	}
	o.done = func(x *Exec, s *State, in *ssa.Return, rs []*Term, tr, res string, failed bool) {
		x.rep.Ob(rule, x.root)
		t := spec[x.root]
		if o.norm != nil {
			tr = o.norm(tr)
		}
		if t.world {
			tr += x.worldDiff(s)
		}
		out := normTrace(tr + " => " + res)
		if failed {
			out = normTrace(tr + " => error")
		}
		debugf("outcome %s: %s", x.root, out)
		if os.Getenv("GDEBUG") == "2" {
			s.conds.each(func(t *Term, v bool) { debugf("cond %s %v", t, v) })
		}
		pr.mu.Lock()
		seen[x.root][out] = true
		count[x.root]++
		pr.mu.Unlock()
		if t.judge != nil {
			if why := t.judge(x, s, rs, tr, failed); why != "" {
				x.rep.ViolX(x, rule, in, why+" ["+out+"]")
			}
			return
		}
		// an evaluation that fails ends the matter
		if failed && strings.Contains(tr, " fails") && (!t.world || x.worldDiff(s) == "") {
			return
		}
		if !containsStr(t.want, out) {
			x.rep.ViolX(x, rule, in, fmt.Sprintf("a path does %q, which is none of %q", out, t.want))
		}
	}
	runRoots(pr, rep, roots, func() *Rules { return traceRules(pr, o) })
	if onlyRoot != "" {
		return
	}
	for _, t := range ts {
		if spec[t.name].name == "" {
			continue
		}
		for _, w := range t.want {
			if !seen[t.name][w] && (len(t.want) == 1 || !strings.HasSuffix(w, "=> error")) {
				rep.Viol(rule, t.name, "-", fmt.Sprintf("no path does %q (found: %q)", w, sortedKeys(seen[t.name])), t.name, "")
			}
		}
		if t.min > 0 && count[t.name] < t.min {
			rep.Viol(rule, t.name, "-", fmt.Sprintf("%d outcomes found, at least %d expected", count[t.name], t.min), t.name, "")
		}
	}
}

// ---- applying functions, macros and primitives ------------------------------

func callableT(pr *Program, name string) *types.Named {
	return pr.lisp.Type(name).Type().(*types.Named)
}

func fnRoot(method, params string, req int, varargs bool, args string, want ...string) troot {
	recv := strings.TrimSuffix(strings.TrimPrefix(strings.SplitN(method, ")", 2)[0], "(*"), ")")
	return troot{name: fmt.Sprintf("%s / params %s, args (%s)", method, params, args), fn: method, want: want, mk: func(x *Exec, s *State) []*Term {
		pr := x.pr
		x.shapes = map[string]*Term{}
		body := x.shape1(s, "(b1 b2)")
		args, ans, _ := strings.Cut(args, " | ")
		args, bodies, _ := strings.Cut(args, " / ")
		if bodies != "" {
			body = x.shape1(s, bodies)
		}
		if recv == "Macro" {
			body = x.shape1(s, "b1")
		}
		f := x.obj(s, callableT(pr, recv), "F", map[string]*Term{
			"Params": x.shape1(s, params), "RequiredArgCount": x.ts.intc(int64(req), types.Typ[types.Int]), "VarArgs": x.ts.boolc(varargs),
			"Body": body, "Env": x.envSym(s, "fenv")})
		if recv == "Function" {
			s.heap.set(x.field(f, "SlotFunction"), x.ts.intc(0, types.Typ[types.Int32]))
			pp := x.field(f, "ParentProcess")
			s.heap.set(pp, x.ts.nilOf(ptrElem(pp.typ)))
		}
		env := x.ts.sym(pr.ptrTo(pr.envT), "env", "env", nil)
		x.setNil(s, env, false)
		x.setAnswers(s, ans)
		out := []*Term{f, x.shapeList(s, args), env}
		if strings.Contains(method, "WithFrame") {
			fr := x.ts.sym(pr.ptrTo(pr.frameMapT), "shape", "frame", nil)
			x.setNil(s, fr, false)
			out = append(out, fr)
		}
		return out
	}}
}

// primRoot applies a primitive that takes any number of arguments.
func primRoot(method, args string, special bool, want ...string) troot {
	return troot{name: fmt.Sprintf("%s / special %v, args (%s)", method, special, args), fn: method, want: want, mk: func(x *Exec, s *State) []*Term {
		x.shapes = map[string]*Term{}
		f := x.obj(s, x.pr.primT, "P", map[string]*Term{"Special": x.ts.boolc(special), "IsRestricted": x.ts.boolc(false)})
		env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
		x.setNil(s, env, false)
		return []*Term{f, x.shapeList(s, args), env}
	}}
}

// evalRoot evaluates or applies values of given shapes.
func evalRoot(fn, args string, want ...string) troot {
	return troot{name: fn + " / " + args, fn: fn, want: want, mk: func(x *Exec, s *State) []*Term {
		x.shapes = map[string]*Term{}
		var out []*Term
		for _, sh := range parseShapes(args) {
			out = append(out, x.buildShape(s, sh, x.shapes))
		}
		env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
		x.setNil(s, env, false)
		return append(out, env)
	}}
}

// primBody traces the call of a primitive's implementation.
func primBody(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn != nil || ci.fnTerm == nil || len(ci.args) != 2 || !x.isData(ci.args[0].typ) {
		return nil, false
	}
	nm := "body " + x.nm(s, ci.fnTerm) + x.nm(s, ci.args[0])
	bad := s.fork()
	s.trace("%s", nm)
	bad.trace("%s fails", nm)
	e := x.ts.sym(errorType, "err", ci.name, ci.site)
	x.setNil(bad, e, false)
	t := x.ts.sym(x.dataPtr(), "tr", "["+nm+"]", ci.site)
	return []Outcome{{st: s, rets: []*Term{t, x.ts.nilOf(errorType)}}, {st: bad, rets: []*Term{x.ts.nilOf(x.dataPtr()), e}}}, true
}

// genApply: functions and macros of up to n parameters, with and without a
// rest parameter, called with up to three arguments too many.
func genApply(lo, n int) (out []troot) {
	add := func(t troot) {
		if strings.Contains(t.fn, "Overidding") {
			for i := range t.want {
				t.want[i] = strings.ReplaceAll(t.want[i], "new(fenv)", "new(env)")
			}
		}
		out = append(out, t)
	}
	for _, m := range []struct{ name, kind string }{{"(*Function).Apply", "eval"}, {"(*Function).ApplyWithoutEval", ""}, {"(*Function).ApplyWithFrame", "eval"}, {"(*Function).ApplyWithoutEvalWithFrame", ""}, {"(*Function).ApplyOveriddingEnvironment", "eval"},
		{"(*Macro).Apply", "macro"}, {"(*Macro).ApplyWithoutEval", "macro"}, {"(*Macro).Expand", "expand"}} {
		for k := lo; k <= n; k++ {
			for _, rest := range []bool{false, true} {
				ps := each(seq("p", k), "@:Symbol ")
				par := "(" + ps + ")"
				if rest && k > 0 {
					par = "(" + ps + " . r:Symbol)"
				} else if rest {
					par = "r:Symbol"
				}
				for c := max(0, k-8); c <= k+3; c++ {
					for _, empty := range []int{0, 1, c} {
						if empty > c || empty == 1 && c == 1 {
							continue
						}
						tr, as, ans := "", []string{}, ""
						var more []string
						for i := 1; i <= c; i++ {
							a := fmt.Sprintf("x%d", i)
							v := a
							switch {
							case m.kind == "eval":
								v = "[" + a + "]"
								tr += "eval " + a + "; "
								if i == empty {
									ans = " | " + v + "=()"
									v = "()"
								}
							case i == empty:
								a, v = "()", "()"
							}
							as = append(as, a)
							if i <= k {
								tr += fmt.Sprintf("bind p%d=%s in new(fenv); ", i, v)
							} else {
								more = append(more, v)
							}
						}
						if rest {
							tr += "bind r=" + lst(more) + " in new(fenv); "
						}
						bodies := []int{0, 1, 2, 3}
						if k == 9 || k == 0 && c == 0 {
							bodies = append(bodies, 12)
						}
						for _, b := range bodies {
							bs := seq("b", b)
							body := " / " + lst(bs)
							end := each(bs, "eval @ in new(fenv); ")
							if b > 0 {
								end += "=> [" + bs[b-1] + "]"
							} else {
								end += "=> ()"
							}
							switch m.kind {
							case "macro", "expand":
								if b > 0 {
									continue
								}
								body, end = "", "eval b1 in new(fenv); eval [b1]; => [[b1]]"
								if m.kind == "expand" {
									end = "eval b1 in new(fenv); => [b1]"
								}
							default:
								if b != 2 && b != 12 && c > k {
									continue
								}
							}
							w := tr + end
							if c < k || !rest && c > k {
								w = "=> error"
							}
							add(fnRoot(m.name, par, k, rest, strings.Join(as, " ")+body+ans, w))
						}
					}
				}
			}
		}
	}
	return
}

func evalRoots() (out []troot) {
	body := " eval b1 in new(fenv); eval b2 in new(fenv); => [b2]"
	add := func(t troot) {
		if strings.Contains(t.fn, "Overidding") {
			for i := range t.want {
				t.want[i] = strings.ReplaceAll(t.want[i], "new(fenv)", "new(env)")
			}
		}
		out = append(out, t)
	}
	for _, m := range []struct {
		name string
		ev   bool
	}{{"(*Function).Apply", true}, {"(*Function).ApplyWithoutEval", false}, {"(*Function).ApplyWithFrame", true}, {"(*Function).ApplyWithoutEvalWithFrame", false}, {"(*Function).ApplyOveriddingEnvironment", true}} {
		v := func(n string) string {
			if m.ev {
				return "[" + n + "]"
			}
			return n
		}
		e := func(n string) string {
			if m.ev {
				return "eval " + n + "; "
			}
			return ""
		}
		add(fnRoot(m.name, "()", 0, false, "", body))
		add(fnRoot(m.name, "(p:Symbol q:Symbol)", 2, false, "x y",
			e("x")+"bind p="+v("x")+" in new(fenv); "+e("y")+"bind q="+v("y")+" in new(fenv);"+body))
		add(fnRoot(m.name, "(p:Symbol q:Symbol)", 2, false, "x", "=> error"))
		add(fnRoot(m.name, "(p:Symbol q:Symbol)", 2, false, "x y z", "=> error"))
		add(fnRoot(m.name, "()", 0, false, "x", "=> error"))
		add(fnRoot(m.name, "(p:Symbol . r:Symbol)", 1, true, "x y z",
			e("x")+"bind p="+v("x")+" in new(fenv); "+e("y")+e("z")+"bind r=("+v("y")+" "+v("z")+") in new(fenv);"+body))
		add(fnRoot(m.name, "(p:Symbol . r:Symbol)", 1, true, "x", e("x")+"bind p="+v("x")+" in new(fenv); bind r=() in new(fenv);"+body))
		add(fnRoot(m.name, "(p:Symbol . r:Symbol)", 1, true, "", "=> error"))
		add(fnRoot(m.name, "r:Symbol", 0, true, "x y", e("x")+e("y")+"bind r=("+v("x")+" "+v("y")+") in new(fenv);"+body))
		add(fnRoot(m.name, "r:Symbol", 0, true, "", "bind r=() in new(fenv);"+body))
	}
	for _, m := range []string{"(*Macro).Apply", "(*Macro).ApplyWithoutEval", "(*Macro).Expand"} {
		end := " eval b1 in new(fenv); eval [b1]; => [[b1]]"
		if m == "(*Macro).Expand" {
			end = " eval b1 in new(fenv); => [b1]"
		}
		add(fnRoot(m, "()", 0, false, "", end))
		add(fnRoot(m, "(p:Symbol q:Symbol)", 2, false, "x y", "bind p=x in new(fenv); bind q=y in new(fenv);"+end))
		add(fnRoot(m, "(p:Symbol q:Symbol)", 2, false, "x", "=> error"))
		add(fnRoot(m, "(p:Symbol q:Symbol)", 2, false, "x y z", "=> error"))
		add(fnRoot(m, "(p:Symbol . r:Symbol)", 1, true, "x y z", "bind p=x in new(fenv); bind r=(y z) in new(fenv);"+end))
		add(fnRoot(m, "(p:Symbol . r:Symbol)", 1, true, "x", "bind p=x in new(fenv); bind r=() in new(fenv);"+end))
		add(fnRoot(m, "r:Symbol", 0, true, "x y", "bind r=(x y) in new(fenv);"+end))
	}
	for _, m := range []string{"(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval"} {
		ev, v := "eval x; eval y; ", "([x] [y])"
		if m == "(*PrimitiveFunction).ApplyWithoutEval" {
			ev, v = "", "(x y)"
		}
		add(primRoot(m, "x y", false, ev+"body P.Body"+v+"; => [body P.Body"+v+"]", "=> error"))
		add(primRoot(m, "x y", true, "body P.Body(x y); => [body P.Body(x y)]", "=> error"))
		add(primRoot(m, "", false, "body P.Body(); => [body P.Body()]", "=> error"))
		add(primRoot(m, "", true, "body P.Body(); => [body P.Body()]", "=> error"))
	}
	for _, k := range []string{"Integer", "Float", "String", "Boolean", "Function", "Macro", "Primitive", "BoxedObject", "Frame", "Environment", "Port"} {
		add(evalRoot("Eval", "x:"+k, "=> x"))
	}
	for _, e := range [][3]string{{"(f:Function x y)", "f", "x,y"}, {"(f:String x)", "f", "x"}, {"('f x)", "'f", "x"}, {"((g a) x)", "(g a)", "x"},
		{"('<-c x)", "'channel-read", "'c,x"}, {"('c<- x)", "'channel-write", "'c,x"}, {"('a: o x)", "'get-slot", "o,'a:,x"}, {"('a:! o x)", "'set-slot!", "o,'a:,x"},
		{"('a:? o)", "'has-slot?", "o,'a:"}, {"('a:> o x)", "'send", "o,'a:,x"}, {"('a:^ x)", "'send-super", "'a:,x"}} {
		add(evalRoot("Eval", e[0], "feval "+e[1]+"; => error", "feval "+e[1]+"; apply ["+e[1]+"]("+e[2]+"); => ["+e[1]+"]("+e[2]+")"))
	}
	add(evalRoot("Eval", "()", "=> ()"))
	add(evalRoot("Eval", "'foo", "=> val('foo)"))
	add(evalRoot("Eval", "'foo:", "=> 'foo:"))
	for _, f := range []string{"Apply", "ApplyWithoutEval"} {
		verb := map[string]string{"Apply": "apply", "ApplyWithoutEval": "call"}[f]
		for _, k := range []string{"Integer", "String", "Symbol", "ConsCell", "Frame"} {
			add(evalRoot(f, "f:"+k+" (x y)", "=> error"))
		}
		for _, k := range []string{"Macro", "Primitive"} {
			add(evalRoot(f, "f:"+k+" (x y)", verb+" f(x,y); => f(x,y)"))
		}
		add(evalRoot(f, "f:Function (x y)", verb+" f(x,y); => f(x,y)", verb+" f(x,y) self env.Frame; => f(x,y)"))
	}
	return
}

func setOf(a ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range a {
		m[n] = true
	}
	return m
}

// norm12 leaves out the implicit bindings of a call, which are not arguments.
func norm12(tr string) string {
	var out []string
	for _, e := range strings.Split(tr, ";") {
		if strings.Contains(e, "bind 'self=") || strings.Contains(e, "bind 'parentProcess=") {
			continue
		}
		out = append(out, strings.ReplaceAll(strings.ReplaceAll(e, "new(fenv,nil)", "new(fenv)"), "new(fenv,frame)", "new(fenv)"))
	}
	return strings.Join(out, ";")
}

func init() {
	props["C12"] = &Prop{id: "C12", run: func(pr *Program, rep *Report, th bool) {
		if onlyRoot == "" {
			evaluatesOnce(pr, rep)
			formsRegistered(pr, rep)
		}
		body := func(name string) bool { return strings.HasPrefix(name, "[b") }
		any := func(name string) bool { return true }
		groups := []struct {
			prefix []string
			inline map[string]bool
			mayNil func(string) bool
			fork   func(*Exec, *State, *Term, bool)
		}{
			{[]string{"(*Function)", "(*Macro)"}, setOf("(*Function).Apply", "(*Function).ApplyWithoutEval", "(*Function).ApplyWithFrame", "(*Function).ApplyWithoutEvalWithFrame", "(*Function).ApplyOveriddingEnvironment", "(*Macro).Apply", "(*Macro).ApplyWithoutEval", "(*Macro).Expand"), body, forkEach},
			{[]string{"(*PrimitiveFunction)"}, setOf("(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval"), nil, nil},
			{[]string{"Eval /"}, setOf("Eval", "evalHelper"), any, forkEach},
			{[]string{"Apply /", "ApplyWithoutEval /"}, setOf("Apply", "ApplyWithoutEval"), any, forkEach},
		}
		for _, g := range groups {
			var ts []troot
			n := 3
			if th {
				n = 5
			}
			for _, t := range append(evalRoots(), append(genApply(0, n), genApply(9, 9)...)...) {
				for _, p := range g.prefix {
					if strings.HasPrefix(t.name, p) {
						ts = append(ts, t)
					}
				}
			}
			runTroots(pr, rep, "apply", ts, traceOpts{nonNil: true, mayNil: g.mayNil, fork: g.fork, recEval: true, call: primBody, norm: norm12, inline: g.inline})
		}
	}}
}

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }
