package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Restricted environments: restricted builtins refuse to run there, the
// restriction is inherited and never lifted, and no builtin that is not
// restricted reaches what the restricted ones guard.

// restrictedNames: what a restricted environment is to be kept from.
var restrictedNames = strings.Fields(`add-debug-on-entry close-port debug debug-on-error environment-parent exec
find-top-level-environment global-eval load make-top-level-environment open-input-file open-output-file panic!
procedure-environment profile system-global-environment write-bytes`)

func restrictRules(pr *Program, stops map[*ssa.Function]bool) *Rules {
	r := &Rules{Name: "restrict", NoInts: true, MaxRec: 2}
	body := pr.fieldIdx(pr.primT, "Body")
	flag := func(x *Exec, s *State, o *Term) *Term { return x.load(s, x.field(o, "IsRestricted")) }
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && stops[ci.fn] && len(x.stack) > 0 {
			return x.after(fr, ci, x.unknownCall(s, ci, "skip")), true
		}
		if ci.fn != nil || ci.fnTerm == nil {
			return nil, false
		}
		f := strip(ci.fnTerm)
		if f.op == OLoad && f.args[0].op == OFieldAddr && pr.isPtrTo(f.args[0].args[0].typ, pr.primT) && int(f.args[0].iaux) == body {
			x.rep.ObI("body-guarded", ci.site)
			p := f.args[0].args[0]
			var env *Term
			for _, a := range ci.args {
				if pr.isPtrTo(a.typ, pr.envT) {
					env = a
				}
			}
			if env == nil {
				x.rep.ViolX(x, "body-guarded", ci.site, "a builtin's implementation is called without an environment")
			} else if !seenFalse(x, s, x.field(p, "IsRestricted")) && !seenFalse(x, s, x.field(env, "IsRestricted")) &&
				x.decide(s, flag(x, s, p)) != -1 && x.decide(s, flag(x, s, env)) != -1 {
				x.rep.ViolX(x, "body-guarded", ci.site, "a builtin's implementation is called where the builtin and the environment may both be restricted")
			}
		}
		return nil, false
	}
	r.Fork = func(x *Exec, s *State, cond *Term, v bool) {
		for cond.op == OUn && cond.aux == "!" {
			cond, v = cond.args[0], !v
		}
		if !v && cond.op == OLoad && cond.args[0].op == OFieldAddr && fieldName(cond.args[0].args[0].typ, int(cond.args[0].iaux)) == "IsRestricted" {
			s.setTag("false"+x.termID(cond.args[0]), "y")
		}
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		s := c.st
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := x.val(c, st.Addr)
		if a.op != OFieldAddr {
			return
		}
		b := a.args[0]
		f := fieldName(b.typ, int(a.iaux))
		env, prim := pr.isPtrTo(b.typ, pr.envT), pr.isPtrTo(b.typ, pr.primT)
		if !(env && (f == "IsRestricted" || f == "Parent") || prim && (f == "IsRestricted" || f == "Body")) {
			return
		}
		x.rep.ObI("restriction-kept", in)
		if strip(b).op == OAlloc {
			return
		}
		v, known := x.val(c, st.Val).boolConst()
		switch {
		case f == "IsRestricted" && known && v:
		case f == "IsRestricted":
			x.rep.ViolX(x, "restriction-kept", in, "the restriction of an environment or builtin may be lifted")
		case f == "Parent":
			x.rep.ViolX(x, "restriction-kept", in, "an environment gets another parent")
		case f == "Body":
			x.rep.ViolX(x, "restriction-kept", in, "a builtin gets another implementation")
		}
		_ = s
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) > 1 {
			return
		}
		s.heap.each(func(a, v *Term) {
			if a.op != OFieldAddr || strip(a.args[0]).op != OAlloc || !pr.isPtrTo(a.args[0].typ, pr.envT) || fieldName(a.args[0].typ, int(a.iaux)) != "Parent" {
				return
			}
			e := a.args[0]
			x.rep.ObI("inherited", in)
			p := strip(v)
			if p.isNilConst() || x.nilness(s, v) < 0 {
				return
			}
			own := flag(x, s, e)
			if x.decide(s, own) == 1 || x.decide(s, flag(x, s, p)) == -1 || seenFalse(x, s, x.field(p, "IsRestricted")) {
				return
			}
			if sameVal(own, flag(x, s, p)) {
				return
			}
			x.rep.ViolX(x, "inherited", in, "a new environment below a restricted one may be unrestricted")
		})
	}
	return r
}

// seenFalse: the boolean at the address was found false earlier on the path.
func seenFalse(x *Exec, s *State, a *Term) bool { return s.tag("false"+x.termID(a)) != "" }

// touchesRestriction: functions that run a builtin's implementation, or write
// what restriction depends on, or make an environment.
func touchesRestriction(pr *Program) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		hit := false
		eachInstr(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Alloc:
				if pr.isPtrTo(i.Type(), pr.envT) {
					hit = true
				}
			case *ssa.FieldAddr:
				n := fieldName(i.X.Type(), i.Field)
				if pr.isPtrTo(i.X.Type(), pr.primT) && n == "Body" {
					hit = true
				}
				if (pr.isPtrTo(i.X.Type(), pr.primT) || pr.isPtrTo(i.X.Type(), pr.envT)) && (n == "IsRestricted" || n == "Parent") {
					for _, u := range *i.Referrers() {
						if _, ok := u.(*ssa.Store); ok {
							hit = true
						}
					}
				}
			}
		})
		return hit
	}
}

// ---- what only restricted builtins may reach ---------------------------------

var outsideOS = setOf(strings.Fields(`Open OpenFile Create CreateTemp Remove RemoveAll Rename Mkdir MkdirAll MkdirTemp Chdir Chmod Chown
WriteFile ReadFile ReadDir Symlink Link Truncate Setenv Unsetenv Clearenv StartProcess NewFile Pipe FindProcess OpenRoot CopyFS DirFS Getenv Environ`)...)

var debuggerState = setOf("DebugSingleStep", "DebugOnError", "DebugCurrentFrame", "DebugReturnValue", "DebugOnEntry", "DebugEvalInDebugRepl", "IsInteractive", "DebugErrorEnv")

// outsideCall names what a call does to the world outside, if anything.
func outsideCall(f *ssa.Function) string {
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return ""
	}
	p, n := f.Object().Pkg().Path(), f.Name()
	recv := f.Signature.Recv() != nil
	switch {
	case p == "os" && !recv && outsideOS[n], p == "io/ioutil" && (outsideOS[n] || n == "TempFile" || n == "TempDir"):
		return "opens or changes files: " + p + "." + n
	case p == "os" && recv && (n == "Close" || n == "Truncate" || n == "Chmod" || n == "Kill" || n == "Signal"):
		return "acts on an open file or process: " + n
	case p == "os/exec", p == "syscall", p == "plugin", p == "os/signal", p == "net", strings.HasPrefix(p, "net/"):
		return "reaches the system: " + p + "." + n
	}
	return ""
}

type outerEnv struct {
	pr   *Program
	rets map[*ssa.Function]bool
}

// source says why a value is an environment other than the one the code runs in.
func (o *outerEnv) source(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.UnOp:
		switch a := i.X.(type) {
		case *ssa.Global:
			if a.Name() == "Global" && o.pr.isPtrTo(i.Type(), o.pr.envT) {
				return "the global environment"
			}
		case *ssa.FieldAddr:
			n := fieldName(a.X.Type(), a.Field)
			if !o.pr.isPtrTo(i.Type(), o.pr.envT) {
				return ""
			}
			if o.pr.isPtrTo(a.X.Type(), o.pr.envT) && n == "Parent" {
				return "an environment's parent"
			}
			if n == "Env" {
				return "the environment of a function"
			}
		case *ssa.Alloc:
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a {
					if w := o.source(st.Val, seen); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			if w := o.source(e, seen); w != "" {
				return w
			}
		}
	case *ssa.Lookup:
		if m, ok := i.X.Type().Underlying().(*types.Map); ok && o.pr.isPtrTo(m.Elem(), o.pr.envT) {
			return "an environment of the table of top-level environments"
		}
	case *ssa.Extract:
		return o.source(i.Tuple, seen)
	case *ssa.Call:
		if g := i.Common().StaticCallee(); g != nil && o.rets[g] {
			return "an environment " + g.Name() + " looked up"
		}
	case *ssa.ChangeType:
		return o.source(i.X, seen)
	}
	return ""
}

func outsideEffects(pr *Program, rep *Report) {
	o := &outerEnv{pr: pr, rets: map[*ssa.Function]bool{}}
	for ch := true; ch; {
		ch = false
		for _, f := range pr.all {
			if o.rets[f] || f.Signature.Results().Len() == 0 {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok {
					for _, v := range r.Results {
						if pr.isPtrTo(v.Type(), pr.envT) && o.source(v, map[ssa.Value]bool{}) != "" && !o.rets[f] {
							o.rets[f] = true
							ch = true
						}
					}
				}
			})
		}
	}
	// functions through which an environment comes into use: evaluation in it,
	// or a value for it
	// reporting an error may enter the debugger, if it was asked to; that takes
	// a restricted builtin
	uses := pr.reachingBut(func(f *ssa.Function) bool {
		n := pr.short(f)
		return evalLike[n] || n == "EnvironmentWithValue"
	}, map[*ssa.Function]bool{pr.fn("ProcessError"): true})
	cut := func(f *ssa.Function) bool {
		n := pr.short(f)
		return evalLike[n] || n == "DebugRepl" || n == "ProcessError"
	}
	isImpl := map[*ssa.Function]bool{}
	for _, r := range pr.regs {
		isImpl[r.fn] = true
	}
	for _, name := range restrictedNames {
		ok := false
		for _, r := range pr.regs {
			ok = ok || r.name == name && r.restricted
		}
		rep.Ob("registered-restricted", name)
		if !ok {
			rep.Viol("registered-restricted", name, "-", "the builtin "+name+" is not registered as a restricted one", "-", "")
		}
	}
	// the evaluator itself works in the environment of the call, or in a new one
	// below that of the function
	for _, set := range []map[string]bool{rawEval, valueApply} {
		for _, n := range sortedKeys(set) {
			top := pr.fn(n)
			if top == nil {
				continue
			}
			rep.Ob("own-environment", n)
			for f := range pr.reachable(top, cut) {
				if cut(f) && f != top || !pr.inRepo(f) {
					continue
				}
				eachInstr(f, func(in ssa.Instruction) {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					g := c.Common().StaticCallee()
					if g == nil || !uses[g] {
						return
					}
					for _, a := range c.Common().Args {
						if pr.isPtrTo(a.Type(), pr.envT) {
							if w := o.source(a, map[ssa.Value]bool{}); w != "" {
								rep.Viol("own-environment", pr.short(f), pr.instrPos(in), "the evaluator uses "+w+": it passes it to "+pr.short(g), n, "")
							}
						}
					}
				})
			}
		}
	}
	for _, r := range pr.regs {
		if r.restricted {
			continue
		}
		rep.Ob("no-outside-effect", r.name)
		bad := func(f *ssa.Function, in ssa.Instruction, why string) {
			rep.Viol("no-outside-effect", pr.short(f), pr.instrPos(in), fmt.Sprintf("the builtin %s, which is not restricted, %s", r.name, why), r.name, "")
		}
		for f := range pr.reachable(r.fn, cut) {
			if cut(f) && f != r.fn || !pr.inRepo(f) {
				continue
			}
			eachInstr(f, func(in ssa.Instruction) {
				switch i := in.(type) {
				case *ssa.Panic:
					if isImpl[f] && fromData(pr, i.X) {
						bad(f, in, "panics on purpose")
					}
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok && debuggerState[g.Name()] {
						bad(f, in, "sets the debugger's "+g.Name())
					}
				case ssa.CallInstruction:
					g := i.Common().StaticCallee()
					if w := outsideCall(g); w != "" {
						bad(f, in, w)
					}
					if g == nil || !pr.inRepo(g) {
						return
					}
					if pr.short(g) == "DebugRepl" {
						bad(f, in, "enters the debugger")
					}
					n := pr.short(g)
					if !uses[g] && !strings.HasPrefix(n, "NewSymbolTableFrameBelow") {
						return
					}
					for _, a := range i.Common().Args {
						if !pr.isPtrTo(a.Type(), pr.envT) {
							continue
						}
						if w := o.source(a, map[ssa.Value]bool{}); w != "" {
							bad(f, in, "uses "+w+": it passes it to "+n)
						}
					}
				}
			})
		}
	}
}

// fromData: the value is computed from a value of the script.
func fromData(pr *Program, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if pr.isPtrTo(v.Type(), pr.dataT) {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil && walk(*o) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// ---- roots ---------------------------------------------------------------------

func restrictRoots() (ts []troot) {
	for _, m := range []string{"(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval"} {
		for n := 0; n < 8; n++ {
			special, pr, er := n&1 != 0, n&2 != 0, n&4 != 0
			ev, v := "eval x; eval y; ", "([x] [y])"
			if special || strings.HasSuffix(m, "WithoutEval") {
				ev, v = "", "(x y)"
			}
			want := []string{ev + "body P.Body" + v + "; => [body P.Body" + v + "]", "=> error"}
			if pr && er {
				want = []string{"=> error"}
			}
			ts = append(ts, troot{name: fmt.Sprintf("%s / special %v, restricted %v, in a restricted environment %v", m, special, pr, er), fn: m, want: want, mk: func(x *Exec, s *State) []*Term {
				x.shapes = map[string]*Term{}
				f := x.obj(s, x.pr.primT, "P", map[string]*Term{"Special": x.ts.boolc(special), "IsRestricted": x.ts.boolc(pr)})
				env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
				x.setNil(s, env, false)
				s.heap.set(x.field(env, "IsRestricted"), x.ts.boolc(er))
				return []*Term{f, x.shapeList(s, "x y"), env}
			}})
		}
	}
	return
}

func init() {
	props["C04"] = &Prop{id: "C04", run: func(pr *Program, rep *Report, th bool) {
		if onlyRoot == "" {
			outsideEffects(pr, rep)
		}
		runTroots(pr, rep, "refused", restrictRoots(), traceOpts{nonNil: true, recEval: true, call: primBody, inline: setOf("(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval")})
		var ts []troot
		for _, w := range []string{"env<P a=x ; P b=y", "env<P! a=x ; P b=y", "env<P! a=x ; P! b=y"} {
			want := `env/IsRestricted=true; => <"OK">`
			if strings.HasPrefix(w, "env<P!") {
				want = `=> <"OK">`
			}
			ts = append(ts, wbuiltin("restrict-environment", w, "()", want))
		}
		for _, r := range []string{"", "!"} {
			rs := map[string]string{"": "", "!": "IsRestricted true "}[r]
			w := "env<P" + r + " a=x ; P b=y ; %F"
			ts = append(ts, wroot("NewSymbolTableFrameBelow", w, "env $new", "=> ["+rs+"Parent env]"))
			ts = append(ts, wroot("NewSymbolTableFrameBelowWithFrame", w, "env %F $new", "=> [Frame %F "+rs+"Parent env]"))
			ts = append(ts, wroot("NewSymbolTableFrameBelowWithFrame", w, "env nil $new", "=> ["+rs+"Parent env]"))
		}
		runTroots(pr, rep, "inherited", ts, traceOpts{nonNil: true, world: true, inline: setOf(append(sortedKeys(envInline), "NewSymbolTableFrameBelow", "NewSymbolTableFrameBelowWithFrame")...)})
		stops := map[*ssa.Function]bool{}
		reach := pr.reaching(touchesRestriction(pr))
		for _, r := range pr.lockRoots(reach) {
			stops[r.fn] = true
		}
		relevant := pr.reachingBut(touchesRestriction(pr), stops)
		runRoots(pr, rep, pr.lockRoots(relevant), func() *Rules { return restrictRules(pr, stops) })
	}}
}
