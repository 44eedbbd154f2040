package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Errors: once a step has failed, nothing more is evaluated and the failure
// comes out as the error of the builtin.

var ignoredExt = map[string]bool{}

func errorRules(pr *Program, relevant map[*ssa.Function]bool) *Rules {
	r := &Rules{Name: "errors", NoInts: true, PanicMode: false}
	setErr := func(s *State, where string) {
		if s.mon.err == where {
			return
		}
		m := s.mon.clone()
		m.err = where
		s.mon = m
	}
	isPrint := func(n string) bool {
		return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "(*log.Logger).Print") || strings.HasPrefix(n, "log.Print")
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if s.mon.err != "" {
			if isPrint(ci.name) || ci.fn != nil && strings.HasPrefix(x.pr.short(ci.fn), "LogPrint") {
				s.setTag("printed", "1")
			}
			if ci.fn != nil && x.pr.inRepo(ci.fn) && evalLike[x.pr.short(ci.fn)] {
				if x.builtinName() == "on-error" && s.tag("handled") == "" {
					s.setTag("handled", "1")
					setErr(s, "")
					return nil, false
				}
				x.rep.ObI("stops", ci.site)
				x.rep.ViolX(x, "stops", ci.site, "evaluation goes on although the step at "+s.mon.err+" failed")
			}
		} else if ci.fn != nil && x.pr.inRepo(ci.fn) && evalLike[x.pr.short(ci.fn)] {
			x.rep.ObI("stops", ci.site)
		}
		if ci.fn != nil && x.pr.inRepo(ci.fn) && !relevant[ci.fn] && !small(ci.fn) && !evalLike[x.pr.short(ci.fn)] && !readLike[x.pr.short(ci.fn)] && !pureFns[x.pr.short(ci.fn)] {
			return x.after(fr, ci, x.unknownCall(s, ci, "skip")), true
		}
		return nil, false
	}
	r.After = func(x *Exec, fr *Frame, s *State, ci *CallInfo, rets []*Term) {
		if ci.name == "go:end" {
			x.rep.ObI("process-error", ci.site)
			if s.mon.err != "" && s.tag("printed") == "" {
				x.rep.ViolX(x, "process-error", ci.site, "a process ends without a trace of the failure at "+s.mon.err)
			}
			return
		}
		if len(rets) == 0 {
			return
		}
		e := rets[len(rets)-1]
		if e == nil || !isError(e.typ) || x.nilness(s, e) <= 0 {
			return
		}
		if ci.fn == nil || !x.pr.inRepo(ci.fn) {
			n := ci.name
			switch n {
			case "(*os.File).Stat":
				return // asked only to see whether there is a terminal
			case "(*os.File).Close":
				if rs := ci.site.Parent().Signature.Results(); rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
					return // closing the profiler's own output
				}
			}
			if isPrint(n) || strings.HasPrefix(n, "fmt.") && n != "fmt.Errorf" || ignoredExt[n] {
				return
			}
			if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write") {
				return // writing to memory does not fail
			}
			if n == "dynamic" {
			} else if strings.HasPrefix(n, "invoke.") {
				return
			}
		}
		for _, f := range x.stack {
			if x.pr.short(f.fn) == "Acons" {
				return // it only looks for an entry to replace; a malformed one is passed over
			}
		}
		setErr(s, x.pr.instrPos(ci.site))
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) != 1 {
			return
		}
		x.rep.ObI("reported", in)
		if s.mon.err == "" {
			return
		}
		if len(rs) == 0 || !isError(rs[len(rs)-1].typ) {
			if s.tag("printed") == "" {
				x.rep.ViolX(x, "reported", in, "the failure at "+s.mon.err+" is neither returned nor printed")
			}
			return
		}
		if x.nilness(s, rs[len(rs)-1]) <= 0 {
			x.rep.ViolX(x, "reported", in, "the failure at "+s.mon.err+" is lost: the caller is told all went well")
		}
	}
	return r
}

func init() {
	props["C03"] = &Prop{id: "C03", run: func(pr *Program, rep *Report, th bool) {
		relevant := pr.reaching(func(f *ssa.Function) bool {
			hit := false
			eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					rs := c.Common().Signature().Results()
					if rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type()) {
						g := c.Common().StaticCallee()
						if _, reg := c.Common().Value.(*ssa.Builtin); !reg && (g == nil && !c.Common().IsInvoke() || g != nil && pr.inRepo(g)) {
							hit = true
						}
						fr := f.Signature.Results()
						if fr.Len() > 0 && isError(fr.At(fr.Len()-1).Type()) {
							hit = true
						}
					}
				}
			})
			return hit
		})
		roots := pr.primRoots(nil)
		isReg := map[*ssa.Function]bool{}
		for _, r := range roots {
			isReg[r.fn] = true
		}
		for _, f := range pr.all {
			if f.Parent() != nil || isReg[f] || len(f.Blocks) == 0 || f.Object() == nil {
				continue
			}
			rs := f.Signature.Results()
			n := pr.short(f)
			if rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) || n == "ProcessError" {
				continue
			}
			if f.Object().Exported() || evalLike[n] || readLike[n] {
				roots = append(roots, Root{name: "function " + n, fn: f})
			}
		}
		runRoots(pr, rep, roots, func() *Rules { return errorRules(pr, relevant) })
	}}
}
