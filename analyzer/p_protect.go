package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Protected bindings: on every path of every builtin and exported function, a
// binding is written only where it is known to be unprotected or is new, and
// an entry of an environment is made only where the name was found unbound.

func protectRules(pr *Program, stops map[*ssa.Function]bool) *Rules {
	r := &Rules{Name: "protect", NoInts: true}
	bt := callableT(pr, "Binding")
	// setting up is what makes bindings protected; the exported functions that
	// take no part in a script may do with a table what they say
	exempt := func(x *Exec) bool {
		for _, f := range x.stack {
			switch n := x.pr.short(f.fn); n {
			case envM + "BindToProtected", envM + "SetBindingAt", envM + "DeleteBinding":
				return strings.HasPrefix(x.root, "function "+n)
			}
		}
		return false
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && stops[ci.fn] && len(x.stack) > 0 {
			return x.after(fr, ci, x.unknownCall(s, ci, "skip")), true
		}
		if ci.name == "builtin.delete" && isBindings(pr, ci.args[0]) {
			x.rep.ObI("entry-kept", ci.site)
			if exempt(x) {
				return nil, false
			}
			x.rep.ViolX(x, "entry-kept", ci.site, "a binding, protected or not, is removed from its environment")
		}
		return nil, false
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		s := c.st
		switch i := in.(type) {
		case *ssa.Store:
			a := x.val(c, i.Addr)
			if a.op != OFieldAddr {
				return
			}
			b := a.args[0]
			switch {
			case pr.isPtrTo(b.typ, bt):
				x.rep.ObI("write-unprotected", in)
				if b.op == OAlloc || exempt(x) {
					return
				}
				f := fieldName(b.typ, int(a.iaux))
				if f == "Protected" {
					if v, ok := x.val(c, i.Val).boolConst(); !ok || !v {
						x.rep.ViolX(x, "write-unprotected", in, "the protection of a binding may be taken away")
					} else {
						x.rep.ViolX(x, "write-unprotected", in, "a script can make a binding protected")
					}
					return
				}
				if x.decide(s, x.load(s, x.field(b, "Protected"))) != -1 && !foundUnprotected(x, s, b) {
					x.rep.ViolX(x, "write-unprotected", in, "the "+f+" of a binding that may be protected is overwritten")
				}
			case pr.isPtrTo(b.typ, pr.envT) && fieldName(b.typ, int(a.iaux)) == "Bindings":
				x.rep.ObI("entry-kept", in)
				if b.op != OAlloc {
					x.rep.ViolX(x, "entry-kept", in, "the table of an environment is replaced")
				}
			}
		case *ssa.MapUpdate:
			m := x.val(c, i.Map)
			if !isBindings(pr, m) || exempt(x) || strip(m).op == OAlloc {
				return
			}
			x.rep.ObI("entry-kept", in)
			k := x.val(c, i.Key)
			absent := false
			s.conds.each(func(t *Term, v bool) {
				if t.op == OLookupOk && sameVal(t.args[0], m) && sameVal(t.args[1], k) && !v {
					absent = true
				}
			})
			s.facts.each(func(t *Term, f Fact) {
				if t.op == OLookup && sameVal(t.args[0], m) && sameVal(t.args[1], k) && x.nilness(s, t) > 0 {
					absent = true
				}
			})
			if !absent {
				x.rep.ViolX(x, "entry-kept", in, "an entry of an environment is replaced without the name having been found unbound there, so a protected binding may be lost")
			}
		}
	}
	return r
}

func isBindings(pr *Program, m *Term) bool {
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && pr.isPtrTo(mt.Elem(), callableT(pr, "Binding"))
}

func touchesBindings(pr *Program) func(*ssa.Function) bool {
	bt := callableT(pr, "Binding")
	return func(f *ssa.Function) bool {
		hit := false
		eachInstr(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						return
					}
					if pr.isPtrTo(fa.X.Type(), bt) || pr.isPtrTo(fa.X.Type(), pr.envT) && fieldName(fa.X.Type(), fa.Field) == "Bindings" {
						hit = true
					}
				}
			case *ssa.MapUpdate:
				if mt, ok := i.Map.Type().Underlying().(*types.Map); ok && pr.isPtrTo(mt.Elem(), bt) {
					hit = true
				}
			case ssa.CallInstruction:
				if b, ok := i.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && len(i.Common().Args) > 0 {
					if mt, ok := i.Common().Args[0].Type().Underlying().(*types.Map); ok && pr.isPtrTo(mt.Elem(), bt) {
						hit = true
					}
				}
			}
		})
		return hit
	}
}

func init() {
	props["C05"] = &Prop{id: "C05", run: func(pr *Program, rep *Report, th bool) {
		// an exported function is analysed on its own, so a call of one need not
		// be followed; the plain table operations are followed into their callers
		stops := map[*ssa.Function]bool{}
		reach := pr.reaching(touchesBindings(pr))
		for _, r := range pr.lockRoots(reach) {
			switch pr.short(r.fn) {
			case envM + "BindToProtected", envM + "SetBindingAt", envM + "DeleteBinding":
			default:
				stops[r.fn] = r.reg == nil && !returnsContainer(r.fn)
			}
		}
		relevant := pr.reachingBut(touchesBindings(pr), stops)
		setup := pr.reaching(func(f *ssa.Function) bool { return pr.short(f) == envM+"BindToProtected" })
		var keep []Root
		for _, r := range pr.lockRoots(relevant) {
			if r.reg == nil && (r.fn.Name() == "main" || setup[r.fn] && pr.short(r.fn) != envM+"BindToProtected") {
				continue
			}
			if sig := r.fn.Signature; r.reg == nil && sig.Recv() != nil && pr.isPtrTo(sig.Recv().Type(), pr.envT) && sig.Params().Len() > 0 && pr.isPtrTo(sig.Params().At(0).Type(), pr.dataT) {
				// the name: a symbol, another value, or none
				for _, k := range []uint32{pr.kind("Symbol"), pr.kind("String"), kindNil, kindNonNil &^ pr.kind("Symbol", "String")} {
					k, r := k, r
					r.init = func(x *Exec, s *State, args []*Term) { x.setKinds(s, args[1], k) }
					r.name += fmt.Sprintf(" / %x", k)
					keep = append(keep, r)
				}
				continue
			}
			keep = append(keep, r)
		}
		if onlyRoot == "" || strings.Contains(onlyRoot, " in {") {
			d := 3
			if th {
				d = 5
			}
			var ts []troot
			for _, t := range scopeRoots(d) {
				if strings.Contains(t.name, "=!") {
					ts = append(ts, t)
				}
			}
			for _, f := range [][2]string{{"MakePrimitiveFunction", "Special=false IsRestricted=false"}, {"MakeRestrictedPrimitiveFunction", "Special=false IsRestricted=true"},
				{"MakeSpecialForm", "Special=true IsRestricted=false"}, {"MakeRestrictedSpecialForm", "Special=true IsRestricted=true"}} {
				for _, w := range []string{"Global a=x", "Global n=!x"} {
					ts = append(ts, wroot(f[0], w, "$n $1 fn", `Global.n=!<prim "n" `+f[1]+" fn>; => "))
				}
			}
			runTroots(pr, rep, "kept", ts, traceOpts{world: true, inline: envInline})
		}
		runRoots(pr, rep, keep, func() *Rules { return protectRules(pr, stops) })
	}}
}

// foundUnprotected: the binding was seen to be unprotected earlier on the path.
func foundUnprotected(x *Exec, s *State, b *Term) bool {
	a := x.field(b, "Protected")
	hit := false
	s.conds.each(func(t *Term, v bool) {
		if t.op == OLoad && t.args[0] == a && !v {
			hit = true
		}
	})
	return hit
}

// sameVal: the same value, read at possibly different times.
func sameVal(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || len(a.args) == 0 || a.op == OAlloc || a.op != OLoad && a.iaux != b.iaux {
		return false
	}
	for i := range a.args {
		if !sameVal(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}
