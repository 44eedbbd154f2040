package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callees gives the repository functions fn can call directly: static calls,
// closures it makes (called or started anywhere), and methods reached through
// interfaces.  Calls of function values are reported by dynamicCalls.
func (pr *Program) callees(fn *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && (pr.inRepo(f) || f.Synthetic != "") {
					set[f] = true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				for _, g := range pr.all {
					if g.Signature.Recv() != nil && g.Name() == m.Name() {
						set[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range set {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// reaching gives every function from which one satisfying seed can be reached.
func (pr *Program) reaching(seed func(*ssa.Function) bool) map[*ssa.Function]bool {
	return pr.reachingBut(seed, nil)
}

// reachingBut does not look through calls of the functions in cut.
func (pr *Program) reachingBut(seed func(*ssa.Function) bool, cut map[*ssa.Function]bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	work := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range pr.callees(f) {
			if !cut[g] {
				rev[g] = append(rev[g], f)
			}
			add(g)
		}
	}
	for _, f := range pr.all {
		add(f)
	}
	res := map[*ssa.Function]bool{}
	for f := range seen {
		if seed(f) {
			res[f] = true
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range rev[f] {
			if !res[g] {
				res[g] = true
				work = append(work, g)
			}
		}
	}
	return res
}

// reachable gives every function reachable from fn, fn included; stop cuts the
// walk at a function (which is included).
func (pr *Program) reachable(fn *ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if res[f] {
			return
		}
		res[f] = true
		if stop != nil && f != fn && stop(f) {
			return
		}
		for _, g := range pr.callees(f) {
			walk(g)
		}
	}
	walk(fn)
	return res
}

func eachInstr(fn *ssa.Function, f func(in ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}
