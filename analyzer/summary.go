package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary describes what calling a function can return, computed once on
// generic arguments; callers apply it instead of interpreting the body again.
type Summary struct {
	outs   []sumOut
	writes bool
}
type sumOut struct {
	rets []sumRet
}
type sumRet struct {
	kinds uint32
	nil_  int
	cst   *constRef
	lo    int64
	hi    int64
	llo   int64 // lower bound of the length
}
type constRef struct{ b bool }

type summaries struct {
	rules   *Rules
	tab     map[*ssa.Function]*Summary
	busy    map[*ssa.Function]bool
	pr      *Program
	enabled func(fn *ssa.Function) bool
}

// summarised: methods of the container types are summarised rather than
// inlined.
func (pr *Program) containerMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Parent() != nil {
		return false
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if small(fn) {
		return false
	}
	switch n.Obj().Name() {
	case "SymbolTableFrame", "FrameMap", "Tokenizer", "environmentsTable", "symbolsTable":
		return true
	}
	return false
}

func newSummaries(pr *Program, rules *Rules, enabled func(*ssa.Function) bool) *summaries {
	sm := &summaries{rules: rules, tab: map[*ssa.Function]*Summary{}, busy: map[*ssa.Function]bool{}, pr: pr, enabled: enabled}
	rules.Sums = sm
	for _, fn := range pr.all {
		if enabled(fn) {
			sm.get(fn)
		}
	}
	return sm
}

func (sm *summaries) get(fn *ssa.Function) *Summary {
	if s, ok := sm.tab[fn]; ok {
		return s
	}
	if sm.busy[fn] {
		return nil
	}
	sm.busy[fn] = true
	defer delete(sm.busy, fn)
	rep := newReport("summary", sm.pr)
	x := newExec(sm.pr, sm.rules, rep)
	x.root = "summary " + fn.Name()
	s := x.newState()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, x.paramSym(s, p))
	}
	outs := x.runFunction(fn, args, nil, s, nil)
	sum := &Summary{writes: x.writes > 0}
	if x.over {
		return nil
	}
	seen := map[string]int{}
	for _, o := range outs {
		if o.panicked {
			continue
		}
		var so sumOut
		key := ""
		for _, r := range o.rets {
			sr := sumRet{lo: -inf, hi: inf}
			switch {
			case x.isData(r.typ):
				sr.kinds = x.kindsOf(o.st, r)
			case isBool(r.typ):
				if d := x.decide(o.st, r); d != 0 {
					sr.cst = &constRef{d > 0}
					key += fmt.Sprint(d)
				}
			case isInt(r.typ):
				sr.lo, sr.hi = x.lo(o.st, r), x.hi(o.st, r)
			case isNillable(r.typ):
				sr.nil_ = x.nilness(o.st, r)
				key += fmt.Sprint(sr.nil_)
			}
			if isString(r.typ) || isSliceLike(r.typ) {
				sr.llo = x.lo(o.st, x.lenTerm(o.st, r))
			}
			key += ","
			so.rets = append(so.rets, sr)
		}
		if i, ok := seen[key]; ok {
			for k := range so.rets {
				a, b := &sum.outs[i].rets[k], so.rets[k]
				a.kinds |= b.kinds
				a.lo, a.hi, a.llo = min(a.lo, b.lo), max(a.hi, b.hi), min(a.llo, b.llo)
			}
			continue
		}
		seen[key] = len(sum.outs)
		sum.outs = append(sum.outs, so)
	}
	sm.tab[fn] = sum
	return sum
}

func (x *Exec) applySummary(s *State, ci *CallInfo) []Outcome {
	sum := x.rules.Sums.get(ci.fn)
	if sum == nil {
		return x.unknownCall(s, ci, "ext0")
	}
	if sum.writes {
		for _, a := range ci.args {
			x.escape(s, a)
		}
		x.havoc(s)
	}
	res := ci.fn.Signature.Results()
	var outs []Outcome
	for i, so := range sum.outs {
		st := s
		if i < len(sum.outs)-1 {
			st = s.fork()
		}
		var rets []*Term
		for k, sr := range so.rets {
			t := res.At(k).Type()
			if sr.cst != nil {
				rets = append(rets, x.ts.boolc(sr.cst.b))
				continue
			}
			if sr.nil_ < 0 {
				rets = append(rets, x.ts.nilOf(t))
				continue
			}
			v := x.ts.sym(t, "call", ci.name, ci.site, ci.args...)
			switch {
			case x.isData(t):
				x.setKinds(st, v, sr.kinds)
			case isInt(t):
				if sr.lo > -inf {
					x.assumeLe(st, x.zero, v, -sr.lo)
				}
				if sr.hi < inf {
					x.assumeLe(st, v, x.zero, sr.hi)
				}
			case sr.nil_ > 0:
				x.setNil(st, v, false)
			}
			if sr.llo > 0 {
				x.assumeLe(st, x.zero, x.lenTerm(st, v), -sr.llo)
			}
			rets = append(rets, v)
		}
		outs = append(outs, Outcome{st: st, rets: rets})
	}
	return outs
}

// summaryRoots: the summarised functions, analysed on their own.
func (sm *summaries) roots() []Root {
	var out []Root
	for _, fn := range sm.pr.all {
		if sm.enabled(fn) {
			out = append(out, Root{name: "function " + sm.pr.short(fn), fn: fn})
		}
	}
	return out
}

var _ = strings.HasPrefix

// small functions are always inlined.
func small(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		n += len(b.Instrs)
	}
	return n <= 14
}
