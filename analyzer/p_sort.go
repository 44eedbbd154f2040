package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// sort: whatever the comparisons answer, the result is in an order that all
// of them allow and that no other answer could contradict.

// sortModel gives sort.Slice and its like on a slice of known length the
// behaviour of an insertion sort; the function that compares is followed.
func sortModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn == nil || len(ci.args) != 2 {
		return nil, false
	}
	byIndex := false
	switch ci.fn.String() {
	case "sort.Slice", "sort.SliceStable":
		byIndex = true
	default:
		n := ci.fn.String()
		if i := strings.Index(n, "["); i >= 0 {
			n = n[:i]
		}
		if n != "slices.SortFunc" && n != "slices.SortStableFunc" {
			return nil, false
		}
	}
	sl := ci.args[0]
	for sl.op == OIface || sl.op == OConv {
		sl = sl.args[0]
	}
	cl := ci.args[1]
	if cl.fn == nil {
		return nil, false
	}
	n, ok := x.constInt(s, x.lenTerm(s, sl))
	if !ok || n > 6 {
		return nil, false
	}
	it := types.Typ[types.Int]
	addr := func(s *State, i int64) *Term {
		return x.indexAddr(s, types.NewPointer(elemOf(sl.typ)), sl, x.ts.intc(i, it))
	}
	var outs []Outcome
	var step func(s *State, i, j int64)
	step = func(s *State, i, j int64) {
		if i >= n {
			outs = append(outs, Outcome{st: s})
			return
		}
		if j == 0 {
			step(s, i+1, i+1)
			return
		}
		a, b := x.ts.intc(j, it), x.ts.intc(j-1, it)
		if !byIndex {
			a, b = x.load(s, addr(s, j)), x.load(s, addr(s, j-1))
		}
		for _, o := range x.runFunction(cl.fn, []*Term{a, b}, cl.args, s.fork(), ci.site) {
			if o.panicked {
				outs = append(outs, o)
				continue
			}
			less := o.rets[0]
			if !byIndex {
				less = x.bin(o.st, token.LSS, types.Typ[types.Bool], less, x.ts.intc(0, it))
			}
			d := x.decide(o.st, less)
			if d >= 0 {
				y := o.st
				if d == 0 {
					y = o.st.fork()
				}
				if d > 0 || x.assume(y, less, true) {
					p, q := x.load(y, addr(y, j)), x.load(y, addr(y, j-1))
					x.store(y, addr(y, j), q)
					x.store(y, addr(y, j-1), p)
					step(y, i, j-1)
				}
			}
			if d <= 0 {
				if d < 0 || x.assume(o.st, less, false) {
					step(o.st, i+1, i+1)
				}
			}
		}
	}
	step(s, 1, 1)
	return outs, true
}

var sortAnswer = regexp.MustCompile(`([?!])f\((\w+),(\w+)\)`)

// sortJudge: res lists the elements in an order every ranking that agrees with
// the answers allows.
func sortJudge(n int, tr, res string) string {
	el := seq("x", n)
	type ans struct {
		less bool
		a, b int
	}
	idx := map[string]int{}
	for i, e := range el {
		idx[e] = i
	}
	var as []ans
	for _, m := range sortAnswer.FindAllStringSubmatch(tr, -1) {
		a, ok1 := idx[m[2]]
		b, ok2 := idx[m[3]]
		if !ok1 || !ok2 {
			return "the function is called on something that is no element"
		}
		as = append(as, ans{m[1] == "?", a, b})
	}
	var order []int
	used := map[int]bool{}
	if n > 0 {
		for _, e := range strings.Fields(strings.Trim(res, "()")) {
			i, ok := idx[e]
			if !ok || used[i] {
				return "the result is not made of the elements"
			}
			used[i] = true
			order = append(order, i)
		}
	}
	if len(order) != n {
		return fmt.Sprintf("the result has %d elements, not %d", len(order), n)
	}
	// all weak orders
	rank := make([]int, n)
	bad := false
	var rec func(i int)
	rec = func(i int) {
		if bad {
			return
		}
		if i < n {
			for r := 0; r < n; r++ {
				rank[i] = r
				rec(i + 1)
			}
			return
		}
		for _, a := range as {
			if (rank[a.a] < rank[a.b]) != a.less {
				return
			}
		}
		for k := 1; k < n; k++ {
			if rank[order[k-1]] > rank[order[k]] {
				bad = true
			}
		}
	}
	rec(0)
	if bad {
		return "the result may be out of order"
	}
	return ""
}

func sortRoots(max int) (out []troot) {
	for n := 0; n <= max; n++ {
		for _, k := range []string{"Function", "Primitive"} {
			n, k := n, k
			t := troot{name: fmt.Sprintf("builtin sort / %d elements, %s", n, k), builtin: "sort", min: 1}
			t.mk = func(x *Exec, s *State) []*Term {
				env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
				x.setNil(s, env, false)
				return []*Term{x.shapeList(s, lst(seq("x", n))+" f:"+k), env}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				if strings.Contains(tr, " fails") {
					if !failed {
						return "a failed comparison is not reported"
					}
					if strings.Contains(tr[strings.Index(tr, " fails"):], "call ") {
						return "the function is called after it has failed"
					}
					return ""
				}
				if failed {
					return "sort fails without reason"
				}
				return sortJudge(n, tr, x.nm(s, rs[0]))
			}
			out = append(out, t)
		}
	}
	return
}
