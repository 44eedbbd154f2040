package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Library functions of constants, with results or effects beyond one value.

// sliceOf makes a slice with known elements.
func (x *Exec) sliceOf(s *State, typ types.Type, vals []*Term, site ssa.Instruction) *Term {
	it := types.Typ[types.Int]
	t := x.ts.alloc(typ, site)
	s.esc.set(t, false)
	l, n := x.ts.mk(OLen, it, "", 0, t), x.ts.intc(int64(len(vals)), it)
	x.assumeLe(s, l, n, 0)
	x.assumeLe(s, n, l, 0)
	x.setNil(s, t, false)
	pt := x.pr.ptrTo(elemOf(typ))
	for i, v := range vals {
		s.heap.set(x.indexAddr(s, pt, t, x.ts.intc(int64(i), it)), v)
	}
	return t
}

// constOf: a term known to be a constant string or integer.
func (x *Exec) constOf(s *State, t *Term) (string, int64, int) {
	for t.op == OIface || t.op == OConv && !isSliceLike(t.typ) {
		t = t.args[0]
	}
	if v, ok := t.strConst(); ok {
		return v, 0, 1
	}
	if isString(t.typ) {
		if f := x.fact(s, t); f.cst != nil {
			if v, ok := f.cst.strConst(); ok {
				return v, 0, 1
			}
		}
	}
	if isInt(t.typ) {
		if n, ok := x.constInt(s, t); ok {
			return "", n, 2
		}
	}
	return "", 0, 0
}

// foldEffects: library functions of constants that give slices, several results
// or write through pointers.
func (x *Exec) foldEffects(s *State, ci *CallInfo) ([]Outcome, bool) {
	it, st := types.Typ[types.Int], types.Typ[types.String]
	str := func(k int) (string, bool) {
		if k >= len(ci.args) {
			return "", false
		}
		v, _, how := x.constOf(s, ci.args[k])
		return v, how == 1
	}
	num := func(k int) (int64, bool) {
		if k >= len(ci.args) {
			return 0, false
		}
		_, n, how := x.constOf(s, ci.args[k])
		return n, how == 2
	}
	sc := func(v string) *Term { return x.ts.constv(constStr(v), st) }
	strs := func(l []string) []Outcome {
		var vs []*Term
		for _, v := range l {
			vs = append(vs, sc(v))
		}
		return one(s, x.sliceOf(s, x.resultsOf(ci).At(0).Type(), vs, ci.site))
	}
	failure := func() *Term {
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(s, e, false)
		return e
	}
	if ci.name == "(*strings.Replacer).Replace" {
		if r := strip(ci.args[0]); r.op == OCall && strings.HasSuffix(r.aux, "NewReplacer") {
			var ps []string
			for _, e := range r.args {
				v, ok := inner(e).strConst()
				if !ok {
					return nil, false
				}
				ps = append(ps, v)
			}
			if v, ok := str(1); ok && len(ps)%2 == 0 {
				return one(s, sc(strings.NewReplacer(ps...).Replace(v))), true
			}
		}
	}
	a, ok := str(0)
	if !ok {
		if ci.name == "unicode.IsSpace" {
			if n, ok := num(0); ok && n >= 0 {
				return one(s, x.ts.boolc(unicode.IsSpace(rune(n)))), true
			}
		}
		if ci.name == "unicode.IsDigit" {
			if n, ok := num(0); ok && n < 128 {
				return one(s, x.ts.boolc(n >= '0' && n <= '9')), true
			}
		}
		return nil, false
	}
	b, ok2 := str(1)
	n1, okn := num(1)
	n2, okn2 := num(2)
	switch ci.name {
	case "strings.Split":
		if ok2 {
			return strs(strings.Split(a, b)), true
		}
	case "strings.SplitN":
		if ok2 && okn2 {
			return strs(strings.SplitN(a, b, int(n2))), true
		}
	case "strings.Replace", "strings.ReplaceAll":
		if from, ok := str(1); ok {
			if to, ok := str(2); ok {
				n, ok := int64(-1), true
				if ci.name == "strings.Replace" {
					n, ok = num(3)
				}
				if ok {
					return one(s, sc(strings.Replace(a, from, to, int(n)))), true
				}
			}
		}
	case "strings.Fields":
		return strs(strings.Fields(a)), true
	case "strings.Index":
		if ok2 {
			return one(s, x.ts.intc(int64(strings.Index(a, b)), it)), true
		}
	case "strings.IndexByte":
		if okn {
			return one(s, x.ts.intc(int64(strings.IndexByte(a, byte(n1))), it)), true
		}
	case "strings.IndexRune":
		if okn {
			return one(s, x.ts.intc(int64(strings.IndexRune(a, rune(n1))), it)), true
		}
	case "strings.LastIndex":
		if ok2 {
			return one(s, x.ts.intc(int64(strings.LastIndex(a, b)), it)), true
		}
	case "strings.Count":
		if ok2 {
			return one(s, x.ts.intc(int64(strings.Count(a, b)), it)), true
		}
	case "strings.Cut":
		if ok2 {
			p, q, f := strings.Cut(a, b)
			return one(s, sc(p), sc(q), x.ts.boolc(f)), true
		}
	case "strings.CutPrefix", "strings.CutSuffix":
		if ok2 {
			p, f := strings.CutPrefix(a, b)
			if ci.name == "strings.CutSuffix" {
				p, f = strings.CutSuffix(a, b)
			}
			return one(s, sc(p), x.ts.boolc(f)), true
		}
	case "strconv.Atoi":
		n, err := strconv.Atoi(a)
		if err != nil {
			return one(s, x.ts.intc(int64(n), it), failure()), true
		}
		return one(s, x.ts.intc(int64(n), it), x.ts.nilOf(errorType)), true
	case "strconv.ParseInt":
		if okn && okn2 {
			n, err := strconv.ParseInt(a, int(n1), int(n2))
			e := x.ts.nilOf(errorType)
			if err != nil {
				e = failure()
			}
			return one(s, x.ts.intc(n, types.Typ[types.Int64]), e), true
		}
	case "fmt.Sscanf":
		if !ok2 || strings.Contains(strings.ReplaceAll(b, "%d", ""), "%") {
			return nil, false
		}
		els, ok := x.sliceElems(s, ci.args[len(ci.args)-1])
		if !ok {
			return nil, false
		}
		var dst []interface{}
		var ptrs []*Term
		for _, e := range els {
			for e.op == OIface || e.op == OConv {
				e = e.args[0]
			}
			p, ok := e.typ.Underlying().(*types.Pointer)
			if !ok || !isInt(p.Elem()) {
				return nil, false
			}
			dst, ptrs = append(dst, new(int)), append(ptrs, e)
		}
		n, err := fmt.Sscanf(a, b, dst...)
		for i := 0; i < n; i++ {
			x.store(s, ptrs[i], x.ts.intc(int64(*dst[i].(*int)), ptrElem(ptrs[i].typ)))
		}
		e := x.ts.nilOf(errorType)
		if err != nil {
			e = failure()
		}
		return one(s, x.ts.intc(int64(n), it), e), true
	}
	return nil, false
}

// constRunes: the runes of a constant string converted to a slice.
func (x *Exec) constRunes(s *State, typ types.Type, a *Term, site ssa.Instruction) *Term {
	v, ok := a.strConst()
	sl, isSl := typ.Underlying().(*types.Slice)
	if !ok || !isSl || len(v) > 64 {
		return nil
	}
	b, isB := sl.Elem().Underlying().(*types.Basic)
	if !isB || b.Kind() != types.Int32 {
		return nil
	}
	var vs []*Term
	for _, r := range v {
		vs = append(vs, x.ts.intc(int64(r), sl.Elem()))
	}
	return x.sliceOf(s, typ, vs, site)
}

func rangeTag(v ssa.Value) string { return "range" + v.Parent().String() + v.Name() }

// nextRune steps through a constant string.
func (x *Exec) nextRune(s *State, i *ssa.Next, r *Term, str string) *Term {
	tag := rangeTag(i.Iter)
	at, _ := strconv.Atoi(s.tag(tag))
	tt := i.Type().(*types.Tuple)
	pick := func(k int, n int64) *Term {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return x.zero
		}
		return x.ts.intc(n, tt.At(k).Type())
	}
	for p, c := range str {
		if p < at {
			continue
		}
		s.setTag(tag, fmt.Sprint(p+len(string(c))))
		return x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(true), pick(1, int64(p)), pick(2, int64(c)))
	}
	s.setTag(tag, "")
	return x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(false), pick(1, 0), pick(2, 0))
}
