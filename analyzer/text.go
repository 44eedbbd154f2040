package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// Text: the library functions that put strings together, take them apart and
// turn numbers into text, over unknown strings.

func (x *Exec) concat(s *State, parts []*Term) *Term {
	var r *Term
	for _, p := range parts {
		if c, ok := p.strConst(); ok && c == "" {
			continue
		}
		if r == nil {
			r = p
		} else {
			r = x.bin(s, token.ADD, stringT, r, p)
		}
	}
	if r == nil {
		return x.ts.constv(constStr(""), stringT)
	}
	return r
}

// inner: the value inside interfaces and conversions between strings or
// between integers of the full width.
func inner(t *Term) *Term {
	for t.op == OIface || t.op == OConv && isString(t.typ) && isString(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// formatted: what fmt makes of the values, when the verbs are simple.
func (x *Exec) formatted(s *State, f string, els []*Term) *Term {
	sc := func(v string) *Term { return x.ts.constv(constStr(v), stringT) }
	var parts []*Term
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if len(els) == 0 || !strings.ContainsRune("svdxobg", rune(f[i])) {
			return nil
		}
		e := inner(els[0])
		els = els[1:]
		parts = append(parts, sc(lit))
		lit = ""
		switch {
		case isString(e.typ) && (f[i] == 's' || f[i] == 'v'):
			parts = append(parts, e)
		case isFloat(e.typ) && (f[i] == 'g' || f[i] == 'v'):
			parts = append(parts, x.ts.mk(OCall, stringT, "digits%g", 0, e))
		case isInt(e.typ) && f[i] != 's' && f[i] != 'g':
			parts = append(parts, x.ts.mk(OCall, stringT, "digits%"+strings.Replace(f[i:i+1], "v", "d", 1), 0, e))
		default:
			return nil
		}
	}
	if len(els) > 0 {
		return nil
	}
	return x.concat(s, append(parts, sc(lit)))
}

func textModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	a := ci.args
	nilErr := x.ts.nilOf(errorType)
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "PrintString", "String":
			if x.pr.short(ci.fn) == "PrintString" && x.kindsOf(s, a[0]) == x.pr.kind("String") {
				return one(s, x.argPayload(s, a[0])), true
			}
			return one(s, x.ts.mk(OCall, stringT, "printed", 0, strip(a[0]))), true
		case "Parse":
			y := s.fork()
			e := x.ts.sym(errorType, "err", ci.name, ci.site)
			x.setNil(y, e, false)
			return []Outcome{{st: s, rets: []*Term{x.ts.mk(OCall, x.dataPtr(), "parsed", 0, a[0]), nilErr}}, {st: y, rets: []*Term{x.ts.nilOf(x.dataPtr()), e}}}, true
		}
		return nil, false
	}
	n := strings.NewReplacer("(*strings.Builder)", "(*bytes.Buffer)").Replace(ci.name)
	content := func() *Term {
		if len(a) == 0 {
			return nil
		}
		return x.ts.mk(OFieldAddr, x.pr.ptrTo(stringT), "", 99, strip(a[0]))
	}
	get := func() *Term {
		if v, ok := s.heap.get(content()); ok {
			return v
		}
		return x.ts.constv(constStr(""), stringT)
	}
	writes := func(t *Term) bool { // a Builder or Buffer behind an interface
		p := strip(inner(t)).typ.String()
		return p == "*strings.Builder" || p == "*bytes.Buffer"
	}
	put := func(t *Term) *Term {
		c := x.ts.mk(OFieldAddr, x.pr.ptrTo(stringT), "", 99, strip(inner(a[0])))
		v, ok := s.heap.get(c)
		if !ok {
			v = x.ts.constv(constStr(""), stringT)
		}
		s.heap.set(c, x.concat(s, []*Term{v, t}))
		return x.lenTerm(s, t)
	}
	switch n {
	case "fmt.Fprintf":
		if writes(a[0]) {
			f, ok := a[1].strConst()
			els, ok2 := x.sliceElems(s, a[2])
			if ok && ok2 {
				if t := x.formatted(s, f, els); t != nil {
					return one(s, put(t), nilErr), true
				}
			}
		}
	case "fmt.Fprint":
		if writes(a[0]) {
			if els, ok := x.sliceElems(s, a[1]); ok {
				var ps []*Term
				for _, e := range els {
					if e = inner(e); !isString(e.typ) {
						return nil, false
					}
					ps = append(ps, e)
				}
				return one(s, put(x.concat(s, ps)), nilErr), true
			}
		}
	case "io.WriteString":
		if writes(a[0]) {
			return one(s, put(a[1]), nilErr), true
		}
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		if c, ok := x.constInt(s, a[1]); ok && c >= 0 {
			t := x.ts.constv(constStr(string(rune(c))), stringT)
			if n == "(*bytes.Buffer).WriteByte" {
				t = x.ts.constv(constStr(string([]byte{byte(c)})), stringT)
				put(t)
				return one(s, nilErr), true
			}
			return one(s, put(t), nilErr), true
		}
	case "strings.Join":
		if els, ok := x.sliceElems(s, a[0]); ok {
			var ps []*Term
			for i, e := range els {
				if i > 0 {
					ps = append(ps, a[1])
				}
				ps = append(ps, inner(e))
			}
			return one(s, x.concat(s, ps)), true
		}
	case "strings.Split", "strings.SplitN":
		if n == "strings.SplitN" {
			if k, ok := a[2].intConst(); !ok || k >= 0 {
				return nil, false
			}
		}
		var outs []Outcome
		for k := 0; k <= 4; k++ {
			y := s.fork()
			y.setTag("br", y.tag("br")+fmt.Sprintf("split%d;", k))
			var vs []*Term
			for i := 0; i < k; i++ {
				vs = append(vs, x.ts.mk(OCall, stringT, fmt.Sprintf("piece%d/%d", i+1, k), 0, a[0], a[1]))
			}
			outs = append(outs, one(y, x.sliceOf(y, x.resultsOf(ci).At(0).Type(), vs, ci.site))...)
		}
		return outs, true
	case "fmt.Sprintf":
		f, ok := a[0].strConst()
		els, ok2 := x.sliceElems(s, a[len(a)-1])
		if ok && ok2 {
			if t := x.formatted(s, f, els); t != nil {
				return one(s, t), true
			}
		}
	case "fmt.Sscanf":
		f, ok := a[1].strConst()
		els, ok2 := x.sliceElems(s, a[2])
		if !ok || !ok2 || len(els) != 1 {
			return nil, false
		}
		p := strip(inner(els[0]))
		for p.op == OConv {
			p = p.args[0]
		}
		bad := s.fork()
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(bad, e, false)
		s.heap.set(p, x.ts.mk(OCall, p.typ.Underlying().(*types.Pointer).Elem(), "scan"+f, 0, a[0]))
		s.setTag("br", s.tag("br")+"scanned;")
		return []Outcome{{st: s, rets: []*Term{x.ts.intc(1, types.Typ[types.Int]), nilErr}}, {st: bad, rets: []*Term{x.ts.intc(0, types.Typ[types.Int]), e}}}, true
	case "strings.Repeat":
		c, ok := a[0].strConst()
		if k, ok2 := x.constInt(s, a[1]); ok && ok2 && k >= 0 && k < 1000 {
			return one(s, x.ts.constv(constStr(strings.Repeat(c, int(k))), stringT)), true
		}
	case "strconv.FormatFloat":
		f, ok := x.constInt(s, a[1])
		p, ok2 := x.constInt(s, a[2])
		b, ok3 := x.constInt(s, a[3])
		if v := a[0]; ok && ok2 && ok3 && f == 'g' && p == -1 {
			for v.op == OConv && isFloat(v.typ) && isFloat(v.args[0].typ) {
				v = v.args[0]
			}
			if floatBits(v.typ) == b {
				return one(s, x.ts.mk(OCall, stringT, "digits%g", 0, v)), true
			}
		}
	case "strconv.Itoa":
		return one(s, x.ts.mk(OCall, stringT, "digits%d", 0, a[0])), true
	case "strconv.FormatInt":
		if b, ok := x.constInt(s, a[1]); ok {
			if v := map[int64]string{2: "b", 8: "o", 10: "d", 16: "x"}[b]; v != "" {
				return one(s, x.ts.mk(OCall, stringT, "digits%"+v, 0, a[0])), true
			}
		}
	case "(*bytes.Buffer).WriteString":
		s.heap.set(content(), x.concat(s, []*Term{get(), a[1]}))
		return one(s, x.lenTerm(s, a[1]), nilErr), true
	case "(*bytes.Buffer).String":
		return one(s, get()), true
	case "(*bytes.Buffer).Len":
		return one(s, x.lenTerm(s, get())), true
	case "(*bytes.Buffer).Reset":
		s.heap.set(content(), x.ts.constv(constStr(""), stringT))
		return one(s), true
	case "(*bytes.Buffer).Grow":
		return one(s), true
	}
	return nil, false
}

func floatBits(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}
