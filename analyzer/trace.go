package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Traces: what a builtin evaluates, applies, tests and binds, in order, along
// every path, for arguments of a given shape; compared with what it should do.

// shape is the abstract shape of an argument: an unknown value with a name, a
// list of shapes, or a number.
type shape struct {
	name  string
	kinds string // restricts an unknown value: "Symbol", "Function|Primitive"
	list  []*shape
	tail  *shape
	isL   bool
	num   *int64
}

// parseShapes reads "f:Function (x y . z) #3".
func parseShapes(src string) []*shape {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(src))
	pos := 0
	var parse func(end string) ([]*shape, *shape)
	one := func(t string) *shape {
		if t == "#t" || t == "#f" {
			return &shape{name: t}
		}
		if strings.HasPrefix(t, "#") {
			var n int64
			fmt.Sscan(t[1:], &n)
			return &shape{num: &n, name: t}
		}
		if t[0] == '\'' || t[0] == '"' {
			return &shape{name: t}
		}
		p := strings.SplitN(t, ":", 2)
		s := &shape{name: p[0]}
		if len(p) == 2 {
			s.kinds = p[1]
		}
		return s
	}
	parse = func(end string) (out []*shape, tail *shape) {
		for pos < len(toks) {
			t := toks[pos]
			pos++
			switch t {
			case end:
				return
			case "(":
				l, tl := parse(")")
				out = append(out, &shape{isL: true, list: l, tail: tl})
			case ".":
				if toks[pos] == "(" {
					pos++
					l, tl := parse(")")
					tail = &shape{isL: true, list: l, tail: tl}
					break
				}
				tail = one(toks[pos])
				pos++
			default:
				out = append(out, one(t))
			}
		}
		return
	}
	l, _ := parse("")
	return l
}

func (x *Exec) buildShape(s *State, sh *shape, known map[string]*Term) *Term {
	if sh.num != nil {
		d := x.allocT(s, x.pr.dataT)
		v := x.ts.alloc(x.pr.ptrTo(types.Typ[types.Int64]), nil)
		s.esc.set(v, false)
		s.heap.set(v, x.ts.intc(*sh.num, types.Typ[types.Int64]))
		st := x.pr.dataT.Underlying().(*types.Struct)
		s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum["Integer"]), st.Field(x.pr.fType).Type()))
		s.heap.set(x.fieldAddr(d, x.pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, v))
		return d
	}
	if sh.isL {
		return x.buildList(s, sh.list, sh.tail, known)
	}
	if sh.name == "nil" {
		return x.ts.nilOf(x.dataPtr())
	}
	if t := known[sh.name]; t != nil {
		return t
	}
	if g := map[string]string{"#t": "LispTrue", "#f": "LispFalse"}[sh.name]; g != "" {
		m := x.pr.lisp.Members[g].(*ssa.Global)
		t := x.load(s, x.ts.mk(OGlobal, m.Type(), m.Name(), 0))
		x.setKinds(s, t, x.pr.kind("Boolean"))
		return t
	}
	if strings.HasPrefix(sh.name, "\"") { // a string value
		d := x.allocT(s, x.pr.dataT)
		v := x.ts.alloc(x.pr.ptrTo(types.Typ[types.String]), nil)
		s.esc.set(v, false)
		s.heap.set(v, x.ts.constv(constant.MakeString(sh.name[1:]), types.Typ[types.String]))
		st := x.pr.dataT.Underlying().(*types.Struct)
		s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum["String"]), st.Field(x.pr.fType).Type()))
		s.heap.set(x.fieldAddr(d, x.pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, v))
		return d
	}
	if strings.HasPrefix(sh.name, "'") {
		str := x.ts.constv(constant.MakeString(sh.name[1:]), types.Typ[types.String])
		t := x.ts.mk(OCall, x.dataPtr(), "golisp.Intern", 0, str)
		x.setKinds(s, t, x.pr.kind("Symbol"))
		v := x.ts.alloc(x.pr.ptrTo(types.Typ[types.String]), nil)
		s.heap.set(v, str)
		s.heap.set(x.fieldAddr(t, x.pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, v))
		return t
	}
	if m := byteTok.FindStringSubmatch(sh.name); m != nil && m[0] == sh.name {
		t := x.byteArray(s, m[1], int64(m[2][0]-'0'))
		known[sh.name] = t
		return t
	}
	e := x.ts.sym(x.dataPtr(), "shape", sh.name, nil)
	if sh.kinds != "" {
		x.setKinds(s, e, x.pr.kind(strings.Split(sh.kinds, "|")...))
	} else {
		x.setKinds(s, e, kindNonNil)
	}
	known[sh.name] = e
	return e
}

func (x *Exec) buildList(s *State, l []*shape, tail *shape, known map[string]*Term) *Term {
	nilD := x.ts.nilOf(x.dataPtr())
	rest := nilD
	if tail != nil {
		rest = x.buildShape(s, tail, known)
	} else if len(l) == 0 {
		return x.cons(s, nilD, nilD)
	}
	var els []*Term
	for _, e := range l {
		els = append(els, x.buildShape(s, e, known))
	}
	r := rest
	for i := len(els) - 1; i >= 0; i-- {
		r = x.cons(s, els[i], r)
	}
	return r
}

// nm gives the canonical name of a value.
// lossy: a number converted to one that may be another.
func lossy(t *Term) bool {
	from, to := t.args[0].typ, t.typ
	switch {
	case isInt(from) && isInt(to):
		return !widens(from, to)
	case isFloat(from) && isInt(to):
		return true
	}
	return false
}

func (x *Exec) nm(s *State, t *Term) string { return x.nmD(s, t, 0) }

func (x *Exec) nmD(s *State, t *Term, d int) string {
	if t == nil {
		return "?"
	}
	if d > 50 {
		return "..."
	}
	for t.op == OConv && !lossy(t) {
		t = t.args[0]
	}
	if t.op == OConv {
		return t.typ.String() + "(" + x.nmD(s, t.args[0], d+1) + ")"
	}
	if n, ok := x.names[t]; ok {
		return n
	}
	if n, ok := x.frameText(s, t, d); ok {
		return n
	}
	if t.op == OConst {
		if t.cval == nil {
			if x.isData(t.typ) {
				return "()"
			}
			return "nil"
		}
		return strings.TrimSpace(t.cval.String())
	}
	switch t.op {
	case OSym:
		if t.info != nil {
			switch t.info.kind {
			case "shape", "tr":
				return t.info.note
			case "err":
				return "err"
			case "env":
				return "env"
			case "param":
				return t.info.note
			case "merge", "phi":
				if len(t.info.src) > 0 {
					m := map[string]bool{}
					for _, a := range alts(t) {
						m[x.nmD(s, a, d+4)] = true
					}
					return strings.Join(sortedKeys(m), "|")
				}
			}
		}
	case OLoad:
		a := t.args[0]
		if a.op == OGlobal {
			switch a.aux {
			case "LispTrue":
				return "#t"
			case "LispFalse":
				return "#f"
			}
			return a.aux
		}
		if o := x.cellOwner(a); o != nil {
			return []string{"car", "cdr"}[a.iaux] + "(" + x.nmD(s, o, d+4) + ")"
		}
		if a.op == OFieldAddr {
			if int(a.iaux) == x.pr.fValue && x.isData(a.args[0].typ) {
				return x.nmD(s, a.args[0], d+4)
			}
			return x.nmD(s, a.args[0], d+4) + "." + fieldName(a.args[0].typ, int(a.iaux))
		}
		if a.op != OIndexAddr {
			return x.nmD(s, a, d+4)
		}
	case OCall:
		if t.aux == "golisp.Intern" {
			if n, ok := t.args[0].strConst(); ok {
				return "'" + n
			}
		}
		var as []string
		for _, a := range t.args {
			as = append(as, x.nmD(s, a, d+4))
		}
		n := t.aux
		if i := strings.LastIndex(n, "."); i >= 0 {
			n = n[i+1:]
		}
		return n + "(" + strings.Join(as, ",") + ")"
	case OBin:
		return "(" + x.nmD(s, t.args[0], d+4) + t.aux + x.nmD(s, t.args[1], d+4) + ")"
	case OAlloc:
		if !x.isData(t.typ) {
			if v, ok := s.heap.get(t); ok {
				return "&" + x.nmD(s, v, d+4)
			}
			break
		}
		ty, ok := x.peekHeap(s, x.fieldAddr(t, x.pr.fType)).intConst()
		if !ok {
			break
		}
		v := strip(x.peekHeap(s, x.fieldAddr(t, x.pr.fValue)))
		switch int(ty) {
		case x.pr.kindNum["ConsCell"], x.pr.kindNum["Alist"], x.pr.kindNum["AlistCell"]:
			if v == nil {
				return "?"
			}
			if v.isNilConst() {
				return "()"
			}
			if v.op != OAlloc {
				return "list(" + x.nmD(s, v, d+4) + ")"
			}
			car, cdr := x.peekHeap(s, x.fieldAddr(v, 0)), x.peekHeap(s, x.fieldAddr(v, 1))
			a, b := x.nmD(s, car, d+4), x.nmD(s, cdr, d+1)
			if a == "()" && b == "()" && car.isNilConst() {
				return "()"
			}
			if b == "()" {
				return "(" + a + ")"
			}
			if strings.HasPrefix(b, "(") && balanced(b) {
				return "(" + a + " " + b[1:]
			}
			return "(" + a + " . " + b + ")"
		case x.pr.kindNum["Boolean"]:
			if p := x.payload(s, t); p != nil {
				switch x.decide(s, p) {
				case 1:
					return "#t"
				case -1:
					return "#f"
				}
				return x.nmD(s, p, d+4)
			}
		}
		if p := x.payload(s, t); p != nil {
			if _, st := p.typ.Underlying().(*types.Struct); !st {
				if n, ok := x.names[strip(p)]; ok {
					return n
				}
				return "<" + x.nmD(s, p, d+4) + ">"
			}
		}
		if n, ok := x.names[v]; ok {
			return n
		}
		return "<" + x.nmD(s, v, d+4) + ">"
	}
	return t.String()
}

// balanced: the opening parenthesis of s is closed by its last character.
func balanced(s string) bool {
	n, text, esc := 0, false, false
	for i, c := range s {
		if text {
			text, esc = c != '"' || esc, c == '\\' && !esc
			continue
		}
		if c == '"' {
			text = true
			continue
		}
		switch c {
		case '(':
			n++
		case ')':
			n--
			if n == 0 {
				return i == len(s)-1
			}
		}
	}
	return false
}

func (s *State) trace(f string, a ...interface{}) {
	s.setTag("tr", s.tag("tr")+fmt.Sprintf(f, a...)+"; ")
}

type traceOpts struct {
	world   bool
	cut     func(x *Exec, s *State) bool // the path need not be followed further
	norm    func(string) string
	recEval bool                   // a recursive call of an interpreted evaluator is an evaluation
	endless bool                   // loops without a test at their head are followed to their end
	nonNil  bool                   // the results of evaluations are not nil pointers
	mayNil  func(name string) bool // but for these
	inline  map[string]bool        // functions interpreted although they are boundaries
	done    func(x *Exec, s *State, in *ssa.Return, rs []*Term, tr, res string, failed bool)
	call    func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool)
	ret     func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term)
	fork    func(x *Exec, s *State, cond *Term, v bool)
	branch  func(x *Exec, fr *Frame, s *State, in *ssa.If, cond *Term, d int)
	instr   func(x *Exec, fr *Frame, c *Config, in ssa.Instruction)
}

func traceRules(pr *Program, o traceOpts) *Rules {
	r := &Rules{Name: "trace", NoSkip: map[string]bool{}, MaxRec: 12}
	r.World = o.world
	for k := range o.inline {
		r.NoSkip[k] = true
	}
	r.Branch = o.branch
	r.Fork = o.fork
	r.Endless = o.endless
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			a := x.val(c, st.Addr)
			if w := x.cellOwner(a); w != nil && w.op != OAlloc {
				c.st.trace("store %s(%s)=%s", []string{"car", "cdr"}[a.iaux], x.nm(c.st, w), x.nm(c.st, x.val(c, st.Val)))
			}
		}
		if o.instr != nil {
			o.instr(x, fr, c, in)
		}
	}
	r.DataSig = func(x *Exec, s *State, t *Term) string { return x.nm(s, t) }
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if o.world {
			if outs, ok := setModel(x, fr, s, ci); ok {
				return outs, ok
			}
		}
		if o.call != nil {
			if outs, ok := o.call(x, fr, s, ci); ok {
				return outs, ok
			}
		}
		if ci.fn == nil || !pr.inRepo(ci.fn) {
			return nil, false
		}
		n := pr.short(ci.fn)
		a := ci.args
		if o.inline[n] {
			for _, f := range x.stack {
				if o.recEval && f.fn == ci.fn && len(a) >= 2 && x.isData(a[0].typ) && pr.isPtrTo(a[1].typ, pr.envT) {
					n = "feval"
				}
			}
			if n != "feval" {
				return nil, false
			}
		}
		res := func(s *State, name string) *Term {
			if t := x.answers[name]; t != nil {
				return t
			}
			t := x.ts.sym(x.dataPtr(), "tr", name, ci.site)
			x.addProv(s, t, pValue)
			if o.nonNil && !(o.mayNil != nil && o.mayNil(name)) {
				x.setKinds(s, t, kindNonNil)
			}
			return t
		}
		step := func(what, name string) []Outcome {
			ok := s.fork()
			ok.trace("%s", what)
			bad := s
			bad.trace("%s fails", what)
			e := x.ts.sym(errorType, "err", ci.name, ci.site)
			x.setNil(bad, e, false)
			if o.cut != nil && o.cut(x, ok) {
				return []Outcome{{st: bad, rets: []*Term{x.ts.nilOf(x.dataPtr()), e}}}
			}
			return []Outcome{{st: ok, rets: []*Term{res(ok, name), x.ts.nilOf(errorType)}}, {st: bad, rets: []*Term{x.ts.nilOf(x.dataPtr()), e}}}
		}
		in := func(env *Term) string {
			if e := x.nm(s, env); e != "env" {
				return " in " + e
			}
			return ""
		}
		elems := func(l *Term) string {
			n := x.nm(s, l)
			if strings.HasPrefix(n, "(") && balanced(n) && !strings.Contains(n, " . ") {
				return strings.ReplaceAll(n[1:len(n)-1], " ", ",")
			}
			return "*" + n
		}
		switch n {
		case "DebugRepl":
			return one(s), true
		case "feval":
			nm := x.nm(s, a[0])
			verb := "eval "
			if len(a) > 2 {
				if b, ok := a[2].boolConst(); ok && b {
					verb = "feval "
				}
			}
			return step(verb+nm+in(a[1]), "["+nm+"]"), true
		case "Eval", "evalHelper":
			d := strip(a[0])
			if d.isNilConst() {
				return one(s, a[0], x.ts.nilOf(errorType)), true
			}
			if q := x.quoted(s, d); q != nil {
				return one(s, q, x.ts.nilOf(errorType)), true
			}
			nm := x.nm(s, d)
			return step("eval "+nm+in(a[1]), "["+nm+"]"), true
		case "Apply":
			nm := x.nm(s, a[0])
			return step("apply "+nm+"("+elems(a[1])+")"+in(a[2]), nm+"("+elems(a[1])+")"), true
		case "ApplyWithoutEval":
			nm := x.nm(s, a[0]) + "(" + elems(a[1]) + ")"
			return step("call "+nm+in(a[2]), nm), true
		case "(*Function).Apply", "(*PrimitiveFunction).Apply", "(*Macro).Apply":
			nm := x.nm(s, a[0])
			return step("apply "+nm+"("+elems(a[1])+")"+in(a[2]), nm+"("+elems(a[1])+")"), true
		case "(*Function).ApplyWithoutEval", "(*PrimitiveFunction).ApplyWithoutEval", "(*Macro).ApplyWithoutEval":
			nm := x.nm(s, a[0]) + "(" + elems(a[1]) + ")"
			return step("call "+nm+in(a[2]), nm), true
		case "(*Macro).Expand":
			nm := "expand(" + x.nm(s, a[0]) + "," + elems(a[1]) + ")"
			return step(nm+in(a[2]), nm), true
		case "(*Function).ApplyWithFrame", "(*Function).ApplyWithoutEvalWithFrame":
			verb := "apply "
			if strings.Contains(n, "Without") {
				verb = "call "
			}
			nm := x.nm(s, a[0]) + "(" + elems(a[1]) + ")"
			return step(verb+nm+in(a[2])+" self "+x.nm(s, a[3]), nm), true
		case "(*Function).ApplyOveriddingEnvironment":
			nm := x.nm(s, a[0]) + "(" + elems(a[1]) + ")"
			return step("apply "+nm+" overriding"+in(a[2]), nm), true
		case "BooleanValue", "IsEqual":
			var lbl string
			if n == "BooleanValue" {
				d := strip(a[0])
				if k := x.kindsOf(s, d); k == kindNil {
					return one(s, x.ts.boolc(false)), true
				} else if d.op == OLoad && d.args[0].op == OGlobal && (d.args[0].aux == "LispTrue" || d.args[0].aux == "LispFalse") {
					return one(s, x.ts.boolc(d.args[0].aux == "LispTrue")), true
				} else if d.op == OAlloc || d.op == OLoad && d.args[0].op == OGlobal {
					return nil, false
				}
				lbl = x.nm(s, d)
			} else {
				if strip(a[0]) == strip(a[1]) {
					return one(s, x.ts.boolc(true)), true
				}
				ca, cb := eqClass(x, x.kindsOf(s, a[0])), eqClass(x, x.kindsOf(s, a[1]))
				if ca&cb == 0 || isIntern(strip(a[0])) && isIntern(strip(a[1])) {
					return one(s, x.ts.boolc(false)), true
				}
				na, nb := x.nm(s, a[0]), x.nm(s, a[1])
				if na > nb {
					na, nb = nb, na
					a = []*Term{a[1], a[0]}
				}
				lbl = na + "=" + nb
			}
			t := x.ts.mk(OCall, types.Typ[types.Bool], "golisp."+n, 0, a...)
			switch x.decide(s, t) {
			case 1:
				return one(s, x.ts.boolc(true)), true
			case -1:
				return one(s, x.ts.boolc(false)), true
			}
			y := s.fork()
			x.assume(y, t, true)
			y.trace("?%s", lbl)
			x.assume(s, t, false)
			s.trace("!%s", lbl)
			return []Outcome{{st: y, rets: []*Term{x.ts.boolc(true)}}, {st: s, rets: []*Term{x.ts.boolc(false)}}}, true
		case "NewSymbolTableFrameBelow", "NewSymbolTableFrameBelowWithFrame":
			nm := "new(" + x.nm(s, a[0])
			if n != "NewSymbolTableFrameBelow" {
				nm += "," + x.nm(s, a[1])
			}
			nm += ")"
			t := x.ts.sym(x.pr.ptrTo(x.pr.envT), "tr", nm, ci.site)
			x.setNil(s, t, false)
			return one(s, t), true
		case "(*SymbolTableFrame).BindLocallyTo", "(*SymbolTableFrame).BindTo", "(*SymbolTableFrame).SetTo":
			verb := map[string]string{"BindLocallyTo": "bind ", "BindTo": "bindto ", "SetTo": "set "}[n[strings.LastIndex(n, ".")+1:]]
			e := in(a[0])
			if verb == "set " && pr.fn(n) != nil && o.inline["set"] {
				return nil, false
			}
			ok := s.fork()
			ok.trace("%s%s=%s%s", verb, x.nm(s, a[1]), x.nm(s, a[2]), e)
			bad := s
			bad.trace("binding fails")
			er := x.ts.sym(errorType, "err", ci.name, ci.site)
			x.setNil(bad, er, false)
			return []Outcome{{st: ok, rets: []*Term{a[2], x.ts.nilOf(errorType)}}, {st: bad, rets: []*Term{x.ts.nilOf(x.dataPtr()), er}}}, true
		case "(*SymbolTableFrame).ValueOf":
			t := res(s, "val("+x.nm(s, a[1])+in(a[0])+")")
			return one(s, t), true
		case "(*SymbolTableFrame).ValueOfWithFunctionSlotCheck":
			nm := "val(" + x.nm(s, a[1]) + in(a[0]) + ")"
			if b, ok := a[2].boolConst(); !ok || b {
				nm = "fval(" + x.nm(s, a[1]) + in(a[0]) + ")"
			}
			return one(s, res(s, nm)), true
		case "FunctionWithNameParamsBodyAndParent", "MacroWithNameParamsBodyAndParent":
			k := "fn"
			kind := "Function"
			if n[0] == 'M' {
				k, kind = "macro", "Macro"
			}
			t := x.ts.sym(x.dataPtr(), "tr", k+"("+x.nm(s, a[1])+","+x.nm(s, a[2])+","+x.nm(s, a[3])+")", ci.site)
			x.setKinds(s, t, x.pr.kind(kind))
			return one(s, t), true
		}
		return nil, false
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if o.ret != nil {
			o.ret(x, fr, s, in, rs)
		}
		if len(x.stack) != 1 || o.done == nil {
			return
		}
		failed := false
		if n := len(rs); n > 0 && isError(rs[n-1].typ) {
			failed = x.nilness(s, rs[n-1]) > 0
			rs = rs[:n-1]
		}
		res := ""
		for i, r := range rs {
			if i > 0 {
				res += ", "
			}
			res += x.nm(s, r)
		}
		o.done(x, s, in, rs, strings.TrimSpace(s.tag("tr")), res, failed)
	}
	return r
}

func isIntern(t *Term) bool { return t.op == OCall && t.aux == "golisp.Intern" }

// eqClass folds the kinds that can be equal to each other.
func eqClass(x *Exec, k uint32) uint32 {
	for _, g := range [][]string{{"Integer", "Float"}, {"ConsCell", "Alist"}} {
		if m := x.pr.kind(g...); k&m != 0 {
			k |= m
		}
	}
	if l := x.pr.kind("ConsCell", "Alist"); k&(l|kindNil) != 0 {
		k |= l | kindNil
	}
	return k
}

// quoted: d is a list (quote x) the analysed code built; gives x.
func (x *Exec) quoted(s *State, d *Term) *Term {
	if d.op != OAlloc || !x.isMaterialised(s, d) {
		return nil
	}
	h := x.listElem(s, d, 0)
	if h == nil {
		return nil
	}
	h = strip(h)
	if h.op == OCall && h.aux == "golisp.Intern" {
		if n, ok := h.args[0].strConst(); ok && n == "quote" {
			return x.listElem(s, d, 1)
		}
	}
	return nil
}

// ---- specifications --------------------------------------------------------

type spec struct {
	name string // builtin
	args string // shape of the arguments
	want []string
}

// runSpecs compares every successful path of each builtin with its
// specification, and wants each specified outcome to be possible.
// setAnswers fixes the values of some expressions: "[x]=(p q); [y]=()".
func (x *Exec) setAnswers(s *State, src string) {
	x.answers = map[string]*Term{}
	for _, a := range strings.Split(src, ";") {
		if e, v, ok := strings.Cut(strings.TrimSpace(a), "="); ok {
			x.answers[e] = x.shape1(s, v)
		}
	}
}

// verdicts: the builtins that refuse an answer of their function that is no
// boolean.
var verdicts = setOf("filter", "remove", "find", "find-tail", "memp")

func runSpecs(pr *Program, rep *Report, rule string, specs []spec, nonNil bool) {
	byName := map[string]*Registration{}
	for _, r := range pr.regs {
		byName[r.name] = r
	}
	var roots []Root
	type key struct{ root string }
	regOf := map[string]string{}
	want := map[string]map[string]bool{}
	seen := map[string]map[string]bool{}
	for _, sp := range specs {
		reg := byName[sp.name]
		if reg == nil {
			rep.Viol("anchors", sp.name, "-", "the builtin "+sp.name+" is no longer registered", "-", "")
			continue
		}
		sp := sp
		nm := fmt.Sprintf("builtin %s / (%s %s)", sp.name, sp.name, sp.args)
		regOf[nm] = sp.name
		want[nm] = map[string]bool{}
		seen[nm] = map[string]bool{}
		for _, w := range sp.want {
			want[nm][normTrace(w)] = true
		}
		roots = append(roots, Root{name: nm, fn: reg.fn, run: func(x *Exec) {
			s := x.newState()
			known := map[string]*Term{}
			args, ans, _ := strings.Cut(sp.args, " | ")
			l := x.buildList(s, parseShapes(args), nil, known)
			x.shapes = known
			x.setAnswers(s, ans)
			env := x.ts.sym(pr.ptrTo(pr.envT), "env", "env", nil)
			x.setNil(s, env, false)
			x.runFunction(reg.fn, []*Term{l, env}, reg.bindIn(x, s), s, nil)
		}})
	}
	runRoots(pr, rep, roots, func() *Rules {
		return traceRules(pr, traceOpts{nonNil: nonNil, cut: func(x *Exec, s *State) bool {
			o := normTrace(s.tag("tr") + "...")
			if want[x.root][o] {
				pr.mu.Lock()
				seen[x.root][o] = true
				pr.mu.Unlock()
				return true
			}
			return false
		}, done: func(x *Exec, s *State, in *ssa.Return, rs []*Term, tr, res string, failed bool) {
			x.rep.Ob(rule, x.root)
			if failed {
				pr.mu.Lock()
				o := normTrace(tr + " => error")
				seen[x.root][o] = true
				pr.mu.Unlock()
				last := strings.TrimRight(tr, "; ")
				last = last[strings.LastIndex(last, ";")+1:]
				if !strings.Contains(tr, " fails") && !want[x.root][o] && !(verdicts[regOf[x.root]] && strings.HasPrefix(strings.TrimSpace(last), "call ")) {
					x.rep.ViolX(x, rule, in, fmt.Sprintf("a path does %q, which is none of %q", o, sortedKeys(want[x.root])))
				}
				return
			}
			o := normTrace(tr + " => " + res)
			if w := normTrace(tr + " => *"); want[x.root][w] {
				o = w
			}
			pr.mu.Lock()
			seen[x.root][o] = true
			pr.mu.Unlock()
			debugf("outcome %s: %s", x.root, o)
			if !want[x.root][o] {
				x.rep.ViolX(x, rule, in, fmt.Sprintf("a path does %q, which is none of %q", o, sortedKeys(want[x.root])))
			}
		}})
	})
	if onlyRoot != "" {
		return
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for w := range want[k] {
			if !seen[k][w] {
				rep.Viol(rule, k, "-", fmt.Sprintf("no path does %q (found: %q)", w, sortedKeys(seen[k])), k, "")
			}
		}
	}
}

// normTrace brings a trace into a normal form: a binding in a new environment
// and an evaluation in one that cannot see it may come in either order.
func normTrace(s string) string {
	s = strings.Join(strings.Fields(strings.ReplaceAll(s, ";", " ; ")), " ")
	es := strings.Split(s, " ; ")
	for again := true; again; {
		again = false
		for i := 0; i+1 < len(es); i++ {
			if !strings.HasPrefix(es[i], "bind ") || !strings.HasPrefix(es[i+1], "eval ") {
				continue
			}
			be, ee := envOfEntry(es[i]), envOfEntry(es[i+1])
			if strings.HasPrefix(be, "new(") && !strings.Contains(ee, be) {
				es[i], es[i+1] = es[i+1], es[i]
				again = true
			}
		}
	}
	return strings.Join(es, " ; ")
}

func envOfEntry(e string) string {
	e = strings.TrimSuffix(e, " fails")
	if i := strings.LastIndex(e, " in "); i >= 0 {
		return e[i+4:]
	}
	return ""
}
