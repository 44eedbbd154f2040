package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalLike are the evaluator's public entry points: calling one runs arbitrary
// script code, so its effects are unknown.
var evalLike = map[string]bool{
	"Eval": true, "evalHelper": true, "Apply": true, "ApplyWithoutEval": true,
	"(*Function).Apply": true, "(*Function).ApplyWithFrame": true, "(*Function).ApplyWithoutEval": true,
	"(*Function).ApplyWithoutEvalWithFrame": true, "(*Function).ApplyOveriddingEnvironment": true,
	"(*Macro).Apply": true, "(*Macro).ApplyWithoutEval": true, "(*Macro).Expand": true,
	"(*PrimitiveFunction).Apply": true, "(*PrimitiveFunction).ApplyWithoutEval": true,
	"ProcessFile": true, "ParseAndEvalAll": true, "ParseAndEval": true, "ProcessFileInEnvironment": true,
	"ParseAndEvalAllInEnvironment": true, "ParseAndEvalInEnvironment": true,
}

// readers produce program text.
var readLike = map[string]bool{
	"Parse": true, "ParseAll": true, "ParseObjectFromFileInEnv": true, "parseExpression": true, "parseConsCell": true,
	"parseBytearray": true, "parseFrame": true,
}

var pureFns = map[string]bool{
	"String": true, "PrintString": true, "TypeName": true, "IsEqual": true, "formatApply": true,
}

var effectless = map[string]bool{
	"DebugRepl": true, "Repl": true, "LogPrintf": true, "LogPrint": true, "LogPrintln": true,
	"ProfileEnter": true, "ProfileExit": true, "logEval": true, "logResult": true,
}

// errPair forks a call into its success and failure outcomes.
func (x *Exec) errPair(s *State, ci *CallInfo, sig *types.Tuple, mkOK func(s *State, i int, t types.Type) *Term, kind string) []Outcome {
	n := sig.Len()
	ok := s.fork()
	var rs []*Term
	for i := 0; i < n-1; i++ {
		rs = append(rs, mkOK(ok, i, sig.At(i).Type()))
	}
	rs = append(rs, x.ts.nilOf(sig.At(n-1).Type()))
	bad := s
	var bs []*Term
	for i := 0; i < n-1; i++ {
		t := sig.At(i).Type()
		switch {
		case x.isData(t):
			bs = append(bs, x.ts.sym(t, "onerr", ci.name, ci.site))
		case isNillable(t):
			v := x.ts.sym(t, "onerr", ci.name, ci.site)
			x.setNil(bad, v, true)
			bs = append(bs, x.ts.nilOf(t))
		default:
			bs = append(bs, x.ts.sym(t, "onerr", ci.name, ci.site))
		}
	}
	e := x.ts.sym(sig.At(n-1).Type(), "err", ci.name, ci.site)
	x.setNil(bad, e, false)
	bs = append(bs, e)
	return []Outcome{{st: ok, rets: rs}, {st: bad, rets: bs}}
}

func isErrSig(sig *types.Tuple) bool {
	return sig.Len() > 0 && isError(sig.At(sig.Len()-1).Type())
}

func (x *Exec) evalOutcomes(fr *Frame, s *State, ci *CallInfo, kind string) []Outcome {
	for _, a := range ci.args {
		x.escape(s, a)
	}
	x.havoc(s)
	var sig *types.Tuple
	if ci.common.IsInvoke() {
		sig = ci.common.Method.Type().(*types.Signature).Results()
	} else {
		sig = ci.common.Signature().Results()
	}
	var outs []Outcome
	if x.rules.PanicMode && x.catchesStack() {
		outs = append(outs, Outcome{st: s.fork(), panicked: true})
	}
	if isErrSig(sig) {
		outs = append(outs, x.errPair(s, ci, sig, func(s *State, i int, t types.Type) *Term {
			v := x.ts.sym(t, kind, ci.name, ci.site, ci.args...)
			if isBool(t) || isString(t) {
				return v
			}
			if x.isData(t) && kind == "eval" {
				x.addProv(s, v, pValue)
			}
			return v
		}, kind)...)
		return outs
	}
	var rs []*Term
	for i := 0; i < sig.Len(); i++ {
		rs = append(rs, x.ts.sym(sig.At(i).Type(), kind, ci.name, ci.site, ci.args...))
	}
	return append(outs, Outcome{st: s, rets: rs})
}

func (x *Exec) catchesStack() bool {
	for _, f := range x.stack {
		if f.fn.Recover != nil || hasDefer(f.fn) {
			return true
		}
	}
	return false
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (x *Exec) addProv(s *State, t *Term, p uint8) {
	if t.op == OConst || t.op == OAlloc {
		return
	}
	f := x.fact(s, t)
	f.prov |= p
	s.facts.set(t, f)
}

func (x *Exec) provOf(s *State, t *Term) uint8 {
	switch t.op {
	case OConst:
		return 0xff &^ pValue
	case OAlloc:
		p := uint8(pFresh)
		if x.argCells[t] {
			p |= pArgSpine
		}
		if x.isData(t.typ) && x.pr.consT != nil {
			if x.freshSpine(s, t, 0) {
				p |= pFreshSpine
			}
			if v, ok := s.heap.get(x.fieldAddr(t, x.pr.fValue)); ok && strip(v).op == OAlloc {
				p |= pFreshCell
			}
		}
		return p
	}
	if t.op == OSlice {
		return x.fact(s, t).prov | x.provOf(s, t.args[0])&pFresh
	}
	return x.fact(s, t).prov
}

// freshSpine: every cell from t along Cdr was made during this analysis.
func (x *Exec) freshSpine(s *State, t *Term, d int) bool {
	if d > 40 {
		return false
	}
	if t.isNilConst() {
		return true
	}
	if t.op != OAlloc {
		return x.fact(s, t).prov&pFreshSpine != 0
	}
	v, ok := s.heap.get(x.fieldAddr(t, x.pr.fValue))
	if !ok {
		return false
	}
	for v.op == OConv {
		v = v.args[0]
	}
	if v.op != OAlloc {
		return false
	}
	if _, n := structOf(v.typ); n != x.pr.consT {
		return true
	}
	c, ok := s.heap.get(x.fieldAddr(v, 1))
	if !ok {
		return x.private(s, v)
	}
	return x.freshSpine(s, c, d+1)
}

// contract gives the effect of calling a repository function that is analysed
// separately (or not at all) instead of inlined.
func (x *Exec) contract(fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	n := x.pr.short(ci.fn)
	if x.rules.NoSkip != nil && x.rules.NoSkip[n] {
		return nil, false
	}
	if x.rules.Sums != nil && x.rules.Sums.enabled(ci.fn) {
		return x.applySummary(s, ci), true
	}
	switch {
	case evalLike[n]:
		return x.evalOutcomes(fr, s, ci, "eval"), true
	case readLike[n]:
		return x.evalOutcomes(fr, s, ci, "read"), true
	case effectless[n]:
		return one(s), true
	case pureFns[n]:
		if n == "IsEqual" && len(ci.args) == 2 {
			if a, ok := symName(ci.args[0]); ok {
				if b, ok := symName(ci.args[1]); ok {
					return one(s, x.ts.boolc(a == b)), true
				}
			}
		}
		v, _ := s.ver.get("*")
		t := x.ts.mk(OCall, ci.fn.Signature.Results().At(0).Type(), "golisp."+n, int64(v), ci.args...)
		return one(s, t), true
	}
	switch n {
	case "Intern":
		t := x.ts.mk(OCall, ci.fn.Signature.Results().At(0).Type(), "golisp.Intern", 0, ci.args...)
		x.setKinds(s, t, x.pr.kind("Symbol"))
		return one(s, t), true
	case "StringValue":
		if d := strip(ci.args[0]); isIntern(d) {
			if _, ok := d.args[0].strConst(); ok {
				return one(s, d.args[0]), true
			}
		}
	case "Copy":
		if x.rules.MaxRec > 0 {
			if k := x.kindsOf(s, ci.args[0]); k&^x.pr.kind("Symbol", "Integer", "Boolean") == 0 {
				return one(s, ci.args[0]), true
			}
			if x.isMaterialised(s, ci.args[0]) {
				return nil, false
			}
		}
		t := x.ts.sym(ci.fn.Signature.Results().At(0).Type(), "copy", "", ci.site, ci.args...)
		x.setKinds(s, t, x.kindsOf(s, ci.args[0]))
		x.addProv(s, t, pFresh|pFreshSpine|pFreshCell)
		return one(s, t), true
	case "ProcessError":
		t := x.ts.sym(errorType, "err", "ProcessError", ci.site, ci.args...)
		x.setNil(s, t, false)
		return one(s, t), true
	case "Length":
		if strip(ci.args[0]).isNilConst() {
			return one(s, x.ts.intc(0, types.Typ[types.Int])), true
		}
		if x.isMaterialised(s, ci.args[0]) {
			return nil, false
		}
		return one(s, x.lengthTerm(s, ci.args[0])), true
	case "ToArray":
		if x.isMaterialised(s, ci.args[0]) {
			return nil, false
		}
		t := x.ts.sym(ci.fn.Signature.Results().At(0).Type(), "toarray", "", ci.site, ci.args...)
		x.setNil(s, t, false)
		l := x.ts.mk(OLen, types.Typ[types.Int], "", 0, t)
		le := x.lengthTerm(s, ci.args[0])
		k := x.kindsOf(s, ci.args[0])
		if k&^x.pr.kind("Nil", "ConsCell", "Alist") == 0 {
			x.assumeLe(s, l, le, 0)
			x.assumeLe(s, le, l, 0)
		}
		return one(s, t), true
	}
	return nil, false
}

// symName: the name of a symbol known by name.
func symName(t *Term) (string, bool) {
	if t = strip(t); isIntern(t) {
		return t.args[0].strConst()
	}
	return "", false
}

func (x *Exec) lengthTerm(s *State, d *Term) *Term {
	if x.kindsOf(s, d) == kindNil {
		return x.ts.intc(0, types.Typ[types.Int])
	}
	v := x.version(s, "ConsCell.Cdr")
	return x.ts.mk(OCall, types.Typ[types.Int], "golisp.Length", int64(v), d)
}

// isMaterialised: the spine of the list is known cell by cell.
func (x *Exec) isMaterialised(s *State, t *Term) bool {
	for i := 0; i < 40; i++ {
		if t.isNilConst() {
			return true
		}
		if t.op != OAlloc || !x.isData(t.typ) {
			return false
		}
		v, ok := s.heap.get(x.fieldAddr(t, x.pr.fValue))
		if !ok {
			return false
		}
		for v.op == OConv {
			v = v.args[0]
		}
		if v.op != OAlloc {
			return x.isCons(v.typ)
		}
		if _, n := structOf(v.typ); n != x.pr.consT {
			return true
		}
		t = x.peekHeap(s, x.fieldAddr(v, 1))
		if t == nil {
			return false
		}
	}
	return false
}

func (x *Exec) isCons(t types.Type) bool { return false }

// unknownCall: nothing is known about the result.
func (x *Exec) unknownCall(s *State, ci *CallInfo, kind string) []Outcome {
	for _, a := range ci.args {
		x.escape(s, a)
	}
	x.havoc(s)
	return x.genericResults(s, ci, kind)
}

func (x *Exec) resultsOf(ci *CallInfo) *types.Tuple {
	return ci.common.Signature().Results()
}

func (x *Exec) genericResults(s *State, ci *CallInfo, kind string) []Outcome {
	sig := x.resultsOf(ci)
	mk := func(s *State, i int, t types.Type) *Term {
		v := x.ts.sym(t, kind, ci.name, ci.site, ci.args...)
		return v
	}
	if isErrSig(sig) && sig.Len() > 1 {
		return x.errPair(s, ci, sig, func(s *State, i int, t types.Type) *Term {
			v := mk(s, i, t)
			if kind == "ext" && !x.isData(t) && isNillable(t) {
				x.setNil(s, v, false)
			}
			return v
		}, kind)
	}
	if isErrSig(sig) {
		ok := s.fork()
		e := x.ts.sym(errorType, "err", ci.name, ci.site, ci.args...)
		x.setNil(s, e, false)
		return []Outcome{{st: ok, rets: []*Term{x.ts.nilOf(errorType)}}, {st: s, rets: []*Term{e}}}
	}
	var rs []*Term
	for i := 0; i < sig.Len(); i++ {
		rs = append(rs, mk(s, i, sig.At(i).Type()))
	}
	return one(s, rs...)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "errors": true, "bytes": true, "regexp": true}

func extPkg(f *ssa.Function) string {
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg != nil {
		return p.Pkg.Pkg.Path()
	}
	if o := p.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (x *Exec) extern(fr *Frame, s *State, ci *CallInfo) []Outcome {
	sig := x.resultsOf(ci)
	pkg := ""
	if ci.fn != nil {
		pkg = extPkg(ci.fn)
	} else if ci.common.IsInvoke() {
		if sig.Len() == 1 && isString(sig.At(0).Type()) {
			return one(s, x.ts.mk(OCall, sig.At(0).Type(), ci.name, 0, ci.args...))
		}
		return x.genericResults(s, ci, "ext")
	} else {
		// unknown function value: may run anything
		return x.evalOutcomes(fr, s, ci, "dyncall")
	}
	// closures handed to library code may be called any number of times
	var cl *Term
	for _, a := range ci.args {
		b := a
		for b.op == OIface || b.op == OConv {
			b = b.args[0]
		}
		if b.op == OClosure || b.op == OFunc && b.fn != nil && x.pr.inRepo(b.fn) {
			cl = b
		}
	}
	if cl != nil && len(cl.fn.Blocks) > 0 {
		return x.higherOrder(fr, s, ci, cl)
	}
	if r := x.foldCall(ci); r != nil {
		return one(s, r)
	}
	if x.rules.MaxRec > 0 {
		if outs, ok := x.foldEffects(s, ci); ok {
			return outs
		}
	}
	if r := x.foldFormat(s, ci); r != nil {
		return one(s, r)
	}
	pure := purePkgs[pkg] || strings.HasPrefix(ci.name, "fmt.Sprint") || ci.name == "fmt.Errorf"
	if !pure && pkg != "sync" && pkg != "sync/atomic" {
		for _, a := range ci.args {
			x.scramble(s, a)
		}
	}
	switch {
	case ci.name == "errors.New" || ci.name == "fmt.Errorf":
		e := x.ts.sym(errorType, "err", ci.name, ci.site, ci.args...)
		x.setNil(s, e, false)
		return one(s, e)
	case pure && !isErrSig(sig):
		var rs []*Term
		args := ci.args
		for i := 0; i < sig.Len(); i++ {
			t := x.ts.mk(OCall, sig.At(i).Type(), ci.name, int64(i), x.pureArgs(s, args)...)
			rs = append(rs, t)
		}
		x.extFacts(s, ci, rs)
		return one(s, rs...)
	case pure:
		ok := s.fork()
		var a, b []*Term
		for i := 0; i < sig.Len()-1; i++ {
			t := x.ts.mk(OCall, sig.At(i).Type(), ci.name, int64(i), ci.args...)
			if isNillable(t.typ) {
				x.setNil(ok, t, false)
			}
			a = append(a, t)
			b = append(b, x.ts.sym(t.typ, "onerr", ci.name, ci.site))
		}
		e := x.ts.mk(OCall, errorType, ci.name, int64(sig.Len()-1), ci.args...)
		if d := x.nilness(s, e); d != 0 {
			if d < 0 {
				return one(s, append(a, x.ts.nilOf(errorType))...)
			}
			return one(s, append(b, e)...)
		}
		x.setNil(ok, e, true)
		x.setNil(s, e, false)
		return []Outcome{{st: ok, rets: append(a, x.ts.nilOf(errorType))}, {st: s, rets: append(b, e)}}
	}
	outs := x.genericResults(s, ci, "ext")
	for _, o := range outs {
		for i, r := range o.rets {
			if isNillable(r.typ) && !x.isData(r.typ) && !isError(r.typ) && r.op == OSym && !isErrSig(sig) {
				if _, ok := r.typ.Underlying().(*types.Pointer); ok {
					x.setNil(o.st, r, false)
				}
			}
			_ = i
		}
		x.extFacts(o.st, ci, o.rets)
	}
	return outs
}

// pureArgs replaces variadic slices by their elements so that equal calls get
// equal terms.
func (x *Exec) pureArgs(s *State, args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if a.op == OSlice && x.tracked(s, a) {
			l := x.lenTerm(s, a)
			if n, ok := x.constInt(s, l); ok && n <= 8 {
				pt := x.pr.ptrTo(elemOf(a.typ))
				for i := int64(0); i < n; i++ {
					out = append(out, x.load(s, x.indexAddr(s, pt, a, x.ts.intc(i, types.Typ[types.Int]))))
				}
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

// scramble forgets what library code may have written through a pointer.
func (x *Exec) scramble(s *State, a *Term) {
	for a.op == OIface || a.op == OConv {
		a = a.args[0]
	}
	if a.op == OSlice && x.tracked(s, a) {
		// variadic arguments: only what they point to
		l := x.lenTerm(s, a)
		if n, ok := x.constInt(s, l); ok && n <= 8 {
			pt := x.pr.ptrTo(elemOf(a.typ))
			for i := int64(0); i < n; i++ {
				x.scramble(s, x.load(s, x.indexAddr(s, pt, a, x.ts.intc(i, types.Typ[types.Int]))))
			}
		}
		return
	}
	if a.op != OAlloc || x.isData(a.typ) {
		return
	}
	if _, n := structOf(a.typ); n != nil && n.Obj().Pkg() == x.pr.lisp.Pkg {
		return
	}
	if !x.private(s, a) {
		return
	}
	x.writes++
	var kill []*Term
	s.heap.each(func(k, v *Term) {
		if baseObj(k) == a {
			kill = append(kill, k)
		}
	})
	for _, k := range kill {
		s.heap.del(k)
	}
	s.esc.set(a, true)
	x.verN++
	s.ver.set(x.ts.classOf(a), x.verN)
}

func (x *Exec) higherOrder(fr *Frame, s *State, ci *CallInfo, cl *Term) []Outcome {
	states := []*State{s}
	cur := []*State{s.fork()}
	for round := 0; round < 2; round++ {
		var next []*State
		for _, st := range cur {
			n := st.fork()
			var args []*Term
			for _, p := range cl.fn.Params {
				a := x.ts.sym(p.Type(), "cbarg", p.Name(), ci.site, ci.args...)
				args = append(args, a)
				if isInt(p.Type()) && ci.fn != nil && strings.HasPrefix(ci.name, "sort.Slice") {
					b := ci.args[0]
					for b.op == OIface || b.op == OConv {
						b = b.args[0]
					}
					x.assumeLe(n, x.zero, a, 0)
					x.assumeLe(n, a, x.lenTerm(n, b), -1)
				}
				if !x.isData(p.Type()) && isNillable(p.Type()) {
					x.setNil(n, a, false)
				}
			}
			for _, o := range x.runFunction(cl.fn, args, cl.args, n, ci.site) {
				if !o.panicked {
					next = append(next, o.st)
				}
			}
		}
		byKey := map[string]*State{}
		var ks []string
		for _, st := range next {
			k := st.mon.key()
			if o, ok := byKey[k]; ok {
				byKey[k] = x.joinStates(o, st)
			} else {
				byKey[k] = st
				ks = append(ks, k)
			}
		}
		cur = nil
		for _, k := range ks {
			cur = append(cur, byKey[k])
			states = append(states, byKey[k])
		}
	}
	byKey := map[string]*State{}
	var ks []string
	for _, st := range states {
		k := st.mon.key()
		if o, ok := byKey[k]; ok {
			byKey[k] = x.joinStates(o, st)
		} else {
			byKey[k] = st
			ks = append(ks, k)
		}
	}
	var outs []Outcome
	for _, k := range ks {
		outs = append(outs, x.genericResults(byKey[k], ci, "ext")...)
	}
	return outs
}

// foldCall: the value of a library function of constants.
func (x *Exec) foldCall(ci *CallInfo) *Term {
	// trimming one end after the other is trimming both
	if both := map[string]string{"strings.TrimLeft": "strings.TrimRight", "strings.TrimRight": "strings.TrimLeft"}[ci.name]; both != "" && len(ci.args) == 2 {
		if t := ci.args[0]; t.op == OCall && t.aux == both && t.args[1] == ci.args[1] {
			return x.ts.mk(OCall, t.typ, "strings.Trim", 0, t.args...)
		}
	}
	var a []string
	for _, t := range ci.args {
		v, ok := t.strConst()
		if !ok {
			return nil
		}
		a = append(a, v)
	}
	if len(a) == 2 {
		switch ci.name {
		case "strings.HasPrefix":
			return x.ts.boolc(strings.HasPrefix(a[0], a[1]))
		case "strings.HasSuffix":
			return x.ts.boolc(strings.HasSuffix(a[0], a[1]))
		case "strings.Contains":
			return x.ts.boolc(strings.Contains(a[0], a[1]))
		case "strings.TrimPrefix":
			return x.ts.constv(constStr(strings.TrimPrefix(a[0], a[1])), types.Typ[types.String])
		case "strings.Trim":
			return x.ts.constv(constStr(strings.Trim(a[0], a[1])), types.Typ[types.String])
		case "strings.TrimLeft":
			return x.ts.constv(constStr(strings.TrimLeft(a[0], a[1])), types.Typ[types.String])
		case "strings.TrimRight":
			return x.ts.constv(constStr(strings.TrimRight(a[0], a[1])), types.Typ[types.String])
		case "strings.TrimSuffix":
			return x.ts.constv(constStr(strings.TrimSuffix(a[0], a[1])), types.Typ[types.String])
		}
	}
	if len(a) == 1 {
		switch ci.name {
		case "strings.ToLower":
			return x.ts.constv(constStr(strings.ToLower(a[0])), types.Typ[types.String])
		case "strings.ToUpper":
			return x.ts.constv(constStr(strings.ToUpper(a[0])), types.Typ[types.String])
		case "strings.TrimSpace":
			return x.ts.constv(constStr(strings.TrimSpace(a[0])), types.Typ[types.String])
		}
	}
	return nil
}

// extFacts: what the documentation of a library function guarantees.
func (x *Exec) extFacts(s *State, ci *CallInfo, rs []*Term) {
	if len(rs) == 0 {
		return
	}
	r := rs[0]
	a := ci.args
	it := types.Typ[types.Int]
	ln := func(t *Term) *Term { return x.lenTerm(s, t) }
	one := x.ts.intc(1, it)
	switch ci.name {
	case "strings.Split":
		if sep, ok := a[1].strConst(); ok && sep != "" {
			x.assumeLe(s, one, ln(r), 0)
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.IndexAny":
		x.assumeLe(s, x.ts.intc(-1, it), r, 0)
		x.assumeLe(s, r, ln(a[0]), 0)
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		x.assumeLe(s, ln(r), ln(a[0]), 0)
	case "math.Abs":
	case "unicode/utf8.RuneCountInString":
		x.assumeLe(s, x.zero, r, 0)
		x.assumeLe(s, r, ln(a[0]), 0)
	case "runtime.Stack":
		x.assumeLe(s, x.zero, r, 0)
		x.assumeLe(s, r, ln(a[0]), 0)
	}
	for _, r := range rs {
		if r.op == OCall && isNillable(r.typ) && !x.isData(r.typ) && !isError(r.typ) {
			if _, ok := r.typ.Underlying().(*types.Pointer); ok {
				x.setNil(s, r, false)
			}
		}
	}
}

// assumeCall refines the arguments of library predicates.
func (x *Exec) assumeCall(s *State, t *Term, val bool) bool {
	switch t.aux {
	case "strings.HasPrefix", "strings.HasSuffix":
		if val {
			return x.assumeLe(s, x.lenTerm(s, t.args[1]), x.lenTerm(s, t.args[0]), 0)
		}
	case "golisp.IsEqual":
		if val {
			return true
		}
	}
	return true
}

// sliceElems: the elements of a slice of known length.
func (x *Exec) sliceElems(s *State, t *Term) ([]*Term, bool) {
	if strip(t).isNilConst() {
		return nil, true
	}
	ln, ok := x.constInt(s, x.lenTerm(s, t))
	if !ok || ln > 100 {
		return nil, false
	}
	et := elemOf(t.typ)
	var out []*Term
	for i := int64(0); i < ln; i++ {
		out = append(out, x.load(s, x.indexAddr(s, types.NewPointer(et), t, x.ts.intc(i, types.Typ[types.Int]))))
	}
	return out, true
}

// foldFormat: formatting constants with %s, %v, %d and %q.
func (x *Exec) foldFormat(s *State, ci *CallInfo) *Term {
	if ci.name != "fmt.Sprintf" && ci.name != "fmt.Sprint" || len(ci.args) == 0 {
		return nil
	}
	f := ""
	if ci.name == "fmt.Sprintf" {
		var ok bool
		if f, ok = ci.args[0].strConst(); !ok {
			return nil
		}
	}
	els, ok := x.sliceElems(s, ci.args[len(ci.args)-1])
	if !ok {
		return nil
	}
	var vs []interface{}
	for _, e := range els {
		for e.op == OIface || e.op == OConv {
			e = e.args[0]
		}
		if c, ok := e.strConst(); ok {
			vs = append(vs, c)
		} else if n, ok := e.intConst(); ok {
			vs = append(vs, n)
		} else {
			return nil
		}
	}
	if ci.name == "fmt.Sprint" {
		return x.ts.constv(constStr(fmt.Sprint(vs...)), types.Typ[types.String])
	}
	for i := 0; i < len(f); i++ {
		if f[i] == '%' {
			i++
			if i >= len(f) || !strings.ContainsRune("svdq%", rune(f[i])) {
				return nil
			}
		}
	}
	return x.ts.constv(constStr(fmt.Sprintf(f, vs...)), types.Typ[types.String])
}
