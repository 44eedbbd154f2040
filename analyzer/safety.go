package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// payload of each tag: what Data.Value must point to.
func (pr *Program) payloadKinds(t types.Type) uint32 {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return 0
	}
	switch e := types.Unalias(p.Elem()).(type) {
	case *types.Named:
		switch e {
		case pr.consT:
			return pr.kind("ConsCell", "Alist", "AlistCell")
		case pr.boxedT:
			return pr.kind("BoxedObject")
		case pr.envT:
			return pr.kind("Environment")
		case pr.frameMapT:
			return pr.kind("Frame")
		case pr.funcT:
			return pr.kind("Function")
		case pr.macroT:
			return pr.kind("Macro")
		case pr.primT:
			return pr.kind("Primitive")
		}
		if e.Obj().Pkg() != nil && e.Obj().Pkg().Path() == "os" && e.Obj().Name() == "File" {
			return pr.kind("Port")
		}
	case *types.Basic:
		switch e.Kind() {
		case types.Int64:
			return pr.kind("Integer")
		case types.Float32:
			return pr.kind("Float")
		case types.Bool:
			return pr.kind("Boolean")
		case types.String:
			return pr.kind("String", "Symbol")
		}
	}
	return 0
}

// boxName: the ObjType label a boxed Go type must carry.
func (pr *Program) boxName(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	switch e := types.Unalias(p.Elem()).(type) {
	case *types.Slice:
		if isByteSlice(e) {
			return "[]byte"
		}
	case *types.Named:
		if e == pr.procT {
			return "Process"
		}
		if _, ok := e.Underlying().(*types.Chan); ok {
			return "Channel"
		}
	case *types.Chan:
		return "Channel"
	case *types.Basic:
		if e.Kind() == types.Int64 {
			return "Atomic"
		}
	}
	return ""
}

// valueField recognises a load of Data.Value and gives the Data term.
func (x *Exec) valueOwner(t *Term) *Term {
	if t.op == OLoad && t.args[0].op == OFieldAddr && int(t.args[0].iaux) == x.pr.fValue && x.isData(t.args[0].args[0].typ) {
		return t.args[0].args[0]
	}
	return nil
}

// boxOwner recognises a load of BoxedObject.Obj and gives the box.
func (x *Exec) boxOwner(t *Term) *Term {
	if t.op == OLoad && t.args[0].op == OFieldAddr {
		b := t.args[0].args[0]
		if _, n := structOf(b.typ); n == x.pr.boxedT && isUnsafe(t.typ) {
			return b
		}
	}
	return nil
}

// nonNilFields: pointer-like fields that always hold something once the object
// is built; verified at every store and every allocation.
var nonNilFields = map[string]bool{
	"SymbolTableFrame.Bindings": true, "SymbolTableFrame.CurrentCode": true,
	"Function.Env": true, "Macro.Env": true, "PrimitiveFunction.Body": true,
	"Process.Env": true, "Process.Wake": true, "Process.Abort": true, "Process.Restart": true, "Process.ReturnValue": true,
	"Tokenizer.Source": true, "FrameMap.Data": true, "BoxedObject.Obj": true, "Data.Value": true,
	"symbolsTable.Symbols": true, "environmentsTable.Environments": true,
}

// nonNilGlobals are package variables set during start-up.
var nonNilGlobals = map[string]bool{"Global": true}

type safetyOpts struct {
	crash, repr bool
}

// safetyRules checks representation (C01) and run-time panics (C02).
func safetyRules(pr *Program, o safetyOpts) *Rules {
	r := &Rules{Name: "safety", PanicMode: true}
	viol := func(x *Exec, on bool, rule string, in ssa.Instruction, f string, a ...interface{}) {
		if on {
			x.rep.ViolX(x, rule, in, fmt.Sprintf(f, a...))
		}
	}
	ob := func(x *Exec, on bool, rule string, in ssa.Instruction) {
		if on {
			x.rep.ObI(rule, in)
		}
	}
	nonNil := func(x *Exec, s *State, t *Term, in ssa.Instruction, what string) {
		if _, ok := t.typ.Underlying().(*types.Pointer); !ok && !isNillable(t.typ) {
			return
		}
		ob(x, o.crash, "nil-deref", in)
		if x.nilness(s, t) > 0 {
			return
		}
		viol(x, o.crash, "nil-deref", in, "%s: %s may be nil here", what, t)
		x.setNil(s, t, false)
	}
	index := func(x *Exec, s *State, base, idx *Term, in ssa.Instruction) {
		ob(x, o.crash, "index", in)
		l := x.lenTerm(s, base)
		if x.lo(s, idx) < 0 {
			viol(x, o.crash, "index", in, "index %s may be negative", idx)
			x.assumeLe(s, x.zero, idx, 0)
		}
		if !x.le(s, idx, l, -1) {
			viol(x, o.crash, "index", in, "index %s may be out of range of %s", idx, l)
			x.assumeLe(s, idx, l, -1)
		}
	}
	r.LoadFact = func(x *Exec, s *State, addr, v *Term) {
		if addr.op == OFieldAddr && isNillable(v.typ) && v.op == OLoad {
			if nonNilFields[fieldClass(addr.args[0].typ, int(addr.iaux))] {
				x.setNil(s, v, false)
			}
		}
		if addr.op == OGlobal && nonNilGlobals[addr.aux] && v.op == OLoad {
			x.setNil(s, v, false)
		}
		if addr.op == OFieldAddr && v.op == OLoad && fieldClass(addr.args[0].typ, int(addr.iaux)) == "BoxedObject.Obj" {
			x.setNil(s, v, false)
		}
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		s := c.st
		switch i := in.(type) {
		case *ssa.FieldAddr:
			nonNil(x, s, x.val(c, i.X), i, "field access")
		case *ssa.UnOp:
			if i.Op == token.MUL {
				nonNil(x, s, x.val(c, i.X), i, "dereference")
			}
		case *ssa.Store:
			nonNil(x, s, x.val(c, i.Addr), i, "store")
			a, v := x.val(c, i.Addr), x.val(c, i.Val)
			if a.op == OFieldAddr && isNillable(i.Val.Type()) {
				fc := fieldClass(a.args[0].typ, int(a.iaux))
				if nonNilFields[fc] && fc != "Data.Value" {
					ob(x, o.crash, "field-set", in)
					if x.nilness(s, v) <= 0 {
						viol(x, o.crash, "field-set", in, "%s may be set to nil, but readers of the field rely on it", fc)
					}
				}
			}
			if o.repr {
				checkReprStore(x, s, i, a, v)
			}
		case *ssa.IndexAddr:
			b := x.val(c, i.X)
			if p, ok := b.typ.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Array); ok {
					nonNil(x, s, b, i, "array access")
				}
			}
			index(x, s, b, x.val(c, i.Index), i)
		case *ssa.Index:
			index(x, s, x.val(c, i.X), x.val(c, i.Index), i)
		case *ssa.Lookup:
			m := x.val(c, i.X)
			if isString(m.typ) {
				index(x, s, m, x.val(c, i.Index), i)
			}
		case *ssa.Slice:
			ob(x, o.crash, "slice", in)
			b := x.val(c, i.X)
			if p, ok := b.typ.Underlying().(*types.Pointer); ok {
				_ = p
				nonNil(x, s, b, i, "slice of array")
			}
			ln := x.lenTerm(s, b)
			lo, hi := x.zero, ln
			if i.Low != nil {
				lo = x.val(c, i.Low)
			}
			if i.High != nil {
				hi = x.val(c, i.High)
			}
			z := x.ts.intc(0, types.Typ[types.Int])
			if i.Low != nil {
				if x.lo(s, lo) < 0 {
					viol(x, o.crash, "slice", in, "slice start %s may be negative", lo)
					x.assumeLe(s, z, lo, 0)
				}
			} else {
				lo = z
			}
			if !x.le(s, lo, hi, 0) {
				viol(x, o.crash, "slice", in, "slice bounds %s:%s may be inverted", lo, hi)
				x.assumeLe(s, lo, hi, 0)
			}
			if i.High != nil && !x.le(s, hi, ln, 0) {
				viol(x, o.crash, "slice", in, "slice end %s may be beyond %s", hi, ln)
				x.assumeLe(s, hi, ln, 0)
			}
		case *ssa.BinOp:
			if (i.Op == token.QUO || i.Op == token.REM) && isInt(i.Type()) {
				ob(x, o.crash, "divide", in)
				d := x.val(c, i.Y)
				if !x.nonZero(s, d) {
					viol(x, o.crash, "divide", in, "divisor %s may be zero", d)
				}
			}
			if (i.Op == token.SHL || i.Op == token.SHR) && isInt(i.Y.Type()) {
				if _, signed := intSize(i.Y.Type()); signed {
					ob(x, o.crash, "shift", in)
					if x.lo(s, x.val(c, i.Y)) < 0 {
						viol(x, o.crash, "shift", in, "shift count %s may be negative", x.val(c, i.Y))
					}
				}
			}
		case *ssa.MapUpdate:
			nonNil(x, s, x.val(c, i.Map), i, "map update")
		case *ssa.MakeSlice:
			ob(x, o.crash, "make", in)
			if x.lo(s, x.val(c, i.Len)) < 0 {
				viol(x, o.crash, "make", in, "slice size %s may be negative", x.val(c, i.Len))
			}
			if i.Cap != i.Len && !x.le(s, x.val(c, i.Len), x.val(c, i.Cap), 0) {
				viol(x, o.crash, "make", in, "slice capacity %s may be below its length", x.val(c, i.Cap))
			}
		case *ssa.MakeChan:
			ob(x, o.crash, "make", in)
			if x.lo(s, x.val(c, i.Size)) < 0 {
				viol(x, o.crash, "make", in, "channel size %s may be negative", x.val(c, i.Size))
			}
		case *ssa.TypeAssert:
			if !i.CommaOk {
				ob(x, o.crash, "type-assert", in)
				a := x.val(c, i.X)
				if !x.assertOK(s, a, i.AssertedType) {
					viol(x, o.crash, "type-assert", in, "unchecked assertion of %s to %s", a, i.AssertedType)
				}
			}
		case *ssa.Convert:
			if o.repr {
				checkCast(x, s, i, x.val(c, i.X))
			}
		case ssa.CallInstruction:
			cc := i.Common()
			if cc.IsInvoke() {
				nonNil(x, s, x.val(c, cc.Value), in, "method call on interface")
			} else if _, ok := cc.Value.(*ssa.Builtin); !ok && cc.StaticCallee() == nil {
				nonNil(x, s, x.val(c, cc.Value), in, "call of function value")
			} else if f := cc.StaticCallee(); f != nil && !x.pr.inRepo(f) && f.Signature.Recv() != nil && len(cc.Args) > 0 {
				if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
					nonNil(x, s, x.val(c, cc.Args[0]), in, "method call on "+f.Name())
				}
			}
		}
	}
	r.Panic = func(x *Exec, fr *Frame, s *State, in ssa.Instruction) {
		ob(x, o.crash, "panic", in)
		viol(x, o.crash, "panic", in, "explicit panic is reachable")
	}
	r.Chan = func(x *Exec, fr *Frame, s *State, in ssa.Instruction, kind string, ch, v *Term) {
		switch kind {
		case "send", "selsend", "close":
			ob(x, o.crash, "channel", in)
			if !x.recovered(fr) {
				if !x.neverClosed(ch) {
					viol(x, o.crash, "channel", in, "%s on a channel that may already be closed is not guarded by a recovery", kind)
				}
			}
		}
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		in := ci.site
		switch ci.name {
		case "strings.Repeat", "bytes.Repeat":
			ob(x, o.crash, "library", in)
			if x.lo(s, ci.args[1]) < 0 {
				viol(x, o.crash, "library", in, "repeat count %s may be negative", ci.args[1])
			}
		case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "(*math/rand.Rand).Intn":
			ob(x, o.crash, "library", in)
			n := ci.args[len(ci.args)-1]
			if x.lo(s, n) < 1 {
				viol(x, o.crash, "library", in, "random bound %s may not be positive", n)
			}
		case "regexp.MustCompile", "text/template.Must":
			ob(x, o.crash, "library", in)
			if _, ok := ci.args[0].strConst(); !ok {
				viol(x, o.crash, "library", in, "%s on a string that is not constant", ci.name)
			}
		case "time.NewTicker", "time.Tick":
			ob(x, o.crash, "library", in)
			if x.lo(s, ci.args[0]) < 1 {
				viol(x, o.crash, "library", in, "ticker interval may not be positive")
			}
		}
		if strings.HasPrefix(ci.name, "log.Fatal") || strings.HasPrefix(ci.name, "log.Panic") {
			viol(x, o.crash, "library", in, "%s ends the host", ci.name)
		}
		if ci.fn != nil && x.pr.inRepo(ci.fn) && x.isContract(ci.fn) {
			// the callee is analysed on its own, assuming its parameters
			for k, p := range ci.fn.Params {
				if k >= len(ci.args) || x.isData(p.Type()) || !isNillable(p.Type()) || isUnsafe(p.Type()) {
					continue
				}
				if mayBeNilParam[x.pr.short(ci.fn)+"."+p.Name()] {
					continue
				}
				ob(x, o.crash, "arg-nonnil", in)
				if x.nilness(s, ci.args[k]) <= 0 {
					viol(x, o.crash, "arg-nonnil", in, "%s may receive nil for %s", x.pr.short(ci.fn), p.Name())
				}
			}
		}
		return nil, false
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if o.repr {
			checkReprAtReturn(x, fr, s, in)
		}
	}
	return r
}

var mayBeNilParam = map[string]bool{}

func (x *Exec) isContract(fn *ssa.Function) bool {
	n := x.pr.short(fn)
	if x.rules.NoSkip != nil && x.rules.NoSkip[n] {
		return false
	}
	if x.rules.Sums != nil && x.rules.Sums.enabled(fn) {
		return true
	}
	return evalLike[n] || readLike[n] || pureFns[n] || effectless[n]
}

func (x *Exec) nonZero(s *State, d *Term) bool {
	if n, ok := d.intConst(); ok {
		return n != 0
	}
	if x.lo(s, d) > 0 || x.hi(s, d) < 0 {
		return true
	}
	for _, n := range x.fact(s, d).ne {
		if k, ok := n.intConst(); ok && k == 0 {
			return true
		}
	}
	return false
}

func (x *Exec) assertOK(s *State, a *Term, to types.Type) bool {
	if a.op == OIface {
		if it, ok := to.Underlying().(*types.Interface); ok {
			return types.Implements(a.args[0].typ, it)
		}
		return types.Identical(a.args[0].typ, to)
	}
	if d := x.dynOf(s, a); d != nil {
		return types.Identical(d, to)
	}
	return false
}

// recovered: some enclosing frame of the analysed call chain recovers panics.
func (x *Exec) recovered(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if x.pr.recovers(f.fn) {
			return true
		}
	}
	return false
}

// recovers: the function defers a call that reaches recover().
func (pr *Program) recovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var f *ssa.Function
			if c := d.Call.StaticCallee(); c != nil {
				f = c
			}
			if f != nil && callsRecover(f) {
				return true
			}
		}
	}
	return false
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// neverClosed: a channel nobody closes (its storage is never passed to close).
func (x *Exec) neverClosed(ch *Term) bool {
	cls := x.chanClass(ch)
	if cls == "" {
		return false
	}
	return !x.pr.closedClasses()[cls]
}

func (x *Exec) chanClass(ch *Term) string {
	for ch.op == OConv {
		ch = ch.args[0]
	}
	if ch.op == OLoad && ch.args[0].op == OFieldAddr {
		return fieldClass(ch.args[0].args[0].typ, int(ch.args[0].iaux))
	}
	if ch.op == OAlloc {
		if n, ok := types.Unalias(ch.typ).(*types.Named); ok {
			return "type " + n.Obj().Name()
		}
		return "type " + ch.typ.String()
	}
	return ""
}

// closedClasses: storage classes of channels passed to close anywhere.
func (pr *Program) closedClasses() map[string]bool {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if pr.closed != nil {
		return pr.closed
	}
	m := map[string]bool{}
	for _, fn := range pr.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					v := c.Common().Args[0]
					if u, ok := v.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							m[fieldClass(fa.X.Type(), fa.Field)] = true
							continue
						}
					}
					if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
						m["type "+n.Obj().Name()] = true
					} else {
						m["type "+v.Type().String()] = true
					}
				}
			}
		}
	}
	pr.closed = m
	return m
}

func checkCast(x *Exec, s *State, i *ssa.Convert, a *Term) {
	if !isUnsafe(i.X.Type()) {
		return
	}
	if d := x.valueOwner(a); d != nil {
		x.rep.ObI("cast", i)
		want := x.pr.payloadKinds(i.Type())
		k := x.kindsOf(s, d) &^ kindNil
		if k&^want != 0 {
			x.rep.ViolX(x, "cast", i, fmt.Sprintf("the payload of %s is read as %s although the value may be %s", d, i.Type(), x.pr.kindsStr(k&^want)))
			x.setKinds(s, d, want)
		}
		return
	}
	if b := x.boxOwner(a); b != nil {
		if !dereferenced(i) {
			return
		}
		x.rep.ObI("boxed-cast", i)
		want := x.pr.boxName(i.Type())
		got := ""
		if l, ok := x.load(s, x.fieldAddr(b, x.pr.fLabel)).strConst(); ok {
			got = l
		} else if f := x.fact(s, x.load(s, x.fieldAddr(b, x.pr.fLabel))); f.cst != nil {
			got, _ = f.cst.strConst()
		}
		if want == "" || got != want {
			g := "unchecked"
			if got != "" {
				g = fmt.Sprintf("%q", got)
			}
			x.rep.ViolX(x, "boxed-cast", i, fmt.Sprintf("a boxed host object whose label is %s is read as %s (label %q)", g, i.Type(), want))
		}
		return
	}
	if a.op == OConv || a.isNilConst() {
		if a.op == OConv && !types.Identical(a.args[0].typ, i.Type()) && !layoutOK(a.args[0].typ, i.Type()) {
			x.rep.ViolX(x, "cast", i, fmt.Sprintf("%s is reinterpreted as %s", a.args[0].typ, i.Type()))
		}
		return
	}
	if x.nilness(s, a) < 0 {
		return
	}
	x.rep.ViolX(x, "cast", i, fmt.Sprintf("a raw pointer of unknown origin (%s) is read as %s", a, i.Type()))
}

// checkReprStore guards writes to the tag and payload of a value that others
// can already see.
func checkReprStore(x *Exec, s *State, i *ssa.Store, a, v *Term) {
	if a.op != OFieldAddr {
		return
	}
	b := a.args[0]
	_, n := structOf(b.typ)
	if n == x.pr.dataT && !x.private(s, baseObj(a)) {
		x.rep.ObI("published-write", i)
		if int(a.iaux) == x.pr.fType {
			x.rep.ViolX(x, "published-write", i, "the type tag of an existing value is changed")
			return
		}
		w := v
		for w.op == OConv {
			w = w.args[0]
		}
		want := x.pr.payloadKinds(w.typ)
		if k := x.kindsOf(s, b) &^ kindNil; k&^want != 0 {
			x.rep.ViolX(x, "published-write", i, fmt.Sprintf("the payload of a value that may be %s is replaced by a %s", x.pr.kindsStr(k), w.typ))
		}
	}
	if n == x.pr.boxedT && !x.private(s, baseObj(a)) {
		x.rep.ObI("published-write", i)
		lbl := ""
		if b.op == OConv {
			if d := x.valueOwner(b.args[0]); d != nil {
				lbl = x.boxLabel(s, d)
			}
		}
		if int(a.iaux) == x.pr.fLabel || lbl == "" || x.pr.boxName(underConv(v).typ) != lbl || x.nilness(s, v) <= 0 {
			x.rep.ViolX(x, "published-write", i, fmt.Sprintf("the contents of a boxed host object whose label is %q are replaced by a %s", lbl, underConv(v).typ))
		}
	}
}

// checkReprAtReturn: every value object the function made carries a tag that
// matches what its payload points to.
func checkReprAtReturn(x *Exec, fr *Frame, s *State, in *ssa.Return) {
	st := x.pr.dataT.Underlying().(*types.Struct)
	_ = st
	type obj struct{ t *Term }
	seen := map[*Term]bool{}
	check := func(t *Term) {
		if seen[t] || t.id <= fr.n0 || t.site == nil || t.site.Parent() != fr.fn {
			return
		}
		seen[t] = true
		_, n := structOf(t.typ)
		switch n {
		case x.pr.dataT:
			if _, ok := t.typ.Underlying().(*types.Pointer); !ok {
				return
			}
			ty := x.peekHeap(s, x.fieldAddr(t, x.pr.fType))
			v := x.peekHeap(s, x.fieldAddr(t, x.pr.fValue))
			if ty == nil || v == nil {
				return
			}
			x.rep.ObI("construct", t.site)
			if !x.reprOK(s, ty, v) {
				x.rep.ViolX(x, "construct", t.site, fmt.Sprintf("a value is built with tag %s and payload %s (%s): they do not match, or the payload may be nil", ty, v, underConv(v).typ))
			}
		case x.pr.boxedT:
			nm := x.peekHeap(s, x.fieldAddr(t, x.pr.fieldIdx(x.pr.boxedT, "ObjType")))
			v := x.peekHeap(s, x.fieldAddr(t, x.pr.fieldIdx(x.pr.boxedT, "Obj")))
			if nm == nil || v == nil {
				return
			}
			x.rep.ObI("construct-box", t.site)
			w := underConv(v)
			str, ok := nm.strConst()
			if ok && (x.pr.boxName(w.typ) != str || x.nilness(s, v) <= 0) {
				x.rep.ViolX(x, "construct-box", t.site, fmt.Sprintf("a host object labelled %q is built around a %s", str, w.typ))
			}
		}
	}
	s.heap.each(func(k, v *Term) {
		if k.op == OFieldAddr && k.args[0].op == OAlloc {
			check(k.args[0])
		}
	})
	s.esc.each(func(k *Term, _ bool) { check(k) })
}

func underConv(v *Term) *Term {
	for v.op == OConv && isUnsafe(v.typ) {
		v = v.args[0]
	}
	return v
}

func (x *Exec) reprOK(s *State, ty, v *Term) bool {
	w := underConv(v)
	// copying tag and payload of one value together
	if d := x.tagBase(ty); d != nil {
		return x.valueOwner(v) == d
	}
	n, ok := ty.intConst()
	if !ok {
		if f := x.fact(s, ty); f.cst != nil {
			n, ok = f.cst.intConst()
		}
	}
	if !ok || n <= 0 || n > 15 {
		return false
	}
	if x.pr.payloadKinds(w.typ)&(1<<uint(n)) == 0 {
		return false
	}
	return x.nilness(s, v) > 0
}

// dereferenced: the converted pointer is used for more than being printed.
func dereferenced(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.MakeInterface, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// layoutOK: reading a byte slice header as a string header is well defined.
func layoutOK(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Pointer)
	t, ok2 := to.Underlying().(*types.Pointer)
	return ok1 && ok2 && isByteSlice(f.Elem()) && isString(t.Elem())
}
