package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules is what one property adds to the interpretation: hooks that observe
// program points and contracts for calls treated as boundaries.
type Rules struct {
	Name     string
	LoadFact func(x *Exec, s *State, addr, v *Term)
	Enter    func(x *Exec, fr *Frame, s *State)
	Return   func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term)
	Panic    func(x *Exec, fr *Frame, s *State, in ssa.Instruction)
	Branch   func(x *Exec, fr *Frame, s *State, in *ssa.If, cond *Term, d int)
	Instr    func(x *Exec, fr *Frame, c *Config, in ssa.Instruction)
	// Call may take over a call completely (handled=true).
	Call func(x *Exec, fr *Frame, s *State, ci *CallInfo) (outs []Outcome, handled bool)
	// After runs on every outcome of a boundary or external call.
	After     func(x *Exec, fr *Frame, s *State, ci *CallInfo, rets []*Term)
	DataSig   func(x *Exec, s *State, t *Term) string
	Opaque    func(x *Exec, fn *ssa.Function) bool
	PanicMode bool
	NoInts    bool // do not track integer relations
	World     bool // the tables of the objects built for the root are known
	Sums      *summaries
	Fork      func(x *Exec, s *State, cond *Term, v bool) // after a branch on an undecided condition
	Endless   bool                                        // loops without a test at their head are followed to their end
	MaxRec    int                                         // recursion followed to this depth (at least 2)
	NoSkip    map[string]bool                             // functions to inline although modelled
	Chan      func(x *Exec, fr *Frame, s *State, in ssa.Instruction, kind string, ch, v *Term)
}

type CallInfo struct {
	common *ssa.CallCommon
	fn     *ssa.Function // static callee, if any
	name   string        // qualified name or builtin/dynamic marker
	args   []*Term
	fnTerm *Term
	site   ssa.Instruction
}

func (x *Exec) instr(fr *Frame, c *Config, in ssa.Instruction) []*Config {
	x.rep.instrs++
	if x.rules.Instr != nil {
		x.rules.Instr(x, fr, c, in)
	}
	set := func(v ssa.Value, t *Term) []*Config { c.env.set(v, t); return []*Config{c} }
	s := c.st
	if x.rules.World && x.worldInstr(c, in) {
		return []*Config{c}
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		return []*Config{c}
	case *ssa.Alloc:
		t := x.ts.alloc(i.Type(), i)
		s.esc.set(t, false)
		return set(i, t)
	case *ssa.BinOp:
		a, b := x.val(c, i.X), x.val(c, i.Y)
		if (i.Op == token.EQL || i.Op == token.NEQ) && (a.op == OTuple || b.op == OTuple) {
			return set(i, x.ts.sym(i.Type(), "cmp", "", i))
		}
		return set(i, x.bin(s, i.Op, i.Type(), a, b))
	case *ssa.UnOp:
		a := x.val(c, i.X)
		switch i.Op {
		case token.MUL:
			return set(i, x.load(s, a))
		case token.NOT:
			return set(i, x.not(a))
		case token.ARROW:
			if x.rules.Chan != nil {
				x.rules.Chan(x, fr, s, i, "recv", a, nil)
			}
			x.blockPoint(s)
			et := elemOf(a.typ)
			v := x.ts.sym(et, "recv", "", i, a)
			if i.CommaOk {
				ok := x.ts.sym(types.Typ[types.Bool], "recvok", "", i)
				return set(i, x.ts.mk(OTuple, i.Type(), "", 0, v, ok))
			}
			return set(i, v)
		case token.SUB:
			if isInt(i.Type()) {
				return set(i, x.bin(s, token.SUB, i.Type(), x.ts.intc(0, i.Type()), a))
			}
		}
		return set(i, x.ts.mk(OUn, i.Type(), i.Op.String(), 0, a))
	case *ssa.Convert:
		if x.rules.MaxRec > 0 {
			if t := x.constRunes(s, i.Type(), x.val(c, i.X), in); t != nil {
				return set(i, t)
			}
			if t := x.runesText(s, i.Type(), x.val(c, i.X)); t != nil {
				return set(i, t)
			}
		}
		return set(i, x.conv(s, i.Type(), x.val(c, i.X)))
	case *ssa.ChangeType:
		return set(i, x.conv(s, i.Type(), x.val(c, i.X)))
	case *ssa.MultiConvert:
		return set(i, x.conv(s, i.Type(), x.val(c, i.X)))
	case *ssa.ChangeInterface:
		return set(i, x.val(c, i.X))
	case *ssa.MakeInterface:
		return set(i, x.ts.mk(OIface, i.Type(), x.ts.tname(i.X.Type()), 0, x.val(c, i.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, x.val(c, b))
		}
		t := x.ts.mk(OClosure, i.Type(), i.Fn.(*ssa.Function).String(), 0, bs...)
		t.fn = i.Fn.(*ssa.Function)
		return set(i, t)
	case *ssa.FieldAddr:
		b := x.val(c, i.X)
		return set(i, x.ts.mk(OFieldAddr, i.Type(), "", int64(i.Field), b))
	case *ssa.Field:
		b := x.val(c, i.X)
		if b.op == OTuple && b.aux == "struct" && i.Field < len(b.args) {
			return set(i, b.args[i.Field])
		}
		if b.op == OConst {
			return set(i, x.ts.zeroOf(i.Type()))
		}
		return set(i, x.ts.mk(OField, i.Type(), "", int64(i.Field), b))
	case *ssa.IndexAddr:
		return set(i, x.indexAddr(s, i.Type(), x.val(c, i.X), x.val(c, i.Index)))
	case *ssa.Index:
		return set(i, x.indexVal(s, i.Type(), x.val(c, i.X), x.val(c, i.Index)))
	case *ssa.Lookup:
		m, k := x.val(c, i.X), x.val(c, i.Index)
		if isString(m.typ) {
			return set(i, x.indexVal(s, i.Type(), m, k))
		}
		if t := x.tableOf(m); t != nil && x.rules.MaxRec > 0 {
			if cs := x.tableLookup(c.fork(), i, t, k); cs != nil {
				return cs
			}
		}
		ver := int64(x.version(s, "map "+x.ts.tname(m.typ)))
		et := elemOf(m.typ)
		v := x.ts.mk(OLookup, et, "", ver, m, k)
		if !i.CommaOk {
			if !x.isData(et) && isNillable(et) && x.nilness(s, v) == 0 {
				n := c.fork()
				x.setNil(n.st, v, true)
				n.env.set(i, x.ts.zeroOf(et))
				x.setNil(c.st, v, false)
				c.env.set(i, v)
				return []*Config{c, n}
			}
			return set(i, v)
		}
		ok := x.ts.mk(OLookupOk, types.Typ[types.Bool], "", ver, m, k)
		var res []*Config
		if d := x.decide(s, ok); d == 0 {
			n := c.fork()
			x.assume(n.st, ok, false)
			n.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.zeroOf(et), x.ts.boolc(false)))
			res = append(res, n)
			x.assume(c.st, ok, true)
		} else if d < 0 {
			c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.zeroOf(et), x.ts.boolc(false)))
			return []*Config{c}
		}
		if !x.isData(et) && isNillable(et) {
			x.setNil(c.st, v, false)
		}
		c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, v, x.ts.boolc(true)))
		return append(res, c)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		t := x.ts.alloc(v.Type(), in)
		s.esc.set(t, false)
		if mc, ok := in.(*ssa.MakeChan); ok {
			n := x.val(c, mc.Size)
			x.assumeLe(s, x.ts.mk(OCall, types.Typ[types.Int], "cap", 0, t), n, 0)
			x.assumeLe(s, n, x.ts.mk(OCall, types.Typ[types.Int], "cap", 0, t), 0)
		}
		return set(v, t)
	case *ssa.MakeSlice:
		t := x.ts.alloc(i.Type(), i)
		s.esc.set(t, false)
		n := x.val(c, i.Len)
		l := x.ts.mk(OLen, types.Typ[types.Int], "", 0, t)
		x.assumeLe(s, l, n, 0)
		x.assumeLe(s, n, l, 0)
		return set(i, t)
	case *ssa.Slice:
		return set(i, x.slice(c, i))
	case *ssa.SliceToArrayPointer:
		return set(i, x.ts.mk(OConv, i.Type(), "", 0, x.val(c, i.X)))
	case *ssa.MapUpdate:
		m := x.val(c, i.Map)
		x.escapeInto(s, m, x.val(c, i.Value))
		x.writes++
		x.verN++
		s.ver.set("map "+x.ts.tname(m.typ), x.verN)
		s.ver.set("#", x.verN)
		return []*Config{c}
	case *ssa.Store:
		x.store(s, x.val(c, i.Addr), x.val(c, i.Val))
		return []*Config{c}
	case *ssa.Send:
		ch, v := x.val(c, i.Chan), x.val(c, i.X)
		pre := s.fork()
		if x.rules.Chan != nil {
			x.rules.Chan(x, fr, s, i, "send", ch, v)
		}
		x.escape(s, v)
		x.blockPoint(s)
		if x.rules.PanicMode && x.mayBeClosed(ch) && x.catches(c) {
			n := c.fork()
			n.st = pre
			if x.rules.Chan != nil {
				x.rules.Chan(x, fr, n.st, i, "closed", ch, v)
			}
			x.unwind(fr, n, i)
		}
		return []*Config{c}
	case *ssa.Select:
		return x.sel(fr, c, i)
	case *ssa.Extract:
		t := x.val(c, i.Tuple)
		if t.op == OTuple && i.Index < len(t.args) {
			return set(i, t.args[i.Index])
		}
		return set(i, x.ts.mk(OField, i.Type(), "tuple", int64(i.Index), t))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, c, i)
	case *ssa.Range:
		if x.rules.MaxRec > 0 {
			s.setTag(rangeTag(i), "")
		}
		return set(i, x.ts.mk(ORange, i.Type(), "", 0, x.val(c, i.X)))
	case *ssa.Next:
		r := x.val(c, i.Iter)
		tt := i.Type().(*types.Tuple)
		if x.rules.MaxRec > 0 && r.op == ORange {
			if str, ok := r.args[0].strConst(); ok {
				return set(i, x.nextRune(s, i, r, str))
			}
		}
		done := c.fork()
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		zero := func(t types.Type) *Term {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return x.zero
			}
			return x.ts.zeroOf(t)
		}
		done.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(false), zero(kt), zero(vt)))
		var src *Term
		if r.op == ORange {
			src = r.args[0]
		}
		var k, v *Term
		if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
			k = x.zero
			if i.IsString {
				k = x.ts.sym(types.Typ[types.Int], "rangekey", "", i, src)
			}
		} else {
			k = x.ts.sym(kt, "rangekey", "", i, src)
		}
		if b, ok := vt.(*types.Basic); ok && b.Kind() == types.Invalid {
			v = x.zero
		} else {
			v = x.ts.sym(vt, "rangeval", "", i, src)
			if !x.isData(vt) && isNillable(vt) {
				x.setNil(s, v, false)
			}
		}
		if i.IsString && src != nil {
			x.assumeLe(s, x.zero, k, 0)
			x.assumeLe(s, k, x.lenTerm(s, src), -1)
		}
		c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(true), k, v))
		return []*Config{c, done}
	case *ssa.Go:
		x.goStmt(fr, c, i)
		return []*Config{c}
	case *ssa.Defer:
		ft, args := x.callTerms(c, &i.Call)
		same := 0
		for _, d := range c.defers {
			if d.site == ssa.Instruction(i) {
				same++
			}
		}
		if same >= 2 { // a defer in a loop: two pending calls stand for many
			return []*Config{c}
		}
		n := append(append([]*Deferred(nil), c.defers...), &Deferred{common: &i.Call, fnTerm: ft, args: args, site: i})
		c.defers = n
		return []*Config{c}
	case *ssa.Call:
		ft, args := x.callTerms(c, &i.Call)
		outs := x.dispatch(fr, s, &i.Call, ft, args, i)
		var res []*Config
		for k, o := range outs {
			n := &Config{st: o.st, defers: c.defers}
			if k == len(outs)-1 {
				n.env = c.env
			} else {
				n.env = c.env.fork()
			}
			if o.panicked {
				x.unwind(fr, &Config{env: n.env.fork(), st: n.st, defers: n.defers}, i)
				continue
			}
			switch len(o.rets) {
			case 0:
			case 1:
				n.env.set(i, o.rets[0])
			default:
				n.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, o.rets...))
			}
			res = append(res, n)
		}
		return res
	}
	if v, ok := in.(ssa.Value); ok {
		return set(v, x.ts.sym(v.Type(), "unknown", fmt.Sprintf("%T", in), in))
	}
	return []*Config{c}
}

// blockPoint: the goroutine may be suspended here, so shared memory may change.
func (x *Exec) blockPoint(s *State) {}

func (x *Exec) mayBeClosed(ch *Term) bool { return !x.neverClosed(ch) }

// catches reports whether some frame on the stack has deferred calls pending.
func (x *Exec) catches(c *Config) bool {
	if len(c.defers) > 0 {
		return true
	}
	for _, f := range x.stack {
		if f.fn.Recover != nil {
			return true
		}
	}
	return false
}

func (x *Exec) escapeInto(s *State, m, v *Term) {
	if x.private(s, baseObj(m)) {
		// values stored in a private map: treat as shared from now on
	}
	x.escape(s, v)
}

func (x *Exec) indexAddr(s *State, typ types.Type, base, idx *Term) *Term {
	if base.op == OSlice {
		return x.indexAddr(s, typ, base.args[0], x.bin(s, token.ADD, types.Typ[types.Int], base.args[1], x.conv(s, types.Typ[types.Int], idx)))
	}
	if n, ok := x.constInt(s, idx); ok {
		idx = x.ts.intc(n, types.Typ[types.Int])
	}
	return x.ts.mk(OIndexAddr, typ, "", 0, base, idx)
}

func (x *Exec) indexVal(s *State, typ types.Type, base, idx *Term) *Term {
	if str, ok := base.strConst(); ok {
		if n, ok := x.constInt(s, idx); ok && n >= 0 && int(n) < len(str) {
			return x.ts.intc(int64(str[n]), typ)
		}
	}
	return x.ts.mk(OIndex, typ, "", 0, base, idx)
}

func (x *Exec) slice(c *Config, i *ssa.Slice) *Term {
	s := c.st
	b := x.val(c, i.X)
	it := types.Typ[types.Int]
	lo := x.ts.intc(0, it)
	if i.Low != nil {
		lo = x.val(c, i.Low)
	}
	var hi *Term
	if i.High != nil {
		hi = x.val(c, i.High)
	} else {
		hi = x.lenTerm(s, b)
	}
	for _, p := range []**Term{&lo, &hi} {
		if n, ok := x.constInt(s, *p); ok {
			*p = x.ts.intc(n, it)
		}
	}
	if b.op == OSlice {
		off := b.args[1]
		lo = x.bin(s, token.ADD, it, off, lo)
		hi = x.bin(s, token.ADD, it, off, hi)
		b = b.args[0]
	}
	if str, ok := b.strConst(); ok {
		l, ok1 := x.constInt(s, lo)
		h, ok2 := x.constInt(s, hi)
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(str)) {
			t := x.ts.constv(constStr(str[l:h]), i.Type())
			return t
		}
	}
	capped := ""
	if i.Max != nil {
		capped = "capped"
	}
	return x.ts.mk(OSlice, i.Type(), capped, 0, b, lo, hi)
}

func (x *Exec) typeAssert(fr *Frame, c *Config, i *ssa.TypeAssert) []*Config {
	a := x.val(c, i.X)
	var v *Term
	dyn := x.dynOf(c.st, a)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	res := 0
	if a.op == OIface {
		if toIface {
			if types.Implements(a.args[0].typ, i.AssertedType.Underlying().(*types.Interface)) {
				res = 1
			} else {
				res = -1
			}
			v = a
		} else if types.Identical(a.args[0].typ, i.AssertedType) {
			res = 1
			v = a.args[0]
		} else {
			res = -1
		}
	} else if dyn != nil && !toIface {
		if types.Identical(dyn, i.AssertedType) {
			res = 1
		} else {
			res = -1
		}
	}
	if x.nilness(c.st, a) < 0 {
		res = -1
	}
	if v == nil {
		v = x.ts.mk(OCall, i.AssertedType, "assert", 0, a)
	}
	if !i.CommaOk {
		c.env.set(i, v)
		return []*Config{c}
	}
	var out []*Config
	if res <= 0 {
		n := c
		if res == 0 {
			n = c.fork()
		}
		n.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.zeroOf(i.AssertedType), x.ts.boolc(false)))
		out = append(out, n)
	}
	if res >= 0 {
		x.setNil(c.st, a, false)
		c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, v, x.ts.boolc(true)))
		out = append(out, c)
	}
	return out
}

func (x *Exec) sel(fr *Frame, c *Config, i *ssa.Select) []*Config {
	var out []*Config
	tt := i.Type().(*types.Tuple)
	mk := func(idx int, n *Config) {
		vals := []*Term{x.ts.intc(int64(idx), types.Typ[types.Int]), x.ts.boolc(idx >= 0)}
		ri := 2
		for k, st := range i.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			et := tt.At(ri).Type()
			if k == idx {
				v := x.ts.sym(et, "recv", "", i, x.val(n, st.Chan))
				ok := x.ts.sym(types.Typ[types.Bool], "recvok", "", i)
				vals[1] = ok
				vals = append(vals, v)
			} else {
				vals = append(vals, x.ts.zeroOf(et))
			}
			ri++
		}
		n.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, vals...))
		out = append(out, n)
	}
	for k, st := range i.States {
		n := c.fork()
		ch := x.val(n, st.Chan)
		if st.Dir == types.SendOnly {
			v := x.val(n, st.Send)
			if x.rules.Chan != nil {
				x.rules.Chan(x, fr, n.st, i, "selsend", ch, v)
			}
			x.escape(n.st, v)
			if x.rules.PanicMode && x.catches(c) {
				p := c.fork()
				if x.rules.Chan != nil {
					x.rules.Chan(x, fr, p.st, i, "closed", ch, v)
				}
				x.unwind(fr, p, i)
			}
		} else if x.rules.Chan != nil {
			x.rules.Chan(x, fr, n.st, i, "selrecv", ch, nil)
		}
		mk(k, n)
	}
	if !i.Blocking {
		n := c.fork()
		if x.rules.Chan != nil {
			for _, st := range i.States {
				k := "default-recv"
				if st.Dir == types.SendOnly {
					k = "default-send"
				}
				x.rules.Chan(x, fr, n.st, i, k, x.val(n, st.Chan), nil)
			}
		}
		mk(-1, n)
	}
	return out
}

func (x *Exec) callTerms(c *Config, cc *ssa.CallCommon) (*Term, []*Term) {
	ft := x.val(c, cc.Value)
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, x.val(c, a))
	}
	return ft, args
}

func (x *Exec) goStmt(fr *Frame, c *Config, i *ssa.Go) {
	ft, args := x.callTerms(c, &i.Call)
	for _, a := range args {
		x.escape(c.st, a)
	}
	x.escape(c.st, ft)
	n := c.st.fork()
	m := n.mon.clone()
	m.held = nil
	m.err = ""
	n.mon = m
	x.inGo++
	x.havoc(n)
	outs := x.dispatch(fr, n, &i.Call, ft, args, i)
	x.inGo--
	if x.rules.After != nil {
		for _, o := range outs {
			name := "go:end"
			if o.panicked {
				name = "go:panic"
			}
			x.rules.After(x, fr, o.st, &CallInfo{common: &i.Call, name: name, site: i, fnTerm: ft, args: args}, o.rets)
		}
	}
}

// dispatch performs a call.
func (x *Exec) dispatch(fr *Frame, s *State, cc *ssa.CallCommon, ft *Term, args []*Term, site ssa.Instruction) []Outcome {
	ci := &CallInfo{common: cc, args: args, fnTerm: ft, site: site}
	var bind []*Term
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.name = "builtin." + b.Name()
		if x.rules.Call != nil {
			if outs, done := x.rules.Call(x, fr, s, ci); done {
				return outs
			}
		}
		return x.builtin(fr, s, ci)
	}
	if cc.IsInvoke() {
		ci.name = "invoke." + cc.Method.FullName()
		ci.args = append([]*Term{ft}, args...)
	} else if f := cc.StaticCallee(); f != nil {
		ci.fn = f
		ci.name = fnName(f)
		if ft.op == OClosure {
			bind = ft.args
		}
	} else if ft.op == OFunc && ft.fn != nil {
		ci.fn = ft.fn
		ci.name = fnName(ft.fn)
	} else if ft.op == OClosure {
		ci.fn = ft.fn
		ci.name = fnName(ft.fn)
		bind = ft.args
	} else {
		ci.name = "dynamic"
	}
	x.rep.calls++
	if x.rules.Call != nil {
		if outs, done := x.rules.Call(x, fr, s, ci); done {
			return outs
		}
	}
	if ci.fn != nil && len(ci.fn.Blocks) > 0 && x.pr.inRepo(ci.fn) {
		if outs, done := x.contract(fr, s, ci); done {
			return x.after(fr, ci, outs)
		}
		rec := 0
		for _, f := range x.stack {
			if f.fn == ci.fn {
				rec++
			}
		}
		if rec >= 2 && rec >= x.rules.MaxRec || len(x.stack) > 60 {
			return x.after(fr, ci, x.unknownCall(s, ci, "rec"))
		}
		return x.runFunction(ci.fn, args, bind, s, site)
	}
	if ci.fn != nil && (len(ci.fn.Blocks) == 0 || !x.pr.inRepo(ci.fn)) && ci.fn.Synthetic != "" && len(ci.fn.Blocks) > 0 && x.pr.wraps(ci.fn) {
		return x.runFunction(ci.fn, args, bind, s, site)
	}
	return x.after(fr, ci, x.extern(fr, s, ci))
}

func (x *Exec) after(fr *Frame, ci *CallInfo, outs []Outcome) []Outcome {
	if x.rules.After != nil {
		for _, o := range outs {
			x.rules.After(x, fr, o.st, ci, o.rets)
		}
	}
	return outs
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func one(s *State, rets ...*Term) []Outcome { return []Outcome{{st: s, rets: rets}} }

func (x *Exec) builtin(fr *Frame, s *State, ci *CallInfo) []Outcome {
	a := ci.args
	it := types.Typ[types.Int]
	var rt types.Type
	if v, ok := ci.site.(ssa.Value); ok {
		rt = v.Type()
	}
	switch ci.name {
	case "builtin.len":
		if _, ok := a[0].typ.Underlying().(*types.Map); ok {
			if es, ok := x.mapEnts(s, a[0]); ok {
				return one(s, x.ts.intc(int64(len(es)), it))
			}
			return one(s, x.ts.mk(OLen, it, "", int64(x.version(s, "map "+x.ts.tname(a[0].typ))), a[0]))
		}
		return one(s, x.lenTerm(s, a[0]))
	case "builtin.cap":
		return one(s, x.ts.sym(it, "cap", "", ci.site, a[0]))
	case "builtin.append":
		return one(s, x.appendTerm(s, ci, rt))
	case "builtin.copy":
		x.writes++
		if n := x.copyModel(s, a[0], a[1]); n != nil {
			return one(s, n)
		}
		x.forgetElems(s, a[0])
		return one(s, x.ts.sym(it, "copy", "", ci.site))
	case "builtin.delete":
		x.mapDel(s, a[0], a[1])
		x.writes++
		x.verN++
		s.ver.set("map "+x.ts.tname(a[0].typ), x.verN)
		s.ver.set("#", x.verN)
		return one(s)
	case "builtin.close":
		n := s.fork()
		if x.rules.Chan != nil {
			x.rules.Chan(x, fr, s, ci.site, "close", a[0], nil)
		}
		var outs []Outcome
		if x.rules.PanicMode {
			if x.rules.Chan != nil {
				x.rules.Chan(x, fr, n, ci.site, "closed", a[0], nil)
			}
			outs = append(outs, Outcome{st: n, panicked: true})
		}
		return append(outs, Outcome{st: s})
	case "builtin.recover":
		if s.mon.pan {
			m := s.mon.clone()
			m.pan = false
			s.mon = m
			v := x.ts.sym(rt, "recovered", "", ci.site)
			x.setNil(s, v, false)
			return one(s, v)
		}
		return one(s, x.ts.nilOf(rt))
	case "builtin.min", "builtin.max":
		t := x.ts.mk(OCall, rt, ci.name, 0, a...)
		if isInt(rt) {
			for _, b := range a {
				if ci.name == "builtin.min" {
					x.assumeLe(s, t, b, 0)
				} else {
					x.assumeLe(s, b, t, 0)
				}
			}
		}
		return one(s, t)
	case "builtin.print", "builtin.println", "builtin.clear":
		return one(s)
	case "builtin.ssa:wrapnilchk":
		return one(s, a[0])
	}
	if rt == nil {
		return one(s)
	}
	if tt, ok := rt.(*types.Tuple); ok && tt.Len() == 0 {
		return one(s)
	}
	return one(s, x.ts.sym(rt, "builtin", ci.name, ci.site, a...))
}

func (x *Exec) appendTerm(s *State, ci *CallInfo, rt types.Type) *Term {
	a := ci.args
	base, add := a[0], a[1]
	it := types.Typ[types.Int]
	lb, la := x.lenTerm(s, base), x.lenTerm(s, add)
	nb, ok1 := x.constInt(s, lb)
	na, ok2 := x.constInt(s, la)
	pt := x.pr.ptrTo(elemOf(rt))
	addrOf := func(sl *Term, i int64) *Term {
		return x.indexAddr(s, pt, sl, x.ts.intc(i, it))
	}
	most := int64(24)
	if x.rules.MaxRec > 0 {
		most = 80
	}
	if ok1 && ok2 && nb+na <= most && x.tracked(s, base) && x.tracked(s, add) {
		if base.op == OSlice && base.aux == "" && na > 0 {
			// within the array: append writes in place
			lo, _ := base.args[1].intConst()
			if n, ok := x.constInt(s, x.lenTerm(s, base.args[0])); ok && lo+nb+na <= n {
				var vals []*Term
				for i := int64(0); i < na; i++ {
					vals = append(vals, x.load(s, addrOf(add, i)))
				}
				for i, v := range vals {
					x.store(s, addrOf(base, nb+int64(i)), v)
				}
				return x.ts.mk(OSlice, base.typ, "", 0, base.args[0], base.args[1], x.ts.intc(lo+nb+na, it))
			}
		}
		t := x.ts.alloc(rt, ci.site)
		var vals []*Term
		for i := int64(0); i < nb; i++ {
			vals = append(vals, x.load(s, addrOf(base, i)))
		}
		for i := int64(0); i < na; i++ {
			vals = append(vals, x.load(s, addrOf(add, i)))
		}
		s.esc.set(t, false)
		l := x.ts.mk(OLen, it, "", 0, t)
		n := x.ts.intc(nb+na, it)
		x.assumeLe(s, l, n, 0)
		x.assumeLe(s, n, l, 0)
		for i, v := range vals {
			s.heap.set(x.ts.mk(OIndexAddr, pt, "", 0, t, x.ts.intc(int64(i), it)), v)
		}
		return t
	}
	var src []*Term
	src = append(src, base)
	if ok2 && x.tracked(s, add) {
		for i := int64(0); i < na; i++ {
			src = append(src, x.load(s, addrOf(add, i)))
		}
	} else {
		src = append(src, add)
	}
	t := x.ts.sym(rt, "append", "", ci.site, src...)
	if x.provOf(s, base)&pFresh != 0 {
		x.addProv(s, t, pFresh)
	}
	x.setNilUnlessEmpty(s, t, na)
	l := x.ts.mk(OLen, it, "", 0, t)
	sum := x.bin(s, token.ADD, it, lb, la)
	x.assumeLe(s, l, sum, 0)
	x.assumeLe(s, sum, l, 0)
	for _, v := range src[1:] {
		x.escape(s, v)
	}
	return t
}

func (x *Exec) setNilUnlessEmpty(s *State, t *Term, n int64) {
	if n > 0 {
		x.setNil(s, t, false)
	}
}

// tracked: the contents of this slice are known element by element.
func (x *Exec) tracked(s *State, t *Term) bool {
	if t.isNilConst() {
		return true
	}
	b := t
	if b.op == OSlice {
		if _, ok := b.args[1].intConst(); !ok {
			return false
		}
		b = b.args[0]
	}
	if b.op != OAlloc {
		return false
	}
	v, _ := s.ver.get("alloc" + fmt.Sprint(b.id))
	return v == 0 && x.private(s, b)
}
