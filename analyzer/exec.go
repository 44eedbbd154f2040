package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	env    pmap[ssa.Value, *Term]
	st     *State
	defers []*Deferred
}

func (c *Config) fork() *Config {
	return &Config{env: c.env.fork(), st: c.st.fork(), defers: c.defers}
}

type Deferred struct {
	common *ssa.CallCommon
	fnTerm *Term
	args   []*Term
	site   ssa.Instruction
}

type Outcome struct {
	st       *State
	rets     []*Term
	panicked bool
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	depth  int
	info   *fnInfo
	outs   []Outcome
	args   []*Term
	n0     int // term counter at entry

	split map[*loopInfo]bool // one state both left the loop at its header and stayed
}

type Exec struct {
	shapes  map[string]*Term
	runes   map[*Term]rune // characters of a class
	shapes0 map[string]*Term
	answers map[string]*Term

	pr         *Program
	ts         *Terms
	zero       *Term
	verN       int
	joinMemo   map[[2]*Term]*Term
	joinOwner  *State
	rules      *Rules
	stack      []*Frame
	root       string
	steps      int
	maxSteps   int
	maxUnroll  int
	stat       map[string]int
	over       bool
	writes     int
	inGo       int
	intern     map[string]*Term
	byID       map[int]*Term
	names      map[*Term]string
	world      map[string]*worldObj
	worldOrder []*worldObj
	nullsApart bool
	unknowns   map[string]*Term
	jsonFn     string
	jsonSrc    *Term
	worldUsed  map[string]bool
	floatAsked map[string]*Term
	world0     map[string]string
	rep        *Report
	inDefer    int
	argCells   map[*Term]bool
}

func newExec(pr *Program, rules *Rules, rep *Report) *Exec {
	x := &Exec{pr: pr, ts: newTerms(), rules: rules, rep: rep, maxSteps: 400000, maxUnroll: 16, intern: map[string]*Term{}}
	if os.Getenv("GSTAT") != "" {
		x.stat = map[string]int{}
	}
	if e := os.Getenv("GSTEPS"); e != "" {
		fmt.Sscan(e, &x.maxSteps)
	}
	x.zero = x.ts.mk(OSym, types.Typ[types.Int], "ZERO", 0)
	return x
}

func (x *Exec) newState() *State {
	return &State{mon: &Mon{tags: map[string]string{}}}
}

// ---- memory ---------------------------------------------------------------

func (x *Exec) fieldAddr(base *Term, i int) *Term {
	return x.ts.mk(OFieldAddr, x.fieldAddrType(base.typ, i), "", int64(i), base)
}

func (x *Exec) fieldAddrType(t types.Type, i int) types.Type {
	s, _ := structOf(t)
	if s == nil || i >= s.NumFields() {
		return t
	}
	return x.pr.ptrTo(s.Field(i).Type())
}

func (x *Exec) private(s *State, base *Term) bool {
	if base.op != OAlloc {
		return false
	}
	if x.rules.World {
		return true
	}
	e, ok := s.esc.get(base)
	return ok && !e
}

func (x *Exec) version(s *State, class string) int {
	if x.pr.immutable[class] {
		return 0
	}
	v, _ := s.ver.get(class)
	w, _ := s.ver.get("*")
	return max(v, w)
}

// peekHeap gives the value a load from addr would have, without recording it.
func (x *Exec) peekHeap(s *State, addr *Term) *Term {
	if v, ok := s.heap.get(addr); ok {
		return v
	}
	base := baseObj(addr)
	if base.op == OAlloc {
		if _, exists := s.esc.get(base); !exists {
			return nil
		}
		if x.private(s, base) {
			if addr.op == OIndexAddr {
				if _, ok := addr.args[1].intConst(); !ok {
					return x.ts.mk(OLoad, x.elemT(addr.typ), "", int64(x.version(s, "alloc"+fmt.Sprint(base.id))), addr)
				}
			}
			et := x.elemT(addr.typ)
			switch et.Underlying().(type) {
			case *types.Struct, *types.Array:
			default:
				if v, _ := s.ver.get("alloc" + fmt.Sprint(base.id)); v != 0 {
					return x.ts.mk(OLoad, et, "", int64(v), addr)
				}
				return x.ts.zeroOf(et)
			}
		}
	}
	return x.ts.mk(OLoad, x.elemT(addr.typ), "", int64(x.version(s, x.ts.classOf(addr))), addr)
}

func (x *Exec) elemT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) load(s *State, addr *Term) *Term {
	if v, ok := s.heap.get(addr); ok {
		return v
	}
	if addr.op == OIndexAddr || addr.op == OFieldAddr {
		if v := x.tableElem(s, addr); v != nil {
			return v
		}
	}
	et := x.elemT(addr.typ)
	if isString(et) && addr.op == OConv { // the bytes of a slice seen as a string
		base := addr
		for base.op == OConv {
			base = base.args[0]
		}
		if p, ok := base.typ.Underlying().(*types.Pointer); ok && types.Identical(p.Elem().Underlying(), types.NewSlice(byteType)) {
			return x.ts.mk(OConv, et, "", 0, x.load(s, base))
		}
	}
	if st, ok := et.Underlying().(*types.Struct); ok {
		// structure value: gather the fields known
		known := false
		base := baseObj(addr)
		if base.op == OAlloc {
			known = true
		}
		if known {
			var fs []*Term
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, x.load(s, x.fieldAddr(addr, i)))
			}
			return x.ts.mk(OTuple, et, "struct", 0, fs...)
		}
	}
	v := x.peekHeap(s, addr)
	if v == nil {
		v = x.ts.mk(OLoad, et, "", int64(x.version(s, x.ts.classOf(addr))), addr)
	}
	if d := x.cellOwner(addr); d != nil && x.provOf(s, d)&pArgSpine != 0 {
		if addr.iaux == 0 {
			x.setKinds(s, v, kindNonNil)
		} else {
			x.setKinds(s, v, x.pr.kind("Nil", "ConsCell"))
			x.addProv(s, v, pArgSpine)
		}
	}
	if d := x.labelOwner(v); d != nil && x.fact(s, v).cst == nil {
		if l := x.boxLabel(s, d); l != "" {
			return x.ts.constv(constStr(l), v.typ)
		}
	}
	if x.rules.LoadFact != nil {
		x.rules.LoadFact(x, s, addr, v)
	}
	return v
}

// cellOwner recognises the address of a pair's Car or Cdr and gives the value
// the pair belongs to.
func (x *Exec) cellOwner(addr *Term) *Term {
	if addr.op != OFieldAddr {
		return nil
	}
	c := addr.args[0]
	if _, n := structOf(c.typ); n != x.pr.consT {
		return nil
	}
	for c.op == OConv {
		c = c.args[0]
	}
	if c.op == OLoad && c.args[0].op == OFieldAddr && int(c.args[0].iaux) == x.pr.fValue && x.isData(c.args[0].args[0].typ) {
		return c.args[0].args[0]
	}
	return nil
}

func (x *Exec) store(s *State, addr, val *Term) {
	x.writes++
	base := baseObj(addr)
	priv := x.private(s, base)
	if val.op == OTuple && val.aux == "struct" {
		for i, f := range val.args {
			x.store(s, x.fieldAddr(addr, i), f)
		}
		return
	}
	if st, ok := val.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			var f *Term
			if val.op == OConst {
				f = x.ts.zeroOf(st.Field(i).Type())
			} else {
				f = x.ts.mk(OField, st.Field(i).Type(), "", int64(i), val)
			}
			x.store(s, x.fieldAddr(addr, i), f)
		}
		return
	}
	if !priv {
		x.escape(s, val)
	}
	class := x.ts.classOf(addr)
	var kill []*Term
	s.heap.each(func(k, v *Term) {
		if k == addr || x.ts.classOf(k) != class {
			return
		}
		kb := baseObj(k)
		if priv {
			if kb != base {
				return
			}
			if k.op == OIndexAddr && addr.op == OIndexAddr {
				_, c1 := k.args[1].intConst()
				_, c2 := addr.args[1].intConst()
				if c1 && c2 {
					return
				}
				kill = append(kill, k)
			}
			return
		}
		if x.private(s, kb) || kb.op == OAlloc && base.op == OAlloc && kb != base {
			return
		}
		if k.op == OFieldAddr && addr.op == OFieldAddr && k.args[0].op == OGlobal && addr.args[0].op == OGlobal {
			return
		}
		if k.op == OGlobal && addr.op == OGlobal {
			return
		}
		kill = append(kill, k)
	})
	for _, k := range kill {
		s.heap.del(k)
	}
	if _, n := structOf(base.typ); !priv || n != nil {
		x.verN++
		s.ver.set("#", x.verN)
	}
	if !priv {
		s.ver.set(class, x.verN)
	} else if addr.op == OIndexAddr {
		if _, c := addr.args[1].intConst(); !c {
			x.verN++
			s.ver.set("alloc"+fmt.Sprint(base.id), x.verN)
		}
	}
	s.heap.set(addr, val)
}

// escape marks every private object reachable from t as shared.
func (x *Exec) escape(s *State, t *Term) {
	x.escape1(s, t, map[*Term]bool{})
}

func (x *Exec) escape1(s *State, t *Term, seen map[*Term]bool) {
	switch t.op {
	case OConst, OGlobal, OFunc, OLoad, OLen, OBin:
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OAlloc:
		e, ok := s.esc.get(t)
		if ok && e {
			return
		}
		s.esc.set(t, true)
		var vs []*Term
		s.heap.each(func(k, v *Term) {
			if baseObj(k) == t {
				vs = append(vs, v)
			}
		})
		for _, v := range vs {
			x.escape1(s, v, seen)
		}
	case OConv, OIface, OTuple, OSlice, OClosure, OFieldAddr, OIndexAddr, OField:
		for _, a := range t.args {
			x.escape1(s, a, seen)
		}
	case OSym:
		if t.info != nil && (t.info.kind == "merge" || t.info.kind == "phi" || t.info.kind == "append") {
			for _, a := range t.info.src {
				x.escape1(s, a, seen)
			}
		}
	}
}

// havoc forgets all shared mutable memory (an opaque call ran).
func (x *Exec) havoc(s *State) {
	x.writes++
	var kill []*Term
	s.heap.each(func(k, v *Term) {
		if x.private(s, baseObj(k)) || x.pr.immutable[x.ts.classOf(k)] {
			return
		}
		kill = append(kill, k)
	})
	for _, k := range kill {
		s.heap.del(k)
	}
	x.verN++
	s.ver.set("*", x.verN)
	s.ver.set("#", x.verN)
}

// ---- term construction -------------------------------------------------------

// threeWay: comparing the outcome of strings.Compare or cmp.Compare with zero
// is comparing what was compared.
func (x *Exec) threeWay(s *State, op token.Token, typ types.Type, a, b *Term) *Term {
	if a.isConst() && !b.isConst() {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if a.op != OCall || a.aux != "strings.Compare" && !strings.HasPrefix(a.aux, "cmp.Compare") || len(a.args) != 2 || isFloat(a.args[0].typ) {
		return nil
	}
	n, ok := b.intConst()
	if !ok || n < -1 || n > 1 {
		return nil
	}
	switch {
	case n == 0:
	case n == 1 && (op == token.EQL || op == token.GEQ):
		op = token.GTR
	case n == 1 && (op == token.NEQ || op == token.LSS):
		op = token.LEQ
	case n == -1 && (op == token.EQL || op == token.LEQ):
		op = token.LSS
	case n == -1 && (op == token.NEQ || op == token.GTR):
		op = token.GEQ
	default:
		return nil
	}
	return x.bin(s, op, typ, a.args[0], a.args[1])
}

func (x *Exec) bin(s *State, op token.Token, typ types.Type, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && a.cval != nil && b.cval != nil {
		if v := foldBin(op, a, b, typ); v != nil {
			return x.ts.constv(v, typ)
		}
	}
	if isInt(typ) && !isCmp(op) {
		bc, bok := b.intConst()
		switch op {
		case token.ADD:
			if bok && bc == 0 {
				return a
			}
			if ac, ok := a.intConst(); ok {
				if ac == 0 {
					return b
				}
				a, b = b, a
				bc, bok = b.intConst()
			}
			if bok && a.op == OBin && a.aux == "+" {
				if c2, ok := a.args[1].intConst(); ok {
					return x.bin(s, token.ADD, typ, a.args[0], x.ts.intc(bc+c2, typ))
				}
			}
		case token.SUB:
			if bok {
				return x.bin(s, token.ADD, typ, a, x.ts.intc(-bc, typ))
			}
			if a == b {
				return x.ts.intc(0, typ)
			}
		case token.MUL:
			if bok && bc == 1 {
				return a
			}
		}
	}
	if isCmp(op) {
		if t := x.threeWay(s, op, typ, a, b); t != nil {
			return t
		}
		// canonical order for symmetric comparisons
		if (op == token.EQL || op == token.NEQ) && a.op == OConst && b.op != OConst {
			a, b = b, a
		}
		if op == token.NEQ {
			return x.not(x.bin(s, token.EQL, typ, a, b))
		}
		if op == token.GTR {
			op = token.LSS
			a, b = b, a
		} else if op == token.GEQ && !isFloat(a.typ) {
			return x.not(x.bin(s, token.LSS, typ, a, b))
		} else if op == token.GEQ {
			op = token.LEQ
			a, b = b, a
		}
		if op == token.LEQ && !isFloat(a.typ) {
			return x.not(x.bin(s, token.LSS, typ, b, a))
		}
		if a.isNilConst() && b.isNilConst() && op == token.EQL {
			return x.ts.boolc(true)
		}
		return x.ts.mk(OBin, typ, op.String(), 0, a, b)
	}
	t := x.ts.mk(OBin, typ, op.String(), 0, a, b)
	if isInt(typ) {
		x.deriveBin(s, op, t, a, b)
	}
	return t
}

// deriveBin records bounds of an arithmetic result implied by its operands.
func (x *Exec) deriveBin(s *State, op token.Token, t, a, b *Term) {
	ta, _ := x.lin(t)
	if ta != t {
		return
	}
	switch op {
	case token.ADD:
		if l := x.lo(s, b); l > -inf {
			x.assumeLe(s, a, t, -l)
		}
		if l := x.lo(s, a); l > -inf {
			x.assumeLe(s, b, t, -l)
		}
		if h := x.hi(s, b); h < inf {
			x.assumeLe(s, t, a, h)
		}
		if h := x.hi(s, a); h < inf {
			x.assumeLe(s, t, b, h)
		}
	case token.SUB:
		if l := x.lo(s, b); l > -inf {
			x.assumeLe(s, t, a, -l)
		}
		if h := x.hi(s, b); h < inf {
			x.assumeLe(s, a, t, h)
		}
		aa, ac := x.lin(a)
		ba, bc := x.lin(b)
		if d := x.bound(s, aa, ba); d < inf/2 {
			x.assumeLe(s, t, x.zero, d+ac-bc)
		}
		if d := x.bound(s, ba, aa); d < inf/2 {
			x.assumeLe(s, x.zero, t, d+bc-ac)
		}
	case token.QUO:
		if x.lo(s, a) >= 0 && x.lo(s, b) >= 1 {
			x.assumeLe(s, t, a, 0)
			x.assumeLe(s, x.zero, t, 0)
		}
	case token.REM:
		if x.lo(s, a) >= 0 && x.lo(s, b) >= 1 {
			x.assumeLe(s, t, b, -1)
			x.assumeLe(s, x.zero, t, 0)
		}
	case token.SHR, token.MUL, token.AND:
		if x.lo(s, a) >= 0 && x.lo(s, b) >= 0 {
			x.assumeLe(s, x.zero, t, 0)
		}
	}
}

func foldBin(op token.Token, a, b *Term, typ types.Type) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	if isCmp(op) {
		return constant.MakeBool(constant.Compare(a.cval, op, b.cval))
	}
	if op == token.SHL || op == token.SHR {
		n, ok := constant.Uint64Val(b.cval)
		if !ok || n > 64 {
			return nil
		}
		return constant.Shift(a.cval, op, uint(n))
	}
	if op == token.QUO && isInt(typ) {
		if n, ok := b.intConst(); ok && n == 0 {
			return nil
		}
		op = token.QUO_ASSIGN
	}
	if op == token.REM {
		if n, ok := b.intConst(); ok && n == 0 {
			return nil
		}
	}
	return constant.BinaryOp(a.cval, op, b.cval)
}

func (x *Exec) not(t *Term) *Term {
	if b, ok := t.boolConst(); ok {
		return x.ts.boolc(!b)
	}
	if t.op == OUn && t.aux == "!" {
		return t.args[0]
	}
	return x.ts.mk(OUn, types.Typ[types.Bool], "!", 0, t)
}

func (x *Exec) conv(s *State, typ types.Type, a *Term) *Term {
	if types.Identical(a.typ, typ) {
		return a
	}
	if a.op == OConst && a.cval != nil {
		switch {
		case isInt(typ) && isInt(a.typ):
			if n, ok := a.intConst(); ok {
				bits, sg := intSize(typ)
				if bits == 64 && sg || n >= 0 && bits < 64 && n < 1<<uint(bits-1) || n >= 0 && bits == 64 {
					return x.ts.intc(n, typ)
				}
				switch {
				case bits == 8 && !sg:
					return x.ts.intc(int64(uint8(n)), typ)
				case bits == 16 && !sg:
					return x.ts.intc(int64(uint16(n)), typ)
				case bits == 32 && !sg:
					return x.ts.intc(int64(uint32(n)), typ)
				case bits == 8:
					return x.ts.intc(int64(int8(n)), typ)
				case bits == 16:
					return x.ts.intc(int64(int16(n)), typ)
				case bits == 32:
					return x.ts.intc(int64(int32(n)), typ)
				}
			}
		case isFloat(typ) && isFloat(a.typ), isFloat(typ) && isInt(a.typ):
			return x.ts.constv(a.cval, typ)
		case isString(typ) && isString(a.typ):
			return x.ts.constv(a.cval, typ)
		}
	}
	if a.isNilConst() && isNillable(typ) {
		return x.ts.nilOf(typ)
	}
	if a.op == OConv && isUnsafe(a.typ) && types.Identical(a.args[0].typ, typ) {
		return a.args[0]
	}
	return x.ts.mk(OConv, typ, "", 0, a)
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (x *Exec) lenTerm(s *State, t *Term) *Term {
	if str, ok := t.strConst(); ok {
		return x.ts.intc(int64(len(str)), types.Typ[types.Int])
	}
	it := types.Typ[types.Int]
	if tb := x.tableOf(t); tb != nil {
		return x.ts.intc(int64(len(tb.vals)), it)
	}
	switch t.op {
	case OConst:
		if t.cval == nil {
			return x.ts.intc(0, it)
		}
	case OSlice:
		return x.bin(s, token.SUB, it, t.args[2], t.args[1])
	case OConv:
		a := t.args[0]
		if isString(t.typ) && isByteSlice(a.typ) || isByteSlice(t.typ) && isString(a.typ) || isString(t.typ) && isString(a.typ) || isSliceLike(t.typ) && isSliceLike(a.typ) {
			return x.lenTerm(s, a)
		}
	case OBin:
		if t.aux == "+" && isString(t.typ) {
			return x.bin(s, token.ADD, it, x.lenTerm(s, t.args[0]), x.lenTerm(s, t.args[1]))
		}
	}
	if f, ok := s.facts.get(t); ok && f.cst != nil {
		if str, ok := f.cst.strConst(); ok {
			return x.ts.intc(int64(len(str)), it)
		}
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return x.ts.intc(a.Len(), it)
		}
	}
	if a, ok := t.typ.Underlying().(*types.Array); ok {
		return x.ts.intc(a.Len(), it)
	}
	return x.ts.mk(OLen, it, "", 0, t)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// constInt gives the single value an int term can have.
func (x *Exec) constInt(s *State, t *Term) (int64, bool) {
	if n, ok := t.intConst(); ok {
		return n, true
	}
	lo := x.lo(s, t)
	if lo > -inf && lo == x.hi(s, t) {
		return lo, true
	}
	return 0, false
}

// ---- function information -----------------------------------------------------

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	loops   []*loopInfo
	inner   map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	headers map[*ssa.BasicBlock]*loopInfo
}
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func buildFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{order: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*loopInfo{}, headers: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.order[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.headers[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.headers[s] = l
					fi.loops = append(fi.loops, l)
				}
				// natural loop
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					st = append(st, c.Preds...)
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) < len(fi.loops[j].blocks) })
	for i, l := range fi.loops {
		for b := range l.blocks {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
		for _, m := range fi.loops[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
	}
	return fi
}

// ---- running ------------------------------------------------------------------

func (x *Exec) curFn() string {
	if len(x.stack) == 0 {
		return "?"
	}
	return x.stack[len(x.stack)-1].fn.String()
}

// runFunction executes fn from st and returns its merged outcomes.
func (x *Exec) runFunction(fn *ssa.Function, args []*Term, bind []*Term, st *State, site ssa.Instruction) []Outcome {
	fr := &Frame{fn: fn, site: site, depth: len(x.stack), info: x.pr.info(fn), args: args, n0: x.ts.n}
	if len(x.stack) > 0 {
		fr.parent = x.stack[len(x.stack)-1]
	}
	x.stack = append(x.stack, fr)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	cfg := &Config{st: st.fork()}
	for i, p := range fn.Params {
		if i < len(args) {
			cfg.env.set(p, args[i])
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			cfg.env.set(fv, bind[i])
		}
	}
	w0 := x.writes
	if x.rules.Enter != nil {
		x.rules.Enter(x, fr, cfg.st)
	}
	x.runRegion(fr, nil, fn.Blocks[0], []*Config{cfg})
	pure := x.writes == w0
	return x.mergeOutcomes(fr, fr.outs, pure, st)
}

func (x *Exec) outSig(o Outcome, level int) string {
	var b strings.Builder
	b.WriteString(o.st.mon.key())
	if o.panicked {
		b.WriteString("|panic")
	}
	for _, r := range o.rets {
		b.WriteByte('|')
		b.WriteString(x.valSig(o.st, r, level))
	}
	return b.String()
}

func (x *Exec) valSig(s *State, r *Term, level int) string {
	if r == nil {
		return "-"
	}
	if r.op == OTuple && r.aux != "struct" {
		var ss []string
		for _, a := range r.args {
			ss = append(ss, x.valSig(s, a, level))
		}
		return strings.Join(ss, ",")
	}
	switch {
	case isBool(r.typ):
		switch x.decide(s, r) {
		case 1:
			return "t"
		case -1:
			return "f"
		}
	case isInt(r.typ):
		if level == 0 {
			if n, ok := r.intConst(); ok {
				return fmt.Sprint(n)
			}
			if f := x.fact(s, r); f.cst != nil {
				if n, ok := f.cst.intConst(); ok {
					return fmt.Sprint(n)
				}
			}
		}
	case isString(r.typ):
		if level == 0 {
			if n, ok := r.strConst(); ok {
				return "s:" + n
			}
		}
	case x.isData(r.typ):
		if x.rules.DataSig != nil {
			return x.rules.DataSig(x, s, r)
		}
		return ""
	case isNillable(r.typ):
		if level <= 1 || isError(r.typ) {
			switch x.nilness(s, r) {
			case 1:
				return "n"
			case -1:
				return "0"
			}
		}
	}
	return ""
}

func (x *Exec) mergeOutcomes(fr *Frame, outs []Outcome, pure bool, entry *State) []Outcome {
	for level := 0; ; level++ {
		groups := map[string][]Outcome{}
		var keys []string
		for _, o := range outs {
			k := x.outSig(o, level)
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], o)
		}
		if len(keys) > 12 && level < 2 {
			continue
		}
		var res []Outcome
		for _, k := range keys {
			g := groups[k]
			acc := g[0]
			for _, o := range g[1:] {
				acc = x.joinOutcome(fr, acc, o, pure, k, entry)
			}
			res = append(res, acc)
		}
		return res
	}
}

func (x *Exec) anyPrivate(s *State, ts []*Term) bool {
	for _, t := range ts {
		if x.private(s, baseObj(t)) {
			return true
		}
	}
	return false
}

func (x *Exec) joinOutcome(fr *Frame, a, b Outcome, pure bool, key string, entry *State) Outcome {
	st := x.joinStates(a.st, b.st)
	var rets []*Term
	for i := range a.rets {
		ra, rb := a.rets[i], b.rets[i]
		if ra == rb {
			rets = append(rets, ra)
			continue
		}
		if pure && ra.op != OTuple && len(fr.args) > 0 && !x.anyPrivate(entry, fr.args) {
			v, _ := a.st.ver.get("#")
			w, _ := entry.ver.get("#")
			aux := "pure:" + fr.fn.String() + ":" + stripMon(key)
			m := x.ts.mk(OCall, ra.typ, aux, int64(i+10*max(v, w)), fr.args...)
			if m != ra || m != rb {
				x.escape(st, ra)
				x.escape(st, rb)
				// The term stands for the same value wherever the same pure call
				// was made before, so what is already known of it stays true.
				if f, ok := x.joinFact(a.st, ra, b.st, rb); ok {
					if old, had := st.facts.get(m); had {
						f = refineFact(old, f)
					}
					st.facts.set(m, f)
				}
				x.joinInts(st, m, a.st, ra, b.st, rb)
				rets = append(rets, m)
				continue
			}
		}
		rets = append(rets, x.joinVal(st, a.st, ra, b.st, rb))
		x.escape(st, ra)
		x.escape(st, rb)
	}
	return Outcome{st: st, rets: rets, panicked: a.panicked}
}

func stripMon(k string) string {
	if i := strings.Index(k, "|"); i >= 0 {
		return k[i:]
	}
	return k
}

type edgeTo struct {
	from, to *ssa.BasicBlock
	cfg      *Config
}

// runRegion processes the blocks of loop l (nil: whole function) once, starting
// with configs at start; it returns back-edge configs and exits.
func (x *Exec) runRegion(fr *Frame, l *loopInfo, start *ssa.BasicBlock, init []*Config) (back []*Config, exits []edgeTo) {
	pending := map[*ssa.BasicBlock][]*Config{start: init}
	first := true
	for _, b := range fr.info.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		cfgs := pending[b]
		if len(cfgs) == 0 {
			continue
		}
		delete(pending, b)
		if b != start || !first {
			cfgs = x.mergeConfigs(fr, b, cfgs, 0)
		}
		first = false
		var outs []edgeTo
		if inner := fr.info.headers[b]; inner != nil && inner != l {
			outs = x.runLoop(fr, inner, cfgs)
		} else {
			for _, c := range cfgs {
				o := x.runBlock(fr, b, c)
				if l != nil && b == l.header {
					in, out := false, false
					for _, e := range o {
						if l.blocks[e.to] {
							in = true
						} else {
							out = true
						}
					}
					if in && out {
						fr.split[l] = true
					}
				}
				outs = append(outs, o...)
				if x.over {
					return
				}
			}
		}
		for _, e := range outs {
			switch {
			case l != nil && e.to == l.header:
				back = append(back, e.cfg)
			case l != nil && !l.blocks[e.to]:
				exits = append(exits, e)
			default:
				pending[e.to] = append(pending[e.to], e.cfg)
			}
		}
	}
	return
}

func (x *Exec) phiSig(fr *Frame, b *ssa.BasicBlock, c *Config, level int) string {
	var sb strings.Builder
	sb.WriteString(c.st.mon.key())
	fmt.Fprintf(&sb, "|d%d", len(c.defers))
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, _ := c.env.get(p)
		sb.WriteByte('|')
		if v != nil {
			sb.WriteString(x.valSig(c.st, v, level))
		}
	}
	return sb.String()
}

func (x *Exec) mergeConfigs(fr *Frame, b *ssa.BasicBlock, cfgs []*Config, level int) []*Config {
	if len(cfgs) == 1 {
		return cfgs
	}
	for ; ; level++ {
		groups := map[string][]*Config{}
		var keys []string
		for _, c := range cfgs {
			k := x.phiSig(fr, b, c, level)
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], c)
		}
		if len(keys) > 10 && level < 2 {
			continue
		}
		var res []*Config
		for _, k := range keys {
			g := groups[k]
			acc := g[0]
			for _, c := range g[1:] {
				acc = x.joinConfig(acc, c)
			}
			res = append(res, acc)
		}
		return res
	}
}

func (x *Exec) joinConfig(a, b *Config) *Config {
	st := x.joinStates(a.st, b.st)
	r := &Config{st: st, defers: a.defers}
	base := map[ssa.Value]*Term{}
	var ks []ssa.Value
	a.env.each(func(k ssa.Value, v *Term) { ks = append(ks, k) })
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
	for _, k := range ks {
		va, _ := a.env.get(k)
		vb, ok := b.env.get(k)
		if !ok {
			continue
		}
		base[k] = x.joinVal(st, a.st, va, b.st, vb)
		if va != vb {
			x.escape(st, va)
			x.escape(st, vb)
		}
	}
	r.env.base = base
	return r
}

func (x *Exec) runLoop(fr *Frame, l *loopInfo, entry []*Config) []edgeTo {
	var exits []edgeTo
	cfgs := entry
	undecided := 0
	for n := 0; n < x.maxUnroll; n++ {
		if fr.split == nil {
			fr.split = map[*loopInfo]bool{}
		}
		fr.split[l] = false
		back, ex := x.runRegion(fr, l, l.header, cfgs)
		if x.over {
			return exits
		}
		exits = append(exits, ex...)
		if len(back) == 0 {
			return exits
		}
		headerExit := false
		hasHeaderTest := false
		for _, s := range l.header.Succs {
			if !l.blocks[s] {
				hasHeaderTest = true
			}
		}
		for _, e := range ex {
			if e.from == l.header && fr.split[l] {
				headerExit = true
			}
		}
		if (headerExit || !hasHeaderTest) && !x.rules.Endless {
			undecided++
		}
		cfgs = x.mergeConfigs(fr, l.header, back, 0)
		if undecided >= 1 && (headerExit || n >= 1) {
			break
		}
	}
	// general iteration: find a loop invariant
	ws := map[string]*widened{}
	var order []string
	ent := x.mergeConfigs(fr, l.header, cfgs, 1)
	for _, c := range ent {
		k := x.phiSig(fr, l.header, c, 2)
		if w, ok := ws[k]; ok {
			w.cfg = x.joinConfig(w.cfg, c)
		} else {
			ws[k] = &widened{cfg: c, syms: map[ssa.Value]*Term{}, hsyms: map[*Term]*Term{}}
			order = append(order, k)
		}
	}
	for round := 0; ; round++ {
		var in []*Config
		for _, k := range order {
			in = append(in, ws[k].cfg.fork())
		}
		outs0 := len(fr.outs)
		back, ex := x.runRegion(fr, l, l.header, in)
		if x.over {
			return exits
		}
		changed := false
		for _, b := range back {
			k := x.phiSig(fr, l.header, b, 2)
			w, ok := ws[k]
			if !ok {
				ws[k] = &widened{cfg: b, syms: map[ssa.Value]*Term{}, hsyms: map[*Term]*Term{}}
				order = append(order, k)
				changed = true
				continue
			}
			if x.generalise(fr, l, w, b, round) {
				changed = true
			}
		}
		if !changed {
			return append(exits, ex...)
		}
		fr.outs = fr.outs[:outs0]
		if round > 25 {
			x.undecided("loop invariant not found", l.header.Instrs[0])
			return append(exits, ex...)
		}
	}
}

type widened struct {
	cfg   *Config
	syms  map[ssa.Value]*Term
	hsyms map[*Term]*Term
	vers  map[string]bool
}

// generalise weakens w so that it covers the back-edge configuration b.
func (x *Exec) generalise(fr *Frame, l *loopInfo, w *widened, b *Config, round int) bool {
	changed := false
	ws := w.cfg.st
	cover := func(old *Term, sym *Term, t *Term) (*Term, bool) {
		if old == t {
			return old, false
		}
		if sym == nil {
			kind := "phi"
			m := x.ts.sym(old.typ, kind, "", l.header.Instrs[0], old, t)
			x.escape(ws, old)
			x.escape(b.st, t)
			if f, ok := x.joinFact(ws, old, b.st, t); ok {
				ws.facts.set(m, f)
			}
			x.inductInts(ws, m, old, b.st, t)
			return m, true
		}
		// already symbolic: check its facts are inductive
		ch := false
		f0 := x.fact(ws, sym)
		f1, _ := x.joinFact(ws, sym, b.st, t)
		x.escape(b.st, t)
		if !factEq(f0, f1) {
			ws.facts.set(sym, f1)
			ws.ec = nil
			ch = true
		}
		var subj [][2]*Term
		if isInt(sym.typ) {
			subj = append(subj, [2]*Term{sym, t})
		} else if isString(sym.typ) || isSliceLike(sym.typ) {
			subj = append(subj, [2]*Term{x.lenTerm(ws, sym), x.lenTerm(b.st, t)})
		}
		for _, p := range subj {
			var drop []edgeKey
			ta, tc := x.lin(p[1])
			ws.edges.each(func(k edgeKey, c int64) {
				if k.a == p[0] {
					q := k.b
					d := x.bound(b.st, ta, q)
					if !(d < inf/2 && d+tc <= c) {
						drop = append(drop, k)
					}
				} else if k.b == p[0] {
					q := k.a
					d := x.bound(b.st, q, ta)
					if !(d < inf/2 && d-tc <= c) {
						drop = append(drop, k)
					}
				}
			})
			for _, k := range drop {
				ws.delEdge(k)
				ch = true
			}
		}
		return sym, ch
	}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		old, _ := w.cfg.env.get(p)
		t, _ := b.env.get(p)
		if old == nil || t == nil {
			continue
		}
		n, ch := cover(old, w.syms[p], t)
		if ch {
			changed = true
			if n != old {
				w.syms[p] = n
				w.cfg.env.set(p, n)
			}
		}
	}
	// heap
	var ks []*Term
	seen := map[*Term]bool{}
	ws.heap.each(func(k, v *Term) { ks = append(ks, k); seen[k] = true })
	b.st.heap.each(func(k, v *Term) {
		if seen[k] {
			return
		}
		base := baseObj(k)
		if base.op == OAlloc {
			if _, ok := ws.esc.get(base); ok {
				ks = append(ks, k)
			}
		}
	})
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		old := x.peekHeap(ws, k)
		t := x.peekHeap(b.st, k)
		if old == nil {
			continue
		}
		if t == nil {
			ws.heap.del(k)
			x.verN++
			ws.ver.set(x.ts.classOf(k), x.verN)
			ws.ver.set("#", x.verN)
			changed = true
			continue
		}
		if old == t {
			continue
		}
		if _, had := ws.heap.get(k); had || baseObj(k).op == OAlloc {
			n, ch := cover(old, w.hsyms[k], t)
			if ch {
				changed = true
				if n != old {
					w.hsyms[k] = n
					ws.heap.set(k, n)
				}
			}
		}
	}
	// versions and escapes
	exists := map[string]bool{}
	ws.esc.each(func(k *Term, _ bool) { exists["alloc"+fmt.Sprint(k.id)] = true })
	b.st.ver.each(func(k string, v int) {
		if strings.HasPrefix(k, "alloc") && !exists[k] {
			return
		}
		if o, _ := ws.ver.get(k); o != v {
			if !w.vers[k] {
				if w.vers == nil {
					w.vers = map[string]bool{}
				}
				x.verN++
				ws.ver.set(k, x.verN)
				w.vers[k] = true
				changed = true
			}
		}
	})
	b.st.esc.each(func(k *Term, v bool) {
		if o, ok := ws.esc.get(k); ok && v && !o {
			ws.esc.set(k, true)
			changed = true
		}
	})
	return changed
}

func factEq(a, b Fact) bool {
	if a.kinds != b.kinds || a.nil_ != b.nil_ || a.cst != b.cst || a.prov != b.prov || a.box != b.box || len(a.ne) != len(b.ne) {
		return false
	}
	if (a.dyn == nil) != (b.dyn == nil) {
		return false
	}
	return true
}

// inductInts proposes bounds for a loop variable: relations between its first
// value and everything known at entry, plus "not below/above the entry value".
func (x *Exec) inductInts(ws *State, m, old *Term, bs *State, t *Term) {
	var ms, os, tt *Term
	switch {
	case isInt(m.typ):
		ms, os, tt = m, old, t
	case isString(m.typ) || isSliceLike(m.typ):
		ms, os, tt = x.lenTerm(ws, m), x.lenTerm(ws, old), x.lenTerm(bs, t)
	default:
		return
	}
	oa, oc := x.lin(os)
	ta, tc := x.lin(tt)
	cand := map[*Term]bool{x.zero: true, oa: true}
	ws.edges.each(func(k edgeKey, _ int64) {
		if k.a == oa {
			cand[k.b] = true
		}
		if k.b == oa {
			cand[k.a] = true
		}
	})
	for q := range cand {
		if q == ms {
			continue
		}
		// upper: m - q <= u
		u := x.bound(ws, oa, q)
		if u < inf/2 {
			u += oc
			d := x.bound(bs, ta, q)
			if d < inf/2 && d+tc <= u {
				ws.setEdge(edgeKey{ms, q}, u)
			}
		}
		lo := x.bound(ws, q, oa)
		if lo < inf/2 {
			lo -= oc
			d := x.bound(bs, q, ta)
			if d < inf/2 && d-tc <= lo {
				ws.setEdge(edgeKey{q, ms}, lo)
			}
		}
	}
}

func (x *Exec) undecided(why string, in ssa.Instruction) {
	x.rep.Undecided(x, why, in)
}

// ---- blocks ---------------------------------------------------------------------

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, c *Config) []edgeTo {
	cfgs := []*Config{c}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		x.steps++
		if x.stat != nil {
			x.stat[fr.fn.Name()]++
		}
		if x.steps > x.maxSteps {
			if !x.over {
				x.over = true
				x.undecided("analysis budget exceeded", in)
			}
			return nil
		}
		switch i := in.(type) {
		case *ssa.If:
			var outs []edgeTo
			for _, c := range cfgs {
				t := x.val(c, i.Cond)
				d := x.decide(c.st, t)
				if x.rules.Branch != nil {
					x.rules.Branch(x, fr, c.st, i, t, d)
				}
				if d >= 0 {
					n := c.fork()
					if x.assume(n.st, t, true) {
						if x.rules.Fork != nil && d == 0 {
							x.rules.Fork(x, n.st, t, true)
						}
						outs = append(outs, x.goTo(fr, b, b.Succs[0], n))
					}
				}
				if d <= 0 {
					n := c.fork()
					if x.assume(n.st, t, false) {
						if x.rules.Fork != nil && d == 0 {
							x.rules.Fork(x, n.st, t, false)
						}
						outs = append(outs, x.goTo(fr, b, b.Succs[1], n))
					}
				}
			}
			return outs
		case *ssa.Jump:
			var outs []edgeTo
			for _, c := range cfgs {
				outs = append(outs, x.goTo(fr, b, b.Succs[0], c))
			}
			return outs
		case *ssa.Return:
			for _, c := range cfgs {
				var rs []*Term
				for _, r := range i.Results {
					rs = append(rs, x.settled(c.st, x.val(c, r)))
				}
				if x.rules.Return != nil {
					x.rules.Return(x, fr, c.st, i, rs)
				}
				fr.outs = append(fr.outs, Outcome{st: c.st, rets: rs})
			}
			return nil
		case *ssa.Panic:
			for _, c := range cfgs {
				if x.rules.Panic != nil {
					x.rules.Panic(x, fr, c.st, i)
				}
				x.unwind(fr, c, i)
			}
			return nil
		case *ssa.RunDefers:
			var next []*Config
			for _, c := range cfgs {
				next = append(next, x.runDefers(fr, c)...)
			}
			cfgs = next
		default:
			var next []*Config
			for _, c := range cfgs {
				next = append(next, x.instr(fr, c, in)...)
			}
			cfgs = next
			if len(cfgs) > 24 {
				cfgs = x.collapse(cfgs)
			}
		}
		if len(cfgs) == 0 {
			return nil
		}
	}
	return nil
}

// collapse merges configs at the same instruction when there are too many.
func (x *Exec) collapse(cfgs []*Config) []*Config {
	groups := map[string]*Config{}
	var keys []string
	for _, c := range cfgs {
		k := c.st.mon.key() + fmt.Sprint(len(c.defers))
		if g, ok := groups[k]; ok {
			groups[k] = x.joinConfig(g, c)
		} else {
			groups[k] = c
			keys = append(keys, k)
		}
	}
	var out []*Config
	for _, k := range keys {
		out = append(out, groups[k])
	}
	return out
}

func (x *Exec) goTo(fr *Frame, from, to *ssa.BasicBlock, c *Config) edgeTo {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type asg struct {
		p *ssa.Phi
		v *Term
	}
	var as []asg
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, x.settled(c.st, x.val(c, p.Edges[pi]))})
	}
	if len(as) > 0 {
		c = &Config{env: c.env.fork(), st: c.st, defers: c.defers}
		for _, a := range as {
			c.env.set(a.p, a.v)
		}
	}
	return edgeTo{from, to, c}
}

// unwind propagates a panic out of the frame, running deferred calls.
func (x *Exec) unwind(fr *Frame, c *Config, site ssa.Instruction) {
	c = c.fork()
	m := c.st.mon.clone()
	m.pan = true
	c.st.mon = m
	for _, d := range x.runDefers(fr, c) {
		if d.st.mon.pan {
			fr.outs = append(fr.outs, Outcome{st: d.st, panicked: true})
			continue
		}
		// recovered: return the named results
		if fr.fn.Recover != nil {
			x.runRecover(fr, d)
		} else {
			var rs []*Term
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, x.ts.zeroOf(res.At(i).Type()))
			}
			fr.outs = append(fr.outs, Outcome{st: d.st, rets: rs})
		}
	}
}

func (x *Exec) runRecover(fr *Frame, c *Config) {
	b := fr.fn.Recover
	var rs []*Term
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Return:
			for _, r := range i.Results {
				rs = append(rs, x.settled(c.st, x.val(c, r)))
			}
			if x.rules.Return != nil {
				x.rules.Return(x, fr, c.st, i, rs)
			}
			fr.outs = append(fr.outs, Outcome{st: c.st, rets: rs})
			return
		default:
			cs := x.instr(fr, c, in)
			if len(cs) == 0 {
				return
			}
			c = cs[0]
		}
	}
}

func (x *Exec) runDefers(fr *Frame, c *Config) []*Config {
	cfgs := []*Config{c}
	ds := c.defers
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*Config
		for _, c := range cfgs {
			d := ds[i]
			n := c.fork()
			n.defers = ds[:i]
			x.inDefer++
			outs := x.dispatch(fr, n.st, d.common, d.fnTerm, d.args, d.site)
			x.inDefer--
			for _, o := range outs {
				cc := &Config{env: n.env.fork(), st: o.st, defers: ds[:i]}
				if o.panicked {
					m := cc.st.mon.clone()
					m.pan = true
					cc.st.mon = m
				}
				next = append(next, cc)
			}
		}
		cfgs = next
	}
	return cfgs
}

func (x *Exec) val(c *Config, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.ts.zeroOf(v.Type())
		}
		return x.ts.constv(v.Value, v.Type())
	case *ssa.Global:
		return x.ts.mk(OGlobal, v.Type(), v.Name(), 0)
	case *ssa.Function:
		t := x.ts.mk(OFunc, v.Type(), v.String(), 0)
		t.fn = v
		return t
	case *ssa.Builtin:
		return x.ts.mk(OFunc, types.Typ[types.Int], "builtin."+v.Name(), 0)
	}
	t, ok := c.env.get(v)
	if !ok {
		t = x.ts.sym(v.Type(), "lost", v.Name(), nil)
		c.env.set(v, t)
	}
	return t
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GDEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// refineFact combines two facts that both hold of one value.
func refineFact(a, b Fact) Fact {
	r := a
	if b.kinds != 0 {
		if r.kinds == 0 {
			r.kinds = b.kinds
		} else if k := r.kinds & b.kinds; k != 0 {
			r.kinds = k
		}
	}
	if r.nil_ == 0 {
		r.nil_ = b.nil_
	}
	if r.cst == nil {
		r.cst = b.cst
	}
	if r.dyn == nil {
		r.dyn = b.dyn
	}
	if r.box == "" {
		r.box = b.box
	}
	if r.prov == 0 {
		r.prov = b.prov
	}
	if len(r.ne) == 0 {
		r.ne = b.ne
	}
	return r
}

// settled replaces a condition the path has decided by its value.
func (x *Exec) settled(s *State, t *Term) *Term {
	if t != nil && t.op != OConst && isBool(t.typ) {
		switch x.decide(s, t) {
		case 1:
			return x.ts.boolc(true)
		case -1:
			return x.ts.boolc(false)
		}
	}
	return t
}
