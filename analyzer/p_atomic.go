package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// contains reports whether a term has a subterm satisfying f.
func (t *Term) contains(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.contains(f) {
			return true
		}
	}
	return false
}

// checkAtomicUpdate: what is written into a shared table must not be computed
// from an entry read in an earlier critical section, and an entry of the symbol
// table is only made where the name was found absent in this critical section.
func checkAtomicUpdate(x *Exec, s *State, c *Config, mu *ssa.MapUpdate, m *Term) {
	v, k := x.val(c, mu.Value), x.val(c, mu.Key)
	cur := int64(x.version(s, "map "+x.ts.tname(m.typ)))
	x.rep.ObI("one-section-update", mu)
	if v.contains(func(t *Term) bool { return t.op == OLookup && sameMap(t.args[0], m) && t.iaux != cur }) {
		x.rep.ViolX(x, "one-section-update", mu, "an entry of a shared table is replaced by a value computed from one read before the lock was taken")
	}
	if x.root == "function Intern" {
		x.rep.ObI("insert-absent", mu)
		absent := false
		if os.Getenv("GDEBUG") == "2" {
			debugf("cur=%d m=%s k=%s", cur, m, k)
			s.facts.each(func(t *Term, f Fact) { debugf("fact %s op=%d iaux=%d nil=%d", t, t.op, t.iaux, x.nilness(s, t)) })
			s.conds.each(func(t *Term, b bool) { debugf("cond %s %v", t, b) })
		}
		s.facts.each(func(t *Term, f Fact) {
			if t.op == OLookup && t.iaux == cur && sameMap(t.args[0], m) && t.args[1] == k && x.nilness(s, t) < 0 {
				absent = true
			}
		})
		s.conds.each(func(t *Term, b bool) {
			if t.op == OLookupOk && t.iaux == cur && sameMap(t.args[0], m) && t.args[1] == k && !b {
				absent = true
			}
		})
		// existing, ok := table[name]; ok && existing != nil: the paths where there is
		// no entry and where the entry is empty come together as a value known to be nil
		s.facts.each(func(t *Term, f Fact) {
			if x.nilness(s, t) >= 0 {
				return
			}
			n, only := 0, true
			for _, a := range alts(t) {
				if a.op == OLookup && a.iaux == cur && sameMap(a.args[0], m) && a.args[1] == k {
					n++
				} else if !a.isNilConst() {
					only = false
				}
			}
			if n > 0 && only {
				absent = true
			}
		})
		if !absent {
			x.rep.ViolX(x, "insert-absent", mu, "a symbol is entered without having been found absent while the table was locked, so two processes can make two symbols of one name")
		}
		s.setTag("stored", fmt.Sprint(v.id))
	}
}

func sameMap(a, b *Term) bool {
	if a == b {
		return true
	}
	// loads of the same field, possibly of different versions
	return a.op == OLoad && b.op == OLoad && a.args[0] == b.args[0]
}

func checkIntern(x *Exec, s *State, in *ssa.Return, rs []*Term) {
	x.rep.ObI("interned-result", in)
	if len(rs) == 1 && (s.tag("stored") == fmt.Sprint(rs[0].id) || s.tag("stored") == "" && rs[0].op == OLookup) {
		return
	}
	x.rep.ViolX(x, "interned-result", in, "Intern can return a symbol that is not the one in the table")
}

// atomicClasses: storage that some code accesses with sync/atomic.
func (pr *Program) atomicClasses() map[string]bool {
	res := map[string]bool{}
	for _, f := range pr.all {
		eachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			if g == nil || extPkg(g) != "sync/atomic" || len(c.Common().Args) == 0 {
				return
			}
			if cl := ssaLockClass(c.Common().Args[0]); cl != "?" {
				res[cl] = true
			}
		})
	}
	return res
}

func checkPlain(pr *Program, rep *Report) {
	ac := pr.atomicClasses()
	for _, c := range sortedKeys(ac) {
		rep.Ob("atomic-variable", c)
	}
	for _, f := range pr.all {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			var addr ssa.Value
			how := ""
			switch i := in.(type) {
			case *ssa.UnOp:
				if i.Op == token.MUL {
					addr, how = i.X, "read"
				}
			case *ssa.Store:
				addr, how = i.Addr, "written"
			}
			if addr == nil || !ac[ssaLockClass(addr)] {
				return
			}
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				if _, ok := fa.X.(*ssa.Alloc); ok {
					return // being built
				}
			}
			rep.ObI("atomic-access", in)
			rep.Viol("atomic-access", pr.short(f)+": "+ssaLockClass(addr), pr.instrPos(in), fmt.Sprintf("%s is %s plainly here but accessed atomically elsewhere", ssaLockClass(addr), how), "-", "")
		})
	}
}

// payload gives the value carried by a result the analysed code built, or nil.
func (x *Exec) payload(s *State, d *Term) *Term {
	v := x.peekHeap(s, x.fieldAddr(d, x.pr.fValue))
	for v != nil && v.op == OConv {
		v = v.args[0]
	}
	if v == nil {
		return nil
	}
	if _, ok := v.typ.Underlying().(*types.Pointer); !ok {
		return nil
	}
	return x.peekHeap(s, v)
}

// boolResult: +1 the value is the true object, -1 the false object.
func (x *Exec) boolResult(s *State, d *Term) int {
	if d.op == OLoad && d.args[0].op == OGlobal {
		switch d.args[0].aux {
		case "LispTrue":
			return 1
		case "LispFalse":
			return -1
		}
	}
	if p := x.payload(s, d); p != nil && isBool(p.typ) {
		return x.decide(s, p)
	}
	return 0
}

var atomicOps = map[string]string{
	"atomic-load": "Load", "atomic-store!": "Store", "atomic-add!": "Add", "atomic-swap!": "Swap", "atomic-compare-and-swap!": "CompareAndSwap",
}

func atomicRules(pr *Program) *Rules {
	r := &Rules{Name: "atomic", NoInts: true, DataSig: boolSig}
	ops := map[string]*Term{}
	isCell := func(x *Exec, s *State, t *Term) bool {
		for t.op == OConv {
			t = t.args[0]
		}
		return t.op == OLoad && t.args[0].op == OFieldAddr && fieldClass(t.args[0].args[0].typ, int(t.args[0].iaux)) == "BoxedObject.Obj"
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && extPkg(ci.fn) == "sync/atomic" {
			name := ci.fn.Name()
			if ci.fn.Signature.Recv() != nil {
				name = strings.TrimPrefix(name, "")
			}
			for _, t := range []string{"Int64", "Int32", "Uint64", "Uint32", "Pointer", "Uintptr"} {
				name = strings.TrimSuffix(name, t)
			}
			s.setTag("atomic", s.tag("atomic")+name+";")
			sig := ci.common.Signature().Results()
			var rets []*Term
			for i := 0; i < sig.Len(); i++ {
				rets = append(rets, x.ts.sym(sig.At(i).Type(), "atomicres", name, ci.site, ci.args...))
			}
			want := atomicOps[strings.Split(strings.TrimPrefix(x.root, "builtin "), "/")[0]]
			if want == name {
				x.rep.ObI("atomic-operands", ci.site)
				if !isCell(x, s, ci.args[0]) {
					x.rep.ViolX(x, "atomic-operands", ci.site, "the atomic operation does not work on the object handed in")
				}
				for k := 1; k < len(ci.args); k++ {
					if !x.isArgPayload(ci.args[k], k) {
						x.rep.ViolX(x, "atomic-operands", ci.site, fmt.Sprintf("operand %d of the atomic operation is not the builtin's argument %d: %s", k, k+1, ci.args[k]))
					}
				}
			}
			if len(rets) == 1 {
				ops[fmt.Sprint(rets[0].id)] = rets[0]
				s.setTag("atomicres", fmt.Sprint(rets[0].id))
			}
			return one(s, rets...), true
		}
		return nil, false
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		var a *Term
		switch i := in.(type) {
		case *ssa.UnOp:
			if i.Op == token.MUL {
				a = x.val(c, i.X)
			}
		case *ssa.Store:
			a = x.val(c, i.Addr)
		}
		if a != nil && isCell(x, c.st, a) {
			x.rep.ViolX(x, "atomic-single", in, "the object's value is accessed plainly")
		}
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) != 1 || len(rs) != 2 || x.nilness(s, rs[1]) > 0 {
			return
		}
		name := strings.Split(strings.TrimPrefix(x.root, "builtin "), "/")[0]
		want := atomicOps[name]
		x.rep.ObI("atomic-single", in)
		if s.tag("atomic") != want+";" {
			x.rep.ViolX(x, "atomic-single", in, fmt.Sprintf("%s succeeds after the atomic steps %q instead of exactly one %s", name, s.tag("atomic"), want))
			return
		}
		res := ops[s.tag("atomicres")]
		if res == nil || want == "Store" {
			return
		}
		if isBool(res.typ) {
			if d := x.boolResult(s, rs[0]); d == 0 || d != x.decide(s, res) {
				x.rep.ViolX(x, "atomic-result", in, name+" does not return the outcome of its atomic step")
			}
			return
		}
		if x.payload(s, rs[0]) != res {
			x.rep.ViolX(x, "atomic-result", in, name+" does not return the value its atomic step produced")
		}
	}
	return r
}

// narrows: converting from a to b can lose part of a whole number.
func narrows(a, b types.Type) bool {
	size := func(t types.Type) int {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Int32: 4, types.Uint32: 4}[bt.Kind()]
		}
		return -1
	}
	x, y := size(a), size(b)
	return x >= 0 && y > 0 && (x == 0 || y < x)
}

// isArgPayload: t is the number carried by the builtin's k-th argument (from 0).
func (x *Exec) isArgPayload(t *Term, k int) bool {
	for t.op == OConv {
		if narrows(t.args[0].typ, t.typ) {
			return false
		}
		t = t.args[0]
	}
	if t.op != OLoad {
		return false
	}
	p := t.args[0]
	for p.op == OConv {
		p = p.args[0]
	}
	if p.op != OLoad || p.args[0].op != OFieldAddr || int(p.args[0].iaux) != x.pr.fValue {
		return false
	}
	d := p.args[0].args[0]
	return x.argIndex(d) == k
}

// argIndex: the position of an argument element, or -1.
func (x *Exec) argIndex(d *Term) int {
	if d.op == OSym && d.info != nil && d.info.kind == "arg" {
		var n int
		if _, err := fmt.Sscan(d.info.note, &n); err == nil {
			return n - 1
		}
	}
	return -1
}

var _ = constant.MakeBool

func init() {
	props["C08"] = &Prop{id: "C08", run: func(pr *Program, rep *Report, th bool) {
		runLocks(pr, rep, "C08")
		checkPlain(pr, rep)
		seen := map[string]bool{}
		roots := pr.primRoots(func(r *Registration) bool {
			if atomicOps[r.name] != "" {
				seen[r.name] = true
				return true
			}
			return false
		})
		if len(seen) != len(atomicOps) {
			rep.Viol("anchors", "atomic builtins", "-", "some atomic-* builtins are no longer registered", "-", "")
		}
		runRoots(pr, rep, roots, func() *Rules { return atomicRules(pr) })
	}}
}

// boolSig keeps apart results that are the true and the false object.
func boolSig(x *Exec, s *State, t *Term) string {
	if t.op == OLoad && t.args[0].op == OGlobal {
		return t.args[0].aux
	}
	return ""
}
