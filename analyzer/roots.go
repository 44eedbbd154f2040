package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Root is one entry point analysed from an abstract initial state.
type Root struct {
	name string
	fn   *ssa.Function
	reg  *Registration
	n    int  // number of materialised arguments
	tail bool // followed by an unknown number of further arguments
	nils bool // arguments may be nil pointers
	init func(x *Exec, s *State, args []*Term)
	run  func(x *Exec)
}

// alternatives expands an argument-count specification.
type arity struct {
	n    int
	tail bool
}

func parseArity(spec string) ([]arity, bool) {
	var out []arity
	seen := map[arity]bool{}
	add := func(a arity) {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	for _, t := range strings.Split(spec, "|") {
		var n, hi int
		if t == "*" {
			add(arity{0, false})
			add(arity{1, false})
			add(arity{1, true})
			return out, true
		}
		if k, _ := fmt.Sscanf(t, "(%d,%d)", &n, &hi); k == 2 {
			for i := n; i <= hi; i++ {
				add(arity{i, false})
			}
			continue
		}
		if k, _ := fmt.Sscanf(t, ">=%d", &n); k == 1 {
			add(arity{n, false})
			add(arity{n, true})
			continue
		}
		if k, _ := fmt.Sscanf(t, "%d", &n); k == 1 {
			add(arity{n, false})
			continue
		}
		return nil, false
	}
	return out, true
}

func (x *Exec) allocT(s *State, n *types.Named) *Term {
	t := x.ts.alloc(x.pr.ptrTo(n), nil)
	s.esc.set(t, false)
	return t
}

// cons builds a pair object in the abstract heap.
func (x *Exec) cons(s *State, car, cdr *Term) *Term {
	d := x.allocT(s, x.pr.dataT)
	c := x.allocT(s, x.pr.consT)
	s.heap.set(x.fieldAddr(c, 0), car)
	s.heap.set(x.fieldAddr(c, 1), cdr)
	st := x.pr.dataT.Underlying().(*types.Struct)
	s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum["ConsCell"]), st.Field(x.pr.fType).Type()))
	s.heap.set(x.fieldAddr(d, x.pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, c))
	return d
}

func (x *Exec) dataPtr() types.Type { return x.pr.ptrTo(x.pr.dataT) }

// argList builds the argument list a primitive body receives.
func (x *Exec) argList(s *State, n int, tail bool, prov uint8, kinds uint32) (*Term, []*Term) {
	x.argCells = map[*Term]bool{}
	nilD := x.ts.nilOf(x.dataPtr())
	if n == 0 && !tail {
		e := x.cons(s, nilD, nilD)
		return e, nil
	}
	rest := nilD
	if tail {
		t := x.ts.sym(x.dataPtr(), "argtail", "", nil)
		x.setKinds(s, t, x.pr.kind("ConsCell"))
		x.addProv(s, t, pArgSpine)
		rest = t
	}
	var els []*Term
	for i := 0; i < n; i++ {
		e := x.ts.sym(x.dataPtr(), "arg", fmt.Sprint(i+1), nil)
		x.setKinds(s, e, kinds)
		x.addProv(s, e, prov)
		els = append(els, e)
	}
	l := rest
	for i := n - 1; i >= 0; i-- {
		l = x.cons(s, els[i], l)
		x.argCells[l] = true
	}
	return l, els
}

func (x *Exec) paramSym(s *State, p *ssa.Parameter) *Term {
	t := x.ts.sym(p.Type(), "param", p.Name(), nil)
	if !x.isData(p.Type()) && isNillable(p.Type()) {
		x.setNil(s, t, false)
	}
	return t
}

func (pr *Program) isPrimSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 2 {
		return false
	}
	return pr.isPtrTo(sig.Params().At(0).Type(), pr.dataT) && pr.isPtrTo(sig.Params().At(1).Type(), pr.envT) &&
		pr.isPtrTo(sig.Results().At(0).Type(), pr.dataT) && isError(sig.Results().At(1).Type())
}

func (pr *Program) isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	m, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && m == n
}

// findRegistrations interprets the start-up code and collects every builtin it
// registers.
func (pr *Program) findRegistrations(rep *Report) error {
	init := pr.fn("InitBuiltins")
	if init == nil {
		init = pr.fn("InitLisp")
	}
	if init == nil {
		return fmt.Errorf("anchor missing: InitBuiltins")
	}
	body := pr.fieldIdx(pr.primT, "Body")
	nameF := pr.fieldIdx(pr.primT, "Name")
	spF := pr.fieldIdx(pr.primT, "Special")
	rsF := pr.fieldIdx(pr.primT, "IsRestricted")
	rules := &Rules{Name: "registration"}
	var errs []string
	inside := false
	rules.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn == nil || !pr.inRepo(ci.fn) {
			return nil, false
		}
		sig := ci.fn.Signature
		if inside {
			for i := 0; i < sig.Params().Len(); i++ {
				if fs, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok && pr.isPrimSig(fs) {
					return nil, false
				}
			}
			for i := 0; i < sig.Results().Len(); i++ {
				if pr.isPtrTo(sig.Results().At(i).Type(), pr.primT) {
					return nil, false
				}
			}
			var rets []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				rets = append(rets, x.ts.sym(sig.Results().At(i).Type(), "skip", "", ci.site))
			}
			return []Outcome{{st: s, rets: rets}}, true
		}
		if sig.Params().Len() != 3 || !isString(sig.Params().At(0).Type()) || !isString(sig.Params().At(1).Type()) {
			return nil, false
		}
		fs, ok := sig.Params().At(2).Type().Underlying().(*types.Signature)
		if !ok || !pr.isPrimSig(fs) {
			return nil, false
		}
		nm, ok1 := ci.args[0].strConst()
		ar, ok2 := ci.args[1].strConst()
		f := ci.args[2]
		for f.op == OConv {
			f = f.args[0]
		}
		if !ok1 || !ok2 || (f.op != OFunc && f.op != OClosure) {
			errs = append(errs, fmt.Sprintf("%s: registration whose name, arity or function is not constant", pr.instrPos(ci.site)))
			return one(s), true
		}
		reg := &Registration{name: nm, args: ar, fn: f.fn, site: ci.site.Pos(), maker: ci.fn}
		if f.op == OClosure {
			reg.bind = f.args
			for _, b := range f.args {
				v, ok := s.heap.get(b)
				if !ok || !finalCell(b) {
					v = nil
				}
				reg.bindVal = append(reg.bindVal, v)
			}
		}
		inside = true
		outs := x.runFunction(ci.fn, ci.args, nil, x.newState(), ci.site)
		inside = false
		found := false
		for _, o := range outs {
			o.st.heap.each(func(k, v *Term) {
				if k.op != OFieldAddr || int(k.iaux) != body {
					return
				}
				if _, n := structOf(k.args[0].typ); n != pr.primT {
					return
				}
				b := v
				for b.op == OConv {
					b = b.args[0]
				}
				if b != f {
					return
				}
				n2 := x.load(o.st, x.fieldAddr(k.args[0], nameF))
				if t, ok := n2.strConst(); !ok || t != nm {
					return
				}
				sp, oks := x.load(o.st, x.fieldAddr(k.args[0], spF)).boolConst()
				rs, okr := x.load(o.st, x.fieldAddr(k.args[0], rsF)).boolConst()
				if oks && okr {
					reg.special, reg.restricted = sp, rs
					found = true
				}
			})
		}
		if !found {
			errs = append(errs, fmt.Sprintf("%s: could not resolve how %q is registered", pr.instrPos(ci.site), nm))
		}
		pr.regs = append(pr.regs, reg)
		return one(s), true
	}
	x := newExec(pr, rules, rep)
	x.root = "InitBuiltins"
	x.maxUnroll = 1000
	x.runFunction(init, nil, nil, x.newState(), nil)
	if len(errs) > 0 {
		return fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	if len(pr.regs) < 250 {
		return fmt.Errorf("only %d builtins found (about 300 expected)", len(pr.regs))
	}
	sort.SliceStable(pr.regs, func(i, j int) bool { return pr.regs[i].name < pr.regs[j].name })
	return nil
}

// primRoots gives one root per builtin and way of calling it.
func (pr *Program) primRoots(filter func(*Registration) bool) []Root {
	var out []Root
	for _, r := range pr.regs {
		if filter != nil && !filter(r) {
			continue
		}
		as, ok := parseArity(r.args)
		if !ok {
			as = []arity{{0, false}, {1, true}}
		}
		for _, a := range as {
			nm := fmt.Sprintf("builtin %s/%d", r.name, a.n)
			if a.tail {
				nm += "+"
			}
			out = append(out, Root{name: nm, fn: r.fn, reg: r, n: a.n, tail: a.tail})
		}
	}
	return out
}

func (x *Exec) startRoot(rt Root) {
	x.root = rt.name
	x.rep.roots[rt.name] = true
	if rt.run != nil {
		rt.run(x)
		return
	}
	s := x.newState()
	var args []*Term
	if rt.reg != nil {
		prov := uint8(pValue)
		if rt.reg.special {
			prov = pSyntax
		}
		kinds := uint32(kindNonNil)
		if rt.nils {
			kinds = kindAll
		}
		l, _ := x.argList(s, rt.n, rt.tail, prov, kinds)
		env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
		x.setNil(s, env, false)
		args = []*Term{l, env}
	} else {
		for _, p := range rt.fn.Params {
			args = append(args, x.paramSym(s, p))
		}
	}
	if rt.init != nil {
		rt.init(x, s, args)
	}
	x.runFunction(rt.fn, args, rt.reg.bindIn(x, s), s, nil)
}

// bindIn gives the captured variables of a builtin's closure in the state a
// root starts in; what a variable that is assigned once holds is known.
func (reg *Registration) bindIn(x *Exec, s *State) []*Term {
	if reg == nil {
		return nil
	}
	var out []*Term
	for i, b := range reg.bind {
		if b.op != OAlloc {
			out = append(out, x.ts.sym(b.typ, "captured", "", nil))
			continue
		}
		t := x.ts.alloc(b.typ, b.site)
		s.esc.set(t, false)
		if v := reg.bindVal[i]; v != nil && (v.op == OFunc && v.fn != nil || v.op == OConst) {
			if v.op == OFunc {
				f := x.ts.mk(OFunc, v.typ, v.aux, v.iaux)
				f.fn = v.fn
				v = f
			} else if v.cval != nil {
				v = x.ts.constv(v.cval, v.typ)
			} else {
				v = x.ts.nilOf(v.typ)
			}
			s.heap.set(t, v)
		} else {
			s.heap.set(t, x.ts.sym(elemOf(b.typ), "captured", "", nil))
		}
		out = append(out, t)
	}
	return out
}

// finalCell: the variable is stored to exactly once, by the function that
// declares it.
func finalCell(t *Term) bool {
	a, ok := t.site.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	stores := 0
	var walk func(v ssa.Value, own bool) bool
	walk = func(v ssa.Value, own bool) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
				stores++
				if !own {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !walk(f.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return walk(a, true) && stores == 1
}

// runRoots interprets all roots in parallel.
func runRoots(pr *Program, rep *Report, roots []Root, mk func() *Rules) {
	ch := make(chan Root)
	var wg sync.WaitGroup
	var overs atomic.Int32
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for rt := range ch {
				if overs.Load() > 24 { // the verdict is given; the rest would only take time
					continue
				}
				c := rep.child()
				func() {
					defer func() {
						if e := recover(); e != nil {
							buf := make([]byte, 4000)
							n := runtime.Stack(buf, false)
							debugf("%s", buf[:n])
							c.Viol("undecided", rt.name, "-", fmt.Sprintf("internal error while analysing: %v", e), rt.name, "")
						}
					}()
					x := newExec(pr, mk(), c)
					if x.rules.MaxRec > 0 {
						x.maxUnroll = 64
						if x.rules.Endless {
							x.maxUnroll = 300
						}
					}
					t0 := time.Now()
					debugf("start %s", rt.name)
					x.startRoot(rt)
					debugf("end %s", rt.name)
					if x.over {
						overs.Add(1)
					}
					if x.stat != nil {
						ks := sortedInts(x.stat)
						debugf("%s: %s", rt.name, strings.Join(ks, " "))
					}
					if d := time.Since(t0); d > 2*time.Second {
						debugf("slow root %s: %v steps=%d", rt.name, d, x.steps)
					}
				}()
				rep.merge(c)
			}
		}()
	}
	for _, r := range roots {
		if onlyRoot != "" && !strings.Contains(r.name, onlyRoot) {
			continue
		}
		ch <- r
	}
	close(ch)
	wg.Wait()
}

var _ = constant.MakeBool

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedInts(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return ks
}
