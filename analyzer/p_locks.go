package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline: which tables are guarded by which lock, which locks are held
// where (per path, with the identity of the object), and what happens inside.

func mutexKind(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		switch n.Obj().Name() {
		case "Mutex", "RWMutex":
			return n.Obj().Name()
		}
	}
	return ""
}

// lockOp recognises an operation on a lock.
func lockOp(name string) string {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock"
	case "(*sync.RWMutex).RLock":
		return "RLock"
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock", "(*sync.RWMutex).RLocker":
		return "other"
	}
	return ""
}

// guardField gives the index of the mutex field of a struct that has map
// fields, or -1.
func guardField(t types.Type) int {
	s, _ := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if mutexKind(s.Field(i).Type()) != "" {
			return i
		}
	}
	return -1
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

type lockShared struct {
	mu      sync.Mutex
	global  map[string]map[string]bool // global map -> locks common to all accesses
	access  map[string][]string
	written map[string]bool
	edges   map[string]string // "A -> B" -> where
}

// guardedTypes: the types of map fields that have a mutex beside them.
func (pr *Program) guardedTypes() (map[string]bool, []string) {
	res := map[string]bool{}
	var names []string
	for _, n := range pr.lisp.Pkg.Scope().Names() {
		tn, ok := pr.lisp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok || guardField(tn.Type()) < 0 {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isMap(s.Field(i).Type()) {
				res[s.Field(i).Type().String()] = true
				names = append(names, n+"."+s.Field(i).Name())
			}
		}
	}
	sort.Strings(names)
	return res, names
}

// mapAccess gives the map operand of an instruction that touches a map.
func mapAccess(in ssa.Instruction) (m ssa.Value, write bool) {
	switch i := in.(type) {
	case *ssa.Lookup:
		if isMap(i.X.Type()) {
			return i.X, false
		}
	case *ssa.MapUpdate:
		return i.Map, true
	case *ssa.Range:
		if isMap(i.X.Type()) {
			return i.X, false
		}
	case *ssa.Next:
		if r, ok := i.Iter.(*ssa.Range); ok && isMap(r.X.Type()) {
			return r.X, false
		}
	case ssa.CallInstruction:
		if b, ok := i.Common().Value.(*ssa.Builtin); ok && len(i.Common().Args) > 0 && isMap(i.Common().Args[0].Type()) {
			switch b.Name() {
			case "delete", "clear":
				return i.Common().Args[0], true
			case "len":
				return i.Common().Args[0], false
			}
		}
	}
	return nil, false
}

// mapGlobal: the package variable a map value is read from, if any.
func (pr *Program) touchesShared(fn *ssa.Function) bool {
	gt, _ := pr.guardedTypes()
	hit := false
	eachInstr(fn, func(in ssa.Instruction) {
		if m, _ := mapAccess(in); m != nil {
			if gt[m.Type().String()] {
				hit = true
			}
			if u, ok := m.(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.Global); ok {
					hit = true
				}
			}
			if _, ok := m.(*ssa.Parameter); ok {
				hit = true
			}
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && lockOp(fnName(f)) != "" {
				hit = true
			}
		}
	})
	return hit
}

// ownerLock finds the lock guarding a map value.  state: "private" (nobody else
// can see it), "guarded" (lock given), "global" (a package variable), "none".
func (x *Exec) ownerLock(s *State, m *Term) (string, *Term) {
	for m.op == OConv {
		m = m.args[0]
	}
	if m.isNilConst() {
		return "private", nil
	}
	if m.op == OAlloc {
		if e, ok := s.esc.get(m); ok && !e {
			return "private", nil
		}
		var found *Term
		private := false
		s.heap.each(func(k, v *Term) {
			if v == m && k.op == OFieldAddr {
				if g := guardField(k.args[0].typ); g >= 0 {
					if x.private(s, baseObj(k)) {
						private = true
					}
					found = x.fieldAddr(k.args[0], g)
				}
			}
		})
		if private {
			return "private", nil
		}
		if found != nil {
			return "guarded", found
		}
		return "none", nil
	}
	if m.op == OLoad {
		a := m.args[0]
		if a.op == OFieldAddr {
			if g := guardField(a.args[0].typ); g >= 0 {
				if x.private(s, baseObj(a)) {
					return "private", nil
				}
				return "guarded", x.fieldAddr(a.args[0], g)
			}
		}
		if a.op == OGlobal {
			return "global", a
		}
	}
	return "none", nil
}

func lockRules(pr *Program, prop string, sh *lockShared, relevant map[*ssa.Function]bool, acquires map[*ssa.Function]map[string]bool, isRoot, reach map[*ssa.Function]bool) *Rules {
	gt, _ := pr.guardedTypes()
	on6, on7, on8 := prop == "C06", prop == "C07", prop == "C08"
	r := &Rules{Name: "locks", NoInts: true}
	if on8 {
		r.DataSig = func(x *Exec, s *State, t *Term) string {
			if t.op == OLookup {
				return fmt.Sprint("lk", t.iaux)
			}
			return ""
		}
	}
	holds := func(s *State, l *Term, write bool) bool {
		for _, h := range s.mon.held {
			if h.addr == l && (h.write || !write) {
				return true
			}
		}
		return false
	}
	endCheck := func(x *Exec, s *State, in ssa.Instruction, what string) {
		if !on6 {
			return
		}
		x.rep.ObI("released", in)
		for _, h := range s.mon.held {
			x.rep.ViolX(x, "released", in, fmt.Sprintf("%s with the lock taken at %s still held", what, h.where))
		}
	}
	edge := func(x *Exec, s *State, h Held, to string, in ssa.Instruction) {
		sh.mu.Lock()
		k := x.ts.classOf(h.addr) + " -> " + to
		if sh.edges[k] == "" {
			sh.edges[k] = x.pr.instrPos(in) + " in " + x.pr.short(in.Parent())
		}
		sh.mu.Unlock()
	}
	blocking := func(x *Exec, s *State, in ssa.Instruction, what string) {
		if !on7 {
			return
		}
		x.rep.ObI("blocking", in)
		for _, h := range s.mon.held {
			x.rep.ViolX(x, "blocking", in, fmt.Sprintf("%s while the lock taken at %s is held", what, h.where))
			break
		}
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		s := c.st
		if mv, write := mapAccess(in); mv != nil {
			m := x.val(c, mv)
			st, l := x.ownerLock(s, m)
			switch st {
			case "guarded":
				if on6 {
					x.rep.ObI("guarded-access", in)
					if !holds(s, l, write) {
						how := "read"
						if write {
							how = "written"
						}
						x.rep.ViolX(x, "guarded-access", in, fmt.Sprintf("the shared table %s is %s without holding its lock (%s)", m, how, x.ts.classOf(l)))
					}
				}
			case "global":
				sh.mu.Lock()
				held := map[string]bool{}
				for _, h := range s.mon.held {
					if h.write || !write {
						held[h.addr.String()] = true
					}
				}
				if old, ok := sh.global[l.aux]; ok {
					for k := range old {
						if !held[k] {
							delete(old, k)
						}
					}
				} else {
					sh.global[l.aux] = held
				}
				if write {
					sh.written[l.aux] = true
				}
				sh.access[l.aux] = append(sh.access[l.aux], x.pr.instrPos(in)+" in "+x.pr.short(in.Parent()))
				sh.mu.Unlock()
			case "none":
				if on6 && gt[mv.Type().String()] && len(x.stack) > 0 {
					x.rep.ViolX(x, "guarded-access", in, fmt.Sprintf("the owner of the table %s cannot be determined", m))
				}
			}
			if on8 {
				if mu, ok := in.(*ssa.MapUpdate); ok && (st == "guarded" || st == "global") {
					checkAtomicUpdate(x, s, c, mu, m)
				}
			}
		}
		switch i := in.(type) {
		case *ssa.Send:
			blocking(x, s, in, "a channel send")
		case *ssa.UnOp:
			if i.Op.String() == "<-" {
				blocking(x, s, in, "a channel receive")
			}
		case *ssa.Select:
			if i.Blocking {
				blocking(x, s, in, "a blocking select")
			}
		}
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		op := lockOp(ci.name)
		if op != "" {
			if op == "other" {
				x.undecided("conditional locking is not modelled", ci.site)
				return nil, false
			}
			a := ci.args[0]
			where := x.pr.instrPos(ci.site)
			m := s.mon.clone()
			switch op {
			case "Lock", "RLock":
				if on7 {
					x.rep.ObI("nesting", ci.site)
					for _, h := range m.held {
						if x.ts.classOf(h.addr) == x.ts.classOf(a) {
							if !x.below(h.addr, a) {
								x.rep.ViolX(x, "nesting", ci.site, fmt.Sprintf("a lock of %s is taken while one taken at %s is held, in no fixed order", x.ts.classOf(a), h.where))
							}
						} else {
							edge(x, s, h, x.ts.classOf(a), ci.site)
						}
					}
				}
				m.held = append(m.held, Held{addr: a, write: op == "Lock", where: where})
				// others may have run: everything guarded may have changed
				x.verN++
				s.ver.set("*", x.verN)
				s.ver.set("#", x.verN)
			default:
				k := -1
				for i, h := range m.held {
					if h.addr == a && h.write == (op == "Unlock") {
						k = i
					}
				}
				if k < 0 {
					if on6 {
						x.rep.ViolX(x, "released", ci.site, "a lock is released that is not held in that mode on this path")
					}
				} else {
					m.held = append(append([]Held(nil), m.held[:k]...), m.held[k+1:]...)
					m.kcache = ""
				}
				if on6 {
					x.rep.ObI("released", ci.site)
				}
			}
			s.mon = m
			return one(s), true
		}
		if ci.fn != nil && x.pr.inRepo(ci.fn) {
			n := x.pr.short(ci.fn)
			contract := evalLike[n] || readLike[n] || pureFns[n] || n == "Copy" || n == "Intern" || isRoot[ci.fn]
			if on7 && len(s.mon.held) > 0 && (contract || !relevant[ci.fn]) {
				x.rep.ObI("nesting", ci.site)
				if evalLike[n] {
					blocking(x, s, ci.site, "script code ("+n+") runs")
				} else {
					for cl := range acquires[ci.fn] {
						if cl == "eval" {
							blocking(x, s, ci.site, n+" can run script code")
							continue
						}
						if cl == "block" {
							blocking(x, s, ci.site, n+" can wait for another process")
							continue
						}
						for _, h := range s.mon.held {
							if x.ts.classOf(h.addr) == cl {
								if g := guardArg(ci); g >= 0 && x.below(h.addr, x.fieldAddr(ci.args[0], g)) {
									continue
								}
								x.rep.ViolX(x, "nesting", ci.site, fmt.Sprintf("%s can take a lock of %s while one taken at %s is held", n, cl, h.where))
							} else {
								edge(x, s, h, cl, ci.site)
							}
						}
					}
				}
			}
			if isRoot[ci.fn] || !contract && !relevant[ci.fn] {
				if !relevant[ci.fn] && !contract && !acquires[ci.fn]["eval"] && !acquires[ci.fn]["block"] && !reach[ci.fn] {
					// it cannot touch any lock or shared table
					for _, a := range ci.args {
						x.escape(s, a)
					}
					return x.after(fr, ci, x.genericResults(s, ci, "skip")), true
				}
				return x.after(fr, ci, x.unknownCall(s, ci, "skip")), true
			}
			return nil, false
		}
		if on7 && len(s.mon.held) > 0 {
			switch {
			case ci.name == "dynamic":
				blocking(x, s, ci.site, "an unknown function is called")
			case ci.name == "(*sync.WaitGroup).Wait", ci.name == "time.Sleep", ci.name == "(*sync.Cond).Wait", strings.HasPrefix(ci.name, "(*os/exec.Cmd)"):
				blocking(x, s, ci.site, ci.name)
			}
		}
		return nil, false
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) == 1 {
			endCheck(x, s, in, "returns")
		}
		if on8 && x.root == "function Intern" && len(x.stack) == 1 {
			checkIntern(x, s, in, rs)
		}
	}
	r.Panic = func(x *Exec, fr *Frame, s *State, in ssa.Instruction) {}
	r.After = func(x *Exec, fr *Frame, s *State, ci *CallInfo, rets []*Term) {
		if ci.name == "go:end" || ci.name == "go:panic" {
			endCheck(x, s, ci.site, "a process ends")
		}
	}
	return r
}

// below: b is the lock of an object reached from a's owner through a field that
// only ever points outwards (an environment's enclosing environment).
func (x *Exec) below(a, b *Term) bool {
	if a.op != OFieldAddr || b.op != OFieldAddr || a == b {
		return false
	}
	t := b.args[0]
	for i := 0; i < 10; i++ {
		if t == a.args[0] {
			return i > 0
		}
		if t.op == OLoad && t.args[0].op == OFieldAddr && x.pr.outward(fieldClass(t.args[0].args[0].typ, int(t.args[0].iaux))) {
			t = t.args[0].args[0]
			continue
		}
		break
	}
	return false
}

// outward fields are set only while the object is built, so following them
// always leads to an older object.
func (pr *Program) outward(class string) bool {
	return class == "SymbolTableFrame.Previous" && pr.immutable[class]
}

// lockRoots: where analysis starts: builtins, exported functions and functions
// nobody in the repository calls.
func (pr *Program) lockRoots(relevant map[*ssa.Function]bool) []Root {
	var out []Root
	isReg := map[*ssa.Function]bool{}
	for _, r := range pr.primRoots(func(r *Registration) bool { return relevant[r.fn] }) {
		out = append(out, r)
		isReg[r.fn] = true
	}
	for _, f := range pr.all {
		if !relevant[f] || f.Parent() != nil || isReg[f] || len(f.Blocks) == 0 {
			continue
		}
		n := pr.short(f)
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if exported || f.Name() == "main" || evalLike[n] || readLike[n] || pureFns[n] {
			out = append(out, Root{name: "function " + n, fn: f})
		}
	}
	return out
}

func runLocks(pr *Program, rep *Report, prop string) *lockShared {
	// entry points are analysed on their own, so a call of one need not be
	// followed; what remains is what reaches a lock or a table without passing
	// through an entry point.
	reach := pr.reaching(pr.touchesShared)
	isRoot := map[*ssa.Function]bool{}
	for _, r := range pr.lockRoots(reach) {
		if !returnsContainer(r.fn) {
			isRoot[r.fn] = true
		}
	}
	relevant := pr.reachingBut(pr.touchesShared, isRoot)
	// which lock classes a function can take, transitively
	acquires := map[*ssa.Function]map[string]bool{}
	direct := map[*ssa.Function]map[string]bool{}
	for _, f := range pr.all {
		d := map[string]bool{}
		eachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					if op := lockOp(fnName(g)); op == "Lock" || op == "RLock" {
						d[ssaLockClass(c.Common().Args[0])] = true
					}
					if evalLike[pr.short(g)] && pr.inRepo(g) {
						d["eval"] = true
					}
					if n := fnName(g); n == "(*sync.WaitGroup).Wait" || n == "time.Sleep" || n == "(*sync.Cond).Wait" {
						d["block"] = true
					}
				} else if _, ok := c.Common().Value.(*ssa.Builtin); !ok && !c.Common().IsInvoke() {
					d["eval"] = true
				}
			}
			switch i := in.(type) {
			case *ssa.Send:
				d["block"] = true
			case *ssa.UnOp:
				if i.Op.String() == "<-" {
					d["block"] = true
				}
			case *ssa.Select:
				if i.Blocking {
					d["block"] = true
				}
			}
		})
		direct[f] = d
	}
	for _, f := range pr.all {
		a := map[string]bool{}
		for g := range pr.reachable(f, nil) {
			for k := range direct[g] {
				a[k] = true
			}
		}
		acquires[f] = a
	}
	sh := &lockShared{global: map[string]map[string]bool{}, access: map[string][]string{}, written: map[string]bool{}, edges: map[string]string{}}
	roots := pr.lockRoots(relevant)
	runRoots(pr, rep, roots, func() *Rules { return lockRules(pr, prop, sh, relevant, acquires, isRoot, reach) })
	return sh
}

func ssaLockClass(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldClass(v.X.Type(), v.Field)
	case *ssa.Global:
		return "global " + v.Name()
	}
	return "?"
}

func init() {
	props["C06"] = &Prop{id: "C06", run: func(pr *Program, rep *Report, th bool) {
		sh := runLocks(pr, rep, "C06")
		for g, locks := range sh.global {
			if !sh.written[g] {
				continue
			}
			rep.Ob("guarded-global", g)
			if len(locks) == 0 {
				sort.Strings(sh.access[g])
				rep.Viol("guarded-global", g, sh.access[g][0], "the package table "+g+" is changed while scripts run, and no one lock is held at all of its accesses: "+strings.Join(dedup(sh.access[g]), "; "), "-", "")
			}
		}
	}}
	props["C07"] = &Prop{id: "C07", run: func(pr *Program, rep *Report, th bool) {
		sh := runLocks(pr, rep, "C07")
		// the class graph must be acyclic
		adj := map[string][]string{}
		for k := range sh.edges {
			p := strings.SplitN(k, " -> ", 2)
			adj[p[0]] = append(adj[p[0]], p[1])
			rep.Ob("order-edge", k)
		}
		for from := range adj {
			seen := map[string]bool{}
			var walk func(n string) bool
			walk = func(n string) bool {
				for _, t := range adj[n] {
					if t == from {
						return true
					}
					if !seen[t] {
						seen[t] = true
						if walk(t) {
							return true
						}
					}
				}
				return false
			}
			if walk(from) {
				var es []string
				for k, w := range sh.edges {
					es = append(es, k+" at "+w)
				}
				sort.Strings(es)
				rep.Viol("order", from, "-", "locks are taken in a cyclic order: "+strings.Join(es, "; "), "-", "")
			}
		}
	}}
}

func dedup(ss []string) []string {
	var out []string
	for i, s := range ss {
		if i == 0 || s != ss[i-1] {
			out = append(out, s)
		}
	}
	return out
}

func guardArg(ci *CallInfo) int {
	if len(ci.args) == 0 {
		return -1
	}
	return guardField(ci.args[0].typ)
}

// returnsContainer: the function hands out a container or a bare table, so its
// caller has to know whether that is a private one.
func returnsContainer(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if guardField(rs.At(i).Type()) >= 0 || isMap(rs.At(i).Type()) {
			return true
		}
	}
	return false
}
