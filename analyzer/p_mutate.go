package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mutation: a builtin whose name does not end in "!" changes nothing that was
// there before it ran: every store on every path goes to an object it made.

// valuePart: storage that is part of a value a script can hold.
func (pr *Program) valuePart(addr *Term) string {
	switch addr.op {
	case OFieldAddr:
		_, n := structOf(addr.args[0].typ)
		f := fieldName(addr.args[0].typ, int(addr.iaux))
		switch n {
		case pr.dataT:
			return "value." + f
		case pr.consT:
			return "pair." + f
		case pr.boxedT:
			return "object." + f
		case pr.frameMapT:
			return "frame." + f
		case pr.funcT:
			switch f {
			case "SlotFunction", "ParentProcess", "DebugOnEntry":
				return ""
			}
			return "function." + f
		case pr.macroT:
			return "macro." + f
		case pr.primT:
			return "builtin." + f
		}
	case OIndexAddr:
		if e := pointee(addr.typ); e != nil {
			if b, ok := e.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return "byte"
			}
			if pr.isPtrTo(e, pr.dataT) {
				return "element"
			}
		}
	case OGlobal:
	default:
		if e := pointee(addr.typ); e != nil {
			switch t := e.Underlying().(type) {
			case *types.Basic:
				switch t.Kind() {
				case types.Int64, types.Float32, types.String, types.Bool:
					return "payload"
				}
			case *types.Slice:
				if isByteSlice(t) {
					return "bytes"
				}
			}
		}
	}
	return ""
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// made: the object was made while the builtin ran.
func (x *Exec) made(s *State, t *Term) bool {
	t = strip(t)
	switch t.op {
	case OAlloc:
		return true
	case OFieldAddr, OIndexAddr, OSlice:
		return x.made(s, t.args[0])
	case OConst:
		return true
	}
	if x.provOf(s, t)&pFresh != 0 {
		return true
	}
	if d := x.valueOwner(t); d != nil {
		return x.provOf(s, d)&pFreshCell != 0
	}
	return false
}

// writesValues: some store of the function may go to a value that is not new.
func writesValues(pr *Program) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		hit := false
		table := func(t types.Type) bool {
			switch u := t.Underlying().(type) {
			case *types.Map:
				return pr.isPtrTo(u.Elem(), pr.dataT)
			case *types.Slice:
				return isByteSlice(u) || pr.isPtrTo(u.Elem(), pr.dataT)
			}
			return false
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Convert:
				if p, ok := i.X.Type().Underlying().(*types.Pointer); ok && isUnsafe(i.Type()) && table(p.Elem()) {
					hit = true
				}
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok && table(i.Val.Type()) {
					if _, n := structOf(fa.X.Type()); n == pr.frameMapT {
						hit = true
					}
				}
				switch a := i.Addr.(type) {
				case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
				case *ssa.FieldAddr:
					if _, fresh := a.X.(*ssa.Alloc); fresh {
						return
					}
					switch _, n := structOf(a.X.Type()); n {
					case pr.dataT, pr.consT, pr.boxedT, pr.frameMapT, pr.funcT, pr.macroT, pr.primT:
						hit = true
					}
				case *ssa.IndexAddr:
					t := a.X.Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem() // an array
					}
					hit = hit || table(t)
				default:
					hit = true
				}
			case *ssa.MapUpdate:
				if _, fresh := i.Map.(*ssa.MakeMap); !fresh && table(i.Map.Type()) {
					hit = true
				}
			case ssa.CallInstruction:
				if b, ok := i.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy", "append":
						hit = hit || table(i.Common().Args[0].Type())
					}
				} else if g := i.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && len(i.Common().Args) > 0 && !strings.HasPrefix(g.Name(), "Load") {
					switch i.Common().Args[0].(type) {
					case *ssa.FieldAddr, *ssa.Global, *ssa.Alloc:
						return
					}
					hit = true
				}
			}
		})
		return hit
	}
}

func ofGlobal(m *Term) bool {
	m = strip(m)
	return m.op == OLoad && baseObj(m.args[0]).op == OGlobal
}

func mutateRules(pr *Program, skip func(*ssa.Function) bool) *Rules {
	r := &Rules{Name: "mutate", NoInts: true, DataSig: boolSig}
	chk := func(x *Exec, s *State, in ssa.Instruction, what string, base *Term) {
		x.rep.ObI("unchanged", in)
		for _, f := range x.stack {
			if x.pr.short(f.fn) == "Acons" {
				return // sets the entry of an alist, as acons is documented to
			}
		}
		if !x.made(s, base) {
			x.rep.ViolX(x, "unchanged", in, "the "+what+" of something that was there before is changed: "+base.String())
		}
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && skip(ci.fn) && len(x.stack) > 0 {
			return x.after(fr, ci, x.unknownCall(s, ci, "skip")), true
		}
		switch {
		case ci.name == "builtin.delete" || ci.name == "builtin.clear":
			if mt, ok := ci.args[0].typ.Underlying().(*types.Map); ok && pr.isPtrTo(mt.Elem(), pr.dataT) {
				chk(x, s, ci.site, "table", ci.args[0])
			}
		case ci.name == "builtin.append":
			if isByteSlice(ci.args[0].typ) {
				chk(x, s, ci.site, "storage (behind the end)", ci.args[0])
			}
		case ci.name == "builtin.copy":
			if st, ok := ci.args[0].typ.Underlying().(*types.Slice); ok && (isByteSlice(st) || pr.isPtrTo(st.Elem(), pr.dataT)) {
				chk(x, s, ci.site, "contents", ci.args[0])
			}
		case strings.HasPrefix(ci.name, "sync/atomic."):
			// a payload, not a flag of a function or process
			if !strings.Contains(ci.name, ".Load") && ci.args[0].op != OFieldAddr && ci.args[0].op != OGlobal {
				chk(x, s, ci.site, "storage", ci.args[0])
			}
		}
		return nil, false
	}
	const fresh = pFresh | pFreshSpine | pFreshCell
	r.LoadFact = func(x *Exec, s *State, addr, v *Term) {
		if d := x.cellOwner(addr); d != nil && addr.iaux == 1 && x.provOf(s, d)&pFreshSpine != 0 {
			x.addProv(s, v, fresh)
		}
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.Store:
			a := x.val(c, i.Addr)
			w := pr.valuePart(a)
			if w == "" {
				return
			}
			v := x.val(c, i.Val)
			switch w {
			case "object.Obj":
				p := strip(v)
				if e := pointee(p.typ); e != nil && isByteSlice(e) {
					x.rep.ObI("own-storage", in)
					if p.op != OAlloc || !x.made(c.st, x.load(c.st, p)) {
						x.rep.ViolX(x, "own-storage", in, "a new byte array shares the bytes of one that was there before")
					}
				}
			case "frame.Data":
				x.rep.ObI("own-storage", in)
				if !x.made(c.st, v) {
					x.rep.ViolX(x, "own-storage", in, "a frame shares the slots of one that was there before")
				}
			}
			if a.op == OFieldAddr || a.op == OIndexAddr {
				a = a.args[0]
			}
			chk(x, c.st, in, w, a)
			if w == "pair.Cdr" && x.provOf(c.st, v)&pFreshSpine == 0 {
				// a list that was there before may now hang below one made here
				var ts []*Term
				c.st.facts.each(func(t *Term, f Fact) {
					if f.prov&pFreshSpine != 0 {
						ts = append(ts, t)
					}
				})
				for _, t := range ts {
					f := x.fact(c.st, t)
					f.prov &^= pFreshSpine
					c.st.facts.set(t, f)
				}
			}
		case *ssa.MapUpdate:
			m := x.val(c, i.Map)
			if mt, ok := m.typ.Underlying().(*types.Map); ok && pr.isPtrTo(mt.Elem(), pr.dataT) && !ofGlobal(m) {
				chk(x, c.st, in, "slots", m)
			}
		}
	}
	return r
}

// copyRules: what the copying function builds is made of copies throughout.
func copyRules(pr *Program, skip func(*ssa.Function) bool) *Rules {
	r := mutateRules(pr, skip)
	own := func(x *Exec, s *State, in ssa.Instruction, v *Term) {
		x.rep.ObI("copied", in)
		if !x.made(s, v) && !v.isNilConst() {
			x.rep.ViolX(x, "copied", in, "part of the copy is not a copy: "+v.String())
		}
	}
	instr := r.Instr
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		instr(x, fr, c, in)
		switch i := in.(type) {
		case *ssa.Store:
			if a := x.val(c, i.Addr); a.op == OFieldAddr {
				if _, n := structOf(a.args[0].typ); n == pr.consT {
					own(x, c.st, in, x.val(c, i.Val))
				}
			}
		case *ssa.MapUpdate:
			if mt, ok := i.Map.Type().Underlying().(*types.Map); ok && pr.isPtrTo(mt.Elem(), pr.dataT) {
				if len(x.stack) == 1 {
					own(x, c.st, in, x.val(c, i.Value))
				}
			}
		}
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) != 1 || !x.isData(rs[0].typ) {
			return
		}
		x.rep.ObI("copied", in)
		if p := x.provOf(s, rs[0]); p&pFresh == 0 || p&pFreshCell == 0 {
			x.rep.ViolX(x, "copied", in, "the copy is not a new value: "+rs[0].String())
		}
	}
	return r
}

// copyRoots: a value of each kind that can be changed.
func copyRoots(pr *Program) []Root {
	fn := pr.fn("Copy")
	if fn == nil {
		return nil
	}
	var out []Root
	for _, k := range []string{"ConsCell", "Alist", "AlistCell", "Frame", "BoxedObject"} {
		k := k
		out = append(out, Root{name: "copy of a " + k, fn: fn, init: func(x *Exec, s *State, args []*Term) {
			x.setKinds(s, args[0], pr.kind(k))
			switch k {
			case "ConsCell", "Alist":
				// not the empty list
				st := pr.dataT.Underlying().(*types.Struct)
				v := x.load(s, x.fieldAddr(args[0], pr.fValue))
				_ = st
				cell := x.conv(s, pr.ptrTo(pr.consT), v)
				x.setNil(s, cell, false)
				car := x.load(s, x.fieldAddr(cell, 0))
				x.setNil(s, car, false)
				if k == "Alist" {
					x.setKinds(s, car, pr.kind("AlistCell", "ConsCell"))
				}
			case "BoxedObject":
				f := x.fact(s, args[0])
				f.box = "[]byte"
				s.facts.set(args[0], f)
			}
		}})
	}
	return out
}

func init() {
	props["C14"] = &Prop{id: "C14", run: func(pr *Program, rep *Report, th bool) {
		cut := map[*ssa.Function]bool{}
		for _, m := range []map[string]bool{evalLike, readLike, pureFns, effectless} {
			for n := range m {
				if f := pr.fn(n); f != nil {
					cut[f] = true
				}
			}
		}
		reach := pr.reachingBut(writesValues(pr), cut)
		skip := func(f *ssa.Function) bool { return pr.inRepo(f) && !reach[f] && pr.containerMethod(f) }
		var roots []Root
		for _, r := range pr.primRoots(nil) {
			if !strings.HasSuffix(r.reg.name, "!") && reach[r.fn] {
				roots = append(roots, r)
			}
		}
		for _, r := range pr.engineRoots() {
			if !readLike[strings.TrimPrefix(r.name, "function ")] && reach[r.fn] {
				roots = append(roots, r)
			}
		}
		for _, n := range []string{"Append", "AppendList", "Reverse", "Flatten", "RecursiveFlatten", "Assoc", "Alist", "Nth"} {
			if f := pr.fn(n); f != nil && reach[f] {
				roots = append(roots, Root{name: "function " + n, fn: f})
			}
		}
		runRoots(pr, rep, copyRoots(pr), func() *Rules { return copyRules(pr, skip) })
		runRoots(pr, rep, roots, func() *Rules { return mutateRules(pr, skip) })
	}}
}
