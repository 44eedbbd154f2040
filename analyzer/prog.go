package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

func constStr(s string) constant.Value { return constant.MakeString(s) }

// Program is the loaded repository with the anchors the rules rely on.
type Program struct {
	prog      *ssa.Program
	lpkgs     []*packages.Package
	pkgs      []*ssa.Package
	lisp      *ssa.Package
	fset      *token.FileSet
	all       []*ssa.Function // every function with a body in the repository
	dataT     *types.Named
	envT      *types.Named
	frameMapT *types.Named
	bindingT  *types.Named
	funcT     *types.Named
	macroT    *types.Named
	primT     *types.Named
	consT     *types.Named
	boxedT    *types.Named
	procT     *types.Named
	fType     int
	fValue    int
	fLabel    int
	kindName  map[int]string
	kindNum   map[string]int

	immutable   map[string]bool
	constTables map[string]*constTable
	tablesOnce  sync.Once
	globalKinds map[string]uint32
	mu          sync.Mutex
	infos       map[*ssa.Function]*fnInfo
	ptrs        map[types.Type]types.Type
	regs        []*Registration
	nilable     map[string]bool
	anchorsBad  []string
	closed      map[string]bool
	cgo         map[*ssa.Function]bool
}

type Registration struct {
	name       string
	args       string
	fn         *ssa.Function
	bind       []*Term
	bindVal    []*Term
	special    bool
	restricted bool
	site       token.Pos
	maker      *ssa.Function
}

func loadProgram() (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")}
	lp, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range lp {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, sp := ssautil.Packages(lp, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, lpkgs: lp, pkgs: sp, fset: fset, infos: map[*ssa.Function]*fnInfo{}, ptrs: map[types.Type]types.Type{},
		immutable: map[string]bool{}, globalKinds: map[string]uint32{}, kindName: map[int]string{}, kindNum: map[string]int{}, nilable: map[string]bool{}, cgo: map[*ssa.Function]bool{}}
	for _, p := range sp {
		if p != nil && p.Pkg.Name() == "golisp" {
			pr.lisp = p
		}
	}
	if pr.lisp == nil {
		return nil, fmt.Errorf("package golisp not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if pr.inRepo(fn) && len(fn.Blocks) > 0 {
			if fn.Pos().IsValid() && !strings.HasPrefix(fset.Position(fn.Pos()).Filename, repoDir+"/") {
				pr.cgo[fn] = true
				continue
			}
			pr.all = append(pr.all, fn)
		}
	}
	sort.Slice(pr.all, func(i, j int) bool {
		if pr.all[i].Pos() != pr.all[j].Pos() {
			return pr.all[i].Pos() < pr.all[j].Pos()
		}
		return pr.all[i].String() < pr.all[j].String()
	})
	named := func(n string) *types.Named {
		o := pr.lisp.Pkg.Scope().Lookup(n)
		if o == nil {
			pr.anchorsBad = append(pr.anchorsBad, "type "+n)
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	pr.dataT, pr.envT, pr.frameMapT, pr.bindingT = named("Data"), named("SymbolTableFrame"), named("FrameMap"), named("Binding")
	pr.funcT, pr.macroT, pr.primT, pr.consT, pr.boxedT, pr.procT = named("Function"), named("Macro"), named("PrimitiveFunction"), named("ConsCell"), named("BoxedObject"), named("Process")
	if len(pr.anchorsBad) > 0 {
		return pr, fmt.Errorf("anchors missing: %v", pr.anchorsBad)
	}
	pr.fType, pr.fValue = pr.fieldIdx(pr.dataT, "Type"), pr.fieldIdx(pr.dataT, "Value")
	pr.fLabel = pr.fieldIdx(pr.boxedT, "ObjType")
	for _, n := range []string{"NilType", "ConsCellType", "AlistType", "AlistCellType", "IntegerType", "FloatType", "BooleanType", "StringType", "SymbolType", "FunctionType", "MacroType", "PrimitiveType", "BoxedObjectType", "FrameType", "EnvironmentType", "PortType"} {
		c, ok := pr.lisp.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			return pr, fmt.Errorf("anchor missing: constant %s", n)
		}
		v, _ := constant.Int64Val(c.Val())
		k := strings.TrimSuffix(n, "Type")
		if _, dup := pr.kindName[int(v)]; dup || v < 0 || v > 15 {
			return pr, fmt.Errorf("tag constant %s has value %d, which is out of range or already used by %s", n, v, pr.kindName[int(v)])
		}
		pr.kindName[int(v)] = k
		pr.kindNum[k] = int(v)
	}
	if pr.kindNum["Nil"] != 0 {
		return pr, fmt.Errorf("NilType is expected to be 0")
	}
	pr.findImmutable()
	pr.findGlobals()
	return pr, nil
}

func (pr *Program) fieldIdx(n *types.Named, f string) int {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	pr.anchorsBad = append(pr.anchorsBad, n.Obj().Name()+"."+f)
	return -1
}

func (pr *Program) kind(names ...string) uint32 {
	var k uint32
	for _, n := range names {
		i, ok := pr.kindNum[n]
		if !ok {
			panic("kind " + n)
		}
		k |= 1 << uint(i)
	}
	return k
}

func (pr *Program) kindsStr(k uint32) string {
	if k&kindAll == kindAll {
		return "any"
	}
	var ss []string
	for i := 0; i < 16; i++ {
		if k&(1<<uint(i)) != 0 {
			n := pr.kindName[i]
			if i == 0 {
				n = "nil"
			}
			ss = append(ss, n)
		}
	}
	return strings.Join(ss, "|")
}

func (pr *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || pr.cgo[fn] {
		return false
	}
	for _, p := range pr.pkgs {
		if p == fn.Pkg {
			return true
		}
	}
	return false
}

// wraps: a synthetic bound-method or thunk wrapper around a repository function.
func (pr *Program) wraps(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && pr.inRepo(f) {
					return true
				}
			}
		}
	}
	return false
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	fi := pr.infos[fn]
	if fi == nil {
		fi = buildFnInfo(fn)
		pr.infos[fn] = fi
	}
	return fi
}

func (pr *Program) ptrTo(t types.Type) types.Type {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	p := pr.ptrs[t]
	if p == nil {
		p = types.NewPointer(t)
		pr.ptrs[t] = p
	}
	return p
}

func (pr *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := pr.fset.Position(p)
	if r, err := filepath.Rel(repoDir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (pr *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return pr.pos(in.Pos())
	}
	// borrow the nearest position
	b := in.Block()
	if b != nil {
		best := token.NoPos
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				best = o.Pos()
			}
			if o == in && best.IsValid() {
				return pr.pos(best)
			}
		}
		if best.IsValid() {
			return pr.pos(best)
		}
		return pr.pos(in.Parent().Pos())
	}
	return "?"
}

func (pr *Program) fn(name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		// (*T).M
		i := strings.Index(name, ").")
		tn := strings.TrimLeft(name[1:i], "*")
		o := pr.lisp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		n := o.Type().(*types.Named)
		for k := 0; k < n.NumMethods(); k++ {
			if n.Method(k).Name() == name[i+2:] {
				return pr.prog.FuncValue(n.Method(k))
			}
		}
		return nil
	}
	f, _ := pr.lisp.Members[name].(*ssa.Function)
	return f
}

func (pr *Program) short(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == pr.lisp {
		return fn.RelString(pr.lisp.Pkg)
	}
	return fn.RelString(nil)
}

// findImmutable finds the struct fields that are only ever written while the
// object is being built by the function that allocated it.
func (pr *Program) findImmutable() {
	mut := map[string]bool{}
	seen := map[string]bool{}
	ctor := map[*ssa.Function]bool{}
	var fresh func(v ssa.Value) bool
	fresh = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Call:
			f := v.Call.StaticCallee()
			return f != nil && ctor[f]
		}
		return false
	}
	for grown := true; grown; {
		grown = false
		for _, fn := range pr.all {
			if ctor[fn] {
				continue
			}
			ok, any := true, false
			for _, b := range fn.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
					any = true
					if len(r.Results) != 1 {
						ok = false
						break
					}
					if !fresh(r.Results[0]) {
						ok = false
					}
				}
			}
			if ok && any {
				ctor[fn], grown = true, true
			}
		}
	}
	for _, fn := range pr.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					c := fieldClass(fa.X.Type(), fa.Field)
					seen[c] = true
					isAlloc := fresh(fa.X)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr == ssa.Value(fa) && !isAlloc || r.Val == ssa.Value(fa) {
								mut[c] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							mut[c] = true
						}
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if _, isAlloc := st.Addr.(*ssa.Alloc); !isAlloc {
						if s, n := structOf(st.Val.Type()); s != nil && n != nil {
							if _, isPtr := st.Val.Type().Underlying().(*types.Pointer); !isPtr {
								for i := 0; i < s.NumFields(); i++ {
									mut[fieldClass(n, i)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for c := range seen {
		if !mut[c] {
			pr.immutable[c] = true
		}
	}
}

// findGlobals finds package variables of type *Data that are initialised once
// with a value of a known tag.
func (pr *Program) findGlobals() {
	stores := map[*ssa.Global][]*ssa.Store{}
	addrTaken := map[*ssa.Global]bool{}
	for _, p := range pr.pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			_ = g
		}
	}
	fns := append([]*ssa.Function(nil), pr.all...)
	for _, p := range pr.pkgs {
		if f, ok := p.Members["init"].(*ssa.Function); ok {
			fns = append(fns, f)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if i.Addr == ssa.Value(g) {
							stores[g] = append(stores[g], i)
						} else {
							addrTaken[g] = true
						}
					default:
						addrTaken[g] = true
					}
				}
			}
		}
	}
	for g, ss := range stores {
		pt := g.Type().Underlying().(*types.Pointer).Elem()
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if n, ok := types.Unalias(p.Elem()).(*types.Named); !ok || n != pr.dataT {
			continue
		}
		if len(ss) != 1 || addrTaken[g] {
			continue
		}
		al, ok := ss[0].Val.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == pr.fType {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
							if n, ok := constant.Int64Val(c.Value); ok && n > 0 {
								pr.globalKinds[g.Name()] = 1 << uint(n)
							}
						}
					}
				}
			}
		}
		pr.immutable["global "+g.Name()] = true
	}
}
