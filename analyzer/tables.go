package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Tables: package variables filled once, when the package is initialised, with
// constants and functions, and only read afterwards.

type constTable struct {
	keys []*ssa.Const // of a map
	vals []tableVal   // of a map or, by index, of a slice
}

// tableVal is a constant, a function, or a structure of them.
type tableVal struct {
	v      ssa.Value
	fields map[int]ssa.Value
}

func tableValue(v ssa.Value) bool {
	switch c := v.(type) {
	case *ssa.Const, *ssa.Function:
		return true
	case *ssa.ChangeType:
		return tableValue(c.X)
	}
	return false
}

func (pr *Program) tables() map[string]*constTable {
	pr.tablesOnce.Do(func() {
		pr.constTables = map[string]*constTable{}
		stores := map[*ssa.Global][]*ssa.Store{}
		bad := map[*ssa.Global]bool{}
		seen := map[*ssa.Function]bool{}
		for _, fn := range append(append([]*ssa.Function(nil), pr.all...), pr.lisp.Func("init")) {
			if seen[fn] {
				continue
			}
			seen[fn] = true
			isInit := fn.Name() == "init" && fn.Synthetic != ""
			eachInstr(fn, func(in ssa.Instruction) {
				switch i := in.(type) {
				case *ssa.DebugRef:
					return
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], i)
						if !isInit {
							bad[g] = true
						}
						return
					}
				case *ssa.UnOp:
					if g, ok := i.X.(*ssa.Global); ok && i.Op == token.MUL {
						if !readOnly(i) {
							bad[g] = true
						}
						return
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			})
		}
		for g, ss := range stores {
			if bad[g] || len(ss) != 1 || g.Pkg != pr.lisp {
				continue
			}
			var t *constTable
			switch v := ss[0].Val.(type) {
			case *ssa.MakeMap:
				t = mapTable(v, ss[0])
			case *ssa.Slice:
				t = sliceTable(v, ss[0])
			}
			if t != nil && len(t.vals) <= 64 {
				pr.constTables[g.Name()] = t
			}
		}
	})
	return pr.constTables
}

// readOnly: what is loaded is only looked into.
func readOnly(v *ssa.UnOp) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.Lookup:
			if u.X != v {
				return false
			}
		case *ssa.Range, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if u.X != v || !onlyLoaded(u) {
				return false
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// structOfConsts: a structure built of constants and then read.
func structOfConsts(v ssa.Value) (tableVal, bool) {
	if tableValue(v) {
		return tableVal{v: v}, true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return tableVal{}, false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return tableVal{}, false
	}
	return fieldStores(a, u)
}

// fieldStores: the fields stored at an address.
func fieldStores(a ssa.Value, load ssa.Instruction) (tableVal, bool) {
	t := tableVal{fields: map[int]ssa.Value{}}
	for _, r := range *a.Referrers() {
		switch f := r.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *f.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != f || !tableValue(st.Val) {
					return t, false
				}
				if _, dup := t.fields[f.Field]; dup {
					return t, false
				}
				t.fields[f.Field] = st.Val
			}
		case *ssa.DebugRef:
		default:
			if r != load {
				return t, false
			}
		}
	}
	return t, true
}

func mapTable(m *ssa.MakeMap, store *ssa.Store) *constTable {
	t := &constTable{}
	for _, r := range *m.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			v, ok2 := structOfConsts(u.Value)
			if u.Map != m || !ok || !ok2 || k.Value == nil {
				return nil
			}
			for _, o := range t.keys {
				if constant.Compare(o.Value, token.EQL, k.Value) {
					return nil
				}
			}
			t.keys, t.vals = append(t.keys, k), append(t.vals, v)
		case *ssa.DebugRef:
		default:
			if r != store {
				return nil
			}
		}
	}
	return t
}

func sliceTable(sl *ssa.Slice, store *ssa.Store) *constTable {
	a, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	at, ok := ptrElem(a.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	t := &constTable{vals: make([]tableVal, at.Len())}
	for _, r := range *sl.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); r != store && !dbg {
			return nil
		}
	}
	seen := map[int64]bool{}
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.IndexAddr:
			c, ok := u.Index.(*ssa.Const)
			if !ok || seen[c.Int64()] || u.Referrers() == nil {
				return nil
			}
			seen[c.Int64()] = true
			var v tableVal
			whole := false
			for _, r2 := range *u.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == u {
					if v, ok = structOfConsts(st.Val); !ok || whole {
						return nil
					}
					whole = true
				}
			}
			if !whole {
				if v, ok = fieldStores(u, nil); !ok {
					return nil
				}
			}
			t.vals[c.Int64()] = v
		case *ssa.DebugRef:
		default:
			if r != ssa.Instruction(sl) {
				return nil
			}
		}
	}
	return t
}

// tableOf: the table a value is, if it is one.
func (x *Exec) tableOf(t *Term) *constTable {
	if t.op != OLoad || t.args[0].op != OGlobal {
		return nil
	}
	return x.pr.tables()[t.args[0].aux]
}

func (x *Exec) tableTerm(c *Config, v tableVal, typ types.Type) *Term {
	if v.v == nil && v.fields == nil {
		return x.ts.zeroOf(typ)
	}
	one := func(v ssa.Value) *Term {
		if ct, ok := v.(*ssa.ChangeType); ok {
			return x.conv(c.st, ct.Type(), x.val(c, ct.X))
		}
		return x.val(c, v)
	}
	if v.v != nil {
		return one(v.v)
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		if f := v.fields[i]; f != nil {
			fs = append(fs, one(f))
		} else {
			fs = append(fs, x.ts.zeroOf(st.Field(i).Type()))
		}
	}
	return x.ts.mk(OTuple, typ, "struct", 0, fs...)
}

// tableLookup: looking into a table that is a map.
func (x *Exec) tableLookup(c *Config, i *ssa.Lookup, t *constTable, k *Term) []*Config {
	et := elemOf(i.X.Type())
	give := func(c *Config, v *Term, ok bool) *Config {
		if i.CommaOk {
			v = x.ts.mk(OTuple, i.Type(), "", 0, v, x.ts.boolc(ok))
		}
		c.env.set(i, v)
		return c
	}
	var out []*Config
	for n, key := range t.keys {
		eq := x.bin(c.st, token.EQL, types.Typ[types.Bool], k, x.val(c, key))
		d := x.decide(c.st, eq)
		if d < 0 {
			continue
		}
		v := x.tableTerm(c, t.vals[n], et)
		if v == nil {
			return nil
		}
		if d > 0 {
			return append(out, give(c, v, true))
		}
		y := c.fork()
		if x.assume(y.st, eq, true) {
			if x.rules.Fork != nil {
				x.rules.Fork(x, y.st, eq, true)
			}
			out = append(out, give(y, v, true))
		}
		if !x.assume(c.st, eq, false) {
			return out
		}
		if x.rules.Fork != nil {
			x.rules.Fork(x, c.st, eq, false)
		}
	}
	return append(out, give(c, x.ts.zeroOf(et), false))
}

// tableElem: an element of a table that is a slice, or a field of one.
func (x *Exec) tableElem(s *State, addr *Term) *Term {
	field := -1
	if addr.op == OFieldAddr && addr.args[0].op == OIndexAddr {
		field = int(addr.iaux)
		addr = addr.args[0]
	}
	if addr.op != OIndexAddr {
		return nil
	}
	t := x.tableOf(addr.args[0])
	if t == nil || t.keys != nil {
		return nil
	}
	n, ok := x.constInt(s, addr.args[1])
	if !ok || n < 0 || int(n) >= len(t.vals) {
		return nil
	}
	c := &Config{st: s}
	v := x.tableTerm(c, t.vals[n], x.elemT(addr.typ))
	if field < 0 || v == nil {
		return v
	}
	if v.op == OTuple && field < len(v.args) {
		return v.args[field]
	}
	st, ok := x.elemT(addr.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return x.ts.zeroOf(st.Field(field).Type())
}
