package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the operator of a symbolic value expression (an SSA value with its
// operands resolved through calls).
type Op uint8

const (
	OConst Op = iota
	OSym
	OAlloc
	OGlobal
	OFunc
	OClosure
	OFieldAddr
	OIndexAddr
	OLoad
	OField
	OIndex
	OBin
	OUn
	OConv
	OLen
	OLookup
	OLookupOk
	OTuple
	OIface
	OCall
	OSlice
	ORange
)

// Term is a hash-consed value expression.  Terms are immutable: a term denotes
// one value, so facts about it never have to be invalidated.
type Term struct {
	id   int
	op   Op
	typ  types.Type
	args []*Term
	aux  string
	cval constant.Value // OConst
	fn   *ssa.Function  // OFunc, OClosure
	iaux int64
	site ssa.Instruction // OAlloc / OSym: where it was made
	info *TermInfo
}

// TermInfo carries provenance of symbols.
type TermInfo struct {
	kind string // "eval", "ext", "param", "phi", "merge", "argelem", ...
	note string
	src  []*Term
}

type Terms struct {
	tab   map[string]*Term
	n     int
	types map[types.Type]string
	zero  *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[string]*Term{}, types: map[types.Type]string{}}
	return ts
}

func (ts *Terms) tname(t types.Type) string {
	if t == nil {
		return "-"
	}
	if s, ok := ts.types[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	ts.types[t] = s
	return s
}

func (ts *Terms) mk(op Op, typ types.Type, aux string, iaux int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(ts.tname(typ))
	b.WriteByte('|')
	b.WriteString(aux)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(iaux, 10))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, op: op, typ: typ, aux: aux, iaux: iaux, args: args}
	ts.tab[k] = t
	return t
}

func (ts *Terms) sym(typ types.Type, kind, note string, site ssa.Instruction, src ...*Term) *Term {
	ts.n++
	return &Term{id: ts.n, op: OSym, typ: typ, site: site, info: &TermInfo{kind: kind, note: note, src: src}}
}

func (ts *Terms) alloc(typ types.Type, site ssa.Instruction) *Term {
	ts.n++
	return &Term{id: ts.n, op: OAlloc, typ: typ, site: site}
}

func (ts *Terms) constv(v constant.Value, typ types.Type) *Term {
	s := "nil"
	if v != nil {
		s = v.Kind().String() + ":" + v.ExactString()
	}
	t := ts.mk(OConst, typ, s, 0)
	t.cval = v
	return t
}

func (ts *Terms) nilOf(typ types.Type) *Term         { return ts.constv(nil, typ) }
func (ts *Terms) intc(n int64, typ types.Type) *Term { return ts.constv(constant.MakeInt64(n), typ) }
func (ts *Terms) boolc(b bool) *Term {
	return ts.constv(constant.MakeBool(b), types.Typ[types.Bool])
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isNilConst() bool {
	return t.op == OConst && t.cval == nil && isNillable(t.typ)
}
func (t *Term) boolConst() (bool, bool) {
	if t.op == OConst && t.cval != nil && t.cval.Kind() == constant.Bool {
		return constant.BoolVal(t.cval), true
	}
	return false, false
}
func (t *Term) intConst() (int64, bool) {
	if t == nil {
		return 0, false
	}
	if t.op == OConst && t.cval != nil {
		if v := constant.ToInt(t.cval); v.Kind() == constant.Int {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				n, ok := constant.Int64Val(v)
				return n, ok
			}
		}
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t.op == OConst && t.cval != nil && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}

func isNillable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// zeroOf gives the zero value of a type (nil for aggregates).
func (ts *Terms) zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.constv(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return ts.intc(0, t)
		case u.Info()&types.IsFloat != 0:
			return ts.constv(constant.MakeFloat64(0), t)
		case u.Info()&types.IsString != 0:
			return ts.constv(constant.MakeString(""), t)
		}
		return ts.nilOf(t)
	case *types.Struct, *types.Array:
		return ts.constv(nil, t)
	}
	return ts.nilOf(t)
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	a := func(i int) string { return t.args[i].str(d - 1) }
	switch t.op {
	case OConst:
		if t.cval == nil {
			return "nil"
		}
		return t.cval.String()
	case OSym:
		n := ""
		if t.info != nil {
			n = t.info.kind
			if t.info.note != "" {
				n += ":" + t.info.note
			}
		}
		return fmt.Sprintf("<%s#%d>", n, t.id)
	case OAlloc:
		return fmt.Sprintf("new%d", t.id)
	case OGlobal:
		return t.aux
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure " + t.fn.Name()
	case OFieldAddr:
		return "&" + a(0) + "." + fieldName(t.args[0].typ, int(t.iaux))
	case OIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OLoad:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OField:
		return a(0) + "." + fieldName(t.args[0].typ, int(t.iaux))
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OBin:
		return "(" + a(0) + t.aux + a(1) + ")"
	case OUn:
		return t.aux + a(0)
	case OConv:
		return types.TypeString(t.typ, func(*types.Package) string { return "" }) + "(" + a(0) + ")"
	case OLen:
		return "len(" + a(0) + ")"
	case OLookup:
		return a(0) + "[" + a(1) + "]"
	case OLookupOk:
		return "has(" + a(0) + "[" + a(1) + "])"
	}
	var ss []string
	for i := range t.args {
		ss = append(ss, a(i))
	}
	return fmt.Sprintf("%s#%d(%s)", t.aux, t.op, strings.Join(ss, ","))
}

func structOf(t types.Type) (*types.Struct, *types.Named) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	s, _ := t.Underlying().(*types.Struct)
	return s, n
}

func fieldName(t types.Type, i int) string {
	s, _ := structOf(t)
	if s == nil || i >= s.NumFields() {
		return strconv.Itoa(i)
	}
	return s.Field(i).Name()
}

// fieldClass names a mutable storage class: struct type and field.
func fieldClass(base types.Type, i int) string {
	s, n := structOf(base)
	nm := "?"
	if n != nil {
		nm = n.Obj().Name()
	} else if s != nil {
		nm = s.String()
	}
	return nm + "." + fieldName(base, i)
}

// classOf gives the storage class an address belongs to.
func (ts *Terms) classOf(addr *Term) string {
	switch addr.op {
	case OFieldAddr:
		return fieldClass(addr.args[0].typ, int(addr.iaux))
	case OIndexAddr:
		return "[]" + ts.tname(elemOf(addr.args[0].typ))
	case OGlobal:
		return "global " + addr.aux
	}
	if p, ok := addr.typ.Underlying().(*types.Pointer); ok {
		return "*" + ts.tname(p.Elem())
	}
	return "?"
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return t
}

// baseAlloc strips field/index addressing down to the root object.
func baseObj(addr *Term) *Term {
	for addr.op == OFieldAddr || addr.op == OIndexAddr || addr.op == OSlice || addr.op == OConv {
		addr = addr.args[0]
	}
	return addr
}

func cmpNeg(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return token.ILLEGAL
}

func isCmp(op token.Token) bool { return cmpNeg(op) != token.ILLEGAL }
