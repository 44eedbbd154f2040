package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worlds: environments and frames whose tables are known completely. Maps are
// followed entry by entry, objects of the world are distinct from each other.

type mapEnt struct {
	key  string
	k, v *Term
}

func (x *Exec) termID(t *Term) string {
	if x.byID == nil {
		x.byID = map[int]*Term{}
	}
	x.byID[t.id] = t
	return strconv.Itoa(t.id)
}

func (x *Exec) mapKey(k *Term) (string, bool) {
	k = strip(k)
	for k.op == OIface {
		k = strip(k.args[0])
	}
	if c, ok := k.strConst(); ok {
		return c, true
	}
	if k.op == OConst && k.cval != nil {
		return k.cval.ExactString(), true
	}
	return "#" + x.termID(k), k.op == OAlloc
}

func (x *Exec) mapEnts(s *State, m *Term) ([]mapEnt, bool) {
	if !x.rules.World || m == nil {
		return nil, false
	}
	v := s.tag("map" + strconv.Itoa(strip(m).id))
	if v == "" {
		return nil, false
	}
	var out []mapEnt
	for _, e := range strings.Split(v, "\x00")[1:] {
		f := strings.Split(e, "\x01")
		a, _ := strconv.Atoi(f[1])
		b, _ := strconv.Atoi(f[2])
		out = append(out, mapEnt{f[0], x.byID[a], x.byID[b]})
	}
	return out, true
}

func (x *Exec) setMap(s *State, m *Term, es []mapEnt) {
	v := "m"
	for _, e := range es {
		v += "\x00" + e.key + "\x01" + x.termID(e.k) + "\x01" + x.termID(e.v)
	}
	s.setTag("map"+strconv.Itoa(strip(m).id), v)
}

// mapGet looks a key up: 1 present, -1 absent, 0 unknown.
func (x *Exec) mapGet(s *State, m, k *Term) (*Term, int) {
	es, ok := x.mapEnts(s, m)
	if !ok {
		return nil, 0
	}
	n, known := x.mapKey(k)
	for _, e := range es {
		if e.key == n {
			return e.v, 1
		}
	}
	if !known && len(es) > 0 {
		return nil, 0
	}
	return nil, -1
}

func (x *Exec) mapPut(s *State, m, k, v *Term) bool {
	es, ok := x.mapEnts(s, m)
	n, known := x.mapKey(k)
	if !ok {
		return false
	}
	if !known {
		s.setTag("map"+strconv.Itoa(strip(m).id), "")
		return false
	}
	for i, e := range es {
		if e.key == n {
			es[i].v = v
			x.setMap(s, m, es)
			return true
		}
	}
	x.setMap(s, m, append(es, mapEnt{n, k, v}))
	return true
}

func (x *Exec) mapDel(s *State, m, k *Term) {
	es, ok := x.mapEnts(s, m)
	if !ok {
		return
	}
	n, known := x.mapKey(k)
	if !known {
		s.setTag("map"+strconv.Itoa(strip(m).id), "")
		return
	}
	var out []mapEnt
	for _, e := range es {
		if e.key != n {
			out = append(out, e)
		}
	}
	x.setMap(s, m, out)
}

// worldInstr follows maps; it reports whether it handled the instruction.
func (x *Exec) worldInstr(c *Config, in ssa.Instruction) bool {
	s := c.st
	switch i := in.(type) {
	case *ssa.Lookup:
		m, k := x.val(c, i.X), x.val(c, i.Index)
		if isString(m.typ) {
			return false
		}
		v, d := x.mapGet(s, m, k)
		if d == 0 {
			return false
		}
		if d < 0 {
			v = x.ts.zeroOf(elemOf(m.typ))
		}
		if i.CommaOk {
			v = x.ts.mk(OTuple, i.Type(), "", 0, v, x.ts.boolc(d > 0))
		}
		c.env.set(i, v)
		return true
	case *ssa.MapUpdate:
		return x.mapPut(s, x.val(c, i.Map), x.val(c, i.Key), x.val(c, i.Value))
	case *ssa.Store:
		if a := x.val(c, i.Addr); a.op == OFieldAddr && x.pr.isPtrTo(a.args[0].typ, callableT(x.pr, "Binding")) {
			s.setTag("st"+strconv.Itoa(a.id), x.nm(s, x.val(c, i.Val)))
		}
		return false
	case *ssa.MakeMap:
		t := x.ts.alloc(i.Type(), in)
		s.esc.set(t, false)
		x.setMap(s, t, nil)
		c.env.set(i, t)
		return true
	case *ssa.Range:
		m := x.val(c, i.X)
		es, ok := x.mapEnts(s, m)
		if !ok {
			return false
		}
		it := x.ts.alloc(i.Type(), in)
		x.setMap(s, it, es)
		c.env.set(i, it)
		return true
	case *ssa.Next:
		it := x.val(c, i.Iter)
		es, ok := x.mapEnts(s, it)
		if !ok || it.op != OAlloc {
			return false
		}
		tt := i.Type().(*types.Tuple)
		pick := func(t types.Type, v *Term) *Term {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return x.zero
			}
			if v == nil {
				return x.ts.zeroOf(t)
			}
			return v
		}
		if len(es) == 0 {
			c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(false), pick(tt.At(1).Type(), nil), pick(tt.At(2).Type(), nil)))
			return true
		}
		e := es[0]
		x.setMap(s, it, es[1:])
		c.env.set(i, x.ts.mk(OTuple, i.Type(), "", 0, x.ts.boolc(true), pick(tt.At(1).Type(), e.k), pick(tt.At(2).Type(), e.v)))
		return true
	}
	return false
}

// ---- describing a world -----------------------------------------------------

// A world is written "env<P@F a=x b=!y ; P z=1 ; %F k:=v p*:=%G ; %G": the
// environment env inside P with frame F, where a is x and b a protected y.
type worldObj struct {
	name  string
	obj   *Term
	m     *Term
	frame bool
	table bool
}

func (x *Exec) buildWorld(s *State, src string) {
	pr := x.pr
	if x.shapes == nil {
		x.shapes = map[string]*Term{}
	}
	x.names = map[*Term]string{}
	x.world = map[string]*worldObj{}
	x.worldOrder = nil
	named := func(name string) *worldObj {
		if o := x.world[name]; o != nil {
			return o
		}
		o := &worldObj{name: name, frame: name[0] == '%'}
		n, mf := pr.envT, "Bindings"
		if o.frame {
			n, mf = pr.frameMapT, "Data"
		}
		o.obj = x.allocT(s, n)
		x.names[o.obj] = name
		f := x.field(o.obj, mf)
		o.m = x.ts.alloc(ptrElem(f.typ), nil)
		s.esc.set(o.m, false)
		s.heap.set(f, o.m)
		x.setMap(s, o.m, nil)
		if !o.frame {
			s.heap.set(x.field(o.obj, "Name"), x.ts.constv(constant.MakeString(name), types.Typ[types.String]))
		}
		// the value wrapping it
		kind := "Environment"
		if o.frame {
			kind = "Frame"
		}
		d := x.allocT(s, pr.dataT)
		st := pr.dataT.Underlying().(*types.Struct)
		s.heap.set(x.fieldAddr(d, pr.fType), x.ts.intc(int64(pr.kindNum[kind]), st.Field(pr.fType).Type()))
		s.heap.set(x.fieldAddr(d, pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, o.obj))
		x.names[d] = name
		x.shapes[name] = d
		x.world[name] = o
		x.worldOrder = append(x.worldOrder, o)
		return o
	}
	var top []string // entries of the table of top-level environments
	for _, part := range strings.Split(src, ";") {
		fs := strings.Fields(part)
		if len(fs) == 0 {
			continue
		}
		if fs[0] == "top" {
			top = append(top, fs[1:]...)
			continue
		}
		head := fs[0]
		fr, restricted := "", strings.HasSuffix(head, "!")
		head = strings.TrimSuffix(head, "!")
		if i := strings.Index(head, "@"); i >= 0 {
			head, fr = head[:i], head[i+1:]
		}
		parent := ""
		if i := strings.Index(head, "<"); i >= 0 {
			head, parent = head[:i], head[i+1:]
		}
		o := named(head)
		if parent != "" {
			s.heap.set(x.field(o.obj, "Parent"), named(parent).obj)
		}
		if restricted {
			s.heap.set(x.field(o.obj, "IsRestricted"), x.ts.boolc(true))
		}
		if fr != "" {
			s.heap.set(x.field(o.obj, "Frame"), named("%"+fr).obj)
		}
		for _, b := range fs[1:] {
			kv := strings.SplitN(b, "=", 2)
			prot := strings.HasPrefix(kv[1], "!")
			vs := strings.TrimPrefix(kv[1], "!")
			var v *Term
			switch {
			case vs == "nil":
				v = x.ts.nilOf(x.dataPtr())
			case vs[0] == '%' || vs[0] == '&':
				named(strings.TrimPrefix(vs, "&"))
				v = x.shapes[strings.TrimPrefix(vs, "&")]
			default:
				v = x.shape1(s, vs)
			}
			k := x.ts.constv(constant.MakeString(kv[0]), types.Typ[types.String])
			if !o.frame {
				bt := callableT(pr, "Binding")
				bd := x.allocT(s, bt)
				x.names[bd] = o.name + "." + kv[0]
				s.heap.set(x.field(bd, "Sym"), x.shape1(s, "'"+kv[0]))
				s.heap.set(x.field(bd, "Val"), v)
				s.heap.set(x.field(bd, "Protected"), x.ts.boolc(prot))
				v = bd
			}
			x.mapPut(s, o.m, k, v)
		}
	}
	if g := x.world["Global"]; g != nil {
		m := x.pr.lisp.Members["Global"].(*ssa.Global)
		s.heap.set(x.ts.mk(OGlobal, m.Type(), m.Name(), 0), g.obj)
		m = x.pr.lisp.Members["TopLevelEnvironments"].(*ssa.Global)
		f := x.field(x.ts.mk(OGlobal, m.Type(), m.Name(), 0), "Environments")
		o := &worldObj{name: "top", table: true, frame: true, obj: f}
		o.m = x.ts.alloc(ptrElem(f.typ), nil)
		s.esc.set(o.m, false)
		s.heap.set(f, o.m)
		x.setMap(s, o.m, nil)
		x.world["top"] = o
		x.worldOrder = append(x.worldOrder, o)
		x.mapPut(s, o.m, x.ts.constv(constant.MakeString("SystemGlobal"), types.Typ[types.String]), g.obj)
		for _, b := range top {
			kv := strings.SplitN(b, "=&", 2)
			x.mapPut(s, o.m, x.ts.constv(constant.MakeString(strings.ReplaceAll(kv[0], "_", " ")), types.Typ[types.String]), named(kv[1]).obj)
		}
	}
	x.world0 = x.worldNow(s)
}

// worldNow describes every entry of the world's tables.
func (x *Exec) worldNow(s *State) map[string]string {
	out := map[string]string{}
	for _, o := range x.worldOrder {
		es, ok := x.mapEnts(s, o.m)
		if !ok {
			out[o.name] = "unknown"
			continue
		}
		for _, e := range es {
			out[o.name+"."+e.key] = x.entry(s, o, e)
		}
		if o.table {
			continue
		}
		if cur := strip(x.load(s, x.field(o.obj, map[bool]string{true: "Data", false: "Bindings"}[o.frame]))); cur != o.m {
			out[o.name] = "another table"
		}
		if !o.frame {
			for _, f := range []string{"Parent", "Frame", "IsRestricted"} {
				if n := x.nm(s, x.load(s, x.field(o.obj, f))); n != "nil" && n != "false" {
					out[o.name+"/"+f] = n
				}
			}
		}
	}
	return out
}

func (x *Exec) entry(s *State, o *worldObj, e mapEnt) string {
	if o.frame {
		return x.nm(s, e.v)
	}
	b := strip(e.v)
	if b.isNilConst() {
		return "no binding"
	}
	v := x.nm(s, x.load(s, x.field(b, "Val")))
	p := x.load(s, x.field(b, "Protected"))
	switch x.decide(s, p) {
	case 1:
		v = "!" + v
	case 0:
		v = "?" + v
	}
	if y := x.nm(s, x.load(s, x.field(b, "Sym"))); y != "'"+e.key {
		v += " as " + y
	}
	return v
}

// worldDiff lists what changed.
func (x *Exec) worldDiff(s *State) string {
	now := x.worldNow(s)
	all := map[string]bool{}
	for k := range now {
		all[k] = true
	}
	for k := range x.world0 {
		all[k] = true
	}
	var out []string
	for _, k := range sortedKeys(all) {
		a, had := x.world0[k]
		b, has := now[k]
		switch {
		case !has:
			out = append(out, k+" gone")
		case !had || a != b:
			out = append(out, k+"="+b)
		}
	}
	r := ""
	for _, o := range out {
		r += o + "; "
	}
	return r
}

// frameText prints a new frame or environment.
func (x *Exec) frameText(s *State, o *Term, d int) (string, bool) {
	if !x.rules.World || o.op != OAlloc {
		return "", false
	}
	switch {
	case x.pr.isPtrTo(o.typ, x.pr.frameMapT):
		es, ok := x.mapEnts(s, x.load(s, x.field(o, "Data")))
		if !ok {
			return "", false
		}
		m := map[string]bool{}
		for _, e := range es {
			m[e.key+"="+x.nmD(s, e.v, d+4)] = true
		}
		return "{" + strings.Join(sortedKeys(m), " ") + "}", true
	case x.pr.isPtrTo(o.typ, x.pr.primT):
		r := "prim " + x.nmD(s, x.load(s, x.field(o, "Name")), d+4)
		for _, f := range []string{"Special", "IsRestricted"} {
			r += " " + f + "=" + x.nmD(s, x.load(s, x.field(o, f)), d+4)
		}
		return r + " " + x.nmD(s, x.load(s, x.field(o, "Body")), d+4), true
	case x.pr.isPtrTo(o.typ, x.pr.envT):
		es, ok := x.mapEnts(s, x.load(s, x.field(o, "Bindings")))
		if !ok {
			return "", false
		}
		m := map[string]bool{}
		for _, e := range es {
			m[e.key+"="+x.entry(s, &worldObj{}, e)] = true
		}
		for _, f := range []string{"Parent", "Frame", "IsRestricted"} {
			if n := x.nmD(s, x.load(s, x.field(o, f)), d+4); n != "nil" && n != "false" {
				m[f+" "+n] = true
			}
		}
		return "[" + strings.Join(sortedKeys(m), " ") + "]", true
	}
	return "", false
}

// setModel models the set of visited frames.
func setModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn == nil || ci.fn.Pkg == nil && ci.fn.Object() == nil {
		return nil, false
	}
	n := ci.fn.String()
	if !strings.Contains(n, "SteelSeries/set") {
		return nil, false
	}
	tv := x.ts.boolc(true)
	items := func(t *Term) ([]*Term, bool) { return x.sliceElems(s, t) }
	short := n[strings.LastIndex(n, ".")+1:]
	switch short {
	case "New":
		rt := ci.fn.Signature.Results().At(0).Type()
		m := x.ts.alloc(rt, nil)
		s.esc.set(m, false)
		x.setMap(s, m, nil)
		if len(ci.args) == 1 && !strip(ci.args[0]).isNilConst() {
			its, ok := items(ci.args[0])
			if !ok {
				return nil, false
			}
			for _, t := range its {
				x.mapPut(s, m, t, tv)
			}
		}
		return one(s, m), true
	case "Add", "Remove", "Has":
		its, ok := items(ci.args[1])
		if _, known := x.mapEnts(s, ci.args[0]); !ok || !known {
			return nil, false
		}
		all := 1
		for _, t := range its {
			switch short {
			case "Add":
				x.mapPut(s, ci.args[0], t, tv)
			case "Remove":
				x.mapDel(s, ci.args[0], t)
			default:
				_, d := x.mapGet(s, ci.args[0], t)
				all = min(all, d)
			}
		}
		if short != "Has" {
			return one(s), true
		}
		if all == 0 {
			return nil, false
		}
		return one(s, x.ts.boolc(all > 0 && len(its) > 0)), true
	}
	return nil, false
}

// wroot runs a function in a world; args name values, symbols and objects.
func wroot(fn, world, args string, want ...string) troot {
	return troot{name: fmt.Sprintf("%s / (%s) in {%s}", fn, args, world), fn: fn, want: want, world: true, mk: func(x *Exec, s *State) []*Term {
		x.shapes = map[string]*Term{}
		x.buildWorld(s, world)
		return x.worldArgs(s, fn, args)
	}}
}

// worldArgs: "env" and "%F" used where a pointer is expected are the objects
// themselves; "$name" is a Go string, "true"/"false" booleans.
func (x *Exec) worldArgs(s *State, fn, args string) []*Term {
	f := x.pr.fn(fn)
	var out []*Term
	for i, sh := range parseShapes(args) {
		t := f.Params[i].Type()
		switch {
		case sh.isL:
			out = append(out, x.buildShape(s, sh, x.shapes))
		case x.world[sh.name] != nil && !x.isData(t):
			out = append(out, x.world[sh.name].obj)
		case sh.name == "nil":
			out = append(out, x.ts.zeroOf(t))
		case sh.name == "fn":
			out = append(out, x.ts.sym(t, "shape", "fn", nil))
		case sh.name == "true" || sh.name == "false":
			out = append(out, x.ts.boolc(sh.name == "true"))
		case sh.name[0] == '$':
			n := sh.name[1:]
			if sh.kinds != "" || strings.HasSuffix(args, n+":") {
				n += ":" + sh.kinds
			}
			out = append(out, x.ts.constv(constant.MakeString(n), types.Typ[types.String]))
		default:
			out = append(out, x.buildShape(s, sh, x.shapes))
		}
	}
	return out
}
