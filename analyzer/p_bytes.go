package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Byte arrays: which bytes the result holds, and which the arguments hold
// afterwards.

var byteType = types.Universe.Lookup("byte").Type()

func byteSlice() types.Type { return types.NewSlice(byteType) }

// byteArray builds a byte array of n unknown bytes.
func (x *Exec) byteArray(s *State, name string, n int64) *Term {
	it := types.Typ[types.Int]
	sl := x.ts.alloc(byteSlice(), nil)
	s.esc.set(sl, false)
	l := x.ts.mk(OLen, it, "", 0, sl)
	x.assumeLe(s, l, x.ts.intc(n, it), 0)
	x.assumeLe(s, x.ts.intc(n, it), l, 0)
	pt := types.NewPointer(byteType)
	for i := int64(0); i < n; i++ {
		b := x.ts.sym(byteType, "shape", fmt.Sprintf("%s%d", name, i), nil)
		s.heap.set(x.indexAddr(s, pt, sl, x.ts.intc(i, it)), b)
	}
	v := x.ts.alloc(x.pr.ptrTo(byteSlice()), nil)
	s.esc.set(v, false)
	s.heap.set(v, sl)
	return x.boxed(s, "[]byte", v)
}

// boxed builds a boxed object of the given label.
func (x *Exec) boxed(s *State, label string, v *Term) *Term {
	up := types.Typ[types.UnsafePointer]
	box := x.allocT(s, x.pr.boxedT)
	s.heap.set(x.field(box, "ObjType"), x.ts.constv(constStr(label), types.Typ[types.String]))
	s.heap.set(x.field(box, "Obj"), x.ts.mk(OConv, up, "", 0, v))
	d := x.allocT(s, x.pr.dataT)
	st := x.pr.dataT.Underlying().(*types.Struct)
	s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum["BoxedObject"]), st.Field(x.pr.fType).Type()))
	s.heap.set(x.fieldAddr(d, x.pr.fValue), x.ts.mk(OConv, up, "", 0, box))
	return d
}

// byteStore is the storage of a byte array that holds any bytes.
func (x *Exec) byteStore(s *State, d *Term) *Term {
	d = strip(d)
	if t := x.byteText(s, d); t == "" || t == "bytes[]" {
		return nil
	}
	box := strip(x.peekHeap(s, x.fieldAddr(d, x.pr.fValue)))
	sl, _ := s.heap.get(strip(x.peekHeap(s, x.field(box, "Obj"))))
	for sl != nil && (sl.op == OSlice || sl.op == OConv) {
		sl = sl.args[0]
	}
	return sl
}

// byteText renders the bytes of a byte array, "" for anything else.
func (x *Exec) byteText(s *State, d *Term) string {
	d = strip(d)
	if d.op != OAlloc || !x.isData(d.typ) {
		return ""
	}
	if ty, ok := x.peekHeap(s, x.fieldAddr(d, x.pr.fType)).intConst(); !ok || int(ty) != x.pr.kindNum["BoxedObject"] {
		return ""
	}
	box := strip(x.peekHeap(s, x.fieldAddr(d, x.pr.fValue)))
	if box.op != OAlloc {
		return ""
	}
	if l, ok := x.peekHeap(s, x.field(box, "ObjType")).strConst(); !ok || l != "[]byte" {
		return ""
	}
	v := strip(x.peekHeap(s, x.field(box, "Obj")))
	sl, ok := s.heap.get(v)
	if !ok {
		return "bytes?"
	}
	els, ok := x.sliceElems(s, sl)
	if !ok {
		return "bytes?" + x.nm(s, sl)
	}
	var out []string
	for _, e := range els {
		out = append(out, x.byteName(s, e))
	}
	return "bytes[" + strings.Join(out, " ") + "]"
}

func (x *Exec) byteName(s *State, e *Term) string {
	if n, ok := x.constInt(s, e); ok {
		return fmt.Sprint(n)
	}
	for e.op == OConv && isInt(e.typ) && isInt(e.args[0].typ) {
		e = e.args[0]
	}
	return x.nm(s, e)
}

type byteCase struct {
	name, args string
	want       string // result; "error"; "same" is the first argument itself
	after      string // the arguments afterwards, "" for unchanged
}

// byteCases: %a3 is a byte array of three unknown bytes a0 a1 a2.
func byteCases() (out []byteCase) {
	add := func(name, args, want string, after ...string) {
		c := byteCase{name: name, args: args, want: want}
		if len(after) > 0 {
			c.after = after[0]
		}
		out = append(out, c)
	}
	names := func(p string, lo, hi int) string {
		var s []string
		for i := lo; i < hi; i++ {
			s = append(s, fmt.Sprintf("%s%d", p, i))
		}
		return strings.Join(s, " ")
	}
	b := func(parts ...string) string {
		return "bytes[" + strings.Join(strings.Fields(strings.Join(parts, " ")), " ") + "]"
	}
	for n := 0; n <= 6; n++ {
		arr := fmt.Sprintf("%%a%d", n)
		var ints []string
		for i := 0; i < n; i++ {
			ints = append(ints, fmt.Sprintf("a%d", i))
		}
		for _, nm := range []string{"bytearray->list", "bytearray-to-list"} {
			add(nm, arr, "("+strings.Join(ints, " ")+")")
		}
		add("length", arr, fmt.Sprintf("<%d>", n))
		far := []int{-1 << 63, -1 << 32, 1 << 32, 1<<63 - 1}
		near := func() (out []int) {
			for i := -1; i <= n+1; i++ {
				out = append(out, i)
			}
			return append(out, far...)
		}
		for _, i := range near() {
			in := i >= 0 && i < n
			want := "error"
			if in {
				want = fmt.Sprintf("a%d", i)
			}
			add("extract-byte", fmt.Sprintf("%s #%d", arr, i), want)
			for _, v := range []int{-1, 0, 7, 255, 256, 512, 1<<32 + 7, -249} {
				want, after := "error", ""
				if in && v >= 0 && v <= 255 {
					want = b(names("a", 0, i), fmt.Sprint(v), names("a", i+1, n))
					after = want
				}
				add("replace-byte", fmt.Sprintf("%s #%d #%d", arr, i, v), want)
				w := want
				if after != "" {
					w = "same"
				}
				add("replace-byte!", fmt.Sprintf("%s #%d #%d", arr, i, v), w, after)
			}
			for _, k := range near() {
				want := "error"
				if in && k >= 0 && k <= n-i {
					want = b(names("a", i, i+k))
				}
				add("extract-bytes", fmt.Sprintf("%s #%d #%d", arr, i, k), want)
			}
			c := i
			if c < 0 {
				c = 0
			}
			if c > n {
				c = n
			}
			add("take", fmt.Sprintf("#%d %s", i, arr), b(names("a", 0, c)))
			add("drop", fmt.Sprintf("#%d %s", i, arr), b(names("a", c, n)))
		}
		for m := 0; m <= 7; m++ {
			two := fmt.Sprintf("%s %%b%d", arr, m)
			all := b(names("a", 0, n), names("b", 0, m))
			add("append-bytes", two, all)
			add("append-bytes!", two, "same", all)
		}
		if n > 0 {
			add("append-bytes", arr+" "+arr, b(names("a", 0, n), names("a", 0, n)))
			add("append-bytes!", arr+" "+arr, "same", b(names("a", 0, n), names("a", 0, n)))
		}
		for _, nm := range []string{"append-bytes", "append-bytes!"} {
			for _, c := range [][2]string{{"#7", "7"}, {"#7 #255", "7 255"}, {"(#7 #0)", "7 0"}, {"(#7)", "7"}, {"#1 %b2 #2", "1 b0 b1 2"}, {"(%b1 #9)", "b0 9"}, {"%b1 %c1 %d2", "b0 c0 d0 d1"}, {"(%b2)", "b0 b1"}, {"%b1 #3", "b0 3"}, {"%b1 %c2", "b0 c0 c1"}, {"#3 %b1", "3 b0"}, {"#1 #2 #3", "1 2 3"}} {
				w := b(names("a", 0, n), c[1])
				after := ""
				if nm == "append-bytes!" {
					after, w = w, "same"
				}
				add(nm, arr+" "+c[0], w, after)
			}
			for _, c := range []string{"#256", "#-1", "(#7 #256)", "#7 #256", "#512", "#4294967303", "#-249", "\"s", "#1 \"s", "(\"s)", "f:Float", "(#1) #2", "#2 (#1)", "(#1) (#2)", "%b1 (#1)", "%b1 \"s"} {
				add(nm, arr+" "+c, "error")
			}
		}
	}
	for _, nm := range []string{"list->bytearray", "list-to-bytearray"} {
		add(nm, "(#0 #255 #1)", b("0 255 1"))
		add(nm, "(#7)", b("7"))
		add(nm, "(%a2 #7 %b1)", b("a0 a1 7 b0"))
		add(nm, "(%a1 %a1)", b("a0 a0"))
		add(nm, "(%a3)", b("a0 a1 a2"))
		add(nm, "(%a0)", b(""))
		add(nm, "(%a0 %b2)", b("b0 b1"))
		add(nm, "(%a2 %b0)", b("a0 a1"))
		add(nm, "(#1 %a3)", b("1 a0 a1 a2"))
		for _, e := range []string{"(#256)", "(#-1)", "(#1 #256)", "(#512)", "(#4294967303)", "(#-249)", "(#1 \"s)", "(#1 (#2))", "(f:Float)", "\"s", "#3", "%a2"} {
			add(nm, e, "error")
		}
	}
	for _, nm := range []string{"bytearray->list", "bytearray-to-list"} {
		for _, e := range []string{"(#1)", "#1", "\"s", "f:Float", "p:Frame"} {
			add(nm, e, "error")
		}
	}
	for _, e := range []string{"(#1) #0", "\"s #0", "%a2 \"s", "%a2 f:Float", "#1 #0"} {
		add("extract-byte", e, "error")
		for _, nm := range []string{"replace-byte", "replace-byte!", "extract-bytes"} {
			add(nm, e+" #1", "error")
		}
	}
	for _, nm := range []string{"replace-byte", "replace-byte!", "extract-bytes"} {
		for _, e := range []string{"%a2 #0 \"s", "%a2 #0 f:Float", "%a2 #0 (#1)"} {
			add(nm, e, "error")
		}
	}
	for _, nm := range []string{"append-bytes", "append-bytes!"} {
		for _, e := range []string{"(#1) #1", "\"s #1", "#1 #1", "#1 %a1"} {
			add(nm, e, "error")
		}
	}
	return
}

var byteTok = regexp.MustCompile(`%([a-z])(\d)`)

func byteRoots() (out []troot) {
	for _, c := range byteCases() {
		c := c
		t := troot{name: fmt.Sprintf("builtin %s / (%s %s)", c.name, c.name, c.args), builtin: c.name, min: 1}
		args := map[string]*Term{}
		var first *Term
		t.mk = func(x *Exec, s *State) []*Term {
			env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
			x.setNil(s, env, false)
			x.shapes = map[string]*Term{}
			for _, m := range byteTok.FindAllStringSubmatch(c.args, -1) {
				var n int64
				fmt.Sscan(m[2], &n)
				if x.shapes[m[0]] == nil {
					x.shapes[m[0]] = x.byteArray(s, m[1], n)
					args[m[0]] = x.shapes[m[0]]
				}
			}
			first = nil
			if i := strings.IndexByte(c.args, ' '); c.args[0] == '%' {
				if i < 0 {
					i = len(c.args)
				}
				first = x.shapes[c.args[:i]]
			}
			return []*Term{x.shapeList(s, c.args), env}
		}
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			for _, k := range sortedTermKeys(args) {
				n := int(k[2] - '0')
				var els []string
				for i := 0; i < n; i++ {
					els = append(els, fmt.Sprintf("%c%d", k[1], i))
				}
				want := "bytes[" + strings.Join(els, " ") + "]"
				if c.after != "" && strings.HasPrefix(c.args, k) {
					want = c.after
				}
				if got := x.byteText(s, args[k]); got != want {
					return fmt.Sprintf("afterwards %s holds %s, not %s", k, got, want)
				}
			}
			owner := map[*Term]string{}
			for _, k := range sortedTermKeys(args) {
				st := x.byteStore(s, args[k])
				if st != nil && owner[st] != "" {
					return fmt.Sprintf("afterwards %s and %s share their bytes", owner[st], k)
				}
				owner[st] = k
			}
			if c.want == "error" {
				if !failed {
					return "this is no error"
				}
				return ""
			}
			if failed {
				return "this fails"
			}
			r := strip(rs[0])
			if c.want == "same" {
				if r != first {
					return "the result is not the array that was changed"
				}
				return ""
			}
			got := x.byteText(s, r)
			if got == "" {
				got = x.byteList(s, r)
			} else if first != nil && r == first {
				return "the result is the argument itself"
			}
			if st := x.byteStore(s, r); st != nil && owner[st] != "" {
				return "the result shares its bytes with " + owner[st]
			}
			if got != c.want {
				return fmt.Sprintf("the result is %s, not %s", got, c.want)
			}
			return ""
		}
		out = append(out, t)
	}
	return
}

// byteList names a result that is an integer made of a byte, or a list of such.
func (x *Exec) byteList(s *State, d *Term) string {
	if x.kindsOf(s, d)&^x.pr.kind("Integer") == 0 {
		if p := x.payload(s, d); p != nil {
			if n, ok := x.constInt(s, p); ok {
				return fmt.Sprintf("<%d>", n)
			}
			return x.byteName(s, p)
		}
	}
	if !x.isMaterialised(s, d) {
		return x.nm(s, d)
	}
	var out []string
	for i := 0; i < 12; i++ {
		e := x.listElem(s, d, i)
		if e == nil {
			break
		}
		if x.kindsOf(s, e)&x.pr.kind("Integer") == 0 {
			break
		}
		out = append(out, x.byteList(s, e))
	}
	return "(" + strings.Join(out, " ") + ")"
}

func sortedTermKeys(m map[string]*Term) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// copyModel gives the builtin copy its effect on slices whose elements are
// known.
func (x *Exec) copyModel(s *State, dst, src *Term) *Term {
	it := types.Typ[types.Int]
	nd, ok1 := x.constInt(s, x.lenTerm(s, dst))
	ns, ok2 := x.constInt(s, x.lenTerm(s, src))
	if ok1 && ok2 {
		if ns < nd {
			nd = ns
		}
		if nd == 0 {
			return x.ts.intc(0, it)
		}
		if els, ok := x.sliceElems(s, src); ok && x.tracked(s, dst) {
			pt := types.NewPointer(elemOf(dst.typ))
			for i := int64(0); i < nd; i++ {
				x.store(s, x.indexAddr(s, pt, dst, x.ts.intc(i, it)), els[i])
			}
			return x.ts.intc(nd, it)
		}
	}
	return nil
}

// forgetElems forgets the elements of a slice that was written wholesale.
func (x *Exec) forgetElems(s *State, sl *Term) {
	for sl.op == OSlice || sl.op == OConv {
		sl = sl.args[0]
	}
	if sl.op == OAlloc {
		x.verN++
		s.ver.set("alloc"+fmt.Sprint(sl.id), x.verN)
	}
	var kill []*Term
	s.heap.each(func(k, v *Term) {
		if k.op == OIndexAddr && k.args[0] == sl {
			kill = append(kill, k)
		}
	})
	for _, k := range kill {
		s.heap.set(k, x.ts.sym(elemOf(sl.typ), "copied", "", nil))
	}
}

func init() {
	props["C26"] = &Prop{id: "C26", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "bytes", byteRoots(), traceOpts{})
	}}
}
