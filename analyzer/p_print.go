package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Printing: the text a value is shown as.

// printText: a text as it is put together: constants, with what is unknown
// between « and ».
func (x *Exec) printText(s *State, t *Term) string {
	t = inner(t)
	if v, ok := t.strConst(); ok {
		return v
	}
	if f := x.fact(s, t); f.cst != nil {
		if v, ok := f.cst.strConst(); ok {
			return v
		}
	}
	if t.op == OBin && t.aux == "+" {
		return x.printText(s, t.args[0]) + x.printText(s, t.args[1])
	}
	if t.op == OConv && len(t.args) == 1 && isSliceLike(t.args[0].typ) {
		if els, ok := x.sliceElems(s, t.args[0]); ok {
			v := ""
			for _, e := range els {
				n, ok := x.constInt(s, e)
				if !ok {
					return "«" + x.nm(s, t) + "»"
				}
				if bits, _ := intSize(elemOf(t.args[0].typ)); bits == 8 {
					v += string([]byte{byte(n)})
				} else {
					v += string(rune(n))
				}
			}
			return v
		}
	}
	if t.op == OCall && (t.aux == "digits%d" || t.aux == "digits%g" || t.aux == "printed") {
		a := t.args[0]
		if n, ok := x.constInt(s, a); ok && t.aux == "digits%d" {
			return strconv.FormatInt(n, 10)
		}
		for a.op == OConv && (isInt(a.typ) && isInt(a.args[0].typ) && widens(a.args[0].typ, a.typ) || isFloat(a.typ) && isFloat(a.args[0].typ)) {
			a = a.args[0]
		}
		return "«" + t.aux + " " + strings.Trim(x.nm(s, a), "<>") + "»"
	}
	return "«" + x.nm(s, t) + "»"
}

// printed is a value and the text it is shown as.
type printed struct {
	val  string // as buildPrint reads it
	text string
	top  bool // only by itself
}

// pvals: the values, by the way they are made.
//
//	a        anything
//	n:Integer f:Float b:Boolean 's a symbol
//	"..."    a string with exactly those characters
//	(a b . c) a list; A(k v) an alist; F(k: v) a frame; [2 n bytes
//	fn:Function and so on, with names
func printVals(th bool) (out []printed) {
	add := func(v, t string) { out = append(out, printed{val: v, text: t}) }
	add("nil", "()")
	add("()", "()")
	add("a", "«printed a»")
	add("n:Integer", "«digits%d n»")
	for _, n := range []string{"0", "7", "-1", "255", "-9223372036854775808"} {
		add("#"+n, n)
	}
	add("#t", "#t")
	add("#f", "#f")
	add("'sym", "sym")
	add("'k:", "k:")
	add("'quote", "quote")
	add("fn:Function", "<function: fn>")
	add("ma:Macro", "<macro: ma>")
	add("pr:Primitive", "<prim: pr>")
	add("en:Environment", "<environment: en>")
	odd := []string{"", "a", `"`, `\`, "\n", " ", "(", "é", "日", "a b", `a"b`, `a\b`, `\"`, `"\`, `""`, `\\`, `a"`, `"a`, `\n`, "'", ";", "\t"}
	esc := func(v string) string { return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(v) + `"` }
	for i, o := range odd {
		add("\""+strconv.QuoteToASCII(o), esc(o))
		for k, p := range odd {
			if th || (i+k)%3 == 0 {
				add("\""+strconv.QuoteToASCII(o+p), esc(o+p))
			}
		}
	}
	for n := 0; n <= 5; n++ {
		var bs []string
		for i := 0; i < n; i++ {
			bs = append(bs, fmt.Sprintf("«digits%%d y%d»", i))
		}
		add(fmt.Sprintf("%%y%d", n), "["+strings.Join(bs, " ")+"]")
	}
	add("f:Float", "«float f»")
	add("{}", "{}")
	add("{k: a}", "{k: «printed a»}")
	add("{l: n:Integer k: a m: nil}", "{k: «printed a» l: «digits%d n» m: ()}")
	add("{m: b l: f:Float k: #t a: 's}", "{a: s k: #t l: «float f» m: «printed b»}")
	add("{k: \"\"q\\\"r\"}", `{k: "q\"r"}`)
	add("{k: (\"\"s\" a) j: (f:Float)}", `{j: («float f») k: ("s" «printed a»)}`)
	add("{k: {j: \"\"t\"}}", `{k: {j: "t"}}`)
	base := append([]printed(nil), out...)
	pick := func(i int) printed { return base[(i*7+3)%len(base)] }
	isNil := func(p printed) bool { return p.text == "()" }
	// lists of them
	lists := func(ps ...printed) {
		var vs, ts []string
		if ps[len(ps)-1].val == "nil" {
			return // a cell of two nil pointers is the empty list itself
		}
		for _, p := range ps {
			vs, ts = append(vs, p.val), append(ts, p.text)
		}
		if len(ps) == 2 && ps[0].val == "'quote" {
			add("("+strings.Join(vs, " ")+")", "'"+ts[1])
		} else if len(ps) != 1 || ps[0].val != "'quote" {
			add("("+strings.Join(vs, " ")+")", "("+strings.Join(ts, " ")+")")
		}
		n := len(ps) - 1
		if c := ps[n].val; n > 0 && !isNil(ps[n]) && (strings.ContainsAny(c[:1], "#'\"%") || strings.Contains(c, ":") && c[0] != '(' && c[0] != 'A' && c[0] != 'P') {
			add("("+strings.Join(vs[:n], " ")+" . "+vs[n]+")", "("+strings.Join(ts[:n], " ")+" . "+ts[n]+")")
		}
	}
	q, a := printed{val: "'quote", text: "quote"}, printed{val: "a", text: "«printed a»"}
	b := printed{val: "b", text: "«printed b»"}
	for i, p := range base {
		lists(p)
		lists(p, pick(i))
		lists(a, p, pick(i+1))
		lists(pick(i), a, p)
		lists(q, p)
		lists(q, p, pick(i))
		lists(a, q, p)
		lists(q, q, p)
	}
	lists(q, a)
	lists(q, a, b)
	lists(q, q)
	lists(q, a, a, b)
	str := func(v string) printed { return printed{val: "\"" + strconv.QuoteToASCII(v), text: esc(v)} }
	lists(str("quote"), a)
	lists(str("quote"), q)
	lists(printed{val: "'quotes", text: "quotes"}, a)
	lists(printed{val: "'quasiquote", text: "quasiquote"}, a)
	add("('quote . n:Integer)", "(quote . «digits%d n»)")
	many := []printed{}
	for i := 0; i < 20; i++ {
		many = append(many, printed{val: fmt.Sprintf("m%d:Integer", i), text: fmt.Sprintf("«digits%%d m%d»", i)})
	}
	lists(many...)
	lists(many[:11]...)
	// lists of lists
	for i, p := range append([]printed(nil), out[len(base):]...) {
		if i%3 != 0 && !th {
			continue
		}
		lists(p, a)
		lists(a, p)
		lists(q, p)
		add("A('k "+p.val+" 'l a)", "((k . "+p.text+") (l . «printed a»))")
	}
	for i, p := range base {
		o := pick(i + 2)
		add("A('k "+p.val+")", "((k . "+p.text+"))")
		add("A('k a 'l "+p.val+")", "((k . «printed a») (l . "+p.text+"))")
		add("A("+p.val+" a "+o.val+" b)", "(("+p.text+" . «printed a») ("+o.text+" . «printed b»))")
		add("(A('k "+p.val+") a)", "(((k . "+p.text+")) «printed a»)")
		add("P('k . "+p.val+")", "(k . "+p.text+")")
	}
	return
}

// buildPrint makes a value.
func (x *Exec) buildPrint(s *State, toks []string, at *int) *Term {
	nilD := x.ts.nilOf(x.dataPtr())
	kind := func(d *Term, k string) *Term {
		st := x.pr.dataT.Underlying().(*types.Struct)
		s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum[k]), st.Field(x.pr.fType).Type()))
		return d
	}
	t := toks[*at]
	*at++
	switch t {
	case "{":
		f := ""
		for i := 0; f == ""; i++ {
			if n := fmt.Sprintf("%%F%d", i); x.world[n] != nil && !x.worldUsed[n] {
				f = n
			}
		}
		x.worldUsed[f] = true
		for toks[*at] != "}" {
			k := toks[*at]
			*at++
			v := x.buildPrint(s, toks, at)
			x.mapPut(s, x.world[f].m, x.ts.constv(constStr(k), stringT), v)
		}
		*at++
		return x.shapes[f]
	case "(", "P(":
		var els []*Term
		tail := nilD
		for toks[*at] != ")" {
			if toks[*at] == "." {
				*at++
				tail = x.buildPrint(s, toks, at)
				continue
			}
			els = append(els, x.buildPrint(s, toks, at))
		}
		*at++
		if len(els) == 0 {
			return x.cons(s, nilD, nilD)
		}
		for i := len(els) - 1; i >= 0; i-- {
			tail = x.cons(s, els[i], tail)
		}
		if t == "P(" {
			kind(tail, "AlistCell")
		}
		return tail
	case "A(":
		var els []*Term
		for toks[*at] != ")" {
			els = append(els, x.buildPrint(s, toks, at))
		}
		*at++
		r := nilD
		for i := len(els) - 2; i >= 0; i -= 2 {
			r = kind(x.cons(s, kind(x.cons(s, els[i], els[i+1]), "AlistCell"), r), "Alist")
		}
		return r
	case "nil":
		return nilD
	}
	name, k, _ := strings.Cut(t, ":")
	switch {
	case t[0] == '"':
		v, _ := strconv.Unquote(t[1:])
		return x.construct(s, "StringWithValue", x.ts.constv(constStr(v), stringT))
	case t[0] == '%' && t[1] == 'y':
		n, _ := strconv.Atoi(t[2:])
		return x.byteArray(s, "y", int64(n))
	case t[0] == '#' && t[1] != 't' && t[1] != 'f':
		n, _ := strconv.ParseInt(t[1:], 10, 64)
		return x.construct(s, "IntegerWithValue", x.ts.intc(n, types.Typ[types.Int64]))
	case t[0] == '\'':
		return x.construct(s, "SymbolWithName", x.ts.constv(constStr(t[1:]), stringT))
	case k == "Function" || k == "Macro" || k == "Primitive" || k == "Environment":
		d := x.shape1(s, t)
		st := map[string]string{"Function": "Function", "Macro": "Macro", "Primitive": "PrimitiveFunction", "Environment": "SymbolTableFrame"}[k]
		v := x.load(s, x.fieldAddr(d, x.pr.fValue))
		pt := x.pr.ptrTo(callableT(x.pr, st))
		p := x.conv(s, pt, v)
		s.heap.set(x.field(p, "Name"), x.ts.constv(constStr(name), stringT))
		return d
	case k == "" && t[0] != '#': // anything but a symbol, for that may be quote
		var ks []string
		for n := range x.pr.kindNum {
			if n != "Symbol" {
				ks = append(ks, n)
			}
		}
		sort.Strings(ks)
		d := x.shape1(s, t+":"+strings.Join(ks, "|"))
		x.setNil(s, d, false)
		return d
	}
	return x.shape1(s, t)
}

// printToks cuts a value into its tokens; strings are quoted.
func printToks(v string) (out []string) {
	for len(v) > 0 {
		switch {
		case v[0] == ' ':
			v = v[1:]
		case strings.ContainsAny(v[:1], "(){}"):
			out = append(out, v[:1])
			v = v[1:]
		case strings.HasPrefix(v, "A(") || strings.HasPrefix(v, "P("):
			out = append(out, v[:2])
			v = v[2:]
		case v[0] == '"':
			q, err := strconv.QuotedPrefix(v[1:])
			if err != nil {
				panic(err)
			}
			out = append(out, "\""+q)
			v = v[1+len(q):]
		default:
			n := strings.IndexAny(v, " (){}")
			if n < 0 {
				n = len(v)
			}
			out = append(out, v[:n])
			v = v[n:]
		}
	}
	return
}

// floatClasses: what there is to a number, and how it is shown.
type floatClass struct {
	name, text         string
	inf, neg, nan, dot bool
	anySign            bool
}

var floatClasses = []floatClass{
	{name: "infinite", text: "+inf", inf: true},
	{name: "negative and infinite", text: "-inf", inf: true, neg: true},
	{name: "not a number", text: "nan", nan: true, anySign: true},
	{name: "one with a point", text: "«digits%g f»", dot: true, anySign: true},
	{name: "one without a point", text: "«digits%g f».0", anySign: true},
}

// floatIs: what was found of the number allows the class.
func (x *Exec) floatIs(s *State, c floatClass) bool {
	for k, v := range x.floatAsked {
		d := x.decide(s, v)
		if d == 0 {
			continue
		}
		is := false
		switch k {
		case "inf 0":
			is = c.inf
		case "inf 1":
			is = c.inf && !c.neg
		case "inf -1":
			is = c.inf && c.neg
		case "nan":
			is = c.nan
		case "neg":
			if c.anySign {
				continue
			}
			is = c.neg
		case "dot":
			is = c.dot
		}
		if is != (d == 1) {
			return false
		}
	}
	return true
}

// floatModel: the questions asked of a number and of its digits.
func (x *Exec) floatModel(s *State, ci *CallInfo) ([]Outcome, bool) {
	ask := func(k string, a *Term) ([]Outcome, bool) {
		t := x.ts.mk(OCall, types.Typ[types.Bool], "float-"+k, 0, a)
		x.floatAsked[k] = t
		return one(s, t), true
	}
	num := func(a *Term) (*Term, bool) {
		for a.op == OConv && isFloat(a.typ) && isFloat(a.args[0].typ) {
			a = a.args[0]
		}
		return a, x.nm(s, a) == "f"
	}
	switch ci.name {
	case "math.IsInf":
		if f, ok := num(ci.args[0]); ok {
			if n, ok := x.constInt(s, ci.args[1]); ok && n >= -1 && n <= 1 {
				return ask(fmt.Sprintf("inf %d", n), f)
			}
		}
	case "math.IsNaN":
		if f, ok := num(ci.args[0]); ok {
			return ask("nan", f)
		}
	case "math.Signbit":
		if f, ok := num(ci.args[0]); ok {
			return ask("neg", f)
		}
	case "strings.ContainsRune", "strings.Contains", "strings.ContainsAny", "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny":
		t := inner(ci.args[0])
		is := false
		if n, ok := x.constInt(s, ci.args[1]); ok {
			is = n == '.'
		} else if c, ok := ci.args[1].strConst(); ok {
			is = c == "."
		}
		if is && t.op == OCall && t.aux == "digits%g" {
			if !strings.HasPrefix(ci.name, "strings.Index") {
				return ask("dot", t.args[0])
			}
			outs, _ := ask("dot", t.args[0])
			q, no := outs[0].rets[0], s.fork()
			it := types.Typ[types.Int]
			var res []Outcome
			if x.assume(s, q, true) {
				at := x.ts.mk(OCall, it, "float-at", 0, t)
				x.assumeLe(s, x.zero, at, 0)
				s.setTag("br", s.tag("br")+"dot;")
				res = append(res, one(s, at)...)
			}
			if x.assume(no, q, false) {
				no.setTag("br", no.tag("br")+"nodot;")
				res = append(res, one(no, x.ts.intc(-1, it))...)
			}
			return res, true
		}
	}
	return nil, false
}

// sortModel: texts that are known are put in order, as the comparison of
// them has it.
func (x *Exec) sortModel(s *State, ci *CallInfo) ([]Outcome, bool) {
	switch ci.name {
	case "sort.Strings", "slices.Sort", "sort.Slice", "sort.SliceStable":
	default:
		return nil, false
	}
	sl := inner(ci.args[0])
	els, ok := x.sliceElems(s, sl)
	if !ok {
		return nil, false
	}
	at := func(i int) *Term {
		return x.indexAddr(s, types.NewPointer(elemOf(sl.typ)), sl, x.ts.intc(int64(i), types.Typ[types.Int]))
	}
	if len(ci.args) == 2 {
		f := ci.args[1]
		if f.fn == nil || f.op != OClosure && f.op != OFunc {
			return nil, false
		}
		var bind []*Term
		if f.op == OClosure {
			bind = f.args
		}
		it := types.Typ[types.Int]
		for i := 1; i < len(els); i++ {
			for j := i; j > 0; j-- {
				outs := x.runFunction(f.fn, []*Term{x.ts.intc(int64(j), it), x.ts.intc(int64(j-1), it)}, bind, s, ci.site)
				if len(outs) != 1 || outs[0].panicked || len(outs[0].rets) != 1 {
					return nil, false
				}
				s = outs[0].st
				d := x.decide(s, outs[0].rets[0])
				if d == 0 {
					return nil, false
				}
				if d < 0 {
					break
				}
				a, b := x.load(s, at(j)), x.load(s, at(j-1))
				s.heap.set(at(j), b)
				s.heap.set(at(j-1), a)
			}
		}
		return one(s), true
	}
	var vs []string
	for _, e := range els {
		v, ok := e.strConst()
		if !ok {
			return nil, false
		}
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for i, v := range vs {
		s.heap.set(at(i), x.ts.constv(constStr(v), stringT))
	}
	return one(s), true
}

// printModel: a value nothing is known of is shown as it is shown.
func printModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "String", "PrintString":
			d := strip(ci.args[0])
			if d.op == OSym && d.info != nil && d.info.kind == "shape" {
				if n := x.nm(s, d); n == "a" || n == "b" {
					return one(s, x.ts.mk(OCall, stringT, "printed", 0, d)), true
				}
			}
		}
		return nil, false
	}
	if o, ok := x.floatModel(s, ci); ok {
		return o, ok
	}
	if o, ok := x.sortModel(s, ci); ok {
		return o, ok
	}
	return textModel(x, fr, s, ci)
}

func printRoots(th bool) (ts []troot) {
	seen := map[string]bool{}
	for _, p := range printVals(th) {
		p := p
		if seen[p.val] {
			continue
		}
		seen[p.val] = true
		for _, fn := range []string{"String", "PrintString"} {
			want := p.text
			if p.val[0] == '"' && fn == "PrintString" {
				want, _ = strconv.Unquote(p.val[1:])
			}
			if p.val == "a" {
				continue
			}
			if fn == "PrintString" && len(p.val) > 12 && len(ts)%5 != 0 {
				continue
			}
			t := troot{name: fn + " / " + p.val, fn: fn, min: 1, world: strings.Contains(p.val, "{")}
			t.mk = func(x *Exec, s *State) []*Term {
				x.floatAsked = map[string]*Term{}
				x.shapes, x.world, x.worldUsed = map[string]*Term{}, nil, map[string]bool{}
				if n := strings.Count(p.val, "{"); n > 0 {
					var fs []string
					for i := 0; i < n; i++ {
						fs = append(fs, fmt.Sprintf("%%F%d", i))
					}
					x.buildWorld(s, strings.Join(fs, " ; "))
				}
				at := 0
				return []*Term{x.buildPrint(s, printToks(p.val), &at)}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				got := x.printText(s, rs[0])
				if !strings.Contains(want, "«float f»") {
					if got != want {
						return fmt.Sprintf("it is shown as %s, not %s", got, want)
					}
					return ""
				}
				for _, c := range floatClasses {
					if x.floatIs(s, c) {
						if w := strings.ReplaceAll(want, "«float f»", c.text); got != w {
							return fmt.Sprintf("a number that is %s is shown as %s, not %s", c.name, got, w)
						}
					}
				}
				return ""
			}
			ts = append(ts, t)
		}
	}
	return
}

func init() {
	props["C19"] = &Prop{id: "C19", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "print", printRoots(th), traceOpts{call: printModel, fork: forkEach, endless: true, inline: setOf("String", "PrintString"), world: true})
	}}
}
