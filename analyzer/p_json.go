package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Values to JSON and back.

// jsonText: a Go value as encoding/json would write it, with what is unknown
// between « and ».
func (x *Exec) jsonText(s *State, t *Term) string {
	for t.op == OIface {
		t = t.args[0]
	}
	if t.isNilConst() && !isSliceLike(t.typ) {
		return "null"
	}
	if t.op == OCall && (t.aux == "json" || t.aux == "scalar") {
		return "«" + t.aux + " " + x.nm(s, t.args[0]) + "»"
	}
	if m, ok := t.typ.Underlying().(*types.Map); ok {
		if !isString(m.Key()) {
			return "?" + x.nm(s, t)
		}
		es, ok := x.mapEnts(s, t)
		if !ok {
			return "?" + x.nm(s, t)
		}
		var vs []string
		for _, e := range es {
			vs = append(vs, x.jsonText(s, e.k)+":"+x.jsonText(s, e.v))
		}
		sort.Strings(vs)
		return "{" + strings.Join(vs, ",") + "}"
	}
	if isSliceLike(t.typ) && !isString(t.typ) {
		els, ok := x.sliceElems(s, t)
		if !ok {
			return "?" + x.nm(s, t)
		}
		var vs []string
		for _, e := range els {
			vs = append(vs, x.jsonText(s, e))
		}
		return "[" + strings.Join(vs, ",") + "]"
	}
	if b, ok := t.boolConst(); ok {
		return fmt.Sprint(b)
	}
	if n, ok := x.constInt(s, t); ok {
		return strconv.FormatInt(n, 10)
	}
	if v, ok := t.strConst(); ok {
		return strconv.QuoteToASCII(v)
	}
	if f := x.fact(s, t); f.cst != nil && f.cst != t {
		return x.jsonText(s, f.cst)
	}
	if isBool(t.typ) && x.decide(s, t) != 0 {
		return fmt.Sprint(x.decide(s, t) > 0)
	}
	for t.op == OConv && isInt(t.args[0].typ) {
		bits, _ := intSize(t.args[0].typ)
		if isInt(t.typ) && widens(t.args[0].typ, t.typ) || isFloat(t.typ) && (bits <= 16 || bits <= 32 && floatBits(t.typ) == 64) {
			t = t.args[0]
			continue
		}
		break
	}
	if t.op == OConv && isFloat(t.typ) != isFloat(t.args[0].typ) || t.op == OConv && isFloat(t.typ) && floatBits(t.typ) != floatBits(t.args[0].typ) {
		return "«" + t.typ.String() + " " + x.nm(s, t.args[0]) + "»"
	}
	return "«" + strings.Trim(x.nm(s, t), "<>") + "»"
}

type jsonCase struct{ fn, val, want string }

func toJSONCases(th bool) (out []jsonCase) {
	type vt struct{ v, j string }
	leaf := []vt{
		{"nil", `""`}, {"()", "[]"}, {"n:Integer", "«n»"}, {"#5", "5"}, {"#-1", "-1"}, {"#9223372036854775807", "9223372036854775807"},
		{"f:Float", "«f»"}, {"#t", "true"}, {"#f", "false"}, {"'sym", `"sym"`}, {`""x\"y\n"`, `"x\"y\n"`}, {`""a:"`, `"a:"`}, {`"""`, `""`},
		{"fn:Function", `""`}, {"pr:Primitive", `""`},
	}
	for _, fn := range []string{"LispToJson", "LispWithFramesToJson"} {
		vals := append([]vt(nil), leaf...)
		if fn == "LispWithFramesToJson" {
			vals = append(vals, vt{"%y0", "[]"}, vt{"%y3", "[«y0»,«y1»,«y2»]"}, vt{"{}", "{}"}, vt{"{k: n:Integer}", `{"k":«n»}`}, vt{"{k: nil l: #f}", `{"k":"","l":false}`},
				vt{"{k: fn:Function l: 's}", `{"l":"s"}`}, vt{"{a: #1 b: {a: #2 c: (n:Integer)} c: ()}", `{"a":1,"b":{"a":2,"c":[«n»]},"c":[]}`}, vt{"{k:: #1 k: #2 ::: #3}", `{"::":3,"k":2,"k:":1}`}, vt{"{f: f:Float m: pr:Primitive}", `{"f":«f»,"m":""}`})
		} else {
			vals = append(vals, vt{"A('k n:Integer)", `{"k":«n»}`}, vt{`A(""k" n:Integer ""l m" #f)`, `{"k":«n»,"l m":false}`}, vt{"A('k nil 'l ())", `{"k":"","l":[]}`},
				vt{"A('a A('b #1 'c (#2 #3)) 'd 's)", `{"a":{"b":1,"c":[2,3]},"d":"s"}`}, vt{"A('k a 'l b)", `{"k":«json a»,"l":«json b»}`})
		}
		vals = append(vals, vt{"a", "«json a»"})
		add := func(v, j string) { out = append(out, jsonCase{fn, v, j}) }
		n := len(vals)
		for i, a := range vals {
			if a.v != "a" {
				add(a.v, a.j)
			}
			lists := func(ps ...vt) {
				var v, j []string
				for _, p := range ps {
					v, j = append(v, p.v), append(j, p.j)
				}
				if ps[len(ps)-1].v == "nil" {
					return
				}
				add("("+strings.Join(v, " ")+")", "["+strings.Join(j, ",")+"]")
				add("("+strings.Join(v, " ")+" ("+strings.Join(v, " ")+"))", "["+strings.Join(j, ",")+",["+strings.Join(j, ",")+"]]")
				if fn == "LispToJson" {
					add("A('k ("+strings.Join(v, " ")+") 'l #1)", `{"k":[`+strings.Join(j, ",")+`],"l":1}`)
				} else if !strings.Contains(strings.Join(v, " "), "{") {
					add("{k: ("+strings.Join(v, " ")+") l: #1}", `{"k":[`+strings.Join(j, ",")+`],"l":1}`)
				}
			}
			lists(a)
			for k, b := range vals {
				if th || (i*n+k)%4 == 0 {
					lists(a, b)
					lists(b, vals[(i+k)%n], a)
				}
			}
			if fn == "LispToJson" && a.v != "a" {
				add("A('k "+a.v+")", `{"k":`+a.j+`}`)
				add("A('l #1 'k "+a.v+")", `{"k":`+a.j+`,"l":1}`)
			}
			if fn != "LispToJson" && a.v != "a" && a.v != "fn:Function" {
				add("{k: "+a.v+"}", `{"k":`+a.j+`}`)
				add("{l: #1 k: "+a.v+" m: #2}", `{"k":`+a.j+`,"l":1,"m":2}`)
			}
		}
		var v, j []string
		for i := 0; i < 20; i++ {
			v, j = append(v, fmt.Sprintf("m%d:Integer", i)), append(j, fmt.Sprintf("«m%d»", i))
		}
		add("("+strings.Join(v, " ")+")", "["+strings.Join(j, ",")+"]")
	}
	return
}

// jsonIn: the Go value encoding/json makes of a text, where the strings "%n",
// "%s" and "%b" stand for an unknown number, text and truth value.
func (x *Exec) jsonIn(s *State, v interface{}) *Term {
	any := types.NewInterfaceType(nil, nil)
	box := func(t *Term) *Term { return x.ts.mk(OIface, any, x.ts.tname(t.typ), 0, t) }
	unknown := func(t types.Type, n string) *Term {
		if k := x.unknowns[n]; k != nil {
			return k
		}
		k := x.ts.sym(t, "json "+n, n, nil)
		x.names[k] = n
		x.unknowns[n] = k
		return k
	}
	switch v := v.(type) {
	case nil:
		return x.ts.nilOf(any)
	case bool:
		return box(x.ts.boolc(v))
	case float64:
		return box(x.ts.constv(constFloat(v), types.Typ[types.Float64]))
	case string:
		switch v {
		case "%n":
			return box(unknown(types.Typ[types.Float64], "n"))
		case "%s":
			return box(unknown(stringT, "s"))
		case "%b":
			return box(unknown(types.Typ[types.Bool], "b"))
		}
		return box(x.ts.constv(constStr(v), stringT))
	case []interface{}:
		var ts []*Term
		for _, e := range v {
			ts = append(ts, x.jsonIn(s, e))
		}
		return box(x.sliceOf(s, types.NewSlice(any), ts, nil))
	case map[string]interface{}:
		m := x.ts.alloc(types.NewMap(stringT, any), nil)
		s.esc.set(m, false)
		x.setMap(s, m, nil)
		x.setNil(s, m, false)
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x.mapPut(s, m, x.ts.constv(constStr(k), stringT), x.jsonIn(s, v[k]))
		}
		return box(m)
	}
	panic("json")
}

// known: the value of a term when that of its parts is known.
func (x *Exec) known(s *State, t *Term, env map[*Term]interface{}) (interface{}, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	if b, ok := t.boolConst(); ok {
		return b, true
	}
	if v, ok := t.strConst(); ok {
		return v, true
	}
	if t.op == OConst && t.cval != nil {
		if isFloat(t.typ) {
			f := constToFloat(t.cval)
			if floatBits(t.typ) == 32 {
				return float32(f), true
			}
			return f, true
		}
		if n, ok := t.intConst(); ok {
			return n, true
		}
		return nil, false
	}
	var as []interface{}
	for _, a := range t.args {
		v, ok := x.known(s, a, env)
		if !ok {
			return nil, false
		}
		as = append(as, v)
	}
	num := func(k int) (float64, bool) {
		if k >= len(as) {
			return 0, false
		}
		switch v := as[k].(type) {
		case float64:
			return v, true
		case float32:
			return float64(v), true
		}
		return 0, false
	}
	a, okA := num(0)
	b, okB := num(1)
	switch t.op {
	case OConv:
		i, isI := as[0].(int64)
		switch {
		case isFloat(t.typ) && floatBits(t.typ) == 32 && okA:
			return float32(a), true
		case isFloat(t.typ) && okA:
			return a, true
		case isFloat(t.typ) && isI && floatBits(t.typ) == 64:
			return float64(i), true
		case isInt(t.typ) && okA:
			if bits, sg := intSize(t.typ); bits == 64 && sg {
				if !(math.Abs(a) < 1<<63) {
					return int64(math.MinInt64), true
				}
				return int64(a), true
			}
		case isInt(t.typ) && isI:
			if bits, sg := intSize(t.typ); bits == 64 && sg {
				return i, true
			} else if sg {
				return i << uint(64-bits) >> uint(64-bits), true
			}
		case isString(t.typ):
			return as[0], true
		}
	case OUn:
		if v, ok := as[0].(bool); ok && t.aux == "!" {
			return !v, true
		}
		if okA && t.aux == "-" {
			return -a, true
		}
	case OBin:
		if i, ok := as[0].(int64); ok {
			if k, ok := as[1].(int64); ok {
				switch t.aux {
				case "==":
					return i == k, true
				case "!=":
					return i != k, true
				case "<":
					return i < k, true
				case "<=":
					return i <= k, true
				case ">":
					return i > k, true
				case ">=":
					return i >= k, true
				}
			}
		}
		if okA && okB {
			switch t.aux {
			case "==":
				return a == b, true
			case "!=":
				return a != b, true
			case "<":
				return a < b, true
			case "<=":
				return a <= b, true
			case ">":
				return a > b, true
			case ">=":
				return a >= b, true
			case "-":
				return a - b, true
			case "+":
				return a + b, true
			}
		}
	case OCall:
		if okA {
			switch t.aux {
			case "math.Trunc", "Trunc":
				return math.Trunc(a), true
			case "Frac":
				_, f := math.Modf(a)
				return f, true
			case "math.Floor", "Floor":
				return math.Floor(a), true
			case "math.Ceil", "Ceil":
				return math.Ceil(a), true
			case "math.Round", "Round":
				return math.Round(a), true
			case "math.Abs", "Abs":
				return math.Abs(a), true
			case "math.Mod", "Mod":
				return math.Mod(a, b), okB
			case "math.IsNaN", "IsNaN":
				return math.IsNaN(a), true
			case "math.IsInf", "IsInf":
				return false, true
			}
		}
	}
	return nil, false
}

// lispText: a value with its numbers worked out.
func (x *Exec) lispText(s *State, d *Term, env map[*Term]interface{}, depth int) string {
	if d.isNilConst() && x.nullsApart {
		return "nil"
	}
	if d.isNilConst() || depth > 30 {
		return "()"
	}
	if d.op == OCall && d.aux == "lisp" {
		return "«lisp " + x.nm(s, d.args[0]) + "»"
	}
	val := func(t *Term) string {
		if v, ok := x.known(s, t, env); ok {
			if q, ok := v.(string); ok {
				return strconv.QuoteToASCII(q)
			}
			if f, ok := v.(float32); ok {
				return strconv.FormatFloat(float64(f), 'g', -1, 32) + "f"
			}
			return fmt.Sprint(v)
		}
		if isBool(t.typ) && x.decide(s, t) != 0 {
			return fmt.Sprint(x.decide(s, t) > 0)
		}
		return "«" + strings.Trim(x.nm(s, t), "<>") + "»"
	}
	k := x.kindsOf(s, d)
	switch k {
	case x.pr.kind("ConsCell"), x.pr.kind("Alist"):
		var vs []string
		for !d.isNilConst() && (x.kindsOf(s, d) == k) && depth < 60 {
			c := x.content(s, d, "ConsCell")
			p := x.conv(s, x.pr.ptrTo(x.pr.consT), c)
			a, r := x.load(s, x.fieldAddr(p, 0)), x.load(s, x.fieldAddr(p, 1))
			if a.isNilConst() && r.isNilConst() {
				break
			}
			vs = append(vs, x.lispText(s, a, env, depth+1))
			d = r
		}
		if !d.isNilConst() && x.kindsOf(s, d) != k {
			vs = append(vs, ".", x.lispText(s, d, env, depth+1))
		}
		if k == x.pr.kind("Alist") {
			sort.Strings(vs)
			return "A(" + strings.Join(vs, " ") + ")"
		}
		return "(" + strings.Join(vs, " ") + ")"
	case x.pr.kind("AlistCell"):
		c := x.content(s, d, "AlistCell")
		p := x.conv(s, x.pr.ptrTo(x.pr.consT), c)
		return x.lispText(s, x.load(s, x.fieldAddr(p, 0)), env, depth+1) + "=" + x.lispText(s, x.load(s, x.fieldAddr(p, 1)), env, depth+1)
	case x.pr.kind("Integer"):
		return val(x.content(s, d, "Integer"))
	case x.pr.kind("Float"):
		return val(x.content(s, d, "Float"))
	case x.pr.kind("Boolean"):
		if n := x.nm(s, d); n == "#t" || n == "#f" {
			return fmt.Sprint(n == "#t")
		}
		return val(x.content(s, d, "Boolean"))
	case x.pr.kind("String"):
		return val(x.content(s, d, "String"))
	case x.pr.kind("Frame"):
		p := x.conv(s, x.pr.ptrTo(x.pr.frameMapT), x.content(s, d, "Frame"))
		es, ok := x.mapEnts(s, x.load(s, x.field(p, "Data")))
		if !ok {
			return "?frame"
		}
		var vs []string
		for _, e := range es {
			n, _ := e.k.strConst()
			vs = append(vs, n+" "+x.lispText(s, e.v, env, depth+1))
		}
		sort.Strings(vs)
		return "{" + strings.Join(vs, " ") + "}"
	}
	return "?" + x.nm(s, d)
}

// lispWant: what a JSON value is read as.
func lispWant(v interface{}, frames bool, un map[string]interface{}) string {
	num := func(n float64) string {
		if math.Trunc(n) == n && math.Abs(n) < 1<<63 {
			return strconv.FormatInt(int64(n), 10)
		}
		return strconv.FormatFloat(float64(float32(n)), 'g', -1, 32) + "f"
	}
	switch v := v.(type) {
	case bool:
		return fmt.Sprint(v)
	case float64:
		return num(v)
	case string:
		switch v {
		case "%n":
			return num(un["n"].(float64))
		case "%b":
			return fmt.Sprint(un["b"])
		case "%s":
			return "«s»"
		}
		return strconv.QuoteToASCII(v)
	case []interface{}:
		var vs []string
		for _, e := range v {
			if e == nil {
				vs = append(vs, "()")
				continue
			}
			vs = append(vs, lispWant(e, frames, un))
		}
		return "(" + strings.Join(vs, " ") + ")"
	case map[string]interface{}:
		var vs []string
		for k, e := range v {
			if frames {
				vs = append(vs, k+": "+lispWant(e, frames, un))
			} else {
				vs = append(vs, strconv.QuoteToASCII(k)+"="+lispWant(e, frames, un))
			}
		}
		sort.Strings(vs)
		if frames {
			return "{" + strings.Join(vs, " ") + "}"
		} else if len(vs) == 0 {
			return "()"
		}
		return "A(" + strings.Join(vs, " ") + ")"
	}
	if frames {
		return "nil"
	}
	return "()"
}

func fromJSONCases(th bool) (out []string) {
	leaf := []string{"null", "true", "false", `"%b"`, `"%n"`, `"%s"`, `""`, `"a:"`, `"x\"y"`, "0", "2.5", "-7", "1e300", "[]", "{}"}
	add := func(j string) { out = append(out, j) }
	var one []string
	for _, a := range leaf {
		add(a)
		one = append(one, "["+a+"]")
		one = append(one, `{"k":`+a+`}`, `{"k:":`+a+`,"j":"%n"}`)
		for i, b := range leaf {
			one = append(one, "["+a+","+b+"]", "["+a+",null,"+b+"]")
			if (i+len(one))%3 == 0 || th {
				one = append(one, `{"k":`+a+`,"l":`+b+`}`)
			}
		}
	}
	for i, a := range one {
		add(a)
		if th || i%3 == 0 {
			add("[" + a + `,"%n"]`)
			add(`["%s",` + a + `]`)
			add(`{"k":` + a + `,"b":1}`)
		}
	}
	var many []string
	for i := 0; i < 20; i++ {
		many = append(many, strconv.Quote("s"+strconv.Itoa(i)))
	}
	add("[" + strings.Join(many, ",") + "]")
	add(`[["%n",[["%s"]]],{"a":{"b":{"c":["%b"]}}}]`)
	return
}

var numberReps = []float64{0, 1, -1, 2.5, -0.5, 1e-9, 255, 65536, 16777217, -2147483649, 4294967296, 9007199254740993, 9223372036854774784, 9223372036854775808, -9223372036854774784, -9223372036854775808, 1e19, -1e19, 1e300, 123456.789}

// reflectModel: package reflect on the values encoding/json makes.
func (x *Exec) reflectModel(s *State, ci *CallInfo) ([]Outcome, bool) {
	n := ci.name
	a := ci.args
	it := types.Typ[types.Int]
	rvT := func() types.Type { return x.resultsOf(ci).At(0).Type() }
	kindOf := func(t *Term) (reflect.Kind, bool) {
		if t.aux == "rv-iface" {
			return reflect.Interface, true
		}
		v := t.args[0]
		if v.op == OIface {
			v = v.args[0]
		}
		switch u := v.typ.Underlying().(type) {
		case *types.Map:
			return reflect.Map, true
		case *types.Slice:
			return reflect.Slice, true
		case *types.Basic:
			switch u.Kind() {
			case types.Bool:
				return reflect.Bool, true
			case types.String:
				return reflect.String, true
			case types.Float64:
				return reflect.Float64, true
			}
		}
		return 0, false
	}
	rv := func(t *Term) (*Term, bool) {
		ok := t.op == OCall && (t.aux == "rv" || t.aux == "rv-iface" || t.aux == "rt")
		return t, ok
	}
	body := func(t *Term) *Term {
		v := t.args[0]
		for v.op == OIface {
			v = v.args[0]
		}
		return v
	}
	boxed := func(t *Term) *Term {
		if t.op != OIface && !t.isNilConst() {
			return t
		}
		return t
	}
	switch n {
	case "reflect.ValueOf":
		return one(s, x.ts.mk(OCall, rvT(), "rv", 0, a[0])), true
	case "reflect.TypeOf":
		return one(s, x.ts.mk(OCall, rvT(), "rt", 0, x.ts.mk(OCall, a[0].typ, "rv", 0, a[0]))), true
	}
	if !strings.Contains(n, "reflect.") || len(a) == 0 {
		return nil, false
	}
	if strings.HasPrefix(n, "(*reflect.MapIter).") {
		es, ok := x.mapEnts(s, a[0])
		if !ok || len(es) == 0 {
			return nil, false
		}
		switch n {
		case "(*reflect.MapIter).Next":
			es = es[1:]
			x.setMap(s, a[0], es)
			return one(s, x.ts.boolc(len(es) > 0)), true
		case "(*reflect.MapIter).Key":
			return one(s, x.ts.mk(OCall, rvT(), "rv", 0, es[0].k)), true
		case "(*reflect.MapIter).Value":
			return one(s, x.ts.mk(OCall, rvT(), "rv-iface", 0, es[0].v)), true
		}
		return nil, false
	}
	i := strings.LastIndex(n, ".")
	m := strings.TrimSuffix(n[i+1:], "$thunk")
	t, ok := rv(a[0])
	if !ok {
		return nil, false
	}
	if t.aux == "rt" {
		switch m {
		case "Kind":
			if k, ok := kindOf(t.args[0]); ok {
				return one(s, x.ts.intc(int64(k), rvT())), true
			}
		case "Key": // maps are by name
			return one(s, x.ts.mk(OCall, rvT(), "rt", 0, x.ts.mk(OCall, t.typ, "rv", 0, x.ts.constv(constStr(""), stringT)))), true
		}
		return nil, false
	}
	switch m {
	case "Type":
		return one(s, x.ts.mk(OCall, rvT(), "rt", 0, t)), true
	case "Kind":
		if k, ok := kindOf(t); ok {
			return one(s, x.ts.intc(int64(k), rvT())), true
		}
	case "IsNil":
		return one(s, x.ts.boolc(t.aux == "rv-iface" && t.args[0].isNilConst())), true
	case "IsValid":
		return one(s, x.ts.boolc(!(t.aux == "rv" && t.args[0].isNilConst()))), true
	case "Elem":
		if t.aux == "rv-iface" {
			return one(s, x.ts.mk(OCall, rvT(), "rv", 0, t.args[0])), true
		}
	case "Len":
		if es, ok := x.mapEnts(s, body(t)); ok {
			return one(s, x.ts.intc(int64(len(es)), it)), true
		}
		return one(s, x.lenTerm(s, body(t))), true
	case "Index":
		b := body(t)
		e := x.load(s, x.indexAddr(s, types.NewPointer(elemOf(b.typ)), b, a[1]))
		return one(s, x.ts.mk(OCall, rvT(), "rv-iface", 0, boxed(e))), true
	case "MapKeys":
		if es, ok := x.mapEnts(s, body(t)); ok {
			var ks []*Term
			for _, e := range es {
				ks = append(ks, x.ts.mk(OCall, elemOf(rvT()), "rv", 0, e.k))
			}
			return one(s, x.sliceOf(s, rvT(), ks, ci.site)), true
		}
	case "MapRange":
		if es, ok := x.mapEnts(s, body(t)); ok {
			it := x.ts.alloc(rvT(), ci.site)
			s.esc.set(it, false)
			x.setNil(s, it, false)
			none := x.ts.constv(constStr(""), stringT)
			x.setMap(s, it, append([]mapEnt{{"", none, none}}, es...))
			return one(s, it), true
		}
	case "MapIndex":
		if k, ok := rv(a[1]); ok {
			if v, how := x.mapGet(s, body(t), body(k)); how > 0 {
				return one(s, x.ts.mk(OCall, rvT(), "rv-iface", 0, boxed(v))), true
			}
		}
	case "Float", "Bool", "String", "Int", "Uint", "Interface":
		if t.aux == "rv" && m == "Interface" {
			return one(s, t.args[0]), true
		}
		if t.aux == "rv" {
			return one(s, body(t)), true
		}
	}
	return nil, false
}

func jsonModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	nilErr := x.ts.nilOf(errorType)
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "IsEqual":
			var vs []string
			for _, a := range ci.args {
				if k := x.kindsOf(s, a); k != x.pr.kind("String") {
					return nil, false
				}
				v, ok := x.content(s, strip(a), "String").strConst()
				if !ok {
					return nil, false
				}
				vs = append(vs, v)
			}
			return one(s, x.ts.boolc(vs[0] == vs[1])), true
		case "LispToJson", "LispWithFramesToJson":
			d := strip(ci.args[0])
			if n := x.nm(s, d); n == "a" || n == "b" {
				if x.pr.short(ci.fn) == x.jsonFn {
					return one(s, x.ts.mk(OCall, x.resultsOf(ci).At(0).Type(), "json", 0, d)), true
				}
				return one(s, x.ts.mk(OCall, x.resultsOf(ci).At(0).Type(), "scalar", 0, d)), true
			}
		}
		return nil, false
	}
	if o, ok := x.reflectModel(s, ci); ok {
		return o, ok
	}
	fail := func() (*State, *Term) {
		y := s.fork()
		y.setTag("br", y.tag("br")+ci.name+" fails;")
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(y, e, false)
		s.setTag("br", s.tag("br")+"ok;")
		return y, e
	}
	switch ci.name {
	case "math.Modf":
		f := types.Typ[types.Float64]
		return one(s, x.ts.mk(OCall, f, "math.Trunc", 0, ci.args[0]), x.ts.mk(OCall, f, "Frac", 0, ci.args[0])), true
	case "encoding/json.Marshal":
		y, e := fail()
		bt := x.resultsOf(ci).At(0).Type()
		b := x.ts.mk(OCall, bt, "marshalled", 0, x.ts.constv(constStr(x.jsonText(s, ci.args[0])), stringT))
		return []Outcome{{st: s, rets: []*Term{b, nilErr}}, {st: y, rets: []*Term{x.ts.nilOf(bt), e}}}, true
	case "encoding/json.Unmarshal":
		p := strip(inner(ci.args[1]))
		for p.op == OIface || p.op == OConv {
			p = p.args[0]
		}
		if x.jsonSrc != nil {
			src := ci.args[0]
			for src.op == OConv {
				src = src.args[0]
			}
			if v, ok := src.strConst(); ok && v == "TEXT" {
				y, e := fail()
				s.heap.set(p, x.jsonSrc)
				return []Outcome{{st: s, rets: []*Term{nilErr}}, {st: y, rets: []*Term{e}}}, true
			}
		}
	}
	return textModel(x, fr, s, ci)
}

func jsonRoots(th bool) (ts []troot) {
	frames := func(x *Exec, s *State, v string) {
		x.shapes, x.world, x.worldUsed, x.names = map[string]*Term{}, nil, map[string]bool{}, map[*Term]string{}
		if n := strings.Count(v, "{"); n > 0 {
			var fs []string
			for i := 0; i < n; i++ {
				fs = append(fs, fmt.Sprintf("%%F%d", i))
			}
			x.buildWorld(s, strings.Join(fs, " ; "))
		}
	}
	for _, c := range toJSONCases(th) {
		c := c
		t := troot{name: c.fn + " / " + c.val, fn: c.fn, min: 1, world: strings.Contains(c.val, "{")}
		t.mk = func(x *Exec, s *State) []*Term {
			frames(x, s, c.val)
			x.jsonFn = c.fn
			at := 0
			return []*Term{x.buildPrint(s, printToks(c.val), &at)}
		}
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if got := x.jsonText(s, rs[0]); got != c.want {
				return fmt.Sprintf("it becomes %s, not %s", got, c.want)
			}
			return ""
		}
		ts = append(ts, t)
	}
	ts = append(ts, jsonTexts(frames)...)
	for _, fn := range []string{"JsonToLisp", "JsonToLispWithFrames"} {
		for _, j := range fromJSONCases(th) {
			fn, j := fn, j
			var v interface{}
			if json.Unmarshal([]byte(j), &v) != nil {
				panic(j)
			}
			t := troot{name: fn + " / " + j, fn: fn, min: 1}
			t.mk = func(x *Exec, s *State) []*Term {
				frames(x, s, "")
				x.unknowns = map[string]*Term{}
				return []*Term{x.jsonIn(s, v)}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				x.nullsApart = fn != "JsonToLisp"
				reps := []float64{0}
				if x.unknowns["n"] != nil {
					reps = numberReps
				}
				for _, n := range reps {
					for _, b := range []bool{true, false} {
						env := map[*Term]interface{}{}
						if k := x.unknowns["n"]; k != nil {
							env[k] = n
						}
						if k := x.unknowns["b"]; k != nil {
							env[k] = b
						} else if b {
							continue
						}
						can := true
						s.conds.each(func(q *Term, v bool) {
							if r, ok := x.known(s, q, env); ok && r != v {
								can = false
							}
						})
						if !can {
							continue
						}
						got, want := x.lispText(s, rs[0], env, 0), lispWant(v, fn != "JsonToLisp", map[string]interface{}{"n": n, "b": b})
						if got != want {
							return fmt.Sprintf("it becomes %s, not %s (unknown number %v)", got, want, n)
						}
					}
				}
				return ""
			}
			ts = append(ts, t)
		}
	}
	return
}

// jsonTexts: the functions and builtins from and to JSON text.
func jsonTexts(frames func(*Exec, *State, string)) (ts []troot) {
	env := func(x *Exec) *Term {
		e := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
		return e
	}
	for i, c := range toJSONCases(false) {
		c := c
		if strings.ContainsAny(c.val, " (") && i%7 != 0 {
			continue
		}
		t := troot{name: c.fn + "String / " + c.val, fn: c.fn + "String", min: 1, world: strings.Contains(c.val, "{")}
		both := []troot{t}
		if c.fn == "LispWithFramesToJson" {
			t.fn, t.builtin, t.name = "", "lisp->json", "builtin lisp->json / "+c.val
			both = append(both, t)
		}
		for _, t := range both {
			t := t
			t.mk = func(x *Exec, s *State) []*Term {
				frames(x, s, c.val)
				x.jsonFn = c.fn
				at := 0
				d := x.buildPrint(s, printToks(c.val), &at)
				if t.builtin != "" {
					return []*Term{x.cons(s, d, x.cons(s, x.ts.nilOf(x.dataPtr()), x.ts.nilOf(x.dataPtr()))), env(x)}
				}
				return []*Term{d}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				if strings.Contains(s.tag("br"), "Marshal fails") {
					if t.builtin != "" && !failed {
						return "a value that has no JSON text is not reported"
					}
					return ""
				}
				if failed {
					return "it fails without reason"
				}
				r := rs[0]
				if t.builtin != "" {
					if x.kindsOf(s, r) != x.pr.kind("String") {
						return "the result is no string"
					}
					r = x.content(s, strip(r), "String")
				}
				if r = strip(inner(r)); r.op != OCall || r.aux != "marshalled" {
					return "the result is " + x.nm(s, r) + ", not the JSON text"
				}
				if got, _ := r.args[0].strConst(); got != c.want {
					return fmt.Sprintf("the text is that of %s, not of %s", got, c.want)
				}
				return ""
			}
			ts = append(ts, t)
		}
	}
	for _, j := range []string{"null", "1", `"%s"`, `[]`, `{}`, `{"k":[1,{"l":"%b"}]}`, `[null,{"a":"%s"}]`} {
		var v interface{}
		json.Unmarshal([]byte(j), &v)
		for _, n := range []string{"JsonStringToLisp", "JsonStringToLispWithFrames", "json->lisp"} {
			n := n
			t := troot{name: n + " / " + j, fn: n, min: 1}
			if n == "json->lisp" {
				t.fn, t.builtin = "", n
			}
			t.mk = func(x *Exec, s *State) []*Term {
				frames(x, s, "")
				x.unknowns = map[string]*Term{}
				x.jsonSrc = x.jsonIn(s, v)
				text := x.ts.constv(constStr("TEXT"), stringT)
				if t.builtin != "" {
					return []*Term{x.cons(s, x.construct(s, "StringWithValue", text), x.ts.nilOf(x.dataPtr())), env(x)}
				}
				return []*Term{text}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				if strings.Contains(s.tag("br"), "Unmarshal fails") {
					if n == "json->lisp" && !failed {
						if got := x.lispText(s, rs[0], nil, 0); got != "{}" {
							return "a text that is no JSON gives " + got
						}
					}
					return ""
				}
				x.nullsApart = n != "JsonStringToLisp"
				for _, b := range []bool{true, false} {
					env := map[*Term]interface{}{}
					if k := x.unknowns["b"]; k != nil {
						env[k] = b
					}
					can := true
					s.conds.each(func(q *Term, v bool) {
						if r, ok := x.known(s, q, env); ok && r != v {
							can = false
						}
					})
					if !can {
						continue
					}
					got, want := x.lispText(s, rs[0], env, 0), lispWant(v, n != "JsonStringToLisp", map[string]interface{}{"b": b})
					if got != want {
						return fmt.Sprintf("it becomes %s, not %s", got, want)
					}
				}
				return ""
			}
			ts = append(ts, t)
		}
	}
	return
}

func init() {
	props["C18"] = &Prop{id: "C18", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "json", jsonRoots(th), traceOpts{call: jsonModel, fork: forkEach, endless: true, inline: setOf("LispToJson", "LispWithFramesToJson", "JsonToLisp", "JsonToLispWithFrames", "JsonStringToLispWithFrames", "LispWithFramesToJsonString"), world: true})
	}}
}

func constFloat(f float64) constant.Value { return constant.MakeFloat64(f) }

func constToFloat(v constant.Value) float64 {
	f, _ := constant.Float64Val(constant.ToFloat(v))
	return f
}
