package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Families of builtins whose names say what they compute: the analysis derives
// the term each path returns and compares it with the term the name stands for.

type fam struct {
	name, args string
	want       []string // alternatives, as expressions over the argument names
	kind       string   // "value", "iff", "const", "max", "min"
	results    int      // number of different results expected (iff: 2)
	fail       string   // conditions, separated by |, under which it must fail (never otherwise)
}

func (f fam) root() string {
	r := fmt.Sprintf("builtin %s / (%s %s)", f.name, f.name, f.args)
	if f.kind == "mutates" {
		r += " afterwards"
	}
	return r
}

var float32T, float64T, int64T, stringT = types.Typ[types.Float32], types.Typ[types.Float64], types.Typ[types.Int64], types.Typ[types.String]

// expr builds the term of an expression such as (< (f32 a) b).
func (x *Exec) expr(s *State, src string, arg map[string]*Term) *Term {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(src))
	pos := 0
	var parse func() *Term
	bools := map[string]bool{"<": true, "<=": true, "==": true, ">": true, ">=": true, "!=": true}
	ops := map[string]token.Token{"<": token.LSS, "<=": token.LEQ, "==": token.EQL, ">": token.GTR, ">=": token.GEQ, "!=": token.NEQ, "+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR}
	parse = func() *Term {
		t := toks[pos]
		pos++
		if t != "(" {
			if n, err := strconv.ParseInt(t, 10, 64); err == nil {
				return x.ts.intc(n, int64T)
			}
			if strings.HasSuffix(t, ".") {
				n, _ := strconv.ParseInt(t[:len(t)-1], 10, 64)
				return x.ts.constv(constant.MakeFloat64(float64(n)), float32T)
			}
			if t == "$ws" {
				return x.ts.constv(constant.MakeString(" \t\r\n\v\f"), stringT)
			}
			if t == "$empty" {
				return x.ts.constv(constant.MakeString(""), stringT)
			}
			if t[0] == '@' { // as it was before the call
				return x.shapes0[t[1:]]
			}
			return x.argPayload(s, arg[t])
		}
		op := toks[pos]
		pos++
		var as []*Term
		for toks[pos] != ")" {
			as = append(as, parse())
		}
		pos++
		switch op {
		case "f32":
			return x.conv(s, float32T, as[0])
		case "f64":
			return x.conv(s, float64T, as[0])
		case "i64":
			return x.conv(s, int64T, as[0])
		case "u32":
			return x.conv(s, types.Typ[types.Uint32], as[0])
		case "u64":
			return x.conv(s, types.Typ[types.Uint64], as[0])
		case "int":
			return x.conv(s, types.Typ[types.Int], as[0])
		case "not":
			return x.not(as[0])
		case "slice":
			return x.ts.mk(OSlice, as[0].typ, "", 0, as...)
		case "len":
			return x.ts.mk(OLen, types.Typ[types.Int], "", 0, as...)
		}
		if tok, ok := ops[op]; ok {
			if len(as) == 1 && op == "-" {
				as = []*Term{x.ts.intc(0, as[0].typ), as[0]}
			}
			typ := as[0].typ
			if bools[op] {
				typ = types.Typ[types.Bool]
			}
			return x.bin(s, tok, typ, as[0], as[1])
		}
		typ := as[0].typ
		switch op {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "math.IsNaN", "math.IsInf":
			typ = types.Typ[types.Bool]
		}
		if strings.HasPrefix(op, "digits") || op == "printed" {
			typ = stringT
		} else if strings.HasPrefix(op, "scan") {
			typ = int64T
		}
		switch op {
		case "math.Float32bits":
			typ = types.Typ[types.Uint32]
		case "math.Float32frombits":
			typ = float32T
		}
		return x.ts.mk(OCall, typ, op, 0, as...)
	}
	return parse()
}

// argPayload: the number or string inside an argument.
func (x *Exec) argPayload(s *State, d *Term) *Term {
	if d == nil {
		return x.ts.intc(-999, int64T)
	}
	if p := x.payload(s, d); p != nil && d.op == OAlloc {
		return p
	}
	t := types.Type(int64T)
	switch k := x.kindsOf(s, d); {
	case k == x.pr.kind("Float"):
		t = float32T
	case k == x.pr.kind("String"), k == x.pr.kind("Symbol"):
		t = stringT
	}
	v := x.load(s, x.fieldAddr(d, x.pr.fValue))
	return x.load(s, x.conv(s, x.pr.ptrTo(t), v))
}

// num prints a term in a normal form: sums and products are sorted, neutral
// elements dropped.
func (x *Exec) num(s *State, t *Term) string {
	if t == nil {
		return "?"
	}
	basic := func(t types.Type) *types.Basic { b, _ := t.Underlying().(*types.Basic); return b }
	switch t.op {
	case OConv:
		a, b := basic(t.typ), basic(t.args[0].typ)
		if a == nil || b == nil || a.Kind() == b.Kind() || a.Info()&types.IsNumeric == 0 {
			return x.num(s, t.args[0])
		}
		// widening what was narrowed and the like is kept: it changes values
		wide := map[types.BasicKind]bool{types.Int: true, types.Int64: true}
		if wide[a.Kind()] && wide[b.Kind()] {
			return x.num(s, t.args[0])
		}
		return a.Name() + "(" + x.num(s, t.args[0]) + ")"
	case OLen:
		return "len(" + x.num(s, t.args[0]) + ")"
	case OConst:
		if t.cval != nil {
			return t.cval.String()
		}
	case OCall:
		var as []string
		for _, a := range t.args {
			as = append(as, x.num(s, a))
		}
		return t.aux + "(" + strings.Join(as, ",") + ")"
	case OBin:
		switch t.aux {
		case "+", "-":
			if isString(t.typ) {
				var parts []string
				lit := ""
				var walk func(t *Term)
				walk = func(t *Term) {
					if t.op == OBin && t.aux == "+" {
						walk(t.args[0])
						walk(t.args[1])
					} else if c, ok := t.strConst(); !ok {
						if lit != "" {
							parts = append(parts, strconv.Quote(lit))
						}
						lit = ""
						parts = append(parts, x.num(s, t))
					} else {
						lit += c
					}
				}
				walk(t)
				if lit != "" {
					parts = append(parts, strconv.Quote(lit))
				}
				return strings.Join(parts, "~")
			}
			m := map[string]int64{}
			c := x.sum(s, t, 1, m)
			var out []string
			for k, n := range m {
				if n != 0 {
					out = append(out, fmt.Sprintf("%+d*%s", n, k))
				}
			}
			sort.Strings(out)
			if c != 0 || len(out) == 0 {
				out = append(out, fmt.Sprintf("%+d", c))
			}
			r := strings.Join(out, "")
			if len(out) == 1 && strings.HasPrefix(r, "+1*") {
				return r[3:]
			}
			return "(" + r + ")"
		case "*":
			var fs []string
			var walk func(t *Term)
			walk = func(t *Term) {
				if t.op == OBin && t.aux == "*" {
					walk(t.args[0])
					walk(t.args[1])
					return
				}
				if n := x.num(s, t); n != "1" {
					fs = append(fs, n)
				}
			}
			walk(t)
			if len(fs) == 0 {
				return "1"
			}
			sort.Strings(fs)
			return strings.Join(fs, "*")
		case "&", "|", "^":
			a, b := x.num(s, t.args[0]), x.num(s, t.args[1])
			if a > b {
				a, b = b, a
			}
			return "(" + a + t.aux + b + ")"
		}
		return "(" + x.num(s, t.args[0]) + t.aux + x.num(s, t.args[1]) + ")"
	case OUn:
		if t.aux == "-" {
			m := map[string]int64{}
			if c := x.sum(s, t, 1, m); len(m) == 1 && c == 0 {
				for k, n := range m {
					return fmt.Sprintf("(%+d*%s)", n, k)
				}
			}
		}
		return t.aux + x.num(s, t.args[0])
	}
	return x.nm(s, t)
}

func (x *Exec) sum(s *State, t *Term, k int64, m map[string]int64) int64 {
	if t.op == OBin && t.aux == "+" {
		return x.sum(s, t.args[0], k, m) + x.sum(s, t.args[1], k, m)
	}
	if t.op == OBin && t.aux == "-" {
		return x.sum(s, t.args[0], k, m) + x.sum(s, t.args[1], -k, m)
	}
	if t.op == OUn && t.aux == "-" {
		return x.sum(s, t.args[0], -k, m)
	}
	if t.op == OConst && t.cval != nil {
		if n, ok := constant.Int64Val(constant.ToInt(t.cval)); ok {
			return k * n
		}
	}
	m[x.num(s, t)] += k
	return 0
}

func runFam(pr *Program, rep *Report, rule string, fams []fam) {
	byName := map[string]*Registration{}
	for _, r := range pr.regs {
		byName[r.name] = r
	}
	var roots []Root
	seen := map[string]map[string]bool{}
	spec := map[string]fam{}
	for _, f := range fams {
		f := f
		reg := byName[f.name]
		if reg == nil {
			rep.Viol("anchors", f.name, "-", "the builtin "+f.name+" is no longer registered", "-", "")
			continue
		}
		spec[f.root()] = f
		seen[f.root()] = map[string]bool{}
		roots = append(roots, Root{name: f.root(), fn: reg.fn, run: func(x *Exec) {
			s := x.newState()
			x.shapes = map[string]*Term{}
			l := x.buildList(s, parseShapes(f.args), nil, x.shapes)
			env := x.ts.sym(pr.ptrTo(pr.envT), "env", "env", nil)
			x.setNil(s, env, false)
			x.shapes0 = map[string]*Term{}
			for n, t := range x.shapes {
				if x.kindsOf(s, t) == pr.kind("String") {
					x.shapes0[n] = x.argPayload(s, t)
				}
			}
			x.runFunction(reg.fn, []*Term{l, env}, reg.bindIn(x, s), s, nil)
		}})
	}
	runRoots(pr, rep, roots, func() *Rules {
		return traceRules(pr, traceOpts{
			call: textModel,
			fork: forkApart,
			done: func(x *Exec, s *State, in *ssa.Return, rs []*Term, tr, res string, failed bool) {
				x.rep.Ob(rule, x.root)
				f := spec[x.root]
				note := func(r string) {
					pr.mu.Lock()
					seen[x.root][r] = true
					pr.mu.Unlock()
				}
				bad := func(why string) {
					x.rep.ViolX(x, rule, in, fmt.Sprintf("(%s %s): %s", f.name, f.args, why))
				}
				if f.fail == "may" {
					if failed {
						note("error")
						return
					}
				} else if f.fail != "" {
					hit := false
					for _, c := range strings.Split(f.fail, "|") {
						d := x.decide(s, x.expr(s, c, x.shapes))
						hit = hit || d == 1
						if !failed && d != -1 {
							bad(fmt.Sprintf("a path returns %s although %s may hold", res, c))
						}
					}
					if failed && !hit {
						bad("a path fails although " + f.fail + " need not hold")
					}
					if failed {
						note("error")
						return
					}
				}
				if failed {
					debugf("fam %s: error", x.root)
					if f.kind == "fails" {
						note("error")
					} else {
						bad("a path fails")
					}
					return
				}
				switch f.kind {
				case "fails":
					bad("a path returns " + res + ", where it should report an error")
				case "const":
					debugf("fam %s: %s", x.root, res)
					note(res)
					if !containsStr(f.want, res) {
						bad(fmt.Sprintf("a path returns %s, not %s", res, strings.Join(f.want, " or ")))
					}
				case "value", "mutates":
					p := x.payload(s, rs[0])
					if f.kind == "mutates" { // what the argument holds afterwards
						p = x.argPayload(s, x.shapes["a"])
					}
					if p == nil {
						p = rs[0]
					}
					got := x.num(s, p)
					debugf("fam %s: %s", x.root, got)
					for _, w := range f.want {
						parts := strings.Split(w, " if ")
						w := parts[0]
						holds := true
						for _, c := range parts[1:] {
							holds = holds && x.decide(s, x.expr(s, c, x.shapes)) == 1
						}
						if !holds {
							continue
						}
						if t := x.expr(s, w, x.shapes); x.num(s, t) == got && basicName(t.typ) == basicName(p.typ) {
							note(got)
							return
						}
					}
					bad(fmt.Sprintf("a path returns %s %s, not %s", basicName(p.typ), got, strings.Join(f.want, " or ")))
				case "iff":
					v := x.boolResult(s, strip(rs[0]))
					debugf("fam %s: %s %d", x.root, res, v)
					note(fmt.Sprint(v))
					ok := false
					for _, w := range f.want {
						if d := x.decide(s, x.expr(s, w, x.shapes)); d != 0 && d == v {
							ok = true
						}
					}
					if !ok {
						bad(fmt.Sprintf("a path returns %s where %s is not known to be %v", res, strings.Join(f.want, " / "), v > 0))
					}
				case "max", "min":
					p := x.payload(s, rs[0])
					got := x.num(s, p)
					debugf("fam %s: %s", x.root, got)
					note(got)
					member := false
					for _, w := range f.want {
						t := x.expr(s, w, x.shapes)
						if x.num(s, t) == got && basicName(t.typ) == basicName(p.typ) {
							member = true
							continue
						}
						var d int
						if f.kind == "max" {
							d = x.decide(s, x.bin(s, token.LSS, types.Typ[types.Bool], p, t))
						} else {
							d = x.decide(s, x.bin(s, token.LSS, types.Typ[types.Bool], t, p))
						}
						if d != -1 && f.kind == "max" {
							d = -x.decide(s, x.bin(s, token.LSS, types.Typ[types.Bool], t, p))
						} else if d != -1 {
							d = -x.decide(s, x.bin(s, token.LSS, types.Typ[types.Bool], p, t))
						}
						if d != -1 {
							bad(fmt.Sprintf("a path returns %s although %s may be further out", got, w))
						}
					}
					if !member {
						bad(fmt.Sprintf("a path returns %s, none of the arguments", got))
					}
				}
			}})
	})
	if onlyRoot != "" {
		return
	}
	for _, f := range fams {
		if spec[f.root()].name == "" {
			continue
		}
		n := f.results
		if n == 0 {
			n = 1
		}
		if len(seen[f.root()]) < n {
			rep.Viol(rule, f.root(), "-", fmt.Sprintf("%d different results found (%q), %d expected", len(seen[f.root()]), sortedKeys(seen[f.root()]), n), f.root(), "")
		}
	}
}

func basicName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return t.String()
}

func containsStr(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// forkApart keeps apart the states that compared the arguments differently.
func forkApart(x *Exec, s *State, cond *Term, v bool) {
	if k := x.kindsCond(cond); !k {
		s.setTag("br", s.tag("br")+fmt.Sprintf("%v%d;", v, cond.id))
	}
}

// kindsCond: the condition only concerns the kind of a value.
func (x *Exec) kindsCond(c *Term) bool {
	for c.op == OUn {
		c = c.args[0]
	}
	if c.op != OBin {
		return false
	}
	for _, a := range c.args {
		b, ok := a.typ.Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsNumeric|types.IsString) == 0 {
			return true
		}
	}
	return false
}

// ---- the families ----------------------------------------------------------

func accessorFams() (out []fam) {
	var names []string
	var gen func(p string, n int)
	gen = func(p string, n int) {
		if n == 0 {
			names = append(names, p)
			return
		}
		gen(p+"a", n-1)
		gen(p+"d", n-1)
	}
	for n := 1; n <= 4; n++ {
		gen("", n)
	}
	add := func(name, path string) {
		// a complete tree of the depth of the path, every leaf distinct
		var tree func(d int, at string) string
		tree = func(d int, at string) string {
			if d == 0 {
				return "v" + at
			}
			return "( " + tree(d-1, at+"a") + " . " + tree(d-1, at+"d") + " )"
		}
		at := ""
		for i := len(path) - 1; i >= 0; i-- {
			at += string(path[i])
		}
		out = append(out, mkfam(name, tree(len(path), ""), []string{"v" + at}, "const", 1))
	}
	for _, p := range names {
		add("c"+p+"r", p)
	}
	add("head", "a")
	add("tail", "d")
	add("rest", "d")
	for i, n := range []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"} {
		out = append(out, mkfam(n, "(e1 e2 e3 e4 e5 e6 e7 e8 e9 e10 e11)", []string{fmt.Sprintf("e%d", i+1)}, "const", 1))
	}
	return
}

func predicateFams() (out []fam) {
	kinds := []string{"ConsCell", "Alist", "Integer", "Float", "Boolean", "String", "Symbol", "Function", "Macro", "Primitive", "Frame", "Environment", "Port"}
	for name, yes := range map[string]string{
		"integer?": "Integer", "float?": "Float", "number?": "Integer Float", "string?": "String", "symbol?": "Symbol",
		"boolean?": "Boolean", "function?": "Function Primitive", "macro?": "Macro", "frame?": "Frame", "environment?": "Environment",
		"port?": "Port", "list?": "ConsCell", "pair?": "ConsCell", "alist?": "Alist", "atom?": "Integer Float Boolean String Symbol",
		"bytearray?": "",
	} {
		for _, k := range kinds {
			w := "#f"
			if containsStr(strings.Fields(yes), k) {
				w = "#t"
			}
			out = append(out, mkfam(name, "a:"+k, []string{w}, "const", 1))
		}
	}
	for _, k := range kinds[2:] {
		for _, n := range []string{"nil?", "null?"} {
			out = append(out, mkfam(n, "a:"+k, []string{"#f"}, "const", 1))
		}
		for _, n := range []string{"notnil?", "notnull?"} {
			out = append(out, mkfam(n, "a:"+k, []string{"#t"}, "const", 1))
		}
	}
	for _, l := range []struct{ a, v string }{{"()", "#t"}, {"(x)", "#f"}, {"(x y z)", "#f"}} {
		n := map[string]string{"#t": "#f", "#f": "#t"}[l.v]
		out = append(out, mkfam("nil?", l.a, []string{l.v}, "const", 1), mkfam("null?", l.a, []string{l.v}, "const", 1),
			mkfam("notnil?", l.a, []string{n}, "const", 1), mkfam("notnull?", l.a, []string{n}, "const", 1))
	}
	return
}

func compareFams() (out []fam) {
	for _, op := range []string{"<", "<=", ">", ">="} {
		out = append(out,
			mkfam(op, "a:Integer b:Integer", []string{"(" + op + " a b)"}, "iff", 2),
			mkfam(op, "a:Float b:Float", []string{"(" + op + " a b)"}, "iff", 2),
			mkfam(op, "a:Integer b:Float", []string{"(" + op + " (f32 a) b)", "(" + op + " (f64 a) (f64 b))"}, "iff", 2),
			mkfam(op, "a:Float b:Integer", []string{"(" + op + " a (f32 b))", "(" + op + " (f64 a) (f64 b))"}, "iff", 2))
	}
	for _, op := range []string{"<", "<=", ">", ">=", "="} {
		g := op
		if op == "=" {
			g = "=="
		}
		cmp := "(" + g + " (strings.Compare a b) 0)"
		out = append(out,
			mkfam("string"+op+"?", "a:String b:String", []string{"(" + g + " a b)", cmp}, "iff", 2),
			mkfam("string-ci"+op+"?", "a:String b:String", []string{"(" + g + " (strings.ToLower a) (strings.ToLower b))"}, "iff", 2))
	}
	out = append(out,
		mkfam("string-prefix?", "a:String b:String", []string{"(strings.HasPrefix b a)"}, "iff", 2),
		mkfam("string-suffix?", "a:String b:String", []string{"(strings.HasSuffix b a)"}, "iff", 2),
		mkfam("substring?", "a:String b:String", []string{"(strings.Contains b a)"}, "iff", 2),
		mkfam("string-null?", "a:String", []string{"(== (len a) 0)", "(== a $empty)", "(< (len a) 1)"}, "iff", 2),
		mkfam("zero?", "a:Integer", []string{"(== (f32 a) 0.)", "(== a 0)"}, "iff", 2),
		mkfam("zero?", "a:Float", []string{"(== a 0.)"}, "iff", 2),
		mkfam("positive?", "a:Integer", []string{"(> (f32 a) 0.)", "(> a 0)"}, "iff", 2),
		mkfam("positive?", "a:Float", []string{"(> a 0.)"}, "iff", 2),
		mkfam("negative?", "a:Integer", []string{"(< (f32 a) 0.)", "(< a 0)"}, "iff", 2),
		mkfam("negative?", "a:Float", []string{"(< a 0.)"}, "iff", 2),
		mkfam("even?", "a:Integer", []string{"(== (% a 2) 0)", "(== (& a 1) 0)"}, "iff", 2),
		mkfam("odd?", "a:Integer", []string{"(!= (% a 2) 0)", "(!= (& a 1) 0)", "(== (& a 1) 1)"}, "iff", 2),
		mkfam("nan?", "a:Float", []string{"(math.IsNaN (f64 a))"}, "iff", 2),
		mkfam("nan?", "a:Integer", []string{"#f"}, "const", 1),
		mkfam("inf?", "a:Integer", []string{"#f"}, "const", 1),
	)
	return
}

func arithFams() (out []fam) {
	v := func(n, a string, w ...string) { out = append(out, mkfam(n, a, w, "value", 1)) }
	I, F := ":Integer", ":Float"
	v("+", "a"+I+" b"+I+" c"+I, "(+ (+ a b) c)")
	v("+", "a"+F+" b"+F, "(+ a b)")
	v("+", "a"+I+" b"+F+" c"+I, "(+ (+ (f32 a) b) (f32 c))")
	v("+", "a"+F+" b"+I, "(+ a (f32 b))")
	v("+", "a"+I, "a")
	v("+", "", "0")
	v("*", "a"+I+" b"+I+" c"+I, "(* (* a b) c)")
	v("*", "a"+F+" b"+F, "(* a b)")
	v("*", "a"+I+" b"+F, "(* (f32 a) b)")
	v("*", "a"+F+" b"+I, "(* a (f32 b))")
	v("*", "", "1")
	v("-", "a"+I+" b"+I+" c"+I, "(- (- a b) c)")
	v("-", "a"+F+" b"+F, "(- a b)")
	v("-", "a"+I+" b"+F, "(- (f32 a) b)")
	v("-", "a"+F+" b"+I, "(- a (f32 b))")
	d := func(n, a, fail string, w string) {
		out = append(out, fam{name: n, args: a, want: []string{w}, kind: "value", results: 2, fail: fail})
	}
	for _, q := range []string{"/", "quotient"} {
		d(q, "a"+I+" b"+I, "(== b 0)", "(/ a b)")
		d(q, "a"+I+" b"+I+" c"+I, "(== b 0)|(== c 0)", "(/ (/ a b) c)")
		d(q, "a"+F+" b"+F, "(== b 0.)", "(/ a b)")
		d(q, "a"+I+" b"+F, "(== b 0.)", "(/ (f32 a) b)")
		d(q, "a"+F+" b"+I, "(== (f32 b) 0.)", "(/ a (f32 b))")
	}
	d("%", "a"+I+" b"+I, "(== b 0)", "(% a b)")
	d("modulo", "a"+I+" b"+I, "(== b 0)", "(% a b)")
	// what is no number cannot be computed with
	for _, k := range []string{"String", "Symbol", "Boolean", "Frame", "Function", "ConsCell"} {
		for _, op := range []string{"+", "*", "-", "/", "<", "<=", ">", ">=", "quotient", "%", "modulo"} {
			out = append(out, mkfam(op, "a:"+k+" b:Integer", nil, "fails", 1), mkfam(op, "a:Integer b:"+k, nil, "fails", 1))
			if op == "+" || op == "*" || op == "-" {
				out = append(out, mkfam(op, "a:Float b:Integer c:"+k, nil, "fails", 1))
			}
		}
		for _, op := range []string{"max", "min"} {
			out = append(out, mkfam(op, "(a:"+k+" b:Integer)", nil, "fails", 1), mkfam(op, "(a:Float b:"+k+")", nil, "fails", 1))
		}
		for _, op := range []string{"abs", "floor", "ceiling", "zero?", "positive?", "negative?", "even?", "odd?", "succ", "pred", "sqrt", "sin", "log", "exp", "integer", "float"} {
			out = append(out, mkfam(op, "a:"+k, nil, "fails", 1))
		}
		for _, op := range []string{"binary-and", "binary-or", "left-shift", "right-shift"} {
			out = append(out, mkfam(op, "a:"+k+" b:Integer", nil, "fails", 1), mkfam(op, "a:Integer b:"+k, nil, "fails", 1))
		}
	}
	for _, b := range []string{":%d", "#10:%d", "#2:%b", "#8:%o", "#16:%x"} {
		base, verb, _ := strings.Cut(b, ":")
		v("number->string", "a:Integer "+base, "(digits"+verb+" a)")
		out = append(out, fam{name: "string->number", args: "a:String " + base, want: []string{"(scan" + verb + " a)"}, kind: "value", results: 2, fail: "may"})
	}
	var is, fs, ms []string
	for i := 0; i < 9; i++ {
		is = append(is, fmt.Sprintf("a%d"+I, i))
		fs = append(fs, fmt.Sprintf("a%d"+F, i))
		ms = append(ms, fmt.Sprintf("a%d"+[]string{I, I, F}[i%3], i))
	}
	for _, op := range []string{"+", "*", "-"} {
		e, m := "a0", "(f32 a0)"
		for i := 1; i < 9; i++ {
			e = fmt.Sprintf("(%s %s a%d)", op, e, i)
			m = fmt.Sprintf("(%s %s %s)", op, m, []string{fmt.Sprintf("(f32 a%d)", i), fmt.Sprintf("(f32 a%d)", i), fmt.Sprintf("a%d", i)}[i%3])
		}
		v(op, strings.Join(is, " "), e)
		v(op, strings.Join(fs, " "), e)
		v(op, strings.Join(ms, " "), m)
	}
	v("binary-not", "a"+I, "(i64 (^ (u64 a) 4294967295))", "(^ a 4294967295)")
	for _, n := range []string{"0", "1", "2", "3", "5", "8", "13", "31", "63", "100"} {
		k, _ := strconv.Atoi(n)
		e := "1"
		for i := 0; i < k; i++ {
			if i == 0 {
				e = "a"
			} else {
				e = "(* " + e + " a)"
			}
		}
		v("pow", "a"+I+" #"+n, e)
	}
	v("pow", "a"+F+" b"+F, "(f32 (math.Pow (f64 a) (f64 b)))")
	v("pow", "a"+F+" b"+I, "(f32 (math.Pow (f64 a) (f64 (f32 b))))", "(f32 (math.Pow (f64 a) (f64 b)))")
	v("pow", "a"+I+" b"+F, "(f32 (math.Pow (f64 (f32 a)) (f64 b)))", "(f32 (math.Pow (f64 a) (f64 b)))")
	v("float->bits", "a"+F, "(i64 (math.Float32bits a))")
	v("bits->float", "a"+I, "(math.Float32frombits (u32 a))")
	out = append(out,
		mkfam("sign", "a"+I, []string{"1 if (> a 0)", "(- 1) if (< a 0)", "0 if (== a 0)", "1 if (> (f32 a) 0.)", "(- 1) if (< (f32 a) 0.)", "0 if (not (> (f32 a) 0.)) if (not (< (f32 a) 0.))"}, "value", 3),
		mkfam("sign", "a"+F, []string{"1 if (> a 0.)", "(- 1) if (< a 0.)", "0 if (not (> a 0.)) if (not (< a 0.))"}, "value", 3),
		mkfam("inf?", "a"+F, []string{"(math.IsInf (f64 a) (int 0))"}, "iff", 2))
	v("succ", "a"+I, "(+ a 1)")
	v("pred", "a"+I, "(- a 1)")
	v("integer", "a"+I, "a")
	v("integer", "a"+F, "(i64 a)")
	v("float", "a"+I, "(f32 a)")
	v("float", "a"+F, "a")
	v("binary-and", "a"+I+" b"+I, "(& a b)", "(i64 (& (u64 a) (u64 b)))")
	v("binary-or", "a"+I+" b"+I, "(| a b)", "(i64 (| (u64 a) (u64 b)))")
	v("left-shift", "a"+I+" b"+I, "(<< a b)", "(<< a (u64 b))", "(i64 (<< (u64 a) (u64 b)))")
	v("right-shift", "a"+I+" b"+I, "(i64 (>> (u64 a) (u64 b)))")
	v("ceiling", "a"+F, "(f32 (math.Ceil (f64 a)))")
	v("floor", "a"+F, "(f32 (math.Floor (f64 a)))")
	for _, p := range []string{"acos:Acos", "acosh:Acosh", "asin:Asin", "asinh:Asinh", "atan:Atan", "atanh:Atanh", "cbrt:Cbrt", "cos:Cos", "cosh:Cosh", "erf:Erf", "erfc:Erfc", "exp:Exp", "exp2:Exp2", "expm1:Expm1", "gamma:Gamma", "j0:J0", "j1:J1", "log:Log", "log10:Log10", "log1p:Log1p", "log2:Log2", "logb:Logb", "sin:Sin", "sinh:Sinh", "sqrt:Sqrt", "tan:Tan", "tanh:Tanh", "y0:Y0", "y1:Y1"} {
		q := strings.Split(p, ":")
		v(q[0], "a"+F, "(f32 (math."+q[1]+" (f64 a)))")
		v(q[0], "a"+I, "(f32 (math."+q[1]+" (f64 (f32 a))))", "(f32 (math."+q[1]+" (f64 a)))")
	}
	out = append(out,
		mkfam("max", "(a:Integer b:Integer c:Integer)", []string{"a", "b", "c"}, "max", 3),
		mkfam("min", "(a:Integer b:Integer c:Integer)", []string{"a", "b", "c"}, "min", 3),
		mkfam("max", "(a:Float b:Integer)", []string{"a", "(f32 b)"}, "max", 2),
		mkfam("min", "(a:Integer b:Float)", []string{"(f32 a)", "b"}, "min", 2),
		mkfam("max", "(a:Float b:Float)", []string{"a", "b"}, "max", 2),
		mkfam("min", "(a:Float b:Float)", []string{"a", "b"}, "min", 2),
		mkfam("abs", "a:Integer", []string{"a", "(- a)"}, "max", 2),
	)
	return
}

func stringFams() (out []fam) {
	v := func(n, a string, w ...string) { out = append(out, mkfam(n, a, w, "value", 1)) }
	S := ":String"
	out = append(out, fam{name: "substring", args: "a:String b:Integer c:Integer", want: []string{"(slice a (int b) (int c))"}, kind: "value", results: 2,
		fail: "(> (int b) (len a))|(> (int c) (len a))|(< (int b) 0)|(> (int b) (int c))"})
	for _, k := range []string{"Integer", "Symbol", "Boolean", "ConsCell", "Frame", "Float"} {
		for _, n := range []string{"string-upcase", "string-downcase", "string-length", "string-trim", "string-trim-left", "string-trim-right", "string-upcase!", "string-downcase!", "string-capitalize", "string-capitalize!", "string-null?", "parse"} {
			out = append(out, mkfam(n, "a:"+k, nil, "fails", 1))
		}
		for _, n := range []string{"string-prefix?", "string-suffix?", "substring?", "string=?", "string<?", "string-ci=?", "string-split", "string>=?"} {
			out = append(out, mkfam(n, "a:"+k+" b:String", nil, "fails", 1), mkfam(n, "a:String b:"+k, nil, "fails", 1))
		}
		out = append(out, mkfam("string-join", "(a:String b:"+k+") c:String", nil, "fails", 1))
	}
	v("string-join", "(a:String b:String c:String) d:String", "(+ a (+ d (+ b (+ d c))))")
	v("string-join", "(a:String b:String c:String)", "(+ a (+ b c))")
	v("string-join", "(a:String) d:String", "a")
	var els []string
	j0, j1 := "a0", "a0"
	for i := 0; i < 20; i++ {
		els = append(els, fmt.Sprintf("a%d:String", i))
		if i > 0 {
			j0 = fmt.Sprintf("(+ %s a%d)", j0, i)
			j1 = fmt.Sprintf("(+ (+ %s d) a%d)", j1, i)
		}
	}
	v("string-join", "("+strings.Join(els, " ")+") d:String", j1)
	v("string-join", "("+strings.Join(els, " ")+")", j0)
	v("str", strings.Join(els, " "), j0)
	out = append(out, fam{name: "string-upcase!", args: "a" + S, kind: "mutates", want: []string{"(strings.ToUpper @a)"}},
		fam{name: "string-downcase!", args: "a" + S, kind: "mutates", want: []string{"(strings.ToLower @a)"}})
	v("string-join", "() d:String", "$empty")
	out = append(out, mkfam("string-split", "a:String b:String", pieces(4), "const", 5))
	for _, n := range []string{"string-capitalize", "string-capitalize!"} {
		v(n, "\"", "$empty")
		out = append(out, fam{name: "string-capitalize!", args: "a" + S, kind: "mutates", results: 2, want: []string{"@a if (== @a $empty)", "$empty if (== @a $empty)", "$empty if (== (len @a) 0)", "@a if (== (len @a) 0)", "(+ (strings.ToUpper (slice @a 0 1)) (strings.ToLower (slice @a 1 (len @a))))"}})
		v(n, "a"+S, "@a if (== @a $empty)", "$empty if (== @a $empty)", "$empty if (== (len @a) 0)", "@a if (== (len @a) 0)", "(+ (strings.ToUpper (slice @a 0 1)) (strings.ToLower (slice @a 1 (len @a))))")
	}
	out = append(out, fam{name: "parse", args: "a" + S, want: []string{"parsed(a)"}, kind: "const", results: 2, fail: "may"},
		mkfam("intern", "a"+S, []string{"Intern(a)"}, "const", 1), mkfam("intern", "a:Symbol", nil, "fails", 1), mkfam("intern", "a:Integer", nil, "fails", 1))
	v("str", "a:String b:String c:String", "(+ a (+ b c))")
	v("str", "a:String b:Integer c:String", "(+ a (+ (printed b) c))")
	v("str", "a:Symbol", "(printed a)")
	v("string-upcase!", "a"+S, "(strings.ToUpper @a)")
	v("string-downcase!", "a"+S, "(strings.ToLower @a)")
	v("string-upcase", "a"+S, "(strings.ToUpper a)")
	v("string-downcase", "a"+S, "(strings.ToLower a)")
	v("string-length", "a"+S, "(i64 (len a))")
	v("string-trim", "a"+S, "(strings.Trim a $ws)")
	v("string-trim-left", "a"+S, "(strings.TrimLeft a $ws)")
	v("string-trim-right", "a"+S, "(strings.TrimRight a $ws)")
	v("string-trim", "a"+S+" b"+S, "(strings.Trim a b)")
	v("string-trim-left", "a"+S+" b"+S, "(strings.TrimLeft a b)")
	v("string-trim-right", "a"+S+" b"+S, "(strings.TrimRight a b)")
	return
}

// pieces: the lists of 0 to n pieces of a split string.
func pieces(n int) (out []string) {
	for k := 0; k <= n; k++ {
		var l []string
		for i := 1; i <= k; i++ {
			l = append(l, fmt.Sprintf("<piece%d/%d(a,b)>", i, k))
		}
		out = append(out, "("+strings.Join(l, " ")+")")
	}
	return
}

func init() {
	props["C17"] = &Prop{id: "C17", run: func(pr *Program, rep *Report, th bool) {
		runFam(pr, rep, "accessor", accessorFams())
		runFam(pr, rep, "predicate", predicateFams())
		runFam(pr, rep, "string", stringFams())
	}}
	props["C16"] = &Prop{id: "C16", run: func(pr *Program, rep *Report, th bool) {
		runFam(pr, rep, "compare", compareFams())
		runFam(pr, rep, "arith", arithFams())
	}}
}

func mkfam(name, args string, want []string, kind string, results int) fam {
	return fam{name: name, args: args, want: want, kind: kind, results: results}
}
