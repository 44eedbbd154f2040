package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Reading: the value a sequence of tokens stands for, and the tokens a
// sequence of characters is made of.

// ---- tokens to values --------------------------------------------------------

// A text is written as its tokens: names of literals with the kind of token
// they are ("SYMBOL:a"), or punctuation.
var punct = map[string]string{"(": "LPAREN", ")": "RPAREN", "[": "LBRACKET", "]": "RBRACKET", "{": "LBRACE", "}": "RBRACE", "'": "QUOTE", "`": "BACKQUOTE",
	",": "COMMA", ",@": "COMMAAT", ".": "PERIOD", "#t": "TRUE", "#f": "FALSE", ";": "COMMENT", "!": "ILLEGAL"}

type readCase struct {
	toks  string
	want  string // the value, "error", or "eof"
	used  int    // tokens the expression is made of
	fails bool   // it contains a number, which may be out of range
}

// rexpr is an expression: its tokens and the value they stand for.
type rexpr struct {
	toks, val string
	fails     bool
}

func (e rexpr) n() int { return len(strings.Fields(e.toks)) }

func ratoms(n int) []rexpr {
	k := func(s string) string { return fmt.Sprintf("%s%d", s, n) }
	return []rexpr{
		{"SYMBOL:" + k("a"), "Intern(" + k("a") + ")", false},
		{"NUMBER:" + k("n"), "<scan%d(" + k("n") + ")>", true},
		{"HEXNUMBER:" + k("h"), "<scan%x(" + k("h") + ")>", true},
		{"BINARYNUMBER:" + k("b"), "<scan%b(" + k("b") + ")>", true},
		{"FLOAT:" + k("f"), "<scan%f(" + k("f") + ")>", true},
		{"STRING:" + k("s"), "<" + k("s") + ">", false},
		{"#t", "#t", false}, {"#f", "#f", false},
	}
}

func rlist(open, close, head string, tail *rexpr, es ...rexpr) rexpr {
	r := rexpr{toks: open}
	var vs []string
	if head != "" {
		vs = append(vs, "'"+head)
	}
	for _, e := range es {
		r.toks += " " + e.toks
		r.fails = r.fails || e.fails
		vs = append(vs, e.val)
	}
	v := strings.Join(vs, " ")
	if tail != nil {
		r.toks += " . " + tail.toks
		r.fails = r.fails || tail.fails
		switch {
		case tail.val == "()":
		case strings.HasPrefix(tail.val, "("):
			v += " " + tail.val[1:len(tail.val)-1]
		default:
			v += " . " + tail.val
		}
	}
	r.toks += " " + close
	r.val = "(" + v + ")"
	return r
}

var rquotes = [][2]string{{"'", "quote"}, {"`", "quasiquote"}, {",", "unquote"}, {",@", "unquote-splicing"}}

func rquote(i int, e rexpr) rexpr {
	return rexpr{rquotes[i][0] + " " + e.toks, "('" + rquotes[i][1] + " " + e.val + ")", e.fails}
}

func readCases(th bool) (out []readCase) {
	var level [4][]rexpr
	for n := range level {
		level[n] = ratoms(n)
	}
	a := func(n, k int) rexpr { return level[n%4][k%len(level[0])] }
	var es []rexpr
	es = append(es, level[0]...)
	lists := func(e ...rexpr) {
		es = append(es, rlist("(", ")", "", nil, e...))
		if len(e) > 1 {
			es = append(es, rlist("(", ")", "", &e[len(e)-1], e[:len(e)-1]...))
		}
		es = append(es, rlist("{", "}", "make-frame", nil, e...))
	}
	for k := 0; k < 8; k++ {
		lists(a(0, k))
		lists(a(0, k), a(1, 0))
		lists(a(0, 0), a(1, k))
		lists(a(0, k), a(1, k+1), a(2, k+2))
		for q := range rquotes {
			es = append(es, rquote(q, a(0, k)))
		}
	}
	lists()
	empty := rlist("(", ")", "", nil)
	simple := append([]rexpr(nil), es...)
	// expressions inside expressions
	for i, e := range simple {
		if e.n() == 1 {
			continue
		}
		lists(e)
		lists(a(1, i), e)
		lists(e, a(1, i))
		lists(a(1, i), e, a(2, i+1))
		for q := range rquotes {
			if (i+q)%4 == 0 || th {
				es = append(es, rquote(q, e))
			}
		}
	}
	lists(empty, empty)
	lists(a(0, 0), empty, a(1, 0))
	es = append(es, rlist("(", ")", "", &empty, a(0, 0)))
	// deep and long ones
	d, q := a(0, 0), a(0, 0)
	for i := 0; i < 5; i++ {
		d = rlist("(", ")", "", nil, d, a(1, 5+i%3))
		q = rquote(i%4, q)
		es = append(es, d, q)
	}
	var many []rexpr
	for i := 0; i < 20; i++ {
		many = append(many, rexpr{fmt.Sprintf("SYMBOL:m%d", i), fmt.Sprintf("Intern(m%d)", i), false})
	}
	lists(many...)
	lists(many[:11]...)
	es = append(es, rlist("(", ")", "", nil, append([]rexpr{rquote(2, rlist("(", ")", "", nil, many[:5]...))}, many[10:]...)...))
	for i, e := range es {
		n := e.n()
		out = append(out, readCase{e.toks, e.val, n, e.fails})
		for _, after := range []string{"SYMBOL:z", "(", ")"} {
			if after == "SYMBOL:z" || i%7 == 0 {
				out = append(out, readCase{e.toks + " " + after, e.val, n, e.fails})
			}
		}
		fs := strings.Fields(e.toks)
		// anything that stops early
		for k := 1; k < n; k++ {
			if n < 5 || k == n-1 || (i+k)%6 == 0 {
				out = append(out, readCase{strings.Join(fs[:k], " "), "error", 0, false})
				out = append(out, readCase{strings.Join(fs[:k], " ") + " ! " + strings.Join(fs[k:], " "), "error", 0, false})
			}
		}
		// comments between the tokens
		if i%5 == 0 {
			out = append(out, readCase{"; " + strings.Join(fs, " ; "), e.val, n, e.fails},
				readCase{strings.Join(fs, " ; ; ") + " ;", e.val, n, e.fails})
		}
	}
	// one tail only
	for _, e := range es {
		for _, more := range []string{"SYMBOL:z", "( )", ". SYMBOL:z", ". ( )"} {
			out = append(out, readCase{"( SYMBOL:y . " + e.toks + " " + more + " )", "error", 0, false})
		}
	}
	out = append(out, readCase{"", "eof", 0, false}, readCase{";", "eof", 0, false}, readCase{"; ; ;", "eof", 0, false}, readCase{"!", "error", 0, false},
		readCase{"( SYMBOL:a . SYMBOL:b SYMBOL:c )", "error", 0, false}, readCase{"( SYMBOL:a SYMBOL:d . SYMBOL:b ( ) )", "error", 0, false}, readCase{"( SYMBOL:a . ( SYMBOL:b ) SYMBOL:c )", "error", 0, false})
	return
}

// bytesRead: a literal of bytes.
func bytesRead() (out []readCase) {
	for n := 0; n <= 12; n++ {
		if n > 5 && n != 12 {
			continue
		}
		t, els := "[", []string{}
		for i := 0; i < n; i++ {
			k := []string{"NUMBER:n", "HEXNUMBER:h", "BINARYNUMBER:b", "NUMBER:m"}[i%4]
			t += fmt.Sprintf(" %s%d", k, i)
			els = append(els, fmt.Sprintf("scan%%%c(%s%d)", "dxbd"[i%4], strings.Split(k, ":")[1], i))
		}
		out = append(out, readCase{t + " ]", "bytes[" + strings.Join(els, " ") + "]", n + 2, true}, readCase{t + " ] )", "bytes[" + strings.Join(els, " ") + "]", n + 2, true})
		out = append(out, readCase{t, "error", 0, false}, readCase{t + " ! ]", "error", 0, false})
		for _, bad := range []string{"STRING:s", "FLOAT:f", "#t", "{ }", "[ ]"} {
			if bad != "{ }" {
				out = append(out, readCase{t + " " + bad + " ]", "error", 0, false})
			}
		}
		lit := func(v string) string {
			return "('list->bytearray ('list " + strings.TrimSpace(strings.Join(func() (o []string) {
				for _, e := range els {
					o = append(o, "<"+e+">")
				}
				return
			}(), " ")+" "+v) + "))"
		}
		out = append(out, readCase{t + " SYMBOL:a ]", lit("Intern(a)"), n + 3, true}, readCase{t + " ( SYMBOL:a SYMBOL:b ) ]", lit("(Intern(a) Intern(b))"), n + 6, true})
	}
	return
}

func (x *Exec) tokenConst(name string) int64 {
	c, ok := x.pr.lisp.Members[name].(*ssa.NamedConst)
	if !ok {
		x.rep.Viol("anchors", name, "-", "the token kind "+name+" is gone", "-", "")
		return -1
	}
	n, _ := constant.Int64Val(c.Value.Value)
	return n
}

func (x *Exec) readToken(s *State, toks []string, i int) (kind, lit *Term) {
	it := types.Typ[types.Int]
	if i >= len(toks) {
		return x.ts.intc(x.tokenConst("EOF"), it), x.ts.constv(constStr(""), stringT)
	}
	t := toks[i]
	if p, ok := punct[t]; ok {
		return x.ts.intc(x.tokenConst(p), it), x.ts.constv(constStr(t), stringT)
	}
	k, n, _ := strings.Cut(t, ":")
	l := x.shapes["$"+n]
	if l == nil {
		l = x.ts.sym(stringT, "shape", n, nil)
		x.shapes["$"+n] = l
	}
	return x.ts.intc(x.tokenConst(k), it), l
}

func readRoots(th bool) (ts []troot, left map[string]*int32) {
	left = map[string]*int32{}
	for _, c := range append(readCases(th), bytesRead()...) {
		c := c
		t := troot{name: "parseExpression / " + c.toks, fn: "parseExpression", min: 1}
		toks := strings.Fields(c.toks)
		bytes := len(toks) > 0 && toks[0] == "["
		t.mk = func(x *Exec, s *State) []*Term {
			x.shapes = map[string]*Term{}
			tz := x.obj(s, callableT(x.pr, "Tokenizer"), "T", nil)
			i := 0
			for i < len(toks) && toks[i] == ";" {
				i++
			}
			k, l := x.readToken(s, toks, i)
			s.heap.set(x.field(tz, "LookaheadToken"), k)
			s.heap.set(x.field(tz, "LookaheadLit"), l)
			s.setTag("tok", strconv.Itoa(i))
			x.shapes["tokens"] = x.ts.constv(constStr(c.toks), stringT)
			x.shapes["T"] = tz
			return []*Term{tz}
		}
		done := new(int32)
		left[t.name] = done
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if failed == (c.want == "error") {
				atomic.AddInt32(done, 1)
			}
			if failed {
				if c.want == "error" || c.fails && strings.Contains(tr, "scan fails") {
					return ""
				}
				if bytes {
					for _, n := range x.bytesOf(s, toks) {
						if x.lo(s, n) > 255 || x.hi(s, n) < 0 {
							return ""
						}
					}
				}
				return "this is an error, not " + c.want
			}
			if c.want == "error" {
				return "this is no error"
			}
			eof := x.decide(s, rs[1]) > 0
			if c.want == "eof" {
				if !eof {
					return "the end of the text is not reported"
				}
				return ""
			}
			got := x.nm(s, rs[0])
			if strings.HasPrefix(c.want, "bytes[") {
				got = x.byteText(s, strip(rs[0]))
				for _, n := range x.bytesOf(s, toks) {
					if x.hi(s, n) > 255 || x.lo(s, n) < 0 {
						return "a number that is no byte becomes one"
					}
				}
			}
			if got != c.want {
				return fmt.Sprintf("the value read is %s, not %s", got, c.want)
			}
			if x.decide(s, rs[1]) >= 0 {
				return "the end of the text is reported before it is reached"
			}
			at, _ := strconv.Atoi(s.tag("tok"))
			n := 0
			for i := 0; i < at && i < len(toks); i++ {
				if toks[i] != ";" {
					n++
				}
			}
			if n != c.used {
				return fmt.Sprintf("%d tokens are consumed, the expression is made of %d", n, c.used)
			}
			return ""
		}
		ts = append(ts, t)
	}
	// texts of any number of expressions
	all := readCases(false)
	var whole []readCase
	for i, c := range all {
		if c.used == len(strings.Fields(c.toks)) && c.used > 0 && i%3 == 0 {
			whole = append(whole, c)
		}
	}
	text := func(fn string, c readCase, many bool) {
		t := troot{name: fn + " / " + c.toks, fn: fn, min: 1}
		t.mk = func(x *Exec, s *State) []*Term {
			ts[0].mk(x, s)
			x.shapes["tokens"] = x.ts.constv(constStr(c.toks), stringT)
			k, l := x.readToken(s, strings.Fields(c.toks), 0)
			s.heap.set(x.field(x.shapes["T"], "LookaheadToken"), k)
			s.heap.set(x.field(x.shapes["T"], "LookaheadLit"), l)
			s.setTag("tok", "0")
			return []*Term{x.ts.sym(stringT, "shape", "text", nil)}
		}
		done := new(int32)
		left[t.name] = done
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if failed == (c.want == "error") {
				atomic.AddInt32(done, 1)
			}
			switch {
			case failed && (c.want == "error" || c.fails && strings.Contains(tr, "scan fails")):
				return ""
			case failed:
				return "this is an error, not " + c.want
			case c.want == "error":
				return "this is no error"
			}
			got := x.nm(s, rs[0])
			if many {
				els, ok := x.sliceElems(s, rs[0])
				if !ok {
					return "the expressions read are not known"
				}
				var vs []string
				for _, e := range els {
					vs = append(vs, x.nm(s, e))
				}
				got = strings.Join(vs, " ")
			}
			if got != c.want {
				return fmt.Sprintf("what is read is %s, not %s", got, c.want)
			}
			return ""
		}
		ts = append(ts, t)
	}
	text("ParseAll", readCase{"", "", 0, false}, true)
	text("ParseAll", readCase{";", "", 0, false}, true)
	text("ParseAll", readCase{"!", "error", 0, false}, true)
	for i, c := range whole {
		text("Parse", c, false)
		text("Parse", readCase{c.toks + " SYMBOL:z", c.want, 0, c.fails}, false)
		text("ParseAll", c, true)
		text("ParseAll", readCase{c.toks + " ;", c.want, 0, c.fails}, true)
		d, e := whole[(i*7+3)%len(whole)], whole[(i*5+1)%len(whole)]
		text("ParseAll", readCase{c.toks + " " + d.toks, c.want + " " + d.want, 0, c.fails || d.fails}, true)
		text("ParseAll", readCase{c.toks + " ; " + d.toks + " " + e.toks, c.want + " " + d.want + " " + e.want, 0, c.fails || d.fails || e.fails}, true)
		text("ParseAll", readCase{c.toks + " ( " + d.toks, "error", 0, false}, true)
		text("ParseAll", readCase{c.toks + " ! " + d.toks, "error", 0, false}, true)
		text("Parse", readCase{"( " + c.toks, "error", 0, false}, false)
		text("Parse", readCase{"! " + c.toks, "error", 0, false}, false)
	}
	return ts, left
}

// bytesOf: the numbers among the tokens.
func (x *Exec) bytesOf(s *State, toks []string) (out []*Term) {
	for _, t := range toks {
		k, n, _ := strings.Cut(t, ":")
		f := map[string]string{"NUMBER": "scan%d", "HEXNUMBER": "scan%x", "BINARYNUMBER": "scan%b"}[k]
		if l := x.shapes["$"+n]; f != "" && l != nil {
			out = append(out, x.ts.mk(OCall, types.Typ[types.Int64], f, 0, l))
		}
	}
	return
}

// tokenModel hands out the tokens of the case.
func tokenModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "(*Tokenizer).readNextToken":
			src, _ := x.shapes["tokens"].strConst()
			i, _ := strconv.Atoi(s.tag("tok"))
			k, l := x.readToken(s, strings.Fields(src), i+1)
			s.setTag("tok", strconv.Itoa(i+1))
			return one(s, k, l), true
		case "NewTokenizerFromString":
			return one(s, x.shapes["T"]), true
		case "String", "PrintString":
			return one(s, x.ts.mk(OCall, stringT, "printed", 0, strip(ci.args[0]))), true
		}
		return nil, false
	}
	return numberText(x, s, ci)
}

// numberText: turning text into numbers.
func numberText(x *Exec, s *State, ci *CallInfo) ([]Outcome, bool) {
	a := ci.args
	nilErr := x.ts.nilOf(errorType)
	fail := func() (*State, *Term) {
		bad := s.fork()
		bad.trace("scan fails")
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(bad, e, false)
		return bad, e
	}
	switch ci.name {
	case "fmt.Sscanf", "fmt.Sscan":
		f, rest := "%v", a[1]
		if ci.name == "fmt.Sscanf" {
			var ok bool
			if f, ok = a[1].strConst(); !ok {
				return nil, false
			}
			rest = a[2]
		}
		els, ok := x.sliceElems(s, rest)
		if !ok || len(els) != 1 {
			return nil, false
		}
		p := strip(inner(els[0]))
		for p.op == OConv {
			p = p.args[0]
		}
		bad, e := fail()
		if v, ok := a[0].strConst(); ok && v == "" {
			return []Outcome{{st: bad, rets: []*Term{x.ts.intc(0, types.Typ[types.Int]), e}}}, true
		}
		s.heap.set(p, x.ts.mk(OCall, ptrElem(p.typ), "scan"+f, 0, inner(a[0])))
		return []Outcome{{st: s, rets: []*Term{x.ts.intc(1, types.Typ[types.Int]), nilErr}}, {st: bad, rets: []*Term{x.ts.intc(0, types.Typ[types.Int]), e}}}, true
	case "strconv.ParseInt", "strconv.ParseFloat", "strconv.Atoi":
		f := "%d"
		switch ci.name {
		case "strconv.ParseFloat":
			f = "%f"
		case "strconv.ParseInt":
			b, ok := x.constInt(s, a[1])
			w, ok2 := x.constInt(s, a[2])
			f = map[int64]string{2: "%b", 10: "%d", 16: "%x"}[b]
			if !ok || !ok2 || f == "" || w != 64 && w != 0 {
				return nil, false
			}
		}
		bad, e := fail()
		if v, ok := a[0].strConst(); ok && v == "" {
			return []Outcome{{st: bad, rets: []*Term{x.ts.zeroOf(x.resultsOf(ci).At(0).Type()), e}}}, true
		}
		t := x.resultsOf(ci).At(0).Type()
		return []Outcome{{st: s, rets: []*Term{x.ts.mk(OCall, t, "scan"+f, 0, inner(a[0])), nilErr}}, {st: bad, rets: []*Term{x.ts.zeroOf(t), e}}}, true
	}
	return nil, false
}

func init() {
	props["C15"] = &Prop{id: "C15", run: func(pr *Program, rep *Report, th bool) {
		run := func(rule string, ts []troot, left map[string]*int32, o traceOpts) {
			runTroots(pr, rep, rule, ts, o)
			for _, t := range ts {
				if onlyRoot == "" && atomic.LoadInt32(left[t.name]) == 0 {
					rep.Viol(rule, t.name, "-", "no path reads it", t.name, "")
				}
			}
		}
		inline := setOf("parseExpression", "parseConsCell", "parseBytearray", "parseFrame", "NewTokenizer", "NewTokenizerFromString")
		ts, left := readRoots(th)
		run("read", ts, left, traceOpts{call: tokenModel, fork: forkEach, nonNil: true, endless: true, inline: inline})
		ts, left = charRoots(th)
		run("characters", ts, left, traceOpts{call: charModel, fork: forkChars, nonNil: true, endless: true, inline: inline})
	}}
}
