package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"
)

// Reading text: a text is a sequence of characters, some of them known, some
// of them any character of a class. The latter are written as private runes,
// 64 of them for each class.

type charClass struct {
	lo, hi rune
	is     string // of those beyond Latin-1: "graphic" or "space"
}

var charClasses = map[string]charClass{
	"digit": {'1', '9', ""}, "o-s": {'o', 's', ""}, "g-m": {'g', 'm', ""}, "u-w": {'u', 'w', ""}, "y-z": {'y', 'z', ""}, "G-Z": {'G', 'Z', ""},
	"<-?": {'<', '?', ""}, "$-&": {'$', '&', ""}, "*-+": {'*', '+', ""}, "^-_": {'^', '_', ""}, "c-e": {'c', 'e', ""}, "A-F": {'A', 'F', ""},
	"graphic": {0x100, unicode.MaxRune, "graphic"}, "blank": {'\t', '\r', ""}, "wide": {0x100, unicode.MaxRune, "space"}, "ctrl": {1, 8, ""},
	"#-[": {'#', '[', ""}, "]-~": {']', '~', ""}, "note": {0x0b, 0xff, ""}, "low": {1, '\t', ""}, "bit": {'0', '1', ""}, "0-9": {'0', '9', ""}, "latin": {0xc0, 0xd6, ""},
}

var classNames = sortedKeysOf(charClasses)

func sortedKeysOf(m map[string]charClass) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

const firstPrivate = 0xE000

func classOf(r rune) (string, bool) {
	k := int(r-firstPrivate) / 64
	if r < firstPrivate || k >= len(classNames) {
		return "", false
	}
	return classNames[k], true
}

// charGen writes texts: <class> stands for a character of the class, never
// the same one twice in a row.
type charGen struct{ n map[int]int }

func (g *charGen) text(tmpl string) string {
	var b strings.Builder
	for len(tmpl) > 0 {
		found := false
		if tmpl[0] == '<' {
			for k, c := range classNames {
				if strings.HasPrefix(tmpl, "<"+c+">") {
					b.WriteRune(rune(firstPrivate + k*64 + g.n[k]%64))
					g.n[k]++
					tmpl = tmpl[len(c)+2:]
					found = true
					break
				}
			}
		}
		if !found {
			b.WriteByte(tmpl[0])
			tmpl = tmpl[1:]
		}
	}
	return b.String()
}

// runeTerm is the character at a place of the text.
func (x *Exec) runeTerm(s *State, r rune) *Term {
	rt := types.Typ[types.Int32]
	c, ok := classOf(r)
	if !ok {
		return x.ts.intc(int64(r), rt)
	}
	n := fmt.Sprintf("char %s %d", c, r)
	t := x.shapes[n]
	if t == nil {
		t = x.ts.sym(rt, "shape", n, nil)
		x.shapes[n] = t
		if x.runes == nil {
			x.runes = map[*Term]rune{}
		}
		x.runes[t] = r
	}
	k := charClasses[c]
	x.assumeLe(s, x.ts.intc(int64(k.lo), rt), t, 0)
	x.assumeLe(s, t, x.ts.intc(int64(k.hi), rt), 0)
	return t
}

// runeOf is the character a term is, as it is written in texts.
func (x *Exec) runeOf(s *State, t *Term) (rune, bool) {
	for t.op == OConv && isInt(t.typ) && isInt(t.args[0].typ) {
		if bits, _ := intSize(t.typ); bits < 32 && x.hi(s, t.args[0]) > 127 {
			return 0, false
		}
		t = t.args[0]
	}
	if r, ok := x.runes[t]; ok {
		return r, true
	}
	if n, ok := x.constInt(s, t); ok {
		return rune(n), true
	}
	return 0, false
}

// runesText: a string made of characters.
func (x *Exec) runesText(s *State, typ types.Type, a *Term) *Term {
	if x.runes == nil || !isString(typ) {
		return nil
	}
	if isInt(a.typ) {
		if r, ok := x.runeOf(s, a); ok {
			return x.ts.constv(constStr(string(r)), typ)
		}
		return nil
	}
	if _, ok := a.typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	els, ok := x.sliceElems(s, a)
	if !ok {
		return nil
	}
	v := ""
	for _, e := range els {
		r, ok := x.runeOf(s, e)
		if !ok || isByte(e.typ) && r > 127 {
			if c, isClass := classOf(r); !ok || !isClass || charClasses[c].hi > 127 {
				return nil
			}
		}
		v += string(r)
	}
	return x.ts.constv(constStr(v), typ)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var runePreds = map[string]func(rune) bool{"unicode.IsSpace": unicode.IsSpace, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsPrint": unicode.IsPrint,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsControl": unicode.IsControl,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol}

// charModel reads the characters of the text, and knows about characters.
func charModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	a := ci.args
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "String", "PrintString":
			return one(s, x.ts.mk(OCall, stringT, "printed", 0, strip(a[0]))), true
		}
		return nil, false
	}
	it, rt := types.Typ[types.Int], types.Typ[types.Int32]
	nilErr := x.ts.nilOf(errorType)
	at, _ := strconv.Atoi(s.tag("at"))
	src, _ := x.shapes["text"].strConst()
	text := []rune(src)
	ch := func() (*Term, *Term) {
		if at >= len(text) {
			return x.ts.intc(-1, rt), x.ts.intc(0, it)
		}
		return x.runeTerm(s, text[at]), x.ts.intc(1, it)
	}
	if p := runePreds[ci.name]; p != nil {
		if n, ok := x.constInt(s, a[0]); ok {
			return one(s, x.ts.boolc(p(rune(n)))), true
		}
		lo, hi := x.lo(s, a[0]), x.hi(s, a[0])
		if r, ok := x.runeOf(s, a[0]); ok {
			if c, ok := classOf(r); ok && charClasses[c].is != "" {
				yes := map[string]string{"graphic": "unicode.IsGraphic unicode.IsPrint unicode.IsLetter", "space": "unicode.IsGraphic unicode.IsSpace"}[charClasses[c].is]
				return one(s, x.ts.boolc(strings.Contains(" "+yes+" ", " "+ci.name+" "))), true
			}
		}
		if lo >= 0 && hi < 0x200 && lo <= hi {
			for i := lo; i <= hi; i++ {
				if p(rune(i)) != p(rune(lo)) {
					return nil, false
				}
			}
			return one(s, x.ts.boolc(p(rune(lo)))), true
		}
		return nil, false
	}
	switch strings.Replace(ci.name, "github.com/SteelSeries/", "", 1) {
	case "(*bufrr.Reader).ReadRune", "(*strings.Reader).ReadRune", "(*bufio.Reader).ReadRune":
		c, n := ch()
		s.setTag("last", strconv.Itoa(at))
		if at < len(text) {
			s.setTag("at", strconv.Itoa(at+1))
		} else if !strings.Contains(ci.name, "bufrr") {
			e := x.ts.sym(errorType, "err", ci.name, ci.site)
			x.setNil(s, e, false)
			return one(s, x.ts.intc(0, rt), n, e), true
		}
		return one(s, c, n, nilErr), true
	case "(*bufrr.Reader).PeekRune":
		c, n := ch()
		return one(s, c, n, nilErr), true
	case "(*bufrr.Reader).UnreadRune":
		if l := s.tag("last"); l != "" {
			s.setTag("at", l)
			s.setTag("last", "")
			return one(s, nilErr), true
		}
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(s, e, false)
		return one(s, e), true
	case "bufrr.NewReader", "strings.NewReader", "bufio.NewReader":
		r := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "reader", ci.site)
		x.setNil(s, r, false)
		return one(s, r), true
	case "strings.ContainsRune", "strings.IndexRune":
		set, ok := a[0].strConst()
		if !ok {
			return nil, false
		}
		lo, hi := x.lo(s, a[1]), x.hi(s, a[1])
		in := map[rune]bool{}
		for _, r := range set {
			if int64(r) >= lo && int64(r) <= hi {
				in[r] = true
			}
		}
		switch {
		case len(in) == 0:
			if ci.name == "strings.IndexRune" {
				return one(s, x.ts.intc(-1, it)), true
			}
			return one(s, x.ts.boolc(false)), true
		case hi-lo+1 != int64(len(in)):
			return nil, false
		case ci.name == "strings.IndexRune" && lo == hi:
			return one(s, x.ts.intc(int64(strings.IndexRune(set, rune(lo))), it)), true
		case ci.name == "strings.IndexRune":
			r := x.ts.sym(it, "tr", "index", ci.site)
			x.assumeLe(s, x.ts.intc(0, it), r, 0)
			return one(s, r), true
		}
		return one(s, x.ts.boolc(true)), true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		r, ok := x.runeOf(s, a[1])
		if !ok {
			return nil, false
		}
		if strings.HasSuffix(ci.name, "Byte") && x.hi(s, a[1]) > 127 {
			return nil, false
		}
		p := x.ts.mk(OFieldAddr, x.pr.ptrTo(stringT), "", 99, strip(a[0]))
		old, ok := s.heap.get(p)
		if !ok {
			old = x.ts.constv(constStr(""), stringT)
		}
		s.heap.set(p, x.concat(s, []*Term{old, x.ts.constv(constStr(string(r)), stringT)}))
		if strings.HasSuffix(ci.name, "Byte") {
			return one(s, nilErr), true
		}
		return one(s, x.ts.intc(1, it), nilErr), true
	}
	if outs, ok := numberText(x, s, ci); ok {
		return outs, true
	}
	return textModel(x, fr, s, ci)
}

// ctok is a piece of text and the value it stands for.
type ctok struct {
	src, val string
	fails    bool
	kind     byte // s symbol, n number, q string, c constant, l list
}

func quoted(v string) string { return constStr(v).String() }

func charTokens(g *charGen) (out []ctok) {
	add := func(kind byte, src, f string, lit func(string) string, fails bool) {
		t := g.text(src)
		l := quoted(lit(t))
		if kind == 's' {
			l = lit(t)
		}
		out = append(out, ctok{t, fmt.Sprintf(f, l), fails, kind})
	}
	same := func(v string) string { return v }
	cut := func(n int) func(string) string { return func(v string) string { return v[n:] } }
	for _, v := range []string{"<o-s>", "<g-m>", "<u-w>", "<y-z>", "<G-Z>", "<<-?>", "<$-&>", "<*-+>", "<^-_>", "<c-e>", "<A-F>", "<graphic>", "<latin>", "!", ":", "/", "~", "-", "a", "b", "t", "f", "x", "n", "\\"} {
		add('s', v, "'%s", same, false)
		if v != "\\" {
			add('s', v+"<u-w>", "'%s", same, false)
		}
		if v != "-" {
			add('s', v+"<digit>", "'%s", same, false)
			add('s', v+"0x", "'%s", same, false)
		}
		add('s', v+"-<o-s><<-?>", "'%s", same, false)
	}
	for _, v := range []string{".<o-s>", "<G-Z>.<c-e>", "<o-s>-", "--<g-m>", "...", "-.<g-m>", "-><y-z>", "<y-z>-><o-s>", "<c-e><c-e><c-e><c-e><c-e><c-e><c-e><c-e><c-e><c-e><c-e>", "<$-&><<-?><*-+><^-_><graphic><latin><digit>.:/!~", "<g-m>\\n", "<o-s>:", "<o-s>@<c-e>"} {
		add('s', v, "'%s", same, false)
	}
	for _, v := range []string{"0", "<digit>", "<digit><0-9>", "<digit><0-9><0-9><0-9><0-9><0-9><0-9><0-9><0-9>", "-<digit>", "-0", "-<digit><0-9>", "0<digit>", "-0<0-9>"} {
		add('n', v, "<scan%%d(%s)>", same, true)
	}
	for _, v := range []string{"<digit>.<0-9>", "0.<digit>", "-<digit>.<0-9>", "<digit><0-9><0-9>.<0-9><0-9><0-9>", "-0.<0-9><digit>", "<digit>.0"} {
		add('n', v, "<scan%%f(%s)>", same, true)
	}
	for _, h := range []string{"0x", "#x"} {
		for _, v := range []string{"0", "<digit>", "<c-e>", "<A-F>", "a", "b", "f", "<0-9><c-e><A-F>", "<A-F><0-9>", "<c-e><c-e><0-9><0-9>b<0-9>f<0-9>"} {
			add('n', h+v, "<scan%%x(%s)>", cut(2), true)
		}
	}
	for _, v := range []string{"0", "1", "<bit>", "<bit><bit><bit><bit><bit><bit><bit><bit>", "10"} {
		add('n', "#b"+v, "<scan%%b(%s)>", cut(2), true)
	}
	strOf := func(v string) string {
		b, esc := "", false
		for _, r := range v[1 : len(v)-1] {
			switch {
			case esc && r == 'n':
				b += "\n"
			case esc || r != '\\':
				b += string(r)
			default:
				esc = true
				continue
			}
			esc = false
		}
		return b
	}
	for _, v := range []string{"", "<#-[>", "<]-~>", "<graphic>", "<latin>", "<ctrl>", "<blank>", "<wide>", " ", "\n", ";", "u(v", "(", ")", "'", "#", "n", "t", "<#-[><]-~><#-[><]-~>", `\"`, `\\`, `\n`, `\<c-e>`, `\<G-Z>`, `\<0-9>`, `\<graphic>`, `\t`, `\ `,
		`<#-[>\"<#-[>`, `<]-~>\\`, `\\n`, `\\\"`, `\n\n`, `\"\"`, `<#-[>\n<]-~>`, `; <#-[>`, `<o-s>\\\\`, `\n\` + "\n"} {
		add('q', `"`+v+`"`, "<%s>", strOf, false)
	}
	out = append(out, ctok{"#t", "#t", false, 'c'}, ctok{"#f", "#f", false, 'c'})
	return
}

// charCases: what is read from texts.
func charCases(th bool) (out []readCase) {
	g := &charGen{map[int]int{}}
	toks := charTokens(g)
	nums := []ctok{}
	for _, t := range toks {
		if t.kind == 'n' {
			nums = append(nums, t)
		}
	}
	c := func(text string, fails bool, vals ...string) {
		out = append(out, readCase{g.text(text), strings.Join(vals, " "), 0, fails})
	}
	bad := func(text string) { out = append(out, readCase{g.text(text), "error", 0, false}) }
	q := func(n, v string) string { return "('" + n + " " + v + ")" }
	line := func(v string) string {
		return strings.Map(func(r rune) rune {
			if k, _ := classOf(r); k == "blank" || r == '\n' {
				return '-'
			}
			return r
		}, v)
	}
	spaces := []string{" ", "\n", "\t", "\r", "\u0085", "\u00a0", "<blank>", "<wide>", "  ", "\r\n", " <blank> <wide>\n"}
	for i, t := range toks {
		u := toks[(i*7+3)%len(toks)]
		e, f := t.src, t.fails
		c(e, f, t.val)
		c(" "+e+" ", f, t.val)
		for k, sp := range spaces {
			if k < 3 || (i+k)%4 == 0 || th {
				c(e+sp, f, t.val)
				c(e+sp+u.src, f || u.fails, t.val, u.val)
				c(sp+e+sp+"("+sp+u.src+sp+")", f || u.fails, t.val, "("+u.val+")")
			}
		}
		c("("+e+")", f, "("+t.val+")")
		c("("+e+" "+u.src+")", f || u.fails, "("+t.val+" "+u.val+")")
		c("("+e+")("+u.src+")", f || u.fails, "("+t.val+")", "("+u.val+")")
		c(e+"("+u.src+")", f || u.fails, t.val, "("+u.val+")")
		c("("+u.src+")"+e, f || u.fails, "("+u.val+")", t.val)
		c(`"s"`+e, f, `<"s">`, t.val)
		c(e+`"s"`, f, t.val, `<"s">`)
		c(e+";"+line(u.src)+"\n"+u.src, f || u.fails, t.val, u.val)
		c(e+";", f, t.val)
		c(";"+line(u.src)+"\n"+e, f, t.val)
		c("'"+e, f, q("quote", t.val))
		c("`"+e, f, q("quasiquote", t.val))
		c(","+e, f, q("unquote", t.val))
		c(",@"+e, f, q("unquote-splicing", t.val))
		c("''"+e, f, q("quote", q("quote", t.val)))
		c("'("+e+")", f, q("quote", "("+t.val+")"))
		c("("+u.src+" . "+e+")", f || u.fails, "("+u.val+" . "+t.val+")")
		c("("+u.src+" "+u.src+" .  "+e+" )", f || u.fails, "("+u.val+" "+u.val+" . "+t.val+")")
		c("{"+e+" "+u.src+"}", f || u.fails, "('make-frame "+t.val+" "+u.val+")")
		c("("+e+"'"+u.src+")", f || u.fails, "("+t.val+" "+q("quote", u.val)+")")
		c("("+e+"`"+u.src+")", f || u.fails, "("+t.val+" "+q("quasiquote", u.val)+")")
		c("("+e+","+u.src+")", f || u.fails, "("+t.val+" "+q("unquote", u.val)+")")
		c("("+e+",@"+u.src+")", f || u.fails, "("+t.val+" "+q("unquote-splicing", u.val)+")")
		c("("+e+"{"+u.src+"})", f || u.fails, "("+t.val+" ('make-frame "+u.val+"))")
		c("(("+e+") ("+u.src+"))", f || u.fails, "(("+t.val+") ("+u.val+"))")
		// broken
		bad("(" + e)
		bad("(" + e + ";)")
		bad("'(" + e)
		bad("{" + e)
		bad(e + ` "<]-~>`)
		bad(e + " |")
		bad("(" + e + " <ctrl>)")
		bad(e + "|")
		if t.kind == 'q' || t.kind == 'c' || i%5 == 0 {
			bad(e + "#<o-s>")
			bad(e + "#<g-m>")
		}
	}
	for i, n := range nums {
		m := nums[(i*5+2)%len(nums)]
		if strings.Contains(n.val, "%f") || strings.Contains(m.val, "%f") {
			continue
		}
		b := func(vs ...string) string {
			return "bytes[" + strings.NewReplacer("<", "", ">", "").Replace(strings.Join(vs, " ")) + "]"
		}
		c("["+n.src+"]", true, b(n.val))
		c("[ "+n.src+" "+m.src+"\n]", true, b(n.val, m.val))
		c("["+n.src+"]("+m.src+")", true, b(n.val), "("+m.val+")")
		bad("[" + n.src)
	}
	for _, v := range []string{"", " ", "<blank>", "<wide>\n", ";", "; <note><low><graphic>", ";<note>\n", ";\n;\n", ";(\n ;\"\n"} {
		c(v, false, "")
	}
	for _, n := range []string{";", "; ", ";;", ";<note>", ";<low>", ";<graphic><note><low><wide>", ";\"", ";(", ";)"} {
		for _, w := range []string{"\n", "\n\n", "\n;\n", "\n ;<note>\n\t"} {
			c(n+w+"a", false, "'a")
			c("(a"+n+w+"b"+n+w+")", false, "('a 'b)")
			c("a "+n+w, false, "'a")
		}
		c(n+"\ra", false, "")
	}
	for _, e := range []string{"#", "# ", "#<o-s>", "#<g-m>", "#<u-w>", "#<y-z>", "#<G-Z>", "#<c-e>", "#<0-9>", "#(", "##", "#<graphic>", "|", "<ctrl>", "\"", "\"<#-[>", "\"\\\"", "\"a\\", "'", "`", ",", ",@", "';", "(", "[", "{", "(a . ", "(a . b", "(a . b c)", "#x", "#b", "0x", "#x<g-m>", "#b<o-s>", "#x ", "0x<u-w>"} {
		bad(e)
		bad("a " + e)
		bad("(a " + e)
		bad("\n" + e)
	}
	// strings of any two and three characters that mean something elsewhere
	odd := []string{`\"`, `\\`, `\n`, "\n", ";", "(", ")", "#", " ", "|", "'", "\t", "n", ",", "@", "<o-s>"}
	plain := []string{`"`, `\`, "\n", "\n", ";", "(", ")", "#", " ", "|", "'", "\t", "n", ",", "@", "<o-s>"}
	for i := range odd {
		for k := range odd {
			for l := range odd {
				if l != (i+3*k)%len(odd) && !(th && (l+i+k)%2 == 0) {
					continue
				}
				t := g.text(odd[i] + odd[k] + odd[l])
				v := t
				if odd[i] != plain[i] || odd[k] != plain[k] || odd[l] != plain[l] {
					v = strings.NewReplacer(`\"`, `"`, `\\`, `\`, `\n`, "\n").Replace(t)
				}
				out = append(out, readCase{`("` + t + `" a)`, "(<" + quoted(v) + "> 'a)", 0, false})
				out = append(out, readCase{`"` + t + `"`, "<" + quoted(v) + ">", 0, false})
			}
			out = append(out, readCase{`"` + odd[i] + odd[k] + `"b`, "<" + quoted(plain[i]+plain[k]) + "> 'b", 0, false})
		}
	}
	c("@", false, "'@")
	c("@a @b", false, "'@a", "'@b")
	c(",@@a", false, q("unquote-splicing", "'@a"))
	c(",@,@a", false, q("unquote-splicing", q("unquote-splicing", "'a")))
	c(",,a", false, q("unquote", q("unquote", "'a")))
	c(",@ a", false, q("unquote-splicing", "'a"))
	c(", a", false, q("unquote", "'a"))
	c("' a", false, q("quote", "'a"))
	c("'\n(a)", false, q("quote", "('a)"))
	c("()", false, "()")
	c("( )", false, "()")
	c("(;)\n)", false, "()")
	c("(())", false, "(())")
	c("'()", false, "('quote ())")
	c("[]", false, "bytes[]")
	c("{}", false, "('make-frame)")
	c("{ }", false, "('make-frame)")
	return
}

func charRoots(th bool) (ts []troot, left map[string]*int32) {
	left = map[string]*int32{}
	for _, c := range charCases(th) {
		c := c
		t := troot{name: "ParseAll / " + strconv.Quote(showChars(c.toks)), fn: "ParseAll", min: 1}
		if left[t.name] != nil {
			continue
		}
		t.mk = func(x *Exec, s *State) []*Term {
			x.shapes = map[string]*Term{}
			x.runes = map[*Term]rune{}
			x.shapes["text"] = x.ts.constv(constStr(c.toks), stringT)
			return []*Term{x.shapes["text"]}
		}
		done := new(int32)
		left[t.name] = done
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if failed == (c.want == "error") {
				atomic.AddInt32(done, 1)
			}
			switch {
			case failed && (c.want == "error" || c.fails && (strings.Contains(tr, "scan fails") || strings.Contains(c.want, "bytes["))):
				return ""
			case failed:
				return "this is an error, not " + showChars(c.want)
			}
			els, ok := x.sliceElems(s, rs[0])
			if !ok && rs[0].isNilConst() {
				els, ok = nil, true
			}
			if !ok {
				return "the expressions read are not known"
			}
			var vs []string
			for _, e := range els {
				v := x.byteText(s, strip(e))
				if v == "" {
					v = x.nm(s, e)
				}
				vs = append(vs, v)
			}
			got := strings.Join(vs, " ")
			if c.want == "error" {
				return "this is no error, but " + showChars(got)
			}
			if got != c.want {
				return fmt.Sprintf("what is read is %s, not %s", showChars(got), showChars(c.want))
			}
			return ""
		}
		ts = append(ts, t)
	}
	return ts, left
}

func showChars(v string) string {
	var b strings.Builder
	v = unescapePrivate(v)
	for _, r := range v {
		if c, ok := classOf(r); ok {
			fmt.Fprintf(&b, "<%s>", c)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// unescapePrivate undoes the quoting of private runes.
func unescapePrivate(v string) string {
	for {
		i := strings.Index(v, `\ue`)
		if i < 0 || i+6 > len(v) {
			return v
		}
		n, err := strconv.ParseInt(v[i+2:i+6], 16, 32)
		if err != nil {
			return v
		}
		v = v[:i] + string(rune(n)) + v[i+6:]
	}
}

// forkChars keeps apart the states that took different branches, but not for
// the characters of one class.
func forkChars(x *Exec, s *State, cond *Term, v bool) {
	for _, a := range cond.args {
		for a.op == OConv && isInt(a.typ) && isInt(a.args[0].typ) {
			a = a.args[0]
		}
		if _, ok := x.runes[a]; ok {
			return
		}
	}
	forkEach(x, s, cond, v)
}
