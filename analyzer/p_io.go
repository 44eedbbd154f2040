package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Input and output: what the builtins open, close, read and write, on which
// port; format; and the loading of programs.

// ioModel makes an event of every library call that reaches outside.
func ioModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	a := ci.args
	it := types.Typ[types.Int]
	nilErr := x.ts.nilOf(errorType)
	file := func(t *Term) string { return x.nm(s, inner(t)) }
	// act: the action with its result, or an error
	act := func(what string, res ...*Term) []Outcome {
		bad := s.fork()
		s.trace("%s", what)
		bad.trace("%s fails", what)
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(bad, e, false)
		var zs []*Term
		for _, r := range res {
			zs = append(zs, x.ts.zeroOf(r.typ))
		}
		return []Outcome{{st: s, rets: append(append([]*Term{}, res...), nilErr)}, {st: bad, rets: append(zs, e)}}
	}
	text := func(t *Term) string { return x.num(s, t) }
	write := func(f, t *Term) []Outcome { return act("write "+file(f)+" "+text(t), x.lenTerm(s, t)) }
	stdout := func() *Term {
		g := x.pr.member("os", "Stdout")
		return x.load(s, x.ts.mk(OGlobal, g.Type(), g.Name(), 0))
	}
	// words: the text of operands that are all strings, sep between them
	words := func(t *Term, sep, end string) *Term {
		els, ok := x.sliceElems(s, t)
		if !ok && !strip(t).isNilConst() {
			return nil
		}
		var l []*Term
		for i, e := range els {
			if !isString(inner(e).typ) {
				return nil
			}
			if i > 0 && sep != "" {
				l = append(l, x.ts.constv(constant.MakeString(sep), stringT))
			}
			l = append(l, inner(e))
		}
		if end != "" {
			l = append(l, x.ts.constv(constant.MakeString(end), stringT))
		}
		return x.concat(s, l)
	}
	sprintf := func(f, args *Term) *Term {
		c, ok := f.strConst()
		if els, ok2 := x.sliceElems(s, args); ok && ok2 {
			return x.formatted(s, c, els)
		}
		return nil
	}
	open := func(flag, perm *Term) []Outcome {
		fl, pm := x.num(s, flag), x.num(s, perm)
		f := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "file("+text(a[0])+")", ci.site)
		x.setNil(s, f, false)
		return act("open "+text(a[0])+" "+flags(fl)+" "+pm, f)
	}
	ic := func(n int) *Term { return x.ts.intc(int64(n), it) }
	switch ci.name {
	case "(*os.File).WriteString", "io.WriteString":
		return write(a[0], a[1]), true
	case "(*os.File).Write":
		b := strip(a[1])
		if b.op == OConv && isString(b.args[0].typ) {
			b = b.args[0]
		}
		if isString(b.typ) {
			return write(a[0], b), true
		}
		n := x.nm(s, b)
		if els, ok := x.sliceElems(s, b); ok {
			var l []string
			for _, e := range els {
				l = append(l, x.num(s, e))
			}
			n = "[" + strings.Join(l, " ") + "]"
		}
		return act("bytes "+file(a[0])+" "+n, x.lenTerm(s, b)), true
	case "(*os.File).Stat":
		bad := s.fork()
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(bad, e, false)
		bad.setTag("br", bad.tag("br")+"nostdout;")
		r := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "stat", ci.site)
		x.setNil(s, r, false)
		return []Outcome{{st: s, rets: []*Term{r, nilErr}}, {st: bad, rets: []*Term{x.ts.nilOf(r.typ), e}}}, true
	case "fmt.Fprint":
		if t := words(a[1], "", ""); t != nil {
			return write(a[0], t), true
		}
	case "fmt.Fprintln":
		if t := words(a[1], " ", "\n"); t != nil {
			return write(a[0], t), true
		}
	case "fmt.Fprintf":
		if t := sprintf(a[1], a[2]); t != nil {
			return write(a[0], t), true
		}
	case "fmt.Print":
		if t := words(a[0], "", ""); t != nil {
			return write(stdout(), t), true
		}
	case "fmt.Println":
		if t := words(a[0], " ", "\n"); t != nil {
			return write(stdout(), t), true
		}
	case "fmt.Printf":
		if t := sprintf(a[0], a[1]); t != nil {
			return write(stdout(), t), true
		}
	case "(*os.File).Close":
		return act("close " + file(a[0])), true
	case "os.OpenFile":
		return open(a[1], a[2]), true
	case "os.Open":
		return open(ic(os.O_RDONLY), ic(0)), true
	case "os.Create":
		return open(ic(os.O_RDWR|os.O_CREATE|os.O_TRUNC), ic(0666)), true
	case "io/ioutil.ReadFile", "ioutil.ReadFile", "os.ReadFile":
		r := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "contents("+text(a[0])+")", ci.site)
		return act("read "+text(a[0]), r), true
	case "path/filepath.Join":
		if els, ok := x.sliceElems(s, a[0]); ok {
			return one(s, x.ts.mk(OCall, stringT, "joined", 0, els...)), true
		}
	case "path/filepath.Glob":
		var outs []Outcome
		for k := 0; k <= 3; k++ {
			y := s.fork()
			var vs []*Term
			for i := 1; i <= k; i++ {
				vs = append(vs, x.ts.mk(OCall, stringT, fmt.Sprintf("file%d/%d", i, k), 0))
			}
			y.trace("glob %s (%d)", text(a[0]), k)
			outs = append(outs, Outcome{st: y, rets: []*Term{x.sliceOf(y, x.resultsOf(ci).At(0).Type(), vs, ci.site), nilErr}})
		}
		s.trace("glob fails")
		e := x.ts.sym(errorType, "err", ci.name, ci.site)
		x.setNil(s, e, false)
		return append(outs, Outcome{st: s, rets: []*Term{x.ts.nilOf(x.resultsOf(ci).At(0).Type()), e}}), true
	case "os/exec.Command":
		els, ok := x.sliceElems(s, a[1])
		if !ok {
			return nil, false
		}
		n := text(a[0])
		for _, e := range els {
			n += " " + text(e)
		}
		c := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "command("+n+")", ci.site)
		x.setNil(s, c, false)
		return one(s, c), true
	case "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Run":
		return act(strings.ToLower(ci.name[strings.LastIndex(ci.name, ".")+1:]) + " " + file(a[0])), true
	case "time.Sleep":
		s.trace("sleep %s", text(a[0]))
		return one(s), true
	}
	if ci.fn != nil && x.pr.inRepo(ci.fn) {
		switch x.pr.short(ci.fn) {
		case "NewTokenizerFromString":
			t := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "text("+text(a[0])+")", ci.site)
			x.setNil(s, t, false)
			return one(s, t), true
		case "NewTokenizerFromFile":
			t := x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "stream("+file(a[0])+")", ci.site)
			x.setNil(s, t, false)
			return one(s, t), true
		case "parseExpression":
			return x.nextForm(s, ci), true
		}
	}
	return textModel(x, fr, s, ci)
}

// nextForm: the reader gives the next form, comes to the end, or fails.
func (x *Exec) nextForm(s *State, ci *CallInfo) []Outcome {
	src := x.nm(s, ci.args[0])
	n := strings.Count(s.tag("read"), ";") + 1
	nilD, nilErr := x.ts.nilOf(x.dataPtr()), x.ts.nilOf(errorType)
	var outs []Outcome
	bad := s.fork()
	bad.trace("parse %s fails", src)
	e := x.ts.sym(errorType, "err", ci.name, ci.site)
	x.setNil(bad, e, false)
	outs = append(outs, Outcome{st: bad, rets: []*Term{nilD, x.ts.boolc(false), e}})
	if n <= 4 {
		y := s.fork()
		y.setTag("read", y.tag("read")+";")
		y.trace("parse %s", src)
		f := x.ts.sym(x.dataPtr(), "shape", fmt.Sprintf("form%d", n), nil)
		outs = append(outs, Outcome{st: y, rets: []*Term{f, x.ts.boolc(false), nilErr}})
	}
	s.trace("parse %s end", src)
	return append(outs, Outcome{st: s, rets: []*Term{nilD, x.ts.boolc(true), nilErr}})
}

func flags(n string) string {
	var f int
	if _, err := fmt.Sscan(n, &f); err != nil {
		return n
	}
	out := map[int]string{os.O_RDONLY: "read", os.O_WRONLY: "write", os.O_RDWR: "readwrite"}[f&3]
	for _, b := range []struct {
		bit int
		n   string
	}{{os.O_APPEND, "append"}, {os.O_CREATE, "create"}, {os.O_EXCL, "excl"}, {os.O_TRUNC, "truncate"}, {os.O_SYNC, "sync"}} {
		if f&b.bit != 0 {
			out += "+" + b.n
			f &^= b.bit
		}
	}
	if f&^3 != 0 {
		out += fmt.Sprintf("+%x", f&^3)
	}
	return out
}

func ioSpec(name, args string, want ...string) troot {
	t := troot{name: fmt.Sprintf("builtin %s / (%s %s)", name, name, args), builtin: name, want: want}
	t.mk = func(x *Exec, s *State) []*Term {
		env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
		x.setNil(s, env, false)
		x.shapes = map[string]*Term{}
		return []*Term{x.shapeList(s, args), env}
	}
	return t
}

func ioRoots(pr *Program) (out []troot) {
	add := func(name, args string, want ...string) { out = append(out, ioSpec(name, args, want...)) }
	ls := map[string][]string{}
	kinds := []string{"Integer", "Symbol", "String", "Boolean", "ConsCell", "Frame"}
	add("write-string", "a:String", "write Stdout a; => ()")
	add("write-string", "a:String p:Port", "write p a; => ()")
	add("write", "a:Symbol", "write Stdout printed(a); => ()")
	add("write", "a:String", "write Stdout printed(a); => ()")
	add("write", "(a b)", "write Stdout printed((a b)); => ()")
	add("write", "a p:Port", "write p printed(a); => ()")
	add("newline", "", `write Stdout "\n"; => ()`)
	add("newline", "p:Port", `write p "\n"; => ()`)
	add("close-port", "p:Port", "close p; => ()")
	add("read", "p:Port", "parse stream(p); => form1", "parse stream(p) end; => EofObject")
	add("open-input-file", "a:String", "open a read 0; => <file(a)>")
	for _, m := range []string{"", " #f", " ()"} {
		add("open-output-file", "a:String"+m, "open a write+create+truncate 438; => <file(a)>")
	}
	for _, m := range []string{" #t", " b:Symbol", " b:Integer"} {
		if strings.Contains(m, "b") {
			add("open-output-file", "a:String"+m, "?b; open a write+append+create 438; => <file(a)>", "!b; open a write+create+truncate 438; => <file(a)>")
			continue
		}
		add("open-output-file", "a:String"+m, "open a write+append+create 438; => <file(a)>")
	}
	add("exec", "a:String", "start command(a); => ()")
	add("exec", "a:String b:String c:Symbol d:Integer e:Float", "start command(a b c printed(d) printed(e)); => ()")
	for k, dirs := 0, []string{}; k <= 3; k++ {
		for _, l := range [][2]string{{"a:String", `"*"`}, {"a:String b:String", "b"}} {
			n := "()"
			if k > 0 {
				n = "(" + strings.Join(dirs, " ") + ")"
			}
			n = strings.ReplaceAll(n, "/K", fmt.Sprintf("/%d", k))
			ls[l[0]] = append(ls[l[0]], fmt.Sprintf("glob joined(a,%s) (%d); => %s", l[1], k, n))
		}
		dirs = append(dirs, fmt.Sprintf("<file%d/K()>", k+1))
	}
	for a, w := range ls {
		add("list-directory", a, w...)
	}
	for n := 0; n <= 4; n++ {
		l := strings.TrimSpace(strings.Repeat("x ", n))
		for i := 0; i < n; i++ {
			l = strings.Replace(l, "x", fmt.Sprintf("a%d", i), 1)
		}
		add("write-bytes", fmt.Sprintf("%%a%d p:Port", n), "bytes p ["+l+"]; => ()")
	}
	add("sleep", "a:Integer", "sleep 1000000*a; => ()")
	add("load", "a:String", programs("a", " in Global", "read a; ", "text(contents(a))")...)
	for _, k := range kinds {
		for _, n := range []string{"newline", "close-port", "read", "sleep"} {
			if n != "sleep" || k != "Integer" {
				add(n, "a:"+k, "=> error")
			}
		}
		if k != "String" {
			for _, n := range []string{"write-string", "open-input-file", "open-output-file", "load", "exec"} {
				add(n, "a:"+k, "=> error")
			}
		}
		add("write-string", "b:String a:"+k, "=> error")
		add("write", "b:String a:"+k, "=> error")
		add("write-bytes", "%a3 a:"+k, "=> error")
		add("write-bytes", "a:"+k+" p:Port", "=> error")
	}
	return
}

func init() {
	props["C28"] = &Prop{id: "C28", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "io", ioRoots(pr), traceOpts{call: ioModel, endless: true, inline: programFuncs})
	}}
	props["C24"] = &Prop{id: "C24", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "program", loadRoots(pr), traceOpts{call: ioModel, fork: forkEach, endless: true, inline: programFuncs})
	}}
}

// forkEach keeps apart the states that took different branches.
func forkEach(x *Exec, s *State, cond *Term, v bool) {
	s.setTag("br", s.tag("br")+fmt.Sprintf("%v%d;", v, cond.id))
}

// programs: what evaluating a text of up to four forms does.
func programs(src, in, before, text string) (out []string) {
	tr, last := before, "()"
	for n := 1; n <= 5; n++ {
		out = append(out, tr+"parse "+text+" end; => "+last)
		tr += fmt.Sprintf("parse %s; eval form%d%s; ", text, n, in)
		last = fmt.Sprintf("[form%d]", n)
	}
	return
}

func loadRoots(pr *Program) (out []troot) {
	add := func(fn string, env bool, want ...string) {
		t := troot{name: fn, fn: fn, want: want}
		t.mk = func(x *Exec, s *State) []*Term {
			a := []*Term{x.ts.sym(stringT, "shape", "src", nil)}
			if env {
				e := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
				x.setNil(s, e, false)
				a = append(a, e)
			}
			return a
		}
		out = append(out, t)
	}
	g, txt, file := " in Global", "text(src)", "text(contents(src))"
	add("ParseAndEvalAll", false, programs("src", g, "", txt)...)
	add("ParseAndEvalAllInEnvironment", true, programs("src", "", "", txt)...)
	add("ProcessFile", false, programs("src", g, "read src; ", file)...)
	add("ProcessFileInEnvironment", true, programs("src", "", "read src; ", file)...)
	one := func(in string) []string {
		return []string{"parse " + txt + " end; => ()", "parse " + txt + "; => ()", "parse " + txt + "; eval form1" + in + "; => [form1]"}
	}
	add("ParseAndEval", false, one(g)...)
	add("ParseAndEvalInEnvironment", true, one("")...)
	add("Parse", false, "parse "+txt+" end; => ()", "parse "+txt+"; => form1")
	return
}

var programFuncs = setOf("ParseAndEvalAll", "ParseAndEvalAllInEnvironment", "ParseAndEval", "ParseAndEvalInEnvironment", "ProcessFile", "ProcessFileInEnvironment", "ReadFile", "Parse", "ParseObjectFromFileInEnv", "ParseObjectFromFile")

// member finds a member of an imported package.
func (pr *Program) member(pkg, name string) *ssa.Global {
	for _, p := range pr.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}
