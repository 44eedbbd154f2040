package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The profiler: one record when an application begins, one when it ends.

// setGlobal gives a package variable a known value.
func (x *Exec) setGlobal(s *State, name string, v func(t types.Type) *Term) {
	if m, ok := x.pr.lisp.Members[name].(*ssa.Global); ok {
		s.heap.set(x.ts.mk(OGlobal, m.Type(), m.Name(), 0), v(ptrElem(m.Type())))
	}
}

// profiling: the profiler runs, and writes to standard output or a file.
func (x *Exec) profiling(s *State, on, file bool) {
	x.setGlobal(s, "ProfileEnabled", func(types.Type) *Term { return x.ts.boolc(on) })
	x.setGlobal(s, "profileOutput", func(t types.Type) *Term {
		if !file {
			return x.ts.nilOf(t)
		}
		f := x.ts.sym(t, "shape", "out", nil)
		x.setNil(s, f, false)
		return f
	})
}

func (x *Exec) getGlobal(s *State, name string) string {
	if m, ok := x.pr.lisp.Members[name].(*ssa.Global); ok {
		return x.num(s, x.load(s, x.ts.mk(OGlobal, m.Type(), m.Name(), 0)))
	}
	return "?"
}

var profileRecord = regexp.MustCompile(`write (\S+) "\{time: "~digits%d\(nano\(\)\)~" guid: "~digits%d\(([^"]*?)\)~" mode: '(enter|exit) type: '(func|prim|form) name: '"~(\S+)~"\}\\n"`)

// profileEvents: the records as "enter out func F.Name", the rest as it is.
func profileEvents(tr string) (evs []string, guids []string) {
	tr = profileRecord.ReplaceAllStringFunc(tr, func(m string) string {
		g := profileRecord.FindStringSubmatch(m)
		guids = append(guids, g[2])
		return g[3] + " " + g[1] + " " + g[4] + " " + g[5]
	})
	for _, e := range strings.Split(tr, ";") {
		if e = strings.TrimSpace(e); e != "" {
			evs = append(evs, e)
		}
	}
	return
}

// profiled judges one path of an application: arguments first, then the record
// that it begins, the body, and the record that it ends, whatever came of the body.
func profiled(on, file bool, typ, who string, bodies int) func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
	out := "Stdout"
	if file {
		out = "out"
	}
	return func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
		evs, guids := profileEvents(tr)
		want := []string{}
		body := []string{}
		rest := []string{}
		for _, e := range evs {
			switch {
			case strings.HasPrefix(e, "body ") || strings.HasPrefix(e, "eval b"):
				body = append(body, e)
				fallthrough
			case strings.HasPrefix(e, "enter ") || strings.HasPrefix(e, "exit ") || strings.HasPrefix(e, "write "):
				rest = append(rest, e)
			default:
				if len(rest) > 0 {
					return "the application's " + e + " comes after a record or the body"
				}
			}
		}
		ran := len(body) > 0 || bodies == 0 && !failed
		if on && ran {
			want = append(want, "enter "+out+" "+typ+" "+who)
		}
		want = append(want, body...)
		if on && ran {
			want = append(want, "exit "+out+" "+typ+" "+who)
		}
		if strings.Join(rest, "; ") != strings.Join(want, "; ") {
			return fmt.Sprintf("records and body are %q, not %q", rest, want)
		}
		if len(guids) == 2 && guids[0] != guids[1] {
			return fmt.Sprintf("the records of one application have the numbers %s and %s", guids[0], guids[1])
		}
		for _, g := range guids {
			if !strings.Contains(g, "drawn") {
				return "the number " + g + " is not drawn for this application alone"
			}
		}
		return ""
	}
}

func profileRoots(pr *Program) (out []troot) {
	for _, on := range []bool{true, false} {
		for _, file := range []bool{true, false} {
			on, file := on, file
			add := func(t troot, typ, who string, bodies int) {
				mk := t.mk
				t.name += map[bool]string{true: " profiled", false: ""}[on] + map[bool]string{true: " to a file", false: ""}[file]
				t.mk = func(x *Exec, s *State) []*Term {
					a := mk(x, s)
					x.profiling(s, on, file)
					return a
				}
				t.judge = profiled(on, file, typ, who, bodies)
				t.min = 2
				out = append(out, t)
			}
			for _, m := range []string{"(*PrimitiveFunction).Apply", "(*PrimitiveFunction).ApplyWithoutEval"} {
				for _, a := range []string{"", "x", "x y"} {
					add(primRoot(m, a, false), "prim", "P.Name", 1)
					add(primRoot(m, a, true), "form", "P.Name", 1)
				}
			}
			for _, m := range []string{"(*Function).Apply", "(*Function).ApplyWithoutEval", "(*Function).ApplyWithFrame", "(*Function).ApplyWithoutEvalWithFrame", "(*Function).ApplyOveriddingEnvironment"} {
				for b, bs := range []string{"()", "(b1)", "(b1 b2)", "(b1 b2 b3)"} {
					add(fnRoot(m, "(p:Symbol)", 1, false, "x / "+bs), "func", "F.Name", b)
					add(fnRoot(m, "(p:Symbol . r:Symbol)", 1, true, "x y / "+bs), "func", "F.Name", b)
				}
			}
		}
	}
	for _, a := range []string{"x", "x \"log", "x \"", "x f:Symbol"} {
		t := ioSpec("profile", a)
		mk := t.mk
		open, end := "", ""
		if strings.Contains(a, "log") {
			open, end = "open \"log\" readwrite+create+truncate 438; ", "; close file(\"log\")"
		}
		to := map[bool]string{true: `file("log")`, false: "nil"}[open != ""]
		t.mk = func(x *Exec, s *State) []*Term {
			r := mk(x, s)
			x.profiling(s, false, true)
			return r
		}
		bad := strings.Contains(a, "Symbol")
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if e := x.getGlobal(s, "ProfileEnabled"); e != "false" {
				return "the profiler is left on (" + e + ")"
			}
			tr = strings.TrimSpace(normTrace(tr))
			fails := strings.Contains(strings.ReplaceAll(tr, "close file(\"log\") fails", ""), " fails")
			if fails != failed && !bad {
				return "the verdict of the expression is not the one reported"
			}
			evs := func(t string) string {
				l, _ := profileEvents(strings.ReplaceAll(t, " fails", ""))
				return strings.Join(l, "; ")
			}
			did, want := evs(tr), evs(open+"profiler true "+to+"; eval x"+end)
			switch {
			case bad && failed && did == "", open != "" && failed && did == evs(open):
				return ""
			case bad || did != want:
				return fmt.Sprintf("profile does %q, not %q", did, want)
			case !failed && x.nm(s, rs[0]) != "[x]":
				return "the value is " + x.nm(s, rs[0])
			}
			return ""
		}
		t.min = 1
		out = append(out, t)
	}
	return
}

func profileModel(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	switch ci.name {
	case "time.Now":
		return one(s, x.ts.sym(x.resultsOf(ci).At(0).Type(), "tr", "now", ci.site)), true
	case "(time.Time).UnixNano":
		return one(s, x.ts.mk(OCall, types.Typ[types.Int64], "nano", 0)), true
	case "sync/atomic.AddInt64":
		if n := x.num(s, ci.args[1]); n == "1" {
			k := strings.Count(s.tag("drawn"), ";") + 1
			s.setTag("drawn", s.tag("drawn")+";")
			return one(s, x.ts.mk(OCall, types.Typ[types.Int64], fmt.Sprintf("drawn%d", k), 0)), true
		}
	}
	if ci.fn != nil && x.pr.short(ci.fn) == "Eval" && strings.Contains(x.root, "builtin profile") {
		s.trace("profiler %s %s", x.getGlobal(s, "ProfileEnabled"), x.getGlobal(s, "profileOutput"))
	}
	if o, ok := ioModel(x, fr, s, ci); ok {
		if strings.HasPrefix(ci.name, "fmt.") {
			o = o[:1]
		}
		return o, ok
	}
	switch ci.name {
	case "fmt.Printf", "fmt.Fprintf":
		s.trace("write something formatted")
	}
	return primBody(x, fr, s, ci)
}

func init() {
	props["C20"] = &Prop{id: "C20", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "profile", profileRoots(pr), traceOpts{call: profileModel, nonNil: true, norm: norm12,
			inline: setOf("ProfileEnter", "ProfileExit", "StartProfiling", "EndProfiling")})
	}}
}
