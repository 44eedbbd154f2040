package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// format: control strings made of every substitution, alone and in pairs, with
// unknown arguments; the text of each path against an interpretation of the
// control string.

type fmtCase struct {
	ctl, args string
}

func fmtCases() (out []fmtCase) {
	ds := []fmtCase{
		{"~A", "a:String"}, {"~a", "a:Integer"}, {"~S", "a:String"}, {"~s", "a:Symbol"},
		{"~5A", "a:String"}, {"~12@A", "a:Symbol"}, {"~3S", "a:String"}, {"~3@S", "a:Integer"},
		{"~@A", "a:String"}, {"~VA", "#4 a:String"}, {"~v@S", "#7 a:Symbol"}, {"~#A", "a:String"},
		{"~%", ""}, {"~3%", ""}, {"~V%", "#2"}, {"~~", ""}, {"~4~", ""}, {"~V~", "#2"},
		{"~\n   ", ""}, {"~@\n \t ", ""}, {"text ", ""}, {"\n", ""}, {"~A", "a:ConsCell"}, {"~A", "()"},
	}
	out = append(out, fmtCase{"", ""})
	name := func(s, n string) string { return strings.Replace(s, "a:", n+":", 1) }
	for _, d := range ds {
		out = append(out, d, fmtCase{"x" + d.ctl, d.args}, fmtCase{d.ctl + "y", d.args}, fmtCase{"x" + d.ctl + "yz", d.args})
		// an argument too many, one too few
		out = append(out, fmtCase{d.ctl, strings.TrimSpace(d.args + " b:String")})
		if fs := strings.Fields(d.args); len(fs) > 0 {
			out = append(out, fmtCase{d.ctl, strings.Join(fs[:len(fs)-1], " ")})
		}
		for _, e := range ds {
			out = append(out, fmtCase{d.ctl + e.ctl, strings.TrimSpace(d.args + " " + name(e.args, "b"))})
			out = append(out, fmtCase{d.ctl + ", " + e.ctl + ".", strings.TrimSpace(d.args + " " + name(e.args, "b"))})
		}
	}
	var ctl, args string
	for i := 0; i < 20; i++ {
		ctl += []string{"~A ", "~S, ", "~%~A", "~~~a"}[i%4]
		args += fmt.Sprintf("a%d:%s ", i, []string{"String", "Symbol", "Integer"}[i%3])
	}
	out = append(out, fmtCase{ctl, args}, fmtCase{ctl, args + "z"}, fmtCase{ctl + "~A", args},
		fmtCase{"~A~5@A~6A~A", "a:String b:String c:String d:String"}, fmtCase{"~#@A~#S", "a:String b:String"})
	for _, bad := range []string{"~Q", "~", "~5", "~@", "x~A~", "~5@", "~V", "~*", "~D", "a~!b", "~A ~R"} {
		out = append(out, fmtCase{bad, "a:String b:String"}, fmtCase{bad, "a:String"}, fmtCase{bad, ""}, fmtCase{bad, "#3 a:String"})
	}
	out = append(out, fmtCase{"~VA", "a:String b:String"}, fmtCase{"~VA", "a:Symbol b:String"}, fmtCase{"~V%", "a:Float"})
	return
}

// formatText interprets a control string; ok is false where it is an error,
// known where the lengths of the arguments decide the padding.
func (x *Exec) formatText(s *State, ctl string, args []string, vals []*Term) (t *Term, ok, known bool) {
	sc := func(v string) *Term { return x.ts.constv(constant.MakeString(v), stringT) }
	var parts []*Term
	it := types.Typ[types.Int]
	known = true
	for i := 0; i < len(ctl); {
		if ctl[i] != '~' {
			parts = append(parts, sc(ctl[i:i+1]))
			i++
			continue
		}
		i++
		width, at := 0, false
		j := i
		for j < len(ctl) && ctl[j] >= '0' && ctl[j] <= '9' {
			j++
		}
		if j > i {
			width, _ = strconv.Atoi(ctl[i:j])
			i = j
		} else if i < len(ctl) && ctl[i] == '#' {
			width = len(vals)
			i++
		} else if i < len(ctl) && (ctl[i] == 'V' || ctl[i] == 'v') {
			if len(vals) == 0 || !strings.HasPrefix(args[0], "#") {
				return nil, false, true
			}
			width, _ = strconv.Atoi(args[0][1:])
			vals, args = vals[1:], args[1:]
			i++
		}
		if i < len(ctl) && ctl[i] == '@' {
			at = true
			i++
		}
		if i >= len(ctl) {
			return nil, false, known
		}
		c := ctl[i]
		i++
		switch c {
		case 'A', 'a', 'S', 's':
			if len(vals) == 0 {
				return nil, false, known
			}
			v := x.ts.mk(OCall, stringT, "printed", 0, strip(vals[0]))
			if c|0x20 == 'a' && strings.HasSuffix(args[0], ":String") {
				v = x.argPayload(s, vals[0])
			}
			vals, args = vals[1:], args[1:]
			pad := sc("")
			if width > 0 {
				w := x.ts.intc(int64(width), it)
				l := x.lenTerm(s, v)
				switch x.decide(s, x.bin(s, token.LSS, types.Typ[types.Bool], l, w)) {
				case 0:
					known = false
				case 1:
					n := x.bin(s, token.SUB, it, w, l)
					if k, ok := x.constInt(s, n); ok && k >= 0 {
						pad = sc(strings.Repeat(" ", int(k)))
					} else {
						pad = x.ts.mk(OCall, stringT, "strings.Repeat", 0, sc(" "), n)
					}
				}
			}
			if at {
				parts = append(parts, pad, v)
			} else {
				parts = append(parts, v, pad)
			}
		case '%', '~':
			if width < 1 {
				width = 1
			}
			parts = append(parts, sc(strings.Repeat(map[byte]string{'%': "\n", '~': "~"}[c], width)))
		case '\n':
			for i < len(ctl) && strings.ContainsRune(" \t\r\n\v\f", rune(ctl[i])) {
				i++
			}
			if at {
				parts = append(parts, sc("\n"))
			}
		default:
			return nil, false, known
		}
	}
	if len(vals) > 0 {
		return nil, false, known
	}
	return x.concat(s, parts), true, known
}

func fmtRoots() (out []troot) {
	seen := map[string]bool{}
	for k, c := range fmtCases() {
		c := c
		for _, dest := range []string{"#f", "p:Port", "#t"} {
			dest := dest
			if dest == "p:Port" && k%5 != 0 || dest == "#t" && k%5 != 1 {
				continue
			}
			n := fmt.Sprintf("builtin format / (format %s %q %s)", dest, c.ctl, c.args)
			if seen[n] {
				continue
			}
			seen[n] = true
			t := troot{name: n, builtin: "format", min: 1}
			fs := fmtFields(c.args)
			var vals []*Term
			t.mk = func(x *Exec, s *State) []*Term {
				env := x.ts.sym(x.pr.ptrTo(x.pr.envT), "env", "env", nil)
				x.setNil(s, env, false)
				x.shapes = map[string]*Term{}
				d := x.shape1(s, dest)
				ctl := x.buildShape(s, &shape{name: "\"" + c.ctl}, x.shapes)
				vals = nil
				for _, f := range fs {
					vals = append(vals, x.shape1(s, f))
				}
				l := x.ts.nilOf(x.dataPtr())
				for i := len(vals) - 1; i >= 0; i-- {
					l = x.cons(s, vals[i], l)
				}
				return []*Term{x.cons(s, d, x.cons(s, ctl, l)), env}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				want, ok, known := x.formatText(s, c.ctl, fs, vals)
				if failed != !ok {
					if failed && strings.Contains(tr, " fails") {
						return ""
					}
					if failed {
						return "a path fails, where there is a substitution for each argument"
					}
					return "a path succeeds, where it should report an error"
				}
				if failed {
					if strings.Contains(tr, "write") {
						return "a path writes before it fails"
					}
					return ""
				}
				if !known {
					return "a path does not depend on whether an argument fills its field"
				}
				w := x.num(s, want)
				tr = strings.TrimSuffix(strings.TrimSpace(tr), ";")
				got := ""
				switch dest {
				case "#f":
					if p := x.payload(s, rs[0]); p != nil {
						got = x.num(s, p)
					}
					if tr != "" {
						return "a path writes something"
					}
				case "p:Port":
					got = strings.TrimPrefix(tr, "write p ")
				default:
					got = strings.TrimPrefix(tr, "write Stdout ")
					if strings.Contains(s.tag("br"), "nostdout") && tr == "" {
						return ""
					}
				}
				if got != w {
					return fmt.Sprintf("a path gives %s, not %s", got, w)
				}
				return ""
			}
			out = append(out, t)
		}
	}
	return
}

func fmtFields(a string) (out []string) {
	if a == "()" {
		return []string{"()"}
	}
	return strings.Fields(a)
}

func init() {
	props["C29"] = &Prop{id: "C29", run: func(pr *Program, rep *Report, th bool) {
		runTroots(pr, rep, "format", fmtRoots(), traceOpts{call: ioModel, endless: true, fork: forkApart})
	}}
}
