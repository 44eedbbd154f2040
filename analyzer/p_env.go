package main

import (
	"fmt"
	"strings"
)

// Environments: what a name means, what defining and assigning it changes, and
// that protected bindings stay as they are. Every function and builtin that
// reads or writes bindings is followed in every chain of environments up to a
// depth, with the name bound, bound protected or unbound at each level.

const envM = "(*SymbolTableFrame)."

var envInline = setOf(envM+"BindLocallyTo", envM+"BindTo", envM+"SetTo", envM+"ValueOf", envM+"ValueOfWithFunctionSlotCheck", envM+"BindToProtected",
	"(*FrameMap).Get", "(*FrameMap).HasSlot", "(*FrameMap).Set", "(*FrameMap).Remove", "(*FrameMap).Clone", "(*FrameMap).Keys", "(*FrameMap).Values", "(*FrameMap).Parents")

// chain describes a chain of environments and where v is bound in it: 0
// unbound, 1 bound, 2 protected, 3 bound without a value.
type chain struct {
	at    []int
	text  string
	first int // level of the innermost binding, -1 if none
}

func envName(i int) string {
	if i == 0 {
		return "env"
	}
	return fmt.Sprintf("P%d", i)
}

func chains(depth int, kind ...int) (out []chain) {
	kinds := len(kind)
	for d := 1; d <= depth; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= kinds
		}
		for n := 0; n < total; n++ {
			c := chain{first: -1}
			var parts []string
			k := n
			for i := 0; i < d; i++ {
				at := kind[k%kinds]
				k /= kinds
				c.at = append(c.at, at)
				p := envName(i)
				if i < d-1 {
					p += "<" + envName(i+1)
				}
				p += fmt.Sprintf(" w=w%d", i)
				switch at {
				case 1:
					p += fmt.Sprintf(" v=v%d", i)
				case 2:
					p += fmt.Sprintf(" v=!v%d", i)
				case 3:
					p += " v=nil"
				}
				if at > 0 && c.first < 0 {
					c.first = i
				}
				parts = append(parts, p)
			}
			c.text = strings.Join(parts, " ; ")
			out = append(out, c)
		}
	}
	return
}

func (c chain) val() string {
	if c.at[c.first] == 3 {
		return "()"
	}
	return fmt.Sprintf("v%d", c.first)
}

// withFrame adds a frame to the innermost environment.
func withFrame(text, frame string) string {
	head := strings.Fields(text)[0]
	return head + "@F" + text[len(head):] + " ; " + frame
}

func wbuiltin(name, world, args string, want ...string) troot {
	t := troot{name: fmt.Sprintf("builtin %s / %s in {%s}", name, args, world), builtin: name, want: want, world: true}
	t.mk = func(x *Exec, s *State) []*Term {
		x.shapes = map[string]*Term{}
		x.buildWorld(s, world)
		return []*Term{x.shape1(s, args), x.world["env"].obj}
	}
	return t
}

func scopeRoots(depth int) (ts []troot) {
	add := func(t troot) { ts = append(ts, t) }
	for _, c := range chains(depth, 0, 1, 3) {
		look, bind, slot := "=> ()", "=> nil, false", ""
		if c.first >= 0 {
			look = "=> " + c.val()
			bind = "=> " + envName(c.first) + ".v, true"
		}
		add(wroot(envM+"FindBindingFor", c.text, "env 'v", bind))
		add(wroot(envM+"ValueOf", c.text, "env 'v", look))
		for _, f := range []struct {
			frame string
			slot  string // what the frame has under v:
			fn    bool
		}{{"%F u:=u", "", false}, {"%F v:=s:Function", "s", true}, {"%F v:=s:Integer", "s", false}, {"%F v:=nil", "()", false}, {"%F p*:=%G ; %G v:=nil", "()", false}, {"%F p*:=%G u:=u ; %G v:=s:Function", "s", true}, {"%F p*:=%G ; %G q*:=%H ; %H v:=s:String", "s", false}} {
			slot = f.slot
			for _, need := range []bool{false, true} {
				want := look
				if c.at[0] == 0 && slot != "" && (f.fn || !need) {
					want = "=> " + slot
				}
				add(wroot(envM+"ValueOfWithFunctionSlotCheck", withFrame(c.text, f.frame), fmt.Sprintf("env 'v %v", need), want))
			}
		}
		for _, b := range [][2]string{{"environment-bound?", "=> #t"}, {"environment-assignable?", "=> #t"}} {
			want := "=> #f"
			if c.first >= 0 {
				want = b[1]
			}
			add(wbuiltin(b[0], c.text, "(env 'v)", want))
		}
		if c.first >= 0 && c.at[c.first] == 3 {
			continue // as one without a value, below
		}
		kinds := []string{"v:Integer", "v:Macro", "v:Function", "v:Frame"}
		for _, k := range kinds {
			w := strings.ReplaceAll(c.text, "v=v", "v=k")
			if c.first >= 0 {
				w = strings.Replace(w, fmt.Sprintf("v=k%d", c.first), fmt.Sprintf("v=k%d%s", c.first, k[1:]), 1)
			}
			kv := fmt.Sprintf("k%d", c.first)
			macro := k == "v:Macro"
			pick := func(none, mac, normal string) string {
				switch {
				case c.first < 0:
					return none
				case macro:
					return mac
				}
				return normal
			}
			add(wbuiltin("environment-lookup", w, "(env 'v)", pick("=> error", "=> error", "=> "+kv)))
			add(wbuiltin("environment-assigned?", w, "(env 'v)", pick("=> error", "=> error", "=> #t")))
			add(wbuiltin("environment-lookup-macro", w, "(env 'v)", pick("=> #f", "=> "+kv, "=> #f")))
			add(wbuiltin("environment-reference-type", w, "(env 'v)", pick("=> 'unbound", "=> 'macro", "=> 'normal")))
			if c.first < 0 {
				break
			}
		}
	}
	for _, c := range chains(depth, 0, 1, 2, 3) {
		fail := "=> error"
		on := envName(max(c.first, 0))
		prot := c.first >= 0 && c.at[c.first] == 2
		set := fmt.Sprintf("%s.v=z; => z", on)
		def := "env.v=z; => z"
		setw, bindw, defw := set, set, def
		switch {
		case prot:
			setw, bindw = fail, fail
		case c.first < 0:
			setw, bindw = fail, def
		}
		if c.at[0] == 2 {
			defw = fail
		}
		add(wroot(envM+"SetTo", c.text, "env 'v z", setw))
		add(wroot(envM+"BindTo", c.text, "env 'v z", bindw))
		add(wroot(envM+"BindLocallyTo", c.text, "env 'v z", defw))
		add(wroot(envM+"BindToProtected", c.text, "env 'v z", strings.Replace(map[bool]string{true: def, false: set}[c.first < 0], ".v=", ".v=!", 1)))
		ev := func(w string) string {
			if w == fail {
				return "eval y; => error"
			}
			return "eval y; " + strings.ReplaceAll(w, "z", "[y]")
		}
		add(wbuiltin("set!", c.text, "('v y)", ev(setw)))
		defv := ev(defw)
		add(wbuiltin("define", c.text, "('v y)", defv))
		envset := setw
		if c.first < 0 {
			envset = "=> ()"
		}
		add(wbuiltin("environment-assign!", c.text, "(env 'v z)", envset))
		add(wbuiltin("environment-define", c.text, "(env 'v z)", defw))
		// the frame's slot is assigned only where the name is not bound locally
		for _, f := range []struct{ frame, has string }{{"%F v:=s", "yes"}, {"%F p*:=%G ; %G v:=s", "inherited"}, {"%F v:=nil", "yes"}, {"%F u:=s", ""}} {
			want := setw
			if c.at[0] == 0 && f.has != "" {
				want = "%F.v:=z; => z"
			}
			add(wroot(envM+"SetTo", withFrame(c.text, f.frame), "env 'v z", want))
		}
	}
	// bindings without a value, and arguments of other kinds
	un := "env<P a=nil v=x ; P u=nil"
	for _, n := range []string{"a", "u"} {
		add(wroot(envM+"ValueOf", un, "env '"+n, "=> ()"))
		add(wbuiltin("environment-bound?", un, "(env '"+n+")", "=> #t"))
		add(wbuiltin("environment-assigned?", un, "(env '"+n+")", "=> #f"))
		add(wbuiltin("environment-lookup", un, "(env '"+n+")", "=> error"))
		add(wbuiltin("environment-lookup-macro", un, "(env '"+n+")", "=> #f"))
		add(wbuiltin("environment-reference-type", un, "(env '"+n+")", "=> 'unassigned"))
	}
	for _, b := range []string{"environment-bound?", "environment-assigned?", "environment-lookup", "environment-lookup-macro", "environment-assignable?", "environment-definable?", "environment-reference-type"} {
		add(wbuiltin(b, un, "(q:Integer|Symbol|Frame|String|ConsCell|Function 'v)", "=> error"))
		add(wbuiltin(b, un, "(env q:Integer|String|ConsCell|Frame)", "=> error"))
	}
	for _, b := range []string{"environment-assign!", "environment-define"} {
		add(wbuiltin(b, un, "(q:Integer|Symbol|Frame|String|ConsCell|Function 'v z)", "=> error"))
		add(wbuiltin(b, un, "(env q:Integer|String|ConsCell|Frame z)", "=> error"))
	}
	add(wbuiltin("set!", un, "(q:Integer|String|ConsCell|Frame z)", "=> error"))
	add(wbuiltin("environment-definable?", un, "(env 'zz)", "=> #t"))
	for _, b := range [][3]string{{"environment?", "=> #t", "=> #f"}, {"environment-has-parent?", "=> #t", "=> error"}, {"environment-parent", "=> P", "=> error"}, {"environment-bound-names", "=> ('a 'v)", "=> error"},
		{"environment-macro-names", "=> ('v)", "=> error"}, {"environment-bindings", "=> (('a) ('v x))", "=> error"}} {
		add(wbuiltin(b[0], "env<P a=nil v=x:Macro ; P u=y:Macro", "(env)", b[1]))
		add(wbuiltin(b[0], un, "(q:Integer|Symbol|Frame|String|ConsCell|Function)", b[2]))
	}
	for _, v := range []string{"#f", "#t", "#0", "f:Function", "m:Macro", "%K"} {
		w := "env<P a=nil v=" + v + " z=#0 ; P u=y ; %K"
		add(wbuiltin("environment-bindings", w, "(env)", "=> (('a) ('v "+strings.Replace(strings.Split(v, ":")[0], "#0", "<0>", 1)+") ('z <0>))"))
	}
	add(wbuiltin("environment-has-parent?", un, "(P)", "=> #f"))
	add(wbuiltin("environment-parent", un, "(P)", "=> ()"))
	add(wbuiltin("environment-bound-names", un, "(P)", "=> ('u)"))
	g := "env<Global a=x ; Global b=y ; low<env"
	add(wbuiltin("the-environment", g, "()", "=> env"))
	add(wbuiltin("the-environment", "env<mid ; mid<Global ; Global", "()", "=> error"))
	add(wbuiltin("system-global-environment", g, "()", "=> Global"))
	nw := func(b, name string) string {
		return "top." + name + "=[Parent Global" + b + "]; => <[Parent Global" + b + "]>"
	}
	mt, anon := "make-top-level-environment", "anonymous top level"
	add(wbuiltin(mt, g, "()", nw("", anon)))
	add(wbuiltin(mt, g, "(())", nw("", anon)))
	add(wbuiltin(mt, g, "(('p 'q))", nw(" p=() q=()", anon)))
	add(wbuiltin(mt, g, "(('p 'q) (x y))", nw(" p=x q=y", anon)))
	add(wbuiltin(mt, g, "(('p 'q 'r) (x y z))", nw(" p=x q=y r=z", anon)))
	add(wbuiltin(mt, g, "(\"n ('p 'q) (x y))", nw(" p=x q=y", "n")))
	add(wbuiltin(mt, g, "(\"n ('p 'q))", nw(" p=() q=()", "n")))
	add(wbuiltin(mt, g, "(\"n)", nw("", "n")))
	// a name that is in use already names the new environment from then on
	for _, t := range []string{"n", "anonymous top level"} {
		again := g + " ; old<Global c=z ; top " + strings.ReplaceAll(t, " ", "_") + "=&old"
		if t == "n" {
			add(wbuiltin(mt, again, "(\"n)", nw("", t)))
			add(wbuiltin(mt, again, "(\"n ('p 'q) (x y))", nw(" p=x q=y", t)))
		} else {
			add(wbuiltin(mt, again, "()", nw("", t)))
		}
	}
	add(wbuiltin("find-top-level-environment", g+" ; old<Global c=z ; top n=&old", "(\"n)", "=> old"))
	add(wbuiltin("find-top-level-environment", g+" ; old<Global c=z ; top n=&old", "('n)", "=> old"))
	add(wbuiltin("find-top-level-environment", g, "(\"SystemGlobal)", "=> Global"))
	add(wbuiltin("find-top-level-environment", g, "('SystemGlobal)", "=> Global"))
	add(wbuiltin("find-top-level-environment", g, "(\"elsewhere)", "=> ()"))
	add(wbuiltin("find-top-level-environment", g, "(q:Integer|Frame|ConsCell)", "=> error"))
	for _, r := range []string{"", "!"} {
		// a top-level environment is entered in the table of them
		w := "env<Global a=x ; Global" + r + " b=y"
		rs := map[string]string{"": "", "!": "IsRestricted true "}[r]
		add(wroot("NewSymbolTableFrameBelow", w, "Global $new", "top.new=["+rs+"Parent Global]; => ["+rs+"Parent Global]"))
		add(wroot("NewSymbolTableFrameBelow", w, "env $new", "=> [Parent env]"))
		add(wroot("NewSymbolTableFrameBelow", w, "nil $new", "top.new=[]; => []"))
	}
	// new environments
	for _, r := range []string{"", "!"} {
		rs := map[string]string{"": "", "!": "IsRestricted true "}[r]
		w := "env<P" + r + " a=x ; P" + " b=y ; %F"
		wf := "env<P@F" + r + " a=x ; P b=y ; %F ; %G"
		add(wroot("NewSymbolTableFrameBelow", w, "env $new", "=> ["+rs+"Parent env]"))
		add(wroot("NewSymbolTableFrameBelow", wf, "env $new", "=> [Frame %F "+rs+"Parent env]"))
		add(wroot("NewSymbolTableFrameBelowWithFrame", w, "env %F $new", "=> [Frame %F "+rs+"Parent env]"))
		add(wroot("NewSymbolTableFrameBelowWithFrame", wf, "env %G $new", "=> [Frame %G "+rs+"Parent env]"))
		add(wroot("NewSymbolTableFrameBelowWithFrame", wf, "env nil $new", "=> [Frame %F "+rs+"Parent env]"))
	}
	return
}

func init() {
	props["C11"] = &Prop{id: "C11", run: func(pr *Program, rep *Report, th bool) {
		d := 3
		if th {
			d = 4
		}
		runTroots(pr, rep, "scope", scopeRoots(d), traceOpts{world: true, inline: setOf(append(sortedKeys(envInline), "NewSymbolTableFrameBelow", "NewSymbolTableFrameBelowWithFrame")...)})
	}}
}
