package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// Frames: what a slot means through its parents, what the slot builtins read
// and change, and which function a message runs on which frame.

// frameWorld: a frame, its parents, and what looking k: up in it gives.
type frameWorld struct {
	text  string
	val   string   // "" when there is no such slot
	local bool     // the slot is one of the frame's own
	super []string // what the parents give
	keys  []string
	vals  []string
}

func frameWorlds(th bool) (ws []frameWorld) {
	add := func(text, val string, local bool, super string, kv string) {
		w := frameWorld{text: text, val: val, local: local}
		if super != "" {
			w.super = strings.Split(super, "|")
		}
		for _, e := range strings.Fields(kv) {
			f := strings.SplitN(e, "=", 2)
			w.keys = append(w.keys, f[0])
			w.vals = append(w.vals, f[1])
		}
		ws = append(ws, w)
	}
	add("%F", "", false, "", "")
	add("%F k:=s", "s", true, "", "k:=s")
	add("%F u:=a k:=s", "s", true, "", "u:=a k:=s")
	add("%F u:=a", "", false, "", "u:=a")
	add("%F p*:=%G ; %G k:=s", "s", false, "s", "p*:=%G")
	add("%F p*:=%G u:=a ; %G u:=b", "", false, "", "p*:=%G u:=a")
	add("%F k:=s p*:=%G ; %G k:=t", "s", true, "t", "k:=s p*:=%G")
	add("%F p*:=%G k:=s ; %G k:=t", "s", true, "t", "p*:=%G k:=s")
	add("%F k:=s p*:=%G ; %G u:=t", "s", true, "", "k:=s p*:=%G")
	add("%F p*:=%G ; %G q*:=%H ; %H k:=s", "s", false, "s", "p*:=%G")
	add("%F p*:=%G k:=r ; %G q*:=%H ; %H k:=s", "r", true, "s", "p*:=%G k:=r")
	add("%F p*:=%G ; %G q*:=%H k:=s ; %H k:=t", "s", false, "s", "p*:=%G")
	add("%F p*:=%G ; %G q*:=%H ; %H r*:=%I ; %I k:=s", "s", false, "s", "p*:=%G")
	// several parents
	add("%F p*:=%G q*:=%H ; %G u:=a ; %H k:=s", "s", false, "s", "p*:=%G q*:=%H")
	add("%F p*:=%G q*:=%H ; %G k:=s ; %H u:=a", "s", false, "s", "p*:=%G q*:=%H")
	add("%F p*:=%G q*:=%H ; %G r*:=%I ; %H r*:=%I ; %I k:=s", "s", false, "s", "p*:=%G q*:=%H")
	add("%F p*:=%G q*:=%H ; %G r*:=%I ; %H r*:=%I k:=s ; %I u:=a", "s", false, "s", "p*:=%G q*:=%H")
	add("%F p*:=%G q*:=%H ; %G r*:=%I ; %H r*:=%I ; %I u:=a", "", false, "", "p*:=%G q*:=%H")
	// cycles
	add("%F p*:=%F", "", false, "", "p*:=%F")
	add("%F p*:=%F k:=s", "s", true, "s", "p*:=%F k:=s")
	add("%F p*:=%G ; %G q*:=%F", "", false, "", "p*:=%G")
	add("%F p*:=%G ; %G q*:=%F k:=s", "s", false, "s", "p*:=%G")
	add("%F p*:=%G ; %G q*:=%F p*:=%H ; %H k:=s", "s", false, "s", "p*:=%G")
	add("%F p*:=%G ; %G q*:=%H ; %H r*:=%G", "", false, "", "p*:=%G")
	// a slot named like a parent that holds no frame, and names that only look
	// like it
	add("%F p*:=a:Integer k:=s", "s", true, "", "p*:=a k:=s")
	add("%F p*:=a:Integer", "", false, "", "p*:=a")
	add("%F p*:=a:ConsCell q*:=%G ; %G k:=s", "s", false, "s", "p*:=a q*:=%G")
	add("%F p:=%G ; %G k:=s", "", false, "", "p:=%G")
	add("%F *p:=%G ; %G k:=s", "", false, "", "*p:=%G")
	add("%F k*:=%G ; %G u:=a", "", false, "", "k*:=%G")
	add("%F kk:=a", "", false, "", "kk:=a")
	// slots holding nothing
	add("%F k:=nil", "()", true, "", "k:=()")
	add("%F k:=nil u:=a", "()", true, "", "k:=() u:=a")
	add("%F u:=nil", "", false, "", "u:=()")
	add("%F p*:=%G ; %G k:=nil", "()", false, "()", "p*:=%G")
	add("%F k:=nil p*:=%G ; %G k:=t", "()", true, "t", "k:=() p*:=%G")
	add("%F p*:=%G q*:=%H ; %G u:=a ; %H k:=nil", "()", false, "()", "p*:=%G q*:=%H")
	add("%F k:=#f p*:=%G ; %G k:=t", "#f", true, "t", "k:=#f p*:=%G")
	add("%F p*:=nil k:=s", "s", true, "", "p*:=() k:=s")
	if th {
		for d := 4; d < 10; d++ {
			t, n := "%F", "FGHIJKLMNO"
			for i := 1; i < d; i++ {
				t += fmt.Sprintf(" p*:=%%%c u:=u%d ; %%%c", n[i], i, n[i])
			}
			add(t+" k:=s", "s", false, "s", "p*:=%G u:=u1")
			add(t+" u:=a", "", false, "", "p*:=%G u:=u1")
			add(t+" p*:=%F", "", false, "", "p*:=%G u:=u1")
			add(strings.Replace(t, " ; %H ", " ; %H k:=m ", 1)+" k:=s", "m", false, "m", "p*:=%G u:=u1")
		}
	}
	return
}

func frameRoots(th bool) (ts []troot) {
	add := func(t troot) { ts = append(ts, t) }
	b := func(name, world, args string, want ...string) { add(wbuiltin(name, world, args, want...)) }
	for _, w := range frameWorlds(th) {
		wt := "env ; " + w.text
		has, get, getn := "=> #f", "=> error", "=> ()"
		if w.val != "" {
			has, get, getn = "=> #t", "=> "+w.val, "=> "+w.val
		}
		goHas := strings.NewReplacer("#f", "false", "#t", "true").Replace(has)
		add(wroot("(*FrameMap).HasSlot", wt, "%F $k:", goHas))
		goGet := "=> ()"
		if w.val != "" {
			goGet = get
		}
		add(wroot("(*FrameMap).Get", wt, "%F $k:", goGet))
		b("has-slot?", wt, "(%F 'k:)", has)
		b("get-slot", wt, "(%F 'k:)", get)
		b("get-slot-or-nil", wt, "(%F 'k:)", getn)
		b("set-slot!", wt, "(%F 'k: z)", "%F.k:=z; => z")
		if !w.local || w.val != "()" {
			b("set-slot!", wt, "(%F 'k: ())", "%F.k:=(); => ()")
			b("set-slot!", wt, "(%F 'k: nil)", "%F.k:=(); => ()")
		}
		if w.val != "#f" {
			b("set-slot!", wt, "(%F 'k: #f)", "%F.k:=#f; => #f")
		}
		b("set-slot!", wt, "(%F 'n*: ())", "%F.n*:=(); => ()")
		b("set-slot!", wt, "(%F 'n*: nil)", "%F.n*:=(); => ()")
		if len(w.keys) > 0 && strings.HasSuffix(w.keys[0], "*:") && w.vals[0] != "()" {
			b("set-slot!", wt, "(%F '"+w.keys[0]+" nil)", "%F."+w.keys[0]+"=(); => ()")
		}
		b("set-slot!", wt, "(%F 'n*: %F)", "%F.n*:=%F; => %F")
		if w.local {
			b("remove-slot!", wt, "(%F 'k:)", "%F.k: gone; => #t")
		} else {
			b("remove-slot!", wt, "(%F 'k:)", "=> #f")
		}
		var kv []string
		for i, k := range w.keys {
			kv = append(kv, k+"="+w.vals[i])
		}
		m := map[string]bool{}
		for _, e := range kv {
			m[e] = true
		}
		b("clone", wt, "(%F)", "=> <{"+strings.Join(sortedKeys(m), " ")+"}>")
		ks, vs := "", ""
		for i, k := range w.keys {
			ks += " '" + k
			vs += " " + w.vals[i]
		}
		b("frame-keys", wt, "(%F)", "=> ("+strings.TrimSpace(ks)+")")
		b("frame-values", wt, "(%F)", "=> ("+strings.TrimSpace(vs)+")")
		// messages
		for _, k := range []string{"Function", "Integer", "Primitive", "Macro"} {
			wf := "env ; " + strings.ReplaceAll(strings.ReplaceAll(w.text+" ", "k:=s ", "k:=s:"+k+" "), "k:=t ", "k:=t:"+k+" ")
			wf = strings.ReplaceAll(wf, "k:=r ", "k:=r:"+k+" ")
			wf = strings.TrimSpace(strings.ReplaceAll(wf, "k:=m ", "k:=m:"+k+" "))
			want := "=> error"
			if w.val == "()" || w.val == "#f" {
				break
			}
			if w.val != "" && k == "Function" {
				want = fmt.Sprintf("call %s(a,c) self %%F; => %s(a,c)", w.val, w.val)
			}
			b("send", wf, "(%F 'k: a c)", want)
			b("send", wf, "(%F 'k:)", strings.ReplaceAll(want, "a,c", ""))
			b("apply-slot", wf, "(('quote %F) ('quote 'k:) a ('quote (c)))", apWant(want)...)
			b("apply-slot", wf, "(('quote %F) ('quote 'k:) ('quote (a c)))", want)
			want = "=> error"
			if len(w.super) > 0 && k == "Function" {
				want = fmt.Sprintf("call %s(a,c) in [Frame %%F Parent env self=%%F]; => %s(a,c)", w.super[0], w.super[0])
			}
			we := "env@F" + wf[3:]
			b("send-super", we, "('k: a c)", want)
			b("send-super", we, "('k:)", strings.ReplaceAll(want, "a,c", ""))
			b("apply-slot-super", we, "(('quote 'k:) a ('quote (c)))", apWant(want)...)
			b("apply-slot-super", we, "(('quote 'k:) ('quote (a c)))", want)
		}
	}
	w := "env ; %F k:=s:Function"
	for _, n := range []string{"has-slot?", "get-slot", "get-slot-or-nil", "remove-slot!"} {
		if n != "remove-slot!" {
			b(n, w, "(q:Integer|Symbol|String|ConsCell|Function|Environment 'k:)", "=> error")
		} else {
			b(n, w, "(q:Integer|Symbol|String|Function|Environment 'k:)", "=> error")
			b(n, w, "((q r) 'k:)", "=> error")
		}
		b(n, w, "(%F q:Integer|String|ConsCell|Function|Frame)", "=> error")
		b(n, w, "(%F 'k)", "=> error")
	}
	b("remove-slot!", w, "(() 'k:)", "=> #f")
	b("set-slot!", w, "(q:Integer|Symbol|String|ConsCell|Function|Environment 'k: z)", "=> error")
	b("set-slot!", w, "(%F 'k z)", "=> error")
	b("send", w, "(q:Integer|Symbol|String|ConsCell|Function|Environment 'k:)", "=> error")
	b("send", w, "(%F 'k)", "=> error")
	for _, n := range []string{"clone", "frame-keys", "frame-values"} {
		b(n, w, "(q:Integer|Symbol|String|ConsCell|Function|Environment)", "=> error")
	}
	b("send-super", "env ; %F k:=s", "('k: a)", "=> error")
	b("apply-slot-super", "env ; %F k:=s", "(('quote 'k:) ('quote (a)))", "=> error")
	b("make-frame", w, "()", "=> <{}>")
	b("make-frame", w, "('k: a)", "=> <{k:=a}>")
	b("make-frame", w, "('k: a 'j: c)", "=> <{j:=c k:=a}>")
	b("make-frame", w, "('k: a 'j: c 'k: d)", "=> <{j:=c k:=d}>")
	b("make-frame", w, "('k: a 'j: c 'p*: %F)", "=> <{j:=c k:=a p*:=%F}>")
	b("make-frame", w, "('k: () 'j: ())", "=> <{j:=() k:=()}>")
	b("make-frame", w, "('k: a 'j: c 'k: ())", "=> <{j:=c k:=()}>")
	b("make-frame", w, "('k: a 'k: nil 'j: c)", "=> <{j:=c k:=()}>")
	b("make-frame", w, "('k: nil 'j: c)", "=> <{j:=c k:=()}>")
	b("make-frame", w, "('k: () 'j: c 'k: a)", "=> <{j:=c k:=a}>")
	b("make-frame", w, "('k: #f 'p*: () 'p*: #f)", "=> <{k:=#f p*:=#f}>")
	b("make-frame", w, "('a: a 'b: b 'c: c 'd: d 'e: e 'f: f 'g: g 'h: h 'i: i 'j: j)", "=> <{a:=a b:=b c:=c d:=d e:=e f:=f g:=g h:=h i:=i j:=j}>")
	b("make-frame", w, "('k a)", "=> error")
	b("make-frame", w, "('k: a 'j)", "=> error")
	b("make-frame", w, "('k: a q:Integer|String|ConsCell d)", "=> error")
	return
}

// slotFnRoot applies a function whose environment is fenv in a world.
func slotFnRoot(method, world string, slotFn int64, args string, extra string, want ...string) troot {
	return troot{name: fmt.Sprintf("%s / slot function %d, (%s) %s in {%s}", method, slotFn, args, extra, world), fn: method, want: want, world: true, mk: func(x *Exec, s *State) []*Term {
		pr := x.pr
		x.buildWorld(s, world)
		f := x.obj(s, callableT(pr, "Function"), "F", map[string]*Term{
			"Params": x.shape1(s, "('p 'q)"), "RequiredArgCount": x.ts.intc(2, types.Typ[types.Int]), "VarArgs": x.ts.boolc(false),
			"Body": x.shape1(s, "(b1 b2)"), "Env": x.world["fenv"].obj, "Name": x.ts.constv(constant.MakeString("fname"), types.Typ[types.String])})
		s.heap.set(x.field(f, "SlotFunction"), x.ts.intc(slotFn, types.Typ[types.Int32]))
		pp := x.field(f, "ParentProcess")
		s.heap.set(pp, x.ts.nilOf(ptrElem(pp.typ)))
		if !strings.HasPrefix(method, "(") {
			// through the value wrapping it
			d := x.allocT(s, pr.dataT)
			st := pr.dataT.Underlying().(*types.Struct)
			s.heap.set(x.fieldAddr(d, pr.fType), x.ts.intc(int64(pr.kindNum["Function"]), st.Field(pr.fType).Type()))
			s.heap.set(x.fieldAddr(d, pr.fValue), x.ts.mk(OConv, types.Typ[types.UnsafePointer], "", 0, f))
			f = d
		}
		out := []*Term{f, x.shapeList(s, args), x.world["env"].obj}
		switch {
		case extra == "":
		case extra == "nil":
			out = append(out, x.ts.nilOf(pr.ptrTo(pr.frameMapT)))
		default:
			out = append(out, x.world[extra].obj)
		}
		return out
	}}
}

// selfRoots: what a function run as a slot of a frame sees.
func selfRoots() (ts []troot) {
	for _, ev := range []bool{true, false} {
		body := func(env string) string {
			r := ""
			if ev {
				r = "eval a; eval c; "
			}
			return r + "eval b1 in " + env + "; eval b2 in " + env + "; => [b2]"
		}
		p, q := "a", "c"
		if ev {
			p, q = "[a]", "[c]"
		}
		pq := " p=" + p + " q=" + q
		n := map[bool][3]string{true: {"(*Function).Apply", "(*Function).ApplyWithFrame", "Apply"}, false: {"(*Function).ApplyWithoutEval", "(*Function).ApplyWithoutEvalWithFrame", "ApplyWithoutEval"}}[ev]
		for _, fe := range []struct{ text, frame string }{{"fenv<Q ; Q", ""}, {"fenv<Q@H ; Q", ""}, {"fenv@H<Q ; Q", ""}, {"fenv<Q self=x ; Q", ""}} {
			defFrame := ""
			if strings.Contains(fe.text, "fenv@H") {
				defFrame = "Frame %H "
			}
			text := strings.ReplaceAll(fe.text, "fenv@H<Q", "fenv<Q@H")
			if strings.Contains(fe.text, "Q@H") {
				text = fe.text
				text = strings.ReplaceAll(text, "fenv<Q@H", "fenv<Q")
			}
			for _, ce := range []struct{ text, self, frame string }{
				{"env<P", "", ""}, {"env<P@G", "", "%G"}, {"env<P self=s", "s", ""}, {"env<P@G self=%G", "%G", "%G"}, {"env<P@G self=%K", "%K", "%G"}} {
				w := ce.text + " ; P self=z ; " + text + " ; %F k:=v ; %G ; %H ; %K"
				for _, sf := range []int64{0, 1} {
					nm := "[" + defFrame + "Parent fenv" + pq
					self := ""
					if sf == 1 && ce.self != "" {
						self = " self=" + ce.self
					}
					plain := nm + self + "]"
					given := func(f string) string { return "[Frame " + f + " Parent fenv" + pq + " self=" + f + "]" }
					ts = append(ts, slotFnRoot(n[0], w, sf, "a c", "", body(plain)))
					ts = append(ts, slotFnRoot(n[1], w, sf, "a c", "%F", body(given("%F"))))
					ts = append(ts, slotFnRoot(n[1], w, sf, "a c", "nil", body(plain)))
					want := map[bool]string{true: "apply ", false: "call "}[ev] + "F(a,c)"
					if sf == 1 && ce.frame != "" {
						want += " self " + ce.frame
					}
					want += "; => F(a,c)"
					ts = append(ts, slotFnRoot(n[2], w, sf, "a c", "", want))
				}
			}
		}
	}
	return
}

// apWant: an argument may or may not have been evaluated before an error.
func apWant(want string) []string {
	if want == "=> error" {
		return []string{want, "eval a; => error"}
	}
	return []string{"eval a; " + strings.ReplaceAll(want, "a,c", "[a],c")}
}

// slotFlag follows the mark of a function that was found as a slot.
func slotFlag(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn == nil || extPkg(ci.fn) != "sync/atomic" || len(ci.args) == 0 || !strings.HasSuffix(x.nm(s, ci.args[0]), ".SlotFunction") {
		return nil, false
	}
	switch n := ci.fn.Name(); {
	case strings.HasPrefix(n, "Load"):
		return one(s, x.load(s, ci.args[0])), true
	case strings.HasPrefix(n, "Store"):
		t := ci.args[0]
		for len(t.args) > 0 && !x.isData(t.typ) {
			t = t.args[0]
		}
		s.trace("slot %s=%s", x.nm(s, t), x.nm(s, ci.args[1]))
		return one(s), true
	}
	return nil, false
}

// slotLookupRoots: what a name means inside a frame's code, and whether a
// function found there runs as a slot of the frame.
func slotLookupRoots() (ts []troot) {
	add := func(w string, need bool, want string) {
		ts = append(ts, wroot(envM+"ValueOfWithFunctionSlotCheck", w, fmt.Sprintf("env 'v %v", need), want))
	}
	for _, need := range []bool{false, true} {
		for _, fr := range []string{"", " ; %F v:=s:Function", " ; %F v:=s:Integer", " ; %F v:=nil", " ; %F p*:=%G ; %G v:=nil", " ; %F v:=#f", " ; %F u:=s:Function", " ; %F p*:=%G ; %G v:=s:Function", " ; %F p*:=%G ; %G q*:=%H ; %H v:=s:Function"} {
			head := "env<P"
			if fr != "" {
				head = "env<P@F"
			}
			slot := strings.Contains(fr, "v:=")
			fn := strings.Contains(fr, "v:=s:Function")
			found := "slot s=1; => s"
			if !fn {
				found = "=> s"
				if strings.Contains(fr, "v:=nil") {
					found = "=> ()"
				} else if strings.Contains(fr, "v:=#f") {
					found = "=> #f"
				}
			}
			skip := !slot || !fn && need
			add(head+" v=a:Function ; P v=c:Function"+fr, need, "slot a=1; => a")
			add(head+" v=a:Integer ; P v=c:Function"+fr, need, "=> a")
			outer := func(w, want string) {
				if !skip {
					want = found
				}
				add(w+fr, need, want)
			}
			outer(head+" ; P v=c:Function", "slot c=0; => c")
			outer(head+" ; P v=c:Integer", "=> c")
			outer(head+" ; P u=c:Integer", "=> ()")
			outer(head+" ; P<Q ; Q v=c:Function", "slot c=0; => c")
		}
	}
	return
}

// normSuper: whether a function called through send-super is given self
// explicitly or finds it in the caller's environment is the concern of
// super-self.
func normSuper(tr string) string {
	return strings.ReplaceAll(tr, "[Frame %F Parent env self=%F] self %F", "[Frame %F Parent env self=%F]")
}

// superSelfRoots: the function send-super finds runs with the caller's frame,
// also if it was never called by its bare name before.
func superSelfRoots() (ts []troot) {
	for _, b := range [][2]string{{"send-super", "('k: a)"}, {"apply-slot-super", "(('quote 'k:) ('quote (a)))"}} {
		b := b
		t := wbuiltin(b[0], "env@F ; %F p*:=%G ; %G k:=s:Function", b[1])
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			if !failed && strings.Contains(tr, "call ") && !strings.Contains(s.tag("tr"), " self %F") {
				x.rep.Viol("super-self", b[0], "-", "the function found in a parent is called as an ordinary function: it has the receiver as self only if it was called by its bare name before, and never as its frame ["+s.tag("tr")+"]", x.root, "")
			}
			return ""
		}
		ts = append(ts, t)
	}
	return
}

func init() {
	props["C21"] = &Prop{id: "C21", run: func(pr *Program, rep *Report, th bool) {
		o := traceOpts{nonNil: true, world: true, call: slotFlag, norm: normSuper, inline: setOf(append(sortedKeys(envInline), "NewSymbolTableFrameBelow", "NewSymbolTableFrameBelowWithFrame")...)}
		runTroots(pr, rep, "super-self", superSelfRoots(), o)
		runTroots(pr, rep, "frame", append(frameRoots(th), append(selfRoots(), slotLookupRoots()...)...), o)
	}}
}
