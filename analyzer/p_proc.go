package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtinName() string {
	return strings.Split(strings.TrimPrefix(x.root, "builtin "), "/")[0]
}

func strip(t *Term) *Term {
	for t != nil && t.op == OConv {
		t = t.args[0]
	}
	return t
}

// isArgObject: p is the host object inside the builtin's k-th argument.
func (x *Exec) isArgObject(p *Term, k int) bool {
	p = strip(p)
	if p.op != OLoad || p.args[0].op != OFieldAddr {
		return false
	}
	a := p.args[0]
	if fieldClass(a.args[0].typ, int(a.iaux)) != "BoxedObject.Obj" {
		return false
	}
	b := strip(a.args[0])
	if b.op != OLoad || b.args[0].op != OFieldAddr || int(b.args[0].iaux) != x.pr.fValue {
		return false
	}
	return x.argIndex(b.args[0].args[0]) == k
}

// isArgChannel: the channel held by the builtin's k-th argument.
func (x *Exec) isArgChannel(ch *Term, k int) bool {
	ch = strip(ch)
	return ch.op == OLoad && x.isArgObject(ch.args[0], k)
}

// listElem gives the i-th element of a list whose cells the analysed code built.
func (x *Exec) listElem(s *State, d *Term, i int) *Term {
	for ; ; i-- {
		if d == nil {
			return nil
		}
		v := x.peekHeap(s, x.fieldAddr(d, x.pr.fValue))
		v = strip(v)
		if v == nil {
			return nil
		}
		if _, n := structOf(v.typ); n != x.pr.consT {
			return nil
		}
		if i == 0 {
			return x.peekHeap(s, x.fieldAddr(v, 0))
		}
		d = x.peekHeap(s, x.fieldAddr(v, 1))
	}
}

var chanBuiltins = []string{"make-channel", "channel-write", "channel-read", "channel-try-write", "channel-try-read", "close-channel"}

func channelRules(pr *Program) *Rules {
	r := &Rules{Name: "channels", PanicMode: true, NoInts: true, DataSig: boolSig}
	syms := map[string]*Term{}
	r.Chan = func(x *Exec, fr *Frame, s *State, in ssa.Instruction, kind string, ch, v *Term) {
		x.rep.ObI("channel-operation", in)
		if !x.isArgChannel(ch, 0) {
			x.rep.ViolX(x, "channel-operand", in, fmt.Sprintf("the operation works on %s, not on the channel handed in", ch))
			return
		}
		if (kind == "send" || kind == "selsend") && x.argIndex(strip(v)) != 1 {
			x.rep.ViolX(x, "channel-operand", in, "the value sent is not the one handed in")
		}
		s.setTag("ch", s.tag("ch")+kind+";")
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeChan); ok {
			n := x.val(c, mc.Size)
			x.rep.ObI("channel-size", in)
			if k, ok := n.intConst(); ok && k == 0 {
				c.st.setTag("make", "0")
			} else if x.isArgPayload(n, 0) {
				c.st.setTag("make", "arg")
			} else {
				c.st.setTag("make", "other")
			}
		}
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) != 1 || len(rs) != 2 {
			return
		}
		name := x.builtinName()
		ops := s.tag("ch")
		failed := x.nilness(s, rs[1]) > 0
		bad := func(f string, a ...interface{}) {
			x.rep.ViolX(x, "channel-outcome", in, name+" "+fmt.Sprintf(f, a...))
		}
		x.rep.ObI("channel-outcome", in)
		if failed {
			// reporting an error is right where nothing happened to the channel
			if ops != "" && ops != "closed;" {
				bad("reports an error although it did %q", ops)
			}
			return
		}
		if strings.Contains(ops, "closed;") {
			bad("does not report that the channel was closed")
			return
		}
		boolAt := func(d *Term) int {
			if d == nil {
				return 0
			}
			return x.boolResult(s, d)
		}
		recvd := func(d *Term) bool {
			got := false
			for _, t := range alts(d) {
				if t.op == OSym && t.info != nil && t.info.kind == "recv" {
					got = true
				} else if t.op != OAlloc && !t.isNilConst() { // nil is shown as the empty list
					return false
				}
			}
			return got
		}
		more := func(d *Term) bool {
			// the flag reported is the one received
			b := boolAt(d)
			ok := false
			s.conds.each(func(t *Term, v bool) {
				if t.op == OSym && t.info != nil && t.info.kind == "recvok" && (b > 0) == v && b != 0 {
					ok = true
				}
			})
			return ok
		}
		switch name {
		case "make-channel":
			want := "0"
			if strings.Contains(x.root, "/1") {
				want = "arg"
			}
			if s.tag("make") != want {
				bad("makes a channel of the wrong capacity (%s)", s.tag("make"))
			}
		case "channel-write":
			if ops != "send;" {
				bad("succeeds after %q instead of one send", ops)
			}
		case "channel-read":
			if ops != "recv;" {
				bad("succeeds after %q instead of one receive", ops)
			} else if !recvd(x.listElem(s, rs[0], 0)) || !more(x.listElem(s, rs[0], 1)) {
				bad("does not return the value received and whether the channel is open")
			}
		case "channel-try-write":
			switch ops {
			case "selsend;":
				if boolAt(rs[0]) <= 0 {
					bad("does not report success after the send")
				}
			case "default-send;":
				if boolAt(rs[0]) >= 0 {
					bad("does not report that nothing was sent")
				}
			default:
				bad("succeeds after %q instead of one non-blocking send", ops)
			}
		case "channel-try-read":
			switch ops {
			case "selrecv;":
				if boolAt(x.listElem(s, rs[0], 0)) <= 0 || !recvd(x.listElem(s, rs[0], 1)) || !more(x.listElem(s, rs[0], 2)) {
					bad("does not return success, the value received and whether the channel is open")
				}
			case "default-recv;":
				if boolAt(x.listElem(s, rs[0], 0)) >= 0 {
					bad("does not report that nothing was received")
				}
				if boolAt(x.listElem(s, rs[0], 2)) <= 0 {
					bad("reports that a channel is closed that is open and empty")
				}
			default:
				bad("succeeds after %q instead of one non-blocking receive", ops)
			}
		case "close-channel":
			if ops != "close;" {
				bad("succeeds after %q instead of one close", ops)
			}
		}
	}
	_ = syms
	return r
}

var procBuiltins = []string{"fork", "schedule", "wake", "abandon", "reset-timeout", "join", "proc-sleep"}

func procRules(pr *Program, seen func(string)) *Rules {
	r := &Rules{Name: "processes", PanicMode: true, NoInts: true, DataSig: boolSig}
	add := func(s *State, tag, v string) { s.setTag(tag, s.tag(tag)+v+";") }
	inProc := func(x *Exec) bool { return x.inGo > 0 }
	home := map[*Term]string{} // the field a channel made here was put in
	r.Chan = func(x *Exec, fr *Frame, s *State, in ssa.Instruction, kind string, ch, v *Term) {
		cls := x.chanClass(ch)
		if h := home[strip(ch)]; h != "" {
			cls = h
		}
		x.rep.ObI("process-channel", in)
		name := x.builtinName()
		if inProc(x) {
			switch cls {
			case "Process.ReturnValue":
				add(s, "sent", kind)
				if kind == "send" {
					res := ""
					for _, t := range alts(v) {
						switch {
						case t.isNilConst():
							if res == "" {
								res = "nil"
							}
						case t.op == OSym && t.info != nil && (t.info.kind == "eval" || t.info.kind == "onerr"):
							if res != "other" {
								res = "value"
							}
						default:
							res = "other"
						}
					}
					s.setTag("delivered", res)
				}
			case "Process.Abort":
				if kind == "selrecv" || kind == "recv" {
					s.setTag("aborted", "1")
				}
			case "Timer.C":
				s.setTag("fired", "1")
			case "Process.Restart":
				s.setTag("fired", "")
				s.setTag("restarted", "1")
			}
			return
		}
		switch kind {
		case "send":
			x.rep.ViolX(x, "never-waits", in, name+" can wait for the other process to take the message")
		case "recv":
			if name != "join" || cls != "Process.ReturnValue" {
				x.rep.ViolX(x, "never-waits", in, name+" waits on "+cls)
			}
		case "selsend", "selrecv":
			if sel, ok := in.(*ssa.Select); ok && sel.Blocking && name != "proc-sleep" {
				x.rep.ViolX(x, "never-waits", in, name+" can wait on "+cls)
			}
		}
		add(s, "ch", kind+" "+cls)
	}
	r.Call = func(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && extPkg(ci.fn) == "sync/atomic" && strings.HasPrefix(ci.fn.Name(), "CompareAndSwap") && x.ts.classOf(ci.args[0]) == "Process.Joined" {
			x.rep.ObI("join-once", ci.site)
			a, ok1 := ci.args[1].intConst()
			b, ok2 := ci.args[2].intConst()
			t := x.ts.sym(types.Typ[types.Bool], "joincas", "", ci.site)
			if !ok1 || !ok2 || a != 0 || b != 1 {
				return one(s, x.ts.sym(types.Typ[types.Bool], "cas", "", ci.site)), true
			}
			return one(s, t), true
		}
		if ci.fn != nil && inProc(x) && evalLike[x.pr.short(ci.fn)] {
			add(s, "ran", "1")
			x.rep.ObI("runs-once", ci.site)
			if x.builtinName() == "schedule" && s.tag("fired") == "" {
				x.rep.ViolX(x, "runs-once", ci.site, "the scheduled function can run although its delay has not passed")
			}
			if s.tag("aborted") != "" {
				x.rep.ViolX(x, "runs-once", ci.site, "the scheduled function can run after the process was abandoned")
			}
		}
		if ci.fn != nil && inProc(x) && fnName(ci.fn) == "(*time.Timer).Reset" {
			s.setTag("restarted", "")
			s.setTag("timer", "reset")
		}
		if ci.fn != nil && inProc(x) && fnName(ci.fn) == "(*time.Timer).Stop" {
			s.setTag("timer", "stopped")
		}
		return nil, false
	}
	r.Instr = func(x *Exec, fr *Frame, c *Config, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.BinOp:
			if x.pr.isPtrTo(i.X.Type(), x.pr.procT) && !inProc(x) {
				how := "process"
				if x.val(c, i.X).isNilConst() || x.val(c, i.Y).isNilConst() {
					how = "none"
				}
				c.st.setTag("compared", how)
			}
		case *ssa.Go:
			add(c.st, "spawned", "1")
		case *ssa.Store:
			a := x.val(c, i.Addr)
			if a.op == OFieldAddr {
				cl := fieldClass(a.args[0].typ, int(a.iaux))
				switch cl {
				case "Process.ReturnValue", "Process.Wake", "Process.Abort", "Process.Restart":
					v := strip(x.val(c, i.Val))
					x.rep.ObI("buffered", in)
					home[v] = cl
					ok := false
					if mc, is := v.site.(*ssa.MakeChan); is && v.op == OAlloc {
						if k, isC := mc.Size.(*ssa.Const); isC && k.Int64() >= 1 {
							ok = true
						}
					}
					if !ok {
						x.rep.ViolX(x, "buffered", in, cl+" is not a channel with room for one message, so a message can be lost or its sender wait for ever")
					}
				}
			}
		case *ssa.UnOp:
			if i.Op.String() == "<-" && !inProc(x) && x.builtinName() == "join" && x.chanClass(x.val(c, i.X)) == "Process.ReturnValue" {
				x.rep.ObI("join-once", in)
				ok := false
				self := false
				c.st.conds.each(func(t *Term, v bool) {
					if t.op == OSym && t.info != nil && t.info.kind == "joincas" && v {
						ok = true
					}
					if selfCompare(x, t) && v {
						self = true
					}
				})
				if !ok {
					x.rep.ViolX(x, "join-once", in, "join can take the result without having claimed it first, so of two joins one waits for ever")
				}
				if self {
					x.rep.ViolX(x, "self-join", in, "join waits for the process it runs in")
				}
			}
		}
	}
	r.Return = func(x *Exec, fr *Frame, s *State, in *ssa.Return, rs []*Term) {
		if len(x.stack) != 1 || len(rs) != 2 || inProc(x) {
			return
		}
		name := x.builtinName()
		failed := x.nilness(s, rs[1]) > 0
		bad := func(rule, f string, a ...interface{}) { x.rep.ViolX(x, rule, in, name+" "+fmt.Sprintf(f, a...)) }
		x.rep.ObI("process-outcome", in)
		ops := s.tag("ch")
		switch name {
		case "fork", "schedule":
			if failed && s.tag("spawned") != "" {
				bad("process-outcome", "reports an error although it has started a process")
			}
			if !failed && s.tag("spawned") != "1;" {
				bad("process-outcome", "succeeds after starting %q processes instead of one", s.tag("spawned"))
			}
		case "wake", "abandon", "reset-timeout":
			ch := map[string]string{"wake": "Process.Wake", "abandon": "Process.Abort", "reset-timeout": "Process.Restart"}[name]
			if failed && ops != "" {
				bad("process-outcome", "reports an error although it did %q", ops)
			}
			if !failed && ops != "selsend "+ch+";" && ops != "default-send "+ch+";" {
				bad("process-outcome", "succeeds after %q instead of one attempt to send on %s", ops, ch)
			}
		case "proc-sleep":
			if failed {
				break
			}
			want := 0
			switch {
			case ops == "selrecv Process.Wake;":
				want = 1
			case strings.HasPrefix(ops, "selrecv ") && strings.Count(ops, ";") == 1:
				want = -1
			default:
				bad("process-outcome", "succeeds after %q", ops)
			}
			if want != 0 && x.boolResult(s, rs[0]) != want {
				bad("process-outcome", "does not report truly whether it was woken")
			}
		case "join":
			if failed {
				if ops != "" {
					bad("join-once", "reports an error although it took the result")
				}
				break
			}
			self := false
			s.conds.each(func(t *Term, v bool) {
				if selfCompare(x, t) && v {
					self = true
				}
			})
			if self {
				seen("self-join")
				break
			}
			none := false
			s.facts.each(func(t *Term, f Fact) {
				if x.isArgObject(t, 0) && x.nilness(s, t) < 0 {
					none = true // a process object always holds a process
				}
			})
			if none {
				break
			}
			if ops != "recv Process.ReturnValue;" {
				bad("join-once", "succeeds after %q instead of one receive of the result", ops)
			} else if rs[0].op != OSym || rs[0].info == nil || rs[0].info.kind != "recv" {
				bad("join-once", "does not return the value the process delivered")
			}
		}
	}
	r.After = func(x *Exec, fr *Frame, s *State, ci *CallInfo, rets []*Term) {
		switch ci.name {
		case "go:end", "go:panic":
			x.rep.ObI("delivers-once", ci.site)
			if ci.name == "go:panic" {
				x.rep.ViolX(x, "delivers-once", ci.site, "a failing process ends the whole program")
			}
			if s.tag("sent") != "send;" {
				x.rep.ViolX(x, "delivers-once", ci.site, fmt.Sprintf("a process ends after delivering %q instead of exactly one result, so joining it can wait for ever or another process blocks", s.tag("sent")))
			}
			ran, pan := s.tag("ran"), s.tag("pan") != ""
			want := "1;"
			if s.tag("aborted") != "" {
				want = ""
			}
			if ran != want && !(pan && ran == "") {
				x.rep.ViolX(x, "runs-once", ci.site, fmt.Sprintf("a process ends after running its function %d times instead of %d", strings.Count(ran, ";"), strings.Count(want, ";")))
			}
			if s.tag("delivered") == "other" {
				x.rep.ViolX(x, "delivers-once", ci.site, "the value delivered is not what the function returned")
			}
			if s.tag("delivered") == "nil" && ran == "1;" && s.tag("applied") == "ok" {
				x.rep.ViolX(x, "delivers-once", ci.site, "the value the function returned is not delivered")
			}
			if s.tag("restarted") != "" {
				x.rep.ViolX(x, "runs-once", ci.site, "a reset of the delay is ignored")
			}
		default:
			if ci.fn != nil && inProc(x) && evalLike[x.pr.short(ci.fn)] {
				if len(rets) == 2 && x.nilness(s, rets[1]) < 0 {
					s.setTag("applied", "ok")
				}
			}
		}
	}
	return r
}

func selfCompare(x *Exec, t *Term) bool {
	if t.op != OBin || t.aux != "==" || len(t.args) != 2 {
		return false
	}
	return x.pr.isPtrTo(t.args[0].typ, x.pr.procT) && !t.args[0].isNilConst() && !t.args[1].isNilConst()
}

func namedRoots(pr *Program, rep *Report, names []string) []Root {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	got := map[string]bool{}
	roots := pr.primRoots(func(r *Registration) bool {
		if want[r.name] {
			got[r.name] = true
		}
		return want[r.name]
	})
	for i := range roots {
		roots[i].nils = roots[i].n > 1 // a list of one nil is the empty list
	}
	for _, n := range names {
		if !got[n] {
			rep.Viol("anchors", n, "-", "the builtin "+n+" is no longer registered", "-", "")
		}
	}
	return roots
}

func init() {
	props["C09"] = &Prop{id: "C09", run: func(pr *Program, rep *Report, th bool) {
		seenSelf := map[string]bool{}
		runRoots(pr, rep, namedRoots(pr, rep, procBuiltins), func() *Rules {
			return procRules(pr, func(k string) { pr.mu.Lock(); seenSelf[k] = true; pr.mu.Unlock() })
		})
		rep.Ob("self-join", "join")
		if !seenSelf["self-join"] {
			rep.Viol("self-join", "join", "-", "join no longer recognises the process it runs in, so joining oneself waits for ever", "-", "")
		}
	}}
	props["C10"] = &Prop{id: "C10", run: func(pr *Program, rep *Report, th bool) {
		runRoots(pr, rep, namedRoots(pr, rep, chanBuiltins), func() *Rules { return channelRules(pr) })
	}}
}

// alts gives the values a merged value stands for.
func alts(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSym && t.info != nil && (t.info.kind == "merge" || t.info.kind == "phi") && len(t.info.src) > 0 {
			for _, a := range t.info.src {
				walk(a)
			}
			return
		}
		out = append(out, t)
	}
	walk(t)
	return out
}
