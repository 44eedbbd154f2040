package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// Equality: which values are equal, decided part by part.

// eqTree is a value of known structure: an atom, a list cell, an alist or a
// frame.
type eqTree struct {
	atom     string // name, with :Kind for an atom of one kind; 'x a symbol; "x a string, #n a number
	car, cdr *eqTree
	keys     []string // alist or frame
	vals     []*eqTree
	alist    bool
	cell     bool // the pair is the cell of an alist
	frame    string
}

// eqNeed: the pairs of parts that must be equal, ok false when it cannot be.
func eqNeed(a, b *eqTree) (need [][2]string, ok bool) {
	isNil := func(t *eqTree) bool { return t == nil || t.alist && len(t.keys) == 0 }
	if isNil(a) || isNil(b) {
		for _, t := range []*eqTree{a, b} {
			if t != nil && t.atom != "" && !strings.ContainsAny(t.atom, ":'#") {
				return [][2]string{{"()", t.atom}}, true // may be an empty list
			}
		}
		return nil, isNil(a) && isNil(b)
	}
	if b.alist && !a.alist {
		a, b = b, a
	}
	if a.alist {
		bk, bv := b.keys, b.vals
		if !b.alist {
			// a list that is an association list
			for c := b; c != nil; c = c.cdr {
				if c.car == nil || c.atom != "" || c.car.atom != "" {
					return nil, false
				}
				bk = append(bk, c.car.car.atom)
				bv = append(bv, c.car.cdr)
			}
		}
		if len(a.keys) != len(bk) {
			return nil, false
		}
		return eqTables(a.keys, a.vals, bk, bv)
	}
	if a.frame != "" || b.frame != "" {
		if a.frame == "" || b.frame == "" || len(a.keys) != len(b.keys) {
			return nil, false
		}
		return eqTables(a.keys, a.vals, b.keys, b.vals)
	}
	if a.atom == "" && b.atom == "" {
		n1, ok1 := eqNeed(a.car, b.car)
		n2, ok2 := eqNeed(a.cdr, b.cdr)
		return append(n1, n2...), ok1 && ok2
	}
	if a.atom == b.atom {
		return nil, true
	}
	an, ak, _ := strings.Cut(a.atom, ":")
	bn, bk, _ := strings.Cut(b.atom, ":")
	constant := func(n, k *string) {
		switch {
		case strings.HasPrefix(*n, "#"):
			*n, *k = "<"+(*n)[1:]+">", "Integer"
		case strings.HasPrefix(*n, "'"):
			*k = "Symbol"
		}
	}
	constant(&an, &ak)
	constant(&bn, &bk)
	switch {
	case ak != "" && (b.atom == "" || bk != "" && ak != bk), bk != "" && a.atom == "":
		return nil, false
	case strings.ContainsAny(a.atom[:min(1, len(a.atom))], "'#") && strings.ContainsAny(b.atom[:min(1, len(b.atom))], "'#"):
		return nil, false // different constants
	}
	if a.atom == "" {
		an = a.text()
	}
	if b.atom == "" {
		bn = b.text()
	}
	return [][2]string{{an, bn}}, true
}

func eqTables(ak []string, av []*eqTree, bk []string, bv []*eqTree) (need [][2]string, ok bool) {
	ok = true
	for i, k := range ak {
		j := -1
		for n, o := range bk {
			if o == k {
				j = n
			}
		}
		if j < 0 {
			return nil, false
		}
		n, o := eqNeed(av[i], bv[j])
		need, ok = append(need, n...), ok && o
	}
	return
}

func (t *eqTree) text() string {
	if t == nil {
		return "()"
	}
	if t.atom != "" {
		n, _, _ := strings.Cut(t.atom, ":")
		if n[0] == '#' {
			n = "<" + n[1:] + ">"
		}
		return n
	}
	s := "(" + t.car.text()
	for t = t.cdr; t != nil; t = t.cdr {
		if t.atom != "" {
			return s + " . " + t.text() + ")"
		}
		s += " " + t.car.text()
	}
	return s + ")"
}

// parseEq reads "(p (q . r:Integer))", "A(k p l q)" for an alist with the
// symbols k and l as keys, "F(k p)" for a frame; a name in upper case has its
// elements renamed by sub.
func parseEq(src string, sub map[string]string) *eqTree {
	toks := strings.Fields(strings.NewReplacer("\x01", " \x01 ", "\x02", " \x02 ", "\x03", " \x03 ", "(", " ( ", ")", " ) ").Replace(strings.NewReplacer("A(", "\x01", "F(", "\x02", "P(", "\x03").Replace(src)))
	all := toks
	pos := 0
	var one func() *eqTree
	var list func() *eqTree
	list = func() *eqTree {
		if all[pos] == ")" {
			pos++
			return nil
		}
		if all[pos] == "." {
			pos++
			t := one()
			pos++
			return t
		}
		c := &eqTree{}
		c.car = one()
		c.cdr = list()
		return c
	}
	one = func() *eqTree {
		t := all[pos]
		pos++
		switch t {
		case "(":
			return list()
		case "\x03":
			c := list()
			c.cell = true
			return c
		case "\x01", "\x02":
			r := &eqTree{alist: t == "\x01"}
			if !r.alist {
				r.frame = "%F"
			}
			for all[pos] != ")" {
				r.keys = append(r.keys, all[pos])
				pos++
				r.vals = append(r.vals, one())
			}
			pos++
			return r
		case "nil":
			return nil
		}
		if n, k, _ := strings.Cut(t, ":"); sub[n] != "" {
			t = sub[n]
			if k != "" {
				t += ":" + k
			}
		}
		return &eqTree{atom: t}
	}
	return one()
}

// buildEq makes the value.
func (x *Exec) buildEq(s *State, t *eqTree) *Term {
	nilD := x.ts.nilOf(x.dataPtr())
	kind := func(d *Term, k string) *Term {
		st := x.pr.dataT.Underlying().(*types.Struct)
		s.heap.set(x.fieldAddr(d, x.pr.fType), x.ts.intc(int64(x.pr.kindNum[k]), st.Field(x.pr.fType).Type()))
		return d
	}
	switch {
	case t == nil:
		return x.cons(s, nilD, nilD)
	case t.alist:
		r := nilD
		for i := len(t.keys) - 1; i >= 0; i-- {
			p := kind(x.cons(s, x.shape1(s, t.keys[i]), x.buildEq(s, t.vals[i])), "AlistCell")
			r = kind(x.cons(s, p, r), "Alist")
		}
		return r
	case t.frame != "":
		return x.shapes[t.frame]
	case t.atom != "":
		return x.shape1(s, t.atom)
	}
	cdr := nilD
	if t.cdr != nil {
		cdr = x.buildEq(s, t.cdr)
	}
	if t.cell {
		return kind(x.cons(s, x.buildEq(s, t.car), cdr), "AlistCell")
	}
	return x.cons(s, x.buildEq(s, t.car), cdr)
}

var eqAsked = regexp.MustCompile(`([?!])([^;]*?)=([^;]*?);`)

// eqJudge compares an answer with what was found out on the path.
func eqJudge(need [][2]string, ok bool, tr string, ans int) string {
	if ans == 0 {
		return "the answer is not decided"
	}
	asked := map[string]bool{}
	for _, m := range eqAsked.FindAllStringSubmatch(tr+";", -1) {
		v := m[1] == "?"
		asked[m[2]+"="+m[3]] = v
		asked[m[3]+"="+m[2]] = v
	}
	differ := !ok
	for _, n := range need {
		if v, ok := asked[n[0]+"="+n[1]]; ok && !v {
			differ = true
		}
	}
	if ans < 0 {
		if !differ {
			return "the values are found different although no parts of them were"
		}
		return ""
	}
	if !ok {
		return "the values are found equal although they never are"
	}
	for _, n := range need {
		if !asked[n[0]+"="+n[1]] {
			return fmt.Sprintf("the values are found equal although %s and %s were not found equal", n[0], n[1])
		}
	}
	return ""
}

func eqSub(names string, to string) map[string]string {
	m := map[string]string{}
	for i, n := range strings.Fields(names) {
		m[n] = strings.Fields(to)[i]
	}
	return m
}

func equalRoots(th bool) (out []troot) {
	lists := []string{"()", "(p)", "(p q)", "(p q r)", "((p) q)", "((p q))", "(p (q))", "(() p)", "(p () q)", "((p . q:Integer) r)", "(p . q:Integer)", "(p q . r:Integer)", "(p . q:String)", "p:Integer", "p:Symbol", "(p p)", "((p) (q))", "(() (p))", "('a p)", "('b p)", "(#1 p)", "(#2 p)"}
	if th {
		lists = append(lists, "(p q r s)", "(p q r s t)", "((p q) (r s))", "(((p)) q)", "((p (q r)) s)", "(p q r . s:Integer)", "((p . q:Integer) (r . s:Integer))", "((() p) q)")
	}
	add := func(a, b string) {
		if a == b && a[1] == ':' {
			return // see equalKinds
		}
		ta := parseEq(a, nil)
		tb := parseEq(b, eqSub("p q r s t", "u v w x y"))
		t := troot{name: fmt.Sprintf("IsEqual / %s and %s", a, b), fn: "IsEqual", min: 1}
		var frames []string
		for i, f := range []*eqTree{ta, tb} {
			if f == nil || f.frame == "" {
				continue
			}
			f.frame = "%" + string("FG"[i])
			e := f.frame
			for j, k := range f.keys {
				n := "nil"
				if f.vals[j] != nil {
					n = f.vals[j].text()
				}
				e += " " + k + "=" + n
			}
			frames = append(frames, e)
		}
		t.mk = func(x *Exec, s *State) []*Term {
			x.shapes = map[string]*Term{}
			if len(frames) > 0 {
				x.buildWorld(s, strings.Join(frames, " ; "))
			}
			return []*Term{x.buildEq(s, ta), x.buildEq(s, tb)}
		}
		t.world = len(frames) > 0
		need, ok := eqNeed(ta, tb)
		t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
			return eqJudge(need, ok, tr, x.decide(s, rs[0]))
		}
		out = append(out, t)
	}
	for _, a := range lists {
		for _, b := range lists {
			add(a, b)
		}
	}
	tables := []string{"A('k p)", "A('k p 'l q)", "A('l q 'k p)", "A('k p 'm q)", "A('k p 'l q 'm r)", "A('m p 'l q 'k r)", "(('k . p:Integer))", "(('k . p:Integer) ('l . q:Integer))", "(('l . p:Integer) ('k . q:Integer))", "(('k . p:Integer) ('k . q:Integer))", "()", "(p:Integer)", "p:Integer"}
	for i, a := range tables {
		for j, b := range tables {
			if i > 5 && j > 5 {
				continue
			}
			add(a, b)
		}
	}
	cells := []string{"P('k . p:Integer)", "P(p . q:Integer)", "P('k p:Integer)", "P(p q:Integer r:Integer)", "P((p) . q:Integer)", "P('k)", "('k . p:Integer)", "(p . q:Integer)", "('k p:Integer)", "((p) . q:Integer)", "('k)", "(p:Integer)", "()", "p:Integer", "A('k p)"}
	for i, a := range cells {
		for j, b := range cells {
			if i > 5 && j > 5 {
				continue
			}
			add(a, b)
		}
	}
	frames := []string{"F()", "F(k: p)", "F(k: p l: q)", "F(l: p k: q)", "F(k: p m: q)", "F(k: nil)", "F(l: nil)", "F(k: nil l: p)", "F(k: p l: nil)", "F(k: p l: q m: r)", "p:Integer", "()", "(p)"}
	for i, a := range frames {
		for j, b := range frames {
			if i > 9 && j > 9 {
				continue
			}
			add(a, b)
		}
	}
	return
}

// equalKinds: every kind of atom against every other.
func equalKinds() (out []troot) {
	kinds := []string{"Integer", "Float", "Boolean", "String", "Symbol", "Function", "Macro", "Primitive", "Environment", "Port", "Nil", "ConsCell"}
	for _, a := range kinds {
		for _, b := range kinds {
			a, b := a, b
			if a == "ConsCell" && b == a {
				continue
			}
			t := troot{name: fmt.Sprintf("IsEqual / %s and %s", a, b), fn: "IsEqual", min: 1}
			var d, o *Term
			t.mk = func(x *Exec, s *State) []*Term {
				mk := func(n, k string) *Term {
					switch k {
					case "Nil":
						return x.ts.nilOf(x.dataPtr())
					case "ConsCell":
						return x.shape1(s, "("+n+")")
					}
					return x.shape1(s, n+":"+k)
				}
				d, o = mk("d", a), mk("o", b)
				return []*Term{d, o}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				r := x.decide(s, rs[0])
				if a != b {
					if r >= 0 {
						return "values of different kinds are found equal"
					}
					return ""
				}
				if a == "Nil" {
					if r <= 0 {
						return "nil is not found equal to nil"
					}
					return ""
				}
				same := x.decide(s, x.bin(s, token.EQL, types.Typ[types.Bool], d, o)) > 0
				if same && a != "Float" {
					if r <= 0 {
						return "a value is not found equal to itself"
					}
					return ""
				}
				n := x.nm(s, rs[0])
				if a == "Boolean" {
					// every combination of the two contents
					pd, po := x.content(s, d, a), x.content(s, o, a)
					for i := 0; i < 4; i++ {
						st := s.fork()
						if !x.assume(st, pd, i&1 != 0) || !x.assume(st, po, i&2 != 0) {
							continue
						}
						want := -1
						if (i&1 != 0) == (i&2 != 0) {
							want = 1
						}
						if x.decide(st, rs[0]) == want {
							continue
						}
						if c := rs[0]; r == 0 && c.op == OBin && c.aux == "==" && (c.args[0] == pd && c.args[1] == po || c.args[0] == po && c.args[1] == pd) {
							continue
						}
						return "the answer does not say whether the two are the same: " + n
					}
					return ""
				}
				pd, po := x.content(s, d, a), x.content(s, o, a)
				if r == 0 && (n == "(d==o)" || n == "(o==d)") {
					return "" // of the whole values
				}
				if r == 0 {
					// the answer is true exactly if the contents are the same
					same := x.bin(s, token.EQL, types.Typ[types.Bool], pd, po)
					for _, v := range []bool{true, false} {
						st, want := s.fork(), map[bool]int{true: 1, false: -1}[v]
						if x.assume(st, rs[0], v) && x.decide(st, same) != want {
							return "the answer is " + n
						}
					}
					return ""
				}
				want := x.decide(s, x.bin(s, token.EQL, types.Typ[types.Bool], pd, po))
				if want == 0 {
					return "the answer is given without comparing the contents"
				}
				if want != r {
					return fmt.Sprintf("the answer is %d where the contents compare as %d", r, want)
				}
				return ""
			}
			out = append(out, t)
		}
	}
	return
}

// content: what a value of the given kind holds: a pointer itself for the kinds
// compared by identity, else what it points to.
func (x *Exec) content(s *State, d *Term, kind string) *Term {
	v := x.load(s, x.fieldAddr(d, x.pr.fValue))
	t := map[string]types.Type{"Integer": types.Typ[types.Int64], "Float": types.Typ[types.Float32], "Boolean": types.Typ[types.Bool], "String": types.Typ[types.String], "Symbol": types.Typ[types.String]}[kind]
	if t == nil {
		return v
	}
	if v.op == OConv {
		v = v.args[0]
	} else {
		v = x.conv(s, types.NewPointer(t), v)
	}
	return x.load(s, v)
}

func equalBytes(max int) (out []troot) {
	for n := 0; n <= max; n++ {
		for m := 0; m <= max; m++ {
			n, m := n, m
			t := troot{name: fmt.Sprintf("IsEqual / byte arrays of %d and %d bytes", n, m), fn: "IsEqual", min: 1}
			var d, o *Term
			t.mk = func(x *Exec, s *State) []*Term {
				d, o = x.byteArray(s, "a", int64(n)), x.byteArray(s, "b", int64(m))
				return []*Term{d, o}
			}
			t.judge = func(x *Exec, s *State, rs []*Term, tr string, failed bool) string {
				r := x.decide(s, rs[0])
				if n != m {
					if r >= 0 {
						return "byte arrays of different lengths are found equal"
					}
					return ""
				}
				if r == 0 {
					return "the answer is " + x.nm(s, rs[0])
				}
				var need [][2]string
				for i := 0; i < n; i++ {
					need = append(need, [2]string{fmt.Sprintf("a%d", i), fmt.Sprintf("b%d", i)})
				}
				return eqJudge(need, true, tr, r)
			}
			out = append(out, t)
		}
	}
	return
}

// eqFork notes the comparison of two bytes as a question.
func eqFork(x *Exec, s *State, c *Term, v bool) {
	for c.op == OUn && c.aux == "!" {
		c, v = c.args[0], !v
	}
	if c.op != OBin || c.aux != "==" || c.args[0].op != OSym || c.args[1].op != OSym || !isInt(c.args[0].typ) {
		return
	}
	s.trace("%s%s=%s", map[bool]string{true: "?", false: "!"}[v], x.nm(s, c.args[0]), x.nm(s, c.args[1]))
}

// eqCall: comparing an unknown part is a question, anything else is followed.
func eqCall(x *Exec, fr *Frame, s *State, ci *CallInfo) ([]Outcome, bool) {
	if ci.fn != nil && ci.fn.String() == "bytes.Equal" {
		as, ok1 := x.sliceElems(s, ci.args[0])
		bs, ok2 := x.sliceElems(s, ci.args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		var outs []Outcome
		if len(as) != len(bs) {
			return one(s, x.ts.boolc(false)), true
		}
		for i := range as {
			n := s.fork()
			eq := x.bin(s, token.EQL, types.Typ[types.Bool], as[i], bs[i])
			if x.assume(n, eq, false) {
				eqFork(x, n, eq, false)
				outs = append(outs, Outcome{st: n, rets: []*Term{x.ts.boolc(false)}})
			}
			if !x.assume(s, eq, true) {
				return outs, true
			}
			eqFork(x, s, eq, true)
		}
		return append(outs, Outcome{st: s, rets: []*Term{x.ts.boolc(true)}}), true
	}
	if ci.fn == nil || x.pr.short(ci.fn) != "IsEqual" {
		return nil, false
	}
	a, b := strip(ci.args[0]), strip(ci.args[1])
	unknown := func(t *Term) bool { return t.op == OSym }
	known := func(t *Term) bool { return !unknown(t) }
	if known(a) && known(b) {
		return nil, false
	}
	if a == b {
		return one(s, x.ts.boolc(true)), true
	}
	if eqClass(x, x.kindsOf(s, a))&eqClass(x, x.kindsOf(s, b)) == 0 {
		return one(s, x.ts.boolc(false)), true
	}
	t := x.ts.mk(OCall, types.Typ[types.Bool], "golisp.IsEqual", 0, a, b)
	switch x.decide(s, t) {
	case 1:
		return one(s, x.ts.boolc(true)), true
	case -1:
		return one(s, x.ts.boolc(false)), true
	}
	lbl := x.nm(s, a) + "=" + x.nm(s, b)
	y := s.fork()
	x.assume(y, t, true)
	y.trace("?%s", lbl)
	x.assume(s, t, false)
	s.trace("!%s", lbl)
	return []Outcome{{st: y, rets: []*Term{x.ts.boolc(true)}}, {st: s, rets: []*Term{x.ts.boolc(false)}}}, true
}

func init() {
	props["C27"] = &Prop{id: "C27", run: func(pr *Program, rep *Report, th bool) {
		var ts, ws []troot
		for _, t := range equalRoots(th) {
			if t.world {
				ws = append(ws, t)
			} else {
				ts = append(ts, t)
			}
		}
		ts = append(append(ts, equalKinds()...), equalBytes(4)...)
		o := traceOpts{call: eqCall, fork: eqFork, inline: setOf("IsEqual", "BooleanValue")}
		runTroots(pr, rep, "equal", ts, o)
		o.world = true
		runTroots(pr, rep, "equal", ws, o)
		var sp []spec
		for _, n := range []string{"eq?", "eqv?", "equal?", "=="} {
			sp = append(sp, spec{n, "x y", []string{"?x=y; => #t", "!x=y; => #f"}})
		}
		for _, n := range []string{"neq?", "!="} {
			sp = append(sp, spec{n, "x y", []string{"?x=y; => #f", "!x=y; => #t"}})
		}
		runSpecs(pr, rep, "equal", sp, true)
	}}
}
