package main

import (
	"fmt"
	"strings"
)

// Longer instances of the specifications: the same definition for every
// number of sub-expressions, clauses, variables or elements up to n.

func seq(p string, n int) []string {
	var out []string
	for i := 1; i <= n; i++ {
		out = append(out, fmt.Sprintf("%s%d", p, i))
	}
	return out
}

func each(l []string, f string) string {
	var sb strings.Builder
	for _, e := range l {
		sb.WriteString(strings.ReplaceAll(f, "@", e))
	}
	return sb.String()
}

func lst(l []string) string { return "(" + strings.Join(l, " ") + ")" }

func genForms(lo, n int) (out []spec) {
	add := func(name, args string, want ...string) { out = append(out, spec{name, args, want}) }
	for k := lo; k <= n; k++ {
		xs := seq("x", k)
		j := strings.Join(xs, " ")
		last := "=> [" + xs[k-1] + "]"
		ev := each(xs, "eval @; ")
		add("begin", j, ev+last)
		add("when", "c "+j, "eval c; ?[c]; "+ev+last, "eval c; ![c]; => ()")
		add("unless", "c "+j, "eval c; ![c]; "+ev+last, "eval c; ?[c]; => ()")
		for _, f := range []string{"and", "or"} {
			yes, no := "?", "!"
			if f == "or" {
				yes, no = "!", "?"
			}
			var w []string
			tr := ""
			for _, x := range xs {
				w = append(w, tr+"eval "+x+"; "+no+"["+x+"]; => ["+x+"]")
				tr += "eval " + x + "; " + yes + "[" + x + "]; "
			}
			w = append(w, tr+last)
			add(f, j, w...)
		}
		// cond and case, with and without else
		for _, els := range []bool{false, true} {
			var cl, cs, w, wc []string
			tr, tc := "", "eval k; "
			for i := 1; i <= k; i++ {
				cl = append(cl, fmt.Sprintf("(c%d:ConsCell a%d b%d)", i, i, i))
				w = append(w, fmt.Sprintf("%seval c%d; ?[c%d]; eval a%d; eval b%d; => [b%d]", tr, i, i, i, i, i))
				tr += fmt.Sprintf("eval c%d; ![c%d]; ", i, i)
				cs = append(cs, fmt.Sprintf("((p%d q%d) a%d b%d)", i, i, i, i))
				wc = append(wc, fmt.Sprintf("%s?[k]=p%d; eval a%d; eval b%d; => [b%d]", tc, i, i, i, i))
				tc += fmt.Sprintf("![k]=p%d; ", i)
				wc = append(wc, fmt.Sprintf("%s?[k]=q%d; eval a%d; eval b%d; => [b%d]", tc, i, i, i, i))
				tc += fmt.Sprintf("![k]=q%d; ", i)
			}
			if els {
				cl = append(cl, "('else e1 e2)")
				cs = append(cs, "('else e1 e2)")
				w = append(w, tr+"eval e1; eval e2; => [e2]")
				wc = append(wc, tc+"eval e1; eval e2; => [e2]")
			} else {
				w = append(w, tr+"=> ()")
				wc = append(wc, tc+"=> ()")
			}
			add("cond", strings.Join(cl, " "), w...)
			if k <= 3 {
				add("case", "k "+strings.Join(cs, " "), wc...)
			}
		}
		// variables
		var bs, ds, as, vs, in []string
		for i := 1; i <= k; i++ {
			bs = append(bs, fmt.Sprintf("(v%d:Symbol x%d)", i, i))
			ds = append(ds, fmt.Sprintf("(v%d:Symbol x%d s%d:Symbol)", i, i, i))
			vs = append(vs, fmt.Sprintf("v%d", i))
			in = append(in, fmt.Sprintf("x%d", i))
			as = append(as, fmt.Sprintf("%d", i))
		}
		body := " eval y in new(env); eval z in new(env); => [z]"
		add("let", lst(bs)+" y z", each(as, "eval x@; bind v@=[x@] in new(env); ")+body)
		add("let*", lst(bs)+" y z", each(as, "eval x@ in new(env); bind v@=[x@] in new(env); ")+body)
		add("letrec", lst(bs)+" y z", each(as, "bind v@=() in new(env); ")+each(as, "eval x@ in new(env); bind v@=[x@] in new(env); ")+body)
		fn := "fn(" + lst(vs) + ",(y z),new(env))"
		add("let", "n:Symbol "+lst(bs)+" y z", "bind n=() in new(env); bind n="+fn+" in new(env); apply "+fn+"("+strings.Join(in, ",")+"); => "+fn+"("+strings.Join(in, ",")+")")
		start := each(as, "eval x@; bind v@=[x@] in new(env); ") + "eval t in new(env); "
		again := "![t]; eval y in new(env); eval z in new(env); " + each(as, "eval s@ in new(env); ") + each(as, "bind v@=[s@] in new(env); ") + "eval t in new(env); "
		done := "?[t]; eval r in new(env); eval q in new(env); => [q]"
		add("do", lst(ds)+" (t r q) y z", start+done, start+again+"...")
		// long bodies
		zs := seq("z", k)
		Z := strings.Join(zs, " ")
		evn := each(zs, "eval @ in new(env); ")
		lastz := "=> [" + zs[k-1] + "]"
		add("let", "((v:Symbol x)) "+Z, "eval x; bind v=[x] in new(env); "+evn+lastz)
		add("let*", "((v:Symbol x)) "+Z, "eval x in new(env); bind v=[x] in new(env); "+evn+lastz)
		add("letrec", "((v:Symbol x)) "+Z, "bind v=() in new(env); eval x in new(env); bind v=[x] in new(env); "+evn+lastz)
		add("cond", "(c:ConsCell "+Z+") (d:ConsCell y)", "eval c; ?[c]; "+each(zs, "eval @; ")+lastz, "eval c; ![c]; eval d; ?[d]; eval y; => [y]", "eval c; ![c]; eval d; ![d]; => ()")
		add("cond", "(c:ConsCell y) ('else "+Z+")", "eval c; ?[c]; eval y; => [y]", "eval c; ![c]; "+each(zs, "eval @; ")+lastz)
		add("case", "k ((p) "+Z+") ('else "+Z+")", "eval k; ?[k]=p; "+each(zs, "eval @; ")+lastz, "eval k; ![k]=p; "+each(zs, "eval @; ")+lastz)
		var w []string
		tr := "eval k; "
		for _, z := range zs {
			w = append(w, tr+"?[k]="+z+"; eval y; => [y]")
			tr += "![k]=" + z + "; "
		}
		add("case", "k ("+lst(zs)+" y)", append(w, tr+"=> ()")...)
		s1 := "eval x; bind v=[x] in new(env); eval t in new(env); "
		add("do", "((v:Symbol x s:Symbol)) (t "+Z+") y", s1+"?[t]; "+evn+lastz, s1+"![t]; eval y in new(env); eval s in new(env); bind v=[s] in new(env); eval t in new(env); ...")
		add("do", "((v:Symbol x s:Symbol)) (t r) "+Z, s1+"?[t]; eval r in new(env); => [r]", s1+"![t]; "+evn+"eval s in new(env); bind v=[s] in new(env); eval t in new(env); ...")

	}
	return
}

// patterns gives every sequence of n verdicts.
func patterns(n int) (out [][]bool) {
	for m := 0; m < 1<<n; m++ {
		var p []bool
		for i := 0; i < n; i++ {
			p = append(p, m>>i&1 == 1)
		}
		out = append(out, p)
	}
	return
}

func genLists(n int) (out []spec) {
	add := func(name, args string, want ...string) { out = append(out, spec{name, args, want}) }
	rev := func(l []string) (r []string) {
		for i := len(l) - 1; i >= 0; i-- {
			r = append(r, l[i])
		}
		return
	}
	for k := 0; k <= n; k++ {
		xs, ys, zs := seq("x", k), seq("y", k+1), seq("z", k+2)
		X := lst(xs)
		add("list", strings.Join(xs, " "), "=> "+X)
		add("length", X, fmt.Sprintf("=> <%d>", k))
		add("reverse", X, "=> "+lst(rev(xs)))
		add("apply", "f:Function|Primitive "+X, "call f("+strings.Join(xs, ",")+"); => f("+strings.Join(xs, ",")+")")
		if k > 0 {
			add("apply", "f:Function|Primitive p q "+X, "call f(p,q,"+strings.Join(xs, ",")+"); => f(p,q,"+strings.Join(xs, ",")+")")
			add("cons*", strings.Join(xs, " ")+" "+lst(ys), "=> "+lst(append(append([]string{}, xs...), ys...)))
			add("make-list", fmt.Sprintf("#%d x", k), "=> ("+strings.TrimSpace(strings.Repeat("x ", k))+")")
			add("last-pair", X, "=> ("+xs[k-1]+")")
		}
		for m := 0; m <= 3 && m <= n; m++ {
			ws := seq("w", m)
			add("append", X+" "+lst(ws)+" "+lst(ys), "=> "+lst(append(append(append([]string{}, xs...), ws...), ys...)))
		}
		// one function, one to three lists of different lengths
		for m := 1; m <= 3; m++ {
			args := []string{lst(zs), X, lst(ys)}[3-m:]
			if m == 1 {
				args = []string{X}
			}
			call := func(i int) string {
				i++
				switch m {
				case 1:
					return fmt.Sprintf("f(x%d)", i)
				case 2:
					return fmt.Sprintf("f(x%d,y%d)", i, i)
				}
				return fmt.Sprintf("f(z%d,x%d,y%d)", i, i, i)
			}
			tr, res := "", []string{}
			for i := 0; i < k; i++ {
				tr += "call " + call(i) + "; "
				res = append(res, call(i))
			}
			a := "f:Function|Primitive " + strings.Join(args, " ")
			add("map", a, tr+"=> "+lst(res))
			add("for-each", a, tr+"=> ()")
			for _, f := range []string{"any", "every"} {
				hit, miss, yes, no := "?", "!", "#t", "#f"
				if f == "every" {
					hit, miss, yes, no = "!", "?", "#f", "#t"
				}
				var w []string
				t := ""
				for i := 0; i < k; i++ {
					w = append(w, t+"call "+call(i)+"; "+hit+call(i)+"; => "+yes)
					t += "call " + call(i) + "; " + miss + call(i) + "; "
				}
				add(f, a, append(w, t+"=> "+no)...)
			}
		}
		// folds
		acc, tr := "i", ""
		for i := 0; i < k; i++ {
			acc = "f(" + acc + "," + xs[i] + ")"
			tr += "call " + acc + "; "
		}
		add("fold-left", "f:Function|Primitive i "+X, tr+"=> "+acc)
		acc, tr = "i", ""
		for i := k - 1; i >= 0; i-- {
			acc = "f(" + xs[i] + "," + acc + ")"
			tr += "call " + acc + "; "
		}
		add("fold-right", "f:Function|Primitive i "+X, tr+"=> "+acc)
		if k > 0 {
			acc, tr = xs[0], ""
			for i := 1; i < k; i++ {
				acc = "f(" + acc + "," + xs[i] + ")"
				tr += "call " + acc + "; "
			}
			add("reduce", "f:Function|Primitive i "+X, tr+"=> "+acc)
			add("reduce-left", "f:Function|Primitive i "+X, tr+"=> "+acc)
			acc, tr = xs[k-1], ""
			for i := k - 2; i >= 0; i-- {
				acc = "f(" + xs[i] + "," + acc + ")"
				tr += "call " + acc + "; "
			}
			add("reduce-right", "f:Function|Primitive i "+X, tr+"=> "+acc)
		}
		// selection by verdict
		if k <= 4 || n > 6 && k <= 6 {
			var wf, wr, wp []string
			for _, p := range patterns(k) {
				t := ""
				var in, no []string
				for i, v := range p {
					c := "f(" + xs[i] + ")"
					t += "call " + c + "; "
					if v {
						t += "?" + c + "; "
						in = append(in, xs[i])
					} else {
						t += "!" + c + "; "
						no = append(no, xs[i])
					}
				}
				wf = append(wf, t+"=> "+lst(in))
				wr = append(wr, t+"=> "+lst(no))
				wp = append(wp, t+"=> ("+lst(in)+" "+lst(no)+")")
			}
			add("filter", "f:Function|Primitive "+X, wf...)
			add("remove", "f:Function|Primitive "+X, wr...)
			if k > 0 {
				add("partition", "f:Function|Primitive "+X, wp...)
			}
		}
		// searches
		for _, f := range []string{"memp", "find-tail", "find"} {
			var w []string
			t := ""
			for i := 0; i < k; i++ {
				c := "f(" + xs[i] + ")"
				r := lst(xs[i:])
				if f == "find" {
					r = xs[i]
				}
				w = append(w, t+"call "+c+"; ?"+c+"; => "+r)
				t += "call " + c + "; !" + c + "; "
			}
			add(f, "f:Function|Primitive "+X, append(w, t+"=> #f")...)
		}
		var w []string
		t := ""
		for i := 0; i < k; i++ {
			w = append(w, t+"?k="+xs[i]+"; => "+lst(xs[i:]))
			t += "!k=" + xs[i] + "; "
		}
		w = append(w, t+"=> #f")
		for _, f := range []string{"memq", "memv", "member"} {
			add(f, "k "+X, w...)
		}
		// association lists
		var pairs, wa, wr []string
		ta, tr2 := "", ""
		for i := 1; i <= k; i++ {
			p := fmt.Sprintf("(x%d . y%d)", i, i)
			pairs = append(pairs, p)
			wa = append(wa, fmt.Sprintf("%s?k=x%d; => %s", ta, i, p))
			wr = append(wr, fmt.Sprintf("%s?k=y%d; => %s", tr2, i, p))
			ta += fmt.Sprintf("!k=x%d; ", i)
			tr2 += fmt.Sprintf("!k=y%d; ", i)
		}
		for _, f := range []string{"assq", "assv", "assoc"} {
			add(f, "k "+lst(pairs), append(append([]string{}, wa...), ta+"=> ()")...)
		}
		add("rassoc", "k "+lst(pairs), append(wr, tr2+"=> ()")...)
		wac := []string{ta + "=> ((k . v)" + strings.TrimSuffix(" "+strings.Join(pairs, " "), " ") + ")"}
		ta = ""
		for i := 1; i <= k; i++ {
			np := append([]string{}, pairs...)
			np[i-1] = fmt.Sprintf("(x%d . v)", i)
			wac = append(wac, fmt.Sprintf("%s?k=x%d; => %s", ta, i, lst(np)))
			ta += fmt.Sprintf("!k=x%d; ", i)
		}
		add("acons", "k:Symbol v "+lst(pairs), wac...)
		// positions
		for m := 0; m <= k+1; m++ {
			c := m
			if c > k {
				c = k
			}
			num := fmt.Sprintf("#%d", m)
			add("take", num+" "+X, "=> "+lst(xs[:c]))
			add("drop", num+" "+X, "=> "+lst(xs[c:]))
			add("list-head", X+" "+num, "=> "+lst(xs[:c]))
			add("list-tail", X+" "+num, "=> "+lst(xs[c:]))
			if m < k {
				add("list-ref", X+" "+num, "=> "+xs[m])
			}
			if m >= 1 && m <= k {
				add("nth", X+" "+num, "=> "+xs[m-1])
			}
			if m >= 1 && k > 0 {
				var ps []string
				for i := 0; i < k; i += m {
					e := i + m
					if e > k {
						e = k
					}
					ps = append(ps, lst(xs[i:e]))
				}
				add("partition", num+" "+X, "=> "+lst(ps))
			}
			for l := 1; l < m && m <= k+1; l++ {
				add("sublist", fmt.Sprintf("%s #%d #%d", X, l, m), "=> "+lst(xs[l-1 : c][:min(c-l+1, m-l)]))
			}
		}
	}
	return
}

// genLong: the same definitions on long lists, where the function's answers are
// fixed: nothing changes when a list is longer than some number.
func genLong(k int) (out []spec) {
	add := func(name, args string, want ...string) { out = append(out, spec{name, args, want}) }
	xs, ys := seq("x", k), seq("y", k+1)
	X := lst(xs)
	j := func(l []string) string { return strings.Join(l, " ") }
	var rev []string
	for i := k - 1; i >= 0; i-- {
		rev = append(rev, xs[i])
	}
	F := "f:Function|Primitive "
	add("list", j(xs), "=> "+X)
	add("length", X, fmt.Sprintf("=> <%d>", k))
	add("reverse", X, "=> "+lst(rev))
	add("apply", F+X, "call f("+strings.Join(xs, ",")+"); => f("+strings.Join(xs, ",")+")")
	add("cons*", j(xs)+" "+lst(ys), "=> "+lst(append(append([]string{}, xs...), ys...)))
	add("make-list", fmt.Sprintf("#%d x", k), "=> ("+strings.TrimSpace(strings.Repeat("x ", k))+")")
	add("last-pair", X, "=> ("+xs[k-1]+")")
	add("append", X+" "+lst(ys)+" (p q)", "=> "+lst(append(append(append([]string{}, xs...), ys...), "p", "q")))
	for _, m := range []int{1, k / 2, k - 1} {
		num := fmt.Sprintf("#%d", m)
		add("take", num+" "+X, "=> "+lst(xs[:m]))
		add("drop", num+" "+X, "=> "+lst(xs[m:]))
		add("list-head", X+" "+num, "=> "+lst(xs[:m]))
		add("list-tail", X+" "+num, "=> "+lst(xs[m:]))
		add("list-ref", X+" "+num, "=> "+xs[m])
		add("nth", X+" "+num, "=> "+xs[m-1])
		add("sublist", fmt.Sprintf("%s #%d #%d", X, m, k-1), "=> "+lst(xs[m-1:max(k-2, m-1)]))
		var ps []string
		for i := 0; i < k; i += m {
			ps = append(ps, lst(xs[i:min(i+m, k)]))
		}
		add("partition", num+" "+X, "=> "+lst(ps))
	}
	for m := 1; m <= 2; m++ {
		tr, res, yes, no := "", []string{}, "", ""
		for i := range xs {
			c := "f(" + xs[i] + ")"
			if m == 2 {
				c = "f(" + xs[i] + "," + ys[i] + ")"
			}
			tr += "call " + c + "; "
			res = append(res, c)
			if i < k-1 {
				yes += "; " + c + "=#t"
				no += "; " + c + "=#f"
			} else {
				yes += "; " + c + "=#f"
				no += "; " + c + "=#t"
			}
		}
		a := F + X
		if m == 2 {
			a += " " + lst(ys)
		}
		add("map", a, tr+"=> "+lst(res))
		add("for-each", a, tr+"=> ()")
		add("any", a+" | "+no[2:], tr+"=> #t")
		add("every", a+" | "+yes[2:], tr+"=> #f")
		if m == 1 {
			for _, f := range []string{"memp", "find-tail"} {
				add(f, a+" | "+no[2:], tr+"=> ("+xs[k-1]+")")
			}
			add("find", a+" | "+no[2:], tr+"=> "+xs[k-1])
			// verdicts in runs of one, two, three, ...
			var in, nin []string
			ans := ""
			for i, run, v := 0, 1, true; i < k; {
				for n := 0; n < run && i < k; n, i = n+1, i+1 {
					if v {
						in = append(in, xs[i])
					} else {
						nin = append(nin, xs[i])
					}
					ans += fmt.Sprintf("; f(%s)=%s", xs[i], map[bool]string{true: "#t", false: "#f"}[v])
				}
				run, v = run+1, !v
			}
			add("filter", a+" | "+ans[2:], tr+"=> "+lst(in))
			add("remove", a+" | "+ans[2:], tr+"=> "+lst(nin))
			add("partition", a+" | "+ans[2:], tr+"=> ("+lst(in)+" "+lst(nin)+")")
		}
	}
	fold := func(start string, l []string, right bool) string {
		acc, tr := start, ""
		for _, e := range l {
			if right {
				acc = "f(" + e + "," + acc + ")"
			} else {
				acc = "f(" + acc + "," + e + ")"
			}
			tr += "call " + acc + "; "
		}
		return tr + "=> " + acc
	}
	add("fold-left", F+"i "+X, fold("i", xs, false))
	add("fold-right", F+"i "+X, fold("i", rev, true))
	add("reduce", F+"i "+X, fold(xs[0], xs[1:], false))
	add("reduce-left", F+"i "+X, fold(xs[0], xs[1:], false))
	add("reduce-right", F+"i "+X, fold(rev[0], rev[1:], true))
	var w []string
	t := ""
	for i := 0; i < k; i++ {
		w = append(w, t+"?k="+xs[i]+"; => "+lst(xs[i:]))
		t += "!k=" + xs[i] + "; "
	}
	w = append(w, t+"=> #f")
	for _, f := range []string{"memq", "memv", "member"} {
		add(f, "k "+X, w...)
	}
	var pairs, wa, wr []string
	ta, tr2 := "", ""
	for i := 1; i <= k; i++ {
		p := fmt.Sprintf("(x%d . y%d)", i, i)
		pairs = append(pairs, p)
		wa = append(wa, fmt.Sprintf("%s?k=x%d; => %s", ta, i, p))
		wr = append(wr, fmt.Sprintf("%s?k=y%d; => %s", tr2, i, p))
		ta += fmt.Sprintf("!k=x%d; ", i)
		tr2 += fmt.Sprintf("!k=y%d; ", i)
	}
	for _, f := range []string{"assq", "assv", "assoc"} {
		add(f, "k "+lst(pairs), append(append([]string{}, wa...), ta+"=> ()")...)
	}
	add("rassoc", "k "+lst(pairs), append(wr, tr2+"=> ()")...)
	return
}
