package main

// Edge shapes of the special forms: empty bodies and clauses, missing steps,
// templates with substitutions at each place.
var edgeForms = []spec{
	{"cond", "(c:ConsCell)", []string{"eval c; ?[c]; => ()", "eval c; ![c]; => ()"}},
	{"cond", "(c:ConsCell) ('else x)", []string{"eval c; ?[c]; => ()", "eval c; ![c]; eval x; => [x]"}},
	{"cond", "('else x y)", []string{"eval x; eval y; => [y]"}},
	{"cond", "('else)", []string{"=> ()"}},
	{"cond", "('else x) (c:ConsCell y)", []string{"eval x; => [x]"}},
	{"case", "k", []string{"eval k; => ()"}},
	{"case", "k ('else x)", []string{"eval k; eval x; => [x]"}},
	{"case", "k ('else)", []string{"eval k; => ()"}},
	{"case", "k ((p) x)", []string{"eval k; ?[k]=p; eval x; => [x]", "eval k; ![k]=p; => ()"}},
	{"case", "k (() x) ((p) y)", []string{"eval k; ?[k]=p; eval y; => [y]", "eval k; ![k]=p; => ()"}},
	{"case", "k ((p)) ((q) y)", []string{"eval k; ?[k]=p; => ()", "eval k; ![k]=p; ?[k]=q; eval y; => [y]", "eval k; ![k]=p; ![k]=q; => ()"}},
	{"begin", "()", []string{"eval (); => [()]"}},
	{"begin", "x ()", []string{"eval x; eval (); => [()]"}},
	{"begin", "() x", []string{"eval (); eval x; => [x]"}},
	{"lambda", "()", []string{"=> fn((),(),env)"}},
	{"lambda", "() x", []string{"=> fn((),(x),env)"}},
	{"lambda", "(p . r:Symbol) x", []string{"=> fn((p . r),(x),env)"}},
	{"named-lambda", "(n:Symbol) x", []string{"=> fn((),(x),env)"}},
	{"define", "(n:Symbol) x", []string{"bind n=fn((),(x),env); => fn((),(x),env)", "=> error"}},
	{"define", "(n:Symbol . r:Symbol) x", []string{"bind n=fn(r,(x),env); => fn(r,(x),env)", "=> error"}},
	{"define", "(n:Symbol p . r:Symbol) x y", []string{"bind n=fn((p . r),(x y),env); => fn((p . r),(x y),env)", "=> error"}},
	{"define", "n:Symbol", []string{"bind n=(); => ()"}},
	{"defmacro", "(n:Symbol) x", []string{"bind n=macro((),x,env); => macro((),x,env)"}},
	{"defmacro", "(n:Symbol p . r:Symbol) x", []string{"bind n=macro((p . r),x,env); => macro((p . r),x,env)"}},
	{"let", "() x y", []string{"eval x in new(env); eval y in new(env); => [y]"}},
	{"let*", "() x", []string{"eval x in new(env); => [x]"}},
	{"letrec", "() x", []string{"eval x in new(env); => [x]"}},
	{"let", "((a:Symbol x))", []string{"eval x; bind a=[x] in new(env); => ()"}},
	{"let", "((a:Symbol)) y", []string{"bind a=() in new(env); eval y in new(env); => [y]"}},
	{"let*", "((a:Symbol) (b:Symbol x)) y", []string{"bind a=() in new(env); eval x in new(env); bind b=[x] in new(env); eval y in new(env); => [y]"}},
	{"let", "n:Symbol () z", []string{"bind n=() in new(env); bind n=fn((),(z),new(env)) in new(env); apply fn((),(z),new(env))(); => fn((),(z),new(env))()"}},
	{"let", "n:Symbol ((a:Symbol x)) z w v", []string{"bind n=() in new(env); bind n=fn((a),(z w v),new(env)) in new(env); apply fn((a),(z w v),new(env))(x); => fn((a),(z w v),new(env))(x)"}},
	{"do", "((a:Symbol x s:Symbol)) (t r)", []string{
		"eval x; bind a=[x] in new(env); eval t in new(env); ?[t]; eval r in new(env); => [r]",
		"eval x; bind a=[x] in new(env); eval t in new(env); ![t]; eval s in new(env); bind a=[s] in new(env); eval t in new(env); ..."}},
	{"do", "((a:Symbol x s:Symbol)) (t) z", []string{
		"eval x; bind a=[x] in new(env); eval t in new(env); ?[t]; => ()",
		"eval x; bind a=[x] in new(env); eval t in new(env); ![t]; eval z in new(env); eval s in new(env); bind a=[s] in new(env); eval t in new(env); ..."}},
	{"do", "() (t r) z", []string{
		"eval t in new(env); ?[t]; eval r in new(env); => [r]",
		"eval t in new(env); ![t]; eval z in new(env); eval t in new(env); ..."}},
	{"->", "x", []string{"eval x; => [x]"}},
	{"=>", "x", []string{"eval x; => [x]"}},
	{"->", "x (f:Symbol)", []string{"eval x; eval (f ('quote [x])); => [(f ('quote [x]))]", "eval x; eval (f ('quote ())); => [(f ('quote ()))]"}},
	{"expand", "m | [m]=M:Macro", []string{"eval m; expand(M,); => expand(M,)"}},
	{"expand", "m x | [m]=M:Macro", []string{"eval m; expand(M,x); => expand(M,x)"}},
	{"quote", "()", []string{"=> ()"}},
	{"quote", "(x y)", []string{"=> (x y)"}},
	{"quasiquote", "'x", []string{"=> 'x"}},
	{"quasiquote", "('x 'y)", []string{"=> ('x 'y)"}},
	{"quasiquote", "('x ('y 'z) 'w)", []string{"=> ('x ('y 'z) 'w)"}},
	{"quasiquote", "('unquote y:Symbol) | [y]=Y", []string{"eval y; => Y"}},
	{"quasiquote", "('x ('unquote y:Symbol) 'z) | [y]=Y", []string{"eval y; => ('x Y 'z)"}},
	{"quasiquote", "(('unquote x:Symbol) ('unquote y:Symbol)) | [x]=X; [y]=Y", []string{"eval x; eval y; => (X Y)"}},
	{"quasiquote", "('x ('w ('unquote y:Symbol)) ('unquote z:Symbol)) | [y]=Y; [z]=Z", []string{"eval y; eval z; => ('x ('w Y) Z)"}},
	{"quasiquote", "('x ('unquote ('f 'y)) 'z) | [('f 'y)]=Y", []string{"eval ('f 'y); => ('x Y 'z)"}},
	{"quasiquote", "('quasiquote ('x ('unquote 'y)))", []string{"=> ('quasiquote ('x ('unquote 'y)))"}},
	{"quasiquote", "('quasiquote ('unquote ('unquote y:Symbol))) | [y]=Y", []string{"eval y; => ('quasiquote ('unquote Y))"}},
	{"quasiquote", "('quasiquote ('x ('unquote ('w ('unquote y:Symbol))))) | [y]=Y", []string{"eval y; => ('quasiquote ('x ('unquote ('w Y))))"}},
	{"unquote", "x", []string{"=> error"}},
	{"unquote-splicing", "x", []string{"=> error"}},
}

// splices: a spliced list of each length at each place of a template.
func genQuasi(n int) (out []spec) {
	for k := 1; k <= n; k++ {
		for at := 0; at < k; at++ {
			for m := 0; m <= 3 && m <= n; m++ {
				var t, w []string
				for i, e := range seq("x", k) {
					if i == at {
						t = append(t, "('unquote-splicing y:Symbol)")
						w = append(w, seq("p", m)...)
					} else {
						t = append(t, "'"+e)
						w = append(w, "'"+e)
					}
				}
				out = append(out, spec{"quasiquote", lst(t) + " | [y]=" + lst(seq("p", m)), []string{"eval y; => " + lst(w)}})
			}
		}
	}
	out = append(out,
		spec{"quasiquote", "(('unquote-splicing x:Symbol) ('unquote-splicing y:Symbol)) | [x]=(p q); [y]=(r s)", []string{"eval x; eval y; => (p q r s)"}},
		spec{"quasiquote", "('a ('unquote-splicing x:Symbol) ('unquote y:Symbol) ('unquote-splicing z:Symbol) 'b) | [x]=(p q); [y]=(r); [z]=(s)", []string{"eval x; eval y; eval z; => ('a p q (r) s 'b)"}},
		spec{"quasiquote", "('a ('b ('unquote-splicing x:Symbol)) 'c) | [x]=(p q)", []string{"eval x; => ('a ('b p q) 'c)"}},
	)
	return
}

// The set operations, on lists of known symbols.
func genSets(n int) (out []spec) {
	add := func(name, args string, want ...string) { out = append(out, spec{name, args, want}) }
	var lists [][]string
	var mk func(l []string)
	names := []string{"'a", "'b", "'c"}[:n]
	mk = func(l []string) {
		lists = append(lists, append([]string{}, l...))
		if len(l) < 3 {
			for _, s := range names {
				mk(append(append([]string{}, l...), s))
			}
		}
	}
	mk(nil)
	has := func(l []string, s string) bool {
		for _, e := range l {
			if e == s {
				return true
			}
		}
		return false
	}
	for _, a := range lists {
		for _, b := range lists {
			if len(a)+len(b) > 4 {
				continue
			}
			var u, i, c []string
			for _, e := range append(append([]string{}, a...), b...) {
				if !has(u, e) {
					u = append(u, e)
				}
			}
			for _, e := range a {
				if has(b, e) {
					i = append(i, e)
				} else {
					c = append(c, e)
				}
			}
			add("union", lst(a)+" "+lst(b), "=> "+lst(u))
			add("intersection", lst(a)+" "+lst(b), "=> "+lst(i))
			add("complement", lst(a)+" "+lst(b), "=> "+lst(c))
		}
	}
	add("union", "", "=> ()")
	add("union", "('a 'b 'a)", "=> ('a 'b)")
	add("union", "('a) ('b) ('a 'c)", "=> ('a 'b 'c)")
	add("intersection", "('a 'b)", "=> ('a 'b)")
	add("intersection", "('a 'b 'c) ('c 'a) ('a 'b)", "=> ('a)")
	add("complement", "('a 'b 'c) ('c) ('a)", "=> ('b)")
	add("complement", "('a 'b)", "=> ('a 'b)")
	return
}
