package main

// What each special form evaluates, tests and binds.  [e] is the value of the
// expression e in the caller's environment, ?v / !v says v was found true /
// false, =(..) is the result.
var formSpecs = []spec{
	{"if", "c t e", []string{"eval c; ?[c]; eval t; => [t]", "eval c; ![c]; eval e; => [e]"}},
	{"if", "c t", []string{"eval c; ?[c]; eval t; => [t]", "eval c; ![c]; => ()"}},
	{"when", "c x", []string{"eval c; ?[c]; eval x; => [x]", "eval c; ![c]; => ()"}},
	{"when", "c x y z", []string{"eval c; ?[c]; eval x; eval y; eval z; => [z]", "eval c; ![c]; => ()"}},
	{"unless", "c x", []string{"eval c; ![c]; eval x; => [x]", "eval c; ?[c]; => ()"}},
	{"unless", "c x y z", []string{"eval c; ![c]; eval x; eval y; eval z; => [z]", "eval c; ?[c]; => ()"}},
	{"begin", "", []string{"=> ()"}},
	{"begin", "x", []string{"eval x; => [x]"}},
	{"begin", "x y z", []string{"eval x; eval y; eval z; => [z]"}},
	{"and", "", []string{"=> ()"}},
	{"and", "x", []string{"eval x; ?[x]; => [x]", "eval x; ![x]; => [x]"}},
	{"and", "x y z", []string{"eval x; ![x]; => [x]", "eval x; ?[x]; eval y; ![y]; => [y]", "eval x; ?[x]; eval y; ?[y]; eval z; ![z]; => [z]", "eval x; ?[x]; eval y; ?[y]; eval z; ?[z]; => [z]"}},
	{"or", "", []string{"=> ()"}},
	{"or", "x y z", []string{"eval x; ?[x]; => [x]", "eval x; ![x]; eval y; ?[y]; => [y]", "eval x; ![x]; eval y; ![y]; eval z; ![z]; => [z]", "eval x; ![x]; eval y; ![y]; eval z; ?[z]; => [z]"}},
	{"cond", "", []string{"=> ()"}},
	{"cond", "(c:ConsCell x y) (d:ConsCell z w)", []string{
		"eval c; ?[c]; eval x; eval y; => [y]",
		"eval c; ![c]; eval d; ?[d]; eval z; eval w; => [w]",
		"eval c; ![c]; eval d; ![d]; => ()"}},
	{"cond", "(c:ConsCell x) ('else z w)", []string{
		"eval c; ?[c]; eval x; => [x]",
		"eval c; ![c]; eval z; eval w; => [w]"}},
	{"case", "k ((p q) x y) ((r) z)", []string{
		"eval k; ?[k]=p; eval x; eval y; => [y]",
		"eval k; ![k]=p; ?[k]=q; eval x; eval y; => [y]",
		"eval k; ![k]=p; ![k]=q; ?[k]=r; eval z; => [z]",
		"eval k; ![k]=p; ![k]=q; ![k]=r; => ()"}},
	{"case", "k ((p) x) ('else y z)", []string{
		"eval k; ?[k]=p; eval x; => [x]",
		"eval k; ![k]=p; eval y; eval z; => [z]"}},
	{"quote", "x", []string{"=> x"}},
	{"lambda", "(p q) x y", []string{"=> fn((p q),(x y),env)"}},
	{"named-lambda", "(n:Symbol p q) x y", []string{"=> fn((p q),(x y),env)"}},
	{"define", "n:Symbol x", []string{"eval x; bind n=[x]; => [x]"}},
	{"define", "(n:Symbol p q) x y", []string{"bind n=fn((p q),(x y),env); => fn((p q),(x y),env)", "=> error"}},
	{"defmacro", "(n:Symbol p q) x", []string{"bind n=macro((p q),x,env); => macro((p q),x,env)"}},
	{"set!", "n:Symbol x", []string{"eval x; set n=[x]; => [x]"}},
	{"let", "((a:Symbol x) (b:Symbol y)) z w", []string{"eval x; bind a=[x] in new(env); eval y; bind b=[y] in new(env); eval z in new(env); eval w in new(env); => [w]"}},
	{"let*", "((a:Symbol x) (b:Symbol y)) z w", []string{"eval x in new(env); bind a=[x] in new(env); eval y in new(env); bind b=[y] in new(env); eval z in new(env); eval w in new(env); => [w]"}},
	{"letrec", "((a:Symbol x) (b:Symbol y)) z w", []string{"bind a=() in new(env); bind b=() in new(env); eval x in new(env); bind a=[x] in new(env); eval y in new(env); bind b=[y] in new(env); eval z in new(env); eval w in new(env); => [w]"}},
	{"let", "n:Symbol ((a:Symbol x) (b:Symbol y)) z w", []string{"bind n=() in new(env); bind n=fn((a b),(z w),new(env)) in new(env); apply fn((a b),(z w),new(env))(x,y); => fn((a b),(z w),new(env))(x,y)"}},
	{"do", "((a:Symbol x s:Symbol) (b:Symbol y u:Symbol)) (t r q) z w", []string{
		"eval x; bind a=[x] in new(env); eval y; bind b=[y] in new(env); eval t in new(env); ?[t]; eval r in new(env); eval q in new(env); => [q]",
		"eval x; bind a=[x] in new(env); eval y; bind b=[y] in new(env); eval t in new(env); ![t]; eval z in new(env); eval w in new(env); eval s in new(env); eval u in new(env); bind a=[s] in new(env); bind b=[u] in new(env); eval t in new(env); ..."}},
	{"->", "x f:Symbol (g y)", []string{
		"eval x; eval (f ('quote [x])); eval (g ('quote [(f ('quote [x]))]) y); => [(g ('quote [(f ('quote [x]))]) y)]",
		"eval x; eval (f ('quote ())); eval (g ('quote [(f ('quote ()))]) y); => [(g ('quote [(f ('quote ()))]) y)]",
		"eval x; eval (f ('quote [x])); eval (g ('quote ()) y); => [(g ('quote ()) y)]",
		"eval x; eval (f ('quote ())); eval (g ('quote ()) y); => [(g ('quote ()) y)]"}},
	{"=>", "x f:Symbol (g y)", []string{
		"eval x; eval (f ('quote [x])); eval (g ('quote [x]) y); => [x]",
		"eval x; eval (f ('quote ())); eval (g ('quote ()) y); => [x]"}},
	{"on-error", "x h", []string{"eval x; => [x]", "eval x fails; eval h; apply [h](<Error(err)>); => [h](<Error(err)>)"}},
	{"on-error", "x h k | [h]=H:Function; [k]=K:Function", []string{"eval x; eval k; apply K(); => K()", "eval x fails; eval h; apply H(<Error(err)>); => H(<Error(err)>)"}},
	{"time", "x", []string{"eval x; => *"}},
	{"profile", "x", []string{"eval x; => [x]"}},
	{"expand", "m x y | [m]=M:Macro", []string{"eval m; expand(M,x,y); => expand(M,x,y)"}},
	{"set-car!", "p x | [p]=P:ConsCell", []string{"eval p; eval x; store car(P)=[x]; => [x]", "eval p; => error"}},
	{"set-cdr!", "p x | [p]=P:ConsCell", []string{"eval p; eval x; store cdr(P)=[x]; => [x]", "eval p; => error"}},
	{"eval", "x", []string{"eval x; => [x]"}},
	{"eval", "x e:Environment", []string{"eval x in e; => [x]"}},
	{"global-eval", "x", []string{"eval x in Global; => [x]"}},
}

var listSpecs = []spec{
	{"map", "f:Function|Primitive (x y z)", []string{"call f(x); call f(y); call f(z); => (f(x) f(y) f(z))"}},
	{"map", "f:Function|Primitive (x y) (z w v)", []string{"call f(x,z); call f(y,w); => (f(x,z) f(y,w))"}},
	{"map", "f:Function|Primitive ()", []string{"=> ()"}},
	{"for-each", "f:Function|Primitive (x y z)", []string{"call f(x); call f(y); call f(z); => ()"}},
	{"for-each", "f:Function|Primitive (x y) (z w v)", []string{"call f(x,z); call f(y,w); => ()"}},
	{"any", "f:Function|Primitive (x y)", []string{"call f(x); !f(x); call f(y); !f(y); => #f", "call f(x); !f(x); call f(y); ?f(y); => #t", "call f(x); ?f(x); => #t"}},
	{"any", "f:Function|Primitive (x y) (z)", []string{"call f(x,z); !f(x,z); => #f", "call f(x,z); ?f(x,z); => #t"}},
	{"every", "f:Function|Primitive (x y)", []string{"call f(x); !f(x); => #f", "call f(x); ?f(x); call f(y); !f(y); => #f", "call f(x); ?f(x); call f(y); ?f(y); => #t"}},
	{"every", "f:Function|Primitive (x y) (z)", []string{"call f(x,z); !f(x,z); => #f", "call f(x,z); ?f(x,z); => #t"}},
	{"reduce", "f:Function|Primitive i (x y z)", []string{"call f(x,y); call f(f(x,y),z); => f(f(x,y),z)"}},
	{"reduce", "f:Function|Primitive i ()", []string{"=> i"}},
	{"reduce-left", "f:Function|Primitive i (x y z)", []string{"call f(x,y); call f(f(x,y),z); => f(f(x,y),z)"}},
	{"reduce-right", "f:Function|Primitive i (x y z)", []string{"call f(y,z); call f(x,f(y,z)); => f(x,f(y,z))"}},
	{"reduce-right", "f:Function|Primitive i ()", []string{"=> i"}},
	{"fold-left", "f:Function|Primitive i (x y z)", []string{"call f(i,x); call f(f(i,x),y); call f(f(f(i,x),y),z); => f(f(f(i,x),y),z)"}},
	{"fold-right", "f:Function|Primitive i (x y z)", []string{"call f(z,i); call f(y,f(z,i)); call f(x,f(y,f(z,i))); => f(x,f(y,f(z,i)))"}},
	{"filter", "f:Function|Primitive (x y z)", []string{"call f(x); !f(x); call f(y); !f(y); call f(z); !f(z); => ()", "call f(x); !f(x); call f(y); !f(y); call f(z); ?f(z); => (z)", "call f(x); !f(x); call f(y); ?f(y); call f(z); !f(z); => (y)", "call f(x); !f(x); call f(y); ?f(y); call f(z); ?f(z); => (y z)", "call f(x); ?f(x); call f(y); !f(y); call f(z); !f(z); => (x)", "call f(x); ?f(x); call f(y); !f(y); call f(z); ?f(z); => (x z)", "call f(x); ?f(x); call f(y); ?f(y); call f(z); !f(z); => (x y)", "call f(x); ?f(x); call f(y); ?f(y); call f(z); ?f(z); => (x y z)"}},
	{"remove", "f:Function|Primitive (x y z)", []string{"call f(x); !f(x); call f(y); !f(y); call f(z); !f(z); => (x y z)", "call f(x); !f(x); call f(y); !f(y); call f(z); ?f(z); => (x y)", "call f(x); !f(x); call f(y); ?f(y); call f(z); !f(z); => (x z)", "call f(x); !f(x); call f(y); ?f(y); call f(z); ?f(z); => (x)", "call f(x); ?f(x); call f(y); !f(y); call f(z); !f(z); => (y z)", "call f(x); ?f(x); call f(y); !f(y); call f(z); ?f(z); => (y)", "call f(x); ?f(x); call f(y); ?f(y); call f(z); !f(z); => (z)", "call f(x); ?f(x); call f(y); ?f(y); call f(z); ?f(z); => ()"}},
	{"memq", "k (x y z)", []string{"!k=x; !k=y; !k=z; => #f", "!k=x; !k=y; ?k=z; => (z)", "!k=x; ?k=y; => (y z)", "?k=x; => (x y z)"}},
	{"memp", "f:Function|Primitive (x y z)", []string{"call f(x); !f(x); call f(y); !f(y); call f(z); !f(z); => #f", "call f(x); !f(x); call f(y); !f(y); call f(z); ?f(z); => (z)", "call f(x); !f(x); call f(y); ?f(y); => (y z)", "call f(x); ?f(x); => (x y z)"}},
	{"find-tail", "f:Function|Primitive (x y z)", []string{"call f(x); !f(x); call f(y); !f(y); call f(z); !f(z); => #f", "call f(x); !f(x); call f(y); !f(y); call f(z); ?f(z); => (z)", "call f(x); !f(x); call f(y); ?f(y); => (y z)", "call f(x); ?f(x); => (x y z)"}},
	{"find", "f:Function|Primitive (x y z)", []string{"call f(x); !f(x); call f(y); !f(y); call f(z); !f(z); => #f", "call f(x); !f(x); call f(y); !f(y); call f(z); ?f(z); => z", "call f(x); !f(x); call f(y); ?f(y); => y", "call f(x); ?f(x); => x"}},
	{"apply", "f:Function|Primitive x y (z w)", []string{"call f(x,y,z,w); => f(x,y,z,w)"}},
	{"apply", "f:Function|Primitive (z w)", []string{"call f(z,w); => f(z,w)"}},
	{"list", "x y z", []string{"=> (x y z)"}},
	{"cons", "x y", []string{"=> (x . y)"}},
	{"cons", "x (y z)", []string{"=> (x y z)"}},
	{"cons*", "x y (z w)", []string{"=> (x y z w)"}},
	{"make-list", "#3 x", []string{"=> (x x x)"}},
	{"length", "(x y z)", []string{"=> <3>"}},
	{"reverse", "(x y z)", []string{"=> (z y x)"}},
	{"append", "(x y) (z w) (v)", []string{"=> (x y z w v)"}},
	{"append", "(x y) z:Symbol", []string{"=> (x y z)"}},
	{"flatten", "(x:Symbol (y:Symbol z:Symbol) w:Symbol)", []string{"=> (x y z w)"}},
	{"partition", "#2 (x y z w v)", []string{"=> ((x y) (z w) (v))"}},
	{"take", "#2 (x y z w v)", []string{"=> (x y)"}},
	{"drop", "#2 (x y z w v)", []string{"=> (z w v)"}},
	{"list-head", "(x y z w v) #2", []string{"=> (x y)"}},
	{"list-tail", "(x y z w v) #2", []string{"=> (z w v)"}},
	{"nth", "(x y z w v) #2", []string{"=> y"}},
	{"list-ref", "(x y z w v) #2", []string{"=> z"}},
	{"list-ref", "(x y z w v) #0", []string{"=> x"}},
	{"take", "#0 (x y)", []string{"=> ()"}},
	{"take", "#4 (x y)", []string{"=> (x y)"}},
	{"drop", "#0 (x y)", []string{"=> (x y)"}},
	{"drop", "#2 (x y)", []string{"=> ()"}},
	{"drop", "#4 (x y)", []string{"=> ()"}},
	{"sublist", "(x y z w v) #1 #3", []string{"=> (x y)"}},
	{"partition", "#2 (x y z w)", []string{"=> ((x y) (z w))"}},
	{"partition", "f:Function|Primitive (x y)", []string{"call f(x); !f(x); call f(y); !f(y); => (() (x y))", "call f(x); !f(x); call f(y); ?f(y); => ((y) (x))", "call f(x); ?f(x); call f(y); !f(y); => ((x) (y))", "call f(x); ?f(x); call f(y); ?f(y); => ((x y) ())"}},
	{"reverse", "()", []string{"=> ()"}},
	{"append", "() (x)", []string{"=> (x)"}},
	{"append", "(x) ()", []string{"=> (x)"}},
	{"append", "", []string{"=> ()"}},
	{"append", "(x y) () (z)", []string{"=> (x y z)"}},
	{"list", "", []string{"=> ()"}},
	{"length", "()", []string{"=> <0>"}},
	{"last-pair", "(x)", []string{"=> (x)"}},
	{"list-tail", "(x y) #2", []string{"=> ()"}},
	{"list-head", "(x y) #2", []string{"=> (x y)"}},
	{"interval", "#3", []string{"=> (<1> <2> <3>)"}},
	{"interval", "#5 #2", []string{"=> (<5> <4> <3> <2>)"}},
	{"interval", "#1 #6 #2", []string{"=> (<1> <3> <5>)"}},
	{"filter", "f:Function|Primitive ()", []string{"=> ()"}},
	{"remove", "f:Function|Primitive ()", []string{"=> ()"}},
	{"fold-left", "f:Function|Primitive i ()", []string{"=> i"}},
	{"fold-right", "f:Function|Primitive i ()", []string{"=> i"}},
	{"fold-left", "f:Function|Primitive i (x y) (z w)", []string{"call f(i,x); call f(f(i,x),y); => f(f(i,x),y)"}},
	{"fold-right", "f:Function|Primitive i (x y) (z w)", []string{"call f(y,i); call f(x,f(y,i)); => f(x,f(y,i))"}},
	{"reduce", "f:Function|Primitive i (x)", []string{"=> x"}},
	{"reduce-right", "f:Function|Primitive i (x)", []string{"=> x"}},
	{"member", "k (x y)", []string{"!k=x; !k=y; => #f", "!k=x; ?k=y; => (y)", "?k=x; => (x y)"}},
	{"memv", "k (x y)", []string{"!k=x; !k=y; => #f", "!k=x; ?k=y; => (y)", "?k=x; => (x y)"}},
	{"assq", "k ((x . y) (z . w))", []string{"!k=x; !k=z; => ()", "!k=x; ?k=z; => (z . w)", "?k=x; => (x . y)"}},
	{"assv", "k ((x . y) (z . w))", []string{"!k=x; !k=z; => ()", "!k=x; ?k=z; => (z . w)", "?k=x; => (x . y)"}},
	{"acons", "k:Symbol v", []string{"=> ((k . v))"}},
	{"any", "f:Function|Primitive ()", []string{"=> #f"}},
	{"every", "f:Function|Primitive ()", []string{"=> #t"}},
	{"for-each", "f:Function|Primitive ()", []string{"=> ()"}},
	{"find", "f:Function|Primitive ()", []string{"=> #f"}},
	{"last-pair", "(x y z w v)", []string{"=> (v)"}},
	{"assoc", "k ((x y) (z w))", []string{"!k=x; !k=z; => ()", "!k=x; ?k=z; => (z w)", "?k=x; => (x y)"}},
	{"dissoc", "k ((x . y) (z . w))", []string{"!k=x; !k=z; !x=z; => ((z . w) (x . y))", "!k=x; !k=z; ?x=z; => ((x . w))", "!k=x; ?k=z; => ((x . y))", "?k=x; !k=z; => ((z . w))", "?k=x; ?k=z; => ()"}},
	{"rassoc", "k ((x . y) (z . w))", []string{"!k=y; !k=w; => ()", "!k=y; ?k=w; => (z . w)", "?k=y; => (x . y)"}},
	{"acons", "k:Symbol v ((x . y) (z . w))", []string{"!k=x; !k=z; => ((k . v) (x . y) (z . w))", "!k=x; ?k=z; => ((x . y) (z . v))", "?k=x; => ((x . v) (z . w))"}},
	{"pairlis", "(x:Symbol y:Symbol) (z:Symbol w:Symbol)", []string{"!x=y; => ((y . w) (x . z))", "?x=y; => ((x . w))"}},
	{"pairlis", "(x:Symbol y:Symbol) (z:Symbol w:Symbol) ((u:Symbol . v:Symbol))", []string{"!u=x; !x=y; !u=y; => ((y . w) (x . z) (u . v))", "!u=x; !x=y; ?u=y; => ((x . z) (u . w))", "!u=x; ?x=y; => ((x . w) (u . v))", "?u=x; !u=y; => ((y . w) (u . z))", "?u=x; ?u=y; => ((u . w))"}},
	{"interval", "#2 #5", []string{"=> (<2> <3> <4> <5>)"}},
	{"general-car-cdr", "(x y z) #12", []string{"=> z"}},
	{"general-car-cdr", "(x y z) #6", []string{"=> y"}},
}

func init() {
	props["C23"] = &Prop{id: "C23", run: func(pr *Program, rep *Report, th bool) {
		n := 4
		if th {
			n = 7
		}
		runSpecs(pr, rep, "form", append(append(append(append([]spec{}, formSpecs...), edgeForms...), genQuasi(min(n, 5))...), append(genForms(1, n), genForms(16, 16)...)...), false)
	}}
	props["C25"] = &Prop{id: "C25", run: func(pr *Program, rep *Report, th bool) {
		n := 5
		if th {
			n = 8
		}
		runSpecs(pr, rep, "list", append(append(append([]spec{}, listSpecs...), genLists(n)...), append(append(genSets(2), genLong(20)...), genFlatten(n-2)...)...), true)
		runTroots(pr, rep, "list", sortRoots(4), traceOpts{nonNil: true, call: sortModel})
	}}
}
