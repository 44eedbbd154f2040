package main

// engineRoots are the functions analysed on their own besides the builtins.
func (pr *Program) engineRoots() []Root {
	var out []Root
	seen := map[string]bool{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if f := pr.fn(n); f != nil && len(f.Blocks) > 0 {
			out = append(out, Root{name: "function " + n, fn: f})
		}
	}
	for _, m := range []map[string]bool{evalLike, readLike, pureFns} {
		for _, n := range sortedKeys(m) {
			add(n)
		}
	}
	for _, n := range []string{"Intern", "Copy", "Length", "ToArray", "ProcessError", "ProfileEnter", "ProfileExit"} {
		add(n)
	}
	return out
}

func init() {
	props["C01"] = &Prop{id: "C01", run: func(pr *Program, rep *Report, th bool) {
		runSafety(pr, rep, safetyOpts{repr: true})
	}}
	props["C02"] = &Prop{id: "C02", run: func(pr *Program, rep *Report, th bool) {
		runSafety(pr, rep, safetyOpts{crash: true})
	}}
}

func runSafety(pr *Program, rep *Report, o safetyOpts) {
	roots := pr.primRoots(nil)
	var out []Root
	for _, r := range roots {
		if o.crash && r.reg.name == "panic!" {
			continue
		}
		out = append(out, r)
	}
	out = append(out, pr.engineRoots()...)
	sm := newSummaries(pr, safetyRules(pr, safetyOpts{}), pr.containerMethod)
	out = append(out, sm.roots()...)
	runRoots(pr, rep, out, func() *Rules { r := safetyRules(pr, o); r.Sums = sm; return r })
}

var metaC01 = propMeta{
	Explain: "Every builtin is interpreted abstractly with every legal number of arguments of unknown kind, and so is every exported evaluator, container and reader function; on every path each unsafe conversion of a value's payload and each store of a tag or payload is an obligation.",
	Rule:    "cast: a payload is converted to T only where the value's kind is proved to be the kind whose payload is T; repr: when a function returns or calls out, every value it made or changed has a payload of the kind its tag names; layout: unsafe conversions between struct types keep the layout.",
	Assume:  []string{"values reachable at entry satisfy the invariant (it is proved for every writer)", "host code linked with the interpreter keeps the invariant too", "data races do not tear a value (its tag is never rewritten after construction except by the checked writers)"},
}
