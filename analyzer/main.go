package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

type Prop struct {
	id string

	run func(pr *Program, rep *Report, thorough bool)
}

var onlyRoot string

var props = map[string]*Prop{}

func main() {
	id := flag.String("prop", "", "property to check")
	dir := flag.String("verif", "/verif", "framework directory")
	list := flag.Bool("list", false, "list builtins")
	prof := flag.String("cpuprofile", "", "profile file")
	flag.StringVar(&onlyRoot, "root", "", "only analyse roots containing this text (debugging)")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	pr, err := loadProgram()
	if *list {
		rep := newReport("-", pr)
		fmt.Println(pr.findRegistrations(rep))
		for _, r := range pr.regs {
			fmt.Println(r.name, r.args, pr.short(r.fn), r.special, r.restricted)
		}
		fmt.Println(len(pr.regs), time.Since(t0))
		return
	}
	ids := []string{*id}
	if *id == "all" {
		ids = nil
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		p := props[id]
		if p == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		if pr == nil {
			pr = &Program{}
		}
		rep := newReport(id, pr)
		if err != nil {
			rep.Viol("load", "repository", "-", err.Error(), "-", "")
		} else {
			if pr.regs == nil {
				if e := pr.findRegistrations(newReport(id, pr)); e != nil {
					rep.Viol("anchors", "registration", "-", e.Error(), "-", "")
				}
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						rep.Viol("undecided", "analysis", "-", fmt.Sprintf("internal error: %v", e), "-", "")
					}
				}()
				p.run(pr, rep, tier == "thorough")
			}()
		}
		for k, n := range minimums[id] {
			rep.minimum[k] = n
		}
		if c := rep.finish(tier, seed, *dir, metas[id]); c != 0 {
			rc = c
		}
	}
	if rc != 0 {
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
}
