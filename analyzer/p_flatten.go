package main

import (
	"fmt"
	"strings"
)

// genFlatten: (flatten l) for every list of up to n elements that are atoms or
// lists of up to two atoms, and (flatten* l) for nested lists of up to n atoms.
func genFlatten(n int) (out []spec) {
	const kinds = ":Symbol|String|Integer|Float|Boolean"
	// flat: which elements are lists, and how long
	var flat func(k int, shape []int)
	flat = func(k int, shape []int) {
		if k > 0 {
			for _, w := range []int{0, 1, 2} {
				flat(k-1, append(append([]int{}, shape...), w))
			}
			return
		}
		var in, res []string
		c := 0
		leaf := func() string {
			c++
			res = append(res, fmt.Sprintf("x%d", c))
			return fmt.Sprintf("x%d", c) + kinds
		}
		for _, w := range shape {
			var el []string
			for i := 0; i < max(w, 1); i++ {
				el = append(el, leaf())
			}
			if w == 0 {
				in = append(in, el[0])
			} else {
				in = append(in, lst(el))
			}
		}
		out = append(out, spec{"flatten", lst(in), []string{"=> " + lst(res)}})
	}
	for k := 0; k <= min(n, 3); k++ {
		flat(k, nil)
	}
	// every way to put parentheses around runs of k atoms, no deeper than d
	var seqs func(from, k, d int) []string
	seqs = func(from, k, d int) (r []string) {
		if k == 0 {
			return []string{""}
		}
		for _, rest := range seqs(from+1, k-1, d) {
			r = append(r, strings.TrimSpace(fmt.Sprintf("x%d%s %s", from, kinds, rest)))
		}
		if d > 0 {
			for j := 1; j <= k; j++ {
				for _, in := range seqs(from, j, d-1) {
					for _, rest := range seqs(from+j, k-j, d) {
						r = append(r, strings.TrimSpace("("+in+") "+rest))
					}
				}
			}
		}
		return
	}
	for k := 1; k <= n; k++ {
		var want []string
		for i := 1; i <= k; i++ {
			want = append(want, fmt.Sprintf("x%d", i))
		}
		for _, s := range seqs(1, k, 3) {
			out = append(out, spec{"flatten*", "(" + s + ")", []string{"=> " + lst(want)}})
		}
	}
	return
}
