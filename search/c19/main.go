// C19: an expression expands to the product of its alternatives, in order.
package main

import (
	"fmt"

	"verifsearch/exph"
	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/expand"
)

func main() {
	h.Main("C19", "expressions of up to 7 parts (lists, classes, fixed text, unbalanced brackets, wildcards), every string of up to 6 symbols of the expression alphabet, each expanded twice; non-trivial: more than one result", func(r *h.R) {
		one := func(in string) {
			ps := oracle.Expression(in)
			if oracle.Count(ps) > 5000 {
				return
			}
			want := oracle.Expand(ps, -1, 0, false)
			r.Do(fmt.Sprintf("%q", in), len(want) > 1, func() string {
				got, err := expand.Expand(in, -1, 0)
				if err != nil {
					return err.Error()
				}
				if exph.Diff(got, want) {
					return fmt.Sprintf("expanded to %q, must be %q", got, want)
				}
				e := expand.ParseExpr(in)
				for i := 0; i < 2; i++ {
					if got, err = e.Expand(-1, 0, false); err != nil || exph.Diff(got, want) {
						return fmt.Sprintf("expansion %d of the parsed expression is %q, must be %q", i, got, want)
					}
				}
				return ""
			})
		}
		h.All([]string{"{", "}", "[", "]", ",", "a", "b", "-", "*"}, 6, one)
		for i := 0; i < r.N(200000); i++ {
			one(exph.Rand(r, 7))
			one(r.Str([]string{"{", "}", "[", "]", ",", "a", "b", "-", "?", "я", "."}, 14))
		}
	})
}
