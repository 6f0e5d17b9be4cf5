// C20: the limits of an expansion hold, and what is not expanded is kept as it is.
package main

import (
	"fmt"
	"math"
	"strings"

	"verifsearch/exph"
	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/expand"
)

var limits = []int{math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 53, 3 << 61, 1 << 32, math.MaxInt32}

func main() {
	h.Main("C20", "expressions of up to 7 parts with limits of results from -2 to 40 and depths from -1 to 5, with long expressions under a limit; non-trivial: the limits change the result", func(r *h.R) {
		run := func(in string, max, depth int, try bool) {
			ps := oracle.Expression(in)
			if !try && max < 0 && oracle.Count(ps) > 5000 {
				return
			}
			want := oracle.Expand(ps, max, depth, try)
			r.Do(fmt.Sprintf("%q max %d depth %d try %v", in, max, depth, try), max >= 0 || depth > 0, func() string {
				f := expand.Expand
				if try {
					f = expand.ExpandTry
				}
				got, err := f(in, max, depth)
				if err != nil {
					return err.Error()
				}
				if exph.Diff(got, want) {
					return fmt.Sprintf("expanded to %q, must be %q", got, want)
				}
				if max > 0 && len(got) > max {
					return fmt.Sprintf("%d results", len(got))
				}
				e := expand.ParseExpr(in)
				for i := 0; i < 2; i++ {
					if got, err = e.Expand(max, depth, try); err != nil || exph.Diff(got, want) {
						return fmt.Sprintf("expansion %d of the parsed expression is %q, must be %q", i, got, want)
					}
				}
				return ""
			})
		}
		one := func(in string, max, depth int) { run(in, max, depth, r.Intn(3) == 0) }
		for i := 0; i < r.N(100); i++ {
			// products over any number, the first alternatives only
			in := strings.Repeat(r.Pick([]string{"{a,b}", "[a-z]", "[а-я]", "{a,b,c}."}), 1+r.Intn(120))
			run(in, limits[r.Intn(len(limits))], r.Intn(5), true)
		}
		for i := 0; i < r.N(300000); i++ {
			max := r.Intn(43) - 2
			if r.Intn(6) == 0 {
				max = 1 << uint(r.Intn(12))
			}
			one(exph.Rand(r, 7), max, r.Intn(7)-1)
		}
		for i := 0; i < r.N(1000); i++ {
			// more results than any number holds, limited
			in := strings.Repeat(r.Pick([]string{"{a,b}", "[a-z]", "[\U00010000-\U000107ff]", "{a,b,c}."}), 1+r.Intn(120))
			one(in, r.Intn(300), r.Intn(5))
		}
	})
}
