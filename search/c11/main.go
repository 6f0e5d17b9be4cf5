// C11: an expression matches exactly the tags which satisfy every term.
package main

import (
	"fmt"

	"verifsearch/h"
	"verifsearch/oracle"
	"verifsearch/tagh"

	"github.com/msaf1980/go-matcher/gtags"
)

func main() {
	h.Main("C11", "expressions of up to 6 terms (repeated keys included) against sets of up to 10 tags, as map and as slice sorted with __name__ first; non-trivial: the tags satisfy the expression", func(r *h.R) {
		for i := 0; i < r.N(80000); i++ {
			q := oracle.RandQuery(r.Rand, 1+r.Intn(6), r.Intn(2) == 0)
			ts, ok := oracle.Query(q)
			if !ok {
				continue
			}
			var terms gtags.TaggedTermList
			if !r.Do(q, false, func() string {
				var err error
				if terms, err = gtags.ParseSeriesByTag(q); err != nil {
					return "rejected: " + err.Error()
				}
				return ""
			}) {
				continue
			}
			for j := 0; j < 8; j++ {
				m := oracle.RandTags(r.Rand, ts)
				want := oracle.Satisfied(ts, m)
				r.Do(q+" tags "+tagh.Text(m), want, func() string {
					if got := terms.MatchByTagsMap(m); got != want {
						return fmt.Sprintf("MatchByTagsMap is %v, the terms say %v", got, want)
					}
					if got := terms.MatchByTags(tagh.Slice(m)); got != want {
						return fmt.Sprintf("MatchByTags is %v, the terms say %v", got, want)
					}
					return ""
				})
			}
		}
	})
}
