// C05: a dotted glob matches exactly the paths whose parts its part globs match.
package main

import (
	"fmt"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
)

func main() {
	h.Main("C05", "dotted globs of up to 4 parts against paths of the language and mutations (empty parts, dots at both ends, other part counts), every dotted glob of up to 5 symbols of a small alphabet; non-trivial: the path is in the language", func(r *h.R) {
		var last string
		var g *gglob.GGlob
		one := func(gs string, es [][]oracle.El, p string) {
			want := oracle.MatchDotted(es, p)
			r.Do(fmt.Sprintf("gglob %q path %q", gs, p), want, func() string {
				if last != gs {
					last = gs
					var err error
					if g, err = gglob.Parse(gs); err != nil {
						last = ""
						return "rejected: " + err.Error()
					}
				}
				if got := g.Match(p); got != want {
					return fmt.Sprintf("Match is %v, the language says %v", got, want)
				}
				if ps, ok := oracle.Parts(p); ok {
					n := len(ps) - 1
					for _, v := range ps {
						n += len(v)
					}
					if got := g.MatchByParts(ps, n); got != want {
						return fmt.Sprintf("MatchByParts with length %d is %v, the language says %v", n, got, want)
					}
					if got := g.MatchByParts(ps, 0); got != want {
						return fmt.Sprintf("MatchByParts is %v, the language says %v", got, want)
					}
				}
				return ""
			})
		}
		paths := []string{"", ".", "a", "a.", "a..", ".a", "a.b", "a.b.", "a..b", "b.a", "ab.a", "a.b.a", "ab", "..", "a.ab.b", "я.a", "a.я"}
		h.All([]string{"a", ".", "*", "?", "{a,b}", "{,b}", "я"}, 4, func(s string) {
			es, ok := oracle.ParseDotted(s)
			if !ok || s == "" {
				return
			}
			for _, p := range paths {
				one(s, es, p)
			}
		})
		for i := 0; i < r.N(60000); i++ {
			gs := oracle.DottedGlob(r.Rand, 4)
			es, ok := oracle.ParseDotted(gs)
			if !ok {
				continue
			}
			for j := 0; j < 10; j++ {
				one(gs, es, oracle.DottedSubject(r.Rand, es))
			}
			one(gs, es, strings.Repeat("a.", r.Intn(6))+"b")
		}
	})
}
