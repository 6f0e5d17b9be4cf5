// C01: a parsed glob matches exactly its language.
package main

import (
	"fmt"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/glob"
)

func main() {
	h.Main("C01", "globs made of up to 6 atoms of every kind (and every string of up to 4 glob symbols) against strings sampled from their language, mutations of these and random strings; non-trivial: the glob has a wildcard", func(r *h.R) {
		check := func(gs string, es []oracle.El, g *glob.Glob, s string) {
			w := oracle.Match(es, s)
			r.Do(fmt.Sprintf("glob %q string %q", gs, s), oracle.HasWild(gs), func() string {
				if got := g.Match(s); got != w {
					return fmt.Sprintf("Match is %v, the language says %v", got, w)
				}
				return ""
			})
		}
		parse := func(gs string) ([]oracle.El, *glob.Glob) {
			es, ok := oracle.Parse(gs)
			if !ok {
				return nil, nil
			}
			var g *glob.Glob
			r.Do(fmt.Sprintf("glob %q", gs), oracle.HasWild(gs), func() string {
				var err error
				if g, err = glob.Parse(gs); err != nil {
					g = nil
					return "rejected: " + err.Error()
				}
				return ""
			})
			return es, g
		}
		var strs []string
		h.All([]string{"a", "b", "я"}, 4, func(s string) { strs = append(strs, s) })
		h.All([]string{"a", "*", "?", "[ab]", "{a,b}", "{,ab}", "я"}, 3, func(gs string) {
			if es, g := parse(gs); g != nil {
				for _, s := range strs {
					check(gs, es, g, s)
				}
			}
		})
		for it := 0; it < r.N(120000); it++ {
			n := 3
			if it%3 == 0 {
				n = 6
			}
			gs := oracle.Glob(r.Rand, n)
			if it%10 == 0 {
				gs = oracle.Raw(r.Rand, 8)
			}
			if it%12 == 1 {
				gs = oracle.MetaGlob(r.Rand, 3)
			}
			if strings.Contains(gs, "\ufffd") {
				continue
			}
			es, g := parse(gs)
			if g == nil {
				continue
			}
			for j := 0; j < 8; j++ {
				check(gs, es, g, oracle.Subject(r.Rand, es))
			}
		}
	})
}
