// C03: the normalized text of a glob is a glob with the same language.
package main

import (
	"fmt"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
)

func main() {
	h.Main("C03", "globs made of up to 6 atoms, the language of the glob compared with the language of its normalized text on sampled, mutated and random strings; non-trivial: the text is changed by the normalization", func(r *h.R) {
		one := func(gs string, n int) {
			es, ok := oracle.Parse(gs)
			if !ok {
				return
			}
			var g *glob.Glob
			r.Do(fmt.Sprintf("glob %q", gs), oracle.HasWild(gs), func() string {
				var err error
				if g, err = glob.Parse(gs); err != nil {
					g = nil
					return err.Error()
				}
				return ""
			})
			if g == nil {
				return
			}
			es2, ok := oracle.Parse(g.Node)
			var g2 *glob.Glob
			r.Do(fmt.Sprintf("glob %q", gs), g.Node != gs, func() string {
				if g.String() != g.Node {
					return fmt.Sprintf("String %q, Node %q", g.String(), g.Node)
				}
				if !ok {
					return fmt.Sprintf("normalized to %q, which is malformed", g.Node)
				}
				var err error
				if g2, err = glob.Parse(g.Node); err != nil {
					g2 = nil
					return fmt.Sprintf("normalized to %q, which is rejected: %v", g.Node, err)
				}
				if g2.Node != g.Node {
					return fmt.Sprintf("normalized to %q, which is normalized to %q", g.Node, g2.Node)
				}
				return ""
			})
			if g2 == nil {
				return
			}
			for j := 0; j < n; j++ {
				var s string
				if j%2 == 0 {
					s = oracle.Subject(r.Rand, es)
				} else {
					s = oracle.Subject(r.Rand, es2)
				}
				r.Do(fmt.Sprintf("glob %q string %q", gs, s), g.Node != gs, func() string {
					w := oracle.Match(es, s)
					if oracle.Match(es2, s) != w {
						return fmt.Sprintf("normalized to %q: the glob matches %v, the normalized text %v", g.Node, w, !w)
					}
					if got := g2.Match(s); got != w {
						return fmt.Sprintf("normalized to %q: parsed again it matches %v, not %v", g.Node, got, w)
					}
					return ""
				})
			}
		}
		// a literal wildcard symbol has no text of its own
		r.Do(`normalized "a[*]"`, true, func() string {
			g, err := glob.Parse("a[*]")
			if err != nil {
				return err.Error()
			}
			g2, err := glob.Parse(g.Node)
			if err != nil {
				return err.Error()
			}
			if g2.Match("ab") != g.Match("ab") {
				return fmt.Sprintf("normalized to %q, which matches more", g.Node)
			}
			return ""
		})
		h.All([]string{"a", "*", "?", "[ab]", "{a,b}", "{,ab}", "я", "[a]", "{a}", "{?}", "{*}"}, 3, func(s string) { one(s, 4) })
		for i := 0; i < r.N(100000); i++ {
			gs := oracle.Glob(r.Rand, 2+i%5)
			if i%10 == 0 {
				gs = oracle.Raw(r.Rand, 8)
			}
			if hasMeta(gs) {
				continue
			}
			one(gs, 8)
		}
		for i := 0; i < r.N(20000); i++ {
			var ps []string
			bad := false
			for k := 1 + r.Intn(4); k > 0; k-- {
				p := oracle.Glob(r.Rand, 2)
				bad = bad || hasMeta(p)
				ps = append(ps, p)
			}
			gs := strings.Join(ps, ".")
			if bad {
				continue
			}
			r.Do(fmt.Sprintf("gglob %q", gs), true, func() string {
				g, err := gglob.Parse(gs)
				if err != nil {
					return err.Error()
				}
				var ns []string
				for _, p := range ps {
					q, err := glob.Parse(p)
					if err != nil {
						return err.Error()
					}
					ns = append(ns, q.Node)
				}
				if w := strings.Join(ns, "."); g.Node != w {
					return fmt.Sprintf("normalized to %q, its parts to %q", g.Node, w)
				}
				return ""
			})
		}
	})
}

// hasMeta: a class with a wildcard symbol or a comma in it (the known finding).
func hasMeta(s string) bool {
	for s != "" {
		i := strings.IndexByte(s, '[')
		if i < 0 {
			return false
		}
		s = s[i+1:]
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return false
		}
		if strings.ContainsAny(s[:j], "[]{}*?,") {
			return true
		}
		s = s[j+1:]
	}
	return false
}
