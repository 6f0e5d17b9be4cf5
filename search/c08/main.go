// C08: the batch tree of dotted globs reports exactly the globs which match.
package main

import (
	"fmt"
	"sort"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"
)

func main() {
	h.Main("C08", "trees of up to 12 dotted globs sharing parts, in random order of adding, against paths of the members' languages and mutations, by path and by parts; non-trivial: the path is in the language of a member", func(r *h.R) {
		for i := 0; i < r.N(50000); i++ {
			var gs []string
			pool := []string{oracle.Glob(r.Rand, 1), oracle.Glob(r.Rand, 2), "*", "a", oracle.Glob(r.Rand, 1), "{a,b}"}
			for k := 1 + r.Intn(12); k > 0; k-- {
				if r.Intn(4) == 0 {
					gs = append(gs, oracle.DottedGlob(r.Rand, 4))
					continue
				}
				g := r.Pick(pool)
				n := 4
				if r.Intn(8) == 0 {
					n = 14
				}
				for j := r.Intn(n); j > 0; j-- {
					g += "." + r.Pick(pool)
				}
				if len(gs) > 0 && r.Intn(6) == 0 {
					g = oracle.Variant(r.Rand, gs[r.Intn(len(gs))])
				}
				gs = append(gs, g)
			}
			tree := gglob.NewTree()
			var es [][][]oracle.El
			var texts []string
			var idx []int
			built := false
			r.Do(fmt.Sprintf("tree %q", gs), false, func() string {
				for i, g := range gs {
					e, ok := oracle.ParseDotted(g)
					if !ok || g == "" {
						continue
					}
					norm, n, err := tree.Add(g, i*2)
					if err == glob.ErrGlobExist {
						continue
					}
					if err != nil || n != i*2 {
						return fmt.Sprintf("%q is not added: %d, %v", g, n, err)
					}
					es, texts, idx = append(es, e), append(texts, norm), append(idx, n)
				}
				built = true
				return ""
			})
			if !built || len(es) == 0 {
				continue
			}
			for j := 0; j < 8; j++ {
				s := oracle.DottedSubject(r.Rand, es[r.Intn(len(es))])
				if j == 0 {
					s = ""
				}
				want := map[string]bool{}
				for i, e := range es {
					if oracle.MatchDotted(e, s) {
						want[fmt.Sprintf("%d %s", idx[i], texts[i])] = true
					}
				}
				r.Do(fmt.Sprintf("tree %q path %q", gs, s), len(want) > 0, func() string {
					var st items.AllStore
					st.Init()
					n := tree.Match(s, &st)
					if d := diff("Match", n, &st, want); d != "" {
						return d
					}
					if ps, ok := oracle.Parts(s); ok {
						st.Init()
						n = tree.MatchByParts(ps, &st)
						return diff("MatchByParts", n, &st, want)
					}
					return ""
				})
			}
		}
	})
}

func diff(what string, n int, st *items.AllStore, want map[string]bool) string {
	got := map[string]bool{}
	for i := range st.Index.N {
		got[fmt.Sprintf("%d %s", st.Index.N[i], st.S.S[i])] = true
	}
	if n != len(st.Index.N) {
		return fmt.Sprintf("%s returned %d, stored %d", what, n, len(st.Index.N))
	}
	var d []string
	for k := range want {
		if !got[k] {
			d = append(d, "missing "+k)
		}
	}
	for k := range got {
		if !want[k] {
			d = append(d, "extra "+k)
		}
	}
	if len(d) == 0 {
		return ""
	}
	sort.Strings(d)
	return fmt.Sprintf("%s %q", what, d)
}
