// C07: the batch tree reports exactly the globs which match.
package main

import (
	"fmt"
	"sort"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/pkg/items"
)

func main() {
	h.Main("C07", "trees of up to 12 globs sharing prefixes, suffixes and items, in random order of adding, against strings of the members' languages and mutations; non-trivial: the string is in the language of a member", func(r *h.R) {
		check := func(globs []string, subjects func(es [][]oracle.El) []string) {
			tree := glob.NewTree()
			var es [][]oracle.El
			var texts []string
			var idx []int
			built := false
			r.Do(fmt.Sprintf("tree %q", globs), false, func() string {
				for i, g := range globs {
					e, ok := oracle.Parse(g)
					if !ok || g == "" {
						continue
					}
					norm, n, err := tree.Add(g, i*3+1)
					if err == glob.ErrGlobExist {
						continue
					}
					if err != nil || n != i*3+1 {
						return fmt.Sprintf("%q is not added: %d, %v", g, n, err)
					}
					es, texts, idx = append(es, e), append(texts, norm), append(idx, n)
				}
				built = true
				return ""
			})
			if !built || len(es) == 0 {
				return
			}
			for _, s := range subjects(es) {
				want := map[string]bool{}
				for i, e := range es {
					if oracle.Match(e, s) {
						want[fmt.Sprintf("%d %s", idx[i], texts[i])] = true
					}
				}
				r.Do(fmt.Sprintf("tree %q string %q", globs, s), len(want) > 0, func() string {
					var st items.AllStore
					st.Init()
					n := tree.Match(s, &st)
					got := map[string]bool{}
					for i := range st.Index.N {
						got[fmt.Sprintf("%d %s", st.Index.N[i], st.S.S[i])] = true
					}
					if n != len(st.Index.N) {
						return fmt.Sprintf("returned %d, stored %d", n, len(st.Index.N))
					}
					return diff(got, want)
				})
			}
		}
		small := []string{"a", "b", "*", "?", "{a,b}", "{,a}", "я", "[ab]", "{a*,b}", "{a,bc,b}"}
		rnd := func() string {
			return r.Str(small, 4)
		}
		for i := 0; i < r.N(60000); i++ {
			var gs []string
			k := 1 + r.Intn(12)
			if i%3 == 0 {
				k = 1 + r.Intn(3)
			}
			base := oracle.Glob(r.Rand, 2)
			for ; k > 0; k-- {
				var g string
				switch r.Intn(5) {
				case 0:
					g = base + oracle.Glob(r.Rand, 2)
				case 1:
					g = oracle.Glob(r.Rand, 2) + base
				case 2:
					g = base + rnd() + base
				case 3:
					g = rnd()
				default:
					g = oracle.Glob(r.Rand, 4)
				}
				if len(gs) > 0 && r.Intn(6) == 0 {
					g = oracle.Variant(r.Rand, gs[r.Intn(len(gs))])
				}
				gs = append(gs, g)
			}
			check(gs, func(es [][]oracle.El) []string {
				var out []string
				for j := 0; j < 8; j++ {
					out = append(out, oracle.Subject(r.Rand, es[r.Intn(len(es))]))
				}
				return append(out, "")
			})
		}
	})
}

func diff(got, want map[string]bool) string {
	var d []string
	for k := range want {
		if !got[k] {
			d = append(d, "missing "+k)
		}
	}
	for k := range got {
		if !want[k] {
			d = append(d, "extra "+k)
		}
	}
	if len(d) == 0 {
		return ""
	}
	sort.Strings(d)
	return fmt.Sprintf("%q", d)
}
