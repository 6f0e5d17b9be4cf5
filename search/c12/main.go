// C12: the tags tree reports exactly the expressions the tags satisfy.
package main

import (
	"fmt"

	"verifsearch/h"
	"verifsearch/oracle"
	"verifsearch/tagh"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"
)

func sorted(it *gtags.TaggedItem) string {
	for i := range it.Items {
		if i > 0 && !oracle.KeyLess(it.Items[i-1].Key, it.Items[i].Key) {
			return fmt.Sprintf("tree keys %q, %q", it.Items[i-1].Key, it.Items[i].Key)
		}
		for _, l := range [][]*gtags.TaggedItem{it.Items[i].Matched, it.Items[i].NotMatched} {
			for _, c := range l {
				if c.Term.Key != it.Items[i].Key {
					return fmt.Sprintf("term of key %q under %q", c.Term.Key, it.Items[i].Key)
				}
				if s := sorted(c); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func main() {
	h.Main("C12", "trees of up to 15 expressions of up to 5 terms, in random order of adding, against sets of tags taken from a member, as map and as slice; non-trivial: the tags satisfy a member", func(r *h.R) {
		for i := 0; i < r.N(40000); i++ {
			var qs []string
			few := r.Intn(2) == 0
			big := 15
			if r.Intn(8) == 0 {
				big = 50
			}
			for k := 1 + r.Intn(big); k > 0; k-- {
				qs = append(qs, oracle.RandQuery(r.Rand, 1+r.Intn(5), few))
			}
			tree := gtags.NewTree()
			var es [][]oracle.Term
			var texts []string
			var idx []int
			built := false
			r.Do(fmt.Sprintf("tree %q", qs), false, func() string {
				for i, q := range qs {
					ts, ok := oracle.Query(q)
					if !ok {
						continue
					}
					var norm string
					var n int
					var err error
					if i%4 == 3 {
						terms, perr := gtags.ParseSeriesByTag(q)
						if perr != nil {
							return perr.Error()
						}
						if len(terms) == 0 {
							continue
						}
						norm, n, err = tree.AddTerms(terms, i+1)
					} else {
						norm, n, err = tree.Add(q, i+1)
					}
					if err == glob.ErrGlobExist {
						continue
					}
					if err != nil || n != i+1 {
						return fmt.Sprintf("%q is not added: %d, %v", q, n, err)
					}
					es, texts, idx = append(es, ts), append(texts, norm), append(idx, n)
					if s := sorted(tree.Root); s != "" {
						return s
					}
				}
				built = true
				return ""
			})
			if !built || len(es) == 0 {
				continue
			}
			for j := 0; j < 8; j++ {
				m := oracle.RandTags(r.Rand, es[r.Intn(len(es))])
				want := map[string]bool{}
				for i, e := range es {
					if oracle.Satisfied(e, m) {
						want[fmt.Sprintf("%d %s", idx[i], texts[i])] = true
					}
				}
				r.Do(fmt.Sprintf("tree %q tags %s", qs, tagh.Text(m)), len(want) > 0, func() string {
					var st items.AllStore
					st.Init()
					n := tree.MatchByTagsMap(m, &st)
					if d := tagh.Diff("MatchByTagsMap", n, &st, want); d != "" {
						return d
					}
					st.Init()
					n = tree.MatchByTags(tagh.Slice(m), &st)
					return tagh.Diff("MatchByTags", n, &st, want)
				})
			}
		}
	})
}
