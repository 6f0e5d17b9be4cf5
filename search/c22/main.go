// C22: the text of a parsed seriesByTag call parses back to its terms.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gtags"
)

func same(got gtags.TaggedTermList, want gtags.TaggedTermList) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d terms, must be %d", len(got), len(want))
	}
	for i, g := range got {
		w := want[i]
		if g.Key != w.Key || g.Op != w.Op || g.Value != w.Value {
			return fmt.Sprintf("term %d is %s, must be %s%s%s", i, g.String(), w.Key, w.Op.String(), w.Value)
		}
	}
	return ""
}

func main() {
	h.Main("C22", "correct calls with every separator and quote, one-symbol mutations of them, every string of up to 5 symbols as an argument; non-trivial: the call is correct and has two terms", func(r *h.R) {
		one := func(q string) {
			if strings.Contains(q, "[") && (!utf8.ValidString(q) || strings.Contains(q, "\ufffd")) {
				return // what these mean in a class is left open
			}
			ts, ok := oracle.Query(q)
			r.Do(q, ok && len(ts) > 1, func() string {
				got, err := gtags.ParseSeriesByTag(q)
				if err != nil || !ok {
					return ""
				}
				wild := false
				for _, t := range ts {
					wild = wild || !strings.HasSuffix(t.Op, "~") && oracle.HasWild(t.Value)
				}
				for _, t := range got {
					if strings.ContainsAny(t.Key+t.Value, "'\"") || strings.TrimSpace(t.Value) != t.Value || strings.HasPrefix(t.Value, "~") || wild && strings.ContainsAny(q, "[") {
						// the text of these terms can't be parsed back to them, see DESIGN.md
						return ""
					}
				}
				again, err := gtags.ParseSeriesByTag(got.String())
				if err != nil {
					return fmt.Sprintf("the normalized text %q: %v", got.String(), err)
				}
				if again.String() != got.String() {
					return fmt.Sprintf("the normalized text %q is normalized to %q", got.String(), again.String())
				}
				return same(again, got)
			})
		}
		for i := 0; i < r.N(60000); i++ {
			q := oracle.RandQuery(r.Rand, 1+r.Intn(5), r.Intn(2) == 0)
			one(q)
			one(strings.ReplaceAll(q, "'", `"`))
			for j := 0; j < 3 && len(q) > 0; j++ {
				k := r.Intn(len(q))
				c := r.Pick([]string{"", "'", `"`, ",", " ", "=", "~", "!", ")", "(", "[", "{", "}", "name", "\t", "\xff"})
				if r.Intn(2) == 0 {
					one(q[:k] + c + q[k:])
				} else {
					one(q[:k] + c + q[k+1:])
				}
			}
		}
		h.All([]string{"a", "=", "~", "!", " ", "*", "{", "name"}, 5, func(s string) { one("seriesByTag('" + s + "')") })
		h.All([]string{"'a=b'", `"c!=d"`, ",", " ", "''", "'", `'x="y'`, "e"}, 5, func(s string) { one("seriesByTag(" + s + ")") })
		for _, n := range []int{1, 127, 128, 129, 200} {
			one("seriesByTag(" + strings.Repeat("'a=b',", n) + ")")
			one("seriesByTag(" + strings.Repeat("'',", n) + "'a=b')")
		}
		for _, s := range []string{"", " ", "seriesByTag", "seriesByTag(", "seriesByTag)", "seriesByTag()", "seriesByTag( )", "  seriesByTag()  ", "SeriesByTag()", "seriesByTag()x", "xseriesByTag()", "seriesByTag(')", "\tseriesByTag()"} {
			one(s)
		}
	})
}
