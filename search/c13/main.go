// C13: a seriesByTag call is parsed to its terms, in order, or rejected.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gtags"
)

// wild values are normalized: the languages are compared by c01 and c03
func same(got gtags.TaggedTermList, want []oracle.Term) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d terms, must be %d", len(got), len(want))
	}
	for i, g := range got {
		w := want[i]
		if g.Key != w.Key || g.Op.String() != w.Op || g.Value != w.Value {
			return fmt.Sprintf("term %d is %s, must be %s%s%s", i, g.String(), w.Key, w.Op, w.Value)
		}
	}
	return ""
}

// text is the call with the conditions in the given order
func text(ts []oracle.Term) string {
	var a []string
	for _, t := range ts {
		a = append(a, "'"+t.Key+t.Op+t.Value+"'")
	}
	return "seriesByTag(" + strings.Join(a, ",") + ")"
}

func main() {
	h.Main("C13", "correct calls with every separator and quote, one-symbol mutations of them, every string of up to 5 symbols as an argument; non-trivial: the call is correct and has a term", func(r *h.R) {
		one := func(q string) {
			if strings.Contains(q, "[") && (!utf8.ValidString(q) || strings.Contains(q, "\ufffd")) {
				return // what these mean in a class is left open
			}
			ts, ok := oracle.Query(q)
			r.Do(q, ok && len(ts) > 0, func() string {
				got, err := gtags.ParseSeriesByTag(q)
				if ok != (err == nil) {
					return fmt.Sprintf("accepted %v, must be %v (%v)", err == nil, ok, err)
				}
				if err != nil {
					return ""
				}
				for i := range ts {
					if !strings.HasSuffix(ts[i].Op, "~") && oracle.HasWild(ts[i].Value) {
						// a normalized text keeps the language
						ts[i].Value = norm(ts[i].Value, got, ts[i])
					}
				}
				oracle.SortTerms(ts)
				if d := same(got, ts); d != "" {
					return d
				}
				if got.String() != text(ts) {
					return fmt.Sprintf("the text is %q, must be %q", got.String(), text(ts))
				}
				return ""
			})
		}
		for i := 0; i < r.N(60000); i++ {
			q := oracle.RandQuery(r.Rand, 1+r.Intn(5), r.Intn(2) == 0)
			one(q)
			one(strings.ReplaceAll(q, "'", `"`))
			for j := 0; j < 3 && len(q) > 0; j++ {
				k := r.Intn(len(q))
				c := r.Pick([]string{"", "'", `"`, ",", " ", "=", "~", "!", ")", "(", "[", "{", "}", "name", "\t", "\xff"})
				if r.Intn(2) == 0 {
					one(q[:k] + c + q[k:])
				} else {
					one(q[:k] + c + q[k+1:])
				}
			}
		}
		h.All([]string{"a", "=", "~", "!", " ", "*", "{", "name"}, 5, func(s string) { one("seriesByTag('" + s + "')") })
		h.All([]string{"'a=b'", `"c!=d"`, ",", " ", "''", "'", `'x="y'`, "e"}, 5, func(s string) { one("seriesByTag(" + s + ")") })
		for _, n := range []int{1, 127, 128, 129, 200} {
			one("seriesByTag(" + strings.Repeat("'a=b',", n) + ")")
			one("seriesByTag(" + strings.Repeat("'',", n) + "'a=b')")
		}
		for _, s := range []string{"", " ", "seriesByTag", "seriesByTag(", "seriesByTag)", "seriesByTag()", "seriesByTag( )", "  seriesByTag()  ", "SeriesByTag()", "seriesByTag()x", "xseriesByTag()", "seriesByTag(')", "\tseriesByTag()"} {
			one(s)
		}
	})
}

// norm finds the text the value of the term is normalized to, checking that it is a glob of the same text in the result.
func norm(v string, got gtags.TaggedTermList, w oracle.Term) string {
	es, _ := oracle.Parse(v)
	for _, g := range got {
		if g.Key != w.Key || g.Op.String() != w.Op {
			continue
		}
		if g.Glob != nil && g.Glob.Glob == v && g.Glob.Node == g.Value && g.HasWildcard {
			return g.Value
		}
	}
	// no wildcard is left: the text is the one string of the language
	for _, g := range got {
		if g.Key == w.Key && g.Op.String() == w.Op && g.Glob == nil && !g.HasWildcard && oracle.Match(es, g.Value) {
			return g.Value
		}
	}
	return "not found"
}
