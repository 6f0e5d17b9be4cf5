// Package tagh joins the tags oracle with the tags of the code.
package tagh

import (
	"fmt"
	"sort"

	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/items"
)

// Slice is the map as the slice of a tagged path.
func Slice(m map[string]string) []gtags.Tag {
	var out []gtags.Tag
	for _, k := range oracle.SortedKeys(m) {
		out = append(out, gtags.Tag{Key: k, Value: m[k]})
	}
	return out
}

// Text prints tags.
func Text(m map[string]string) string {
	s := ""
	for _, k := range oracle.SortedKeys(m) {
		s += fmt.Sprintf("%s=%q;", k, m[k])
	}
	return s
}

// Diff compares the reports of a batch match with the wanted ones.
func Diff(what string, n int, st *items.AllStore, want map[string]bool) string {
	got := map[string]bool{}
	for i := range st.Index.N {
		got[fmt.Sprintf("%d %s", st.Index.N[i], st.S.S[i])] = true
	}
	if n != len(st.Index.N) {
		return fmt.Sprintf("%s returned %d, stored %d", what, n, len(st.Index.N))
	}
	var d []string
	for k := range want {
		if !got[k] {
			d = append(d, "missing "+k)
		}
	}
	for k := range got {
		if !want[k] {
			d = append(d, "extra "+k)
		}
	}
	if len(d) == 0 {
		return ""
	}
	sort.Strings(d)
	return fmt.Sprintf("%s %q", what, d)
}
