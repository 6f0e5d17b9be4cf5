// Package exph generates shell expressions.
package exph

import (
	"strings"

	"verifsearch/h"
)

var atoms = []string{"a", "b.c", ".", "{a,b}", "{a,b,c}", "{,a}", "{a}", "{}", "[ab]", "[a-c]", "[a]", "[]", "[-]", "[--]", "[b-a]", "[a-я]", "[я]", "[ая]",
	"[а-в]", "{a,a}", "{a.b,c}", "{a.b}", "я", "[abb]", "[a-cb-d]", "{,}", "[cba]", "{ab,cd}", "x"}
var classes = []string{"a", "b", "c", ".", "-", "a-c", "b-e", "z", "я", "а-в", "世", "\U0001F600", "x-z", "b-a", "-.", "0-9"}
var lists = []string{"a", ",", ",", "b.", "cd", ".", "я", "-", "世"}
var tails = []string{"*", "?", "{a", "[a", "}", "]", "{a{b,c}", "[a{b,c}", "{a*,b}", "{[ab],c}", "[a", "{a]", "[b}"}

// Rand is a random expression of up to n parts.
func Rand(r *h.R, n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			b.WriteString("[" + r.Str(classes, 6) + "]")
		case 1:
			b.WriteString("{" + r.Str(lists, 9) + "}")
		default:
			b.WriteString(r.Pick(atoms))
		}
		if r.Intn(14) == 0 {
			b.WriteString(r.Pick(tails))
		}
	}
	return b.String()
}

// Diff compares results.
func Diff(got, want []string) bool {
	if len(got) != len(want) {
		return true
	}
	for i := range got {
		if got[i] != want[i] {
			return true
		}
	}
	return false
}
