// C17: the symbol sets behave as sets, in every query.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsearch/h"

	"github.com/msaf1980/go-matcher/pkg/utils"
)

func main() {
	h.Main("C17", "random ASCII sets and sets of ranges over ASCII and longer symbols (built symbol by symbol), asked for every symbol near them and for random strings with invalid bytes; non-trivial: the set is not empty", func(r *h.R) {
		syms := []string{"a", "b", "z", "A", "0", "\x7f", "я", "а", "б", "в", "世", "界", "😀", "😁", "\xff", "\xd1", "é", "-", "\x01", "\x80"}
		ascii := func(set map[rune]bool) {
			var cs []byte
			for c := range set {
				if c > 0 && c < 128 {
					cs = append(cs, byte(c))
				}
			}
			r.Do(fmt.Sprintf("ascii %q", cs), len(cs) > 0, func() string {
				as, ok := utils.MakeASCIISet(string(cs))
				if !ok {
					return "rejected"
				}
				var add utils.ASCIISet
				for _, c := range cs {
					if !add.Add(c) {
						return fmt.Sprintf("Add %q is false", c)
					}
				}
				if add != as {
					return "Add and MakeASCIISet differ"
				}
				if add.Add(byte(128+r.Intn(128))) || add != as {
					return "Add of a symbol not ASCII"
				}
				all, n, first := "", 0, byte(0)
				for c := 0; c < 256; c++ {
					in := c > 0 && set[rune(c)] && c < 128
					if as.Contains(byte(c)) != in {
						return fmt.Sprintf("Contains %q is %v", c, !in)
					}
					if in {
						all += string(rune(c))
						n++
						if first == 0 {
							first = byte(c)
						}
					}
				}
				if gn, gf := as.Count(); gn != n || gf != first {
					return fmt.Sprintf("Count is %d, %q, must be %d, %q", gn, gf, n, first)
				}
				if as.IsEmpty() != (n == 0) {
					return "IsEmpty"
				}
				if got := as.StringAll(); got != all {
					return fmt.Sprintf("StringAll is %q, must be %q", got, all)
				}
				for k := 0; k < 4; k++ {
					s := r.Str(syms, 8)
					if got, want := as.Index(s), strings.IndexAny(s, all); got != want {
						return fmt.Sprintf("Index %q is %d, must be %d", s, got, want)
					}
					if got, want := as.IndexByte([]byte(s)), strings.IndexAny(s, all); got != want {
						return fmt.Sprintf("IndexByte %q is %d, must be %d", s, got, want)
					}
					if got, want := as.LastIndex(s), strings.LastIndexAny(s, all); got != want {
						return fmt.Sprintf("LastIndex %q is %d, must be %d", s, got, want)
					}
					if got, want := as.LastIndexByte([]byte(s)), strings.LastIndexAny(s, all); got != want {
						return fmt.Sprintf("LastIndexByte %q is %d, must be %d", s, got, want)
					}
				}
				as.Clear()
				if !as.IsEmpty() {
					return "not empty after Clear"
				}
				return ""
			})
		}
		for i := 0; i < r.N(40000); i++ {
			set := map[rune]bool{}
			for k := r.Intn(6); k > 0; k-- {
				c := rune(1 + r.Intn(127))
				for j := 1 + r.Intn(4); j > 0; j-- {
					set[c] = true
					if r.Intn(2) == 0 {
						c++
					}
				}
			}
			ascii(set)
		}
		bases := []rune{'a', 'z', '0', 0x7e, 0x80, 0x7fe, 'я', 'а', '世', 0xffff, 0x10000, '😀'}
		for i := 0; i < r.N(60000); i++ {
			set := map[rune]bool{}
			var order []rune
			for k := r.Intn(8); k > 0; k-- {
				c := bases[r.Intn(len(bases))] + rune(r.Intn(7)-3)
				for j := 1 + r.Intn(3); j > 0; j-- {
					if c != utf8.RuneError && utf8.ValidRune(c) {
						set[c] = true
						order = append(order, c)
					}
					c++
				}
			}
			r.Do(fmt.Sprintf("runes %q", string(order)), len(order) > 0, func() string {
				var rs utils.RunesRanges
				if r.Intn(2) == 0 {
					rs.Adds(string(order))
				} else {
					for _, c := range order {
						rs.Add(c)
					}
				}
				rs.Merge()
				min, max := 0, 0
				for c := range set {
					n := utf8.RuneLen(c)
					if min == 0 || n < min {
						min = n
					}
					if n > max {
						max = n
					}
				}
				if rs.MinSize != min || rs.MaxSize != max {
					return fmt.Sprintf("sizes %d, %d, must be %d, %d", rs.MinSize, rs.MaxSize, min, max)
				}
				for _, b := range bases {
					for c := b - 8; c < b+8; c++ {
						if c >= 0 && rs.Contains(c) != set[c] {
							return fmt.Sprintf("Contains %q is %v", c, !set[c])
						}
					}
				}
				for k := 0; k < 6; k++ {
					s := r.Str(syms, 6)
					if len(order) > 0 {
						s += string(order[r.Intn(len(order))]) + r.Str(syms, 3)
					}
					pos, sym, n := -1, utf8.RuneError, 0
					for i := 0; i < len(s); {
						c, l := utf8.DecodeRuneInString(s[i:])
						if set[c] && c != utf8.RuneError {
							pos, sym, n = i, c, l
							break
						}
						i += l
					}
					if p, c, l := rs.Index(s); p != pos || c != sym || l != n {
						return fmt.Sprintf("Index %q is %d, %q, %d, must be %d, %q, %d", s, p, c, l, pos, sym, n)
					}
					if p, c, l := rs.IndexByte([]byte(s)); p != pos || c != sym || l != n {
						return fmt.Sprintf("IndexByte %q is %d, %q, %d, must be %d, %q, %d", s, p, c, l, pos, sym, n)
					}
					c, l := utf8.DecodeRuneInString(s)
					if !set[c] {
						c, l = utf8.RuneError, -1
					}
					if gc, gl := rs.StartsWith(s); gc != c || gl != l {
						return fmt.Sprintf("StartsWith %q is %q, %d, must be %q, %d", s, gc, gl, c, l)
					}
					c, l = utf8.DecodeLastRuneInString(s)
					if !set[c] {
						c, l = utf8.RuneError, -1
					} else {
						l = len(s) - l
					}
					if gc, gl := rs.EndsWith(s); gc != c || gl != l {
						return fmt.Sprintf("EndsWith %q is %q, %d, must be %q, %d", s, gc, gl, c, l)
					}
				}
				return ""
			})
		}
	})
}
