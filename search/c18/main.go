// C18: a symbol class is parsed to the union of its symbols and ranges, and its text is parsed back to it.
package main

import (
	"fmt"
	"unicode/utf8"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/pkg/utils"
)

func main() {
	h.Main("C18", "every class of up to 6 symbols of a small alphabet, random classes of up to 12 symbols, random lists of ranges to merge; non-trivial: the class is correct and not empty", func(r *h.R) {
		probe := []rune{}
		for _, b := range []rune{1, '!', '-', '0', 'a', 'c', 'z', 0x7e, 0x80, 'б', 'я', 'ё', '世', '😀', 0xffff, 0x7ff} {
			for d := rune(-4); d < 5; d++ {
				if c := b + d; c > 0 && c != 0xfffd && (c < 0xd800 || c > 0xdfff) {
					probe = append(probe, c)
				}
			}
		}
		in := func(set [][2]rune, c rune) bool {
			for _, x := range set {
				if c >= x[0] && c <= x[1] {
					return true
				}
			}
			return false
		}
		order := func(l []utils.RuneRange) string {
			for i := range l {
				if l[i].First > l[i].Last || i > 0 && (l[i-1].Last >= l[i].First || l[i-1].Last+1 == l[i].First && utf8.RuneLen(l[i-1].Last) == utf8.RuneLen(l[i].First)) {
					return fmt.Sprintf("ranges %v are not ordered and separate", l)
				}
			}
			return ""
		}
		one := func(body string) {
			set, ok := oracle.Class(body)
			r.Do(fmt.Sprintf("[%s]", body), ok && len(set) > 0, func() string {
				rs, gok := utils.RunesRangeExpand("[" + body + "]")
				if gok != ok {
					return fmt.Sprintf("accepted %v, must be %v", gok, ok)
				}
				if !ok {
					return ""
				}
				if d := order(rs.UnicodeRanges); d != "" {
					return d
				}
				back, bok := utils.RunesRangeExpand(rs.String())
				if !bok || !back.Equal(&rs) {
					return fmt.Sprintf("its text %q is another class", rs.String())
				}
				for _, c := range probe {
					if got, want := rs.Contains(c), in(set, c); got != want {
						return fmt.Sprintf("contains %q: %v, must be %v", c, got, want)
					}
				}
				return ""
			})
		}
		h.All([]string{"a", "b", "c", "-", "я", "ж", "世"}, 6, one)
		for i := 0; i < r.N(150000); i++ {
			one(r.Str([]string{"a", "b", "c", "d", "-", "-", "я", "а", "ж", "ё", "世", "界", "z", "0", "9", "!", "~", "\x7f", "\u0080", "😀", "😂", "\u07fe", "\u07ff", "\u0800", "\u0801", "\uffff", "\uffff", "\U00010000"}, 12))
		}
		for i := 0; i < r.N(100000); i++ {
			var l []utils.RuneRange
			var set [][2]rune
			for k := r.Intn(7); k > 0; k-- {
				f := []rune{200, 0x7f0}[r.Intn(2)] + rune(r.Intn(30))
				x := [2]rune{f, f + rune(r.Intn(6))}
				if f < 0x800 && x[1] >= 0x800 {
					x[1] = 0x7ff
				}
				set = append(set, x)
				l = append(l, utils.RuneRange{First: x[0], Last: x[1]})
			}
			r.Do(fmt.Sprintf("merge %v", l), len(l) > 1, func() string {
				got := utils.RunesRangeMerge(l)
				if d := order(got); d != "" {
					return d
				}
				for c := rune(195); c < 240; c++ {
					w := in(set, c)
					g := false
					for _, x := range got {
						g = g || c >= x.First && c <= x.Last
					}
					if g != w {
						return fmt.Sprintf("merged to %v: contains %d is %v", got, c, g)
					}
				}
				return ""
			})
		}
	})
}
