// C02: every string is parsed or rejected as the glob grammar says, without a panic.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
)

func main() {
	h.Main("C02", "every string of up to 6 glob symbols of a small alphabet, random strings over glob symbols, dots and raw bytes; non-trivial: the string has a wildcard symbol", func(r *h.R) {
		one := func(s string) {
			// what U+FFFD and invalid bytes mean in a class is left open
			exact := utf8.ValidString(s) && !strings.Contains(s, "\ufffd")
			_, ok := oracle.Parse(s)
			r.Do(fmt.Sprintf("glob %q", s), oracle.HasWild(s), func() string {
				g, err := glob.Parse(s)
				if exact && ok != (err == nil) {
					return fmt.Sprintf("accepted %v, well formed %v (%v)", err == nil, ok, err)
				}
				if err == nil {
					_ = g.Match(s)
					_ = g.Match("")
					_ = g.String()
					if g.Raw() != s {
						return fmt.Sprintf("raw text %q", g.Raw())
					}
				}
				return ""
			})
		}
		dotted := func(s string) {
			ok := true
			exact := utf8.ValidString(s) && !strings.Contains(s, "\ufffd")
			t := strings.TrimSuffix(s, ".")
			if s != "" {
				for _, p := range strings.Split(t, ".") {
					if p == "" {
						ok = false
						break
					}
					if _, o := oracle.Parse(p); !o {
						ok = false
						break
					}
				}
			}
			r.Do(fmt.Sprintf("gglob %q", s), oracle.HasWild(s), func() string {
				g, err := gglob.Parse(s)
				if exact && ok != (err == nil) {
					return fmt.Sprintf("accepted %v, well formed %v (%v)", err == nil, ok, err)
				}
				if err == nil {
					_ = g.Match(s)
				}
				return ""
			})
		}
		n := 5
		if r.N(1) > 1 {
			n = 6
		}
		h.All([]string{"[", "]", "{", "}", ",", "*", "?", "-", "a", "я"}, n, one)
		h.All([]string{"a", ".", "*", "[", "]"}, 6, dotted)
		syms := []string{"[", "]", "{", "}", ",", "*", "?", "-", "a", "b", "я", "в", "\xff", "\xd1", "\x8f", "\x00", "\ufffd", "\x7f", "世", "."}
		for i := 0; i < r.N(300000); i++ {
			s := r.Str(syms, 14)
			one(s)
			dotted(s)
			one(oracle.Glob(r.Rand, 5) + r.Str(syms, 2) + oracle.Glob(r.Rand, 2))
			dotted(oracle.Glob(r.Rand, 2) + "." + oracle.Glob(r.Rand, 2) + r.Str(syms, 2) + "." + oracle.Glob(r.Rand, 2))
		}
	})
}
