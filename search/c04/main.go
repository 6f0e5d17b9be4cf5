// C04: the length bounds of a glob hold for every string it matches.
package main

import (
	"fmt"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
)

func main() {
	h.Main("C04", "globs made of up to 6 atoms against strings of their language and mutations, dotted globs against dotted paths; non-trivial: the string is in the language", func(r *h.R) {
		bounds := func(gs string, n int) {
			es, ok := oracle.Parse(gs)
			if !ok {
				return
			}
			var g *glob.Glob
			r.Do(fmt.Sprintf("glob %q", gs), false, func() string {
				var err error
				if g, err = glob.Parse(gs); err != nil {
					g = nil
				}
				return ""
			})
			if g == nil {
				return
			}
			for j := 0; j < n; j++ {
				s := oracle.Subject(r.Rand, es)
				in := oracle.Match(es, s)
				r.Do(fmt.Sprintf("glob %q string %q", gs, s), in, func() string {
					if in && len(s) < g.MinLen {
						return fmt.Sprintf("MinLen is %d, the string is in the language", g.MinLen)
					}
					if in && g.MaxLen != -1 && len(s) > g.MaxLen {
						return fmt.Sprintf("MaxLen is %d, the string is in the language", g.MaxLen)
					}
					if g.MinLen < 0 || g.MaxLen < -1 || g.MaxLen >= 0 && g.MinLen > g.MaxLen {
						return fmt.Sprintf("bounds %d, %d", g.MinLen, g.MaxLen)
					}
					return ""
				})
			}
		}
		h.All([]string{"a", "*", "?", "[ab]", "{a,b}", "{,ab}", "я", "[ая]", "{a,bcd}", "{?,ab}", "{*,a}"}, 3, func(s string) { bounds(s, 5) })
		for i := 0; i < r.N(100000); i++ {
			bounds(oracle.Glob(r.Rand, 2+i%5), 10)
		}
		for i := 0; i < r.N(40000); i++ {
			var ps []string
			var pe [][]oracle.El
			for k := 1 + r.Intn(4); k > 0; k-- {
				p := oracle.Glob(r.Rand, 2)
				es, ok := oracle.Parse(p)
				if !ok {
					continue
				}
				ps = append(ps, p)
				pe = append(pe, es)
			}
			if len(ps) == 0 {
				continue
			}
			gs := strings.Join(ps, ".")
			var b strings.Builder
			n := 0
			for k, es := range pe {
				if k > 0 {
					b.WriteByte('.')
				}
				l := b.Len()
				oracle.Instance(r.Rand, es, &b)
				n += b.Len() - l
			}
			r.Do(fmt.Sprintf("gglob %q path %q", gs, b.String()), true, func() string {
				g, err := gglob.Parse(gs)
				if err != nil {
					return err.Error()
				}
				if n < g.MinLen || g.MaxLen != -1 && n > g.MaxLen {
					return fmt.Sprintf("bounds %d, %d (without dots), the path is in the language", g.MinLen, g.MaxLen)
				}
				return ""
			})
		}
	})
}
