// C15: unescaping is total, keeps malformed escapes and inverts the query escaping.
package main

import (
	"fmt"
	"net/url"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/pkg/escape"
)

func main() {
	h.Main("C15", "every string of up to 5 symbols of the escape alphabet, random byte strings, escaped and as they are, into builders with text; non-trivial: the string has an escape", func(r *h.R) {
		one := func(s string) {
			r.Do(fmt.Sprintf("%q", s), strings.ContainsAny(s, "%+"), func() string {
				want := oracle.Unescape(s)
				if got := escape.Unescape(s); got != want {
					return fmt.Sprintf("Unescape is %q, must be %q", got, want)
				}
				if got := escape.Unescape(escape.Query(s)); got != s {
					return fmt.Sprintf("unescaped to %q after Query", got)
				}
				if got := escape.Unescape(strings.ReplaceAll(escape.Path(s), "+", "%2B")); got != s {
					return fmt.Sprintf("unescaped to %q after Path", got)
				}
				if got, err := url.QueryUnescape(s); err == nil && got != want {
					return fmt.Sprintf("net/url unescapes to %q, not to %q", got, want)
				}
				var sb strings.Builder
				pre := r.Pick([]string{"", "x", "pre%41"})
				sb.WriteString(pre)
				got := escape.UnescapeTo(s, &sb)
				if got != want || !strings.HasPrefix(sb.String(), pre) || sb.String() != pre && sb.String() != pre+want {
					return fmt.Sprintf("UnescapeTo is %q, buffer %q", got, sb.String())
				}
				sb.Reset()
				sb.WriteString(pre)
				name, tag := escape.UnescapeNameTo(s, &sb)
				if name != want || tag != "__name__="+want || sb.String() != pre+tag {
					return fmt.Sprintf("UnescapeNameTo is %q, %q, buffer %q", name, tag, sb.String())
				}
				return ""
			})
		}
		h.All([]string{"%", "4", "1", "f", "F", "g", "+", "a", "\xff"}, 5, one)
		for i := 0; i < r.N(150000); i++ {
			b := make([]byte, r.Intn(80))
			for j := range b {
				switch r.Intn(4) {
				case 0:
					b[j] = byte(r.Intn(256))
				default:
					b[j] = "%%+ a0fFgz/"[r.Intn(11)]
				}
			}
			one(string(b))
		}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				one("%" + string([]byte{byte(i), byte(j)}))
			}
		}
	})
}
