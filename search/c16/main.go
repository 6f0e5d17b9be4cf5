// C16: the escaping into a buffer writes what the escaping to a string returns, and both are the standard encoding.
package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"

	"verifsearch/h"

	"github.com/msaf1980/go-matcher/pkg/escape"
)

const safePath = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~$&+,/:;=@"

func main() {
	h.Main("C16", "every byte, every pair of bytes, random byte strings of up to 100 bytes; non-trivial: the string has a symbol to escape", func(r *h.R) {
		one := func(s string) {
			var p strings.Builder
			for i := 0; i < len(s); i++ {
				if strings.IndexByte(safePath, s[i]) >= 0 {
					p.WriteByte(s[i])
				} else {
					fmt.Fprintf(&p, "%%%02X", s[i])
				}
			}
			r.Do(fmt.Sprintf("%q", s), p.String() != s, func() string {
				if got := escape.Query(s); got != url.QueryEscape(s) {
					return fmt.Sprintf("Query is %q, must be %q", got, url.QueryEscape(s))
				}
				if got := escape.Path(s); got != p.String() {
					return fmt.Sprintf("Path is %q, must be %q", got, p.String())
				}
				pre := r.Pick([]string{"", "x", "% "})
				b := bytes.NewBufferString(pre)
				escape.QueryTo(s, b)
				if got := b.String(); got != pre+url.QueryEscape(s) {
					return fmt.Sprintf("QueryTo wrote %q, must be %q", got, pre+url.QueryEscape(s))
				}
				b = bytes.NewBufferString(pre)
				escape.PathTo(s, b)
				if got := b.String(); got != pre+p.String() {
					return fmt.Sprintf("PathTo wrote %q, must be %q", got, pre+p.String())
				}
				return ""
			})
		}
		one("")
		for i := 0; i < 256; i++ {
			one(string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				one(string([]byte{byte(i), byte(j)}))
			}
		}
		for i := 0; i < r.N(150000); i++ {
			b := make([]byte, r.Intn(100))
			k := r.Intn(4)
			for j := range b {
				switch {
				case k == 0:
					b[j] = byte(r.Intn(256))
				case k == 1:
					b[j] = "ab "[r.Intn(3)]
				default:
					b[j] = "ab %/?&=+;,:@$-_.~z9\xff"[r.Intn(21)]
				}
			}
			one(string(b))
		}
	})
}
