// C06: the path helpers agree on what the parts of a path are.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
)

func main() {
	h.Main("C06", "every path of up to 9 symbols of a, b and dot, random longer paths; non-trivial: the path has a dot", func(r *h.R) {
		buf := []string{"x", "y", "z"}
		one := func(p string) {
			r.Do(fmt.Sprintf("path %q", p), strings.Contains(p, "."), func() string {
				want, ok := oracle.Parts(p)
				if want == nil {
					want = []string{}
				}
				t, n := gglob.PathLevel(p)
				if t != strings.TrimSuffix(p, ".") || n != len(want) {
					return fmt.Sprintf("PathLevel is %q, %d", t, n)
				}
				got := gglob.PathSplit(p)
				if !reflect.DeepEqual(got, want) {
					return fmt.Sprintf("PathSplit is %q", got)
				}
				if gglob.HasEmptyParts(got) == ok && p != "" || p == "" && gglob.HasEmptyParts(got) {
					return fmt.Sprintf("HasEmptyParts is %v", gglob.HasEmptyParts(got))
				}
				b := append([]string(nil), buf[:r.Intn(3)]...)
				if gglob.PathSplitB(p, &b) != ok {
					return fmt.Sprintf("PathSplitB is %v", !ok)
				}
				if ok && !reflect.DeepEqual(b, want) {
					return fmt.Sprintf("PathSplitB parts are %q", b)
				}
				return ""
			})
		}
		h.All([]string{"a", "b", "."}, 9, one)
		for i := 0; i < r.N(200000); i++ {
			one(r.Str([]string{"a", ".", "яb", "cde", "\xff", "..", "*"}, 14))
		}
	})
}
