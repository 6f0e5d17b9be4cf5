// C21: a store keeps what is stored since its last Init.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifsearch/h"

	"github.com/msaf1980/go-matcher/pkg/items"
)

func main() {
	h.Main("C21", "histories of up to 20 Store, Init and Grow calls with indexes from 0; non-trivial: the history stores twice", func(r *h.R) {
		for i := 0; i < r.N(100000); i++ {
			type op struct {
				k byte
				s string
				n int
			}
			var ops []op
			var txt []string
			stores := 0
			for k := r.Intn(20); k > 0; k-- {
				o := op{'S', r.Str([]string{"a", "b"}, 2), r.Intn(50)}
				switch r.Intn(8) {
				case 0:
					o.k = 'I'
				case 1:
					o.k = 'G'
				default:
					stores++
				}
				ops = append(ops, o)
				txt = append(txt, fmt.Sprintf("%c(%q,%d)", o.k, o.s, o.n))
			}
			r.Do(strings.Join(txt, " "), stores > 1, func() string {
				min, index, str, all := items.NewMinStore(), items.NewIndexStore(), items.NewStringStore(), items.NewAllStore()
				wn, ws, wmin := []int{}, []string{}, -1
				for k, o := range ops {
					switch o.k {
					case 'S':
						for _, s := range []items.Store{min, index, str, all} {
							s.Store(o.s, o.n)
						}
						wn, ws = append(wn, o.n), append(ws, o.s)
						if wmin < 0 || o.n < wmin {
							wmin = o.n
						}
					case 'I':
						min.Init()
						index.Init()
						str.Init()
						all.Init()
						wn, ws, wmin = []int{}, []string{}, -1
					case 'G':
						index.Grow(o.n)
						str.Grow(o.n)
						all.Grow(o.n)
						if cap(index.N) < o.n || cap(str.S) < o.n || cap(all.Index.N) < o.n || cap(all.S.S) < o.n {
							return fmt.Sprintf("call %d: capacity %d, %d", k, cap(index.N), cap(str.S))
						}
					}
					eq := func(a, b any) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
					if min.Min != wmin || all.Min.Min != wmin {
						return fmt.Sprintf("call %d: minimum %d, %d, must be %d", k, min.Min, all.Min.Min, wmin)
					}
					if !eq(index.N, wn) || !eq(all.Index.N, wn) {
						return fmt.Sprintf("call %d: indexes %v, %v, must be %v", k, index.N, all.Index.N, wn)
					}
					if len(ws) != len(str.S) || len(ws) > 0 && (!reflect.DeepEqual(str.S, ws) || !reflect.DeepEqual(all.S.S, ws)) || len(all.S.S) != len(ws) {
						return fmt.Sprintf("call %d: strings %q, %q, must be %q", k, str.S, all.S.S, ws)
					}
				}
				return ""
			})
		}
	})
}
