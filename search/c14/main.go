// C14: tagged paths are split to their tags the same way to a slice and to maps.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gtags"
	"github.com/msaf1980/go-matcher/pkg/escape"
)

type format struct {
	name, first, next string
	tags              func(string) ([]gtags.Tag, error)
	tagsMap           func(string) (map[string]string, error)
	tagsMapB          func(string, map[string]string) error
}

func main() {
	h.Main("C14", "tagged paths of both formats built from escaped pieces, every path of up to 6 symbols of a small alphabet, random paths; non-trivial: the path has a tag", func(r *h.R) {
		fs := []format{
			{"merge tree", "?", "&", gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB},
			{"graphite", ";", ";", gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB},
		}
		pieces := []string{"a", "b", "=", "&", ";", "?", "%", "+", " ", "я", "/", "\x00", "\xff", "~", "ab", "1"}
		one := func(f format, p string, want []gtags.Tag) {
			// the reference: name, then key=value up to the next separator
			name, rest, ok := strings.Cut(p, f.first)
			bad := !ok || strings.Contains(name, "=")
			ref := []gtags.Tag{{Key: "__name__", Value: oracle.Unescape(name)}}
			for rest != "" {
				k, r, ok := strings.Cut(rest, "=")
				if !ok {
					bad = true
					break
				}
				v, next, _ := strings.Cut(r, f.next)
				ref = append(ref, gtags.Tag{Key: oracle.Unescape(k), Value: oracle.Unescape(v)})
				rest = next
			}
			r.Do(fmt.Sprintf("%s path %q", f.name, p), len(ref) > 1, func() string {
				if want != nil && !reflect.DeepEqual(ref, want) {
					return fmt.Sprintf("tags %q, the path is built from %q", ref, want)
				}
				ts, err := f.tags(p)
				if (err != nil) != bad {
					return fmt.Sprintf("slice error %v, must be %v", err, bad)
				}
				if !reflect.DeepEqual(ts, ref) {
					return fmt.Sprintf("slice %q, must be %q", ts, ref)
				}
				m := map[string]string{}
				for _, t := range ref {
					m[t.Key] = t.Value
				}
				if got := gtags.TagsMap(ts); !reflect.DeepEqual(got, m) {
					return fmt.Sprintf("TagsMap %q, must be %q", got, m)
				}
				tm, err := f.tagsMap(p)
				if (err != nil) != bad || !reflect.DeepEqual(tm, m) {
					return fmt.Sprintf("map %q (%v), must be %q", tm, err, m)
				}
				b := map[string]string{"old": "x", "a": "y"}
				for k := r.Intn(4); k > 0; k-- {
					b[r.Str(pieces, 2)] = "z"
				}
				if r.Intn(4) == 0 {
					for k := range m {
						b[k] = "z"
						if len(k) > 1 {
							b[k[1:]] = "z"
							b[k[:1]] = "z"
						}
					}
				}
				err = f.tagsMapB(p, b)
				if (err != nil) != bad || !reflect.DeepEqual(b, m) {
					return fmt.Sprintf("reused map %q (%v), must be %q", b, err, m)
				}
				return ""
			})
		}
		for i := 0; i < r.N(100000); i++ {
			for _, f := range fs {
				want := []gtags.Tag{{Key: "__name__", Value: r.Str(pieces, 4)}}
				p := escape.Query(want[0].Value) + f.first
				for k := r.Intn(5); k > 0; k-- {
					t := gtags.Tag{Key: r.Str(pieces, 3), Value: r.Str(pieces, 3)}
					want = append(want, t)
					p += escape.Query(t.Key) + "=" + escape.Query(t.Value)
					if k > 1 {
						p += f.next
					}
				}
				one(f, p, want)
				one(f, r.Str([]string{"a", "=", ";", "?", "&", "%41", "%", "+", "b"}, 12), nil)
			}
		}
		for _, f := range fs {
			h.All([]string{"a", "=", ";", "?", "&", "%41"}, 6, func(s string) { one(f, s, nil) })
		}
	})
}
