// C10: the tags tree registers an expression once, under one index, and a rejected one changes nothing.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/glob"
	"github.com/msaf1980/go-matcher/gtags"
)

type op struct {
	q     string
	index int
	terms bool
}

func main() {
	h.Main("C10", "histories of up to 8 Add and AddTerms calls with repeated, equivalent, malformed and empty expressions and repeated and negative indexes; non-trivial: the history has two calls or more", func(r *h.R) {
		pool := []string{
			"seriesByTag('a=b')", "seriesByTag( 'a=b' )", "seriesByTag('a=b','c=d')", "seriesByTag('c=d','a=b')", "seriesByTag('a={b}')",
			"seriesByTag('name=a*')", "seriesByTag('__name__=a**')", "seriesByTag()", "seriesByTag('')", "", "seriesByTag(a)", "seriesByTag('a=b'",
			"seriesByTag('a=[b')", "seriesByTag('a=~[b')", "seriesByTag('a!=b')", "seriesByTag('a=~b')", "seriesByTag('a!=~b')", "seriesByTag('=b')", " seriesByTag('a=b') ",
			"seriesByTag('a=b','a=b')", "seriesByTag('a={c,b}')", "seriesByTag('a={b,c}')", `seriesByTag("a=b")`,
		}
		for i := 0; i < r.N(150000); i++ {
			var os []op
			var txt []string
			for k := 1 + r.Intn(8); k > 0; k-- {
				o := op{r.Pick(pool), r.Intn(6) - 1, r.Intn(4) == 0}
				if r.Intn(3) == 0 {
					o.index = r.Intn(100)
				}
				if r.Intn(6) == 0 {
					o.q = oracle.RandQuery(r.Rand, 3, true)
				}
				if len(os) > 0 && r.Intn(4) == 0 {
					// another text of a registered expression
					if args, ok := oracle.Args(os[r.Intn(len(os))].q); ok && len(args) > 0 {
						for j := range args {
							args[j] = oracle.Variant(r.Rand, args[j])
						}
						r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
						q := "'"
						if strings.Contains(strings.Join(args, ""), q) {
							q = `"`
						}
						o.q = "seriesByTag(" + q + strings.Join(args, q+", "+q) + q + ")"
					}
				}
				os = append(os, o)
				f := "Add"
				if o.terms {
					f = "AddTerms"
				}
				txt = append(txt, fmt.Sprintf("%s(%q,%d)", f, o.q, o.index))
			}
			r.Do(strings.Join(txt, " "), len(os) > 1, func() string { return run(os) })
		}
	})
}

func run(ops []op) string {
	t := gtags.NewTree()
	globs, index := map[string]int{}, map[int]string{}
	for k, o := range ops {
		terms, perr := gtags.ParseSeriesByTag(o.q)
		var raw, node string
		if perr == nil {
			node = terms.String()
			raw = node
		}
		var norm string
		var n int
		var err error
		if o.terms {
			if perr != nil || len(terms) == 0 {
				continue
			}
			norm, n, err = t.AddTerms(terms, o.index)
		} else {
			raw = o.q
			norm, n, err = t.Add(o.q, o.index)
		}
		at := fmt.Sprintf("call %d: ", k)
		ex, exist := globs[raw]
		if !exist && perr == nil {
			ex, exist = globs[node]
		}
		old, dup := index[o.index]
		switch {
		case o.q == "":
			if err != nil || norm != "" || n != 0 {
				return at + fmt.Sprintf("the empty query: %q, %d, %v", norm, n, err)
			}
		case o.index < 0:
			if !errors.Is(err, glob.ErrIndexInvalid) {
				return at + fmt.Sprintf("negative index: %v", err)
			}
		case perr == nil && !exist && !dup:
			if err != nil || n != o.index || norm != node {
				return at + fmt.Sprintf("not registered: %q, %d, %v", norm, n, err)
			}
			globs[raw], globs[node], index[o.index] = n, n, node
		default:
			if err == nil {
				return at + "no error"
			}
			switch {
			case errors.Is(err, glob.ErrGlobExist):
				if !exist || n != ex {
					return at + fmt.Sprintf("exist error with index %d, registered %v, %d", n, exist, ex)
				}
			case errors.Is(err, glob.ErrIndexDup):
				if !dup || norm != old {
					return at + fmt.Sprintf("duplicate index error with %q, registered %v, %q", norm, dup, old)
				}
			default:
				if perr == nil {
					return at + fmt.Sprintf("error %v", err)
				}
			}
		}
		if !reflect.DeepEqual(t.Queries, globs) || !reflect.DeepEqual(t.QueryIndex, index) {
			return at + fmt.Sprintf("registered %v, %v, must be %v, %v", t.Queries, t.QueryIndex, globs, index)
		}
	}
	return ""
}
