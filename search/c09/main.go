// C09: a tree registers a glob once, under one index, and a rejected one changes nothing.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifsearch/h"
	"verifsearch/oracle"

	"github.com/msaf1980/go-matcher/gglob"
	"github.com/msaf1980/go-matcher/glob"
)

type model struct {
	globs map[string]int
	index map[int]string
}

type op struct {
	g     string
	index int
	pre   bool // AddGlob of a parsed glob
}

func main() {
	h.Main("C09", "histories of up to 8 Add and AddGlob calls with repeated, equivalent, malformed and empty globs and repeated and negative indexes, on both trees; non-trivial: the history has a rejected call", func(r *h.R) {
		pool := []string{"a", "a*", "a**", "{a}", "a{}", "[a]", "{b,a}", "{a,b}", "*", "**", "{a", "a]", "", "a?", "{a,a,b}", "я*", "[я]", "[ab]", "[ba]", "{b}c", "bc"}
		dots := []string{"a.b", "a.{b}", "a.b.", "a..b", "*.b", "**.b", ".a", "a.[b", "a.{b,a}", "a.{a,b}"}
		for i := 0; i < r.N(200000); i++ {
			dotted := i%2 == 1
			pl := pool
			if dotted {
				pl = append(append([]string{}, pool...), dots...)
			}
			var ops []op
			var txt []string
			for k := 1 + r.Intn(8); k > 0; k-- {
				o := op{r.Pick(pl), r.Intn(6) - 1, r.Intn(4) == 0}
				if r.Intn(3) == 0 {
					o.index = r.Intn(100)
				}
				if r.Intn(6) == 0 {
					o.g = oracle.Glob(r.Rand, 1+r.Intn(6))
					if dotted {
						o.g = oracle.DottedGlob(r.Rand, 4)
					}
				}
				if len(ops) > 0 && r.Intn(4) == 0 {
					o.g = oracle.Variant(r.Rand, ops[r.Intn(len(ops))].g)
				}
				if o.pre && o.g == "" {
					continue
				}
				ops = append(ops, o)
				f := "Add"
				if o.pre {
					f = "AddGlob"
				}
				txt = append(txt, fmt.Sprintf("%s(%q,%d)", f, o.g, o.index))
			}
			name := "glob tree"
			if dotted {
				name = "gglob tree"
			}
			m := model{map[string]int{}, map[int]string{}}
			bad := false
			for range ops {
				bad = true
			}
			r.Do(name+" "+strings.Join(txt, " "), bad, func() string { return run(m, ops, dotted) })
		}
	})
}

func run(m model, ops []op, dotted bool) string {
	gt, ggt := glob.NewTree(), gglob.NewTree()
	for k, o := range ops {
		var raw, node string
		var perr error
		if dotted {
			if g, err := gglob.Parse(o.g); err != nil {
				perr = err
			} else {
				raw, node = g.Glob, g.Node
			}
			if !o.pre {
				raw = o.g
			} else {
				raw = node // AddGlob registers the normalized text
			}
		} else {
			if g, err := glob.Parse(o.g); err != nil {
				perr = err
			} else {
				raw, node = g.Glob, g.Node
			}
		}
		if o.pre && perr != nil {
			continue
		}
		var norm string
		var n int
		var err error
		switch {
		case dotted && o.pre:
			norm, n, err = ggt.AddGlob(gglob.ParseMust(o.g), o.index)
		case dotted:
			norm, n, err = ggt.Add(o.g, o.index)
		case o.pre:
			norm, n, err = gt.AddGlob(glob.ParseMust(o.g), o.index)
		default:
			norm, n, err = gt.Add(o.g, o.index)
		}
		at := fmt.Sprintf("call %d: ", k)
		ex, exist := m.globs[raw]
		if !exist && perr == nil {
			ex, exist = m.globs[node]
		}
		old, dup := m.index[o.index]
		switch {
		case o.g == "":
			if err != nil || norm != "" || n != 0 {
				return at + fmt.Sprintf("the empty glob: %q, %d, %v", norm, n, err)
			}
		case o.index < 0:
			if !errors.Is(err, glob.ErrIndexInvalid) {
				return at + fmt.Sprintf("negative index: %v", err)
			}
		case perr == nil && !exist && !dup:
			if err != nil || n != o.index || norm != node {
				return at + fmt.Sprintf("not registered: %q, %d, %v", norm, n, err)
			}
			m.globs[raw], m.globs[node], m.index[o.index] = n, n, node
		default:
			if err == nil {
				return at + "no error"
			}
			switch {
			case errors.Is(err, glob.ErrGlobExist):
				if !exist || n != ex {
					return at + fmt.Sprintf("exist error with index %d, registered %v, %d", n, exist, ex)
				}
			case errors.Is(err, glob.ErrIndexDup):
				if !dup || norm != old {
					return at + fmt.Sprintf("duplicate index error with %q, registered %v, %q", norm, dup, old)
				}
			default:
				if perr == nil {
					return at + fmt.Sprintf("error %v", err)
				}
			}
		}
		var globs map[string]int
		var index map[int]string
		if dotted {
			globs, index = ggt.Globs, ggt.GlobsIndex
		} else {
			globs, index = gt.Globs, gt.GlobsIndex
		}
		if !reflect.DeepEqual(globs, m.globs) || !reflect.DeepEqual(index, m.index) {
			return at + fmt.Sprintf("registered %v, %v, must be %v, %v", globs, index, m.globs, m.index)
		}
	}
	return ""
}
