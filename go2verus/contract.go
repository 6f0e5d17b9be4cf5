package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type LoopC struct {
	inv, exc, ens, dec, pre, head, tail, post, exit string
}

type Contract struct {
	key       string
	file      string
	opts      map[string]bool
	requires  string
	ensures   string
	decreases string
	entry     string
	loops     map[int]*LoopC
	returns   map[int]string
	callsB    map[string]string
	callsA    map[string]string
	specs     []string
}

type Contracts struct {
	variant  string // files with another "variant" header are not used
	fns      map[string]*Contract
	heap     map[string]bool
	nullable map[string]bool
}

func (c *Contract) loop(n int) *LoopC {
	l := c.loops[n]
	if l == nil {
		l = &LoopC{}
		c.loops[n] = l
	}
	return l
}

func loadContracts(dir, variant string) (*Contracts, error) {
	over := map[string]*Contract{}
	cs := &Contracts{variant: variant, fns: map[string]*Contract{}, heap: map[string]bool{}, nullable: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.ct"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var cur *Contract
		var specs []string
		var variant string
		var dst func(string)
		for ln, l := range strings.Split(string(b), "\n") {
			bad := func() error { return fmt.Errorf("%s:%d: bad contract line %q", f, ln+1, l) }
			if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") {
				continue
			}
			if l[0] == ' ' || l[0] == '\t' {
				if dst == nil {
					return nil, bad()
				}
				dst(l + "\n")
				continue
			}
			w := strings.Fields(l)
			dst = nil
			switch w[0] {
			case "heap":
				for _, x := range w[1:] {
					cs.heap[x] = true
				}
			case "nullable":
				for _, x := range w[1:] {
					cs.nullable[x] = true
				}
			case "specs":
				specs = w[1:]
			case "variant":
				variant = w[1]
			case "fn":
				cur = &Contract{key: w[1], file: filepath.Base(f), opts: map[string]bool{}, loops: map[int]*LoopC{}, returns: map[int]string{}, callsB: map[string]string{}, callsA: map[string]string{}, specs: specs}
				for _, o := range w[2:] {
					cur.opts[o] = true
				}
				if variant != "" {
					if variant == cs.variant {
						over[w[1]] = cur
					}
					continue
				}
				if cs.fns[w[1]] != nil {
					return nil, fmt.Errorf("%s:%d: duplicate contract %s", f, ln+1, w[1])
				}
				cs.fns[w[1]] = cur
			case "requires":
				c := cur
				dst = func(s string) { c.requires += s }
			case "ensures":
				c := cur
				dst = func(s string) { c.ensures += s }
			case "decreases":
				c := cur
				dst = func(s string) { c.decreases += s }
			case "entry":
				c := cur
				dst = func(s string) { c.entry += s }
			case "loop":
				n, err := strconv.Atoi(w[1])
				if err != nil || len(w) < 3 {
					return nil, bad()
				}
				lc := cur.loop(n)
				var p *string
				switch w[2] {
				case "invariant":
					p = &lc.inv
				case "except_break":
					p = &lc.exc
				case "ensures":
					p = &lc.ens
				case "decreases":
					p = &lc.dec
				case "pre":
					p = &lc.pre
				case "head":
					p = &lc.head
				case "tail":
					p = &lc.tail
				case "post":
					p = &lc.post
				case "exit":
					p = &lc.exit
				default:
					return nil, bad()
				}
				dst = func(s string) { *p += s }
			case "return":
				n, err := strconv.Atoi(w[1])
				if err != nil {
					return nil, bad()
				}
				c := cur
				dst = func(s string) { c.returns[n] += s }
			case "call":
				if len(w) != 4 {
					return nil, bad()
				}
				k := w[1] + "#" + w[2]
				c := cur
				switch w[3] {
				case "before":
					dst = func(s string) { c.callsB[k] += s }
				case "after":
					dst = func(s string) { c.callsA[k] += s }
				default:
					return nil, bad()
				}
			default:
				return nil, bad()
			}
		}
	}
	for k, c := range over {
		cs.fns[k] = c
	}
	for _, c := range cs.fns {
		c.entry = ghostify(c.entry)
		for k := range c.returns {
			c.returns[k] = ghostify(c.returns[k])
		}
		for _, m := range []map[string]string{c.callsB, c.callsA} {
			for k := range m {
				if !strings.HasSuffix(k, "#0") {
					m[k] = ghostify(m[k])
				}
			}
		}
		for _, l := range c.loops {
			for _, p := range []*string{&l.pre, &l.head, &l.tail, &l.post, &l.exit} {
				*p = ghostify(*p)
			}
		}
	}
	return cs, nil
}

// ghostify wraps the proof statements of a body; "let ghost" lines stay outside.
func ghostify(s string) string {
	var b strings.Builder
	open := false
	end := func() {
		if open {
			b.WriteString("    }\n")
			open = false
		}
	}
	for _, l := range strings.SplitAfter(s, "\n") {
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "let ghost ") && strings.HasPrefix(l, "    let") {
			end()
			b.WriteString(l)
			continue
		}
		if !open {
			b.WriteString("    proof {\n")
			open = true
		}
		b.WriteString(l)
	}
	end()
	return b.String()
}
