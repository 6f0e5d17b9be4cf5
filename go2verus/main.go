// go2verus translates functions of a Go module, mechanically, to Verus, joins
// them with the contracts of /verif/contracts and reports what it did.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type repFn struct {
	Key    string `json:"key"`
	Name   string `json:"name"`
	Mode   string `json:"mode"`
	Start  int    `json:"start"`
	End    int    `json:"end"`
	Error  string `json:"error,omitempty"`
	Spec   bool   `json:"contract"`
	NoTerm bool   `json:"partial"`
}

type report struct {
	Funcs   []repFn  `json:"funcs"`
	Inlined []string `json:"inlined"`
	Std     []string `json:"std"`
	Assume  []string `json:"assume"`
	Spec    [][3]any `json:"spec"` // name, start, end of the functions of prelude and spec files
	Specs   []string `json:"spec_files"`
	Fatal   string   `json:"fatal,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "module root")
	cdir := flag.String("contracts", "/verif/contracts", "contracts")
	roots := flag.String("roots", "", "functions, comma separated")
	specs := flag.String("specs", "", "spec files of the contracts directory, comma separated")
	variant := flag.String("variant", "", "use the contract files of this variant, over the others")
	out := flag.String("out", "", "generated file")
	rep := flag.String("report", "", "report file")
	probe := flag.Bool("probe", false, "add must-fail reachability probes")
	flag.Parse()
	r := report{}
	fatal := func(err error) {
		r.Fatal = err.Error()
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(*rep, b, 0o644)
		fmt.Fprintln(os.Stderr, "go2verus:", err)
		os.Exit(3)
	}
	m, err := loadModule(*repo)
	if err != nil {
		fatal(err)
	}
	cs, err := loadContracts(*cdir, *variant)
	if err != nil {
		fatal(err)
	}
	pre, err := os.ReadFile(filepath.Join(*cdir, "prelude.rs"))
	if err != nil {
		fatal(err)
	}
	pl := map[string]bool{}
	for _, mm := range regexp.MustCompile(`(?m)^\s*pub fn ([A-Za-z0-9_]+)`).FindAllStringSubmatch(string(pre), -1) {
		pl[mm[1]] = true
	}
	g := newGen(m, cs, pl)
	g.useAllEnums = true
	g.probe = *probe
	for _, path := range m.order {
		sc := m.pkgs[path].tpkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams() == nil {
					if _, ok := nt.Underlying().(*types.Struct); ok {
						g.rt(nt)
					}
				}
			}
		}
	}
	for _, k := range strings.Split(*roots, ",") {
		if k = strings.TrimSpace(k); k != "" {
			if n := k[strings.LastIndexByte(k, '.')+1:]; g.m.funcs[k] == nil && n[0] >= 'a' && n[0] <= 'z' {
				continue // a private function which is gone: its callers are verified with what they call now
			}
			g.need(k)
		}
	}
	g.run()
	var b strings.Builder
	b.WriteString("#![allow(unused_mut, unused_variables, unused_assignments, unused_parens, unused_braces, dead_code, non_camel_case_types, non_snake_case, unused_labels, unreachable_code, unused_must_use, path_statements)]\nuse vstd::prelude::*;\nuse vstd::arithmetic::div_mod::*;\nverus! {\n")
	b.Write(pre)
	b.WriteString("\n// ---- types of the module\n")
	b.WriteString(g.defs())
	use := map[string]string{}
	var addSpec func(s string)
	addSpec = func(s string) {
		if s = strings.TrimSpace(s); s == "" || use[s] != "" {
			return
		}
		sb, err := os.ReadFile(filepath.Join(*cdir, s))
		if err != nil {
			fatal(err)
		}
		use[s] = string(sb)
		for _, mm := range regexp.MustCompile(`(?m)^// uses: (.*)$`).FindAllStringSubmatch(string(sb), -1) {
			for _, u := range strings.Fields(mm[1]) {
				addSpec(u)
			}
		}
	}
	for _, s := range strings.Split(*specs, ",") {
		addSpec(s)
	}
	for _, f := range g.fnOut {
		if c := cs.fns[f.key]; c != nil {
			for _, s := range c.specs {
				addSpec(s)
			}
		}
	}
	var sl []string
	for s := range use {
		sl = append(sl, s)
	}
	sort.Strings(sl)
	for _, s := range sl {
		b.WriteString("\n// ---- " + s + "\n" + use[s])
	}
	if *probe {
		b.WriteString("\npub uninterp spec fn probe_at(i: int) -> bool;\npub proof fn probe_axioms() { assert(false); } // probe\n")
	}
	line := strings.Count(b.String(), "\n") + 1
	// functions of the prelude and the specs, by line
	var cur string
	start := 0
	for i, l := range strings.Split(b.String(), "\n") {
		if mm := regexp.MustCompile(`^\s*(?:pub )?(?:open |closed |uninterp |broadcast )*(?:proof |spec |axiom )?fn ([A-Za-z0-9_]+)`).FindStringSubmatch(l); mm != nil {
			if cur != "" {
				r.Spec = append(r.Spec, [3]any{cur, start, i})
			}
			cur, start = mm[1], i+1
		}
	}
	if cur != "" {
		r.Spec = append(r.Spec, [3]any{cur, start, line})
	}
	sort.SliceStable(g.fnOut, func(i, j int) bool { return g.fnOut[i].key < g.fnOut[j].key })
	partial := g.partial()
	for _, f := range g.fnOut {
		if partial[f.name] {
			f.text = "#[verifier::exec_allows_no_decreases_clause]\n" + f.text
		}
		n := strings.Count(f.text, "\n")
		c := cs.fns[f.key]
		r.Funcs = append(r.Funcs, repFn{Key: f.key, Name: f.name, Mode: f.mode, Start: line, End: line + n, Error: g.errs[f.key], Spec: c != nil, NoTerm: partial[f.name] && f.mode != "trusted"})
		b.WriteString(f.text + "\n")
		line += n + 1
	}
	b.WriteString("}\nfn main() {}\n")
	r.Specs = sl
	for k := range g.inlined {
		r.Inlined = append(r.Inlined, k)
	}
	for k := range g.trustedHit {
		r.Std = append(r.Std, k)
	}
	for k := range g.assume {
		r.Assume = append(r.Assume, k)
	}
	sort.Strings(r.Inlined)
	sort.Strings(r.Std)
	sort.Strings(r.Assume)
	if err := os.WriteFile(*out, []byte(b.String()), 0o644); err != nil {
		fatal(err)
	}
	if *rep != "" {
		jb, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(*rep, jb, 0o644)
	}
	for k, e := range g.errs {
		fmt.Fprintf(os.Stderr, "go2verus: %s: %s\n", k, e)
	}
}

// partial are the functions whose termination isn't an obligation: a loop or a
// recursion without a decreases clause.
func (g *Gen) partial() map[string]bool {
	text := map[string]string{}
	for _, f := range g.fnOut {
		text[f.name] = f.text
	}
	calls := map[string][]string{}
	re := regexp.MustCompile(`\b([A-Za-z_][A-Za-z0-9_]*)\(`)
	for n, t := range text {
		// without the head, the name of the function is there
		if i := strings.Index(t, "\n{\n"); i > 0 {
			t = t[i:]
		}
		seen := map[string]bool{}
		for _, m := range re.FindAllStringSubmatch(t, -1) {
			if _, ok := text[m[1]]; ok && !seen[m[1]] {
				seen[m[1]] = true
				calls[n] = append(calls[n], m[1])
			}
		}
	}
	p := map[string]bool{}
	for _, f := range g.fnOut {
		if strings.Contains(f.text, "// no decreases") || f.mode == "trusted" {
			p[f.name] = true
			continue
		}
		if c := g.cs.fns[f.key]; c != nil && c.decreases != "" {
			continue
		}
		seen := map[string]bool{}
		var back func(n string) bool
		back = func(n string) bool {
			for _, k := range calls[n] {
				if k == f.name {
					return true
				}
				if !seen[k] {
					seen[k] = true
					if back(k) {
						return true
					}
				}
			}
			return false
		}
		p[f.name] = back(f.name)
	}
	return p
}
