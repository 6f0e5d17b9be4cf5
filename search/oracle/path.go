package oracle

import (
	"math/rand"
	"strings"
)

// Parts are the parts of a dotted path (one dot at the end is ignored); false
// for an empty path and for one with an empty part.
func Parts(p string) ([]string, bool) {
	if p == "" {
		return nil, false
	}
	ps := strings.Split(strings.TrimSuffix(p, "."), ".")
	for _, v := range ps {
		if v == "" {
			return ps, false
		}
	}
	return ps, true
}

// ParseDotted parses a dotted glob, part by part.
func ParseDotted(s string) ([][]El, bool) {
	if s == "" {
		return nil, true
	}
	ps, ok := Parts(s)
	if !ok {
		return nil, false
	}
	var out [][]El
	for _, p := range ps {
		es, ok := Parse(p)
		if !ok {
			return nil, false
		}
		out = append(out, es)
	}
	return out, true
}

// MatchDotted reports that the path has as many parts and each one is matched.
func MatchDotted(g [][]El, path string) bool {
	ps, ok := Parts(path)
	if !ok || len(ps) != len(g) {
		return false
	}
	for i, p := range ps {
		if !Match(g[i], p) {
			return false
		}
	}
	return true
}

// DottedGlob is a random dotted glob of up to n parts.
func DottedGlob(r *rand.Rand, n int) string {
	var ps []string
	if r.Intn(12) == 0 {
		n = 14
	}
	for k := 1 + r.Intn(n); k > 0; k-- {
		ps = append(ps, Glob(r, 1+r.Intn(3)))
	}
	s := strings.Join(ps, ".")
	if r.Intn(10) == 0 {
		s += "."
	}
	return s
}

// DottedSubject is a random dotted path, often one the glob matches.
func DottedSubject(r *rand.Rand, g [][]El) string {
	var ps []string
	n := len(g)
	if r.Intn(8) == 0 {
		n += r.Intn(3) - 1
	}
	for i := 0; i < n; i++ {
		var es []El
		if i < len(g) {
			es = g[i]
		}
		if r.Intn(3) > 0 {
			var b strings.Builder
			Instance(r, es, &b)
			ps = append(ps, b.String())
		} else {
			ps = append(ps, Subject(r, es))
		}
	}
	s := strings.Join(ps, ".")
	switch r.Intn(10) {
	case 0:
		s += "."
	case 1:
		s = "." + s
	case 2:
		s += ".."
	}
	return s
}
