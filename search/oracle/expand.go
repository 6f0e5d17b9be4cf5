package oracle

import (
	"math/big"
	"sort"
	"strings"
	"unicode/utf8"
)

// Part is a part of a shell expression: fixed text, or alternatives with the text they stand for.
type Part struct {
	Text string
	Alts []string
}

// Expression splits to fixed and expandable parts. All after a wildcard or
// after a bracket without its pair is fixed.
func Expression(in string) []Part {
	var out []Part
	for in != "" {
		i := strings.IndexAny(in, "{}[]*?")
		if i < 0 {
			i = len(in)
		}
		if i > 0 {
			out = append(out, Part{Text: in[:i]})
			in = in[i:]
			continue
		}
		j := strings.IndexAny(in[1:], "{}[]*?") + 1
		if in[0] == '{' && j > 0 && in[j] == '}' {
			body := in[1:j]
			if strings.Contains(body, ",") {
				out = append(out, Part{in[:j+1], strings.Split(body, ",")})
			} else {
				out = append(out, Part{Text: body})
			}
		} else if in[0] == '[' && j > 0 && in[j] == ']' {
			body := in[1:j]
			if set, ok := Class(body); len(body) < 2 {
				out = append(out, Part{Text: body})
			} else if !ok {
				out = append(out, Part{Text: in[:j+1]})
			} else {
				m := map[rune]bool{}
				for _, x := range set {
					for c := x[0]; c <= x[1]; c++ {
						m[c] = true
					}
				}
				var cs []rune
				for c := range m {
					cs = append(cs, c)
				}
				sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
				p := Part{Text: in[:j+1]}
				for _, c := range cs {
					p.Alts = append(p.Alts, string(utf8.AppendRune(nil, c)))
				}
				if len(cs) == 0 {
					p.Text = ""
				}
				out = append(out, p)
			}
		} else {
			return append(out, Part{Text: in})
		}
		in = in[j+1:]
	}
	return out
}

// Expand is the product of the alternatives, the first part changing slowest.
// With max > 0 parts are expanded while the product of the counts is up to
// max, with depth > 0 while there are fewer dots in the fixed text before,
// with first only to their first alternative.
func Expand(ps []Part, max, depth int, first bool) []string {
	out := []string{""}
	n, dots := big.NewInt(1), 0
	stop := max == 0
	for _, p := range ps {
		alts := p.Alts
		if len(alts) > 0 {
			n.Mul(n, big.NewInt(int64(len(alts))))
			if max > 0 && n.Cmp(big.NewInt(int64(max))) > 0 {
				stop = true
			}
		} else {
			dots += strings.Count(p.Text, ".")
			if depth > 0 && dots >= depth {
				stop = true
			}
		}
		if stop || len(alts) == 0 {
			alts = []string{p.Text}
		} else if first {
			alts = alts[:1]
		}
		var next []string
		for _, o := range out {
			for _, a := range alts {
				next = append(next, o+a)
			}
		}
		out = next
	}
	return out
}

// Count is how many strings the expression expands to, up to 1<<40.
func Count(ps []Part) int {
	n := 1
	for _, p := range ps {
		if len(p.Alts) > 0 {
			n *= len(p.Alts)
		}
		if n > 1<<40 {
			return 1 << 40
		}
	}
	return n
}
