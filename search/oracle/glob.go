// Package oracle holds the reference semantics the searches compare with,
// written from the documented language and not from the code.
package oracle

import (
	"strings"
	"unicode/utf8"
)

// El is one element of a glob.
type El struct {
	K    byte // 'l' literal, '?', '*', '[' class, '{' list
	S    string
	Set  [][2]rune
	Alts [][]El
}

// Parse parses a glob; false if it is malformed.
func Parse(s string) ([]El, bool) { return parse(s, false) }

func parse(s string, inlist bool) ([]El, bool) {
	var out []El
	for s != "" {
		switch s[0] {
		case '*', '?':
			out = append(out, El{K: s[0]})
			s = s[1:]
		case '[':
			i := strings.IndexByte(s, ']')
			if i < 0 {
				return nil, false
			}
			in := s[1:i]
			s = s[i+1:]
			set, ok := Class(in)
			if !ok {
				return nil, false
			}
			if len(set) > 0 {
				out = append(out, El{K: '[', Set: set})
			}
		case '{':
			if inlist {
				return nil, false
			}
			i := strings.IndexByte(s, '}')
			if i < 0 {
				return nil, false
			}
			in := s[1:i]
			s = s[i+1:]
			if in == "" {
				continue
			}
			e := El{K: '{'}
			for _, v := range strings.Split(in, ",") {
				a, ok := parse(v, true)
				if !ok {
					return nil, false
				}
				e.Alts = append(e.Alts, a)
			}
			out = append(out, e)
		case ']', '}':
			return nil, false
		default:
			i := strings.IndexAny(s, "[]{}*?")
			if i < 0 {
				i = len(s)
			}
			out = append(out, El{K: 'l', S: s[:i]})
			s = s[i:]
		}
	}
	return out, true
}

// Class is the set of a class body, as ranges; false for a range which goes
// backwards or joins symbols of different encoded length.
func Class(in string) (set [][2]rune, ok bool) {
	start := rune(-1)
	dash := false
	for _, c := range in {
		if c == '-' {
			dash = true
		} else if dash {
			dash = false
			if start < 0 {
				start = c
				continue
			}
			if start > c || utf8.RuneLen(start) != utf8.RuneLen(c) {
				return nil, false
			}
			set = append(set, [2]rune{start, c})
			start = -1
		} else {
			if start >= 0 {
				set = append(set, [2]rune{start, start})
			}
			start = c
		}
	}
	if start >= 0 {
		set = append(set, [2]rune{start, start})
	}
	return set, true
}

// Match reports that the elements match the whole string.
func Match(es []El, s string) bool { return match(es, s, func(s string) bool { return s == "" }) }

func match(es []El, s string, k func(string) bool) bool {
	if len(es) == 0 {
		return k(s)
	}
	e := es[0]
	switch e.K {
	case 'l':
		return strings.HasPrefix(s, e.S) && match(es[1:], s[len(e.S):], k)
	case '?':
		_, n := utf8.DecodeRuneInString(s)
		return n > 0 && match(es[1:], s[n:], k)
	case '*':
		for {
			if match(es[1:], s, k) {
				return true
			}
			_, n := utf8.DecodeRuneInString(s)
			if n == 0 {
				return false
			}
			s = s[n:]
		}
	case '[':
		c, n := utf8.DecodeRuneInString(s)
		if n == 0 || c == utf8.RuneError {
			return false
		}
		for _, r := range e.Set {
			if c >= r[0] && c <= r[1] {
				return match(es[1:], s[n:], k)
			}
		}
		return false
	case '{':
		for _, a := range e.Alts {
			if match(a, s, func(s string) bool { return match(es[1:], s, k) }) {
				return true
			}
		}
		return false
	}
	panic("element")
}

// HasWild reports a glob with at least one wildcard symbol.
func HasWild(s string) bool { return strings.ContainsAny(s, "[]{}*?") }
