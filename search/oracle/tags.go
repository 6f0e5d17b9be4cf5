package oracle

import (
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// Term is a term of a seriesByTag expression: Op is =, =~, != or !=~.
type Term struct{ Key, Op, Value string }

// Accepts reports that the value satisfies the comparison of the term.
func (t Term) Accepts(v string) bool {
	var in bool
	if strings.HasSuffix(t.Op, "~") {
		in = regexp.MustCompile(t.Value).MatchString(v)
	} else if HasWild(t.Value) {
		es, _ := Parse(t.Value)
		in = Match(es, v)
	} else {
		in = t.Value == v
	}
	return in == (t.Op[0] == '=')
}

// Satisfied reports that every term is: a tag which is absent satisfies only a negative term.
func Satisfied(ts []Term, tags map[string]string) bool {
	for _, t := range ts {
		v, ok := tags[t.Key]
		if !ok && t.Op[0] == '=' || ok && !t.Accepts(v) {
			return false
		}
	}
	return true
}

var ops = map[string]int{"=": 1, "=~": 2, "!=": 3, "!=~": 4}

// Conditions parses the arguments of seriesByTag; false if one is malformed.
func Conditions(args []string) ([]Term, bool) {
	var ts []Term
	for _, a := range args {
		i := strings.IndexAny(a, "=~!")
		if i < 1 {
			return nil, false
		}
		t := Term{Key: strings.TrimSpace(a[:i])}
		if t.Key == "" {
			return nil, false
		}
		if t.Key == "name" {
			t.Key = "__name__"
		}
		a = a[i:]
		for _, op := range []string{"!=~", "=~", "!=", "="} {
			if strings.HasPrefix(a, op) {
				t.Op = op
				break
			}
		}
		if t.Op == "" {
			return nil, false
		}
		t.Value = strings.TrimSpace(a[len(t.Op):])
		if strings.HasSuffix(t.Op, "~") {
			if _, err := regexp.Compile(t.Value); err != nil {
				return nil, false
			}
		} else if HasWild(t.Value) {
			if _, ok := Parse(t.Value); !ok {
				return nil, false
			}
		}
		ts = append(ts, t)
	}
	return ts, true
}

// Args splits the call to its quoted arguments, empty ones dropped; false if it is malformed.
func Args(q string) ([]string, bool) {
	q = strings.Trim(q, " ")
	if !strings.HasPrefix(q, "seriesByTag(") || !strings.HasSuffix(q, ")") {
		return nil, false
	}
	q = q[len("seriesByTag(") : len(q)-1]
	var args []string
	for q != "" {
		switch c := q[0]; c {
		case ' ', ',':
			q = q[1:]
		case '\'', '"':
			i := strings.IndexByte(q[1:], c)
			if i < 0 {
				return nil, false
			}
			if i > 0 {
				if len(args) == 128 {
					return nil, false
				}
				args = append(args, q[1:i+1])
			}
			q = q[i+2:]
		default:
			return nil, false
		}
	}
	return args, true
}

// Query parses a seriesByTag call.
func Query(q string) ([]Term, bool) {
	args, ok := Args(q)
	if !ok {
		return nil, false
	}
	return Conditions(args)
}

// KeyLess is the order of the keys: __name__ first.
func KeyLess(a, b string) bool {
	if a == b || b == "__name__" {
		return false
	}
	return a == "__name__" || a < b
}

// SortTerms sorts by key, operation and value.
func SortTerms(ts []Term) {
	sort.SliceStable(ts, func(i, j int) bool {
		a, b := ts[i], ts[j]
		if a.Key != b.Key {
			return KeyLess(a.Key, b.Key)
		}
		if a.Op != b.Op {
			return ops[a.Op] < ops[b.Op]
		}
		return a.Value < b.Value
	})
}

var keys = []string{"name", "__name__", "a", "b", "c", "dc", "A", "app", "host", "z", "zz", "_", "env", "project", "ключ", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}
var tagVals = []string{"", "a", "b", "ab", "abc", "b*", "*", "?", "{a,b}", "[ab]", "a{,b}c", "x", "ba", "я", "a.b", "[a]", "{a}"}
var reVals = []string{"", "a", "^a$", "a|b", "^a.*", ".", "b$", "^$", "[ab]", "(a|b)c", ".*", "^я"}

// RandTerm is a random correct condition.
func RandTerm(r *rand.Rand, few bool) string {
	n := len(keys)
	if few {
		n = 7
	}
	k := keys[r.Intn(n)]
	if !few && r.Intn(4) == 0 {
		k = string("abcdefghijklmnopqrstuvw"[r.Intn(23)])
	}
	switch r.Intn(4) {
	case 0:
		return k + "=~" + reVals[r.Intn(len(reVals))]
	case 1:
		return k + "!=~" + reVals[r.Intn(len(reVals))]
	case 2:
		return k + "!=" + tagVals[r.Intn(len(tagVals))]
	}
	return k + "=" + tagVals[r.Intn(len(tagVals))]
}

// RandQuery is a random correct seriesByTag call of up to n terms.
func RandQuery(r *rand.Rand, n int, few bool) string {
	var ts []string
	for k := r.Intn(n + 1); k > 0; k-- {
		ts = append(ts, "'"+RandTerm(r, few)+"'")
	}
	return "seriesByTag(" + strings.Join(ts, []string{",", ", ", " "}[r.Intn(3)]) + ")"
}

// RandTags is a random set of tags for the terms: keys of the terms, sometimes others, sometimes missing.
func RandTags(r *rand.Rand, ts []Term) map[string]string {
	m := map[string]string{}
	for _, t := range ts {
		if r.Intn(5) == 0 {
			continue
		}
		switch {
		case r.Intn(3) == 0:
			m[t.Key] = []string{"", "a", "b", "ab", "abc", "ac", "ba", "bb", "я", "x", "c"}[r.Intn(11)]
		case !strings.HasSuffix(t.Op, "~"):
			if es, ok := Parse(t.Value); ok {
				var b strings.Builder
				Instance(r, es, &b)
				m[t.Key] = b.String()
			}
		default:
			m[t.Key] = []string{"a", "b", "ab", "ac"}[r.Intn(4)]
		}
	}
	n := 4
	if r.Intn(5) == 0 {
		n = 30
	}
	for k := r.Intn(n); k > 0; k-- {
		if r.Intn(2) == 0 {
			m[string("abcdefghijklmnopqrstuvw"[r.Intn(23)])] = "b"
		}
		m[strings.Replace(keys[r.Intn(len(keys))], "name", "x", 1)] = "a"
	}
	if r.Intn(4) > 0 {
		if _, ok := m["__name__"]; !ok {
			m["__name__"] = "a"
		}
	}
	return m
}

// SortedKeys are the keys of the tags in the order of tagged paths.
func SortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return KeyLess(ks[i], ks[j]) })
	return ks
}
