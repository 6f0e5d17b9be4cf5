package oracle

import (
	"math/rand"
	"strings"
	"unicode/utf8"
)

// Atoms are the pieces random globs are made of.
var Atoms = []string{
	"a", "b", "ab", "*", "*", "?", "я", "[ab]", "[a]", "[b-z]", "[ая]", "{a,b}", "{a,ab}", "{,b}", "{a*,b}", "{?b,ba}",
	"{,a?}", "{a}", "{[ab]c,b}", "{ab,c}", "{*a,*b}", "{*,a}", "[]", "{}", "{a*}", "{[ab]}", "{[]}", "{[],b}", "{?}", "{*}",
	"{**,a}", "{a?c,b*}", "{-,a}", "[a-]", "[-a]", "[a-c-e]", "[я-я]", "[а-я]", "[а-вя]", "{,,a}", "{a,}", "{a,a,b}",
	"{яa,я}", "b*", "*b", "??", "c", "{ab*,a}", "{a[bc]*,c}", "{*a?,b}", "[ab-dф]", "{a,b,c,abc}", "{abc,ab,я,яя}", "*?", "?*", "{aa,a}", "{a,b}{a,c}",
	"{я?,b}", "[!a]", "[a-z0-9]", "{b?,c?}", "{b*c,a*c}", "世", "[世a]", "{世,a}", "-", "{a[b-c],ab}", "[a\u07ff\u0800]", "{[\uffff\U00010000],b}",
}

// Symbols are the pieces subject strings are made of.
var Symbols = []string{"a", "b", "c", "я", "a", "b", "-", "е", "世", "z", "\U0001F600"}

// Bad are pieces which are not UTF-8.
var Bad = []string{"\xd1", "\x8f", "\xff", "\xe4\xb8", "\xd1\xd1"}

// Glob is a random glob of up to n atoms.
func Glob(r *rand.Rand, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		switch r.Intn(14) {
		case 0:
			b.WriteString(List(r))
		case 1:
			b.WriteString(RandClass(r))
		case 2:
			b.WriteString(Literal(r, 6))
		case 3:
			b.WriteString(strings.Repeat("?", 1+r.Intn(6)))
		default:
			b.WriteString(Atoms[r.Intn(len(Atoms))])
		}
	}
	return b.String()
}

var meta = []string{"[*]", "[?]", "[*a]", "[{]", "{a[*],a*}", "{a[*],a?}", "{[*],b}", "{*b,[*]b}", "{[?]a,?a}", "[{-}]", "{a[*]b,a*b}", "[?-a]", "{[*?],b?}", "[,]"}

// MetaGlob is a random glob with classes of glob symbols.
func MetaGlob(r *rand.Rand, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		if r.Intn(2) == 0 {
			b.WriteString(meta[r.Intn(len(meta))])
		} else {
			b.WriteString(Atoms[r.Intn(len(Atoms))])
		}
	}
	return b.String()
}

// Literal is a random text of up to n symbols.
func Literal(r *rand.Rand, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		b.WriteString(Symbols[r.Intn(len(Symbols))])
	}
	return b.String()
}

// List is a random list of up to 8 values, empty and repeated ones too.
func List(r *rand.Rand) string {
	var vals []string
	wild := r.Intn(2) == 0
	for k := 1 + r.Intn(8); k > 0; k-- {
		var v strings.Builder
		for j := r.Intn(4); j > 0; j-- {
			switch n := r.Intn(8); {
			case n == 0 && wild:
				v.WriteByte('*')
			case n == 1 && wild:
				v.WriteByte('?')
			case n == 2 && wild:
				v.WriteString(RandClass(r))
			default:
				v.WriteString(Symbols[r.Intn(len(Symbols))])
			}
		}
		vals = append(vals, v.String())
	}
	return "{" + strings.Join(vals, ",") + "}"
}

var classSyms = []rune("abcdghyz09_яабвё世你\U0001F600\U0001F603")

// RandClass is a random class of up to 7 symbols and ranges.
func RandClass(r *rand.Rand) string {
	var b strings.Builder
	b.WriteByte('[')
	for k := 1 + r.Intn(7); k > 0; k-- {
		c := classSyms[r.Intn(len(classSyms))]
		b.WriteRune(c)
		if r.Intn(3) == 0 {
			d := c + rune(r.Intn(6))
			if utf8.RuneLen(d) == utf8.RuneLen(c) && d != utf8.RuneError && !strings.ContainsRune("[]{}*?,-", d) {
				b.WriteByte('-')
				b.WriteRune(d)
			}
		}
	}
	b.WriteByte(']')
	return b.String()
}

// Variant is the glob with the values of its lists and the symbols of its
// simple classes in another order, some of them repeated.
func Variant(r *rand.Rand, g string) string {
	var b strings.Builder
	for g != "" {
		switch g[0] {
		case '{':
			if i := strings.IndexByte(g, '}'); i > 0 {
				vals := strings.Split(g[1:i], ",")
				r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
				if r.Intn(3) == 0 {
					vals = append(vals, vals[r.Intn(len(vals))])
				}
				b.WriteString("{" + strings.Join(vals, ",") + "}")
				g = g[i+1:]
				continue
			}
		case '[':
			if i := strings.IndexByte(g, ']'); i > 0 && !strings.Contains(g[:i], "-") && utf8.ValidString(g[:i]) {
				cs := []rune(g[1:i])
				r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
				b.WriteString("[" + string(cs) + "]")
				g = g[i+1:]
				continue
			}
		case '*':
			if r.Intn(4) == 0 {
				b.WriteByte('*')
			}
		}
		b.WriteByte(g[0])
		g = g[1:]
	}
	return b.String()
}

var raw = []string{"[", "]", "{", "}", ",", "*", "?", "-", "a", "b", "c", "я", "в"}

// Raw is a random string over the glob symbols, mostly malformed.
func Raw(r *rand.Rand, n int) string {
	var b strings.Builder
	for k := 1 + r.Intn(n); k > 0; k-- {
		b.WriteString(raw[r.Intn(len(raw))])
	}
	return b.String()
}

// Subject is a random string, one which the glob is likely to match half of the times.
func Subject(r *rand.Rand, es []El) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		n := 8
		if r.Intn(12) == 0 {
			n = 40
		}
		for k := r.Intn(n); k > 0; k-- {
			if r.Intn(40) == 0 {
				b.WriteString(Bad[r.Intn(len(Bad))])
			} else {
				b.WriteString(Symbols[r.Intn(len(Symbols))])
			}
		}
		return b.String()
	}
	Instance(r, es, &b)
	s := b.String()
	if r.Intn(3) == 0 && s != "" {
		// one symbol changed
		i := r.Intn(len(s))
		for i > 0 && !utf8.RuneStart(s[i]) {
			i--
		}
		_, n := utf8.DecodeRuneInString(s[i:])
		switch r.Intn(4) {
		case 0:
			s = s[:i] + s[i+n:]
		case 1:
			s = s[:i] + Symbols[r.Intn(len(Symbols))] + s[i:]
		case 2:
			s = s[:i] + Symbols[r.Intn(len(Symbols))] + s[i+n:]
		default:
			s += Symbols[r.Intn(len(Symbols))]
		}
	}
	return s
}

// Instance writes a string the elements match.
func Instance(r *rand.Rand, es []El, b *strings.Builder) {
	for _, e := range es {
		switch e.K {
		case 'l':
			b.WriteString(e.S)
		case '?':
			b.WriteString(Symbols[r.Intn(len(Symbols))])
		case '*':
			n := 4
			if r.Intn(10) == 0 {
				n = 20
			}
			for k := r.Intn(n); k > 0; k-- {
				b.WriteString(Symbols[r.Intn(len(Symbols))])
			}
		case '[':
			x := e.Set[r.Intn(len(e.Set))]
			b.WriteRune(x[0] + rune(r.Intn(int(x[1]-x[0])+1)))
		case '{':
			Instance(r, e.Alts[r.Intn(len(e.Alts))], b)
		}
	}
}
