package oracle

import "strings"


// Unescape is percent and plus decoding; a malformed escape is kept, with the
// two symbols after it.
func Unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '+':
			b.WriteByte(' ')
		case s[i] == '%' && i+2 < len(s):
			h, l := digit(s[i+1]), digit(s[i+2])
			if h < 0 || l < 0 {
				b.WriteString(s[i : i+3])
			} else {
				b.WriteByte(byte(h<<4 | l))
			}
			i += 2
		case s[i] == '%':
			b.WriteString(s[i:])
			return b.String()
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func digit(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}
