package parser

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// A reference tokenizer, written from the lexical rules alone and sharing no
// code with the lexer under test.

const (
	vWord   = 'w' // unquoted identifier or keyword
	vQuoted = 'q' // quoted identifier, quotes included in text
	vString = 's' // string literal, quotes included in text
	vNumber = 'n'
	vOp     = 'o'
)

type vTok struct {
	kind byte
	text string
	pos  int
}

func vIsDigit(c byte) bool { return c >= '0' && c <= '9' }

func vIsWordStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

func vIsWordPart(c byte) bool { return vIsWordStart(c) || vIsDigit(c) }

func vIsHex(c byte) bool {
	return vIsDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// vSkip returns the offset of the next token, or -1 in an unclosed comment.
func vSkip(s string, i int) int {
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			i += 2
			for {
				if i+1 >= len(s) {
					return -1
				}
				if s[i] == '*' && s[i+1] == '/' {
					break
				}
				i++
			}
			i += 2
		case c >= utf8.RuneSelf:
			r, n := utf8.DecodeRuneInString(s[i:])
			if !unicode.IsSpace(r) {
				return i
			}
			i += n
		default:
			return i
		}
	}
	return i
}

// vNumberEnd returns the end of the number at i, or -1 if it is malformed. A
// number after a dot has no fraction: it is one, or names a tuple element.
func vNumberEnd(s string, i int, afterDot bool) int {
	if s[i] == '0' && i+1 < len(s) && s[i+1] == 'x' {
		i += 2
		n := 0
		for i < len(s) && vIsHex(s[i]) {
			i++
			n++
		}
		if n == 0 || i < len(s) && (vIsWordPart(s[i]) || s[i] == '.') {
			return -1
		}
		return i
	}
	for i < len(s) && vIsDigit(s[i]) {
		i++
	}
	if !afterDot && i < len(s) && s[i] == '.' {
		i++
		for i < len(s) && vIsDigit(s[i]) {
			i++
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		n := 0
		for i < len(s) && vIsDigit(s[i]) {
			i++
			n++
		}
		if n == 0 {
			return -1
		}
	}
	if i < len(s) && (vIsWordPart(s[i]) || !afterDot && s[i] == '.') {
		return -1
	}
	return i
}

// vTokens tokenizes s. The sign of a number is a token of its own. It returns
// the offset of the first lexical error, or -1.
func vTokens(s string) (out []vTok, bad int) {
	i := 0
	for {
		j := vSkip(s, i)
		if j < 0 {
			return out, i
		}
		i = j
		if i >= len(s) {
			return out, -1
		}
		c := s[i]
		j = i + 1
		kind := byte(vOp)
		switch {
		case vIsWordStart(c):
			kind = vWord
			for j < len(s) && vIsWordPart(s[j]) {
				j++
			}
		case vIsDigit(c):
			kind = vNumber
			j = vNumberEnd(s, i, len(out) > 0 && vOpIs(out[len(out)-1], "."))
			if j < 0 {
				return out, i
			}
		case c == '\'' || c == '`' || c == '"':
			kind = vQuoted
			if c == '\'' {
				kind = vString
			}
			for {
				if j >= len(s) {
					return out, i
				}
				if s[j] == '\\' {
					j += 2
					continue
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			j++
		case c >= utf8.RuneSelf:
			return out, i
		default:
			if j < len(s) {
				d := s[j]
				if c == '|' && d == '|' || c == '<' && d == '>' || c == '-' && d == '>' || c == ':' && d == ':' ||
					d == '=' && (c == '=' || c == '<' || c == '>' || c == '!') {
					j++
				}
			}
		}
		out = append(out, vTok{kind, s[i:j], i})
		i = j
	}
}

func vWordIs(t vTok, w string) bool {
	return t.kind == vWord && len(t.text) == len(w) && strings.EqualFold(t.text, w)
}

func vOpIs(t vTok, w string) bool { return t.kind == vOp && t.text == w }

// vSameTok compares two tokens; words may differ in letter case.
func vSameTok(a, b vTok) bool {
	if a.kind != b.kind || len(a.text) != len(b.text) {
		return false
	}
	if a.text == b.text {
		return true
	}
	return a.kind == vWord && strings.EqualFold(a.text, b.text)
}

// vTrim drops trailing blanks, the padding of a choice at the end.
func vTrim(s string) string {
	n := len(s)
	for n > 0 && s[n-1] == ' ' {
		n--
	}
	return s[:n]
}
