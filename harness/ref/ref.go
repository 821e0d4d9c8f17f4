// Package ref is an independent reference tokenizer for ClickHouse SQL, written
// from the ClickHouse lexical rules and not from the lexer under test. The
// monitors use it to decide what a text says without asking the code they watch.
package ref

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind int

const (
	Word   Kind = iota // unquoted identifier or keyword
	Quoted             // `...` or "..."
	String             // '...'
	Number
	Op
)

type Tok struct {
	Kind       Kind
	Text       string // raw source text, quotes included
	Start, End int
}

func (t Tok) Upper() string { return strings.ToUpper(t.Text) }

// Is reports whether the token is the given word (any case) or operator.
func (t Tok) Is(s string) bool {
	switch t.Kind {
	case Word:
		return strings.EqualFold(t.Text, s)
	case Op:
		return t.Text == s
	}
	return false
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isWordStart(c byte) bool {
	return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isWord(c byte) bool { return isWordStart(c) || isDigit(c) }

// Lex splits src into tokens. Whitespace and comments are dropped. An error
// means that the text has no token reading at all (an open quote, an open
// comment, a malformed number, a stray byte).
func Lex(src string) ([]Tok, error) {
	var out []Tok
	i, n := 0, len(src)
	for i < n {
		c := src[i]
		// whitespace
		if r, sz := utf8.DecodeRuneInString(src[i:]); unicode.IsSpace(r) {
			i += sz
			continue
		}
		// comments
		if c == '-' && i+1 < n && src[i+1] == '-' {
			for i < n && src[i] != '\n' && src[i] != '\r' {
				i++
			}
			continue
		}
		if c == '/' && i+1 < n && src[i+1] == '*' {
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return out, fmt.Errorf("open comment at %d", i)
			}
			i += 2 + j + 2
			continue
		}
		st := i
		switch {
		case c == '\'':
			j := i + 1
			for {
				if j >= n {
					return out, fmt.Errorf("open string at %d", i)
				}
				if src[j] == '\\' {
					j += 2
					continue
				}
				if src[j] == '\'' {
					if j+1 < n && src[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			i = j + 1
			out = append(out, Tok{String, src[st:i], st, i})
		case c == '`' || c == '"':
			j := i + 1
			for {
				if j >= n {
					return out, fmt.Errorf("open quoted identifier at %d", i)
				}
				if src[j] == '\\' {
					j += 2
					continue
				}
				if src[j] == c {
					if j+1 < n && src[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			i = j + 1
			out = append(out, Tok{Quoted, src[st:i], st, i})
		case isDigit(c):
			j := i
			k := len(out) - 1
			if k > 0 && out[k].Kind == Op && (out[k].Text == "-" || out[k].Text == "+") && out[k].End == i {
				k-- // a sign that belongs to the number
			}
			if k >= 0 && out[k].Kind == Op && out[k].Text == "." {
				// behind a dot: a tuple index, digits only
				for j < n && isDigit(src[j]) {
					j++
				}
				if j < n && isWord(src[j]) {
					return out, fmt.Errorf("malformed number at %d", i)
				}
				i = j
				out = append(out, Tok{Number, src[st:i], st, i})
				break
			}
			if c == '0' && j+1 < n && src[j+1] == 'x' {
				j += 2
				k := j
				for j < n && isHex(src[j]) {
					j++
				}
				if j == k {
					return out, fmt.Errorf("empty hex literal at %d", i)
				}
			} else {
				for j < n && isDigit(src[j]) {
					j++
				}
				if j < n && src[j] == '.' {
					j++
					for j < n && isDigit(src[j]) {
						j++
					}
				}
				if j < n && (src[j] == 'e' || src[j] == 'E') {
					j++
					if j < n && (src[j] == '+' || src[j] == '-') {
						j++
					}
					k := j
					for j < n && isDigit(src[j]) {
						j++
					}
					if k == j {
						return out, fmt.Errorf("empty exponent at %d", i)
					}
				}
			}
			if j < n && (isWord(src[j]) || src[j] == '.') {
				return out, fmt.Errorf("malformed number at %d", i)
			}
			i = j
			out = append(out, Tok{Number, src[st:i], st, i})
		case isWordStart(c):
			j := i + 1
			for j < n && isWord(src[j]) {
				j++
			}
			i = j
			out = append(out, Tok{Word, src[st:i], st, i})
		case c >= utf8.RuneSelf:
			return out, fmt.Errorf("stray non-ASCII byte at %d", i)
		default:
			two := ""
			if i+1 < n {
				two = src[i : i+2]
			}
			switch two {
			case "||", "<>", "==", "!=", "<=", ">=", "->", "::":
				i += 2
			default:
				i++
			}
			out = append(out, Tok{Op, src[st:i], st, i})
		}
	}
	return out, nil
}

// Texts returns the raw texts of the tokens.
func Texts(toks []Tok) []string {
	out := make([]string, len(toks))
	for i, t := range toks {
		out[i] = t.Text
	}
	return out
}

// Balanced reports whether brackets nest properly.
func Balanced(toks []Tok) bool {
	var st []byte
	for _, t := range toks {
		if t.Kind != Op || len(t.Text) != 1 {
			continue
		}
		switch c := t.Text[0]; c {
		case '(', '[', '{':
			st = append(st, c)
		case ')', ']', '}':
			want := map[byte]byte{')': '(', ']': '[', '}': '{'}[c]
			if len(st) == 0 || st[len(st)-1] != want {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(st) == 0
}

// Segments splits the tokens at top-level semicolons and drops empty segments.
func Segments(toks []Tok) [][]Tok {
	var out [][]Tok
	st := 0
	for i := 0; i <= len(toks); i++ {
		if i == len(toks) || toks[i].Kind == Op && toks[i].Text == ";" {
			if i > st {
				out = append(out, toks[st:i])
			}
			st = i + 1
		}
	}
	return out
}
