package main

import (
	"fmt"
	"strings"
)

// Independent SQL tokenizer used by the oracles (never shares code with the repository).

type Dialect int

const (
	PG Dialect = iota
	CR
	MY
	SP
)

var allDialects = func() []Dialect {
	all := []Dialect{PG, CR, MY, SP}
	for _, d := range all {
		if d.String() == envOr("VERIF_DIALECT", "") { // development
			return []Dialect{d}
		}
	}
	return all
}()

func (d Dialect) String() string {
	return [...]string{"postgres", "cockroachdb", "mysql", "spanner"}[d]
}

// Tok kinds: 'w' word or number, 'q' quoted identifier, 's' string literal, 'o' operator or punctuation.
type Tok struct {
	K   byte
	S   string // content: word text, unescaped quoted content, operator text
	Q   byte   // quote character for q/s
	P   string // string prefix (E, b, ...) upper-cased
	Raw string
}

func isWordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c >= 0x80
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

var sqlOps = []string{"!~~*", "->>", ":::", "#>>", "!~*", "!~~", "~~*", "-|-", "<->", "<=>", "->", "::", "||", "<=", ">=", "<>", "!=", "&&", "@>", "<@", "#>", "?|", "?&", "!~", "~*", "<<", ">>", ":=", "=>", "~~", "#-", "@@", "&<", "&>"}

// lexSQL tokenizes text; comments and white space are dropped.
func lexSQL(src string, d Dialect) ([]Tok, error) {
	var out []Tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(src) && src[i+1] == '-' && (d != MY || i+2 >= len(src) || src[i+2] <= ' '):
			// MySQL wants white space after the two dashes
			// PostgreSQL and Spanner end a comment at a carriage return, too
			for i < len(src) && src[i] != '\n' && !(src[i] == '\r' && (d == PG || d == SP)) {
				i++
			}
		case c == '\'' || c == '"' || (c == '`' && (d == MY || d == SP)):
			content, n, err := scanQuoted(src[i:], d, false)
			if err != nil {
				return out, err
			}
			k := byte('q')
			if c == '\'' || (c == '"' && (d == MY || d == SP)) {
				k = 's'
			}
			out = append(out, Tok{K: k, S: content, Q: c, Raw: src[i : i+n]})
			i += n
		case isWordByte(c):
			j := i
			for j < len(src) && isWordByte(src[j]) {
				j++
			}
			w := src[i:j]
			// exponent
			if (isDigit(w[0]) || w[0] == '.') && (w[len(w)-1] == 'e' || w[len(w)-1] == 'E') && j+1 < len(src) && (src[j] == '-' || src[j] == '+') && isDigit(src[j+1]) && !strings.HasPrefix(w, "0x") {
				j++
				for j < len(src) && isDigit(src[j]) {
					j++
				}
				out = append(out, Tok{K: 'w', S: src[i:j], Raw: src[i:j]})
				i = j
				continue
			}
			if j < len(src) && (src[j] == '\'' || src[j] == '"' && d == SP) && isStringPrefix(w, d) {
				content, n, err := scanQuoted(src[j:], d, d == PG && strings.EqualFold(w, "e") || d == CR && !strings.EqualFold(w, "x"))
				if err != nil {
					return out, err
				}
				out = append(out, Tok{K: 's', S: content, Q: src[j], P: strings.ToUpper(w), Raw: src[i : j+n]})
				i = j + n
				continue
			}
			out = append(out, Tok{K: 'w', S: w, Raw: w})
			i = j
		default:
			matched := ""
			for _, op := range sqlOps {
				if strings.HasPrefix(src[i:], op) {
					matched = op
					break
				}
			}
			if matched == "" {
				matched = src[i : i+1]
			}
			out = append(out, Tok{K: 'o', S: matched, Raw: matched})
			i += len(matched)
		}
	}
	return out, nil
}

func isStringPrefix(w string, d Dialect) bool {
	switch strings.ToUpper(w) {
	case "E":
		return d == PG || d == CR
	case "B", "X":
		return true
	case "N":
		return d == MY || d == PG
	case "R", "RB", "BR":
		return d == SP
	}
	return false
}

// scanQuoted reads a quoted text; esc: with escapes where the dialect has none by default.
func scanQuoted(s string, d Dialect, esc bool) (content string, n int, err error) {
	q := s[0]
	var b strings.Builder
	i := 1
	for i < len(s) {
		c := s[i]
		if c == '\\' && (esc || d == MY && q != '`' || d == SP) && i+1 < len(s) {
			b.WriteByte(c)
			b.WriteByte(s[i+1])
			i += 2
			continue
		}
		if c == q {
			if i+1 < len(s) && s[i+1] == q && d != SP {
				b.WriteByte(q)
				i += 2
				continue
			}
			return b.String(), i + 1, nil
		}
		b.WriteByte(c)
		i++
	}
	return "", 0, fmt.Errorf("unterminated %c literal", q)
}

// canonTok renders a token in a canonical, comparable form. Unquoted words are
// folded to upper case; quoted identifiers and strings keep their content.
func canonTok(t Tok) string {
	switch t.K {
	case 'w':
		return strings.ToUpper(t.S)
	case 'q':
		return "\"" + strings.ReplaceAll(t.S, "\"", "\"\"") + "\""
	case 's':
		return t.P + "'" + strings.ReplaceAll(t.S, "'", "''") + "'"
	}
	return t.S
}

func canonToks(ts []Tok) string {
	p := make([]string, len(ts))
	for i, t := range ts {
		p[i] = canonTok(t)
	}
	return strings.Join(p, " ")
}

func mustLex(s string, d Dialect) []Tok {
	t, err := lexSQL(s, d)
	if err != nil {
		panic(fmt.Sprintf("harness: lex %q: %v", s, err))
	}
	return t
}
