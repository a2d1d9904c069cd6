package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

// A small SQL reader for what recovery prints: REPLACE and UPDATE statements,
// read the way a MySQL server (default sql_mode) reads them.

type Stmt struct {
	Kind  byte // R replace, U update
	DB    string
	Table string
	Cols  []string // column list of a REPLACE, if any
	Vals  []Lit
	Set   map[string]Lit
	Where map[string]Lit
	Raw   string
	At    int
}

type tok struct {
	k byte // i identifier/keyword, q quoted identifier, l literal, p punctuation, e end
	s string
	l Lit
}

type lexer struct {
	b string
	p int
}

func isWord(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (x *lexer) str(q byte) (string, error) {
	var out []byte
	x.p++
	for x.p < len(x.b) {
		c := x.b[x.p]
		switch {
		case c == q:
			if x.p+1 < len(x.b) && x.b[x.p+1] == q {
				out = append(out, q)
				x.p += 2
				continue
			}
			x.p++
			return string(out), nil
		case c == '\\' && q != '`':
			if x.p+1 >= len(x.b) {
				return "", fmt.Errorf("unterminated string")
			}
			d := x.b[x.p+1]
			switch d {
			case '0':
				out = append(out, 0)
			case 'b':
				out = append(out, 8)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'Z':
				out = append(out, 26)
			case '%', '_':
				out = append(out, '\\', d)
			default:
				out = append(out, d)
			}
			x.p += 2
			continue
		default:
			out = append(out, c)
			x.p++
		}
	}
	return "", fmt.Errorf("unterminated string")
}

func (x *lexer) next() (tok, error) {
	for x.p < len(x.b) && strings.IndexByte(" \t\r\n", x.b[x.p]) >= 0 {
		x.p++
	}
	if x.p >= len(x.b) {
		return tok{k: 'e'}, nil
	}
	c := x.b[x.p]
	peek := func() byte {
		if x.p+1 < len(x.b) {
			return x.b[x.p+1]
		}
		return 0
	}
	switch {
	case c == '`':
		s, err := x.str('`')
		return tok{k: 'q', s: s}, err
	case c == '\'' || c == '"':
		s, err := x.str(c)
		return tok{k: 'l', l: Lit{'s', s}}, err
	case (c == 'x' || c == 'X') && peek() == '\'':
		x.p++
		s, err := x.str('\'')
		if err != nil {
			return tok{}, err
		}
		b, err := hex.DecodeString(s)
		return tok{k: 'l', l: Lit{'x', string(b)}}, err
	case (c == 'b' || c == 'B') && peek() == '\'':
		x.p++
		s, err := x.str('\'')
		if strings.Trim(s, "01") != "" {
			return tok{}, fmt.Errorf("b'%s' is not a bit literal", s)
		}
		return tok{k: 'l', l: Lit{'b', s}}, err
	case c >= '0' && c <= '9' || (c == '-' || c == '+' || c == '.') && (peek() >= '0' && peek() <= '9' || peek() == '.'):
		i := x.p
		if c == '0' && (peek() == 'x' || peek() == 'b') {
			x.p += 2
			for x.p < len(x.b) && isWord(x.b[x.p]) {
				x.p++
			}
			s := x.b[i+2 : x.p]
			if x.b[i+1] == 'b' {
				if s == "" || strings.Trim(s, "01") != "" {
					return tok{}, fmt.Errorf("bad bit literal 0b%s", s)
				}
				return tok{k: 'l', l: Lit{'b', s}}, nil
			}
			if len(s)%2 == 1 {
				s = "0" + s
			}
			b, err := hex.DecodeString(s)
			if s == "" {
				err = fmt.Errorf("empty 0x literal")
			}
			return tok{k: 'l', l: Lit{'x', string(b)}}, err
		}
		x.p++
		for x.p < len(x.b) {
			d := x.b[x.p]
			if isWord(d) || d == '.' || (d == '+' || d == '-') && (x.b[x.p-1] == 'e' || x.b[x.p-1] == 'E') {
				x.p++
				continue
			}
			break
		}
		s := x.b[i:x.p]
		if strings.Trim(s, "0123456789.eE+-") != "" {
			return tok{}, fmt.Errorf("bad number %q", s)
		}
		return tok{k: 'l', l: Lit{'n', s}}, nil
	case isWord(c):
		i := x.p
		for x.p < len(x.b) && isWord(x.b[x.p]) {
			x.p++
		}
		s := x.b[i:x.p]
		if strings.EqualFold(s, "null") {
			return tok{k: 'l', l: Lit{'N', ""}}, nil
		}
		if s[0] == '_' { // character set introducer
			t, err := x.next()
			if err == nil && t.k == 'l' && (t.l.Kind == 's' || t.l.Kind == 'x') {
				return t, nil
			}
			return tok{}, fmt.Errorf("unexpected %q", s)
		}
		return tok{k: 'i', s: s}, nil
	}
	x.p++
	return tok{k: 'p', s: string(c)}, nil
}

type sqlParser struct {
	lexer
	t tok
}

func (p *sqlParser) adv() error {
	t, err := p.next()
	p.t = t
	return err
}

func (p *sqlParser) kw(s string) error {
	if p.t.k != 'i' || !strings.EqualFold(p.t.s, s) {
		return fmt.Errorf("expected %s", s)
	}
	return p.adv()
}

func (p *sqlParser) punct(s string) error {
	if p.t.k != 'p' || p.t.s != s {
		return fmt.Errorf("expected %q, found %q%s", s, p.t.s, p.t.l.S)
	}
	return p.adv()
}

func (p *sqlParser) isPunct(s string) bool { return p.t.k == 'p' && p.t.s == s }

func (p *sqlParser) ident() (string, error) {
	if p.t.k != 'q' && p.t.k != 'i' {
		return "", fmt.Errorf("expected a name")
	}
	s := p.t.s
	return s, p.adv()
}

func (p *sqlParser) lit() (Lit, error) {
	if p.t.k == 'i' && strings.EqualFold(p.t.s, "unhex") {
		if err := p.adv(); err != nil {
			return Lit{}, err
		}
		if err := p.punct("("); err != nil {
			return Lit{}, err
		}
		l := p.t.l
		if p.t.k != 'l' || l.Kind != 's' && l.Kind != 'N' {
			return Lit{}, fmt.Errorf("bad argument of unhex")
		}
		if err := p.adv(); err != nil {
			return Lit{}, err
		}
		if err := p.punct(")"); err != nil {
			return Lit{}, err
		}
		if l.Kind == 'N' {
			return l, nil
		}
		if len(l.S)%2 == 1 {
			l.S = "0" + l.S
		}
		b, err := hex.DecodeString(l.S)
		if err != nil { // the server gives NULL
			return Lit{'N', ""}, nil
		}
		return Lit{'x', string(b)}, nil
	}
	if p.t.k != 'l' {
		return Lit{}, fmt.Errorf("expected a literal, found %q", p.t.s)
	}
	l := p.t.l
	return l, p.adv()
}

func (p *sqlParser) target(s *Stmt) error {
	n, err := p.ident()
	if err != nil {
		return err
	}
	s.Table = n
	if p.isPunct(".") {
		if err := p.adv(); err != nil {
			return err
		}
		s.DB = n
		if s.Table, err = p.ident(); err != nil {
			return err
		}
	}
	return nil
}

func (p *sqlParser) stmt() (*Stmt, error) {
	s := &Stmt{}
	if p.t.k == 'i' && strings.EqualFold(p.t.s, "replace") {
		s.Kind = 'R'
		if err := p.adv(); err != nil {
			return nil, err
		}
		if p.t.k == 'i' && strings.EqualFold(p.t.s, "into") {
			if err := p.adv(); err != nil {
				return nil, err
			}
		}
		if err := p.target(s); err != nil {
			return nil, err
		}
		if p.isPunct("(") {
			if err := p.adv(); err != nil {
				return nil, err
			}
			for {
				c, err := p.ident()
				if err != nil {
					return nil, err
				}
				s.Cols = append(s.Cols, c)
				if p.isPunct(",") {
					if err := p.adv(); err != nil {
						return nil, err
					}
					continue
				}
				if err := p.punct(")"); err != nil {
					return nil, err
				}
				break
			}
		}
		if p.t.k == 'i' && strings.EqualFold(p.t.s, "value") {
			p.t.s = "values"
		}
		if err := p.kw("values"); err != nil {
			return nil, err
		}
		if err := p.punct("("); err != nil {
			return nil, err
		}
		for !p.isPunct(")") {
			l, err := p.lit()
			if err != nil {
				return nil, err
			}
			s.Vals = append(s.Vals, l)
			if p.isPunct(",") {
				if err := p.adv(); err != nil {
					return nil, err
				}
				if p.isPunct(")") {
					return nil, fmt.Errorf("value missing after comma")
				}
				continue
			}
			if !p.isPunct(")") {
				return nil, fmt.Errorf("expected , or ) after value %d, found %q%s", len(s.Vals), p.t.s, p.t.l.S)
			}
		}
		if err := p.adv(); err != nil {
			return nil, err
		}
	} else {
		s.Kind = 'U'
		if err := p.kw("update"); err != nil {
			return nil, err
		}
		if err := p.target(s); err != nil {
			return nil, err
		}
		if err := p.kw("set"); err != nil {
			return nil, err
		}
		s.Set, s.Where = map[string]Lit{}, map[string]Lit{}
		list := func(m map[string]Lit, where bool) error {
			for {
				n, err := p.ident()
				if err != nil {
					return err
				}
				if where && p.t.k == 'i' && strings.EqualFold(p.t.s, "is") {
					if err := p.adv(); err != nil {
						return err
					}
					if p.t.k != 'l' || p.t.l.Kind != 'N' {
						return fmt.Errorf("expected null after is")
					}
				} else if err := p.punct("="); err != nil {
					return err
				}
				l, err := p.lit()
				if err != nil {
					return err
				}
				if _, dup := m[n]; dup {
					return fmt.Errorf("column %s named twice", n)
				}
				m[n] = l
				if !where && p.isPunct(",") || where && p.t.k == 'i' && strings.EqualFold(p.t.s, "and") {
					if err := p.adv(); err != nil {
						return err
					}
					continue
				}
				return nil
			}
		}
		if err := list(s.Set, false); err != nil {
			return nil, err
		}
		if err := p.kw("where"); err != nil {
			return nil, err
		}
		if err := list(s.Where, true); err != nil {
			return nil, err
		}
	}
	if !p.isPunct(";") {
		return nil, fmt.Errorf("expected ; found %q%s", p.t.s, p.t.l.S)
	}
	return s, nil
}

type Output struct {
	Stmts []*Stmt
	Bad   []string // texts that begin like a statement but are none
	Junk  []string // other text on standard output
}

// parseOutput splits standard output into statements.
func parseOutput(b []byte) *Output {
	o := &Output{}
	s := string(b)
	at := 0
	for at < len(s) {
		if strings.IndexByte(" \t\r\n", s[at]) >= 0 {
			at++
			continue
		}
		low := strings.ToLower(s[at:min(len(s), at+8)])
		if !strings.HasPrefix(low, "replace ") && !strings.HasPrefix(low, "update ") {
			e := strings.IndexByte(s[at:], '\n')
			if e < 0 {
				e = len(s) - at
			}
			o.Junk = append(o.Junk, s[at:at+e])
			at += e
			continue
		}
		p := &sqlParser{lexer: lexer{b: s, p: at}}
		err := p.adv()
		var st *Stmt
		if err == nil {
			st, err = p.stmt()
		}
		if err != nil {
			e := strings.IndexByte(s[at:], '\n')
			if e < 0 {
				e = len(s) - at
			}
			o.Bad = append(o.Bad, fmt.Sprintf("%v in: %s", err, clip(s[at:at+e], 300)))
			at += e
			continue
		}
		st.At = at
		at = p.p
		st.Raw = s[st.At:at]
		// the statement ends its line
		e := at
		for e < len(s) && (s[e] == ' ' || s[e] == '\t' || s[e] == '\r') {
			e++
		}
		if e < len(s) && s[e] != '\n' {
			o.Bad = append(o.Bad, fmt.Sprintf("text after the statement on its line: %s", clip(s[st.At:], 300)))
		}
		at = e
		o.Stmts = append(o.Stmts, st)
	}
	return o
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// canonReplace is the meaning of a REPLACE for a table with the given columns:
// values in definition order.
func canonReplace(s *Stmt, cols []Col) (string, error) {
	if s.Kind != 'R' {
		return "", fmt.Errorf("not a REPLACE: %s", clip(s.Raw, 200))
	}
	vals := s.Vals
	cols = visible(cols)
	if s.Cols != nil {
		if len(s.Cols) != len(s.Vals) {
			return "", fmt.Errorf("%d columns but %d values", len(s.Cols), len(s.Vals))
		}
		m := map[string]Lit{}
		for i, c := range s.Cols {
			m[c] = s.Vals[i]
		}
		vals = nil
		for i := range cols {
			l, ok := m[cols[i].Name]
			if !ok {
				return "", fmt.Errorf("column %s missing", cols[i].Name)
			}
			vals = append(vals, l)
			delete(m, cols[i].Name)
		}
		if len(m) > 0 {
			return "", fmt.Errorf("unknown columns %v", m)
		}
	}
	if len(vals) != len(cols) {
		return "", fmt.Errorf("%d values for %d columns: %s", len(vals), len(cols), clip(s.Raw, 300))
	}
	var o []string
	for i := range cols {
		o = append(o, cols[i].canonLit(vals[i]))
	}
	return strings.Join(o, "\x01"), nil
}

// visible are the columns that SQL knows; the hidden one is the last.
func visible(cols []Col) []Col {
	if n := len(cols); n > 0 && cols[n-1].Hidden {
		return cols[:n-1]
	}
	return cols
}

func canonRow(row *RowVer, cols []Col) string {
	var o []string
	for i := range visible(cols) {
		o = append(o, cols[i].canon(row.Vals[i]))
	}
	return strings.Join(o, "\x01")
}

func showRow(s string) string {
	p := strings.Split(s, "\x01")
	for i := range p {
		p[i] = fmt.Sprintf("%q", p[i])
	}
	return clip("("+strings.Join(p, ", ")+")", 600)
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
