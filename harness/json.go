package harness

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// A strict JSON (RFC 8259) parser that keeps the order of object members, duplicate members and the text of numbers.

type JKind uint8

const (
	JNull JKind = iota
	JBool
	JNum
	JStr
	JList
	JObj
)

type J struct {
	Kind JKind
	B    bool
	S    string // string content or number literal
	L    []*J
	Keys []string
	Vals []*J
}

type jparser struct {
	b []byte
	i int
}

func ParseJSON(b []byte) (*J, error) {
	p := &jparser{b: b}
	p.ws()
	v, err := p.value(0)
	if err != nil {
		return nil, fmt.Errorf("invalid JSON at byte %d: %w", p.i, err)
	}
	p.ws()
	if p.i != len(b) {
		return nil, fmt.Errorf("invalid JSON: trailing bytes at %d", p.i)
	}
	return v, nil
}

func (p *jparser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jparser) value(depth int) (*J, error) {
	if depth > 200000 {
		return nil, errors.New("too deep")
	}
	if p.i >= len(p.b) {
		return nil, errors.New("unexpected end")
	}
	switch c := p.b[p.i]; {
	case c == '{':
		p.i++
		res := &J{Kind: JObj}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return res, nil
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil, errors.New("expected member name")
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil, errors.New("expected :")
			}
			p.i++
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			res.Keys = append(res.Keys, k)
			res.Vals = append(res.Vals, v)
			p.ws()
			if p.i >= len(p.b) {
				return nil, errors.New("unexpected end")
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == '}' {
				p.i++
				return res, nil
			}
			return nil, errors.New("expected , or }")
		}
	case c == '[':
		p.i++
		res := &J{Kind: JList}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return res, nil
		}
		for {
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			res.L = append(res.L, v)
			p.ws()
			if p.i >= len(p.b) {
				return nil, errors.New("unexpected end")
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == ']' {
				p.i++
				return res, nil
			}
			return nil, errors.New("expected , or ]")
		}
	case c == '"':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return &J{Kind: JStr, S: s}, nil
	case c == 't':
		if p.lit("true") {
			return &J{Kind: JBool, B: true}, nil
		}
	case c == 'f':
		if p.lit("false") {
			return &J{Kind: JBool}, nil
		}
	case c == 'n':
		if p.lit("null") {
			return &J{Kind: JNull}, nil
		}
	case c == '-' || (c >= '0' && c <= '9'):
		return p.num()
	}
	return nil, errors.New("unexpected character")
}

func (p *jparser) num() (*J, error) {
	start := p.i
	digits := func() int {
		n := 0
		for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
			p.i++
			n++
		}
		return n
	}
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
	} else if digits() == 0 {
		return nil, errors.New("bad number")
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if digits() == 0 {
			return nil, errors.New("bad fraction")
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if digits() == 0 {
			return nil, errors.New("bad exponent")
		}
	}
	return &J{Kind: JNum, S: string(p.b[start:p.i])}, nil
}

func (p *jparser) str() (string, error) {
	p.i++
	var sb strings.Builder
	hex4 := func() (rune, bool) {
		if p.i+4 > len(p.b) {
			return 0, false
		}
		n, err := strconv.ParseUint(string(p.b[p.i:p.i+4]), 16, 32)
		if err != nil || p.b[p.i] == '+' {
			return 0, false
		}
		p.i += 4
		return rune(n), true
	}
	for {
		if p.i >= len(p.b) {
			return "", errors.New("unterminated string")
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return sb.String(), nil
		case c < ' ':
			return "", errors.New("control character in string")
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", errors.New("unterminated string")
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				sb.WriteByte(e)
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'u':
				r, ok := hex4()
				if !ok {
					return "", errors.New("bad \\u escape")
				}
				if utf16.IsSurrogate(r) {
					if p.i+6 <= len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						save := p.i
						p.i += 2
						r2, ok := hex4()
						if !ok {
							return "", errors.New("bad \\u escape")
						}
						if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
							sb.WriteRune(dec)
							continue
						}
						p.i = save
					}
					r = utf8.RuneError
				}
				sb.WriteRune(r)
			default:
				return "", errors.New("bad escape")
			}
		case c < utf8.RuneSelf:
			sb.WriteByte(c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n == 1 {
				return "", errors.New("invalid UTF-8 in string")
			}
			sb.Write(p.b[p.i : p.i+n])
			p.i += n
		}
	}
}

func (j *J) Get(key string) *J {
	if j == nil || j.Kind != JObj {
		return nil
	}
	for i, k := range j.Keys {
		if k == key {
			return j.Vals[i]
		}
	}
	return nil
}

func jsonQuote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < ' ' || r == 0x7f:
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (j *J) String() string {
	var sb strings.Builder
	j.write(&sb)
	return sb.String()
}

func (j *J) write(sb *strings.Builder) {
	if j == nil {
		sb.WriteString("<missing>")
		return
	}
	switch j.Kind {
	case JNull:
		sb.WriteString("null")
	case JBool:
		fmt.Fprint(sb, j.B)
	case JNum:
		sb.WriteString(j.S)
	case JStr:
		sb.WriteString(jsonQuote(j.S))
	case JList:
		sb.WriteByte('[')
		for i, v := range j.L {
			if i > 0 {
				sb.WriteByte(',')
			}
			v.write(sb)
		}
		sb.WriteByte(']')
	case JObj:
		sb.WriteByte('{')
		for i, v := range j.Vals {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(jsonQuote(j.Keys[i]))
			sb.WriteByte(':')
			v.write(sb)
		}
		sb.WriteByte('}')
	}
}

// E is an expected response value.
type EKind uint8

const (
	ENull EKind = iota
	EBool
	EInt   // S = exact digits
	EFloat // F, Bits
	EStr
	EList
	EObj
	EAny // any value (for example a non finite float)
)

type E struct {
	Kind EKind
	B    bool
	S    string
	F    float64
	Bits int
	L    []*E
	Keys []string
	Vals []*E
	Free bool // list: the order is not specified
}

func (e *E) String() string {
	switch e.Kind {
	case ENull:
		return "null"
	case EBool:
		return strconv.FormatBool(e.B)
	case EInt:
		return e.S
	case EFloat:
		return strconv.FormatFloat(e.F, 'g', -1, e.Bits)
	case EStr:
		return jsonQuote(e.S)
	case EAny:
		return "<any>"
	case EList:
		parts := make([]string, len(e.L))
		for i, v := range e.L {
			parts[i] = v.String()
		}
		return "[" + strings.Join(parts, ",") + "]"
	default:
		parts := make([]string, len(e.Vals))
		for i, v := range e.Vals {
			parts[i] = jsonQuote(e.Keys[i]) + ":" + v.String()
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
}

// Match reports the first difference between an expected value and a JSON value.
func (e *E) Match(j *J, path string) error {
	bad := func() error {
		return fmt.Errorf("at %s: expected %s but got %s", path, clip(e.String(), 400), clip(j.String(), 400))
	}
	if j == nil {
		return bad()
	}
	switch e.Kind {
	case EAny:
		return nil
	case ENull:
		if j.Kind != JNull {
			return bad()
		}
	case EBool:
		if j.Kind != JBool || j.B != e.B {
			return bad()
		}
	case EInt:
		if j.Kind != JNum || j.S != e.S {
			return bad()
		}
	case EFloat:
		if j.Kind != JNum {
			return bad()
		}
		f, err := strconv.ParseFloat(j.S, 64)
		if err != nil {
			return bad()
		}
		if e.Bits == 32 {
			if float32(f) != float32(e.F) {
				return bad()
			}
		} else if f != e.F || math.IsInf(f, 0) {
			return bad()
		}
	case EStr:
		if j.Kind != JStr || j.S != e.S {
			return bad()
		}
	case EList:
		if j.Kind != JList || len(j.L) != len(e.L) {
			return bad()
		}
		if e.Free {
			return e.matchFree(j, path)
		}
		for i := range e.L {
			if err := e.L[i].Match(j.L[i], path+"["+strconv.Itoa(i)+"]"); err != nil {
				return err
			}
		}
	case EObj:
		if j.Kind != JObj {
			return bad()
		}
		if len(j.Keys) != len(e.Keys) {
			return fmt.Errorf("at %s: expected keys %v but got %v", path, e.Keys, j.Keys)
		}
		for i := range e.Keys {
			if e.Keys[i] != j.Keys[i] {
				return fmt.Errorf("at %s: expected keys %v but got %v", path, e.Keys, j.Keys)
			}
			if err := e.Vals[i].Match(j.Vals[i], path+"."+e.Keys[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// matchFree matches lists in any order
func (e *E) matchFree(j *J, path string) error {
	left := append([]*J{}, j.L...)
	for i, w := range e.L {
		found := false
		for n, g := range left {
			if w.Match(g, path) == nil {
				left = append(left[:n], left[n+1:]...)
				found = true
				break
			}
		}
		if !found {
			// report the difference to the candidate of the same name
			for _, g := range left {
				if w.Kind == EObj && g.Kind == JObj {
					for n, k := range w.Keys {
						if k == "name" && w.Vals[n].Match(g.Get("name"), "") == nil {
							return w.Match(g, path+"["+w.Vals[n].String()+"]")
						}
					}
				}
			}
			return fmt.Errorf("at %s: expected %s (entry %d) among %s", path, clip(w.String(), 400), i, clip(j.String(), 2000))
		}
	}
	return nil
}
