package harness

import "strings"

// A recognizer of GraphQL documents, in two forms.
// strict: a subset of the executable GraphQL grammar that the library supports.
// tolerant: a superset of the executable GraphQL grammar with everything the library is lenient about:
// commas anywhere, empty selections and arguments, unusual numbers and escapes, keywords glued to what follows,
// directives in front of arguments, NUL bytes.

type lexKind uint8

const (
	lexEOF lexKind = iota
	lexPunct
	lexName
	lexNum
	lexStr
	lexBad
)

type lexTok struct {
	k          lexKind
	s          string
	start, end int
}

func nameStart(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool     { return c >= '0' && c <= '9' }
func nameChar(c byte) bool  { return nameStart(c) || digit(c) }

func lexDoc(s string, strict bool) (res []lexTok) {
	i := 0
	for {
		// ignored
		for i < len(s) {
			c := s[i]
			switch {
			case c == ' ' || c == '\t' || c == '\n' || c == '\r':
				i++
				continue
			case c == '#':
				for i < len(s) && s[i] != '\n' && s[i] != '\r' {
					i++
				}
				continue
			case !strict && (c == 0 || c == ','):
				i++
				continue
			case !strict && strings.HasPrefix(s[i:], "\ufeff"):
				i += 3
				continue
			}
			break
		}
		if i >= len(s) {
			return append(res, lexTok{lexEOF, "", len(s), len(s)})
		}
		start := i
		c := s[i]
		kind := lexBad
		switch {
		case strings.HasPrefix(s[i:], "..."):
			kind = lexPunct
			i += 3
		case strings.IndexByte("!$():=@[]{}|,&", c) >= 0:
			kind = lexPunct
			i++
		case nameStart(c):
			for i < len(s) && nameChar(s[i]) {
				i++
			}
			kind = lexName
			if strict && i-start > 254 {
				// a limit of the library
				kind = lexBad
			}
		case digit(c) || c == '-' || !strict && (c == '+' || c == '.' || c == '_'):
			kind, i = lexNumber(s, i, strict)
		case c == '"':
			kind, i = lexString(s, i, strict)
		}
		if kind == lexBad && i == start {
			i++
		}
		res = append(res, lexTok{kind, s[start:i], start, i})
		if kind == lexBad {
			return
		}
	}
}

func lexNumber(s string, i int, strict bool) (lexKind, int) {
	start := i
	ok := true
	digits := func() {
		n := 0
		for i < len(s) && (digit(s[i]) || !strict && s[i] == '_') {
			i++
			n++
		}
		if strict && n == 0 {
			ok = false
		}
	}
	if s[i] == '-' || s[i] == '+' {
		i++
	}
	first := i
	digits()
	if strict && i-first > 1 && s[first] == '0' {
		ok = false
	}
	if i < len(s) && s[i] == '.' {
		i++
		digits()
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		digits()
	}
	if i < len(s) && (nameChar(s[i]) || s[i] == '.') {
		ok = false
	}
	if strict && i < len(s) && (s[i] == '"' || s[i] == '-' || s[i] == '+') {
		ok = false
	}
	if !ok || i == start {
		return lexBad, i
	}
	return lexNum, i
}

func lexString(s string, i int, strict bool) (lexKind, int) {
	if strings.HasPrefix(s[i:], `"""`) {
		i += 3
		for i < len(s) {
			if strings.HasPrefix(s[i:], `"""`) {
				return lexStr, i + 3
			}
			if strings.HasPrefix(s[i:], `\"""`) {
				i += 4
				continue
			}
			if c := s[i]; strict && c < ' ' && c != '\t' && c != '\n' && c != '\r' {
				return lexBad, i + 1
			}
			i++
		}
		return lexBad, len(s)
	}
	i++
	for i < len(s) {
		switch c := s[i]; {
		case c == '"':
			return lexStr, i + 1
		case c == '\n' || c == '\r':
			return lexBad, i + 1
		case strict && c < ' ' && c != '\t':
			return lexBad, i + 1
		case c == '\\':
			if i+1 >= len(s) {
				return lexBad, len(s)
			}
			e := s[i+1]
			if e == 'u' {
				i += 2
				if !strict && i < len(s) && s[i] == '{' {
					// newer versions of the specification allow this
					n := strings.IndexByte(s[i:], '}')
					if n < 0 {
						return lexBad, len(s)
					}
					i += n + 1
					continue
				}
				for n := 0; n < 4; n++ {
					if i >= len(s) {
						return lexBad, len(s)
					}
					if !(digit(s[i]) || s[i] >= 'a' && s[i] <= 'f' || s[i] >= 'A' && s[i] <= 'F') {
						// the four characters are read together
						return lexBad, min(i+4, len(s))
					}
					i++
				}
				continue
			}
			if e == '\n' || e == '\r' || strict && strings.IndexByte(`"\/bfnrt`, e) < 0 {
				return lexBad, i + 2
			}
			i += 2
		default:
			i++
		}
	}
	return lexBad, len(s)
}

type recognizer struct {
	t      []lexTok
	i      int
	strict bool
	failed bool
}

func (r *recognizer) cur() lexTok { return r.t[r.i] }
func (r *recognizer) is(s string) bool {
	return r.cur().k == lexPunct && r.cur().s == s
}
func (r *recognizer) name() bool { return r.cur().k == lexName }
func (r *recognizer) next() {
	if r.i < len(r.t)-1 {
		r.i++
	}
}
func (r *recognizer) fail() { r.failed = true }
func (r *recognizer) punct(s string) {
	if r.failed {
		return
	}
	if !r.is(s) {
		r.fail()
		return
	}
	r.next()
}
func (r *recognizer) needName() {
	if r.failed {
		return
	}
	if !r.name() {
		r.fail()
		return
	}
	r.next()
}

// endItem reads the optional comma behind an item (the tolerant form has dropped all commas)
func (r *recognizer) endItem() {
	if !r.failed && r.is(",") {
		r.next()
	}
}

func (r *recognizer) document() {
	if r.strict && r.cur().k == lexEOF {
		r.fail()
	}
	for !r.failed && r.cur().k != lexEOF {
		r.definition()
	}
}

func keyword(s string, strict bool) (word, rest string) {
	for _, w := range []string{"query", "mutation", "subscription", "fragment"} {
		if s == w {
			return w, ""
		}
		if !strict && strings.HasPrefix(s, w) {
			return w, s[len(w):]
		}
	}
	return "", ""
}

func (r *recognizer) definition() {
	if r.is("{") {
		r.selectionSet(0)
		return
	}
	if !r.name() {
		r.fail()
		return
	}
	word, rest := keyword(r.cur().s, r.strict)
	switch word {
	case "":
		r.fail()
		return
	case "fragment":
		r.next()
		if rest == "" {
			if r.strict && r.name() && r.cur().s == "on" {
				r.fail()
				return
			}
			r.needName()
		}
		if !r.failed && r.name() && !r.strict && strings.HasPrefix(r.cur().s, "on") && r.cur().s != "on" {
			r.next()
		} else {
			if !r.failed && !(r.name() && r.cur().s == "on") {
				r.fail()
			}
			r.needName()
			r.needName()
		}
		if !r.strict {
			r.directives()
		}
		r.selectionSet(0)
		return
	}
	r.next()
	if rest == "" && r.name() {
		r.next()
	}
	if r.is("(") {
		r.next()
		n := 0
		for !r.failed && !r.is(")") {
			n++
			r.punct("$")
			r.needName()
			r.punct(":")
			r.typeRef(0)
			if !r.failed && r.is("=") {
				r.next()
				r.value(0)
			}
			if !r.strict {
				r.directives()
			}
			r.endItem()
		}
		if r.strict && n == 0 {
			r.fail()
		}
		r.punct(")")
	}
	if !r.strict {
		r.directives()
	}
	r.selectionSet(0)
}

func (r *recognizer) tooDeep(depth int) bool {
	return depth > 2000 && (r.strict || depth > 20000)
}

func (r *recognizer) typeRef(depth int) {
	if r.failed || r.tooDeep(depth) {
		r.fail()
		return
	}
	if r.is("[") {
		r.next()
		r.typeRef(depth + 1)
		r.punct("]")
	} else {
		r.needName()
	}
	if !r.failed && r.is("!") {
		r.next()
	}
}

func (r *recognizer) directives() {
	for n := 0; !r.failed && r.is("@"); n++ {
		if r.strict && n == 255 {
			// a limit of the library
			r.fail()
			return
		}
		r.next()
		r.needName()
		if !r.failed && r.is("(") {
			r.arguments("(", ")", 0)
		}
	}
}

func (r *recognizer) arguments(open, close string, depth int) {
	r.punct(open)
	n := 0
	for !r.failed && !r.is(close) {
		n++
		r.needName()
		r.punct(":")
		r.value(depth + 1)
		r.endItem()
	}
	if r.strict && n == 0 && open == "(" {
		r.fail()
	}
	r.punct(close)
}

func (r *recognizer) value(depth int) {
	if r.failed || r.tooDeep(depth) {
		r.fail()
		return
	}
	c := r.cur()
	switch {
	case c.k == lexNum || c.k == lexStr || c.k == lexName:
		r.next()
	case r.is("$"):
		r.next()
		r.needName()
	case r.is("["):
		r.next()
		for !r.failed && !r.is("]") {
			r.value(depth + 1)
			r.endItem()
		}
		r.punct("]")
	case r.is("{"):
		r.arguments("{", "}", depth)
	default:
		r.fail()
	}
}

func (r *recognizer) selectionSet(depth int) {
	if r.tooDeep(depth) {
		r.fail()
	}
	r.punct("{")
	n := 0
	for !r.failed && !r.is("}") {
		n++
		switch {
		case r.name():
			r.next()
			if r.is(":") {
				r.next()
				r.needName()
			}
			if !r.strict {
				r.directives()
			}
			if !r.failed && r.is("(") {
				r.arguments("(", ")", 0)
			}
			r.directives()
			if !r.failed && r.is("{") {
				r.selectionSet(depth + 1)
			}
		case r.is("..."):
			r.next()
			switch {
			case r.name() && r.cur().s == "on":
				r.next()
				r.needName()
				r.directives()
				r.selectionSet(depth + 1)
			case r.name():
				r.next()
				r.directives()
			case r.strict:
				r.fail()
			default:
				r.directives()
				r.selectionSet(depth + 1)
			}
		default:
			r.fail()
		}
		r.endItem()
	}
	if r.strict && n == 0 {
		r.fail()
	}
	r.punct("}")
}

// recognize tells if the text is a document, and if not which token cannot follow the ones in front of it
func recognize(s string, strict bool) (ok bool, at lexTok) {
	r := &recognizer{t: lexDoc(s, strict), strict: strict}
	r.document()
	return !r.failed, r.cur()
}

// position gives the line and column of a byte, columns counted in bytes and in characters
func position(s string, at int) (line, bytes, chars int) {
	line, bytes, chars = 1, 1, 1
	for i := 0; i < at && i < len(s); i++ {
		switch {
		case s[i] == '\n' && i > 0 && s[i-1] == '\r':
		case s[i] == '\n' || s[i] == '\r':
			line, bytes, chars = line+1, 1, 1
		default:
			bytes++
			if s[i]&0xc0 != 0x80 {
				chars++
			}
		}
	}
	return
}
