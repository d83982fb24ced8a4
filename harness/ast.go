package harness

import (
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

type Doc struct {
	Defs []*Def
}

type Def struct {
	Op   *Op
	Frag *Frag
}

type Op struct {
	Kind  string // query, mutation or subscription
	Name  string
	Short bool // only {...}
	Vars  []*VarDef
	Sel   []*Sel
}

type VarDef struct {
	Name    string
	Type    string
	Default *Value
	T       *In
	// the JSON value, nil = not given
	Given *Value
}

type Frag struct {
	Name string
	On   string
	Sel  []*Sel
}

type SelKind uint8

const (
	SField SelKind = iota
	SSpread
	SInline
)

type Sel struct {
	K      SelKind
	Alias  string
	Name   string // field name or fragment name
	On     string // inline: type condition
	Args   []*KV
	Parens bool // write () when there are no arguments
	Dirs   []*DirUse
	Sel    []*Sel
	HasSel bool
}

func (s *Sel) Key() string {
	if s.Alias != "" {
		return s.Alias
	}
	return s.Name
}

type KV struct {
	Name string
	V    *Value
}

type DirUse struct {
	Name string
	Args []*KV
}

type ValKind uint8

const (
	VNull ValKind = iota
	VInt
	VFloat
	VString
	VBool
	VEnum
	VList
	VObject
	VVar
)

type Value struct {
	K ValKind
	S string // int and float: decimal text, string: content, enum and variable: name
	B bool
	L []*Value
	O []*KV
	// Raw is another way to write a number in a document
	Raw string
}

func (d *Doc) Ops() (res []*Op) {
	for _, def := range d.Defs {
		if def.Op != nil {
			res = append(res, def.Op)
		}
	}
	return
}

// freeKey is a response name nothing in the document has
func (d *Doc) freeKey() string {
	taken := map[string]bool{}
	var walk func(list []*Sel)
	walk = func(list []*Sel) {
		for _, s := range list {
			if s.K == SField {
				taken[s.Key()] = true
			}
			walk(s.Sel)
		}
	}
	for _, def := range d.Defs {
		if def.Op != nil {
			walk(def.Op.Sel)
		}
		if def.Frag != nil {
			walk(def.Frag.Sel)
		}
	}
	key := "zz"
	for taken[key] {
		key += "z"
	}
	return key
}

func (d *Doc) Frag(name string) *Frag {
	for _, def := range d.Defs {
		if def.Frag != nil && def.Frag.Name == name {
			return def.Frag
		}
	}
	return nil
}

// Layout decides how a document is written: pick(n) gives a number in [0,n), 0 is the plain choice
type Layout func(n int) int

type tokKind uint8

const (
	tkPunct tokKind = iota
	tkName
	tkNum
	tkStr
)

type tok struct {
	k     tokKind
	s     string
	comma bool // a comma is allowed behind this token
	item  bool // canonical layout: write a comma behind this token
	nl    bool // canonical layout: write a newline behind this token
}

type printer struct {
	toks []tok
	pick Layout
}

func (p *printer) choose(n int) int {
	if p.pick == nil {
		return 0
	}
	return p.pick(n)
}

func (p *printer) add(k tokKind, s string) { p.toks = append(p.toks, tok{k: k, s: s}) }
func (p *printer) punct(s string)          { p.add(tkPunct, s) }
func (p *printer) name(s string)           { p.add(tkName, s) }
func (p *printer) endItem(comma, nl bool) {
	t := &p.toks[len(p.toks)-1]
	t.comma = true
	t.item = comma
	t.nl = nl
}

func (d *Doc) tokens(lay Layout) []tok {
	p := &printer{pick: lay}
	for _, def := range d.Defs {
		if def.Op != nil {
			p.op(def.Op)
		} else {
			p.frag(def.Frag)
		}
		p.toks[len(p.toks)-1].nl = true
	}
	return p.toks
}

func (d *Doc) Print(lay Layout) string {
	return renderTokens(d.tokens(lay), lay)
}

func (d *Doc) String() string { return d.Print(nil) }

func needGap(a, b tok) bool {
	word := func(t tok) bool { return t.k == tkName || t.k == tkNum }
	if word(a) && word(b) {
		return true
	}
	if a.k == tkNum && b.s == "..." {
		return true
	}
	return a.k == tkStr && b.k == tkStr
}

var commentBodies = []string{"", " comment", "{ a(b: 1) }", "\"", "\"\"\"", "#", " , ", "$x: Int!", "\u00e9\u20ac", "\x7f", "'}]", " query", "\\u0041"}

func ignoredToken(lay Layout) string {
	switch lay(8) {
	case 0:
		return " "
	case 1:
		return "\n"
	case 2:
		return "\t"
	case 3:
		return "\r\n"
	case 4:
		return "\r"
	case 5:
		return "   "
	default:
		body := commentBodies[lay(len(commentBodies))]
		return "#" + body + []string{"\n", "\r\n", "\r"}[lay(3)]
	}
}

func renderTokens(toks []tok, lay Layout) string {
	var sb strings.Builder
	if lay != nil {
		for n := lay(3); n > 0; n-- {
			sb.WriteString(ignoredToken(lay))
		}
	}
	for i, t := range toks {
		sb.WriteString(t.s)
		last := i == len(toks)-1
		if lay == nil {
			if last {
				break
			}
			if t.item {
				sb.WriteString(", ")
			} else if t.nl {
				sb.WriteString("\n")
			} else if needGap(t, toks[i+1]) || t.s == ":" || t.s == "=" {
				sb.WriteString(" ")
			}
			continue
		}
		gap := ""
		for n := []int{0, 1, 0, 2, 1, 3}[lay(6)]; n > 0; n-- {
			gap += ignoredToken(lay)
		}
		if t.comma && lay(2) == 1 {
			gap += ","
			for n := []int{0, 1, 2}[lay(3)]; n > 0; n-- {
				gap += ignoredToken(lay)
			}
		}
		if gap == "" && !last && needGap(t, toks[i+1]) {
			gap = ignoredToken(lay)
		}
		sb.WriteString(gap)
	}
	if lay != nil && lay(4) == 1 {
		// a comment that runs to the end of the document
		sb.WriteString("#" + commentBodies[lay(len(commentBodies))])
	}
	return sb.String()
}

func (p *printer) op(o *Op) {
	if !o.Short {
		p.name(o.Kind)
		if o.Name != "" {
			p.name(o.Name)
		}
		if len(o.Vars) > 0 {
			p.punct("(")
			for i, v := range o.Vars {
				p.punct("$")
				p.name(v.Name)
				p.punct(":")
				p.typeRef(v.Type)
				if v.Default != nil {
					p.punct("=")
					p.value(v.Default)
				}
				p.endItem(i < len(o.Vars)-1, false)
			}
			p.punct(")")
		}
	}
	p.selSet(o.Sel)
}

func (p *printer) typeRef(t string) {
	name := ""
	flush := func() {
		if name != "" {
			p.name(name)
			name = ""
		}
	}
	for _, c := range t {
		switch c {
		case '[', ']', '!':
			flush()
			p.punct(string(c))
		default:
			name += string(c)
		}
	}
	flush()
}

func (p *printer) frag(f *Frag) {
	p.name("fragment")
	p.name(f.Name)
	p.name("on")
	p.name(f.On)
	p.selSet(f.Sel)
}

func (p *printer) selSet(sel []*Sel) {
	p.punct("{")
	for _, s := range sel {
		switch s.K {
		case SField:
			if s.Alias != "" {
				p.name(s.Alias)
				p.punct(":")
			}
			p.name(s.Name)
			if len(s.Args) > 0 || s.Parens {
				p.punct("(")
				p.kvs(s.Args)
				p.punct(")")
			}
			p.dirs(s.Dirs)
			if s.HasSel {
				p.selSet(s.Sel)
			}
		case SSpread:
			p.punct("...")
			p.name(s.Name)
			p.dirs(s.Dirs)
		case SInline:
			p.punct("...")
			p.name("on")
			p.name(s.On)
			p.dirs(s.Dirs)
			p.selSet(s.Sel)
		}
		p.endItem(false, true)
	}
	p.punct("}")
}

func (p *printer) dirs(ds []*DirUse) {
	for _, d := range ds {
		p.punct("@")
		p.name(d.Name)
		if len(d.Args) > 0 {
			p.punct("(")
			p.kvs(d.Args)
			p.punct(")")
		}
	}
}

func (p *printer) kvs(kvs []*KV) {
	for i, kv := range kvs {
		p.name(kv.Name)
		p.punct(":")
		p.value(kv.V)
		p.endItem(i < len(kvs)-1, false)
	}
}

func (p *printer) value(v *Value) {
	switch v.K {
	case VNull:
		p.name("null")
	case VInt, VFloat:
		if v.Raw != "" {
			p.add(tkNum, v.Raw)
			break
		}
		if v.K == VInt {
			p.add(tkNum, v.S)
			break
		}
		p.add(tkNum, p.float(v.S))
	case VString:
		p.add(tkStr, p.str(v.S))
	case VBool:
		p.name(fmt.Sprint(v.B))
	case VEnum:
		p.name(v.S)
	case VVar:
		p.punct("$")
		p.name(v.S)
	case VList:
		p.punct("[")
		for i, e := range v.L {
			p.value(e)
			p.endItem(i < len(v.L)-1, false)
		}
		p.punct("]")
	case VObject:
		p.punct("{")
		p.kvs(v.O)
		p.punct("}")
	}
}

// float writes a decimal number in an equivalent way
func (p *printer) float(s string) string {
	if p.pick == nil {
		return s
	}
	mant, exp, hasExp := strings.Cut(s, "e")
	exp = strings.TrimPrefix(exp, "+")
	if !strings.Contains(mant, ".") && p.choose(2) == 1 {
		mant += ".0"
	}
	if strings.Contains(mant, ".") {
		mant += strings.Repeat("0", p.choose(3))
	}
	if !hasExp {
		if !strings.Contains(mant, ".") {
			hasExp, exp = true, "0"
		} else if p.choose(3) == 1 {
			hasExp, exp = true, "0"
		}
	}
	if !hasExp {
		return mant
	}
	sign := ""
	if !strings.HasPrefix(exp, "-") && p.choose(2) == 1 {
		sign = "+"
	}
	return mant + []string{"e", "E"}[p.choose(2)] + sign + exp
}

// block writes a string as a block string: lines are indented, white space of the lines itself is part of the value
func (p *printer) block(s string) (string, bool) {
	if !utf8.ValidString(s) || strings.ContainsFunc(s, func(r rune) bool { return r < ' ' && r != '\t' && r != '\n' }) {
		return "", false
	}
	lines := strings.Split(s, "\n")
	blank := func(l string) bool { return strings.Trim(l, " \t") == "" }
	lead := func(l string) int { return len(l) - len(strings.TrimLeft(l, " \t")) }
	// how the lines end that are not part of the value
	nl := func() string { return []string{"\n", "\n", "\r\n", "\r"}[p.choose(4)] }
	blanks := func(n int) (res string) {
		for n = p.choose(n); n > 0; n-- {
			res += []string{"", " ", "   ", "\t", "\t \t"}[p.choose(5)] + nl()
		}
		return
	}
	tail := func() string { return []string{"", " ", "\t", "    "}[p.choose(4)] }
	if s == "" {
		return `"""` + blanks(3) + tail() + `"""`, true
	}
	if blank(lines[0]) || blank(lines[len(lines)-1]) {
		return "", false
	}
	// the smallest indentation of the lines is not part of the value, that of the line behind the quotes always is
	inline := p.choose(2) == 1
	least := 0
	if !inline || len(lines) > 1 {
		least = lead(lines[len(lines)-1])
	}
	for i, l := range lines {
		if !blank(l) && !(inline && i == 0) {
			least = min(least, lead(l))
		}
	}
	if least != 0 {
		return "", false
	}
	indent := []string{"", "  ", "\t", " \t ", "        "}[p.choose(5)]
	out := make([]string, len(lines))
	for i, l := range lines {
		out[i] = strings.ReplaceAll(l, `"""`, `\"""`)
		switch {
		case i == 0 && inline:
		case l == "":
			// a line shorter than the indentation
			out[i] = indent[:p.choose(len(indent)+1)]
		default:
			out[i] = indent + out[i]
		}
	}
	res := `"""`
	if !inline {
		res += tail() + nl() + blanks(2)
	}
	res += strings.Join(out, "\n")
	if last := s[len(s)-1]; last == '"' || last == '\\' || p.choose(2) == 1 {
		res += nl() + blanks(2) + tail()
	}
	return res + `"""`, true
}

func (p *printer) str(s string) string {
	if p.pick != nil && p.choose(4) == 1 {
		if b, ok := p.block(s); ok {
			return b
		}
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		short := ""
		switch r {
		case '"':
			short = `\"`
		case '\\':
			short = `\\`
		case '\b':
			short = `\b`
		case '\f':
			short = `\f`
		case '\n':
			short = `\n`
		case '\r':
			short = `\r`
		case '\t':
			short = `\t`
		}
		raw := r >= ' ' && r != '"' && r != '\\'
		c := 0
		if p.pick != nil {
			c = p.choose(5)
		}
		switch {
		case c >= 3 && r >= 0x10000:
			hi, lo := utf16.EncodeRune(r)
			fmt.Fprintf(&sb, []string{`\u%04x\u%04x`, `\u%04X\u%04X`}[c-3], hi, lo)
		case c == 3 && r < 0x10000:
			fmt.Fprintf(&sb, `\u%04x`, r)
		case c == 4 && r < 0x10000:
			fmt.Fprintf(&sb, `\u%04X`, r)
		case c == 2 && r == '/':
			sb.WriteString(`\/`)
		case c == 2 && r == '\t':
			sb.WriteRune(r)
		case raw:
			sb.WriteRune(r)
		case short != "":
			sb.WriteString(short)
		default:
			fmt.Fprintf(&sb, `\u%04x`, r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// JSON writes a value as a JSON variable
func (v *Value) JSON(sb *strings.Builder, pick Layout) {
	ws := func() {
		if pick != nil && pick(5) == 1 {
			sb.WriteString([]string{" ", "\n", "\t ", "\r\n"}[pick(4)])
		}
	}
	switch v.K {
	case VNull:
		sb.WriteString("null")
	case VInt, VFloat:
		sb.WriteString(v.S)
	case VBool:
		fmt.Fprint(sb, v.B)
	case VString, VEnum:
		sb.WriteString(jsonQuoteLay(v.S, pick))
	case VList:
		sb.WriteByte('[')
		for i, e := range v.L {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			e.JSON(sb, pick)
			ws()
		}
		sb.WriteByte(']')
	case VObject:
		writeJSONObj(sb, v.O, pick)
	default:
		panic("variable inside variable")
	}
}

func writeJSONObj(sb *strings.Builder, kvs []*KV, pick Layout) {
	ws := func() {
		if pick != nil && pick(5) == 1 {
			sb.WriteString([]string{" ", "\n", "\t ", "\r\n"}[pick(4)])
		}
	}
	sb.WriteByte('{')
	for i, kv := range kvs {
		if i > 0 {
			sb.WriteByte(',')
		}
		ws()
		sb.WriteString(jsonQuoteLay(kv.Name, pick))
		ws()
		sb.WriteByte(':')
		ws()
		kv.V.JSON(sb, pick)
		ws()
	}
	sb.WriteByte('}')
}

func jsonQuoteLay(s string, pick Layout) string {
	if pick == nil {
		return jsonQuote(s)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		c := pick(5)
		switch {
		case c == 3 && r < 0x10000:
			fmt.Fprintf(&sb, `\u%04x`, r)
		case c == 4 && r >= 0x10000:
			r -= 0x10000
			fmt.Fprintf(&sb, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case c == 2 && r == '/':
			sb.WriteString(`\/`)
		case r == '\n' && c < 3:
			sb.WriteString(`\n`)
		case r == '\t' && c < 3:
			sb.WriteString(`\t`)
		case r < ' ':
			fmt.Fprintf(&sb, `\u%04x`, r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// VariablesJSON writes the variables given to the operation, extra entries are unused variables
func (o *Op) VariablesJSON(extra []*KV, pick Layout) string {
	kvs := []*KV{}
	for _, v := range o.Vars {
		if v.Given != nil {
			kvs = append(kvs, &KV{v.Name, v.Given})
		}
	}
	kvs = append(kvs, extra...)
	if len(kvs) == 0 {
		return ""
	}
	var sb strings.Builder
	writeJSONObj(&sb, kvs, pick)
	if pick != nil {
		// white space around the object is no part of it
		ws := []string{"", "", "", " ", "\n", "\t \r\n"}
		return ws[pick(6)] + sb.String() + ws[pick(6)]
	}
	return sb.String()
}
