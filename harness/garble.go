package harness

import (
	"strconv"
	"strings"
)

// what requests are garbled with

var junkTokens = []string{"{", "}", "(", ")", "[", "]", ":", "=", "!", "$", "@", "...", ",", "|", "&", "a", "on", "query", "mutation", "subscription", "fragment", "true", "null", "1", "-1", "1.5", "1e3", "-", "+", ".", "..", "0x1", "1a", "\"a\"", "\"", "\"\"\"", "\"\"\"a\"\"\"", "\"\\u12\"", "\"\\uZZZZ\"", "\"\\", "#", "#\n", "\n", "\r", "\r\n", "\x00", "\ufeff", "é", "😀", "\xff", "%", "^", "~", "'", ";", "<", "__typename", "__schema{types{name}}", "__type(name:\"Person\"){kind}", "@skip(if:true)", "@include", "...on Person{name}", "$a", "${a}", "\"\n\"", "1.", ".5", "1e", "--1", "0", "00", "\\"}

func (g G) junk() string {
	if g.N(40) == 39 {
		return strings.Repeat(junkTokens[g.N(len(junkTokens))], []int{10, 100, 256, 300, 1000}[g.N(5)])
	}
	return junkTokens[g.N(len(junkTokens))]
}

// splitTokens cuts a document in lexical tokens, the ignored text in front of a token belongs to it
func splitTokens(s string) (res []string) {
	last := 0
	for _, t := range lexDoc(s, false) {
		res = append(res, s[last:t.end])
		last = t.end
	}
	if last < len(s) {
		res = append(res, s[last:])
	}
	return
}

// garble changes a document in a few places
func (g G) garble(s string) string {
	for n := 1 + g.N(3); n > 0; n-- {
		if g.N(2) == 0 && len(s) > 0 {
			// bytes
			i := g.N(len(s))
			switch g.N(6) {
			case 0:
				s = s[:i]
			case 1:
				s = s[:i] + s[min(i+1+g.N(3), len(s)):]
			case 2:
				s = s[:i] + g.junk() + s[i:]
			case 3:
				s = s[:i] + string([]byte{byte(g.N(256))}) + s[i+1:]
			case 4:
				s = s[i:]
			case 5:
				j := i + g.N(len(s)-i)
				s = s[:j] + s[i:]
			}
			continue
		}
		toks := splitTokens(s)
		if len(toks) == 0 {
			s = g.junk()
			continue
		}
		i := g.N(len(toks))
		switch g.N(6) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			toks[i] += toks[g.N(len(toks))]
		case 2:
			j := g.N(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks[i] = " " + g.junk()
		case 4:
			toks[i] += g.junk()
		case 5:
			// move or repeat a part
			j := min(i+1+g.N(6), len(toks))
			part := strings.Join(toks[i:j], "")
			k := g.N(len(toks))
			toks[k] += part
		}
		s = strings.Join(toks, "")
	}
	return s
}

// soup is a document without a plan
func (g G) soup() string {
	var sb strings.Builder
	if g.N(2) == 0 {
		sb.WriteString("{")
	}
	for n := g.N(30); n > 0; n-- {
		sb.WriteString(g.junk())
		if g.N(2) == 0 {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

func (g G) bytes() string {
	b := make([]byte, g.N(60))
	for i := range b {
		b[i] = byte(g.N(256))
	}
	return string(b)
}

// deep is a document with a lot of nesting, for the zoo
func (g G) deep() string {
	if g.N(60) == 33 {
		// more than any stack is for
		open := [][2]string{{"", "{a"}, {"{a(b:", "["}, {"{a(b:", "{c:"}, {"{", "...on A{"}, {"{a(b:", "[{c:"}, {"query($a:", "["}, {"query($a:Int=", "["}, {"{", "...{"}}[g.N(8)]
		return open[0] + strings.Repeat(open[1], 6000000)
	}
	n := []int{50, 253, 254, 255, 256, 257, 300, 1000, 9990, 10001, 20000}[g.N(11)]
	rep := strings.Repeat
	cut := g.N(2)
	switch g.N(12) {
	case 0:
		return rep("{a", n) + rep("}", n-cut)
	case 1:
		return "{all(LLin:" + rep("[", n) + "1" + rep("]", n-cut) + ")}"
	case 2:
		return "{search(tree:{val:1,left:" + rep("{left:", n) + "{}" + rep("}", n-cut) + "}){name}}"
	case 3:
		return "{search(tree:{kids:" + rep("[{kids:", n) + "[]" + rep("}]", n-cut) + "}){name}}"
	case 4:
		return "query($a:" + rep("[", n) + "Int" + rep("]", n) + "){person(id:$a){name}}"
	case 5:
		return "{person(id:\"1\"){" + rep("...on Person{", n) + "name" + rep("}", n) + "}}"
	case 6:
		return "{person(id:\"1\"){" + rep("best{", n) + "name" + rep("}", n) + "}}"
	case 7:
		// a chain of fragments
		n = min(n, 2000)
		var sb strings.Builder
		sb.WriteString("{...f0}")
		for i := 0; i < n; i++ {
			sb.WriteString("fragment f" + strconv.Itoa(i) + " on ZooQuery{...f" + strconv.Itoa(i+1) + "}")
		}
		sb.WriteString("fragment f" + strconv.Itoa(n) + " on ZooQuery{__typename}")
		return sb.String()
	case 8:
		return "{__typename" + rep("@include(if:true)", min(n, 300)) + "}"
	case 9:
		return "{person(id:\"1\"){" + rep("...on Person{best{", n) + "name" + rep("}}", n) + "}}"
	case 10:
		return "{...f}fragment f on ZooQuery{" + rep("...on ZooQuery{", n) + "...f" + rep("}", n) + "}"
	}
	return "{" + rep("a:__typename ", min(n, 3000)) + "}"
}

var junkJSON = []string{"", " ", "null", "{}", "[]", "1", "\"a\"", "{", "}", "{\"a\"", "{\"a\":", "{\"a\":}", "{\"a\":1", "{\"a\":1,}", "{a:1}", "{'a':1}", "[{\"a\":1}]", "{\"a\":nul}", "{\"a\":\"\\u12\"}", "{\"a\":\"\\ud800\"}", "{\"a\":1e999}", "{\"a\":-}", "{\"a\":01}", "{\"a\":1}x", "{\"a\":\"\xff\"}", "{\"\":1}", "{\"a\":NaN}", "{\"a\":{\"b\":[1,\"x\",null,true,{}]}}", "{\"a\":[[[[]]]]}", "\x00", "{\"a\":1,\"a\":\"x\"}"}

func (g G) junkVariables(valid string) string {
	switch g.N(5) {
	case 0:
		return valid
	case 1:
		return junkJSON[g.N(len(junkJSON))]
	case 2:
		n := []int{10, 290, 300, 301, 1000, 50000}[g.N(6)]
		return "{\"a\":" + strings.Repeat("[", n) + strings.Repeat("]", n-g.N(2)) + "}"
	case 3:
		// other values for the same names
		v := junkJSON[g.N(len(junkJSON))]
		var sb strings.Builder
		sb.WriteByte('{')
		for i, name := range varNames {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(jsonQuote(name) + ":")
			if j := junkJSON[g.N(len(junkJSON))]; g.N(3) == 0 {
				sb.WriteString(j)
			} else if g.N(2) == 0 {
				sb.WriteString(v)
			} else {
				sb.WriteString([]string{"1", "\"RED\"", "true", "null", "[1]", "{\"x\":1}", "1.5", "-1", "\"2006-01-02T15:04:05.000Z\"", "1e400", "99999999999999999999"}[g.N(11)])
			}
		}
		sb.WriteByte('}')
		return sb.String()
	}
	if len(valid) > 0 {
		return g.garble(valid)
	}
	return g.bytes()
}
