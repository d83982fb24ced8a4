package harness

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// G draws all random choices from rapid
type G struct{ T *rapid.T }

var intGens [1025]*rapid.Generator[int]

func init() {
	for i := 1; i < len(intGens); i++ {
		intGens[i] = rapid.IntRange(0, i-1)
	}
}

// N gives a number in [0,n), 0 is the simplest
func (g G) N(n int) int {
	if n <= 1 {
		return 0
	}
	if n < len(intGens) {
		return intGens[n].Draw(g.T, "n")
	}
	return rapid.IntRange(0, n-1).Draw(g.T, "n")
}

// P is true in about pct of 100 cases
// P is true in about pct of 100 cases, small numbers come more often in larger ranges
func (g G) P(pct int) bool { return 10*g.N(10)+g.N(10) >= 100-pct }

func (g G) Lay() Layout { return func(n int) int { return g.N(n) } }

func pick[T any](g G, s []T) T { return s[g.N(len(s))] }

// perm shuffles in place
func perm[T any](g G, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := i - g.N(i+1)
		s[i], s[j] = s[j], s[i]
	}
}

var u64Gen = rapid.Uint64()

func (g G) U64() uint64 { return u64Gen.Draw(g.T, "u64") }

// intText gives the decimal text of an integer that fits the kind
func (g G) intText(t reflect.Type) string {
	bits := t.Bits()
	signed := t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
	c := g.N(10)
	if c < 5 {
		n := g.N(128)
		if signed && g.N(3) == 2 {
			n = -n
		}
		return strconv.Itoa(n)
	}
	if signed {
		v := int64(g.U64())
		switch c {
		case 5:
			v = math.MaxInt64
		case 6:
			v = math.MinInt64
		case 7:
			v = math.MinInt64 + 1<<(64-bits)*int64(g.N(3))
		}
		return strconv.FormatInt(v>>(64-bits), 10)
	}
	v := g.U64()
	switch c {
	case 5:
		v = math.MaxUint64
	case 6:
		v = 1 << 63
	case 7:
		v = math.MaxUint64 - 1<<(64-bits)*uint64(g.N(3))
	}
	return strconv.FormatUint(v>>(64-bits), 10)
}

var niceFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -1.5, 0.1, 0.2, 0.30000000000000004, 100, 1e6, 123456789.125, 1e15, 1e16, 1e20, 1e21, 1e22, 1e-5, 1e-6, 1e-7, 1e-9, 1.0 / 3, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 2.2250738585072014e-308, 9007199254740993, 4294967296.5, math.Pi, 3.4e38, 5e-324, -0.0000001, 16777217}

func (g G) float(bits int) float64 {
	f := 0.0
	switch g.N(4) {
	case 0, 1:
		f = niceFloats[g.N(len(niceFloats))]
	case 2:
		f = math.Float64frombits(g.U64())
	default:
		f = float64(int64(g.U64())) / 1024
	}
	if bits == 32 {
		f = float64(float32(f))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = -2.5
	}
	return f
}

var strAtoms = []string{"a", "b", "Z", "0", " ", "_", "é", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "{", "}", "[", "]", "(", ")", ",", ":", "$", "#", "@", "'", "€", "😀", "\u2028", "\u2029", "\x01", "\x1f", "\x7f", "\u0080", "<", ">", "&", "null", "true", "\\u0041", "\\n", "\"\"\"", "\U0010ffff", "\ufffd", "\u00ff", "\x00", "e", "...", "-1", "\n\t", "\n  ", "a\n", "  a\n    b\n  c", "\\"}

// among puts a long text before or behind a short one, or between two
func (g G) among(s string) string {
	switch g.N(4) {
	case 0:
		return s + strAtoms[g.N(len(strAtoms))]
	case 1:
		return strAtoms[g.N(len(strAtoms))] + s
	case 2:
		return strAtoms[g.N(len(strAtoms))] + s + strAtoms[g.N(len(strAtoms))]
	}
	return s
}

// str gives a valid UTF-8 string
func (g G) str() string {
	switch g.N(12) {
	case 0, 1, 2, 3:
		return []string{"", "a", "foo", "Hello world", "x1_y", "10"}[g.N(6)]
	case 11:
		if g.N(60) == 59 {
			return g.among(strings.Repeat(strAtoms[g.N(len(strAtoms))], []int{33000, 66000}[g.N(2)]))
		}
		return g.among(strings.Repeat(strAtoms[g.N(len(strAtoms))], []int{17, 64, 255, 256, 300, 1000}[g.N(6)]))
	}
	var sb strings.Builder
	for n := g.N(9); n > 0; n-- {
		switch g.N(12) {
		case 10:
			sb.WriteByte(byte(g.N(128)))
		case 11:
			r := rune(g.N([]int{0x100, 0x800, 0x10000, 0x110000}[g.N(4)]))
			if !utf8.ValidRune(r) {
				r = []rune{0xd7ff, 0xe000, 0x7ff, 0x800, 0xffff, 0x10000}[g.N(6)]
			}
			sb.WriteRune(r)
		default:
			sb.WriteString(strAtoms[g.N(len(strAtoms))])
		}
	}
	return sb.String()
}

// outStr gives any Go string
func (g G) outStr() string {
	s := g.str()
	if g.N(16) == 15 {
		s += []string{"\xff", "\xc3(", "\xed\xa0\x80", "a\x80b", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80", "\xe2\x82"}[g.N(8)]
		if g.N(2) == 1 {
			s += g.str()
		}
	}
	return s
}

var zones = []*time.Location{
	time.UTC, time.FixedZone("", 3600), time.FixedZone("X", -5*3600), time.FixedZone("IST", 5*3600+1800),
	time.FixedZone("N", 5*3600+2700), time.FixedZone("L", 14*3600), time.FixedZone("M", -12*3600), time.FixedZone("odd", 17*60+13),
}

// minTime and maxTime keep the year, in every zone, at four digits
const minTime, maxTime = -62167132800, 253402214400

func (g G) unix() int64 {
	switch g.N(6) {
	case 0:
		return int64(g.N(1000))
	case 1:
		return -int64(g.N(100000))
	case 2:
		return 1709164800 + int64(g.N(200000)) // around a leap day
	case 3:
		return minTime + int64(g.N(100000))
	case 4:
		return maxTime - int64(g.N(100000))
	}
	return minTime + int64(g.U64()%uint64(maxTime-minTime))
}

func (g G) time() time.Time {
	if g.N(10) == 9 {
		return time.Time{}
	}
	ns := []int64{0, 1, 999999, 1000000, 5e8, 999000000, 999999999, 123456789, 1e7, 99e6}[g.N(10)]
	return time.Unix(g.unix(), ns).In(zones[g.N(len(zones))])
}

// isoText is a time in the documented form
func (g G) isoText() string {
	u := time.Unix(g.unix(), int64(g.N(1000))*1000000).UTC()
	return u.Format("2006-01-02T15:04:05.000Z")
}

// Filler gives Go values random content
type Filler struct {
	G
	Left    int // remaining values that may be composite
	NaN     bool
	fns     int
	tags    int32
	Stack   int
	NoErrs  bool
	Only    map[string]bool // the fields of the root that matter (nil = all)
	Share   int             // composite values for each field of the root
	Simple  bool            // plain scalars only
	ErrPct  int             // how often resolvers fail
	BadUTF8 bool            // in error messages
	Panics  bool            // some failing resolvers panic
	NoNil   bool            // no nil pointers, lists and functions
	Full    bool            // nothing is nil as long as there is something left
	Long    int             // lists that may get hundreds of items
	made    map[reflect.Type][]reflect.Value
}

func (g G) Filler(budget int) *Filler { return &Filler{G: g, Left: budget} }

// Value makes a value of the type
func (f *Filler) Value(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	f.Fill(v, 0)
	return v
}

func (f *Filler) enumValue(v reflect.Value) bool {
	for _, e := range zooEnumList {
		if e.Go == v.Type() {
			if f.N(8) == 7 {
				return false // likely not a registered value
			}
			v.Set(e.Vals[e.Keys[f.N(len(e.Keys))]])
			return true
		}
	}
	return false
}

func (f *Filler) Fill(v reflect.Value, depth int) {
	t := v.Type()
	if f.Simple && f.simple(v) {
		return
	}
	if t == tTime {
		v.Set(reflect.ValueOf(f.time()))
		return
	}
	if t == tFile {
		return
	}
	switch k := t.Kind(); k {
	case reflect.Struct:
		f.Left--
		if f.Left < 0 && !f.NoNil {
			return
		}
		density := []int{70, 95, 30}[f.N(3)]
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.PkgPath != "" || sf.Type.Kind() == reflect.Map {
				continue
			}
			if sf.Name == "Tag" && sf.Type.Kind() == reflect.Int32 {
				f.tags++
				v.Field(i).SetInt(int64(f.tags))
				continue
			}
			if sf.Name == "RErr" {
				if !f.NoErrs && f.P(max(f.ErrPct, 20)) {
					v.Field(i).SetString("E" + strconv.Itoa(f.N(3)) + f.errText())
					if f.Panics && f.N(2) == 1 {
						v.Field(i).SetString(panicText)
					}
				}
				continue
			}
			if depth == 0 && f.Only != nil {
				if !f.Only[sf.Name] && sf.Tag != `gq:"-"` {
					continue
				}
				f.Left = f.Share
			} else if t.NumField() > 12 && !f.P(density) {
				continue
			}
			f.Fill(v.Field(i), depth+1)
		}
	case reflect.Ptr:
		if !f.NoNil && (f.Left <= 0 && compositeType(t) || !f.Full && f.N(10) == 0) {
			return
		}
		if old := f.made[t]; len(old) > 0 && f.N(12) == 7 {
			// one value at several places
			v.Set(old[f.N(len(old))])
			return
		}
		n := reflect.New(t.Elem())
		f.Fill(n.Elem(), depth)
		v.Set(n)
		if f.made == nil {
			f.made = map[reflect.Type][]reflect.Value{}
		}
		f.made[t] = append(f.made[t], n)
	case reflect.Slice:
		if !f.NoNil && !f.Full && f.N(8) == 0 {
			return
		}
		n := []int{0, 1, 2, 3, 2, 1, 5, 12}[f.N(8)]
		if f.Full {
			n = max(n, 1)
		}
		if compositeType(t) && n > f.Left {
			n = max(f.Left, 0)
		}
		s := reflect.MakeSlice(t, n, n+f.N(2))
		for i := 0; i < n; i++ {
			if i > 0 && f.N(10) == 7 {
				s.Index(i).Set(s.Index(i - 1))
				continue
			}
			f.Fill(s.Index(i), depth+1)
		}
		if f.Long > 0 && n > 0 && f.N(2) == 1 {
			f.Long--
			l := []int{100, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513, 1000}[f.N(12)]
			for s.Len() < l {
				s = reflect.Append(s, s.Index(f.N(n)))
			}
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.Fill(v.Index(i), depth+1)
		}
	case reflect.Interface:
		impls := regImpl[t]
		c := f.N(len(impls) + 2)
		if c == 0 || f.Left <= 0 {
			return
		}
		if c <= len(impls) {
			n := reflect.New(impls[c-1]).Elem()
			f.Fill(n, depth)
			v.Set(n)
		} else if t == tAnimal {
			v.Set(reflect.ValueOf(Ghost{Bark: "boo"}))
		} else if t == tNode {
			v.Set(reflect.ValueOf(Spook{Bark: "boo"}))
		}
	case reflect.Func:
		if !f.NoNil && f.N(8) == 7 {
			return
		}
		v.Set(f.Func(t, depth))
	case reflect.Bool:
		v.SetBool(f.N(2) == 1)
	case reflect.String:
		if !f.enumValue(v) {
			v.SetString(f.outStr())
		}
	case reflect.Float32, reflect.Float64:
		if f.NaN && f.N(10) == 9 {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[f.N(3)])
			return
		}
		v.SetFloat(f.float(t.Bits()))
	default:
		if v.CanInt() {
			if !f.enumValue(v) {
				n, _ := strconv.ParseInt(f.intText(t), 10, 64)
				v.SetInt(n)
			}
		} else if v.CanUint() {
			if !f.enumValue(v) {
				n, _ := strconv.ParseUint(f.intText(t), 10, 64)
				v.SetUint(n)
			}
		}
	}
}

func (f *Filler) errText() string {
	if f.Simple {
		return ""
	}
	if f.BadUTF8 {
		return f.outStr()
	}
	return f.str()
}

var simpleStrs = []string{"a", "b", "foo", "bar", "x y", "10", ""}

func (f *Filler) simple(v reflect.Value) bool {
	switch k := v.Kind(); {
	case v.Type() == tTime:
		v.Set(reflect.ValueOf(time.Unix(int64(f.N(100)), 0).UTC()))
	case isEnumType(v.Type()):
		for _, e := range zooEnumList {
			if e.Go == v.Type() {
				v.Set(e.Vals[e.Keys[f.N(len(e.Keys))]])
			}
		}
	case k == reflect.String:
		v.SetString(simpleStrs[f.N(len(simpleStrs))])
	case k == reflect.Float32 || k == reflect.Float64:
		v.SetFloat(float64(f.N(20)))
	case v.CanInt():
		v.SetInt(int64(f.N(100)))
	case v.CanUint():
		v.SetUint(uint64(f.N(100)))
	default:
		return false
	}
	return true
}

func compositeType(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	return t.Kind() == reflect.Struct && t != tTime || t.Kind() == reflect.Interface
}

// Func makes a resolver that logs its call and picks one of two prepared results by the arguments it gets
func (f *Filler) Func(t reflect.Type, depth int) reflect.Value {
	f.fns++
	name := "fn#" + strconv.Itoa(f.fns)
	results := make([][]reflect.Value, 1+f.N(2))
	panics := -1
	if f.Panics && f.N(2) == 1 {
		panics = f.N(len(results))
	}
	for i := range results {
		for j := 0; j < t.NumOut(); j++ {
			o := reflect.New(t.Out(j)).Elem()
			if isErrType(t.Out(j)) {
				if !f.NoErrs && f.P(max(f.ErrPct, 12)) {
					o.Set(reflect.ValueOf(codedErr{errors.New(name + " failed " + f.errText())}))
				}
			} else if t.Out(j) != tAttrID {
				f.Fill(o, depth+1)
			}
			results[i] = append(results[i], o)
		}
	}
	return reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
		h := fnv.New32()
		args := []interface{}{}
		var c reflect.Value
		for _, a := range in {
			if a.Type() == tCtxPtr {
				c = a
				continue
			}
			fmt.Fprint(h, canon(a), ";")
			args = append(args, a.Interface())
		}
		if c.IsValid() {
			logCall(ctxOf(c), name, args...)
		} else {
			logCall(nil, name, args...)
		}
		n := int(h.Sum32()) % len(results)
		if n == panics {
			panic(panicText)
		}
		return results[n]
	})
}

// Schema generation

var leafTypes = []reflect.Type{
	rt[int](), rt[string](), rt[bool](), rt[float64](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[float32](),
	rt[Fruit](), rt[Color](), rt[Level](), rt[Big](), rt[Solo](), rt[MyStr](), rt[MyInt](), rt[MyFloat](), rt[MyBool](), rt[Names](), rt[Grid](), rt[time.Time](),
}

var objTypes = []reflect.Type{
	rt[Person](), rt[Both](), rt[Cat](), rt[Dog](), rt[House](), rt[Renamed](), rt[Node](), rt[Animal](), rt[Scalars](), rt[Pair](),
}

var argStructs = []reflect.Type{
	rt[LabelArgs](), rt[PointIn](), rt[TreeIn](), rt[Both](), rt[RenamedIn](), rt[FixedIn](),
	rt[struct {
		A int32
		B *string
		C []Fruit
		D *TreeIn
	}](),
	rt[struct {
		ABC float64
		X   [][]Color
		Ok  bool
		Key uint8 `gq:"the_key,id"`
	}](),
}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var goNames = []string{"A", "B", "Id", "ID", "Name", "ABC", "ABc", "AB", "Foo", "FooBar", "Value", "List", "Node", "Type", "Query", "Mutation", "Fragment", "On", "Null", "True", "Data", "Errors", "Xx9", "Xx_y", "Resolve", "ResolveFoo", "Resolver", "Z", "Zz", "AZ"}
var tagNames = []string{"a", "b", "c", "foo_1", "FOO", "Foo", "on", "query", "fragment", "null", "true", "type", "schema", "input", "mutation", "x9", "a_", "z", "Z9", "Az", "zZ_0"}

// DynGen makes struct types with unknown shapes
type DynGen struct {
	G
	Left    int
	FnHeavy bool
	Files   bool // inputs are often files
	objs    []reflect.Type
}

func (d *DynGen) Struct(depth int) reflect.Type {
	used := map[string]bool{}
	usedGo := map[string]bool{}
	fields := []reflect.StructField{}
	n := 1 + d.N(6)
	if d.N(40) == 39 {
		n = 60 + d.N(260)
	}
	for i := 0; i < n; i++ {
		name := goNames[d.N(len(goNames))]
		if d.N(30) == 29 {
			name = "L" + strings.Repeat("o", []int{60, 120, 200, 253 - 4}[d.N(4)]) + "ng"
		}
		for usedGo[name] {
			name += strconv.Itoa(i)
			if len(name) == 2 {
				name += "q"
			}
			if name[1] >= '0' && name[1] <= '9' {
				name = "F" + "n" + name
			}
		}
		usedGo[name] = true
		f := reflect.StructField{Name: name}
		ql := qlName(name)
		tag := ""
		if d.N(5) == 4 {
			tag = tagNames[d.N(len(tagNames))]
			ql = tag
		}
		if used[ql] {
			tag = "t" + strconv.Itoa(i)
			ql = tag
		}
		if len(ql) > 254 || used[ql] {
			continue
		}
		idOK := false
		if len(fields) > 20 {
			f.Type = leafTypes[d.N(len(leafTypes))]
		} else {
			f.Type, idOK = d.field(depth)
		}
		if idOK && d.N(3) == 2 {
			tag += []string{",id", ",ID", ", Id"}[d.N(3)]
		}
		if d.N(16) == 15 && i > 0 {
			tag = "-"
		} else {
			used[ql] = true
		}
		if tag != "" {
			f.Tag = reflect.StructTag(`gq:"` + tag + `"`)
			if d.N(4) == 3 {
				f.Tag = reflect.StructTag(`json:"zz,omitempty" gq:"` + tag + `" xml:"yy"`)
			}
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

func (d *DynGen) field(depth int) (t reflect.Type, idOK bool) {
	if d.N(6) == 5 || d.FnHeavy && d.N(3) > 0 {
		return d.fn(depth), false
	}
	return d.Type(depth)
}

func (d *DynGen) fn(depth int) reflect.Type {
	in := []reflect.Type{}
	n := d.N(3)
	if d.Files && n == 0 {
		n = 1
	}
	if d.N(25) == 17 {
		n = 3 + d.N(6)
	}
	for ; n > 0; n-- {
		if d.N(3) == 2 {
			in = append(in, tCtxPtr)
		} else {
			in = append(in, d.ArgStruct(in))
		}
	}
	t, idOK := d.Type(depth)
	out := []reflect.Type{t}
	if d.N(3) != 0 {
		out = append(out, []reflect.Type{tErr, tErr, rt[CodedErr]()}[d.N(3)])
	}
	if idOK && d.N(4) == 3 {
		out = append(out, tAttrID)
	}
	perm(d.G, out)
	return reflect.FuncOf(in, out, false)
}

// ArgStruct gives an argument struct of which no argument has the name of one in earlier ones
func (d *DynGen) ArgStruct(have []reflect.Type) reflect.Type {
	for _, h := range have {
		if h != tCtxPtr {
			// a second struct with arguments
			return reflect.StructOf([]reflect.StructField{{Name: "Second" + strconv.Itoa(len(have)), Type: leafTypes[d.N(len(leafTypes))]}})
		}
	}
	if !d.Files && d.N(2) == 0 {
		return argStructs[d.N(len(argStructs))]
	}
	return d.InStruct(0)
}

func (d *DynGen) InStruct(depth int) reflect.Type {
	fields := []reflect.StructField{}
	used := map[string]bool{}
	n := 1 + d.N(4)
	if depth == 0 && d.N(40) == 23 {
		n = 250 + d.N(60)
	} else if depth > 0 && d.N(14) == 5 {
		n = []int{12, 18, 34, 66, 130}[d.N(5)]
	}
	for many := n > 10; n > 0; n-- {
		name := goNames[d.N(len(goNames))]
		if many {
			name = "In" + strconv.Itoa(n)
		}
		if used[name] {
			continue
		}
		used[name] = true
		f := reflect.StructField{Name: name}
		if len(fields) > 10 {
			f.Type = leafTypes[d.N(len(leafTypes))]
		} else {
			f.Type = d.InType(depth)
		}
		if d.N(6) == 5 {
			f.Tag = reflect.StructTag(`gq:"arg_` + name + `"`)
		} else if idKind(f.Type.Kind()) && f.Type.PkgPath() == "" && d.N(5) == 4 {
			f.Tag = `gq:",id"`
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

func (d *DynGen) InType(depth int) reflect.Type {
	if d.Files && d.N(5) < 2 {
		return tFile
	}
	switch c := d.N(8); {
	case c < 4 || depth > 3:
		return leafTypes[d.N(len(leafTypes))]
	case c == 4:
		return reflect.PtrTo(d.InType(depth + 1))
	case c == 5:
		t := reflect.SliceOf(d.InType(depth + 1))
		if d.N(30) == 13 {
			for n := d.N(9); n > 0; n-- {
				t = reflect.SliceOf(t)
			}
		}
		return t
	case c == 6:
		if d.N(15) == 7 {
			return reflect.ArrayOf(d.N(4), d.InType(depth+1))
		}
		return argStructs[d.N(len(argStructs))]
	}
	return d.InStruct(depth + 1)
}

func (d *DynGen) Type(depth int) (t reflect.Type, idOK bool) {
	d.Left--
	switch c := d.N(10); {
	case c < 3 || c < 4 && depth > 1 || depth > 4 || d.Left < 0:
		t = leafTypes[d.N(len(leafTypes))]
		return t, idKind(t.Kind()) && !isEnumType(t)
	case c == 4:
		t, idOK = d.Type(depth + 1)
		return reflect.PtrTo(t), idOK
	case c == 5:
		t, _ = d.Type(depth + 1)
		t = reflect.SliceOf(t)
		if d.N(30) == 13 {
			for n := d.N(9); n > 0; n-- {
				t = reflect.SliceOf(t)
			}
		}
		return t, false
	case c == 6 && d.N(2) == 1:
		t, _ = d.Type(depth + 1)
		return reflect.ArrayOf(d.N(4), t), false
	case c <= 7 && c != 3:
		return objTypes[d.N(len(objTypes))], false
	}
	return d.Struct(depth + 1), false
}

var zooEnumList = func() (l []*Enum) {
	for _, e := range zooEnums {
		l = append(l, NewEnum(e))
	}
	return
}()

func isEnumType(t reflect.Type) bool {
	for _, e := range zooEnumList {
		if e.Go == t {
			return true
		}
	}
	return false
}
