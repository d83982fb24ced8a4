package harness

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

// single makes a request for one field on a root
func (e *Env) single(kind string, sels []*Sel, vars ...*VarDef) *Request {
	r := &Request{Op: &Op{Kind: kind, Name: "x", Sel: sels, Vars: vars}}
	r.Doc = &Doc{Defs: []*Def{{Op: r.Op}}}
	r.print(nil)
	return r
}

func (r *Request) print(lay Layout) {
	r.Query = r.Doc.Print(lay)
	r.Opts.Variables = r.Op.VariablesJSON(nil, nil)
}

func fieldSel(name string, args ...*KV) *Sel { return &Sel{K: SField, Name: name, Args: args} }

// wrap puts a type in pointers and lists
func (g G) wrap(t reflect.Type, input bool) reflect.Type {
	for n := g.N(4); n > 0; n-- {
		switch c := g.N(5); {
		case c < 2:
			t = reflect.PtrTo(t)
		case c == 4 && !input:
			t = reflect.ArrayOf(1+g.N(3), t)
		default:
			t = reflect.SliceOf(t)
		}
	}
	return t
}

var scalarTypes = []reflect.Type{
	rt[string](), rt[float64](), rt[float32](), rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](),
	rt[bool](), rt[MyStr](), rt[MyInt](), rt[MyFloat](), rt[MyBool](), rt[string](), rt[string](), rt[float64](),
}

func TestC23(t *testing.T) {
	check(t, "a case is an object with up to 8 generated scalar fields (plain, in pointers, lists and arrays, returned by functions), all selected; non-trivial: a non-empty string, a number of more than 3 digits or a non-integer is written", func(g G, st *Stats) {
		long := g.N(40) == 23
		fields := []reflect.StructField{}
		sels := []*Sel{}
		for n := 1 + g.N(8); n > 0; n-- {
			base := scalarTypes[g.N(len(scalarTypes))]
			ft := g.wrap(base, false)
			if g.N(6) == 5 {
				ft = reflect.FuncOf(nil, []reflect.Type{ft}, false)
			}
			if long && n == 1 {
				ft = rt[string]()
			}
			name := "F" + strings.Repeat("x", n)
			fields = append(fields, reflect.StructField{Name: name, Type: ft})
			sels = append(sels, fieldSel(qlName(name)))
		}
		e := newModel(reflect.StructOf(fields), rt[SmallMutation]())
		f := g.Filler(50)
		f.NaN = true
		e.Data(f)
		if long {
			// a long text, plain or not, with other characters in it
			plain := []string{"a", "é", "€", "😀", "\n", "\xff", "\u2028", "<"}
			s := func() string {
				return strings.Repeat(plain[g.N(len(plain))], []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 255, 256}[g.N(6)]+g.N(3))
			}
			text := strAtoms[g.N(len(strAtoms))] + s() + strAtoms[g.N(len(strAtoms))] + s() + strAtoms[g.N(len(strAtoms))]
			for i := 0; i < e.Q.NumField(); i++ {
				if v := e.Q.Field(i); v.Kind() == reflect.String {
					v.SetString(text)
					st.Class("text of more than 64 kB", len(text) > 65536)
				}
			}
			e.S = e.Build(nil)
		}
		r := e.single("query", sels)
		if g.N(4) == 3 {
			r.Opts.NoMeta = true
		}
		x := e.Expect(r)
		resp := resolve(e.S, r.Query, r.Opts)
		if err := x.compare(resp, r.Opts, cmp{data: true}); err != nil {
			g.fatal(err, e, r, resp)
		}
		text := x.Data.String()
		st.Class("non-finite", strings.Contains(text, "<any>"))
		st.Class("long string", len(text) > 300)
		st.Class("escapes", strings.Contains(text, `\`))
		st.Class("invalid UTF-8", strings.Contains(text, "\ufffd"))
		st.Class("exponent", strings.Contains(text, "e+") || strings.Contains(text, "e-"))
		st.Case(len(text) > 20, text)
	})
}

func TestC24(t *testing.T) {
	check(t, "a case is a time returned by a field in a generated zone, or a text given as time argument (literal, variable, default; plain, pointer, list) that is a valid time, near to one, or not a time; non-trivial: a time not in UTC or with a sub-second part, or any argument", func(g G, st *Stats) {
		old := time.Local
		time.Local = zones[g.N(len(zones))]
		defer func() { time.Local = old }()
		if g.N(3) == 0 {
			ft := g.wrap(tTime, false)
			if g.N(3) == 2 {
				ft = reflect.FuncOf(nil, []reflect.Type{ft, tErr}, false)
			}
			e := newModel(reflect.StructOf([]reflect.StructField{{Name: "T", Type: ft}}), rt[SmallMutation]()).Data(g.Filler(20))
			r := e.single("query", []*Sel{fieldSel("t")})
			x := e.Expect(r)
			resp := resolve(e.S, r.Query, r.Opts)
			if err := x.compare(resp, r.Opts, cmp{data: true}); err != nil {
				g.fatal(err, e, r, resp)
			}
			st.Class("output", true)
			st.Case(x.Data.Vals[0].Kind != ENull, canon(e.Q))
			return
		}
		text := g.isoText()
		want, valid := time.Time{}, true
		if g.N(2) == 1 {
			valid = false
			switch g.N(6) {
			case 0:
				text = []string{"", "now", "0", "2021-02-30T00:00:00.000Z", "2021-13-01T00:00:00.000Z", "2021-00-01T00:00:00.000Z", "2021-01-01T24:00:00.000Z", "2021-01-01T00:60:00.000Z", "2021-01-01T00:00:60.000Z", "2019-02-29T00:00:00.000Z", "1900-02-29T00:00:00.000Z", "null", "2021-01-01T", "T00:00:00.000Z", "2021-04-31T12:00:00.000Z"}[g.N(15)]
			case 1:
				text = text[:g.N(len(text))]
			case 2:
				i := g.N(len(text))
				text = text[:i] + string("x9-:TZ .0"[g.N(9)]) + text[i+1:]
			case 3:
				i := g.N(len(text) + 1)
				text = text[:i] + string("x9-:TZ 0"[g.N(8)]) + text[i:]
			case 4:
				text = text[:len(text)-1] + []string{"+01:00", "", "+00:00", "-05:30", "z", "ZZ", " "}[g.N(7)]
			case 5:
				text = strings.Replace(text, ".", []string{"", ",", ":", " "}[g.N(4)], 1)
			}
		}
		ref, err := time.Parse("2006-01-02T15:04:05.999999999Z07:00", strings.Replace(text, ",", ".", 1))
		if err == nil {
			want = ref
		}
		isTime := err == nil
		if i := strings.IndexAny(text, ".,"); i >= 0 && strings.ContainsAny(text[i+1:], "+-") && err != nil {
			return // package time reads the digits of a second with a sign
		}
		canonical := len(text) == 24 && isTime && text[23] == 'Z' && text[19] == '.'
		if valid && !canonical {
			panic("harness: " + text)
		}
		at := reflect.StructOf([]reflect.StructField{{Name: "T", Type: tTime}, {Name: "P", Type: reflect.PtrTo(tTime)}, {Name: "L", Type: reflect.SliceOf(tTime)}})
		e := newModel(reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.FuncOf([]reflect.Type{at}, []reflect.Type{rt[bool]()}, false)}}), rt[SmallMutation]())
		f := g.Filler(20)
		var got *time.Time
		e.Data(f)
		e.Q = reflect.New(e.M.Query.Go).Elem()
		e.Q.Field(0).Set(reflect.MakeFunc(e.Q.Field(0).Type(), func(in []reflect.Value) []reflect.Value {
			a := in[0]
			var v time.Time
			switch {
			case a.Field(1).Kind() == reflect.Ptr && !a.Field(1).IsNil():
				v = a.Field(1).Elem().Interface().(time.Time)
			case a.Field(2).Len() > 0:
				v = a.Field(2).Index(0).Interface().(time.Time)
			default:
				v = a.Field(0).Interface().(time.Time)
			}
			got = &v
			return []reflect.Value{reflect.ValueOf(true)}
		}))
		e.S = e.Build(nil)
		v := &Value{K: VString, S: text}
		vars := []*VarDef{}
		wrapList := false
		arg := []string{"t", "p", "l"}[g.N(3)]
		wrapList = arg == "l"
		val := v
		how := g.N(3)
		if how > 0 {
			d := &VarDef{Name: "v", Type: []string{"Time", "Time!", "String"}[g.N(3)], Given: v}
			if how == 2 {
				d.Given, d.Default = nil, v
			}
			vars = append(vars, d)
			val = &Value{K: VVar, S: "v"}
		}
		if wrapList {
			val = &Value{K: VList, L: []*Value{val}}
		}
		r := e.single("query", []*Sel{fieldSel("f", &KV{arg, val})}, vars...)
		resp := resolve(e.S, r.Query, r.Opts)
		if err := resp.envelope(r.Opts); err != nil {
			g.fatal(err, e, r, resp)
		}
		switch {
		case got == nil && (len(resp.Errs) == 0 || canonical):
			g.fatal(fmt.Errorf("the resolver was not called"), e, r, resp)
		case got != nil && !isTime:
			g.fatal(fmt.Errorf("the resolver got %v for a text that is no time", *got), e, r, resp)
		case got != nil && !got.Equal(want):
			g.fatal(fmt.Errorf("the resolver got %v instead of %v", *got, want), e, r, resp)
		case got != nil && len(resp.Errs) > 0:
			g.fatal(fmt.Errorf("an error although the resolver was called"), e, r, resp)
		}
		st.Class("input, valid", valid)
		st.Class("input, refused", got == nil)
		st.Case(true, r.Key())
	})
}

var idTypes = []reflect.Type{rt[string](), rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[MyStr](), rt[MyInt]()}

func TestC25(t *testing.T) {
	check(t, "a case is a field or method labelled ID of a generated type and value, whose text in the response is given back as ID argument of the same type (literal, variable or default; plain or pointer); non-trivial: the value is not nil or empty", func(g G, st *Stats) {
		base := idTypes[g.N(len(idTypes))]
		t := base
		for n := g.N(4); n > 1; n-- {
			t = reflect.PtrTo(t)
		}
		tag := reflect.StructTag(`gq:",` + []string{"id", "ID", " Id "}[g.N(3)] + `"`)
		var rootT reflect.Type
		echo := reflect.StructField{Name: "Echo", Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "Key", Type: t, Tag: tag}})}, []reflect.Type{t, tAttrID}, false)}
		method := g.N(2) == 1
		if method {
			out := []reflect.Type{t, tAttrID, tErr}
			perm(g, out)
			rootT = reflect.StructOf([]reflect.StructField{{Name: "Key", Type: reflect.FuncOf(nil, out, false)}, echo})
		} else {
			rootT = reflect.StructOf([]reflect.StructField{{Name: "Key", Type: t, Tag: tag}, echo})
		}
		e := newModel(rootT, rt[SmallMutation]())
		f := g.Filler(20)
		f.NoErrs = true
		val := f.Value(t)
		e.Q = reflect.New(rootT).Elem()
		if method {
			e.Q.Field(0).Set(reflect.MakeFunc(e.Q.Field(0).Type(), func([]reflect.Value) (res []reflect.Value) {
				for j := 0; j < 3; j++ {
					o := e.Q.Field(0).Type().Out(j)
					if o == t {
						res = append(res, val)
					} else {
						res = append(res, reflect.Zero(o))
					}
				}
				return
			}))
		} else {
			e.Q.Field(0).Set(val)
		}
		var got reflect.Value
		e.Q.Field(1).Set(reflect.MakeFunc(echo.Type, func(in []reflect.Value) []reflect.Value {
			// strings are only valid during the request
			got = reflect.New(base).Elem()
			v := in[0].Field(0)
			for v.Kind() == reflect.Ptr && !v.IsNil() {
				v = v.Elem()
			}
			if v.Kind() == reflect.String {
				got.SetString(strings.Clone(v.String()))
			} else if v.Kind() != reflect.Ptr {
				got.Set(v)
			}
			return []reflect.Value{in[0].Field(0), reflect.Zero(tAttrID)}
		}))
		e.Mut = g.Filler(0).Value(rt[SmallMutation]())
		e.S = e.Build(nil)
		r := e.single("query", []*Sel{fieldSel("key")})
		x, resp := g.must(e, r, cmp{data: true})
		j := resp.J.Get("data").Get("key")
		if j.Kind == JNull {
			st.Class("null", true)
			st.Case(false, "")
			return
		}
		v := &Value{K: VString, S: j.S}
		vars := []*VarDef{}
		arg := v
		if how := g.N(3); how > 0 {
			d := &VarDef{Name: "v", Type: []string{"ID", "ID!", "String"}[g.N(3)], Given: v}
			if how == 2 {
				d.Given, d.Default = nil, v
			}
			vars = append(vars, d)
			arg = &Value{K: VVar, S: "v"}
		}
		r = e.single("query", []*Sel{fieldSel("echo", &KV{"key", arg})}, vars...)
		resp = resolve(e.S, r.Query, r.Opts)
		if err := resp.envelope(r.Opts); err != nil {
			g.fatal(err, e, r, resp)
		}
		if len(resp.Errs) > 0 || !got.IsValid() {
			g.fatal(fmt.Errorf("the ID %q of the response was refused as argument", v.S), e, r, resp)
		}
		plain := val
		for plain.Kind() == reflect.Ptr {
			plain = plain.Elem()
		}
		want := canon(plain)
		if base.Kind() == reflect.String {
			want = strconv.QuoteToASCII(string([]rune(plain.String())))
		}
		if canon(got) != want {
			g.fatal(fmt.Errorf("the ID %s came back as %s", want, canon(got)), e, r, resp)
		}
		if k := resp.J.Get("data").Get("echo"); k.Kind != JStr || k.S != v.S {
			g.fatal(fmt.Errorf("the ID %s was echoed as %s", j, k), e, r, resp)
		}
		st.Class("method", method)
		st.Class("pointer", t != base)
		st.Case(v.S != "", t.String()+" "+v.S+" "+r.Key())
		_ = x
	})
}

var enumTypes = []reflect.Type{rt[Fruit](), rt[Color](), rt[Level](), rt[Big](), rt[Solo](), rt[Tiny](), rt[Mid](), rt[Wide](), rt[Short](), rt[Quad](), rt[Plain]()}
var enumKeys = []string{"A", "B", "AB", "ABC", "a", "b", "RED", "RED_", "RED_1", "red", "Red", "nullX", "trueX", "falseX", "x", "x1", "query", "on", "fragment", "type", "e", "E", "LONG_NAME_OF_AN_ENUM_VALUE_WITH_MORE_THAN_64_CHARACTERS_AAAAAAAAAAAAAAAAAAAAAAA"}

// randomEnum makes a registration for the type
func (g G) randomEnum(t reflect.Type) *Enum {
	m := reflect.MakeMap(reflect.MapOf(rt[string](), t))
	used := map[string]bool{}
	f := g.Filler(0)
	n := 1 + g.N(7)
	keys := append([]string{}, enumKeys...)
	perm(g, keys)
	if g.N(40) == 23 {
		// a lot of values
		k := g.N(128)
		for i := 0; i < 300; i++ {
			v := reflect.New(t).Elem()
			switch {
			case v.Kind() == reflect.String:
				v.SetString("v" + strconv.Itoa(k*i))
			case v.CanInt():
				v.SetInt(int64(i*i - k*i))
			default:
				v.SetUint(uint64(i * (k + i)))
			}
			if s := canon(v); !used[s] {
				used[s] = true
				m.SetMapIndex(reflect.ValueOf("KEY_"+strconv.Itoa(i)), v)
			}
		}
		return NewEnum(m.Interface())
	}
	for _, k := range keys[:n] {
		v := reflect.New(t).Elem()
		for try := 0; try < 5; try++ {
			switch {
			case v.Kind() == reflect.String:
				v.SetString(f.str())
			case v.CanInt():
				i, _ := strconv.ParseInt(f.intText(t), 10, 64)
				v.SetInt(i)
			default:
				i, _ := strconv.ParseUint(f.intText(t), 10, 64)
				v.SetUint(i)
			}
			if !used[canon(v)] {
				break
			}
		}
		if used[canon(v)] {
			continue
		}
		used[canon(v)] = true
		m.SetMapIndex(reflect.ValueOf(k), v)
	}
	return NewEnum(m.Interface())
}

func TestC26(t *testing.T) {
	check(t, "a case is a set of generated enum registrations, values of them (registered or not) returned in fields, pointers and lists, and names given as argument (literal, JSON string, default; plain, pointer, list, in an input object) that are registered or close to registered; non-trivial: a registered value is written or any argument", func(g G, st *Stats) {
		reg := &Registry{Dirs: zooDirectives()}
		types := append([]reflect.Type{}, enumTypes...)
		perm(g, types)
		for _, et := range types[:2+g.N(5)] {
			reg.Enums = append(reg.Enums, g.randomEnum(et))
		}
		if g.N(15) == 7 {
			// among many
			more := pads([]int{5, 12, 30, 128, 260}[g.N(5)])
			n := g.N(len(more) + 1)
			reg.Enums = append(append(append([]*Enum{}, more[:n]...), reg.Enums...), more[n:]...)
			st.Class("enums of at least 100", len(reg.Enums) >= 100)
		}
		en := reg.Enums[g.N(len(reg.Enums))]
		reg.Dirs = nil
		wt := g.wrap(en.Go, true)
		arg := reflect.StructOf([]reflect.StructField{
			{Name: "V", Type: en.Go}, {Name: "P", Type: reflect.PtrTo(en.Go)}, {Name: "L", Type: reflect.SliceOf(en.Go)},
			{Name: "O", Type: reflect.StructOf([]reflect.StructField{{Name: "In", Type: en.Go}, {Name: "Ins", Type: reflect.SliceOf(reflect.PtrTo(en.Go))}})},
		})
		rootT := reflect.StructOf([]reflect.StructField{
			{Name: "Out", Type: g.wrap(en.Go, false)}, {Name: "Single", Type: en.Go},
			{Name: "Echo", Type: reflect.FuncOf([]reflect.Type{arg}, []reflect.Type{wt}, false)},
		})
		e := &Env{Reg: reg}
		var err error
		if e.M, err = BuildModel(reg, rootT, rt[EmptyMutation]()); err != nil {
			panic(err)
		}
		// fill with registered values mostly
		old := zooEnumList
		zooEnumList = reg.Enums
		f := g.Filler(20)
		e.Q, e.Mut = f.Value(rootT), reflect.ValueOf(EmptyMutation{})
		echoed := f.Value(wt)
		zooEnumList = old
		var got string
		e.Q.Field(2).Set(reflect.MakeFunc(rootT.Field(2).Type, func(in []reflect.Value) []reflect.Value {
			got = canon(in[0])
			return []reflect.Value{echoed}
		}))
		e.S = e.Build(nil)
		r := e.single("query", []*Sel{fieldSel("out"), fieldSel("single"), fieldSel("echo")})
		x, resp := g.must(e, r, cmp{data: true, errs: true})
		text := x.Data.String()
		st.Class("output of an unregistered value", x.Data.Vals[1].Kind == ENull)
		st.Case(strings.Contains(strings.ReplaceAll(text, `"out"`, ""), `"`), fmt.Sprint(en.Map)+text)

		// argument
		name := en.Keys[g.N(len(en.Keys))]
		_, known := en.Vals[name]
		if g.N(2) == 1 {
			switch g.N(4) {
			case 0:
				name = name[:len(name)-1]
			case 1:
				name += string("_aX1"[g.N(4)])
			case 2:
				name = enumKeys[g.N(len(enumKeys))]
			case 3:
				if strings.ToLower(name) != name {
					name = strings.ToLower(name)
				} else {
					name = strings.ToUpper(name)
				}
			}
			if !validName(name) || name == "null" || name == "true" || name == "false" {
				name = "UNKNOWN"
			}
			_, known = en.Vals[name]
		}
		v := &Value{K: VEnum, S: name}
		if g.N(4) == 2 {
			// a string names a key too, but what Go knows the value by does not
			v.K = VString
			if g.N(2) == 1 {
				v.S = fmt.Sprint(en.Vals[en.Keys[g.N(len(en.Keys))]])
				_, known = en.Vals[v.S]
			}
			st.Class("key as a string", true)
		}
		vars := []*VarDef{}
		val := v
		if how := g.N(3); how > 0 {
			d := &VarDef{Name: "v", Type: []string{en.Name, en.Name + "!", "String"}[g.N(3)], Given: v}
			if how == 2 {
				d.Given, d.Default = nil, v
			}
			vars = append(vars, d)
			val = &Value{K: VVar, S: "v"}
		}
		var kv *KV
		switch g.N(5) {
		case 0, 1:
			kv = &KV{"V", val}
			kv.Name = "v"
		case 2:
			kv = &KV{"p", val}
		case 3:
			kv = &KV{"l", &Value{K: VList, L: []*Value{val}}}
			if g.N(2) == 1 {
				kv.V.L = append([]*Value{{K: VEnum, S: en.Keys[0]}}, kv.V.L...)
			}
		case 4:
			kv = &KV{"o", &Value{K: VObject, O: []*KV{{"in", val}}}}
			if g.N(2) == 1 {
				kv.V.O[0] = &KV{"ins", &Value{K: VList, L: []*Value{val}}}
			}
		}
		r = e.single("query", []*Sel{fieldSel("echo", kv)}, vars...)
		got = ""
		x = e.Expect(r)
		want := got
		got = ""
		resp = resolve(e.S, r.Query, r.Opts)
		if err := resp.envelope(r.Opts); err != nil {
			g.fatal(err, e, r, resp)
		}
		if got != want {
			g.fatal(fmt.Errorf("the resolver got %q instead of %q", got, want), e, r, resp, fmt.Sprint(en.Map))
		}
		if known != (len(resp.Errs) == 0) || known != !x.Critical {
			g.fatal(fmt.Errorf("registered: %v, errors: %v", known, resp.errList()), e, r, resp, fmt.Sprint(en.Map))
		}
		// what is no name
		bad := []*Value{{K: VInt, S: "0"}, {K: VInt, S: "7"}, {K: VBool, B: true}, {K: VFloat, S: "1.0"}, {K: VObject}}[g.N(5)]
		d := &VarDef{Name: "v", Type: en.Name, Given: bad}
		r = e.single("query", []*Sel{fieldSel("echo", &KV{"v", bad})})
		if g.N(2) == 1 {
			r = e.single("query", []*Sel{fieldSel("echo", &KV{"v", &Value{K: VVar, S: "v"}})}, d)
		}
		got = ""
		resp = resolve(e.S, r.Query, r.Opts)
		if err := resp.envelope(r.Opts); err != nil {
			g.fatal(err, e, r, resp)
		}
		if got != "" || len(resp.Errs) == 0 {
			g.fatal(fmt.Errorf("a value that is no name was accepted for an enum: %s", got), e, r, resp)
		}
		st.Class("registered name", known)
		st.Class("unregistered name", !known)
		st.Case(true, fmt.Sprint(en.Map)+r.Key())
	})
}

// EmptyMutation is the smallest root
type EmptyMutation struct{ A string }

// IfaceQuery has interface values in many positions
type IfaceQuery struct {
	Tag    int32    `gq:"-"`
	RPet   Animal   `gq:"-"`
	RNodes []Node   `gq:"-"`
	RPets  []Animal `gq:"-"`
	Pet    Animal
	Pets   []Animal
	Grid   [][]Animal
	PPet   *Animal
	Node   Node
	Nodes  []Node
	PNodes []*Node
	Arr    [2]Node
	FnPet  func() (Animal, error)
	FnNode func(args struct{ A int }) *Node
	Cat    Cat
	Home   *House
	Crowd  Crowd
	Crowds []Crowd
	Roles  []Role
	PRole  *Role3
	Role7s []Role7
}

func (q IfaceQuery) ResolveGetPet() Animal    { return q.RPet }
func (q IfaceQuery) ResolveGetNodes() []Node  { return q.RNodes }
func (q IfaceQuery) ResolveGetPets() []Animal { return q.RPets }

func TestC27(t *testing.T) {
	check(t, "a case is a request with many fragments on a schema whose fields are interfaces in lists, pointers, arrays and results; values are of all registered types, an unregistered type or nil; non-trivial: an interface value is resolved with at least 2 fields", func(g G, st *Stats) {
		f := g.Filler(40)
		f.Simple, f.NoErrs = true, true
		e, reqs := g.batch(newModel(rt[IfaceQuery](), rt[SmallMutation]()), f, 3, QOpts{Simple: true, NoDirs: true, NoVars: true, FragHeavy: true, MaxDepth: 4})
		for _, r := range reqs {
			x, _ := g.must(e, r, cmp{trace: true, data: true, calls: callName, keep: notDirCall})
			text := x.Data.String()
			for _, n := range []string{`"Cat"`, `"Dog"`, `"Cat2"`, `"House"`, `"Person"`} {
				st.Class("type name "+n, strings.Contains(text, n))
			}
			st.Class("spreads", x.Spreads > 2)
			st.Case(x.Depth > 0 && x.Fields > 2, r.Key()+canon(e.Q))
		}
	})
}

// number classifies the text of a number: its exact value
func exactNumber(s string) (*big.Rat, bool) {
	return new(big.Rat).SetString(s)
}

var intKinds = []reflect.Type{rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[MyInt]()}

func TestC08(t *testing.T) {
	check(t, "a case is a number (near the bounds of every integer size, huge, fractional, with exponent) given as literal, JSON variable, default or ID text to an integer or float argument, plain or in pointers, lists and input objects, next to other arguments; non-trivial: the number has more than 2 digits or is refused", func(g G, st *Stats) {
		isID, isFloat := false, false
		base := intKinds[g.N(len(intKinds))]
		switch g.N(6) {
		case 4:
			isID = true
		case 5:
			isFloat = true
			base = []reflect.Type{rt[float32](), rt[float64]()}[g.N(2)]
		}
		// the text of the number
		bits := base.Bits()
		signed := base.Kind() >= reflect.Int && base.Kind() <= reflect.Int64
		text := ""
		two := big.NewInt(2)
		bound := new(big.Int)
		switch g.N(6) {
		case 0:
			bound.SetInt64(int64(g.N(300)))
		case 1: // the upper bound
			b := bits
			if signed {
				b--
			}
			bound.Exp(two, big.NewInt(int64(b)), nil)
			bound.Add(bound, big.NewInt(int64(g.N(5)-3)))
		case 2: // the lower bound
			if signed {
				bound.Exp(two, big.NewInt(int64(bits-1)), nil)
				bound.Neg(bound)
			}
			bound.Add(bound, big.NewInt(int64(g.N(5)-3)))
		case 3: // a bound of another size
			bound.Exp(two, big.NewInt(int64([]int{7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 128}[g.N(11)])), nil)
			bound.Add(bound, big.NewInt(int64(g.N(5)-2)))
			if g.N(2) == 1 {
				bound.Neg(bound)
			}
		case 4:
			bound.SetUint64(g.U64())
			if g.N(2) == 1 {
				bound.Neg(bound)
			}
		case 5: // many digits
			bound.Exp(big.NewInt(10), big.NewInt(int64(18+g.N(30))), nil)
			bound.Add(bound, big.NewInt(int64(g.N(9))))
		}
		text = bound.String()
		plainInt := true
		if g.N(4) == 3 {
			plainInt = false
			text += []string{".0", ".5", "e0", "e2", "E-1", ".000", "e400", "e39", ".25e1", "e-400"}[g.N(10)]
		}
		if text == "-0" {
			text = "0"
		}
		how := g.N(3)
		v := &Value{K: VInt, S: text}
		if !plainInt {
			v.K = VFloat
		}
		if isID {
			v = &Value{K: VString, S: text}
			if g.N(5) == 4 {
				plainInt = false
				v.S = []string{"", " 1", "1 ", "0x10", "1_000", "abc", "1a", "--1", "-", "１", "1.0", "1e3", "null", "true", "0b1", "1,0"}[g.N(16)]
			}
		}
		// what must happen
		exact, isNum := exactNumber(v.S)
		fits := false
		if isNum && plainInt && !isFloat {
			_, err := strconv.ParseInt(text, 10, bits)
			if !signed {
				_, err = strconv.ParseUint(text, 10, bits)
			}
			fits = err == nil
		}
		wantF := 0.0
		edge := false
		if isFloat {
			var err error
			wantF, err = strconv.ParseFloat(text, 64)
			fits = err == nil && !(bits == 32 && reflect.Zero(base).OverflowFloat(wantF))
			// between the largest float32 and where rounding goes to infinity either answer is fine
			_, err32 := strconv.ParseFloat(text, bits)
			edge = fits != (err32 == nil)
			if bits == 32 {
				wantF = float64(float32(wantF))
			}
		}
		// where it is put
		t := base
		val := v
		vars := []*VarDef{}
		path := []string{}
		declared := "Int"
		if isFloat {
			declared = "Float"
		}
		if isID {
			declared = "ID"
		}
		if how > 0 {
			d := &VarDef{Name: "n", Type: declared + []string{"", "!"}[g.N(2)], Given: v}
			if how == 2 {
				d.Given, d.Default = nil, v
			}
			vars = append(vars, d)
			val = &Value{K: VVar, S: "n"}
		}
		for n := g.N(3); n > 0; n-- {
			switch g.N(3) {
			case 0:
				t = reflect.PtrTo(t)
				path = append(path, "p")
			case 1:
				if isID {
					continue // the label is not for lists
				}
				t = reflect.SliceOf(t)
				path = append(path, "l")
				val = &Value{K: VList, L: []*Value{val}}
				if how > 0 && g.N(2) == 1 && len(vars[0].Type) < 12 {
					// the list is the variable
					d := vars[0]
					if val.L[0].K == VVar {
						d.Type = "[" + d.Type + "]"
						if d.Given != nil {
							d.Given = &Value{K: VList, L: []*Value{d.Given}}
						} else {
							d.Default = &Value{K: VList, L: []*Value{d.Default}}
						}
						val = val.L[0]
					}
				}
			case 2:
				if isID {
					continue
				}
				t = reflect.StructOf([]reflect.StructField{{Name: "In", Type: t}})
				path = append(path, "s")
				val = &Value{K: VObject, O: []*KV{{"in", val}}}
			}
		}
		fld := reflect.StructField{Name: "Num", Type: t}
		if isID {
			fld.Tag = `gq:",id"`
		}
		arg := reflect.StructOf([]reflect.StructField{{Name: "Before", Type: rt[int]()}, fld, {Name: "After", Type: rt[string]()}})
		rootT := reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.FuncOf([]reflect.Type{arg}, []reflect.Type{rt[bool]()}, false)}})
		e := newModel(rootT, rt[SmallMutation]())
		e.Q, e.Mut = reflect.New(rootT).Elem(), reflect.New(rt[SmallMutation]()).Elem()
		calls := []string{}
		e.Q.Field(0).Set(reflect.MakeFunc(rootT.Field(0).Type, func(in []reflect.Value) []reflect.Value {
			v := in[0].Field(1)
			for i := len(path) - 1; i >= 0 && v.IsValid(); i-- {
				switch path[i] {
				case "p":
					v = v.Elem()
				case "l":
					if v.Len() != 1 {
						v = reflect.Value{}
					} else {
						v = v.Index(0)
					}
				case "s":
					v = v.Field(0)
				}
			}
			calls = append(calls, canon(v))
			return []reflect.Value{reflect.ValueOf(true)}
		}))
		e.S = e.Build(nil)
		args := []*KV{{"num", val}}
		if g.N(3) == 2 {
			args = append(args, &KV{"before", &Value{K: VInt, S: "7"}}, &KV{"after", &Value{K: VString, S: "x"}})
			perm(g, args)
		}
		r := e.single("query", []*Sel{fieldSel("f", args...)}, vars...)
		resp := resolve(e.S, r.Query, r.Opts)
		if err := resp.envelope(r.Opts); err != nil {
			g.fatal(err, e, r, resp)
		}
		extra := fmt.Sprintf("argument type %s, number %s, calls %v", t, v.S, calls)
		want := ""
		if fits && isFloat {
			want = canon(reflect.ValueOf(wantF))
		} else if fits {
			want = exact.Num().String()
		}
		switch {
		case edge || isFloat && !plainInt && strings.Contains(text, "e-400"):
			// out of range or rounded
		case fits && (len(calls) != 1 || len(resp.Errs) > 0):
			g.fatal(fmt.Errorf("a number that fits was refused"), e, r, resp, extra)
		case fits && calls[0] != want && calls[0] != strings.Replace(want, "-0", "0", 1):
			g.fatal(fmt.Errorf("the resolver got %s instead of %s", calls[0], want), e, r, resp, extra)
		case !fits && (len(calls) > 0 || len(resp.Errs) == 0):
			g.fatal(fmt.Errorf("a number that does not fit was not refused"), e, r, resp, extra)
		}
		st.Class("fits", fits)
		st.Class("refused", !fits)
		st.Class("ID", isID)
		st.Class("float", isFloat)
		st.Class([]string{"literal", "JSON variable", "default"}[how], true)
		st.Class("nested", len(path) > 0)
		st.Case(len(text) > 2 || !fits, t.String()+r.Key())
	})
}

var _ = sort.Strings
var _ yarql.AttrIsID
