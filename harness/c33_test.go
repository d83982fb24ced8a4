package harness

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
	"verif/harness/zoo2"
)

// DirectiveModifier has the name of the library's
type DirectiveModifier struct{ Skip bool }

type Shade uint16
type Weight int
type Tint string
type Rank int64
type Grade uint32
type Tiny int8
type Mid int32
type Wide int64
type Short uint16
type Quad uint32
type Plain uint
type Flag bool
type Ratio float64
type Shape struct{ A int }
type Ways []int
type Sounds interface{ Sound() string }
type Back func() int

// regTypes are types enums can be made of
var regTypes = []reflect.Type{rt[Shade](), rt[Weight](), rt[Tint](), rt[Rank](), rt[Grade](), rt[zoo2.Shade](), rt[zoo2.Weight](), rt[zoo2.Mood](), rt[time.Month](), rt[reflect.Kind](), rt[Tiny](), rt[Mid](), rt[Wide](), rt[Short](), rt[Quad](), rt[Big](), rt[Level](), rt[Fruit]()}

var noEnumTypes = []reflect.Type{rt[int](), rt[string](), rt[uint8](), rt[Flag](), rt[Ratio](), rt[Shape](), rt[Ways](), rt[Sounds](), rt[Back](), rt[*Shade](), rt[[]Tint](), rt[bool](), rt[interface{}](), rt[error](), rt[struct{}](), rt[map[string]Tint]()}

var regKeys = []string{"A", "b", "Cc", "RED", "a_b", "x1", "A_1_", "null_", "Type", "on", strings.Repeat("k", 254)}
var noRegKeys = []string{"", " A", "A ", "1", "1a", "_a", "é", "a-b", "a b", "a.b", "\"a\"", "a\x00", "a\n", "$a"}

// word is a name, ok or with one character it can't have, mostly those next to the ones it can have
func (g G) word(under, ok bool) string {
	const first, rest = "azAZbqQR", "azAZ09_mM5"
	b := []byte{first[g.N(len(first))]}
	if under && g.N(4) == 3 {
		b[0] = '_'
	}
	for n := g.N(6); n > 0; n-- {
		b = append(b, rest[g.N(len(rest))])
	}
	if !ok {
		const bad = "@[`{/:^ -.\x00\x7f\t!\"$\xff"
		if i := g.N(len(b)); i == 0 && g.N(2) == 0 {
			b[0] = "09"[g.N(2)]
			if !under && g.N(3) == 2 {
				b[0] = '_'
			}
		} else {
			b[i] = bad[g.N(len(bad))]
		}
	}
	return string(b)
}

type enumKey string

// enumMap makes a value for RegisterEnum, want is the enum it makes or nil
func (g G) enumMap() (v interface{}, want *Enum, text string) {
	ok := true
	if g.N(8) == 7 {
		junk := []interface{}{nil, 1, "A", []Tint{"a"}, struct{ A Tint }{}, &map[string]Tint{"A": "a"}, func() {}, make(chan int), map[string]Tint(nil), map[int]Tint{1: "a"}, map[Shape]Tint{{1}: "a"}, rt[Tint](), error(nil), Tint("A"), map[interface{}]Tint{"A": "a"}, [1]Tint{"A"}, map[bool]Shade{true: 1}, uintptr(0), 1.5, (*Shade)(nil)}
		v = junk[g.N(len(junk))]
		return v, nil, fmt.Sprintf("%T", v)
	}
	t := regTypes[g.N(len(regTypes))]
	if g.N(6) == 5 {
		t, ok = noEnumTypes[g.N(len(noEnumTypes))], false
	}
	keyType := rt[string]()
	if g.N(4) == 2 {
		keyType = []reflect.Type{rt[enumKey](), rt[Tint]()}[g.N(2)]
	}
	m := reflect.MakeMap(reflect.MapOf(keyType, t))
	vals := &Filler{G: g, Simple: true}
	for n := []int{0, 1, 1, 2, 3, 6, 40}[g.N(7)]; n > 0; n-- {
		k := regKeys[g.N(len(regKeys))]
		if n > 6 {
			k = fmt.Sprintf("K%d", n)
		} else if g.N(3) == 2 {
			k = g.word(false, true)
		}
		if g.N(25) == 24 {
			k, ok = noRegKeys[g.N(len(noRegKeys))], false
			if g.N(2) == 1 {
				k = g.word(false, false)
			}
		}
		e := reflect.New(t).Elem()
		switch {
		case e.Kind() == reflect.String:
			e.SetString(vals.str())
		case e.CanInt():
			e.SetInt(int64(g.N(5)) - 2)
		case e.CanUint():
			e.SetUint(uint64(g.N(5)))
		}
		m.SetMapIndex(reflect.ValueOf(k).Convert(keyType), e)
	}
	v = m.Interface()
	if ok && m.Len() > 0 {
		want = NewEnum(v)
	}
	return v, want, fmt.Sprintf("%T%q", v, m.MapKeys())
}

// dirReg is a directive that is registered
type dirReg struct {
	name string
	loc  yarql.DirectiveLocation
	args int
	id   int
}

var dirNames = []string{"a", "A", "skip", "include", "b_c", "d1", "_e", "on", "query", "x"}
var noDirNames = []string{"", "@a", "a b", "é", "a-b", "1a", "9", "a.b", "a\n", " a", "a!", "\x00"}

// directive makes a value for RegisterDirective
func (g G) directive(id int, called *[]int) (d yarql.Directive, ok bool, args int) {
	ok = true
	d.Name = dirNames[g.N(len(dirNames))]
	if g.N(3) == 2 {
		d.Name = g.word(true, true)
	}
	if g.N(12) == 11 {
		d.Name, ok = noDirNames[g.N(len(noDirNames))], false
		if g.N(2) == 1 {
			d.Name = g.word(true, false)
		}
	}
	switch g.N(12) {
	case 0:
		ok = false
	case 1:
		d.Where, ok = []yarql.DirectiveLocation{}, false
	default:
		for _, l := range dirLocs {
			if g.N(2) == 1 {
				d.Where = append(d.Where, l)
			}
		}
		if len(d.Where) == 0 {
			d.Where = append(d.Where, dirLocs[g.N(3)])
		}
		perm(g, d.Where)
		switch g.N(12) {
		case 0:
			d.Where, ok = append(d.Where, d.Where[0]), false
		case 1:
			d.Where, ok = append(d.Where, yarql.DirectiveLocation(3+g.N(200))), false
		}
	}
	if g.N(8) == 7 {
		ok = false
		d.Method = []interface{}{nil, 1, "f", (func() yarql.DirectiveModifier)(nil), func() {}, func() bool { return true }, func() *yarql.DirectiveModifier { return nil },
			func() (yarql.DirectiveModifier, error) { return yarql.DirectiveModifier{}, nil }, yarql.DirectiveModifier{}, struct{}{}, func() error { return nil }, make(chan int), func() interface{} { return nil }, func() zoo2.DirectiveModifier { return zoo2.DirectiveModifier{} }, func() DirectiveModifier { return DirectiveModifier{} }}[g.N(15)]
		return
	}
	args = g.N(3)
	run := func() yarql.DirectiveModifier {
		*called = append(*called, id)
		return yarql.DirectiveModifier{}
	}
	switch args {
	case 0:
		d.Method = run
	case 1:
		d.Method = func(a struct{ X int }) yarql.DirectiveModifier { return run() }
	case 2:
		d.Method = func(c *yarql.Ctx, a struct {
			X int
			Y *string
		}) yarql.DirectiveModifier {
			return run()
		}
	}
	return
}

func enumNames(es []*Enum) (res []string) {
	for _, e := range es {
		res = append(res, e.Name+" "+strings.Join(e.Keys, " "))
	}
	sort.Strings(res)
	return
}

type plainRoot struct{ A int }

func TestC33(t *testing.T) {
	check(t, "a case is a history of RegisterEnum and RegisterDirective calls with supported and unsupported values, then Parse, then calls that come too late; the returned values are compared with a model, and what was accepted and refused with the introspection, the values written and the directives that can be used; non-trivial: something accepted and something refused", func(g G, st *Stats) {
		s := yarql.NewSchema()
		log := []string{}
		called := []int{}
		enums := []*Enum{}
		dirs := []dirReg{}
		for _, l := range dirLocs {
			dirs = append(dirs, dirReg{"skip", l, -1, -1}, dirReg{"include", l, -1, -1})
		}
		used := map[string]reflect.Type{}
		fail := func(format string, args ...interface{}) {
			g.T.Helper()
			g.T.Fatalf("%s\ncalls:\n%s", fmt.Sprintf(format, args...), strings.Join(log, "\n"))
		}
		try := func(what string, f func()) {
			log = append(log, clip(what, 600))
			defer func() {
				if p := recover(); p != nil {
					if _, stop := p.(runtime.Error); stop || !strings.Contains(fmt.Sprintf("%T", p), "rapid") {
						fail("the last call panics: %v", p)
					}
					panic(p)
				}
			}()
			f()
		}
		refused, accepted := 0, 0
		call := func(late bool) {
			if g.N(2) == 0 {
				v, want, text := g.enumMap()
				try("RegisterEnum "+text, func() {
					added, err := s.RegisterEnum(v)
					if want != nil && (used[want.Name] != nil || late) {
						if err == nil || added {
							fail("an enum with a used name, or after Parse, gives %v, %v", added, err)
						}
						refused++
						return
					}
					if added && err != nil || added != (want != nil && !late) {
						fail("RegisterEnum gives %v, %v, expected added: %v", added, err, want != nil)
					}
					if want != nil {
						enums = append(enums, want)
						used[want.Name] = want.Go
						accepted++
						return
					}
					refused++
					if m := reflect.ValueOf(v); err == nil && (m.Kind() != reflect.Map || m.IsNil() || m.Len() > 0) {
						fail("no error")
					}
				})
				return
			}
			d, ok, args := g.directive(len(log), &called)
			for _, l := range d.Where {
				for _, have := range dirs {
					ok = ok && (have.name != d.Name || have.loc != l)
				}
			}
			try(fmt.Sprintf("RegisterDirective %q %v %T", d.Name, d.Where, d.Method), func() {
				id := len(log) - 1
				err := s.RegisterDirective(d)
				if (err == nil) != (ok && !late) {
					fail("RegisterDirective gives %v, expected success: %v", err, ok && !late)
				}
				if err == nil {
					accepted++
					for _, l := range d.Where {
						dirs = append(dirs, dirReg{d.Name, l, args, id})
					}
				} else {
					refused++
				}
			})
		}
		for n := g.N(12); n > 0; n-- {
			call(false)
		}

		// a root with a field of every type
		fields := []reflect.StructField{{Name: "Plain", Type: rt[string]()}, {Name: "Obj", Type: rt[plainRoot]()}}
		for i, t := range regTypes {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%c", 'a'+i), Type: t}, reflect.StructField{Name: fmt.Sprintf("G%c", 'a'+i), Type: reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "V", Type: t}})}, []reflect.Type{rt[bool]()}, false)})
		}
		root := reflect.New(reflect.StructOf(fields)).Elem()
		got := ""
		byType := map[reflect.Type]*Enum{}
		for _, e := range enums {
			byType[e.Go] = e
		}
		vals := map[string]reflect.Value{}
		for i, t := range regTypes {
			name := fmt.Sprintf("f%c", 'a'+i)
			f := root.FieldByName("F" + string(rune('a'+i)))
			root.FieldByName("G" + string(rune('a'+i))).Set(reflect.MakeFunc(root.FieldByName("G"+string(rune('a'+i))).Type(), func(in []reflect.Value) []reflect.Value {
				got = canon(in[0].Field(0))
				return []reflect.Value{reflect.ValueOf(true)}
			}))
			if e := byType[t]; e != nil {
				f.Set(e.Vals[e.Keys[g.N(len(e.Keys))]])
				vals[name] = f
			}
		}
		parseTry := func(s *yarql.Schema) {
			err, panicked := parse(s, root.Interface(), EmptyMutation{})
			if err != nil || panicked != nil {
				fail("Parse gives %v, panics with %v", err, panicked)
			}
		}
		parseTry(s)
		log = append(log, "Parse")
		if g.N(3) == 2 {
			s = s.Copy()
			log = append(log, "Copy")
		}
		for n := g.N(3); n > 0; n-- {
			call(true)
		}
		do := func(q string) *Resp {
			called, got = nil, ""
			r := resolve(s, q, yarql.ResolveOptions{})
			if err := r.envelope(yarql.ResolveOptions{}); err != nil {
				fail("%v\n%s", err, q)
			}
			return r
		}

		// what the introspection tells
		r := do("{__schema{types{kind name enumValues{name}} directives{name locations args{name}}}}")
		if len(r.Errs) > 0 {
			fail("introspection: %s", r)
		}
		listed := []string{}
		schema := r.J.Get("data").Get("__schema")
		for _, t := range schema.Get("types").L {
			n := t.Get("name").S
			if t.Get("kind").S != "ENUM" || strings.HasPrefix(n, "__") {
				continue
			}
			keys := []string{}
			for _, v := range t.Get("enumValues").L {
				keys = append(keys, v.Get("name").S)
			}
			sort.Strings(keys)
			listed = append(listed, n+" "+strings.Join(keys, " "))
		}
		sort.Strings(listed)
		if err := sameList("enum", enumNames(enums), listed); err != nil {
			fail("introspection: %v", err)
		}
		want, have := []string{}, []string{}
		for _, d := range dirs {
			args := []string{"", "x", "x y"}[max(d.args, 0)]
			if d.args < 0 {
				args = "if"
			}
			want = append(want, fmt.Sprint(d.name, " ", []string{"FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"}[d.loc], " ", args))
		}
		for _, d := range schema.Get("directives").L {
			args := []string{}
			for _, a := range d.Get("args").L {
				args = append(args, a.Get("name").S)
			}
			sort.Strings(args)
			for _, l := range d.Get("locations").L {
				have = append(have, d.Get("name").S+" "+l.S+" "+strings.Join(args, " "))
			}
		}
		sort.Strings(want)
		sort.Strings(have)
		if err := sameList("directive", want, have); err != nil {
			fail("introspection: %v", err)
		}

		// what can be used
		for i, t := range regTypes {
			name := fmt.Sprintf("f%c", 'a'+i)
			r := do("{v:" + name + "}")
			v := r.J.Get("data").Get("v")
			e := byType[t]
			if e == nil {
				if len(r.Errs) > 0 || v == nil || v.Kind == JNull {
					fail("a field of type %s that is no enum: %s", t, r)
				}
				continue
			}
			if len(r.Errs) > 0 || v == nil || v.Kind != JStr || !e.Vals[v.S].IsValid() || !e.Vals[v.S].Equal(vals[name]) {
				fail("a field of type %s with the value %v: %s", t, vals[name], r)
			}
			k := e.Keys[g.N(len(e.Keys))]
			r = do("{v:g" + name[1:] + "(v:" + k + ")}")
			if len(r.Errs) > 0 || got != canon(e.Vals[k]) {
				fail("the argument %s of type %s is %s: %s", k, t, got, r)
			}
		}
		for _, n := range dirNames {
			for i, l := range dirLocs {
				var d *dirReg
				for k := range dirs {
					if dirs[k].name == n && dirs[k].loc == l {
						d = &dirs[k]
					}
				}
				if d != nil && d.args < 0 {
					continue
				}
				at := "@" + n
				if d != nil && d.args > 0 && g.N(2) == 1 {
					at += "(x:1)"
				}
				r := do([]string{"{plain" + at + "}", "{obj{...f" + at + "}} fragment f on plainRoot{a}", "{obj{...on plainRoot" + at + "{a}}}"}[i])
				if d == nil {
					if len(r.Errs) == 0 || len(called) > 0 {
						fail("%s is not registered for the location %d: %s, calls %v", at, l, r, called)
					}
				} else if len(r.Errs) > 0 || len(called) != 1 || called[0] != d.id {
					fail("%s was registered in call %d for the location %d: %s, calls %v", at, d.id, l, r, called)
				}
			}
		}
		st.Class("enums", len(enums) > 0)
		st.Class("enums > 2", len(enums) > 2)
		st.Class("directives", len(dirs) > 6)
		st.Class("refused", refused > 0)
		st.Case(accepted > 0 && refused > 0, strings.Join(log, "\n"))
	})
}
