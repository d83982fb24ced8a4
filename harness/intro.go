package harness

import (
	"reflect"
	"sort"
	"strings"

	"github.com/mjarkk/yarql"
)

// The expected introspection: the types of the GraphQL specification as Go values made from the model,
// so that the reference executor can answer any introspection query

type IntroKind uint8

const (
	kindScalar IntroKind = iota
	kindObject
	kindInterface
	kindEnum
	kindInput
	kindList
	kindNonNull
	kindUnion
)

type IntroLocation uint8

type IntroDeprecated struct{ IncludeDeprecated bool }

type IntroSchema struct {
	Types            func() []IntroType
	QueryType        *IntroType
	MutationType     *IntroType
	SubscriptionType *IntroType
	Directives       []IntroDirective
}

type IntroType struct {
	Kind           IntroKind
	Name           *string
	Description    *string
	Fields         func(IntroDeprecated) []IntroField
	Interfaces     []IntroType
	PossibleTypes  func() []IntroType
	EnumValues     func(IntroDeprecated) []IntroEnumValue
	InputFields    func() []IntroInput
	OfType         *IntroType
	SpecifiedByURL *string
}

type IntroField struct {
	Name              string
	Description       *string
	Args              []IntroInput
	Type              IntroType
	IsDeprecated      bool
	DeprecationReason *string
}

type IntroEnumValue struct {
	Name              string
	Description       *string
	IsDeprecated      bool
	DeprecationReason *string
}

type IntroInput struct {
	Name         string
	Description  *string
	Type         IntroType
	DefaultValue *string
}

type IntroDirective struct {
	Name        string
	Description *string
	Locations   []IntroLocation
	Args        []IntroInput
}

var introNames = map[reflect.Type]string{
	rt[IntroSchema]():    "__Schema",
	rt[IntroType]():      "__Type",
	rt[IntroField]():     "__Field",
	rt[IntroEnumValue](): "__EnumValue",
	rt[IntroInput]():     "__InputValue",
	rt[IntroDirective](): "__Directive",
}

func init() {
	for t, n := range introNames {
		regRename[t] = n
	}
}

var introEnums = []*Enum{
	introEnum("__TypeKind", map[string]IntroKind{
		"SCALAR": kindScalar, "OBJECT": kindObject, "INTERFACE": kindInterface, "UNION": kindUnion,
		"ENUM": kindEnum, "INPUT_OBJECT": kindInput, "LIST": kindList, "NON_NULL": kindNonNull,
	}),
	introEnum("__DirectiveLocation", map[string]IntroLocation{
		"QUERY": 0, "MUTATION": 1, "SUBSCRIPTION": 2, "FIELD": 3, "FRAGMENT_DEFINITION": 4, "FRAGMENT_SPREAD": 5, "INLINE_FRAGMENT": 6,
		"SCHEMA": 7, "SCALAR": 8, "OBJECT": 9, "FIELD_DEFINITION": 10, "ARGUMENT_DEFINITION": 11, "INTERFACE": 12, "UNION": 13, "ENUM": 14,
		"ENUM_VALUE": 15, "INPUT_OBJECT": 16, "INPUT_FIELD_DEFINITION": 17,
	}),
}

func introEnum(name string, m interface{}) *Enum {
	e := NewEnum(m)
	e.Name = name
	return e
}

// intro makes introspection values
type intro struct {
	m     *Model
	names []string
}

// AddIntro adds __schema and __type to the query root of the model
func (m *Model) AddIntro() *intro {
	// the real registry stays as it is
	m.Reg = &Registry{Dirs: m.Reg.Dirs, Enums: append(append([]*Enum{}, m.Reg.Enums...), introEnums...)}
	out, err := m.out(rt[IntroSchema](), false)
	if err != nil {
		panic(err)
	}
	i := &intro{m: m}
	typ := rt[*IntroType]()
	byName := func(args struct{ Name string }) *IntroType {
		if t, ok := i.named(args.Name); ok {
			return &t
		}
		return nil
	}
	tout, err := m.out(typ, false)
	if err != nil {
		panic(err)
	}
	fn := reflect.ValueOf(byName)
	f := &Field{Name: "__type", GoName: "__type", Parent: m.Query, Func: true, Out: tout, ErrNr: -1, FnType: fn.Type(), Custom: fn}
	f.Ins, f.Args, err = m.ins(fn.Type(), 0)
	if err != nil {
		panic(err)
	}
	m.Query.ByName["__type"] = f
	m.Query.Hidden = append(m.Query.Hidden, f)
	for _, f := range m.methods {
		if f.Ins == nil && introNames[f.Parent.Go] != "" {
			if f.Ins, f.Args, err = m.ins(f.FnType, 0); err != nil {
				panic(err)
			}
		}
	}
	for t := range introNames {
		o := m.byGo[t]
		o.Intro = true
		for _, f := range o.Fields {
			f.Any = f.Name == "description" || f.Name == "specifiedByURL"
		}
	}
	m.Query.ByName["__schema"] = &Field{Name: "__schema", GoName: "__schema", Parent: m.Query, Out: out, ErrNr: -1, Custom: reflect.ValueOf(i.schema())}
	m.Query.Hidden = append(m.Query.Hidden, m.Query.ByName["__schema"])
	m.names = nil
	i.names = i.all()
	return i
}

func (i *intro) all() (res []string) {
	for n := range i.m.Objs {
		res = append(res, n)
	}
	for n := range i.m.Ifaces {
		res = append(res, n)
	}
	for n := range i.m.Inputs {
		res = append(res, n)
	}
	for _, e := range i.m.Reg.Enums {
		res = append(res, e.Name)
	}
	res = append(res, "Boolean", "Int", "Float", "String", "ID", "File", "Time")
	sort.Strings(res)
	return
}

func (i *intro) schema() IntroSchema {
	q, m := i.object(i.m.Query), i.object(i.m.Mut)
	return IntroSchema{
		Types: func() (res []IntroType) {
			for _, n := range i.names {
				t, _ := i.named(n)
				res = append(res, t)
			}
			return
		},
		QueryType:    &q,
		MutationType: &m,
		Directives:   i.directives(),
	}
}

func (i *intro) directives() []IntroDirective {
	all := []IntroLocation{3, 5, 6}
	cond := []IntroInput{{Name: "if", Type: nonNull(scalar("Boolean"), true)}}
	res := []IntroDirective{
		{Name: "skip", Locations: all, Args: cond},
		{Name: "include", Locations: all, Args: cond},
	}
	for _, d := range i.m.Reg.Dirs {
		r := IntroDirective{Name: d.D.Name, Args: i.args(d.Args)}
		for _, l := range d.D.Where {
			switch l {
			case yarql.DirectiveLocationField:
				r.Locations = append(r.Locations, 3)
			case yarql.DirectiveLocationFragment:
				r.Locations = append(r.Locations, 5)
			case yarql.DirectiveLocationFragmentInline:
				r.Locations = append(r.Locations, 6)
			}
		}
		res = append(res, r)
	}
	return res
}

func nonNull(t IntroType, nn bool) IntroType {
	if !nn {
		return t
	}
	return IntroType{Kind: kindNonNull, OfType: &t}
}

func list(t IntroType) IntroType { return IntroType{Kind: kindList, OfType: &t} }

func scalar(name string) IntroType { return IntroType{Kind: kindScalar, Name: &name} }

func (i *intro) named(name string) (IntroType, bool) {
	if o, ok := i.m.Objs[name]; ok {
		return i.object(o), true
	}
	if o, ok := i.m.Ifaces[name]; ok {
		return i.object(o), true
	}
	if s, ok := i.m.Inputs[name]; ok {
		return i.input(s), true
	}
	for _, e := range i.m.Reg.Enums {
		if e.Name == name {
			return i.enum(e), true
		}
	}
	for _, s := range []string{"Boolean", "Int", "Float", "String", "ID", "File", "Time"} {
		if s == name {
			return scalar(s), true
		}
	}
	return IntroType{}, false
}

func (i *intro) object(o *Obj) IntroType {
	t := IntroType{
		Kind: kindObject,
		Name: &o.Name,
		Fields: func(IntroDeprecated) []IntroField {
			res := []IntroField{}
			for _, f := range o.Fields {
				if o.ByName[f.Name] != f {
					continue // a method took its place
				}
				t, nn := i.out(f.Out)
				res = append(res, IntroField{Name: f.Name, Args: i.args(f.Args), Type: nonNull(t, nn && !f.Func)})
			}
			return res
		},
		Interfaces: []IntroType{},
	}
	for _, c := range o.Ifaces {
		t.Interfaces = append(t.Interfaces, i.object(c))
	}
	if o.Iface {
		t.Kind = kindInterface
		t.PossibleTypes = func() []IntroType {
			res := []IntroType{}
			for _, c := range o.Impls {
				res = append(res, i.object(c))
			}
			return res
		}
	}
	return t
}

func (i *intro) enum(e *Enum) IntroType {
	return IntroType{Kind: kindEnum, Name: &e.Name, EnumValues: func(IntroDeprecated) []IntroEnumValue {
		res := []IntroEnumValue{}
		for _, k := range e.Keys {
			res = append(res, IntroEnumValue{Name: k})
		}
		return res
	}}
}

func (i *intro) input(s *InStruct) IntroType {
	return IntroType{Kind: kindInput, Name: &s.Name, InputFields: func() []IntroInput { return i.args(s.Fields) }}
}

func (i *intro) args(args []*Arg) []IntroInput {
	res := []IntroInput{}
	for _, a := range args {
		t, nn := i.in(a.T)
		res = append(res, IntroInput{Name: a.Name, Type: nonNull(t, nn)})
	}
	return res
}

func (i *intro) out(o *Out) (IntroType, bool) {
	switch o.K {
	case OPtr:
		t, _ := i.out(o.Elem)
		return t, false
	case OList:
		t, nn := i.out(o.Elem)
		return list(nonNull(t, nn)), false
	case OObj:
		return i.object(o.Obj), true
	case OIface:
		return i.object(o.Obj), false
	case OEnum:
		return i.enum(o.Enum), true
	case OTime:
		return scalar("Time"), true
	}
	if o.ID {
		return scalar("ID"), true
	}
	return scalar(scalarName(o.Go.Kind())), true
}

func (i *intro) in(t *In) (IntroType, bool) {
	switch t.K {
	case IPtr:
		e, _ := i.in(t.Elem)
		return e, false
	case IList, IArray:
		e, nn := i.in(t.Elem)
		return list(nonNull(e, nn)), false
	case IStruct:
		return i.input(t.S), true
	case IEnum:
		return i.enum(t.Enum), true
	case ITime:
		return scalar("Time"), true
	case IFile:
		return scalar("File"), false
	case IID:
		return scalar("ID"), true
	}
	return scalar(scalarName(t.Go.Kind())), true
}

// fan is about how many entries a list of the introspection has
func fan(f *Field) int {
	switch f.Name {
	case "types":
		return 50
	case "fields":
		return 10
	case "args", "inputFields", "possibleTypes", "enumValues":
		return 3
	case "directives":
		return 5
	}
	return 1
}

// introField makes a selection of __schema or __type
func (q *QGen) introField(sc *scope, depth int) *Sel {
	f := q.M.Query.Hidden[q.N(len(q.M.Query.Hidden))]
	q.Left--
	s := &Sel{K: SField, Name: f.Name, Alias: q.key(sc, f.Name), HasSel: true}
	sc.take(s.Key())
	s.Dirs = q.dirs(fieldLoc)
	if f.Name == "__type" {
		names := q.Opt.Intro.names
		n := names[q.N(len(names))]
		switch q.N(12) {
		case 10:
			n = []string{"", "person", "Nope", "[Int]", "Int!", "__type"}[q.N(6)]
		case 11:
			n = strings.ToLower(n)
		}
		v := &Value{K: VString, S: n}
		if !q.Opt.NoVars && q.N(3) == 2 {
			v = q.asVar(f.Args[0].T, v)
		}
		s.Args = []*KV{{"name", v}}
	}
	o := f.Out.Named().Obj
	q.Left = max(q.Left, 8)
	s.Sel = q.sel(o, newScope(possible(o)), depth)
	return s
}
