package harness

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// The reference model of a schema, read from Go types by the rules in the README.

type OutKind uint8

const (
	OScalar OutKind = iota
	OEnum
	OTime
	OPtr
	OList
	OObj
	OIface
)

type Out struct {
	K    OutKind
	Go   reflect.Type
	ID   bool
	Elem *Out
	Obj  *Obj
	Enum *Enum
}

type Obj struct {
	Name   string
	Go     reflect.Type
	Iface  bool
	Fields []*Field
	ByName map[string]*Field
	Impls  []*Obj   // interface: its implementations
	Ifaces []*Obj   // struct: the interfaces it is registered for
	Hidden []*Field // fields that are in ByName only
	Intro  bool     // a type of the introspection
}

type Field struct {
	Name   string
	GoName string
	Parent *Obj
	Method bool // method with the Resolve prefix
	Func   bool // func field
	Index  int  // struct field index
	Out    *Out
	FnType reflect.Type // without receiver
	Ins    []InSpec
	Args   []*Arg
	OutNr  int
	ErrNr  int
	Custom reflect.Value // the value or function, not part of the Go value
	Any    bool          // the value is not specified
}

type InSpec struct {
	Ctx bool
	Go  reflect.Type
}

type Arg struct {
	Name string
	In   int
	Idx  int
	T    *In
}

type InKind uint8

const (
	IScalar InKind = iota
	IEnum
	IID
	ITime
	IFile
	IPtr
	IList
	IArray
	IStruct
)

type In struct {
	K    InKind
	Go   reflect.Type
	Elem *In
	S    *InStruct
	Enum *Enum
}

type InStruct struct {
	Name   string
	Go     reflect.Type
	Fields []*Arg
	ByName map[string]*Arg
}

type Enum struct {
	Name string
	Go   reflect.Type
	Keys []string
	Vals map[string]reflect.Value
	Map  interface{}
}

type Dir struct {
	D    yarql.Directive
	Ins  []InSpec
	Args []*Arg
}

type Registry struct {
	Enums []*Enum
	Dirs  []*Dir
}

type Model struct {
	Reg        *Registry
	Query, Mut *Obj
	Objs       map[string]*Obj
	Ifaces     map[string]*Obj
	Inputs     map[string]*InStruct
	byGo       map[reflect.Type]*Obj
	inByGo     map[reflect.Type]*InStruct
	unknown    int
	unknownIn  int
	methods    []*Field
	names      []string
	MaxDepth   int
}

var (
	tTime   = reflect.TypeOf(time.Time{})
	tFile   = reflect.TypeOf(&multipart.FileHeader{})
	tCtxPtr = reflect.TypeOf(&yarql.Ctx{})
	tCtx    = reflect.TypeOf(yarql.Ctx{})
	tErr    = reflect.TypeOf((*error)(nil)).Elem()
	tAttrID = reflect.TypeOf(yarql.AttrIsID(0))
)

// registrations known to the harness (made in zoo.go)
var (
	regImpl   = map[reflect.Type][]reflect.Type{} // interface -> structs
	regIfaces = map[reflect.Type][]reflect.Type{} // struct -> interfaces
	regRename = map[reflect.Type]string{}
)

func NewEnum(m interface{}) *Enum {
	v := reflect.ValueOf(m)
	e := &Enum{Name: v.Type().Elem().Name(), Go: v.Type().Elem(), Vals: map[string]reflect.Value{}, Map: m}
	for _, k := range v.MapKeys() {
		e.Keys = append(e.Keys, k.String())
		e.Vals[k.String()] = v.MapIndex(k)
	}
	sort.Strings(e.Keys)
	return e
}

func (e *Enum) KeyOf(v reflect.Value) (string, bool) {
	for _, k := range e.Keys {
		if e.Vals[k].Interface() == v.Interface() {
			return k, true
		}
	}
	return "", false
}

func (r *Registry) enum(t reflect.Type) *Enum {
	for _, e := range r.Enums {
		if e.Go == t {
			return e
		}
	}
	return nil
}

func BuildModel(reg *Registry, query, mut reflect.Type) (*Model, error) {
	m := &Model{
		Reg: reg, Objs: map[string]*Obj{}, Ifaces: map[string]*Obj{}, Inputs: map[string]*InStruct{},
		byGo: map[reflect.Type]*Obj{}, inByGo: map[reflect.Type]*InStruct{}, MaxDepth: 255,
	}
	if query == nil || query.Kind() != reflect.Struct || query == tTime {
		return nil, fmt.Errorf("query root is no struct")
	}
	if mut == nil || mut.Kind() != reflect.Struct || mut == tTime {
		return nil, fmt.Errorf("mutation root is no struct")
	}
	q, err := m.out(query, false)
	if err != nil {
		return nil, err
	}
	m.Query = q.Obj
	q, err = m.out(mut, false)
	if err != nil {
		return nil, err
	}
	m.Mut = q.Obj
	if query.PkgPath()+query.Name() == mut.PkgPath()+mut.Name() {
		return nil, fmt.Errorf("same roots")
	}
	for _, d := range reg.Dirs {
		d.Ins, d.Args, err = m.ins(reflect.TypeOf(d.D.Method), 0)
		if err != nil {
			return nil, err
		}
	}
	for _, f := range m.methods {
		f.Ins, f.Args, err = m.ins(f.FnType, 0)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.GoName, err)
		}
	}
	return m, m.clash()
}

// clash tells if two types have one name
func (m *Model) clash() error {
	used := map[string]bool{}
	names := append([]string{"Boolean", "Int", "Float", "String", "ID", "File", "Time"}, m.typeNames()...)
	for n := range m.Inputs {
		names = append(names, n)
	}
	for _, e := range m.Reg.Enums {
		names = append(names, e.Name)
	}
	sort.Strings(names)
	for _, n := range names {
		if used[n] {
			return fmt.Errorf("two types named %s", n)
		}
		used[n] = true
	}
	return nil
}

func qlName(goName string) string {
	if len(goName) <= 1 {
		return strings.ToLower(goName)
	}
	if goName[1] >= 'A' && goName[1] <= 'Z' || goName[1] >= '0' && goName[1] <= '9' || goName[1] == '_' {
		return goName
	}
	return strings.ToLower(goName[:1]) + goName[1:]
}

func selfContaining(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		if seen[t] {
			return true
		}
		seen[t] = true
		t = t.Elem()
	}
	return false
}

func parseTag(f reflect.StructField) (name string, ignore, id bool, err error) {
	tag := f.Tag.Get("gq")
	if tag == "" {
		return
	}
	parts := strings.Split(tag, ",")
	name = strings.TrimSpace(parts[0])
	if name == "-" {
		return "", true, false, nil
	}
	if name != "" && !validName(name) {
		err = fmt.Errorf("invalid name %q", name)
	}
	for _, p := range parts[1:] {
		if strings.EqualFold(strings.TrimSpace(p), "id") {
			id = true
		} else {
			err = fmt.Errorf("unknown modifier %q", p)
		}
	}
	return
}

// validName is what the library documents as a name: a letter followed by letters, digits and underscores
func validName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c == '_' || c >= '0' && c <= '9') {
			continue
		}
		return false
	}
	return s != ""
}

func idKind(k reflect.Kind) bool {
	return k == reflect.String || k >= reflect.Int && k <= reflect.Uint64
}

func (m *Model) out(t reflect.Type, id bool) (*Out, error) {
	if t == tTime {
		return &Out{K: OTime, Go: t}, nil
	}
	switch k := t.Kind(); k {
	case reflect.Struct:
		if id {
			return nil, fmt.Errorf("struct as ID")
		}
		o, err := m.object(t)
		if err != nil {
			return nil, err
		}
		return &Out{K: OObj, Go: t, Obj: o}, nil
	case reflect.Interface:
		if id {
			return nil, fmt.Errorf("interface as ID")
		}
		o, err := m.iface(t)
		if err != nil {
			return nil, err
		}
		return &Out{K: OIface, Go: t, Obj: o}, nil
	case reflect.Ptr, reflect.Slice, reflect.Array:
		if selfContaining(t) {
			return nil, fmt.Errorf("self containing type")
		}
		e, err := m.out(t.Elem(), id && k == reflect.Ptr)
		if err != nil {
			return nil, err
		}
		kind := OList
		if k == reflect.Ptr {
			kind = OPtr
		}
		return &Out{K: kind, Go: t, Elem: e}, nil
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if e := m.Reg.enum(t); e != nil {
			return &Out{K: OEnum, Go: t, Enum: e}, nil
		}
		if id && !idKind(k) {
			return nil, fmt.Errorf("%s as ID", k)
		}
		return &Out{K: OScalar, Go: t, ID: id}, nil
	default:
		return nil, fmt.Errorf("unsupported kind %s", k)
	}
}

func (m *Model) object(t reflect.Type) (*Obj, error) {
	name := t.Name()
	o := &Obj{Go: t, ByName: map[string]*Field{}}
	if name != "" {
		if have, ok := m.byGo[t]; ok {
			return have, nil
		}
		if n, ok := regRename[t]; ok {
			name = n
		}
		if _, ok := m.Objs[name]; ok {
			return nil, fmt.Errorf("two structs named %s", name)
		}
	} else {
		m.unknown++
		name = "__UnknownType" + strconv.Itoa(m.unknown)
	}
	o.Name = name
	m.Objs[name] = o
	if t.Name() != "" {
		m.byGo[t] = o
		for _, it := range regIfaces[t] {
			i, err := m.iface(it)
			if err != nil {
				return nil, err
			}
			o.Ifaces = append(o.Ifaces, i)
		}
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Anonymous {
			continue
		}
		gq, ignore, id, err := parseTag(sf)
		if err != nil {
			return nil, err
		}
		if ignore {
			continue
		}
		f := &Field{Name: qlName(sf.Name), GoName: sf.Name, Parent: o, Index: i, ErrNr: -1}
		if gq != "" {
			f.Name = gq
		}
		if sf.Type.Kind() == reflect.Func {
			f.Func = true
			f.FnType = sf.Type
			if err := m.result(f, id); err != nil {
				return nil, err
			}
		} else {
			f.Out, err = m.out(sf.Type, id)
			if err != nil {
				return nil, err
			}
		}
		o.add(f)
	}
	return o, m.resolvers(o, t)
}

func (o *Obj) add(f *Field) {
	o.Fields = append(o.Fields, f)
	o.ByName[f.Name] = f
}

func (m *Model) resolvers(o *Obj, t reflect.Type) error {
	for i := 0; i < t.NumMethod(); i++ {
		me := t.Method(i)
		rest := strings.TrimPrefix(me.Name, "Resolve")
		if rest == me.Name || rest == "" || !(rest[0] >= 'A' && rest[0] <= 'Z') {
			continue
		}
		f := &Field{Name: qlName(rest), GoName: me.Name, Parent: o, Method: true, ErrNr: -1, FnType: me.Type}
		if !o.Iface {
			// drop the receiver
			in := []reflect.Type{}
			for j := 1; j < me.Type.NumIn(); j++ {
				in = append(in, me.Type.In(j))
			}
			out := []reflect.Type{}
			for j := 0; j < me.Type.NumOut(); j++ {
				out = append(out, me.Type.Out(j))
			}
			f.FnType = reflect.FuncOf(in, out, me.Type.IsVariadic())
		}
		if err := m.result(f, false); err != nil {
			return err
		}
		o.add(f)
	}
	return nil
}

// CodedErr is another interface of errors
type CodedErr interface {
	error
	Code() int
}

type codedErr struct{ error }

func (codedErr) Code() int { return 3 }

// isErrType tells if a result is an error, that is any interface with the methods of error
func isErrType(t reflect.Type) bool { return t.Kind() == reflect.Interface && t.Implements(tErr) }

func (m *Model) result(f *Field, id bool) error {
	t := f.FnType
	if t.IsVariadic() {
		return fmt.Errorf("variadic")
	}
	f.OutNr, f.ErrNr = -1, -1
	for i := 0; i < t.NumOut(); i++ {
		o := t.Out(i)
		switch {
		case o == tAttrID:
			id = true
		case isErrType(o):
			if f.ErrNr != -1 {
				return fmt.Errorf("two errors")
			}
			f.ErrNr = i
		default:
			if f.OutNr != -1 {
				return fmt.Errorf("two results")
			}
			f.OutNr = i
		}
	}
	if f.OutNr == -1 {
		return fmt.Errorf("no result")
	}
	var err error
	f.Out, err = m.out(t.Out(f.OutNr), id)
	if err != nil {
		return err
	}
	m.methods = append(m.methods, f)
	return nil
}

func (m *Model) iface(t reflect.Type) (*Obj, error) {
	if t.Name() == "" {
		return nil, fmt.Errorf("inline interface")
	}
	if have, ok := m.byGo[t]; ok {
		return have, nil
	}
	if len(regImpl[t]) == 0 {
		return nil, fmt.Errorf("interface without implementations")
	}
	if _, ok := m.Ifaces[t.Name()]; ok {
		return nil, fmt.Errorf("two interfaces named %s", t.Name())
	}
	o := &Obj{Go: t, Name: t.Name(), Iface: true, ByName: map[string]*Field{}}
	m.byGo[t] = o
	m.Ifaces[o.Name] = o
	for _, it := range regImpl[t] {
		i, err := m.object(it)
		if err != nil {
			return nil, err
		}
		o.Impls = append(o.Impls, i)
	}
	return o, m.resolvers(o, t)
}

func (m *Model) ins(t reflect.Type, skip int) (ins []InSpec, args []*Arg, err error) {
	for i := skip; i < t.NumIn(); i++ {
		it := t.In(i)
		if it == tCtxPtr {
			ins = append(ins, InSpec{Ctx: true, Go: it})
			continue
		}
		if it.Kind() != reflect.Struct || it == tCtx {
			return nil, nil, fmt.Errorf("bad argument type %s", it)
		}
		fields, err := m.inFields(it)
		if err != nil {
			return nil, nil, err
		}
		for _, f := range fields {
			f.In = len(ins)
			args = append(args, f)
		}
		ins = append(ins, InSpec{Go: it})
	}
	return ins, args, nil
}

func (m *Model) inFields(t reflect.Type) (res []*Arg, err error) {
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Anonymous || sf.PkgPath != "" {
			continue
		}
		gq, ignore, id, err := parseTag(sf)
		if err != nil {
			return nil, err
		}
		if ignore {
			continue
		}
		a := &Arg{Name: qlName(sf.Name), Idx: i}
		if gq != "" {
			a.Name = gq
		}
		a.T, err = m.in(sf.Type, id)
		if err != nil {
			return nil, err
		}
		res = append(res, a)
	}
	return res, nil
}

func (m *Model) in(t reflect.Type, id bool) (*In, error) {
	if t == tFile {
		return &In{K: IFile, Go: t}, nil
	}
	if t == tTime {
		return &In{K: ITime, Go: t}, nil
	}
	switch k := t.Kind(); k {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if e := m.Reg.enum(t); e != nil {
			return &In{K: IEnum, Go: t, Enum: e}, nil
		}
		if id {
			if !idKind(k) {
				return nil, fmt.Errorf("%s as ID", k)
			}
			return &In{K: IID, Go: t}, nil
		}
		return &In{K: IScalar, Go: t}, nil
	case reflect.Ptr, reflect.Slice, reflect.Array:
		if selfContaining(t) {
			return nil, fmt.Errorf("self containing type")
		}
		e, err := m.in(t.Elem(), id && k == reflect.Ptr)
		if err != nil {
			return nil, err
		}
		kind := IPtr
		if k == reflect.Slice {
			kind = IList
		} else if k == reflect.Array {
			kind = IArray
		}
		return &In{K: kind, Go: t, Elem: e}, nil
	case reflect.Struct:
		name := t.Name()
		if name == "" {
			m.unknownIn++
			name = "__UnknownInput" + strconv.Itoa(m.unknownIn)
		} else {
			if have, ok := m.inByGo[t]; ok {
				return &In{K: IStruct, Go: t, S: have}, nil
			}
			if n, ok := regRename[t]; ok {
				name = n
			}
			if _, ok := m.Objs[name]; ok {
				name += "__input"
			}
			if _, ok := m.Inputs[name]; ok {
				return nil, fmt.Errorf("two input structs named %s", name)
			}
		}
		s := &InStruct{Name: name, Go: t, ByName: map[string]*Arg{}}
		m.Inputs[name] = s
		if t.Name() != "" {
			m.inByGo[t] = s
		}
		fields, err := m.inFields(t)
		if err != nil {
			return nil, err
		}
		s.Fields = fields
		for _, f := range fields {
			s.ByName[f.Name] = f
		}
		return &In{K: IStruct, Go: t, S: s}, nil
	default:
		return nil, fmt.Errorf("unsupported kind %s", k)
	}
}

// QLType is the name of a type with its list and non null wrapping
func (o *Out) QLType() string {
	n, nonNull := o.qlType()
	if nonNull {
		n += "!"
	}
	return n
}

func (o *Out) qlType() (string, bool) {
	switch o.K {
	case OPtr:
		n, _ := o.Elem.qlType()
		return n, false
	case OList:
		return "[" + o.Elem.QLType() + "]", false
	case OObj:
		return o.Obj.Name, true
	case OIface:
		return o.Obj.Name, false
	case OEnum:
		return o.Enum.Name, true
	case OTime:
		return "Time", true
	}
	if o.ID {
		return "ID", true
	}
	return scalarName(o.Go.Kind()), true
}

// QLType is the declared type of the field
func (f *Field) QLType() string {
	n, nonNull := f.Out.qlType()
	if nonNull && !f.Func {
		n += "!"
	}
	return n
}

func (t *In) QLType() string {
	n, nonNull := t.qlType()
	if nonNull {
		n += "!"
	}
	return n
}

func (t *In) qlType() (string, bool) {
	switch t.K {
	case IPtr:
		n, _ := t.Elem.qlType()
		return n, false
	case IList, IArray:
		return "[" + t.Elem.QLType() + "]", false
	case IStruct:
		return t.S.Name, true
	case IEnum:
		return t.Enum.Name, true
	case ITime:
		return "Time", true
	case IFile:
		return "File", false
	case IID:
		return "ID", true
	}
	return scalarName(t.Go.Kind()), true
}

func scalarName(k reflect.Kind) string {
	switch k {
	case reflect.Bool:
		return "Boolean"
	case reflect.String:
		return "String"
	case reflect.Float32, reflect.Float64:
		return "Float"
	}
	return "Int"
}

// Named strips lists and pointers
func (o *Out) Named() *Out {
	for o.K == OPtr || o.K == OList {
		o = o.Elem
	}
	return o
}

func (o *Out) Composite() bool {
	n := o.Named()
	return n.K == OObj || n.K == OIface
}

func (o *Obj) HasIface(name string) bool {
	for _, i := range o.Ifaces {
		if i.Name == name {
			return true
		}
	}
	return false
}

// NewYarql builds the real schema for the registry
func (r *Registry) NewYarql() (*yarql.Schema, error) {
	s := yarql.NewSchema()
	for _, e := range r.Enums {
		added, err := s.RegisterEnum(e.Map)
		if err != nil || !added {
			return nil, fmt.Errorf("RegisterEnum %s: added %v, err %v", e.Name, added, err)
		}
	}
	for _, d := range r.Dirs {
		if err := s.RegisterDirective(d.D); err != nil {
			return nil, fmt.Errorf("RegisterDirective %s: %v", d.D.Name, err)
		}
	}
	return s, nil
}

// typeNames lists the objects and interfaces, sorted
func (m *Model) typeNames() []string {
	if m.names == nil {
		for n := range m.Objs {
			m.names = append(m.names, n)
		}
		for n := range m.Ifaces {
			m.names = append(m.names, n)
		}
		sort.Strings(m.names)
	}
	return m.names
}
