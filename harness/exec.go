package harness

import (
	"context"
	"fmt"
	"math"
	"mime/multipart"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// Call is one call of a resolver or directive
type Call struct {
	Name string
	Args string
	Path string
	Took time.Duration // in slow mode
	Raw  []interface{} // the arguments as the resolver got them
	JSON []byte        // the path as the resolver got it
}

func (c Call) String() string { return c.Name + "(" + c.Args + ") at [" + c.Path + "]" }

// Recorder collects the calls made while it is active
type Recorder struct {
	Ref     bool
	RefPath string
	Calls   []Call
	Values  map[string]interface{} // reference mode: the values of the request
	Context context.Context        // reference mode: the context of the request

	Slow     time.Duration // the calls last this long
	CancelAt int           // number of calls when the context was cancelled
}

var rec *Recorder

// formFiles has the files a lookup may return
var formFiles = map[*multipart.FileHeader]bool{}

func record(f func()) []Call {
	old := rec
	rec = &Recorder{}
	defer func() { rec = old }()
	f()
	return rec.Calls
}

func logCall(ctx *yarql.Ctx, name string, args ...interface{}) {
	if rec == nil {
		return
	}
	c := Call{Name: name, Args: canonList(args), Raw: args}
	if ctx != nil {
		if rec.Ref {
			c.Path = rec.RefPath
		} else {
			c.JSON = ctx.GetPath()
			c.Path = barePath(c.JSON)
		}
	}
	for start := time.Now(); rec.Slow > 0 && c.Took < rec.Slow; c.Took = time.Since(start) {
	}
	rec.Calls = append(rec.Calls, c)
}

func barePath(path []byte) string {
	return strings.TrimSuffix(strings.TrimPrefix(string(path), "["), "]")
}

func canonList(args []interface{}) string {
	parts := []string{}
	for _, a := range args {
		parts = append(parts, canon(reflect.ValueOf(a)))
	}
	return strings.Join(parts, ", ")
}

// canon writes a Go value such that two values are equal if and only if their text is
func canon(v reflect.Value) string { return canonAt(v, 300) }

func canonAt(v reflect.Value, depth int) string {
	if depth == 0 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	if v.Type() == tTime {
		t := v.Interface().(time.Time)
		_, off := t.Zone()
		return "time:" + strconv.FormatInt(t.Unix(), 10) + "." + strconv.Itoa(t.Nanosecond()) + "/" + strconv.Itoa(off)
	}
	if v.Type() == tFile {
		if v.IsNil() {
			return "nil"
		}
		f := v.Interface().(*multipart.FileHeader)
		return fmt.Sprintf("file:%q, the one returned: %v", f.Filename, formFiles[f])
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + canonAt(v.Elem(), depth-1)
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		fallthrough
	case reflect.Array:
		parts := make([]string, v.Len())
		for i := range parts {
			parts[i] = canonAt(v.Index(i), depth-1)
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		parts := []string{}
		for i := 0; i < v.NumField(); i++ {
			parts = append(parts, v.Type().Field(i).Name+":"+canonAt(v.Field(i), depth-1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.String:
		return strconv.QuoteToASCII(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return "f" + strconv.FormatUint(math.Float64bits(v.Float()), 16)
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "func"
	}
	if v.CanInt() {
		return strconv.FormatInt(v.Int(), 10)
	}
	if v.CanUint() {
		return strconv.FormatUint(v.Uint(), 10)
	}
	return fmt.Sprintf("?%s", v.Kind())
}

type ExpErr struct {
	Msg  string
	Path string
	Any  bool // the message is not specified
	Sel  bool // about the selection
}

// Exec is the reference executor
type Exec struct {
	M        *Model
	Doc      *Doc
	Op       *Op
	Ctx      *yarql.Ctx
	Values   map[string]interface{}
	Files    func(string) (*multipart.FileHeader, error)
	CtxErr   func() error
	Context  context.Context
	Rec      *Recorder
	Errs     []ExpErr
	Data     *E
	Critical bool // a request error was met: what follows it is not specified
	Continue bool // go on behind request errors

	NoVariables bool // no variable has a value
	Records     []TraceRec
	path        []string
	maxDepth    int

	// statistics
	Fields, Resolvers, Lists, Spreads, Depth, Skips, Longest int
}

type TraceRec struct {
	Path, Parent, Field, Type string
}

func NewExec(m *Model, doc *Doc, op *Op) *Exec {
	return &Exec{M: m, Doc: doc, Op: op, Ctx: &yarql.Ctx{}, Values: map[string]interface{}{}, maxDepth: m.MaxDepth}
}

// Run executes the operation on the root value
func (x *Exec) Run(root reflect.Value) {
	x.Rec = &Recorder{Ref: true, Values: x.Values, Context: x.Context}
	old := rec
	rec = x.Rec
	defer func() { rec = old }()
	obj := x.M.Query
	if x.Op.Kind == "mutation" {
		obj = x.M.Mut
	}
	x.Data = &E{Kind: EObj}
	x.selection(x.Data, x.Op.Sel, obj, root, 0)
}

func (x *Exec) pathStr() string { return strings.Join(x.path, ",") }

func (x *Exec) err(msg string) {
	x.Errs = append(x.Errs, ExpErr{Msg: msg, Path: x.pathStr()})
}

func (x *Exec) critical(what string) bool {
	x.Errs = append(x.Errs, ExpErr{Msg: what, Path: x.pathStr(), Any: true})
	x.Critical = true
	return true
}

func (x *Exec) directives(ds []*DirUse, loc yarql.DirectiveLocation) (skip, critical bool) {
	for _, d := range ds {
		s, bad := x.directive(d, loc)
		if bad {
			return false, true
		}
		if s {
			x.Skips++
			return true, false
		}
	}
	return false, false
}

func (x *Exec) directive(d *DirUse, loc yarql.DirectiveLocation) (skip, critical bool) {
	if d.Name == "skip" || d.Name == "include" {
		v := reflect.New(reflect.TypeOf(false)).Elem()
		for _, kv := range d.Args {
			if kv.Name != "if" || x.bind(v, kv.V, boolIn, true) != nil {
				return false, x.critical("directive argument")
			}
		}
		return v.Bool() == (d.Name == "skip"), false
	}
	for _, dir := range x.M.Reg.Dirs {
		if dir.D.Name != d.Name {
			continue
		}
		for _, l := range dir.D.Where {
			if l != loc {
				continue
			}
			ins, err := x.args(dir.Ins, dir.Args, d.Args)
			if err != nil {
				return false, x.critical("directive argument")
			}
			x.Rec.RefPath = x.pathStr()
			out := reflect.ValueOf(dir.D.Method).Call(ins)
			return out[0].Interface().(yarql.DirectiveModifier).Skip, false
		}
	}
	return false, x.critical("unknown directive")
}

var boolIn = &In{K: IScalar, Go: reflect.TypeOf(false)}

func (x *Exec) args(ins []InSpec, known []*Arg, given []*KV) ([]reflect.Value, error) {
	res := make([]reflect.Value, len(ins))
	for i, in := range ins {
		if in.Ctx {
			res[i] = reflect.ValueOf(x.Ctx)
		} else {
			res[i] = reflect.New(in.Go).Elem()
		}
	}
outer:
	for _, kv := range given {
		for _, a := range known {
			if a.Name == kv.Name {
				if err := x.bind(res[a.In].Field(a.Idx), kv.V, a.T, true); err != nil {
					return nil, err
				}
				continue outer
			}
		}
		return nil, fmt.Errorf("unknown argument %s", kv.Name)
	}
	return res, nil
}

func (x *Exec) matches(obj *Obj, cond string) bool {
	return obj.Name == cond || obj.HasIface(cond)
}

func (x *Exec) selection(to *E, sels []*Sel, obj *Obj, recv reflect.Value, depth int) (critical bool) {
	if depth > x.Depth {
		x.Depth = depth
	}
	for _, s := range sels {
		switch s.K {
		case SField:
			x.path = append(x.path, jsonQuote(s.Key()))
			critical = x.field(to, s, obj, recv, depth)
			x.path = x.path[:len(x.path)-1]
		case SInline:
			x.Spreads++
			skip, bad := x.directives(s.Dirs, yarql.DirectiveLocationFragmentInline)
			if bad {
				if x.Continue {
					continue
				}
				return true
			}
			if !skip && x.matches(obj, s.On) {
				critical = x.selection(to, s.Sel, obj, recv, depth)
			}
		case SSpread:
			x.Spreads++
			skip, bad := x.directives(s.Dirs, yarql.DirectiveLocationFragment)
			if bad {
				if x.Continue {
					continue
				}
				return true
			}
			if skip {
				continue
			}
			f := x.Doc.Frag(s.Name)
			if f == nil {
				return x.critical("undefined fragment")
			}
			if x.matches(obj, f.On) {
				critical = x.selection(to, f.Sel, obj, recv, depth)
			}
		}
		if critical && !x.Continue {
			return true
		}
	}
	return false
}

func (x *Exec) field(to *E, s *Sel, obj *Obj, recv reflect.Value, depth int) (critical bool) {
	skip, bad := x.directives(s.Dirs, yarql.DirectiveLocationField)
	if bad {
		return true
	}
	if skip {
		return false
	}
	x.Fields++
	val := &E{Kind: ENull}
	to.Keys = append(to.Keys, s.Key())
	to.Vals = append(to.Vals, val)
	f := obj.ByName[s.Name]
	if f == nil {
		if s.Name == "__typename" {
			if s.HasSel {
				return x.critical("selection on __typename")
			}
			*val = E{Kind: EStr, S: obj.Name}
			return false
		}
		return x.critical("unknown field " + s.Name)
	}
	nrec := len(x.Records)
	x.Records = append(x.Records, TraceRec{Path: x.pathStr(), Parent: obj.Name, Field: f.Name, Type: f.QLType()})
	// records are written when a field is done
	defer func() {
		r := x.Records[nrec]
		copy(x.Records[nrec:], x.Records[nrec+1:])
		x.Records[len(x.Records)-1] = r
	}()
	if !f.Method && !f.Func {
		if len(s.Args) > 0 || s.Parens {
			return x.critical("arguments on a plain field")
		}
		v := f.Custom
		if !v.IsValid() {
			v = recv.Field(f.Index)
		}
		bad := x.value(val, s, f.Out, v, depth)
		val.free(obj, f)
		return bad
	}
	fn := f.Custom
	if fn.IsValid() {
	} else if f.Method {
		fn = recv.MethodByName(f.GoName)
	} else {
		fn = recv.Field(f.Index)
		if fn.IsNil() {
			return false
		}
	}
	ins, err := x.args(f.Ins, f.Args, s.Args)
	if err != nil {
		return x.critical(err.Error())
	}
	x.Resolvers++
	x.Rec.RefPath = x.pathStr()
	outs := fn.Call(ins)
	if f.ErrNr >= 0 && !outs[f.ErrNr].IsNil() {
		x.err(outs[f.ErrNr].Interface().(error).Error())
	}
	if x.CtxErr != nil {
		if err := x.CtxErr(); err != nil {
			x.err(err.Error())
			return false
		}
	}
	bad = x.value(val, s, f.Out, outs[f.OutNr], depth)
	val.free(obj, f)
	return bad
}

// free drops what the introspection does not specify
func (e *E) free(obj *Obj, f *Field) {
	e.Free = obj.Intro
	if f.Any {
		*e = E{Kind: EAny}
	}
}

func (x *Exec) value(to *E, s *Sel, t *Out, v reflect.Value, depth int) (critical bool) {
	switch t.K {
	case OPtr:
		if v.IsNil() {
			return false
		}
		return x.value(to, s, t.Elem, v.Elem(), depth)
	case OList:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return false
		}
		x.Lists++
		x.Longest = max(x.Longest, v.Len())
		to.Kind = EList
		for i := 0; i < v.Len(); i++ {
			e := &E{Kind: ENull}
			to.L = append(to.L, e)
			x.path = append(x.path, strconv.Itoa(i))
			x.value(e, s, t.Elem, v.Index(i), depth)
			x.path = x.path[:len(x.path)-1]
		}
		return false
	case OIface:
		if !s.HasSel {
			return x.critical("must have a selection")
		}
		if v.IsNil() {
			return false
		}
		c := v.Elem()
		for _, impl := range t.Obj.Impls {
			if impl.Go == c.Type() {
				return x.object(to, s, impl, c, depth)
			}
		}
		return false
	case OObj:
		if !s.HasSel {
			return x.critical("must have a selection")
		}
		return x.object(to, s, t.Obj, v, depth)
	}
	if s.HasSel {
		return x.critical("superfluous selection")
	}
	*to = *scalarE(t, v)
	return false
}

func (x *Exec) object(to *E, s *Sel, o *Obj, v reflect.Value, depth int) bool {
	depth++
	if depth >= x.maxDepth {
		return x.critical("max depth")
	}
	to.Kind = EObj
	return x.selection(to, s.Sel, o, v, depth)
}

func scalarE(t *Out, v reflect.Value) *E {
	switch t.K {
	case OEnum:
		if k, ok := t.Enum.KeyOf(v); ok {
			return &E{Kind: EStr, S: k}
		}
		return &E{Kind: ENull}
	case OTime:
		return &E{Kind: EStr, S: isoTime(v.Interface().(time.Time))}
	}
	var e *E
	switch k := v.Kind(); {
	case k == reflect.Bool:
		e = &E{Kind: EBool, B: v.Bool()}
	case k == reflect.String:
		return &E{Kind: EStr, S: string([]rune(v.String()))}
	case v.CanInt():
		e = &E{Kind: EInt, S: strconv.FormatInt(v.Int(), 10)}
	case v.CanUint():
		e = &E{Kind: EInt, S: strconv.FormatUint(v.Uint(), 10)}
	case v.CanFloat():
		f := v.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return &E{Kind: EAny}
		}
		e = &E{Kind: EFloat, F: f, Bits: v.Type().Bits()}
	default:
		panic("scalarE: " + k.String())
	}
	if t.ID {
		return &E{Kind: EStr, S: e.S}
	}
	return e
}

// isoTime writes the instant in UTC with milliseconds, computed from the Unix time
func isoTime(t time.Time) string {
	u := time.Unix(t.Unix(), int64(t.Nanosecond())).UTC()
	return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ", u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), u.Second(), u.Nanosecond()/1000000)
}

func (x *Exec) varDef(name string) *VarDef {
	for _, v := range x.Op.Vars {
		if v.Name == name {
			return v
		}
	}
	return nil
}

// bind stores an input value in a Go value
func (x *Exec) bind(to reflect.Value, v *Value, t *In, vars bool) error {
	if v.K == VVar {
		if !vars {
			return fmt.Errorf("variable in default")
		}
		d := x.varDef(v.S)
		if d == nil {
			return fmt.Errorf("undefined variable %s", v.S)
		}
		if x.NoVariables {
			return fmt.Errorf("no variables")
		}
		if d.T != nil && !accepts(t, d.Type) {
			return fmt.Errorf("variable %s has type %s", v.S, d.Type)
		}
		if d.Given != nil {
			return x.bind(to, d.Given, t, false)
		}
		if d.Default != nil {
			return x.bind(to, d.Default, t, false)
		}
		return fmt.Errorf("variable %s has no value", v.S)
	}
	if v.K == VNull {
		return nil
	}
	mismatch := fmt.Errorf("cannot use %v as %s", v.K, t.QLType())
	switch t.K {
	case IPtr:
		n := reflect.New(t.Go.Elem())
		if err := x.bind(n.Elem(), v, t.Elem, vars); err != nil {
			return err
		}
		// a variable that is null leaves the pointer nil
		if isNull(x, v) {
			return nil
		}
		to.Set(n)
		return nil
	case IList:
		if v.K != VList {
			return mismatch
		}
		s := reflect.MakeSlice(t.Go, len(v.L), len(v.L))
		for i, e := range v.L {
			if err := x.bind(s.Index(i), e, t.Elem, vars); err != nil {
				return err
			}
		}
		to.Set(s)
		return nil
	case IStruct:
		if v.K != VObject {
			return mismatch
		}
		for _, kv := range v.O {
			a := t.S.ByName[kv.Name]
			if a == nil {
				return fmt.Errorf("unknown input field %s", kv.Name)
			}
			if err := x.bind(to.Field(a.Idx), kv.V, a.T, vars); err != nil {
				return err
			}
		}
		return nil
	case IEnum:
		if v.K != VEnum && v.K != VString {
			return mismatch
		}
		val, ok := t.Enum.Vals[v.S]
		if !ok {
			return fmt.Errorf("unknown enum value %s", v.S)
		}
		to.Set(val)
		return nil
	case ITime:
		if v.K != VString {
			return mismatch
		}
		tm, err := time.Parse("2006-01-02T15:04:05.000Z", v.S)
		if err != nil {
			return err
		}
		to.Set(reflect.ValueOf(tm))
		return nil
	case IFile:
		if v.K != VString || x.Files == nil {
			return mismatch
		}
		f, err := x.Files(v.S)
		if err != nil {
			return err
		}
		to.Set(reflect.ValueOf(f))
		return nil
	case IID:
		if v.K != VString {
			return mismatch
		}
		if to.Kind() == reflect.String {
			to.SetString(v.S)
			return nil
		}
		return setInt(to, v.S)
	case IScalar:
		switch k := to.Kind(); {
		case k == reflect.Bool && v.K == VBool:
			to.SetBool(v.B)
		case k == reflect.Bool && v.K == VInt:
			to.SetBool(v.S[0] != '-' && strings.Trim(v.S, "0") != "")
		case k == reflect.String && v.K == VString:
			to.SetString(v.S)
		case (to.CanInt() || to.CanUint()) && v.K == VInt:
			return setInt(to, v.S)
		case to.CanFloat() && (v.K == VInt || v.K == VFloat):
			f, err := strconv.ParseFloat(v.S, 64)
			if err != nil || to.OverflowFloat(f) {
				return fmt.Errorf("float out of range")
			}
			to.SetFloat(f)
		default:
			return mismatch
		}
		return nil
	}
	return mismatch
}

func isNull(x *Exec, v *Value) bool {
	if v.K == VVar {
		d := x.varDef(v.S)
		if d.Given != nil {
			return d.Given.K == VNull
		}
		return d.Default.K == VNull
	}
	return v.K == VNull
}

func setInt(to reflect.Value, s string) error {
	if to.CanInt() {
		n, err := strconv.ParseInt(s, 10, to.Type().Bits())
		if err != nil {
			return err
		}
		to.SetInt(n)
		return nil
	}
	n, err := strconv.ParseUint(s, 10, to.Type().Bits())
	if err != nil {
		return err
	}
	to.SetUint(n)
	return nil
}

// accepts tells if a variable of the declared type may be used for the input
func accepts(t *In, decl string) bool {
	for t.K == IPtr {
		t = t.Elem
	}
	decl = strings.TrimSuffix(decl, "!")
	switch t.K {
	case IList, IArray:
		return strings.HasPrefix(decl, "[") && accepts(t.Elem, decl[1:len(decl)-1])
	case IStruct:
		return decl == t.S.Name
	case IEnum:
		return decl == "String" || decl == t.Enum.Name
	case ITime:
		return decl == "String" || decl == "Time"
	case IFile:
		return decl == "String" || decl == "File"
	case IID:
		return decl == "String" || decl == "ID"
	}
	return t.Go.Kind() == reflect.Bool || decl == scalarName(t.Go.Kind())
}
