package harness

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
)

// site is a place in a request where a value is given to an input
type site struct {
	t     *In
	set   func(*Value)
	get   *Value
	f     *Field
	sel   *Sel
	known []*Arg // the arguments or fields of the object the value is in
	kvs   *[]*KV // the arguments or members the value is among
	inVar string // where the value comes from a variable: "given" or "default"
}

// valueSites lists the places inside a value, with a non-nil op also those inside the values of its variables
func valueSites(v *Value, t *In, set func(*Value), f *Field, s *Sel, op *Op, res []site) []site {
	if v.K == VVar && op != nil {
		d := op.variable(v.S)
		if d == nil {
			return res
		}
		n, in := len(res), ""
		if d.Given != nil {
			in = "given"
			res = valueSites(d.Given, t, func(n *Value) { d.Given = n }, f, s, nil, res)
		} else if d.Default != nil {
			in = "default"
			res = valueSites(d.Default, t, func(n *Value) { d.Default = n }, f, s, nil, res)
		}
		for i := range res[n:] {
			res[n+i].inVar = in
		}
	}
	res = append(res, site{t: t, set: set, get: v, f: f, sel: s})
	for t.K == IPtr {
		t = t.Elem
	}
	switch {
	case v.K == VList && t.K == IList:
		for i := range v.L {
			i := i
			res = valueSites(v.L[i], t.Elem, func(n *Value) { v.L[i] = n }, f, s, op, res)
		}
	case v.K == VObject && t.K == IStruct:
		for _, kv := range v.O {
			kv := kv
			if a := t.S.ByName[kv.Name]; a != nil {
				res = valueSites(kv.V, a.T, func(n *Value) { kv.V = n }, f, s, op, res)
			}
		}
		res = append(res, site{f: f, sel: s, known: t.S.Fields, kvs: &v.O})
	}
	return res
}

type fieldSite struct {
	s      *Sel
	f      *Field // nil for __typename
	parent *Obj
	list   *[]*Sel
}

// fieldSites lists the fields of an executed operation with a known type
func fieldSites(m *Model, doc *Doc, op *Op) (res []fieldSite) {
	seen := map[string]bool{}
	var walk func(sels *[]*Sel, o *Obj)
	walk = func(sels *[]*Sel, o *Obj) {
		for _, s := range *sels {
			switch s.K {
			case SField:
				if o == nil {
					continue
				}
				f := o.ByName[s.Name]
				res = append(res, fieldSite{s, f, o, sels})
				if f != nil && f.Out.Composite() {
					walk(&s.Sel, f.Out.Named().Obj)
				}
			case SInline:
				walk(&s.Sel, m.object0(s.On))
			case SSpread:
				if f := doc.Frag(s.Name); f != nil && !seen[s.Name] {
					seen[s.Name] = true
					walk(&f.Sel, m.object0(f.On))
				}
			}
		}
	}
	walk(&op.Sel, m.Root(op.Kind))
	return
}

func (m *Model) object0(name string) *Obj {
	if o := m.Objs[name]; o != nil {
		return o
	}
	return m.Ifaces[name]
}

// wrongValue gives a value that is not of the type, nil if there is none
func (g G) wrongValue(t *In) *Value {
	for t.K == IPtr {
		t = t.Elem
	}
	str := &Value{K: VString, S: []string{"x", "5", "", "true", "RED"}[g.N(5)]}
	i := &Value{K: VInt, S: []string{"1", "0", "7"}[g.N(3)]}
	fl := &Value{K: VFloat, S: []string{"1.5", "0.25", "2.5e1"}[g.N(3)]}
	b := &Value{K: VBool, B: g.N(2) == 1}
	en := &Value{K: VEnum, S: []string{"NOPE", "nul", "truex", "APPL", "RED_X", "null_"}[g.N(6)]}
	list := &Value{K: VList}
	if g.N(2) == 1 {
		list.L = []*Value{i}
	}
	obj := &Value{K: VObject}
	if g.N(2) == 1 {
		obj.O = []*KV{{"a", i}}
	}
	opts := []*Value{}
	switch t.K {
	case IList:
		opts = []*Value{str, i, fl, b, en, obj}
	case IArray:
		// no value is accepted for an array
		full := &Value{K: VList}
		for n := t.Go.Len(); n > 0; n-- {
			full.L = append(full.L, NewQGen(g, nil, QOpts{NoVars: true, Simple: true}).Val(t.Elem, false, 3))
		}
		opts = []*Value{str, i, fl, b, en, obj, list, full, full}
	case IStruct:
		opts = []*Value{str, i, fl, b, en, list}
	case IEnum:
		opts = []*Value{i, fl, b, en, list, obj}
		// the text in Go of a value isn't its name
		for _, s := range []string{"NOPE", "", "0", fmt.Sprint(t.Enum.Vals[t.Enum.Keys[0]]), strings.ToLower(t.Enum.Keys[0]), t.Enum.Keys[0] + " "} {
			if _, ok := t.Enum.Vals[s]; !ok {
				opts = append(opts, &Value{K: VString, S: s})
			}
		}
	case ITime:
		opts = []*Value{i, fl, b, en, list, obj, {K: VString, S: "yesterday"}, {K: VString, S: "2020-13-01T00:00:00.000Z"}, {K: VString, S: ""}}
	case IID:
		opts = []*Value{fl, b, en, list, obj}
		if t.Go.Kind() != reflect.String {
			opts = append(opts, &Value{K: VString, S: []string{"x", "", "1.5", "1x", " 1"}[g.N(5)]})
		}
	case IScalar:
		switch k := t.Go.Kind(); k {
		case reflect.Bool:
			opts = []*Value{str, fl, en, list, obj}
		case reflect.String:
			opts = []*Value{i, fl, b, en, list, obj}
		case reflect.Float32, reflect.Float64:
			opts = []*Value{str, b, en, list, obj}
		default:
			opts = []*Value{str, b, en, list, obj, {K: VFloat, S: "1.5"}}
		}
	default:
		return nil
	}
	return opts[g.N(len(opts))]
}

// otherType is a type that is not accepted for the input, with a value of that type
func (g G) otherType(q *QGen, t *In) (string, *Value) {
	for t != nil && t.K == IPtr {
		t = t.Elem
	}
	if t != nil && g.N(3) == 2 {
		// a name that looks like the right one
		typ := q.varType(t)
		n := strings.Trim(typ, "[]!")
		if n == "Boolean" {
			return "", nil
		}
		other := []string{n + "s", n + "2", "Big" + n, "_" + n, n[:len(n)-1], n[1:], strings.ToLower(n), strings.ToUpper(n), n + "__input", n + n}[g.N(10)]
		if other == n || other == "" || other == "nt" {
			other = "Other" + n
		}
		return strings.Replace(typ, n, other, 1), q.Val(t, false, 1)
	}
	type tv struct {
		name string
		v    *Value
	}
	all := []tv{
		{"Int", &Value{K: VInt, S: "1"}}, {"Float", &Value{K: VFloat, S: "1.5"}}, {"Boolean", &Value{K: VBool, B: true}},
		{"[Int]", &Value{K: VList, L: []*Value{{K: VInt, S: "1"}}}}, {"[String!]", &Value{K: VList}}, {"TreeIn", &Value{K: VObject}},
		{"NoSuchType", &Value{K: VInt, S: "1"}}, {"String", &Value{K: VString, S: "a"}}, {"ID", &Value{K: VString, S: "1"}},
	}
	own := ""
	switch t.K {
	case IList:
		own = "["
	case IStruct:
		own = t.S.Name
	case IEnum, ITime, IFile, IID:
		own = "String ID"
		if t.K != IID {
			own = "String"
		}
	default:
		if t.Go.Kind() == reflect.Bool {
			return "", nil // any type is accepted
		}
		own = scalarName(t.Go.Kind())
	}
	for {
		c := all[g.N(len(all))]
		if own == "[" && c.name[0] == '[' || strings.Contains(own, c.name) {
			continue
		}
		return c.name + []string{"", "!"}[g.N(2)], c.v
	}
}

// misuse makes one mistake against the schema in a valid request
func (g G) misuse(e *Env, r *Request) (*Request, string) {
	n := *r
	n.Doc = r.Doc.clone(nil)
	n.Op = n.Doc.Ops()[0]
	n.Op.Short = false
	fields := fieldSites(e.M, n.Doc, n.Op)
	if len(fields) == 0 {
		return nil, ""
	}
	var sites, objs []site
	for _, fs := range fields {
		if fs.f == nil {
			continue
		}
		for _, kv := range fs.s.Args {
			for _, a := range fs.f.Args {
				if a.Name == kv.Name {
					kv := kv
					sites = valueSites(kv.V, a.T, func(v *Value) { kv.V = v }, fs.f, fs.s, n.Op, sites)
				}
			}
		}
		if len(fs.f.Args) > 0 {
			objs = append(objs, site{f: fs.f, sel: fs.s, known: fs.f.Args, kvs: &fs.s.Args})
		}
	}
	vals := sites[:0:0]
	for _, s := range sites {
		if s.kvs != nil {
			objs = append(objs, s)
		} else {
			vals = append(vals, s)
		}
	}
	what := ""
	fs := fields[g.N(len(fields))]
	c := g.N(16)
	for _, o := range objs {
		if o.inVar != "" && g.N(8) == 0 {
			c = 10
		}
	}
	if c < 10 && len(vals) == 0 || c >= 10 && c < 12 && len(objs) == 0 {
		c = 12 + g.N(4)
	}
	var s site
	if len(vals) > 0 {
		s = vals[g.N(len(vals))]
		for _, v := range vals {
			// rare
			if !v.t.inputOK() && (v.inVar == "given" || g.N(2) == 1) {
				s, c = v, g.N(3)
			}
		}
	}
	newVar := func() *VarDef {
		d := &VarDef{Name: "zz" + fmt.Sprint(len(n.Op.Vars))}
		n.Op.Vars = append(n.Op.Vars, d)
		s.set(&Value{K: VVar, S: d.Name})
		return d
	}
	if s.inVar != "" && c > 2 && c < 10 {
		c = g.N(3)
	}
	q := NewQGen(g, e.M, QOpts{NoVars: true})
	switch c {
	case 0, 1, 2:
		v := g.wrongValue(s.t)
		if v == nil {
			return nil, ""
		}
		what = "wrong value"
		if !s.t.inputOK() {
			what = "value for an array"
		}
		if s.inVar != "" {
			what = "wrong value among those of a variable: " + s.inVar
			if s.inVar == "given" && v.K == VEnum {
				if s.t.named().K != IEnum {
					return nil, ""
				}
				v = &Value{K: VString, S: v.S}
			}
		}
		s.set(v)
	case 3, 4:
		v := g.wrongValue(s.t)
		if v == nil || v.K == VEnum && s.t.named().K != IEnum {
			return nil, ""
		}
		what = "wrong value in a variable"
		d := newVar()
		d.T, d.Type = s.t, q.varType(s.t)
		if c == 3 || v.K == VEnum {
			d.Given = v
			if v.K == VEnum {
				d.Given = &Value{K: VString, S: v.S}
			}
		} else {
			what = "wrong value in a default"
			d.Default = v
		}
	case 5:
		what = "undeclared variable"
		s.set(&Value{K: VVar, S: []string{"undeclared", "zzz", "a_b_c"}[g.N(3)]})
	case 6:
		what = "variable without value or default"
		d := newVar()
		d.T, d.Type = s.t, q.varType(s.t)
	case 7, 8:
		what = "variable of another type"
		name, v := g.otherType(q, s.t)
		if v == nil {
			return nil, ""
		}
		d := newVar()
		d.T, d.Type = s.t, name
		if c == 7 {
			d.Given = v
		} else {
			d.Default = v
		}
	case 9:
		what = "null list item of a variable"
		// a variable that is used with another type nested in a list or object of an input
		name, v := g.otherType(q, s.t)
		if v == nil || s.sel == nil {
			return nil, ""
		}
		what = "nested variable of another type"
		d := newVar()
		d.T, d.Type, d.Given = s.t, name, v
	case 10, 11:
		nested := objs[:0:0]
		want := []string{"given", "default"}[g.N(2)]
		for _, o := range objs {
			if o.inVar == want {
				nested = append(nested, o)
			}
		}
		if len(nested) == 0 {
			for _, o := range objs {
				if o.kvs != &o.sel.Args {
					nested = append(nested, o)
				}
			}
		}
		if len(nested) > 0 && g.N(3) > 0 {
			objs = nested
		}
		s = objs[g.N(len(objs))]
		what = "unknown argument or input field"
		known := map[string]bool{}
		for _, a := range s.known {
			known[a.Name] = true
		}
		name := []string{"unknown", "Unknown", "a_b_c", "__typename"}[g.N(4)]
		if len(s.known) > 0 && g.N(2) == 0 {
			a := s.known[g.N(len(s.known))].Name
			name = []string{a + "x", strings.ToUpper(a[:1]) + a[1:], a[:len(a)-1]}[g.N(3)]
		}
		if known[name] || name == "" || len(name) > 254 {
			return nil, ""
		}
		if s.inVar != "" {
			what = "unknown input field in a variable: " + s.inVar
		}
		kv := &KV{name, []*Value{{K: VInt, S: "1"}, {K: VInt, S: "1"}, {K: VNull}, {K: VList}, {K: VObject}, {K: VBool}, {K: VString}}[g.N(7)]}
		if g.N(2) == 0 {
			*s.kvs = append(*s.kvs, kv)
		} else {
			*s.kvs = append([]*KV{kv}, *s.kvs...)
		}
	case 12:
		what = "unknown field"
		name := []string{"unknown", "__nope", "resolveName", "embeddedField", "onPointer"}[g.N(5)]
		if fs.f != nil && g.N(2) == 0 {
			name = []string{fs.f.Name + "x", strings.ToUpper(fs.f.Name[:1]) + fs.f.Name[1:], fs.f.Name[:len(fs.f.Name)-1], fs.f.GoName}[g.N(4)]
		}
		if name == "" || name == "_" || len(name) > 254 || fs.parent.ByName[name] != nil {
			return nil, ""
		}
		s := &Sel{K: SField, Name: name, Alias: []string{"", n.Doc.freeKey()}[g.N(2)]}
		for _, other := range fields {
			if other.s.Key() == name {
				// response keys stay distinct
				s.Alias = n.Doc.freeKey()
			}
		}
		pos := g.N(len(*fs.list) + 1)
		*fs.list = append(append(append([]*Sel{}, (*fs.list)[:pos]...), s), (*fs.list)[pos:]...)
	case 13:
		if fs.f == nil || !fs.f.Out.Composite() {
			return nil, ""
		}
		what = "missing selection"
		fs.s.HasSel, fs.s.Sel = false, nil
	case 14:
		if fs.f != nil && fs.f.Out.Composite() {
			return nil, ""
		}
		what = "superfluous selection"
		fs.s.HasSel, fs.s.Sel = true, []*Sel{{K: SField, Name: []string{"a", "__typename", "name"}[g.N(3)]}}
	case 15:
		if fs.f == nil || fs.f.Method || fs.f.Func {
			return nil, ""
		}
		what = "arguments on a plain field"
		fs.s.Args = []*KV{{[]string{"a", "if", fs.f.Name}[g.N(3)], &Value{K: VInt, S: "1"}}}
	}
	n.Query = n.Doc.String()
	n.Opts.Variables = n.Op.VariablesJSON(nil, nil)
	return &n, what
}

func (t *In) named() *In {
	for t.K == IPtr || t.K == IList || t.K == IArray {
		t = t.Elem
	}
	return t
}

func TestC09(t *testing.T) {
	check(t, "a case is a valid request with one mistake against the schema (wrong kind of value as literal, variable or default, unknown argument, input field, enum value or field, undeclared variable, variable of another type or without value, malformed variables, missing or superfluous selection, arguments on a plain field) at a place a reference executor reaches; non-trivial: the place is reached", func(g G, st *Stats) {
		f := g.Filler(15)
		f.Simple, f.NoErrs = true, true
		e, reqs := g.batch(g.ArgOrAny(), f, 2, QOpts{ArgHeavy: g.N(3) > 0, Arrays: g.N(3) > 0, VarHeavy: g.N(2) == 1, NoDirs: true})
		for _, r := range reqs {
			for n := 0; n < 4; n++ {
				bad, what := g.misuse(e, r)
				if bad == nil {
					continue
				}
				x := NewExec(e.M, bad.Doc, bad.Op)
				x.Continue = true
				x.Run(e.Root(bad.Op.Kind))
				if !x.Critical {
					st.Class("not reached", true)
					st.Case(false, "")
					continue
				}
				resp := resolve(e.S, bad.Query, bad.Opts)
				if err := resp.envelope(bad.Opts); err != nil {
					g.fatal(err, e, bad, resp)
				}
				checkRefused(g, e, bad, x, resp, what)
				st.Class(what, true)
				st.Case(true, bad.Key())
			}
			// variables that are no JSON
			used := false
			for _, v := range r.Op.Vars {
				used = used || v.Given != nil
			}
			if used && g.N(2) == 0 {
				bad := *r
				v := r.Opts.Variables
				bad.Opts.Variables = []string{v[:len(v)-1], v[1:], v + "}", v + ",", "{" + v, strings.Replace(v, ":", " ", 1), strings.Replace(v, "\"", "", 1), "[" + v + "]", "\"" + v, "1", "nul", "[]", "\"a\""}[g.N(13)]
				x := e.Expect(r)
				// the calls of resolvers that need no variables
				y := NewExec(e.M, r.Doc, r.Op)
				y.NoVariables = true
				y.Continue = true
				y.Run(e.Root(r.Op.Kind))
				if x.Critical || !y.Critical {
					continue
				}
				resp := resolve(e.S, bad.Query, bad.Opts)
				if err := resp.envelope(bad.Opts); err != nil {
					g.fatal(err, e, &bad, resp)
				}
				checkRefused(g, e, &bad, y, resp, "malformed variables")
				st.Class("malformed variables", true)
				st.Case(true, bad.Key())
			}
		}
	})
}

func checkRefused(g G, e *Env, bad *Request, x *Exec, resp *Resp, what string) {
	if len(resp.Errs) == 0 {
		g.fatal(fmt.Errorf("no error: %s", what), e, bad, resp, fmt.Sprint(x.Errs))
	}
	// an error at the field
	found := false
	paths := []string{}
	for _, ee := range resp.J.Get("errors").L {
		paths = append(paths, errPath(ee))
		for _, w := range x.Errs {
			found = found || w.Any && errPath(ee) == w.Path
		}
	}
	if !found {
		g.fatal(fmt.Errorf("%s: the errors are at %q, expected one of %v", what, paths, x.Errs), e, bad, resp)
	}
	// no call besides those of fields without mistakes
	left := map[string]int{}
	for _, c := range x.Rec.Calls {
		left[callArgs(c)]++
	}
	for _, c := range resp.Calls {
		if left[callArgs(c)]--; left[callArgs(c)] < 0 {
			g.fatal(fmt.Errorf("%s: %s was called", what, c), e, bad, resp, fmt.Sprint(x.Rec.Calls))
		}
	}
	// mistakes in items do not change lists
	if err := resp.data(bad.Opts).sameLengths(x.Data, ""); err != nil {
		g.fatal(fmt.Errorf("%s: %v", what, err), e, bad, resp, x.Data.String())
	}
	// the field has no value
	for _, w := range x.Errs {
		if !w.Any {
			continue
		}
		if v := resp.data(bad.Opts).at(w.Path); v != nil && v.Kind != JNull && !w.Sel {
			g.fatal(fmt.Errorf("%s: the field at %s has the value %s", what, w.Path, v), e, bad, resp)
		}
	}
}

// sameLengths compares the lengths of the lists that are there
func (j *J) sameLengths(w *E, path string) error {
	if j == nil || w == nil {
		return nil
	}
	if w.Kind == EList && j.Kind == JList {
		if len(w.L) != len(j.L) {
			return fmt.Errorf("the list at %s has %d items, expected %d", path, len(j.L), len(w.L))
		}
		for i := range w.L {
			if err := j.L[i].sameLengths(w.L[i], fmt.Sprint(path, "/", i)); err != nil {
				return err
			}
		}
	}
	if w.Kind == EObj && j.Kind == JObj {
		for i, k := range w.Keys {
			if err := j.Get(k).sameLengths(w.Vals[i], path+"/"+k); err != nil {
				return err
			}
		}
	}
	return nil
}

// at follows a path, nil if it leads nowhere
func (j *J) at(path string) *J {
	p, err := ParseJSON([]byte("[" + path + "]"))
	if err != nil {
		return nil
	}
	for _, s := range p.L {
		if j == nil {
			return nil
		}
		if s.Kind == JStr && j.Kind == JObj {
			j = j.Get(s.S)
		} else if s.Kind == JNum && j.Kind == JList {
			n := 0
			fmt.Sscan(s.S, &n)
			if n >= len(j.L) {
				return nil
			}
			j = j.L[n]
		} else {
			return nil
		}
	}
	return j
}
