package harness

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// refSel is the selection of a type reference
func refSel(depth int) []*Sel {
	res := []*Sel{plainSel("kind"), plainSel("name")}
	if depth > 0 {
		res = append(res, plainSel("ofType", refSel(depth-1)...))
	}
	return res
}

func plainSel(name string, sel ...*Sel) *Sel {
	return &Sel{K: SField, Name: name, Sel: sel, HasSel: len(sel) > 0}
}

// fullDoc asks for everything there is
func fullDoc() (*Doc, *Op) {
	desc := plainSel("description")
	in := func() []*Sel {
		return []*Sel{plainSel("name"), desc, plainSel("defaultValue"), plainSel("type", refSel(8)...)}
	}
	typ := func() []*Sel {
		return []*Sel{
			plainSel("kind"), plainSel("name"), desc, plainSel("specifiedByURL"),
			plainSel("fields", plainSel("name"), desc, plainSel("isDeprecated"), plainSel("deprecationReason"), plainSel("args", in()...), plainSel("type", refSel(8)...)),
			plainSel("interfaces", refSel(1)...), plainSel("possibleTypes", refSel(1)...),
			plainSel("enumValues", plainSel("name"), desc, plainSel("isDeprecated"), plainSel("deprecationReason")),
			plainSel("inputFields", in()...), plainSel("ofType", refSel(1)...),
		}
	}
	op := &Op{Kind: "query", Short: true, Sel: []*Sel{plainSel("__schema",
		plainSel("types", typ()...), plainSel("queryType", typ()...), plainSel("mutationType", typ()...), plainSel("subscriptionType", typ()...),
		plainSel("directives", plainSel("name"), desc, plainSel("locations"), plainSel("args", in()...)))}}
	return &Doc{Defs: []*Def{{Op: op}}}, op
}

// wideType is a struct with many fields, most of a type of its own
func (g G) wideType(n int) reflect.Type {
	fs := []reflect.StructField{}
	for i := 0; i < n; i++ {
		nr := strconv.Itoa(i)
		t := reflect.StructOf([]reflect.StructField{{Name: "Only" + nr, Type: rt[int]()}})
		switch g.N(8) {
		case 0:
			t = leafTypes[g.N(len(leafTypes))]
		case 1:
			t = reflect.PtrTo(t)
		case 2:
			t = reflect.SliceOf(t)
		case 3:
			t = reflect.FuncOf([]reflect.Type{reflect.StructOf([]reflect.StructField{{Name: "Arg" + nr, Type: t}})}, []reflect.Type{rt[int]()}, false)
		}
		fs = append(fs, reflect.StructField{Name: "Wide" + nr, Type: t})
	}
	return reflect.StructOf(fs)
}

func TestC18(t *testing.T) {
	check(t, "a case is one introspection query on a generated schema: everything there is, or random selections of __schema and __type with nested references, fragments, variables and directives; the expected answer is made from the declaration by a reference executor; non-trivial: types are selected", func(g G, st *Stats) {
		f := g.Filler(4)
		f.Simple, f.NoErrs = true, true
		var e *Env
		switch g.N(5) {
		case 4:
			e = newModel(rt[DeepQuery](), rt[EmptyMutation]())
		case 0:
			e = g.ArgModel()
		case 1:
			d := &DynGen{G: g, Left: 40}
			e = newModel(d.Struct(0), rt[SmallMutation]())
		default:
			e = g.NewModel()
		}
		if g.N(80) == 33 {
			// many types and fields
			e = newModel(g.wideType([]int{100, 255, 256, 257, 300, 700}[g.N(6)]), rt[SmallMutation]())
			st.Class("types or fields > 100", true)
		}
		e.Data(f, &Request{Doc: &Doc{}})
		in := e.M.AddIntro()
		r := &Request{}
		r.Doc, r.Op = fullDoc()
		r.Query = r.Doc.String()
		_, resp := g.must(e, r, cmp{data: true, errs: true})
		st.Class("everything", true)
		st.Class("anonymous types", strings.Contains(string(resp.Raw), "__Unknown"))
		st.Class("__input types", strings.Contains(string(resp.Raw), "__input"))
		st.Case(true, e.Q.Type().String()+e.Mut.Type().String()+r.Query)
		for n := 0; n < 4; n++ {
			r := e.Request(g, QOpts{Intro: in, Budget: 30, MaxDepth: 9, NoDirs: g.N(2) == 0, NoVars: g.N(2) == 0, Simple: true}, nil)
			_, resp := g.must(e, r, cmp{data: true, errs: true})
			st.Class("lookup by name", strings.Contains(r.Query, "__type("))
			st.Class("listing", strings.Contains(r.Query, "types{"))
			st.Class("nested fields", strings.Count(r.Query, "fields") > 1)
			st.Class("answers above 4 kB", len(resp.Raw) > 4096)
			st.Class("answers above 64 kB", len(resp.Raw) > 65536)
			st.Case(strings.Contains(r.Query, "__type(") || strings.Contains(r.Query, "__schema"), fmt.Sprint(e.Q.Type(), r.Key()))
		}
		// a schema that does not want it
		if g.N(4) == 0 {
			s := e.Build(&yarql.SchemaOptions{SkipGraphqlTypesInjection: true})
			r := e.Request(g, QOpts{Budget: 10}, nil)
			if !strings.Contains(r.Query, "__schema") && !strings.Contains(r.Query, "__type(") {
				got, want := resolve(s, r.Query, r.Opts), resolve(e.S, r.Query, r.Opts)
				if string(got.Raw) != string(want.Raw) {
					g.fatal(fmt.Errorf("a request has another response without introspection"), e, r, got, "with introspection: "+want.String())
				}
				st.Class("without introspection", true)
			}
			for _, q := range []string{"{__schema{queryType{name}}}", `{__type(name:"` + e.M.Query.Name + `"){name}}`} {
				resp := resolve(s, q, yarql.ResolveOptions{})
				if err := resp.envelope(yarql.ResolveOptions{}); err != nil {
					g.T.Fatalf("%v\n%s", err, q)
				}
				if len(resp.Errs) == 0 || strings.Contains(string(resp.Raw), `"name":`) {
					g.T.Fatalf("a schema parsed without introspection answers %s with %s", q, resp)
				}
			}
		}
	})
}

// dump is everything the introspection told, the source of the answers to other introspection queries
type dump struct {
	schema *J
	types  map[string]*J
}

func newDump(j *J) (*dump, error) {
	d := &dump{schema: j.Get("__schema"), types: map[string]*J{}}
	for _, t := range d.schema.Get("types").L {
		n := t.Get("name")
		if n.Kind != JStr || n.S == "" {
			return nil, fmt.Errorf("a type is listed with the name %s", n)
		}
		if d.types[n.S] != nil {
			return nil, fmt.Errorf("the type %s is listed twice", n.S)
		}
		d.types[n.S] = t
	}
	return d, nil
}

// refs checks that everything that is referred to is listed
func (d *dump) refs(j *J, path string) error {
	switch j.Kind {
	case JList:
		names := map[string]bool{}
		for i, v := range j.L {
			if err := d.refs(v, path+"["+strconv.Itoa(i)+"]"); err != nil {
				return err
			}
			if n := v.Get("name"); v.Kind == JObj && n != nil && n.Kind == JStr {
				key := n.S
				if l := v.Get("locations"); l != nil {
					// a name can be registered again for other locations
					key += l.String()
				}
				if names[key] {
					return fmt.Errorf("%s has the name %s twice", path, key)
				}
				names[key] = true
			}
		}
	case JObj:
		if k := j.Get("kind"); k != nil {
			wrapped := k.S == "LIST" || k.S == "NON_NULL"
			name := j.Get("name")
			if wrapped != (name.Kind == JNull) {
				return fmt.Errorf("%s is a %s with the name %s", path, k.S, name)
			}
			if of := j.Get("ofType"); of != nil && wrapped != (of.Kind == JObj) {
				return fmt.Errorf("%s is a %s of %s", path, k.S, of)
			} else if wrapped && k.S == "NON_NULL" && of != nil && of.Get("kind").S == "NON_NULL" {
				return fmt.Errorf("%s is a non null of non null", path)
			}
			if !wrapped {
				t := d.types[name.S]
				if t == nil {
					return fmt.Errorf("%s refers to %s, which is not listed", path, name)
				}
				if t.Get("kind").S != k.S {
					return fmt.Errorf("%s says %s is a %s but it is listed as %s", path, name, k.S, t.Get("kind"))
				}
			}
		}
		for i, k := range j.Keys {
			if err := d.refs(j.Vals[i], path+"."+k); err != nil {
				return err
			}
		}
	}
	return nil
}

// implementations checks that interfaces and possible types mirror each other
func (d *dump) implementations() error {
	has := func(t *J, list, name string) bool {
		l := t.Get(list)
		if l.Kind != JList {
			return false
		}
		for _, v := range l.L {
			if v.Get("name").S == name {
				return true
			}
		}
		return false
	}
	for a, ta := range d.types {
		for b, tb := range d.types {
			if has(ta, "possibleTypes", b) != has(tb, "interfaces", a) {
				return fmt.Errorf("possibleTypes of %s and interfaces of %s do not agree", a, b)
			}
		}
	}
	return nil
}

var introChild = map[string]string{
	"types": "__Type", "queryType": "__Type", "mutationType": "__Type", "subscriptionType": "__Type", "ofType": "__Type", "interfaces": "__Type", "possibleTypes": "__Type", "type": "__Type", "__type": "__Type",
	"fields": "__Field", "args": "__InputValue", "inputFields": "__InputValue", "enumValues": "__EnumValue", "directives": "__Directive", "__schema": "__Schema",
}

// answer evaluates a selection on what the dump says
func (d *dump) answer(to *E, doc *Doc, sels []*Sel, node *J, typ, root string) {
	if typ == "__Type" && node.Get("name").Kind == JStr {
		node = d.types[node.Get("name").S]
	}
	for _, s := range sels {
		switch s.K {
		case SInline:
			if s.On == typ {
				d.answer(to, doc, s.Sel, node, typ, root)
			}
		case SSpread:
			if f := doc.Frag(s.Name); f.On == typ {
				d.answer(to, doc, f.Sel, node, typ, root)
			}
		default:
			to.Keys = append(to.Keys, s.Key())
			if s.Name == "__typename" {
				to.Vals = append(to.Vals, &E{Kind: EStr, S: typ})
				continue
			}
			var v *J
			switch s.Name {
			case "__schema":
				v = d.schema
			case "__type":
				v = d.types[s.Args[0].V.S]
				if v == nil {
					v = &J{Kind: JNull}
				}
			default:
				if v = node.Get(s.Name); v == nil {
					// of lists and non nulls only the inner type is listed
					if k := node.Get("kind").S; typ != "__Type" || k != "LIST" && k != "NON_NULL" {
						panic("not listed: " + s.Name + " of " + node.String())
					}
					v = &J{Kind: JNull}
				}
			}
			to.Vals = append(to.Vals, d.value(doc, s, v))
		}
	}
}

func (d *dump) value(doc *Doc, s *Sel, v *J) *E {
	switch v.Kind {
	case JNull:
		return &E{Kind: ENull}
	case JBool:
		return &E{Kind: EBool, B: v.B}
	case JStr:
		return &E{Kind: EStr, S: v.S}
	case JList:
		e := &E{Kind: EList}
		for _, c := range v.L {
			e.L = append(e.L, d.value(doc, s, c))
		}
		return e
	case JObj:
		e := &E{Kind: EObj}
		d.answer(e, doc, s.Sel, v, introChild[s.Name], "")
		return e
	}
	panic("a number in the introspection")
}

func TestC19(t *testing.T) {
	check(t, "a case is one random introspection query in a sequence on a generated schema or a copy of it, with repetitions; the expected answer is evaluated from one complete listing taken from another build of the schema; non-trivial: types are selected", func(g G, st *Stats) {
		f := g.Filler(4)
		f.Simple, f.NoErrs = true, true
		var e *Env
		if g.N(2) == 0 {
			e = g.ArgModel()
		} else {
			e = g.NewModel()
		}
		e.Data(f, &Request{Doc: &Doc{}})
		in := e.M.AddIntro()
		doc, op := fullDoc()
		full := &Request{Doc: doc, Op: op, Query: doc.String()}
		resp := resolve(e.Build(nil), full.Query, full.Opts)
		if err := resp.envelope(full.Opts); err != nil || len(resp.Errs) > 0 {
			g.fatal(fmt.Errorf("no complete listing: %v", err), e, full, resp)
		}
		d, err := newDump(resp.data(full.Opts))
		if err == nil {
			err = d.refs(d.schema, "__schema")
		}
		if err == nil {
			err = d.implementations()
		}
		if err != nil {
			g.fatal(err, e, full, resp)
		}
		reqs := []*Request{full}
		s := e.S
		for n := 4 + g.N(4); n > 0; n-- {
			r := reqs[g.N(len(reqs))]
			again := true
			if g.N(4) > 0 {
				again = false
				q := NewQGen(g, e.M, QOpts{Intro: in, Budget: 40, MaxDepth: 9, NoDirs: true, NoVars: true, Simple: true})
				q.Op = &Op{Kind: "query"}
				q.Left = 4 + g.N(40)
				sc := newScope([]*Obj{e.M.Query})
				for i := 0; i == 0 || i < 3 && q.Left > 0; i++ {
					q.Op.Sel = append(q.Op.Sel, q.introField(sc, 1))
				}
				r = &Request{Op: q.Op, Doc: q.Doc, Q: q}
				r.Doc.Defs = append(r.Doc.Defs, &Def{Op: q.Op})
				for _, f := range q.frags {
					r.Doc.Defs = append(r.Doc.Defs, &Def{Frag: f.f})
				}
				r.Query = r.Doc.String()
				reqs = append(reqs, r)
			}
			if g.N(5) == 4 {
				s = s.Copy()
				st.Class("copies", true)
			}
			want := &E{Kind: EObj}
			d.answer(want, r.Doc, r.Op.Sel, nil, e.M.Query.Name, e.M.Query.Name)
			resp := resolve(s, r.Query, r.Opts)
			err := resp.envelope(r.Opts)
			if err == nil && len(resp.Errs) > 0 {
				err = fmt.Errorf("errors: %v", resp.Errs)
			}
			if err == nil {
				err = want.Match(resp.data(r.Opts), "data")
			}
			if err != nil {
				g.fatal(err, e, r, resp, "expected: "+clip(want.String(), 4000))
			}
			st.Class("lookup by name", strings.Contains(r.Query, "__type("))
			st.Class("listing", strings.Contains(r.Query, "types{"))
			st.Class("roots", strings.Contains(r.Query, "queryType{") || strings.Contains(r.Query, "mutationType{"))
			st.Class("nested fields", strings.Count(r.Query, "fields") > 1)
			st.Class("repeated", again)
			st.Case(strings.Contains(r.Query, "ype"), fmt.Sprint(e.Q.Type(), r.Key()))
		}
	})
}
