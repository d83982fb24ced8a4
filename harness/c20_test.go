package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// Embedded structs add nothing
type Embedded struct {
	Inner int
	Deep  string
}

type Embedded2 struct{ Other bool }

type EmbeddedAny interface{}

type EmbeddedInt int

// MethodNames has resolvers, and methods that are none
type MethodNames struct {
	Plain int
	Embedded
	*Embedded2
}

func (m MethodNames) ResolveA() int                    { return m.Plain }
func (m MethodNames) ResolveBe() int                   { return m.Plain + 1 }
func (m MethodNames) ResolveCD() int                   { return m.Plain + 2 }
func (m MethodNames) ResolveEFg() int                  { return m.Plain + 3 }
func (m MethodNames) ResolveGhI_j9() (int, error)      { return m.Plain + 4, nil }
func (m MethodNames) ResolveResolveKl() (int, error)   { return m.Plain + 5, nil }
func (m MethodNames) ResolveMResolve() (string, error) { return strconv.Itoa(m.Plain), nil }
func (m MethodNames) ResolveNo(args struct {
	Abc, DEF int
	G        *string `gq:"other"`
	Hidden   int     `gq:"-"`
	private  int
	Embedded
}) string {
	logCall(nil, "no", args.Abc, args.DEF, args.G)
	return "no"
}
func (m MethodNames) ResolveOid() (int, yarql.AttrIsID) { return m.Plain, 0 }

// no resolvers
func (m MethodNames) Resolve() int        { return 1 }
func (m MethodNames) Resolver() int       { return 1 }
func (m MethodNames) Resolved() int       { return 1 }
func (m MethodNames) Resolvelow() int     { return 1 }
func (m MethodNames) GetResolve() int     { return 1 }
func (m MethodNames) Public() int         { return 1 }
func (m MethodNames) XResolveZ() int      { return 1 }
func (m MethodNames) RESOLVEUp() int      { return 1 }
func (m MethodNames) Resolv() int         { return 1 }
func (m MethodNames) Bad(int, int)        {}
func (m MethodNames) BadMap() map[int]int { return nil }

var methodNonNames = []string{"resolve", "r", "er", "d", "low", "Low", "resolver", "Resolver", "resolved", "resolvelow", "getResolve", "public", "Public", "xResolveZ", "z", "rESOLVEUp", "RESOLVEUp", "up", "resolv", "bad", "Bad", "badMap",
	"A", "resolveA", "ResolveA", "Be", "cD", "resolveCD", "eFg", "GhI_j9", "kl", "Kl", "ResolveKl", "mresolve", "embedded", "Embedded", "embedded2", "inner", "Inner", "deep", "other", "No", "Oid", "ID", "id", "oID", "OID"}

var argNonNames = []string{"Abc", "aBC", "abC", "def", "Def", "dEF", "g", "G", "Other", "hidden", "Hidden", "private", "Private", "inner", "deep", "embedded", "Inner"}

// nameGen makes struct types of which names and tags are what matters
type nameGen struct {
	G
	left   int
	hashes bool
}

// sameHash are names with the same FNV-1 hash, names that differ in the last letter only have neighbouring hashes
var sameHash = [][2]string{{"ProjectOwnerStreet", "Aqxo"}, {"CityCountGroup", "Jguu"}, {"ProjectTeamList", "Ktet"}, {"NoteImageCity", "Qoke"}, {"UserTeamImage", "Usto"}}

func (n *nameGen) goName() string {
	if n.hashes && n.N(2) == 1 {
		s := sameHash[n.N(2)][n.N(2)]
		if n.N(3) == 2 {
			s = s[:len(s)-1] + string("abdefghijklmnopqrstuvwxyz"[n.N(25)])
		}
		return s
	}
	for {
		if n.N(25) == 24 {
			return []string{"Resolve", "ResolveFoo", "ResolveAB", "Resolver", "Resolvelow", "ResolveB9", "Z", "AZ", "Az"}[n.N(9)]
		}
		s := string(rune('A' + n.N(26)))
		for i := []int{0, 1, 1, 2, 3, 5, 9, 24}[n.N(8)]; i > 0; i-- {
			switch c := n.N(10); {
			case c < 4:
				s += string(rune('a' + n.N(26)))
			case c < 8:
				s += string(rune('A' + n.N(26)))
			case len(s) == 1:
			case c == 8:
				s += strconv.Itoa(n.N(10))
			default:
				s += "_"
			}
		}
		if !strings.HasPrefix(s, "Embedded") {
			return s
		}
	}
}

func (n *nameGen) tagName() string {
	s := ""
	for i := 1 + n.N(6); i > 0; i-- {
		c := "abzABZ_09idID"
		s += string(c[n.N(len(c))])
	}
	return s
}

var foreignTags = []string{``, `json:"foo" `, `gql:"other" `, `GQ:"upper" `, `xml:"a,attr" json:"-" `}

func (n *nameGen) tag(idOK bool) reflect.StructTag {
	id := ""
	if idOK && n.N(3) == 2 {
		id = []string{",id", ",ID", ", id ", ",Id"}[n.N(4)]
	}
	t := foreignTags[n.N(len(foreignTags))]
	switch n.N(8) {
	case 0:
		return reflect.StructTag(t + `gq:"-` + id + `"`)
	case 1:
		return reflect.StructTag(t + `gq:"` + []string{"", " -", "- ", " - "}[n.N(4)] + `"`)
	case 2, 3:
		name := n.tagName()
		for !validName(name) {
			name = n.tagName()
		}
		return reflect.StructTag(t + `gq:"` + []string{"", " "}[n.N(2)] + name + []string{"", " "}[n.N(2)] + id + `"`)
	}
	if id != "" {
		return reflect.StructTag(t + `gq:"` + id + `"`)
	}
	return reflect.StructTag(t)
}

func (n *nameGen) fields(what func() (t reflect.Type, idOK bool), embed bool, used map[string]bool) (res []reflect.StructField) {
	go1 := map[string]bool{}
	for i := 1 + n.N(5); i > 0; i-- {
		f := reflect.StructField{Name: n.goName()}
		var idOK bool
		f.Type, idOK = what()
		if n.N(3) > 0 {
			f.Tag = n.tag(idOK)
		}
		name, ignore, _, err := parseTag(f)
		if err != nil {
			panic(err)
		}
		if name == "" {
			name = qlName(f.Name)
		}
		if go1[f.Name] || !ignore && used[name] {
			continue
		}
		go1[f.Name] = true
		if !ignore {
			used[name] = true
		}
		res = append(res, f)
	}
	if embed && n.N(4) == 3 {
		t := []reflect.Type{rt[Embedded](), rt[Embedded2](), rt[EmbeddedAny](), rt[EmbeddedInt]()}[n.N(4)]
		name := t.Name()
		if n.N(3) == 1 && t.Kind() == reflect.Struct {
			t = reflect.PtrTo(t)
		}
		i := n.N(len(res) + 1)
		res = append(res[:i:i], append([]reflect.StructField{{Name: name, Type: t, Anonymous: true}}, res[i:]...)...)
	}
	return res
}

func (n *nameGen) scalar() (reflect.Type, bool) {
	switch n.N(5) {
	case 0:
		return rt[string](), true
	case 1:
		return rt[bool](), false
	case 2:
		return rt[int](), true
	case 3:
		return rt[uint8](), true
	}
	return rt[float64](), false
}

func (n *nameGen) Struct(depth int) reflect.Type {
	return reflect.StructOf(n.fields(func() (reflect.Type, bool) {
		n.left--
		if n.left > 0 {
			switch c := n.N(8); {
			case c == 7 && depth < 2:
				return n.Struct(depth + 1), false
			case c == 6:
				return rt[MethodNames](), false
			case c > 3:
				in := []reflect.Type{}
				used := map[string]bool{}
				for i := n.N(3); i > 0; i-- {
					in = append(in, n.in(0, used))
				}
				if n.N(4) == 3 {
					in = append(in, tCtxPtr)
				}
				out, id := n.scalar()
				if depth < 2 && n.N(4) == 3 {
					out, id = n.Struct(depth+1), false
				}
				return reflect.FuncOf(in, []reflect.Type{out}, false), id
			}
		}
		return n.scalar()
	}, true, map[string]bool{}))
}

func (n *nameGen) in(depth int, used map[string]bool) reflect.Type {
	fs := n.fields(func() (reflect.Type, bool) {
		n.left--
		if depth < 2 && n.left > 0 && n.N(3) == 2 {
			t := n.in(depth+1, map[string]bool{})
			switch n.N(4) {
			case 0:
				t = reflect.PtrTo(t)
			case 1:
				t = reflect.SliceOf(t)
			}
			return t, false
		}
		return n.scalar()
	}, true, used)
	if n.N(4) == 3 {
		fs = append(fs, reflect.StructField{Name: "private", PkgPath: "verif/harness", Type: rt[int]()})
	}
	return reflect.StructOf(fs)
}

// nonNames are names that a struct does not declare
func nonNames(t reflect.Type, has func(string) bool) []string {
	res := map[string]bool{}
	add := func(s string) {
		if validName(s) && !has(s) && s != "" {
			res[s] = true
		}
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		for _, s := range []string{f.Name, qlName(f.Name), strings.TrimSpace(strings.Split(f.Tag.Get("gq"), ",")[0])} {
			if s == "" {
				continue
			}
			add(s)
			add(strings.ToLower(s))
			add(strings.ToUpper(s))
			add(strings.ToLower(s[:1]) + s[1:])
			add(strings.ToUpper(s[:1]) + s[1:])
			add(s + "_")
			add(s[:len(s)-1])
			add("resolve" + strings.ToUpper(s[:1]) + s[1:])
			add("resolve" + s)
		}
	}
	for _, p := range sameHash[:2] {
		if has(qlName(p[0])) || has(qlName(p[1])) {
			add(qlName(p[0]))
			add(qlName(p[1]))
		}
	}
	for _, s := range []string{"foo", "other", "upper", "id", "ID", "a", "inner", "deep", "embedded", "embedded2", "embeddedAny", "embeddedInt", "Embedded", "private"} {
		add(s)
	}
	l := []string{}
	for s := range res {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

// place is a selection set or a list of arguments in a request that a name can be added to
type place struct {
	names []string
	add   func(name string) (undo func())
	arg   bool
}

type namesReq struct {
	g      G
	q      *QGen
	places []place
}

func (n *namesReq) sels(o *Obj, depth int) (res []*Sel) {
	for _, f := range o.Fields {
		s := fieldSel(f.Name)
		for i := range f.Ins {
			in := f.Ins[i]
			if in.Ctx {
				continue
			}
			args := []*Arg{}
			for _, a := range f.Args {
				if a.In == i {
					args = append(args, a)
				}
			}
			kvs := n.args(args)
			s.Args = append(s.Args, kvs...)
			bad := nonNames(in.Go, func(s string) bool {
				for _, a := range f.Args {
					if a.Name == s {
						return true
					}
				}
				return false
			})
			if o.Go == rt[MethodNames]() {
				bad = argNonNames
			}
			n.places = append(n.places, place{bad, func(name string) func() {
				return n.addTo(&s.Args, name)
			}, true})
		}
		if len(f.Args) == 0 && f.FnType != nil {
			n.places = append(n.places, place{[]string{"a", "A", "foo", "private"}, func(name string) func() {
				return n.addTo(&s.Args, name)
			}, true})
		}
		if f.Out.Composite() {
			s.HasSel = true
			s.Sel = n.sels(f.Out.Named().Obj, depth+1)
		}
		res = append(res, s)
	}
	if len(res) == 0 || n.g.N(4) == 3 {
		res = append(res, fieldSel("__typename"))
	}
	return res
}

func (n *namesReq) addTo(to *[]*KV, name string) func() {
	old := *to
	kv := &KV{name, []*Value{{K: VInt, S: "1"}, {K: VString, S: "a"}, {K: VNull}, {K: VBool}}[n.g.N(4)]}
	i := n.g.N(len(old) + 1)
	*to = append(append(append([]*KV{}, old[:i]...), kv), old[i:]...)
	return func() { *to = old }
}

func (n *namesReq) args(args []*Arg) (res []*KV) {
	for _, a := range args {
		res = append(res, &KV{a.Name, n.value(a.T)})
	}
	perm(n.g, res)
	return
}

func (n *namesReq) value(t *In) *Value {
	switch t.K {
	case IPtr:
		return n.value(t.Elem)
	case IList:
		return &Value{K: VList, L: []*Value{n.value(t.Elem)}}
	case IStruct:
		v := &Value{K: VObject, O: n.args(t.S.Fields)}
		n.places = append(n.places, place{nonNames(t.S.Go, func(s string) bool { return t.S.ByName[s] != nil }), func(name string) func() {
			return n.addTo(&v.O, name)
		}, true})
		return v
	}
	return n.q.Val(t, false, 0)
}

func TestC20(t *testing.T) {
	check(t, "a case is a generated schema (names of any case pattern, tags of any form, embedded and ignored fields, methods with and without the prefix, arguments and nested input objects): a request with every documented name of every type and argument, its introspection, and up to 6 requests with one name that is not documented; non-trivial: at least one tag or embedded field", func(g G, st *Stats) {
		ng := &nameGen{G: g, left: 12, hashes: g.N(4) == 3}
		qt := ng.Struct(0)
		e := newModel(qt, rt[EmptyMutation]())
		f := g.Filler(60)
		f.Simple, f.NoErrs, f.NoNil = true, true, true
		e.Data(f)

		nr := &namesReq{g: g, q: NewQGen(g, e.M, QOpts{NoVars: true, Simple: true})}
		sels := nr.sels(e.M.Query, 0)
		r := e.single("query", sels)
		g.must(e, r, cmp{data: true, errs: true, calls: callArgs})

		name := plainSel("name")
		intro := e.single("query", []*Sel{plainSel("__schema", plainSel("types", plainSel("kind"), name, plainSel("fields", name, plainSel("args", name)), plainSel("inputFields", name)))})
		intro.Opts.OperatorTarget, intro.Opts.Variables = "", ""
		resp := resolve(e.S, intro.Query, intro.Opts)
		if err := resp.envelope(intro.Opts); err != nil {
			g.fatal(err, e, intro, resp)
		}
		got, want := []string{}, []string{}
		for _, t := range resp.J.Get("data").Get("__schema").Get("types").L {
			names := []string{}
			switch {
			case t.Get("kind").S == "OBJECT" && !strings.HasPrefix(t.Get("name").S, "__") || strings.HasPrefix(t.Get("name").S, "__UnknownType"):
				for _, f := range t.Get("fields").L {
					names = append(names, f.Get("name").S+argNames(f.Get("args").L, func(j *J) string { return j.Get("name").S }))
				}
			case t.Get("kind").S == "INPUT_OBJECT":
				for _, f := range t.Get("inputFields").L {
					names = append(names, f.Get("name").S)
				}
			default:
				continue
			}
			sort.Strings(names)
			got = append(got, fmt.Sprint(t.Get("kind").S, names))
		}
		for _, o := range e.M.Objs {
			names := []string{}
			for _, f := range o.Fields {
				names = append(names, f.Name+argNames(f.Args, func(a *Arg) string { return a.Name }))
			}
			sort.Strings(names)
			want = append(want, fmt.Sprint("OBJECT", names))
		}
		for _, in := range e.M.Inputs {
			names := []string{}
			for _, a := range in.Fields {
				names = append(names, a.Name)
			}
			sort.Strings(names)
			want = append(want, fmt.Sprint("INPUT_OBJECT", names))
		}
		sort.Strings(got)
		sort.Strings(want)
		if err := sameList("types in the introspection", want, got); err != nil {
			g.fatal(err, e, intro, resp)
		}
		src := e.M.Query.Go.String()
		st.Class("tags", strings.Contains(src, "gq:"))
		st.Class("embedded", strings.Contains(src, "Embedded"))
		st.Class("methods", strings.Contains(src, "MethodNames"))
		st.Class("arguments", len(nr.places) > 0)
		for _, p := range sameHash {
			st.Class("equal hashes", e.M.Query.ByName[qlName(p[0])] != nil && e.M.Query.ByName[qlName(p[1])] != nil)
		}
		st.Case(strings.Contains(src, "gq:") || strings.Contains(src, "Embedded"), src)

		// names that are none
		paths := selPlaces(e.M.Query, &r.Op.Sel, 0)
		for n := 1 + g.N(6); n > 0; n-- {
			all := nr.places
			kind := "argument"
			if len(all) == 0 || g.N(2) == 0 {
				all, kind = paths, "field"
			}
			p := all[g.N(len(all))]
			if len(p.names) == 0 {
				continue
			}
			name := p.names[g.N(len(p.names))]
			undo := p.add(name)
			bad := e.single("query", r.Op.Sel)
			undo()
			resp := resolve(e.S, bad.Query, bad.Opts)
			if err := resp.envelope(bad.Opts); err != nil {
				g.fatal(err, e, bad, resp)
			}
			if len(resp.Errs) == 0 {
				g.fatal(fmt.Errorf("no error for the %s %s, which is not declared", kind, name), e, bad, resp)
			}
			st.Class("undeclared "+kind, true)
		}
	})
}

func argNames[T any](args []T, name func(T) string) string {
	res := []string{}
	for _, a := range args {
		res = append(res, name(a))
	}
	sort.Strings(res)
	return fmt.Sprint(res)
}

// selPlaces are the selection sets a field can be added to
func selPlaces(o *Obj, sels *[]*Sel, depth int) (res []place) {
	names := nonNames(o.Go, func(s string) bool { return o.ByName[s] != nil })
	if o.Go == rt[MethodNames]() {
		names = methodNonNames
	}
	res = append(res, place{names, func(name string) func() {
		old := *sels
		*sels = append(append([]*Sel{}, fieldSel(name)), old...)
		return func() { *sels = old }
	}, false})
	for _, s := range *sels {
		if f := o.ByName[s.Name]; f != nil && s.HasSel {
			res = append(res, selPlaces(f.Out.Named().Obj, &s.Sel, depth+1)...)
		}
	}
	return res
}
