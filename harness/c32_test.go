package harness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mjarkk/yarql/tester"
)

var kindNames = map[IntroKind]string{kindObject: "OBJECT", kindInterface: "INTERFACE", kindEnum: "ENUM", kindInput: "INPUT_OBJECT", kindScalar: "SCALAR"}

// nearName is a name like n, or an altogether different one
func (g G) nearName(n string) string {
	switch g.N(10) {
	case 0:
		return strings.ToLower(n)
	case 1:
		return strings.ToUpper(n)
	case 2:
		return n + "s"
	case 3:
		return n[:len(n)-1]
	case 4:
		return "_" + n
	case 5:
		return n + " "
	case 6:
		return ""
	case 7:
		return []string{"[" + n + "]", n + "!", "\"" + n, n + "\n", "null", "{" + n + "}", n + "\x00", "ü" + n}[g.N(8)]
	case 8:
		return n[1:]
	}
	return g.str()
}

func TestC32(t *testing.T) {
	check(t, "a case is one type name (of a type of the schema, like one of these, or something else) of a generated schema with lists of field names made from its fields: all the questions of the tester package are asked and answered from the declaration; non-trivial: the type exists and has fields; distinct by schema, type and list", func(g G, st *Stats) {
		f := g.Filler(4)
		f.Simple, f.NoErrs = true, true
		var e *Env
		switch g.N(3) {
		case 0:
			e = g.ArgModel()
		case 1:
			d := &DynGen{G: g, Left: 30}
			e = newModel(d.Struct(0), rt[SmallMutation]())
		default:
			e = g.NewModel()
		}
		e.Data(f, &Request{Doc: &Doc{}})
		in := e.M.AddIntro()
		s := e.S
		if g.N(4) == 3 {
			s = s.Copy()
		}
		schema := clip(e.Q.Type().String()+e.Mut.Type().String(), 3000)
		for n := 4 + g.N(8); n > 0; n-- {
			name := in.names[g.N(len(in.names))]
			if g.N(4) == 3 {
				name = g.nearName(name)
			}
			typ, has := in.named(name)
			known := []string{}
			if typ.Fields != nil {
				for _, f := range typ.Fields(IntroDeprecated{}) {
					known = append(known, f.Name)
				}
			}
			fail := func(format string, args ...interface{}) {
				g.T.Fatalf("type %q: %s\nthe type exists: %v, its fields: %q\n%s", name, fmt.Sprintf(format, args...), has, known, describeType(e.Q.Type())+"\n"+describeType(e.Mut.Type()))
			}
			ask := func(what string, f func()) {
				guard(func() string { return what + " " + name + " " + schema }, f)
			}
			ask("HasType", func() {
				if got := tester.HasType(s, name); got != has {
					fail("HasType is %v", got)
				}
			})
			ask("TypeKind", func() {
				want := ""
				if has {
					want = kindNames[typ.Kind]
				}
				if got := tester.TypeKind(s, name); got != want {
					fail("TypeKind is %q, expected %q", got, want)
				}
			})
			ask("GetTypeByName", func() {
				got := tester.GetTypeByName(s, name)
				if (got != nil) != has {
					fail("GetTypeByName gives %v", got)
				}
				if got == nil {
					return
				}
				l := []string{}
				for _, f := range got.Fields {
					l = append(l, f.Name)
				}
				if got.Kind != kindNames[typ.Kind] || strings.Join(distinct(l), ",") != strings.Join(distinct(known), ",") || len(l) != len(known) {
					fail("GetTypeByName gives %v", *got)
				}
			})
			// lists of fields
			for k := 0; k < 3; k++ {
				list := append([]string{}, known...)
				perm(g, list)
				edit := g.N(6)
				if len(list) > 0 {
					i := g.N(len(list))
					switch edit {
					case 0:
						list = append(list[:i], list[i+1:]...)
					case 1:
						list[i] = g.nearName(list[i])
					case 2:
						list = append(list, list[i])
					case 3:
						list = list[:i]
					case 4:
						list = append(list, g.nearName(list[i]))
					}
				} else if edit < 2 {
					list = append(list, "a")
				}
				if g.N(8) == 7 {
					list = append(list, []string{"__typename", "__schema", "__type", ""}[g.N(4)])
				}
				fields := has && (typ.Kind == kindObject || typ.Kind == kindInterface)
				all, only := fields, fields
				in := map[string]bool{}
				for _, f := range known {
					in[f] = true
				}
				asked := map[string]bool{}
				for _, f := range list {
					asked[f] = true
					all = all && in[f]
				}
				only = all && len(asked) == len(in)
				ask("HasFields", func() {
					if err := tester.HasFields(s, name, list); (err == nil) != all {
						fail("HasFields %q gives %v, expected an error: %v", list, err, !all)
					}
				})
				ask("OnlyHasFields", func() {
					if err := tester.OnlyHasFields(s, name, list); (err == nil) != only {
						fail("OnlyHasFields %q gives %v, expected an error: %v", list, err, !only)
					}
				})
				st.Class("has all", all)
				st.Class("has only", only)
				st.Class("has all and more", all && !only)
				st.Class("wrong list", fields && !all)
				st.Class("no type", !has)
				st.Class("kind "+kindNames[typ.Kind], has)
				st.Case(has && len(known) > 0, schema+name+fmt.Sprint(list))
			}
		}
	})
}
