package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
	"verif/harness/zoo2"
)

// Registrations of interfaces and names are global and can't be undone, every history runs in a process of its own

type RegA interface{ ResolveFoo() int }
type RegB interface {
	ResolveFoo() int
	ResolveBar() string
}
type RegC interface{ ResolveBar() string }

type RegOne struct{ N int }
type RegTwo struct{ N int }
type RegThree struct{ N int }
type RegNone struct{ N int }
type RegPtr struct{ N int }

// RegNum has the methods but isn't a struct
type RegNum int

func (RegNum) ResolveFoo() int    { return 1 }
func (RegNum) ResolveBar() string { return "" }

func (r RegOne) ResolveFoo() int      { return r.N }
func (r RegTwo) ResolveFoo() int      { return r.N }
func (r RegTwo) ResolveBar() string   { return fmt.Sprint("two", r.N) }
func (r RegThree) ResolveFoo() int    { return r.N }
func (r RegThree) ResolveBar() string { return fmt.Sprint("three", r.N) }
func (r *RegPtr) ResolveFoo() int     { return r.N }
func (r *RegPtr) ResolveBar() string  { return "" }

var regIfaceVals = []interface{}{(*RegA)(nil), (*RegB)(nil), (*RegC)(nil),
	nil, RegOne{}, (*RegOne)(nil), (*interface{ ResolveFoo() int })(nil), (**RegA)(nil), 1, "RegA", (*error)(nil), new(int), RegA(RegOne{}), func(RegA) {}, []RegA{}, (*interface{})(nil)}
var regStructVals = []interface{}{RegOne{N: 1}, RegTwo{N: 2}, RegThree{N: 3}, zoo2.RegOne{N: 4}, RegNone{N: 5}, RegPtr{N: 6},
	nil, &RegOne{}, 1, "x", struct{}{}, struct{ RegOne }{}, func() {}, MyStr("a"), []RegOne{}, RegA(nil), map[string]int{}, RegA(&RegPtr{}), 1.5, new(RegA), MyInt(1), RegNum(1), new(RegNum)}

const (
	regIfaceN  = 3
	regStructN = 6
)

type regOp struct {
	Rename bool
	I, V   int // the interface and the struct
	Name   string
	Force  []bool
}

type regRoot struct {
	Ifaces  []int // the interface of a field
	Holds   []int // the struct in it, -1 for nil
	Structs []int
}

type regOut struct {
	Ops      []string
	ParseErr string
	Parsed   bool
	Response json.RawMessage
	Errs     []string
}

// doReg runs one call, the result is what it returns or panics with
func doReg(o regOp) (res string) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(runtime.Error); ok {
				res = "crash: " + e.Error()
				return
			}
			res = fmt.Sprintf("panic: %v", p)
		}
	}()
	if o.Rename {
		return "named " + yarql.TypeRename(regStructVals[o.V], o.Name, o.Force...)
	}
	return fmt.Sprint("added ", yarql.Implements(regIfaceVals[o.I], regStructVals[o.V]))
}

func (r regRoot) value() reflect.Value {
	fs := []reflect.StructField{{Name: "Plain", Type: rt[int]()}}
	for i, n := range r.Ifaces {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("I%c", 'a'+i), Type: reflect.TypeOf(regIfaceVals[n]).Elem()})
	}
	for i, n := range r.Structs {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("S%c", 'a'+i), Type: reflect.TypeOf(regStructVals[n])})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i := range r.Ifaces {
		if r.Holds[i] >= 0 {
			v.FieldByName(fmt.Sprintf("I%c", 'a'+i)).Set(reflect.ValueOf(regStructVals[r.Holds[i]]))
		}
	}
	return v
}

func (r regRoot) query() string {
	sb := &strings.Builder{}
	sb.WriteString("{__schema{types{kind name possibleTypes{name} interfaces{name}}}")
	for i, n := range r.Ifaces {
		fmt.Fprintf(sb, " I%c:i%c{__typename %s}", 'a'+i, 'a'+i, []string{"foo", "bar foo", "bar"}[n])
	}
	for i := range r.Structs {
		fmt.Fprintf(sb, " S%c:s%c{__typename n}", 'a'+i, 'a'+i)
	}
	return sb.String() + "}"
}

// TestC33Child runs a history of calls given in the environment
func TestC33Child(t *testing.T) {
	text := os.Getenv("VERIF_C33")
	if text == "" {
		t.Skip("runs as a child of TestC33Types")
	}
	var in struct {
		Ops  []regOp
		Root regRoot
	}
	if err := json.Unmarshal([]byte(text), &in); err != nil {
		t.Fatal(err)
	}
	out := regOut{}
	for _, o := range in.Ops {
		out.Ops = append(out.Ops, doReg(o))
	}
	s := yarql.NewSchema()
	if err := s.Parse(in.Root.value().Interface(), plainRoot{}, nil); err != nil {
		out.ParseErr = err.Error()
	} else {
		out.Parsed = true
		for _, err := range s.Resolve([]byte(in.Root.query()), yarql.ResolveOptions{}) {
			out.Errs = append(out.Errs, err.Error())
		}
		out.Response = s.Result
	}
	b, err := json.Marshal(out)
	if err != nil {
		t.Fatal(err)
	}
	fmt.Printf("\n@@C33 %s\n", b)
}

func (g G) regOp() (o regOp) {
	o.Rename = g.N(3) == 2
	o.V = g.N(regStructN)
	if g.N(6) == 5 {
		o.V = regStructN + g.N(len(regStructVals)-regStructN)
	}
	if !o.Rename {
		o.I = g.N(regIfaceN)
		if g.N(6) == 5 {
			o.I = regIfaceN + g.N(len(regIfaceVals)-regIfaceN)
		}
		return
	}
	o.Name = []string{"Alpha", "Beta", "RegTwo", "RegOne", "x", "A_1", " Gamma ", "\tDelta\n", "RegA"}[g.N(9)]
	if g.N(5) == 4 {
		o.Name = []string{"", " ", "\n\t", "1a", "a b", "é", "a-b", "a.b", "_a", "__a", "$a", "a!"}[g.N(12)]
	}
	if g.N(3) == 2 {
		o.Name = strings.ToValidUTF8(g.word(true, g.N(4) > 0), "?")
		if !validName(strings.TrimSpace(o.Name)) {
			// forced, these would have to be escaped
			return
		}
	}
	switch g.N(4) {
	case 2:
		o.Force = []bool{false}
	case 3:
		o.Force = []bool{true}
	}
	return
}

func (g G) regRoot() (r regRoot) {
	for n := g.N(4); n > 0; n-- {
		r.Ifaces = append(r.Ifaces, g.N(regIfaceN))
		it := reflect.TypeOf(regIfaceVals[r.Ifaces[len(r.Ifaces)-1]]).Elem()
		hold := g.N(regStructN)
		if !reflect.TypeOf(regStructVals[hold]).Implements(it) {
			hold = -1
		}
		r.Holds = append(r.Holds, hold)
	}
	for n := g.N(3); n > 0 || n == 0 && len(r.Ifaces) == 0; n-- {
		r.Structs = append(r.Structs, g.N(regStructN))
	}
	return
}

// regModel is what the calls should have done
type regModel struct {
	impls [regIfaceN][]int
	names map[int]string
}

func (m *regModel) apply(o regOp) (want string) {
	if o.V >= regStructN {
		return "panic"
	}
	if o.Rename {
		n := strings.TrimSpace(o.Name)
		if n == "" || !(len(o.Force) > 0 && o.Force[0]) && !validName(n) {
			return "panic"
		}
		m.names[o.V] = n
		return "named " + n
	}
	if o.I >= regIfaceN || !reflect.TypeOf(regStructVals[o.V]).Implements(reflect.TypeOf(regIfaceVals[o.I]).Elem()) {
		return "panic"
	}
	for _, v := range m.impls[o.I] {
		if v == o.V {
			return "added true"
		}
	}
	m.impls[o.I] = append(m.impls[o.I], o.V)
	return "added true"
}

func (m *regModel) structName(v int) string {
	if n, ok := m.names[v]; ok {
		return n
	}
	return reflect.TypeOf(regStructVals[v]).Name()
}

func regIfaceName(i int) string { return reflect.TypeOf(regIfaceVals[i]).Elem().Name() }

// reach lists the types of the schema
func (m *regModel) reach(r regRoot) (ifaces, structs map[int]bool, err error) {
	ifaces, structs = map[int]bool{}, map[int]bool{}
	var addS func(v int)
	addI := func(i int) {
		if ifaces[i] {
			return
		}
		ifaces[i] = true
		if len(m.impls[i]) == 0 {
			err = fmt.Errorf("%s has no implementation", regIfaceName(i))
		}
		for _, v := range m.impls[i] {
			addS(v)
		}
	}
	addS = func(v int) {
		if structs[v] {
			return
		}
		structs[v] = true
		for i := range m.impls {
			for _, c := range m.impls[i] {
				if c == v {
					addI(i)
				}
			}
		}
	}
	for _, i := range r.Ifaces {
		addI(i)
	}
	for _, v := range r.Structs {
		addS(v)
	}
	names := map[string]bool{"plainRoot": true}
	for i := range ifaces {
		names[regIfaceName(i)] = true
	}
	for v := range structs {
		n := m.structName(v)
		if names[n] {
			err = fmt.Errorf("two types named %s", n)
		}
		names[n] = true
	}
	return
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

func TestC33Types(t *testing.T) {
	check(t, "a case is a history of Implements and TypeRename calls, good and bad ones, in a process of its own, after which a schema using the types is parsed and queried; what the calls return or panic with, the introspection and the response are compared with a model; non-trivial: a call that has an effect and one that is refused", func(g G, st *Stats) {
		m := &regModel{names: map[int]string{}}
		ops := []regOp{}
		want := []string{}
		for n := 1 + g.N(10); n > 0; n-- {
			ops = append(ops, g.regOp())
			want = append(want, m.apply(ops[len(ops)-1]))
		}
		root := g.regRoot()
		in, err := json.Marshal(map[string]interface{}{"Ops": ops, "Root": root})
		if err != nil {
			panic(err)
		}
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		cmd := exec.Command(self, "-test.run=^TestC33Child$", "-test.count=1")
		cmd.Env = append(os.Environ(), "VERIF_C33="+string(in), "VERIF_STATS=")
		stdout, stderr := &bytes.Buffer{}, &bytes.Buffer{}
		cmd.Stdout, cmd.Stderr = stdout, stderr
		runErr := cmd.Run()
		text := &strings.Builder{}
		for i, o := range ops {
			if o.Rename {
				fmt.Fprintf(text, "TypeRename(%T, %q, %v): %s\n", regStructVals[o.V], o.Name, o.Force, want[i])
			} else {
				fmt.Fprintf(text, "Implements(%T, %T): %s\n", regIfaceVals[o.I], regStructVals[o.V], want[i])
			}
		}
		fail := func(format string, args ...interface{}) {
			g.T.Helper()
			g.T.Fatalf("%s\ncalls and what is expected:\n%sroot: %s\nquery: %s", fmt.Sprintf(format, args...), text, root.value().Type(), root.query())
		}
		_, line, found := strings.Cut(stdout.String(), "\n@@C33 ")
		if !found {
			fail("the process ended with %v: %s %s", runErr, clip(stdout.String(), 3000), clip(stderr.String(), 3000))
		}
		line, _, _ = strings.Cut(line, "\n")
		out := regOut{}
		if err := json.Unmarshal([]byte(line), &out); err != nil {
			fail("%v: %s", err, line)
		}
		effects, refused := 0, 0
		for i, w := range want {
			got := out.Ops[i]
			if w == "panic" {
				refused++
				if !strings.HasPrefix(got, "panic: ") || strings.TrimSpace(strings.TrimPrefix(got, "panic: ")) == "" {
					fail("call %d: %s, expected a panic with a message", i+1, got)
				}
				continue
			}
			effects++
			if got != w {
				fail("call %d: %s, expected: %s", i+1, got, w)
			}
		}
		ifaces, structs, wantErr := m.reach(root)
		if (wantErr == nil) != out.Parsed {
			fail("Parse returns the error %q, expected %v", out.ParseErr, wantErr)
		}
		st.Class("parsed", out.Parsed)
		st.Class("renamed", len(m.names) > 0)
		st.Class("refused", refused > 0)
		st.Case(effects > 0 && refused > 0, string(in))
		if wantErr != nil {
			return
		}
		j, err := ParseJSON(out.Response)
		if err != nil || len(out.Errs) > 0 {
			fail("%v %q: %s", err, out.Errs, out.Response)
		}
		lists := []string{}
		for _, t := range j.Get("data").Get("__schema").Get("types").L {
			l := func(k string) (res []string) {
				for _, e := range t.Get(k).L {
					res = append(res, e.Get("name").S)
				}
				return sorted(res)
			}
			n := t.Get("name").S
			switch {
			case strings.HasPrefix(n, "__") && !strings.HasPrefix(n, "__a"):
			case t.Get("kind").S == "OBJECT":
				lists = append(lists, fmt.Sprint("object ", n, l("interfaces")))
			case t.Get("kind").S == "INTERFACE":
				lists = append(lists, fmt.Sprint("interface ", n, l("possibleTypes")))
			}
		}
		wantLists := []string{"object plainRoot[]"}
		for i := range ifaces {
			l := []string{}
			for _, v := range m.impls[i] {
				l = append(l, m.structName(v))
			}
			wantLists = append(wantLists, fmt.Sprint("interface ", regIfaceName(i), sorted(l)))
		}
		for v := range structs {
			l := []string{}
			for i := range m.impls {
				for _, c := range m.impls[i] {
					if c == v {
						l = append(l, regIfaceName(i))
					}
				}
			}
			wantLists = append(wantLists, fmt.Sprint("object ", m.structName(v), sorted(l)))
		}
		if err := sameList("type", sorted(wantLists), sorted(lists)); err != nil {
			fail("%v", err)
		}
		for i, n := range root.Ifaces {
			registered := false
			for _, v := range m.impls[n] {
				registered = registered || v == root.Holds[i]
			}
			got := j.Get("data").Get(fmt.Sprintf("I%c", 'a'+i))
			if !registered {
				if got == nil || got.Kind != JNull {
					fail("the field %d of type %s is %s", i, regIfaceName(n), got)
				}
				continue
			}
			v := regStructVals[root.Holds[i]]
			foo, bar := "", ""
			if f, ok := v.(RegA); ok {
				foo = fmt.Sprintf(`"foo":%d`, f.ResolveFoo())
			}
			if b, ok := v.(RegC); ok {
				bar = fmt.Sprintf(`"bar":%q`, b.ResolveBar())
			}
			w, err := ParseJSON([]byte(fmt.Sprintf(`{"__typename":%q,%s}`, m.structName(root.Holds[i]), []string{foo, bar + "," + foo, bar}[n])))
			if err != nil {
				panic(err)
			}
			if got == nil || got.String() != w.String() {
				fail("the field %d of type %s is %s, expected %s", i, regIfaceName(n), got, w)
			}
		}
		for i, v := range root.Structs {
			got := j.Get("data").Get(fmt.Sprintf("S%c", 'a'+i)).Get("__typename")
			if got == nil || got.S != m.structName(v) {
				fail("the struct %d is named %s, expected %s", i, got, m.structName(v))
			}
		}
	})
}
