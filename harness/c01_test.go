package harness

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

const schemaRule = "a case is a request on a generated schema (either the fixed zoo of types or generated struct and func types around them) with generated data; "

func TestC01(t *testing.T) {
	check(t, schemaRule+"non-trivial: at least 4 fields are resolved and the data has a list, an object below the root or a resolver result", func(g G, st *Stats) {
		f := g.Filler(40)
		f.NaN = true
		if g.N(6) == 3 {
			f.Long = 1
		}
		e, reqs := g.batch(g.NewModel(), f, 3, QOpts{WideOps: true})
		for _, r := range reqs {
			if g.N(60) == 33 {
				g.inflate(e, r)
				st.Class("large documents", len(r.Query) > 20000)
			}
			if g.N(40) == 21 {
				g.longName(st, e, r)
			}
			x, _ := g.must(e, r, cmp{trace: true, data: true})
			st.Class("depth "+strconv.Itoa(x.Depth), true)
			st.Class("resolver errors", len(x.Errs) > 0)
			st.Class("resolvers called", x.Resolvers > 0)
			st.Class("lists", x.Lists > 0)
			st.Class("lists of at least 100 items", x.Longest >= 100)
			st.Class("fragments", x.Spreads > 0)
			st.Class("variables", len(r.Op.Vars) > 0)
			st.Class("fields > 5", x.Fields > 5)
			st.Class("zoo schema", e.Zoo)
			st.Case(x.Fields > 3 && (x.Depth > 0 || x.Lists > 0 || x.Resolvers > 0), r.Key())
		}
	})
}

// longName gives something a name that is longer than the library allows
func (g G) longName(st *Stats, e *Env, r *Request) {
	c := *r
	c.Doc = r.Doc.clone(nil)
	c.Op = nil
	for i, d := range r.Doc.Defs {
		if d.Op == r.Op {
			c.Op = c.Doc.Defs[i].Op
		}
	}
	if c.Op == nil {
		return
	}
	c.Op.Short = false
	base := []string{"a", "b", "x1", "long", "__typename", c.Op.Name, strings.Repeat("z", 100)}[g.N(7)]
	name := base + strings.Repeat(string("abz_19A"[g.N(7)]), []int{255, 256, 257, 300, 511, 512, 513, 768, 1000, 65536, 65537, 70000}[g.N(12)])
	target := &Sel{K: SField, Name: "__typename", Alias: c.Doc.freeKey()}
	root := e.M.Root(c.Op.Kind).Name
	switch g.N(5) {
	case 0:
		target.Alias = name
	case 1:
		c.Doc.Defs = append(c.Doc.Defs, &Def{Frag: &Frag{Name: name, On: root, Sel: []*Sel{target}}})
		target = &Sel{K: SSpread, Name: name}
	case 2:
		c.Op.Name = name
		if r.Opts.OperatorTarget != "" {
			c.Opts.OperatorTarget = name
		}
	case 3:
		c.Doc.Defs = append(c.Doc.Defs, &Def{Frag: &Frag{Name: name, On: root, Sel: []*Sel{{K: SField, Name: "__typename"}}}})
	case 4:
		target.Dirs = []*DirUse{{Name: "include", Args: []*KV{{"if", &Value{K: VBool, B: true}}}}}
		c.Doc.Defs = append([]*Def{{Frag: &Frag{Name: name, On: root, Sel: []*Sel{{K: SSpread, Name: name + "x"}}}}}, c.Doc.Defs...)
	}
	i := g.N(len(c.Op.Sel) + 1)
	c.Op.Sel = append(append(append([]*Sel{}, c.Op.Sel[:i]...), target), c.Op.Sel[i:]...)
	c.Query = c.Doc.String()
	resp := resolve(e.S, c.Query, c.Opts)
	if err := resp.envelope(c.Opts); err != nil {
		g.fatal(err, e, &c, resp)
	}
	st.Class("names above 254 bytes", true)
	if len(resp.Errs) > 0 && len(resp.Calls) == 0 && len(resp.data(c.Opts).Keys) == 0 {
		// refused as a whole
		return
	}
	if err := e.Expect(&c).compare(resp, c.Opts, cmp{data: true}); err != nil {
		g.fatal(fmt.Errorf("a document with a name of %d bytes is neither refused nor executed: %v", len(name), err), e, &c, resp)
	}
}

// inflate repeats a field of the request a lot of times
func (g G) inflate(e *Env, r *Request) {
	x := e.Expect(r)
	size := len(x.Data.String())
	s := r.Op.Sel[g.N(len(r.Op.Sel))]
	failing := []*Sel{}
	for _, o := range r.Op.Sel {
		for _, w := range x.Errs {
			if o.K == SField && strings.HasPrefix(w.Path, strconv.Quote(o.Key())) {
				failing = append(failing, o)
				break
			}
		}
	}
	if len(failing) > 0 && g.N(3) > 0 {
		s = failing[g.N(len(failing))]
	}
	if s.K != SField || strings.HasPrefix(s.Name, "__s") || size > 100000 {
		return
	}
	many := []*Sel{}
	for n := min([]int{300, 3000, 12000}[g.N(3)], 1000000/(size+20)); n > 0; n-- {
		c := *s
		c.Alias = "zz_" + strconv.Itoa(n)
		many = append(many, &c)
	}
	on := e.M.Root(r.Op.Kind).Name
	dirs := []*DirUse{}
	if g.N(2) == 1 {
		dirs = append(dirs, &DirUse{Name: []string{"skip", "include"}[g.N(2)], Args: []*KV{{"if", &Value{K: VBool, B: g.N(2) == 1}}}})
	}
	switch g.N(3) {
	case 1:
		many = []*Sel{{K: SInline, On: on, Sel: many, Dirs: dirs}}
	case 2:
		r.Doc.Defs = append(r.Doc.Defs, &Def{Frag: &Frag{Name: "Many", On: on, Sel: many}})
		many = []*Sel{{K: SSpread, Name: "Many", Dirs: dirs}}
	}
	i := g.N(len(r.Op.Sel) + 1)
	r.Op.Sel = append(append(append([]*Sel{}, r.Op.Sel[:i]...), many...), r.Op.Sel[i:]...)
	r.Op.Short = false
	r.Query = r.Doc.Print(nil)
}

type DupQuery struct {
	A int
	O struct{ X, Y int }
}

// TestC01DupKeys probes a known finding: fields with one response key are not merged
func TestC01DupKeys(t *testing.T) {
	s := yarql.NewSchema()
	q := DupQuery{A: 1}
	q.O.X, q.O.Y = 2, 3
	if err := s.Parse(q, SmallMutation{}, nil); err != nil {
		t.Fatal(err)
	}
	for _, c := range [][3]string{
		{"{a a}", `{"a":1,"a":1}`, `{"a":1}`},
		{"{b:a o{x} b:a}", `{"b":1,"o":{"x":2},"b":1}`, `{"b":1,"o":{"x":2}}`},
		{"{o{x} o{y}}", `{"o":{"x":2},"o":{"y":3}}`, `{"o":{"x":2,"y":3}}`},
		{"{o{x} ...on DupQuery{o{y x}}}", `{"o":{"x":2},"o":{"y":3,"x":2}}`, `{"o":{"x":2,"y":3}}`},
	} {
		r := resolve(s, c[0], yarql.ResolveOptions{})
		switch string(r.Raw) {
		case `{"data":` + c[1] + `}`:
			fmt.Println("@@KNOWN dup-response-keys")
		case `{"data":` + c[2] + `}`:
		default:
			t.Fatalf("%s: %s", c[0], r)
		}
	}
}

func TestC34(t *testing.T) {
	check(t, schemaRule+"non-trivial: at least 2 resolvers are called", func(g G, st *Stats) {
		f := g.Filler(30)
		f.Simple = true
		f.Full = g.N(3) > 0
		if g.N(6) == 3 {
			f.Long = 1
		}
		e, reqs := g.batch(g.ArgOrAny(), f, 3, QOpts{WideOps: true, Simple: true, ArgHeavy: g.N(2) > 0, ErrHeavy: g.N(3) == 1})
		for _, r := range reqs {
			if g.N(60) == 33 {
				g.inflate(e, r)
			}
			x, _ := g.must(e, r, cmp{trace: true, calls: callName, keep: notDirCall})
			st.Class("calls > 100", x.Resolvers > 100)
			st.Class("mutation", r.Op.Kind == "mutation")
			st.Class("calls > 4", x.Resolvers > 4)
			st.Class("skips", x.Skips > 0)
			st.Case(x.Resolvers > 1, r.Key())
		}
	})
}

// ArgOrAny picks schemas with many resolvers more often
func (g G) ArgOrAny() *Env {
	switch g.N(4) {
	case 0:
		return g.NewModel()
	case 1:
		return g.ArgModel()
	}
	return PeopleModel()
}

type longItem struct{ Nr int }

func (i longItem) ResolveCheck() (int, error) {
	if i.Nr < 0 {
		return i.Nr, fmt.Errorf("no %d", -i.Nr)
	}
	return i.Nr, nil
}

type longLists struct {
	Items []longItem
	Rows  [][]longItem
}

// errorsInLongList has some items of a list of thousands fail
func (g G) errorsInLongList(st *Stats) {
	n := []int{300, 1000, 4100, 10001, 33000, 65540, 70000}[g.N(7)]
	items := make([]longItem, n)
	fails := map[int]bool{}
	for i := 1 + g.N(12); i > 0; i-- {
		nr := g.N(n)
		if b := 1 << g.N(18); g.N(2) == 1 && b < n {
			nr = b - g.N(2)
		}
		if g.N(4) == 1 {
			nr = n - 1
		}
		fails[nr] = true
	}
	for i := range items {
		items[i].Nr = i + 1
		if fails[i] {
			items[i].Nr = -i - 1
		}
	}
	q := longLists{Items: items}
	query, at := "{items{nr check}}", `"items",`
	switch g.N(3) {
	case 1:
		query, at = "{a: items{check}}", `"a",`
	case 2:
		q = longLists{Rows: make([][]longItem, n)}
		for i := range items {
			q.Rows[i] = items[i : i+1 : i+1]
		}
		query, at = "{rows{check}}", `"rows",`
	}
	want := []string{}
	for i := range items {
		if fails[i] {
			path := at + strconv.Itoa(i)
			if len(q.Rows) > 0 {
				path += ",0"
			}
			want = append(want, "no "+strconv.Itoa(i+1)+" at ["+path+`,"check"]`)
		}
	}
	s := yarql.NewSchema()
	if err := s.Parse(q, SmallMutation{}, nil); err != nil {
		panic(err)
	}
	o := yarql.ResolveOptions{NoMeta: g.N(2) == 1}
	errs := s.Resolve([]byte(query), o)
	got := []string{}
	for _, err := range errs {
		got = append(got, err.Error())
	}
	if !o.NoMeta {
		j, err := ParseJSON(s.Result)
		if err != nil {
			g.T.Fatalf("%v", err)
		}
		got = got[:0]
		list := j.Get("errors")
		if list == nil {
			list = &J{}
		}
		for _, e := range list.L {
			got = append(got, e.Get("message").S+" at ["+errPath(e)+"]")
		}
	} else {
		for i := range want {
			want[i], _, _ = strings.Cut(want[i], " at ")
		}
	}
	if err := sameList("error", want, got); err != nil {
		g.T.Fatalf("%v\n%s on lists of %d items, those that fail: %v", err, query, n, fails)
	}
	st.Class("lists of thousands of items", n > 1000)
	st.Case(true, fmt.Sprint(query, n, want))
}

func TestC13(t *testing.T) {
	check(t, schemaRule+"resolvers fail often; non-trivial: at least one error below the root or in a list", func(g G, st *Stats) {
		if g.N(30) == 17 {
			g.errorsInLongList(st)
			return
		}
		f := g.Filler([]int{30, 120}[g.N(2)])
		f.ErrPct = []int{50, 80, 95}[g.N(3)]
		f.Full = g.N(3) > 0
		f.Simple = g.N(2) == 0
		if g.N(6) == 3 {
			f.Long = 1
		}
		e, reqs := g.batch(g.ArgOrAny(), f, 3, QOpts{WideOps: true, Simple: true, ArgHeavy: g.N(3) == 1, ErrHeavy: g.N(4) > 0})
		for _, r := range reqs {
			if g.N(60) == 33 {
				g.inflate(e, r)
			}
			x, resp := g.must(e, r, cmp{trace: true, errs: true, data: f.Simple})
			st.Class("errors > 100", len(x.Errs) > 100)
			st.Class("lists of at least 100 items", x.Longest >= 100)
			if err := sameList("path seen by a resolver", project(x.Rec.Calls, anyCall, callPath, true), project(resp.Calls, anyCall, callPath, true)); err != nil {
				g.fatal(err, e, r, resp)
			}
			deep := false
			for _, e := range x.Errs {
				for _, c := range e.Path {
					deep = deep || c == ','
				}
			}
			st.Class("errors > 1", len(x.Errs) > 1)
			st.Class("errors > 10", len(x.Errs) > 10)
			st.Case(deep, r.Key())
		}
	})
}
