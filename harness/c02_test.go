package harness

import (
	"context"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

// anyRequest makes a request that may be wrong in any way
func (g G) anyRequest(e *Env, valid []*Request) (query string, o yarql.ResolveOptions, class string) {
	r := valid[g.N(len(valid))]
	query, o = r.Query, r.Opts
	switch g.N(12) {
	case 0:
		class = "valid"
	case 1, 2:
		query, class = g.garble(query), "garbled"
	case 3:
		query, class = g.soup(), "token soup"
	case 4:
		query, class = g.bytes(), "bytes"
	case 5:
		query, class = g.deep(), "deep"
	case 6:
		o.Variables, class = g.junkVariables(o.Variables), "junk variables"
	case 7:
		o.Variables, class = g.junkVariables(o.Variables), "garbled and junk variables"
		query = g.garble(query)
	case 8:
		o.OperatorTarget, class = []string{"nope", "\xff", strings.Repeat("x", 1000), "{", " ", "a", "query"}[g.N(7)], "operation name"
	case 9, 10, 11:
		if mut, _ := g.misuse(e, r); mut != nil {
			query, o, class = mut.Query, mut.Opts, "misused"
		} else {
			class = "valid"
		}
	}
	if g.N(8) == 7 {
		o.OperatorTarget = []string{"a", "\"", "nope"}[g.N(3)]
	}
	o.Tracing = g.N(5) == 4
	if g.N(12) == 11 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		o.Context = ctx
	}
	return
}

func TestC02(t *testing.T) {
	check(t, "a case is one request, valid or wrong in one of ten ways, on a generated schema with failing resolvers; the bytes are read by a strict JSON parser and compared with the returned errors; non-trivial: the response has data entries or errors", func(g G, st *Stats) {
		f := g.Filler(25)
		f.ErrPct = 40
		f.NaN = true
		f.BadUTF8 = true
		e, valid := g.batch(g.NewModel(), f, 2, QOpts{WideOps: true, Arrays: true, ArgHeavy: g.N(3) == 2})
		big := g.N(30) == 17
		for n := 0; n < 6; n++ {
			query, o, class := g.anyRequest(e, valid)
			if big && n == 5 {
				g.inflate(e, valid[0])
				query, o, class = valid[0].Query, valid[0].Opts, "large document"
			}
			o.NoMeta = g.N(4) == 3
			resp := resolve(e.S, query, o)
			err := resp.envelope(o)
			if err == nil {
				err = resp.sound(o)
			}
			if err != nil {
				g.T.Fatalf("%v\n%s\ndata only: %v, tracing: %v\nresponse: %s", err, describe(query, o), o.NoMeta, o.Tracing, resp)
			}
			st.Class(class, true)
			st.Class("data only", o.NoMeta)
			st.Class("tracing", o.Tracing)
			st.Class("errors", len(resp.Errs) > 0)
			st.Class("errors > 100", len(resp.Errs) > 100)
			st.Class("data and errors", len(resp.Errs) > 0 && len(resp.data(o).Keys) > 0)
			st.Case(len(resp.Errs) > 0 || len(resp.data(o).Keys) > 0, query+" "+o.Variables+fmt.Sprint(o.NoMeta, o.Tracing))
		}
	})
}

// sound checks what is inside the envelope: entries of errors have a good path and location
func (r *Resp) sound(o yarql.ResolveOptions) error {
	if o.NoMeta || r.J.Get("errors") == nil {
		return nil
	}
	for _, e := range r.J.Get("errors").L {
		for i, k := range e.Keys {
			switch v := e.Vals[i]; k {
			case "message":
			case "path":
				if v.Kind != JList || len(v.L) == 0 {
					return fmt.Errorf("path is %s", v)
				}
				for i, p := range v.L {
					if p.Kind != JStr && (p.Kind != JNum || i == 0 || strings.Trim(p.S, "0123456789") != "") {
						return fmt.Errorf("path is %s", v)
					}
				}
			case "locations":
				if v.Kind != JList || len(v.L) == 0 {
					return fmt.Errorf("locations is %s", v)
				}
				for _, l := range v.L {
					for _, k := range []string{"line", "column"} {
						n := l.Get(k)
						if n == nil || n.Kind != JNum || strings.Trim(n.S, "0123456789") != "" || n.S == "0" {
							return fmt.Errorf("location is %s", l)
						}
					}
				}
			case "extensions":
			default:
				return fmt.Errorf("error has a member %s", k)
			}
		}
	}
	return nil
}

type hidden struct {
	Name  string
	num   int
	at    time.Time
	fn    func(struct{ X int }) (string, error)
	subs  []hidden
	next  *hidden
	pet   Animal
	fruit Fruit
	Pet   Animal
	Next  *hidden
}

func (h hidden) ResolveUp() string { return strings.ToUpper(h.Name) }
func (h hidden) ResolveAt(args struct{ Day int8 }) (time.Time, error) {
	return h.at.AddDate(0, 0, int(args.Day)), nil
}

// HiddenQuery has fields the library can see but may not use
type HiddenQuery struct {
	Pub   hidden
	priv  hidden
	at    time.Time
	times [2]time.Time
	fn    func() hidden
	id    int `gq:",id"`
	subs  []*hidden
	pets  []Animal
	str   MyStr
	f32   float32
	ptr   **int
	anon  struct {
		A  time.Time
		At *time.Time
		F  func() int
	}
}

func (q HiddenQuery) ResolvePriv2() hidden { return q.priv }

func hiddenEnv() *Env {
	one := 1
	ptr := &one
	h := hidden{Name: "h", at: time.Unix(1e9, 0), fn: func(struct{ X int }) (string, error) { return "", nil }, pet: Cat{}, Pet: Cat{}}
	h2 := h
	h2.next, h2.Next, h2.subs = &h, &h, []hidden{h, {}}
	q := HiddenQuery{Pub: h2, priv: h2, at: h.at, fn: func() hidden { return h2 }, subs: []*hidden{&h2, nil}, pets: []Animal{nil, Cat{}}, ptr: &ptr}
	q.anon.At = &h.at
	q.anon.F = func() int { return 1 }
	e := newModel(rt[HiddenQuery](), rt[EmptyMutation]())
	e.Q = reflect.ValueOf(q)
	e.Mut = reflect.ValueOf(EmptyMutation{})
	e.S = e.Build(nil)
	return e
}

func TestC03(t *testing.T) {
	check(t, "a case is one request, valid or wrong in one of ten ways, followed by a valid request that must be answered as on a new schema; a crash, a stack overflow, 30 s of processor time or 3 GB of memory fails; non-trivial: the request is not valid", func(g G, st *Stats) {
		f := g.Filler(15)
		model := g.ArgOrAny()
		var e *Env
		var valid []*Request
		if g.N(8) == 7 {
			e = hiddenEnv()
			for n := 0; n < 2; n++ {
				valid = append(valid, e.Request(g, QOpts{WideOps: true, Arrays: true, ArgHeavy: g.N(3) == 2}, nil))
			}
			st.Class("unexported fields", true)
		} else {
			e, valid = g.batch(model, f, 2, QOpts{WideOps: true, Arrays: true, ArgHeavy: g.N(3) > 0, VarHeavy: g.N(3) == 2})
		}
		if q, ok := e.Q.Interface().(ZooQuery); ok && q.RPerson != nil {
			// data without end
			q.RPerson.RBest = q.RPerson
		}
		if g.N(3) == 2 {
			e.S.SetCacheRules(&[]int{0, 1, 20}[g.N(3)])
		}
		clean := e.Build(nil)
		for n := 0; n < 5; n++ {
			query, o, class := g.anyRequest(e, valid)
			o.NoMeta = g.N(4) == 3
			if g.N(5) == 4 {
				// through the http entry
				kind := g.N(4)
				body := query
				if kind > 0 {
					body = string(append(append([]byte(`{"query":`), jsonQuote(string([]rune(query)))...), '}'))
					if kind == 2 {
						body = "[" + body + "," + body + "]"
					} else if kind == 3 {
						body = g.garble(body)
					}
				}
				guard(func() string { return "body: " + strconv.QuoteToASCII(body) }, func() {
					e.S.HandleRequest([]string{"POST", "GET", "put", ""}[g.N(4)], func(string) string { return body }, func(string) (string, error) { return body, nil }, func() []byte { return []byte(body) },
						[]string{"application/json", "", "text/plain", "multipart/form-data; boundary=x", "\xff;"}[g.N(5)], nil)
				})
				class = "http " + class
			} else {
				resolve(e.S, query, o)
			}
			r := valid[g.N(len(valid))]
			got, want := resolve(e.S, r.Query, r.Opts), resolve(clean, r.Query, r.Opts)
			if string(got.Raw) != string(want.Raw) {
				g.fatal(fmt.Errorf("the schema answers differently after a request"), e, r, got, "on a new schema: "+want.String(), describe(query, o))
			}
			st.Class(class, true)
			st.Case(class != "valid", query+" "+o.Variables)
		}
	})
}

func TestC04(t *testing.T) {
	check(t, schemaRule+"each document and its variables are written in six random layouts (white space, line endings, comments, commas, escapes, number forms, block strings) that must give byte-identical responses; non-trivial: the document has an argument, a variable or at least 4 fields", func(g G, st *Stats) {
		f := g.Filler(15)
		f.Simple = true
		e, reqs := g.batch(g.ArgOrAny(), f, 2, QOpts{ArgHeavy: g.N(2) == 0})
		for _, r := range reqs {
			want := resolve(e.S, r.Query, r.Opts)
			for n := 0; n < 6; n++ {
				c := *r
				lay := g.Lay()
				c.Query = r.Doc.Print(lay)
				c.Opts.Variables = r.Op.VariablesJSON(nil, lay)
				got := resolve(e.S, c.Query, c.Opts)
				if string(got.Raw) != string(want.Raw) {
					g.fatal(fmt.Errorf("another layout gives another response"), e, &c, got, "canonical layout: "+want.String(), describe(r.Query, r.Opts))
				}
				if err := sameList("call", project(want.Calls, anyCall, callArgs, false), project(got.Calls, anyCall, callArgs, false)); err != nil {
					g.fatal(fmt.Errorf("another layout: %w", err), e, &c, got, "canonical layout: "+want.String(), describe(r.Query, r.Opts))
				}
				st.Class("comments", strings.Contains(c.Query, "#"))
				st.Class("block strings", strings.Contains(c.Query, `"""`))
				st.Class("arguments", r.Q.NArgs > 0)
				st.Class("variables", len(r.Op.Vars) > 0)
				st.Case(r.Q.NArgs > 0 || strings.Count(r.Query, "\n") > 3, c.Query+" "+c.Opts.Variables)
			}
			// the values are those that were written
			x := e.Expect(r)
			if x.Critical {
				panic("the harness made an invalid request")
			}
			if err := sameList("resolver or directive call", project(x.Rec.Calls, anyCall, callArgs, false), project(want.Calls, anyCall, callArgs, false)); err != nil {
				g.fatal(err, e, r, want)
			}
		}
	})
}

func TestC05(t *testing.T) {
	check(t, "a case is a valid document changed in up to three places (tokens or bytes removed, added, moved, replaced) or a sequence of tokens; a recognizer of everything the library is lenient about decides what must be refused, a recognizer of a strict subset of the grammar what must be accepted; non-trivial: the document must be refused", func(g G, st *Stats) {
		f := g.Filler(6)
		f.Simple, f.NoErrs = true, true
		e, reqs := g.batch(g.ArgOrAny(), f, 1, QOpts{Budget: 8, MaxDepth: 3})
		r := reqs[0]
		for n := 0; n < 6; n++ {
			lay := Layout(nil)
			if g.N(2) == 1 {
				lay = g.Lay()
			}
			base := r.Doc.Print(lay)
			query := base
			if g.N(8) == 7 {
				query = g.soup()
			} else {
				query = g.garble(query)
			}
			if g.N(25) == 13 {
				// far into a document
				fill := []string{"\n", " ", "\t", "#c\n", "\r\n", "\r", "  \n"}[g.N(7)]
				size := []int{254, 255, 256, 300, 1000, 65535, 65536, 70000}[g.N(8)]
				query, base = strings.Repeat(fill, size)+query, strings.Repeat(fill, size)+base
				st.Class("after a lot of white space", true)
			}
			queries := []string{query}
			if g.N(30) == 29 && len(base) < 5000 {
				// the document and all it starts with
				queries = nil
				end := []string{"", " ", "\n", "#", ","}[g.N(5)]
				for i := max(0, len(base)-400); i <= len(base); i++ {
					queries = append(queries, base[:i]+end)
				}
				st.Class("all prefixes", true)
			}
			for _, query := range queries {
				g.malformed(e, r, st, query, base)
			}
		}
	})
}

// malformed checks that a document is refused when it has to be
func (g G) malformed(e *Env, r *Request, st *Stats, query, base string) {
	g.T.Helper()
	o := r.Opts
	resp := resolve(e.S, query, o)
	if err := resp.envelope(o); err != nil {
		g.T.Fatalf("%v\n%s", err, describe(query, o))
	}
	fail := func(why string, a ...interface{}) {
		g.T.Fatalf("%s\n%s\nmade from: %s\nresponse: %s", fmt.Sprintf(why, a...), describe(query, o), base, resp)
	}
	strict, from := recognize(query, true)
	tolerant, to := recognize(query, false)
	if strict && !tolerant {
		panic("the recognizers contradict each other: " + strconv.Quote(query))
	}
	var located []*J
	if l := resp.J.Get("errors"); l != nil {
		for _, e := range l.L {
			if l := e.Get("locations"); l != nil {
				located = append(located, l.L...)
			}
		}
	}
	switch {
	case strict:
		st.Class("valid", true)
		if len(located) > 0 {
			fail("a valid document is answered with a syntax error")
		}
	case tolerant:
		st.Class("tolerated", true)
	default:
		st.Class("refused", true)
		if len(resp.Errs) == 0 {
			fail("no error for a document that is malformed at byte %d", to.start)
		}
		if len(resp.Calls) > 0 {
			fail("something ran for a malformed document: %v", resp.Calls)
		}
		if len(resp.J.Get("data").Keys) > 0 {
			fail("data for a malformed document")
		}
		if len(located) == 0 {
			fail("no location for a document that is malformed at byte %d", to.start)
		}
		l := located[0]
		line, _ := strconv.Atoi(l.Get("line").S)
		col, _ := strconv.Atoi(l.Get("column").S)
		l1, _, c1 := position(query, from.start)
		l2, c2, _ := position(query, to.end)
		if line < l1 || line == l1 && col < c1 {
			fail("the error is at %d:%d and the text in front of %d:%d is the start of a valid document", line, col, l1, c1)
		}
		if line > l2 || line == l2 && col > c2 {
			fail("the error is at %d:%d and no valid document starts with the text up to %d:%d", line, col, l2, c2)
		}
	}
	st.Case(!tolerant, query)
}
