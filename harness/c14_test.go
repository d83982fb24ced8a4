package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"mime/multipart"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

// Step is a request of a history
type Step struct {
	Query string
	Opts  yarql.ResolveOptions
	Class string
}

func (s *Step) describe() string {
	ctx := "no context"
	if s.Opts.Context != nil {
		ctx = fmt.Sprintf("context (error %v)", s.Opts.Context.Err())
	}
	return fmt.Sprintf("%s; data only %v, tracing %v, %s, values %v, files %v (%s)", describe(s.Query, s.Opts), s.Opts.NoMeta, s.Opts.Tracing, ctx, s.Opts.Values != nil, s.Opts.GetFormFile != nil, s.Class)
}

func describeSteps(steps []*Step) string {
	parts := []string{}
	for i, s := range steps {
		parts = append(parts, strconv.Itoa(i)+": "+clip(s.describe(), 3000))
	}
	return clip(strings.Join(parts, "\n"), 30000)
}

// outcome is what a step gave, without times
type outcome struct {
	raw, calls string
	panicked   bool
	errs       int
	kept       []Call  // calls with the arguments and path the resolvers got
	returned   []error // the slice that was returned
	messages   []string
}

// changed reports if something that was given to resolvers or returned is not what it was
func (a outcome) changed() error {
	for _, c := range a.kept {
		if now := canonList(c.Raw); now != c.Args {
			return fmt.Errorf("the arguments of the resolver %s became %s, they were %s", c.Name, now, c.Args)
		}
	}
	for _, c := range a.kept {
		if now := barePath(c.JSON); now != c.Path && c.JSON != nil {
			return fmt.Errorf("the path that %s asked for became [%s], it was [%s]", c.Name, now, c.Path)
		}
	}
	for i, m := range a.messages {
		if now := a.returned[i].Error(); now != m {
			return fmt.Errorf("the returned error %q became %q", m, now)
		}
	}
	return nil
}

// run resolves a step. A resolver may panic, the text of the query must stay as it is
func (s *Step) run(sch *yarql.Schema) (res outcome, err error) {
	const margin = 64
	buf := make([]byte, len(s.Query)+margin)
	copy(buf, s.Query)
	for i := len(s.Query); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	vars := strings.Clone(s.Opts.Variables)
	o := s.Opts
	o.Variables = vars
	o.OperatorTarget = strings.Clone(s.Opts.OperatorTarget)
	r := &Resp{}
	guard(s.describe, func() {
		r.Calls = record(func() {
			defer func() {
				if e := recover(); e != nil {
					if e != panicText {
						panic(e)
					}
					res.panicked = true
				}
			}()
			r.Errs = sch.Resolve(buf[:len(s.Query)], o)
		})
	})
	if string(buf[:len(s.Query)]) != s.Query {
		return res, fmt.Errorf("the query text was changed to %q", buf[:len(s.Query)])
	}
	if strings.Trim(string(buf[len(s.Query):]), "\xa5") != "" {
		return res, errors.New("bytes behind the query text were changed")
	}
	if vars != s.Opts.Variables || o.OperatorTarget != s.Opts.OperatorTarget {
		return res, fmt.Errorf("the variables or operation name were changed: %q %q", vars, o.OperatorTarget)
	}
	res.kept = r.Calls
	res.returned = r.Errs
	for _, e := range r.Errs {
		res.messages = append(res.messages, e.Error())
	}
	res.calls = strings.Join(project(r.Calls, anyCall, callText, false), "\n")
	if res.panicked {
		return res, nil
	}
	r.Raw = append([]byte{}, sch.Result...)
	r.Errs = append([]error{}, r.Errs...)
	res.errs = len(r.Errs)
	res.raw, err = r.timeless(o)
	return res, err
}

// timeless is the response without the times of the tracing, and with the returned errors
func (r *Resp) timeless(o yarql.ResolveOptions) (string, error) {
	sb := &strings.Builder{}
	if o.Tracing && !o.NoMeta {
		if err := r.envelope(o); err != nil {
			return "", err
		}
		r.J.Get("data").write(sb)
		if e := r.J.Get("errors"); e != nil {
			e.write(sb)
		}
		for _, v := range r.J.Get("extensions").Get("tracing").Get("execution").Get("resolvers").L {
			for _, k := range []string{"path", "parentType", "fieldName", "returnType"} {
				if m := v.Get(k); m != nil {
					m.write(sb)
				}
			}
		}
	} else {
		sb.Write(r.Raw)
	}
	for _, e := range r.Errs {
		sb.WriteString("\n" + strconv.Quote(e.Error()))
	}
	return sb.String(), nil
}

func (a outcome) diff(b outcome) error {
	switch {
	case a.panicked != b.panicked:
		return fmt.Errorf("resolver panicked: %v, expected %v", b.panicked, a.panicked)
	case a.calls != b.calls:
		return fmt.Errorf("the calls are\n%s\nexpected\n%s", clip(b.calls, 3000), clip(a.calls, 3000))
	case a.raw != b.raw:
		i := 0
		for i < len(a.raw) && i < len(b.raw) && a.raw[i] == b.raw[i] {
			i++
		}
		return fmt.Errorf("the response differs at byte %d:\n%s\nexpected\n%s", i, clip(b.raw, 6000), clip(a.raw, 6000))
	}
	return nil
}

// step makes any request for a history
func (g G) step(e *Env, valid []*Request) *Step {
	s := &Step{}
	s.Query, s.Opts, s.Class = g.anyRequest(e, valid)
	if g.N(3) == 2 {
		r := valid[g.N(len(valid))]
		s.Query, s.Opts, s.Class = r.Query, r.Opts, "valid"
		s.Opts.Tracing = g.N(4) == 3
	}
	s.Opts.NoMeta = g.N(6) == 5
	switch g.N(10) {
	case 0:
		s.Opts.Values = &map[string]interface{}{"a": g.N(3)}
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		if g.N(2) == 0 {
			cancel()
			s.Class += ", cancelled"
		} else {
			defer cancel()
		}
		s.Opts.Context = ctx
	case 2:
		fail := g.N(2) == 0
		s.Opts.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			if fail {
				return nil, errors.New("no " + key)
			}
			return &multipart.FileHeader{Filename: key}, nil
		}
	}
	return s
}

func TestC14(t *testing.T) {
	check(t, "a case is one request in a history of 3 to 14 on one schema (valid, garbled, ill typed, huge, traced, cancelled, introspection, with panicking resolvers); response, errors and calls must be those of the same request on a new build of the schema; query text, variables and roots must stay as they are, as must the arguments, paths and errors of earlier requests; non-trivial: something came before", func(g G, st *Stats) {
		f := g.Filler(25)
		f.ErrPct = 25
		f.Panics = g.N(3) == 2
		model := g.NewModel()
		if f.Panics {
			model = g.ArgModel()
		}
		in := model.M.AddIntro()
		e, valid := g.batch(model, f, 3, QOpts{ArgHeavy: g.N(3) == 2, VarHeavy: g.N(3) == 2, Intro: in})
		if g.N(3) == 2 {
			valid = append(valid, g.bigRequest(e))
		}
		if g.N(6) == 5 {
			doc, op := fullDoc()
			valid = append(valid, &Request{Doc: doc, Op: op, Query: doc.String()})
		}
		before := canon(e.Q) + canon(e.Mut)
		var steps []*Step
		var outcomes []outcome
		long := -1
		if g.N(20) == 13 {
			long = g.N(4)
		}
		for n := 3 + g.N(12); n > 0; n-- {
			s := g.step(e, valid)
			if len(steps) > 0 && g.N(4) == 3 {
				s = steps[g.N(len(steps))]
			}
			if len(steps) == long {
				// the schema is used for a long time
				times := []int{253, 255, 256, 300, 1000, 2000, 3000, 70000}[g.N(8)]
				cheap := []string{"{__typename}", "{", "query A($a:Int=1){a:__typename}", "{nope}", "{__typename @skip(if:true)}"}
				pick := g.N(len(cheap))
				start := time.Now()
				for i := 0; i < times && time.Since(start) < 2*time.Second; i++ {
					e.S.Resolve([]byte(cheap[(pick+i/1000)%len(cheap)]), yarql.ResolveOptions{Tracing: i%7 == pick})
				}
				steps = append(steps, &Step{Query: cheap[pick], Class: fmt.Sprintf("first %d requests", times)})
				outcomes = append(outcomes, outcome{})
				st.Class("after hundreds of requests", true)
			}
			steps = append(steps, s)
			want, err1 := s.run(e.Build(nil))
			got, err2 := s.run(e.S)
			err := err1
			if err == nil {
				err = err2
			}
			if err == nil {
				err = want.diff(got)
			}
			for i := 0; err == nil && i < len(outcomes); i++ {
				if err = outcomes[i].changed(); err != nil {
					err = fmt.Errorf("request %d changed what request %d gave: %v", len(steps)-1, i, err)
				}
			}
			outcomes = append(outcomes, got)
			if err == nil && canon(e.Q)+canon(e.Mut) != before {
				err = errors.New("the root values were changed")
			}
			if err != nil {
				g.T.Fatalf("%v\nquery root: %s\nhistory: %s", err, describeType(e.Q.Type()), describeSteps(steps))
			}
			for _, c := range strings.Split(s.Class, ", ") {
				st.Class(c, true)
			}
			st.Class("panicked", got.panicked)
			st.Class("resolvers called", got.calls != "")
			st.Class("traced", s.Opts.Tracing)
			st.Class("above 4 kB", len(got.raw) > 4096)
			st.Case(len(steps) > 1, strconv.Itoa(len(steps))+s.describe())
		}
	})
}

// bigRequest repeats the selections of a request under other names
func (g G) bigRequest(e *Env) *Request {
	r := e.Request(g, QOpts{NoFrags: true, NoVars: true, Budget: 10}, nil)
	base := r.Op.Sel
	for i := 0; i < 1+g.N(40); i++ {
		for _, s := range base {
			c := *s
			c.Alias = fmt.Sprintf("%s_%d", s.Key(), i)
			if len(c.Alias) < 250 {
				r.Op.Sel = append(r.Op.Sel, &c)
			}
		}
	}
	r.Query = r.Doc.String()
	return r
}

func TestC15(t *testing.T) {
	check(t, "a case is one request in a history of up to 160 on a schema with caching from a random length on; response, errors and calls must be those of the same schema without caching; non-trivial: the document was sent before", func(g G, st *Stats) {
		f := g.Filler(12)
		f.Simple = true
		f.ErrPct = 10
		model := g.NewModel()
		q := NewQGen(g, model.M, QOpts{Budget: 6, MaxDepth: 3, FragHeavy: g.N(2) == 0})
		var reqs []*Request
		// one document with several operations
		multi := &Request{Doc: q.Doc, Q: q}
		names := []string{"a", "ab", "b", "query"}
		if g.N(3) == 1 {
			// names that are the same for long
			p := strings.Repeat("n", []int{7, 15, 31, 63, 64, 100, 127, 200, 240, 252}[g.N(10)])
			names = []string{p + "a", p + "b", "b" + p, "_" + p, p, p + "B"}
		}
		for _, n := range names[:2+g.N(3)] {
			multi.Op = q.Operation("query", n)
		}
		multi.Query = q.Doc.String()
		multi.Opts.Variables = multi.Op.VariablesJSON(nil, nil)
		for i := 0; i < 3; i++ {
			reqs = append(reqs, model.Request(g, QOpts{Budget: 6, MaxDepth: 3, FragHeavy: g.N(2) == 0}, nil))
		}
		reqs = append(reqs, multi)
		e := model.Data(f, reqs...)
		off := e.Build(nil)
		never := math.MaxInt
		off.SetCacheRules(&never)
		on := e.S
		from := []int{0, 1, 10, 50, 300}[g.N(5)]
		on.SetCacheRules(&from)
		var steps []*Step
		seen := map[string]bool{}
		do := func(s *Step) {
			steps = append(steps, s)
			want, err1 := s.run(off)
			got, err2 := s.run(on)
			err := err1
			if err == nil {
				err = err2
			}
			if err == nil {
				err = want.diff(got)
			}
			if err != nil {
				first := len(steps) - 1
				for first > 0 && len(steps)-first < 8 {
					first--
				}
				g.T.Fatalf("%v\nquery root: %s\ncached above %d bytes, last steps of %d: %s", err, describeType(e.Q.Type()), from, len(steps), describeSteps(steps[first:]))
			}
			again := seen[s.Query]
			seen[s.Query] = true
			st.Class("sent before", again)
			st.Class("cacheable", len(s.Query) > from)
			st.Class("failing", want.errs > 0)
			st.Class(s.Class, s.Class != "")
			st.Case(again && len(s.Query) > from, strconv.Itoa(len(steps))+s.describe())
		}
		for n := 8 + g.N(40); n > 0; n-- {
			r := reqs[g.N(len(reqs))]
			s := &Step{Query: r.Query, Opts: r.Opts}
			switch g.N(9) {
			case 0, 1:
				if len(steps) > 0 {
					// again, perhaps for another operation or with other variables
					*s = *steps[g.N(len(steps))]
					s.Class = "again"
					if g.N(2) == 0 {
						s.Opts.OperatorTarget = append(names, "", "", "nope")[g.N(len(names)+3)]
					}
					if g.N(4) == 3 {
						s.Opts.Variables = reqs[g.N(len(reqs))].Opts.Variables
					}
				}
			case 2, 3:
				// the same length
				b := []byte(s.Query)
				at := g.N(len(b))
				for i := 0; i < len(b) && !nameChar(b[at]); i++ {
					at = (at + 1) % len(b)
				}
				b[at] = "abcxyzAB019_"[g.N(12)]
				s.Query, s.Class = string(b), "one byte replaced"
			case 4:
				s.Query, s.Class = g.garble(s.Query), "garbled"
			case 5:
				s.Query += strings.Repeat(" ", g.N(4)) + "#" + strings.Repeat("x", g.N(300))
				s.Class = "padded"
			case 6:
				s.Query, s.Opts = multi.Query, multi.Opts
				s.Opts.OperatorTarget = append(names, "", "nope")[g.N(len(names)+2)]
				s.Class = "several operations"
			case 7:
				if g.N(3) == 0 {
					from = []int{0, 1, 10, 50, 300}[g.N(5)]
					on.SetCacheRules(&from)
				}
			case 8:
				if g.N(6) != 0 {
					break
				}
				// fill the cache
				if g.N(2) == 0 {
					for i := 0; i < 26; i++ {
						do(&Step{Query: r.Query + fmt.Sprintf("#%02d", i), Opts: r.Opts, Class: "many of one length"})
					}
				} else {
					for i := 0; i < 105; i++ {
						do(&Step{Query: r.Query + "#" + strings.Repeat("z", i), Opts: r.Opts, Class: "many lengths"})
					}
				}
			}
			do(s)
		}
	})
}

func TestC16(t *testing.T) {
	check(t, "a case is one request in a history on a schema, its copies and copies of copies; response, errors, introspection and tracing must be those of a new build of the schema; non-trivial: it ran on a copy or after a copy was used", func(g G, st *Stats) {
		f := g.Filler(20)
		f.ErrPct = 25
		model := g.NewModel()
		in := model.M.AddIntro()
		e, valid := g.batch(model, f, 3, QOpts{ArgHeavy: g.N(3) == 2, VarHeavy: g.N(3) == 2, Intro: in})
		doc, op := fullDoc()
		valid = append(valid, &Request{Doc: doc, Op: op, Query: doc.String()})
		if g.N(2) == 0 {
			depth := 2 + g.N(6)
			e.S.MaxDepth = uint8(depth)
		}
		fresh := func() *yarql.Schema {
			s := e.Build(nil)
			s.MaxDepth = e.S.MaxDepth
			return s
		}
		pool := []*yarql.Schema{e.S}
		gen := []int{0}
		var steps []*Step
		var on []int
		for n := 3 + g.N(9); n > 0; n-- {
			if len(pool) < 6 && (len(pool) == 1 && n < 3 || g.N(3) == 2) {
				i := g.N(len(pool))
				pool = append(pool, pool[i].Copy())
				gen = append(gen, gen[i]+1)
			}
			s := g.step(e, valid)
			i := g.N(len(pool))
			if len(steps) > 0 && g.N(3) == 2 {
				s = steps[g.N(len(steps))]
				st.Class("repeated", true)
			}
			steps = append(steps, s)
			on = append(on, i)
			want, err1 := s.run(fresh())
			got, err2 := s.run(pool[i])
			err := err1
			if err == nil {
				err = err2
			}
			if err == nil {
				err = want.diff(got)
			}
			if err != nil {
				g.T.Fatalf("%v\nquery root: %s\nschema of each step: %v (copies are made of copies of generation %v)\nhistory: %s", err, describeType(e.Q.Type()), on, gen, describeSteps(steps))
			}
			st.Class("copy", gen[i] == 1)
			st.Class("copy of a copy", gen[i] > 1)
			st.Class("original after copying", gen[i] == 0 && len(pool) > 1)
			st.Class("introspection", strings.Contains(s.Query, "__"))
			st.Class("traced", s.Opts.Tracing)
			st.Class("errors", want.errs > 0)
			st.Case(len(pool) > 1, fmt.Sprint(i, gen[i])+s.describe())
		}
	})
}

func TestC17(t *testing.T) {
	check(t, "a case is one round of requests on 2 to 6 copies of a schema, made from the original or from copies, served at the same time by a goroutine each under the race detector; responses must be those of a schema of its own; non-trivial: at least two copies served", func(g G, st *Stats) {
		f := g.Filler(15)
		f.ErrPct = 15
		model := g.NewModel()
		in := model.M.AddIntro()
		e, valid := g.batch(model, f, 3, QOpts{ArgHeavy: g.N(3) == 2, VarHeavy: g.N(3) == 2, Intro: in})
		doc, op := fullDoc()
		valid = append(valid, &Request{Doc: doc, Op: op, Query: doc.String()})
		if g.N(3) == 2 {
			e.S.SetCacheRules(new(int))
		}
		if g.N(2) == 1 {
			g.step(e, valid).runPlain(e.S)
		}
		pool := []*yarql.Schema{}
		first := e.S
		if g.N(2) == 1 {
			pool = append(pool, e.S)
		}
		for n := 2 + g.N(4); n > 0; n-- {
			c := first.Copy()
			pool = append(pool, c)
			if g.N(3) == 2 {
				first = c
			}
		}
		plan := make([][]*Step, len(pool))
		want := make([][]string, len(pool))
		fresh := e.Build(nil)
		for i := range pool {
			for n := 1 + g.N(4); n > 0; n-- {
				s := g.step(e, valid)
				if i > 0 && g.N(2) == 1 {
					s = plan[i-1][g.N(len(plan[i-1]))]
				}
				plan[i] = append(plan[i], s)
				want[i] = append(want[i], s.text(s.runPlain(fresh)))
			}
		}
		got := make([][]*Resp, len(pool))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range pool {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, s := range plan[i] {
					got[i] = append(got[i], s.runPlain(pool[i]))
				}
			}()
		}
		close(start)
		wg.Wait()
		for i := range pool {
			for n := range plan[i] {
				if g2 := plan[i][n].text(got[i][n]); g2 != want[i][n] {
					g.T.Fatalf("on copy %d: got\n%s\nexpected\n%s\n%s", i, clip(g2, 5000), clip(want[i][n], 5000), plan[i][n].describe())
				}
				st.Class("traced", plan[i][n].Opts.Tracing)
				st.Class("introspection", strings.Contains(plan[i][n].Query, "__"))
				st.Case(len(pool) > 1, fmt.Sprint(i, len(pool))+plan[i][n].describe())
			}
		}
	})
}

// runPlain runs a step without recording calls
func (s *Step) runPlain(sch *yarql.Schema) *Resp {
	r := &Resp{}
	r.Errs = append([]error{}, sch.Resolve([]byte(s.Query), s.Opts)...)
	r.Raw = append([]byte{}, sch.Result...)
	return r
}

func (s *Step) text(r *Resp) string {
	res, err := r.timeless(s.Opts)
	if err != nil {
		res += "\n" + err.Error()
	}
	return res
}
