package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
	"pgregory.net/rapid"
)

// Stats counts what a check has explored
type Stats struct {
	mu       sync.Mutex
	Rule     string         `json:"rule"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Classes  map[string]int `json:"classes"`
	Samples  []string       `json:"samples"`
	seen     map[uint64]struct{}
}

func newStats(rule string) *Stats {
	return &Stats{Rule: rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}}
}

// Case counts a case, key identifies it
func (s *Stats) Case(nontrivial bool, key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	sum := h.Sum64()
	if _, ok := s.seen[sum]; ok {
		return
	}
	s.seen[sum] = struct{}{}
	s.Distinct++
	// keep samples at exponentially growing distances
	if s.Distinct&(s.Distinct-1) == 0 && len(s.Samples) < 16 {
		s.Samples = append(s.Samples, clip(key, 1500))
	}
}

// Class counts a class of cases when the condition holds
func (s *Stats) Class(name string, cond bool) {
	if cond {
		s.mu.Lock()
		s.Classes[name]++
		s.mu.Unlock()
	}
}

func (s *Stats) save() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	b, _ := json.MarshalIndent(s, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	raw := make([]byte, 0, 8*len(s.seen))
	for h := range s.seen {
		raw = binary.LittleEndian.AppendUint64(raw, h)
	}
	if err := os.WriteFile(p+".hashes", raw, 0o644); err != nil {
		panic(err)
	}
}

// check runs a property with rapid and writes the statistics
func check(t *testing.T, rule string, f func(g G, st *Stats)) *Stats {
	st := newStats(rule)
	defer st.save()
	failed := os.Getenv("VERIF_STATS")
	rapid.Check(t, func(rt *rapid.T) {
		defer func() {
			if failed != "" && rt.Failed() {
				// on file, for making the case smaller might take too long
				msg := reflect.ValueOf(rt).Elem().FieldByName("failed").String()
				os.WriteFile(failed+".failed", []byte(msg[:min(len(msg), 100000)]), 0o644)
				failed = ""
			}
		}()
		f(G{rt}, st)
	})
	if testing.Verbose() {
		keys := []string{}
		for k := range st.Classes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			t.Logf("%-30s %6d %5.1f%%", k, st.Classes[k], 100*float64(st.Classes[k])/float64(max(st.Evals, 1)))
		}
		t.Logf("evaluations %d distinct %d", st.Evals, st.Distinct)
	}
	return st
}

// Watchdog: a request that uses a lot of cpu time, wall time or memory is a hang

var (
	inRequest  atomic.Int64 // number of the running request, 0 = none
	requestNr  atomic.Int64
	requestDoc atomic.Value
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func TestMain(m *testing.M) {
	debug.SetMaxStack(256 << 20)
	go func() {
		var last int64
		var cpu time.Duration
		var wall time.Time
		for {
			time.Sleep(200 * time.Millisecond)
			n := inRequest.Load()
			if n == 0 {
				last = 0
				continue
			}
			why := ""
			if n != last {
				last, cpu, wall = n, cpuTime(), time.Now()
			} else if c := cpuTime() - cpu; c > 30*time.Second && time.Since(wall) > 30*time.Second {
				why = "more than 30 seconds of processor time"
			} else if time.Since(wall) > 4*time.Minute {
				why = "no answer after 4 minutes"
			}
			if r := rss(); r > 3<<30 {
				why = "more than 3 GB of memory"
			}
			if why != "" {
				doc := ""
				if f, ok := requestDoc.Load().(func() string); ok {
					doc = f()
				}
				fmt.Fprintf(os.Stderr, "HANG: %s for a request\n%s\n", why, clip(doc, 20000))
				os.Exit(97)
			}
		}
	}()
	os.Exit(m.Run())
}

var logCase = os.Getenv("VERIF_LOGCASE")

// guard marks f as the handling of a request
func guard(describe func() string, f func()) {
	if logCase != "" {
		os.WriteFile(logCase, []byte(describe()), 0o644)
	}
	n := requestNr.Add(1)
	requestDoc.Store(describe)
	inRequest.Store(n)
	defer inRequest.Store(0)
	f()
}

// Resp is a response
type Resp struct {
	Raw   []byte
	Errs  []error
	J     *J
	Calls []Call
}

func (r *Resp) String() string {
	return clip(string(r.Raw), 6000)
}

// resolve runs a request on the real schema
func resolve(s *yarql.Schema, query string, o yarql.ResolveOptions) *Resp {
	r := &Resp{}
	guard(func() string { return describe(query, o) }, func() {
		r.Calls = record(func() {
			r.Errs = s.Resolve([]byte(query), o)
		})
		r.Raw = append([]byte{}, s.Result...)
		r.Errs = append([]error{}, r.Errs...)
	})
	return r
}

func describe(query string, o yarql.ResolveOptions) string {
	return "query: " + query + "\nquoted: " + strconv.QuoteToASCII(query) + "\noperation: " + strconv.Quote(o.OperatorTarget) + "\nvariables: " + o.Variables
}

// envelope checks the shape of a response and parses it
func (r *Resp) envelope(o yarql.ResolveOptions) error {
	j, err := ParseJSON(r.Raw)
	if err != nil {
		return fmt.Errorf("the response is not JSON: %w: %s", err, clip(strconv.QuoteToASCII(string(r.Raw)), 3000))
	}
	r.J = j
	if j.Kind != JObj {
		return fmt.Errorf("the response is no object: %s", r)
	}
	if o.NoMeta {
		return nil
	}
	want := []string{"data"}
	if len(r.Errs) > 0 {
		want = append(want, "errors")
	}
	if len(r.Errs) > 0 || o.Tracing {
		want = append(want, "extensions")
	}
	got := append([]string{}, j.Keys...)
	sort.Strings(got)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		return fmt.Errorf("%d errors were returned and the response has the members %v", len(r.Errs), j.Keys)
	}
	if j.Get("data").Kind != JObj {
		return fmt.Errorf("data is no object: %s", r)
	}
	if len(r.Errs) > 0 {
		l := j.Get("errors")
		if l.Kind != JList || len(l.L) != len(r.Errs) {
			return fmt.Errorf("%d errors were returned and the response has %s", len(r.Errs), l)
		}
		for i, e := range l.L {
			if m := e.Get("message"); m == nil || m.Kind != JStr || m.S != string([]rune(r.Errs[i].Error())) {
				return fmt.Errorf("error %d was returned as %q and is written as %s", i, r.Errs[i].Error(), e)
			}
		}
	}
	if x := j.Get("extensions"); x != nil {
		if x.Kind != JObj {
			return fmt.Errorf("extensions is no object")
		}
		if o.Tracing != (x.Get("tracing") != nil) {
			return fmt.Errorf("tracing %v but extensions is %s", o.Tracing, x)
		}
	}
	return nil
}

func (r *Resp) data(o yarql.ResolveOptions) *J {
	if o.NoMeta {
		return r.J
	}
	return r.J.Get("data")
}

func errPath(e *J) string {
	p := e.Get("path")
	if p == nil {
		return ""
	}
	parts := []string{}
	for _, v := range p.L {
		parts = append(parts, v.String())
	}
	return strings.Join(parts, ",")
}

func (r *Resp) errList() (res []string) {
	if r.J == nil || r.J.Get("errors") == nil {
		for _, e := range r.Errs {
			res = append(res, strconv.QuoteToASCII(string([]rune(e.Error()))))
		}
		return
	}
	for _, e := range r.J.Get("errors").L {
		res = append(res, strconv.QuoteToASCII(e.Get("message").S)+" at ["+errPath(e)+"]")
	}
	return
}

func (x *Exec) errList(paths bool) (res []string) {
	for _, e := range x.Errs {
		s := strconv.QuoteToASCII(string([]rune(e.Msg)))
		if paths {
			s += " at [" + e.Path + "]"
		}
		res = append(res, s)
	}
	return
}

func callText(c Call) string { return c.String() }
func callName(c Call) string { return c.Name }
func callArgs(c Call) string { return c.Name + "(" + c.Args + ")" }
func callPath(c Call) string { return c.Name + " at [" + c.Path + "]" }
func isDirCall(c Call) bool  { return strings.HasPrefix(c.Name, "@") }
func notDirCall(c Call) bool { return !isDirCall(c) }
func anyCall(c Call) bool    { return true }

func project(calls []Call, keep func(Call) bool, text func(Call) string, sorted bool) (res []string) {
	for _, c := range calls {
		if keep(c) {
			res = append(res, text(c))
		}
	}
	if sorted {
		sort.Strings(res)
	}
	return
}

func sameList(what string, want, got []string) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Errorf("%s %d: expected %s but got %s", what, i, clip(w, 800), clip(g, 800))
		}
	}
	return nil
}

// what is compared with the reference execution
type cmp struct {
	data, errs      bool
	calls           func(Call) string // nil = not
	keep            func(Call) bool
	sorted, noPaths bool
	trace           bool // have some requests traced
}

// compare checks a response against the reference execution
func (x *Exec) compare(r *Resp, o yarql.ResolveOptions, c cmp) error {
	if err := r.envelope(o); err != nil {
		return err
	}
	if x.Critical {
		if len(r.Errs) == 0 {
			return fmt.Errorf("no error, expected %v", x.Errs)
		}
		return nil
	}
	if c.calls != nil {
		keep := c.keep
		if keep == nil {
			keep = anyCall
		}
		if err := sameList("resolver or directive call", project(x.Rec.Calls, keep, c.calls, c.sorted), project(r.Calls, keep, c.calls, c.sorted)); err != nil {
			return err
		}
	}
	if c.errs {
		paths := !o.NoMeta && !c.noPaths
		if err := sameList("error", x.errList(paths), r.errList()); err != nil {
			return err
		}
	}
	if c.data {
		return x.Data.Match(r.data(o), "data")
	}
	return nil
}

// Env is a schema with its model and data
type Env struct {
	M      *Model
	Reg    *Registry
	Q, Mut reflect.Value
	S      *yarql.Schema
	Zoo    bool
}

func (e *Env) Root(kind string) reflect.Value {
	if kind == "mutation" {
		return e.Mut
	}
	return e.Q
}

// Build makes the real schema
func (e *Env) Build(opt *yarql.SchemaOptions) *yarql.Schema {
	s, err := e.Reg.NewYarql()
	if err == nil {
		err = s.Parse(e.Q.Interface(), e.Mut.Interface(), opt)
	}
	if err != nil {
		panic(fmt.Sprintf("a supported schema was refused: %v\n%s", err, describeType(e.Q.Type())))
	}
	return s
}

// NewModel makes an environment without data
func (g G) NewModel() *Env {
	if g.N(15) == 7 {
		// with a lot of enums
		old := unusedEnums
		unusedEnums = []int{3, 8, 12, 30, 60, 128, 260}[g.N(7)]
		defer func() { unusedEnums = old }()
	}
	if g.N(20) == 7 {
		// with a lot of directives
		old := unusedDirs
		unusedDirs = []int{3, 8, 16, 30, 64, 130}[g.N(6)]
		defer func() { unusedDirs = old }()
	}
	switch g.N(4) {
	case 0:
		return newModel(rt[ZooQuery](), rt[ZooMutation]())
	case 1, 2:
		if g.N(5) == 4 {
			return PeopleModel()
		}
		d := &DynGen{G: g, Left: 14}
		return newModel(d.Struct(0), rt[SmallMutation]())
	}
	if g.N(8) == 5 {
		return newModel(rt[IfaceQuery](), rt[SmallMutation]())
	}
	if g.N(40) == 23 {
		return newModel(rt[SmallMutation](), g.wideType([]int{20, 60, 127, 128, 129, 260}[g.N(6)]))
	}
	d := &DynGen{G: g, Left: 14}
	return newModel(rt[SmallMutation](), d.Struct(0))
}

// unusedEnums is the number of other enums to register
var unusedEnums int

// unusedDirs is the number of other directives to register
var unusedDirs int

func padDirs(n int) (res []*Dir) {
	all := []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
	for i := 0; i < n; i++ {
		where := all
		if i%3 == 1 {
			where = all[i%2 : i%2+1+i/3%2]
		}
		res = append(res, &Dir{D: yarql.Directive{Name: "pad" + strconv.Itoa(i), Where: where, Method: func(args struct{ If bool }) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: args.If}
		}}})
	}
	return
}

func newModel(qt, mt reflect.Type) *Env {
	e := &Env{Reg: ZooRegistry(), Zoo: qt == rt[ZooQuery]()}
	e.Reg.Enums = append(pads(unusedEnums), e.Reg.Enums...)
	e.Reg.Dirs = append(padDirs(unusedDirs), e.Reg.Dirs...)
	var err error
	e.M, err = BuildModel(e.Reg, qt, mt)
	if err != nil {
		panic("model: " + err.Error() + "\n" + describeType(qt))
	}
	return e
}

// Data fills the roots, and builds the real schema. The fields not selected by the requests stay empty
func (e *Env) Data(f *Filler, reqs ...*Request) *Env {
	f.Share = max(f.Left/3, 4)
	fill := func(kind string, o *Obj) reflect.Value {
		f.Only = nil
		if len(reqs) > 0 {
			f.Only = map[string]bool{}
			for _, r := range reqs {
				for _, d := range r.Doc.Defs {
					if d.Op != nil && d.Op.Kind == kind {
						selectedRoots(r.Doc, d.Op.Sel, o, f.Only, 0)
					}
				}
			}
		}
		return f.Value(o.Go)
	}
	e.Q = fill("query", e.M.Query)
	e.Mut = fill("mutation", e.M.Mut)
	e.S = e.Build(nil)
	return e
}

func selectedRoots(doc *Doc, sels []*Sel, o *Obj, res map[string]bool, depth int) {
	if depth > 20 {
		return
	}
	for _, s := range sels {
		switch s.K {
		case SField:
			if f := o.ByName[s.Name]; f != nil {
				res[f.GoName] = true
			}
		case SInline:
			selectedRoots(doc, s.Sel, o, res, depth+1)
		case SSpread:
			if f := doc.Frag(s.Name); f != nil {
				selectedRoots(doc, f.Sel, o, res, depth+1)
			}
		}
	}
}

// NewEnv makes an environment with random data
func (g G) NewEnv(f *Filler) *Env {
	return g.NewModel().Data(f)
}

func describeType(t reflect.Type) string { return clip(t.String(), 3000) }

// Request is a generated request
type Request struct {
	Doc   *Doc
	Op    *Op
	Query string
	Opts  yarql.ResolveOptions
	Q     *QGen
}

// Request makes a valid request for the environment
func (e *Env) Request(g G, opt QOpts, lay Layout) *Request {
	q := NewQGen(g, e.M, opt)
	kind := "query"
	if g.N(5) == 4 {
		kind = "mutation"
	}
	name := ""
	if g.N(3) == 2 {
		name = opNames[g.N(len(opNames))]
	}
	r := &Request{Q: q}
	r.Op = q.Operation(kind, name)
	if g.N(100) == 47 {
		q.widen(r.Op)
	}
	r.Doc = q.Doc
	r.Query = r.Doc.Print(lay)
	r.Opts.Variables = r.Op.VariablesJSON(q.ExtraVars(), lay)
	if name != "" && g.N(2) == 1 {
		r.Opts.OperatorTarget = name
	}
	return r
}

// Expect runs the reference executor
func (e *Env) Expect(r *Request) *Exec {
	x := NewExec(e.M, r.Doc, r.Op)
	x.Run(e.Root(r.Op.Kind))
	return x
}

func (e *Env) Describe(r *Request) string {
	return fmt.Sprintf("query root: %s\nmutation root: %s\nvalue: %s\n%s", describeType(e.Q.Type()), describeType(e.Mut.Type()), clip(canonAt(e.Root(r.Op.Kind), 8), 3000), describe(r.Query, r.Opts))
}

func (r *Request) Key() string {
	return r.Query + " " + r.Opts.Variables
}

// batch makes a schema with requests and data for them
func (g G) batch(e *Env, f *Filler, n int, opt QOpts) (*Env, []*Request) {
	reqs := []*Request{}
	for ; n > 0; n-- {
		reqs = append(reqs, e.Request(g, opt, nil))
	}
	e.Data(f, reqs...)
	return e, reqs
}

func (g G) fatal(err error, e *Env, r *Request, resp *Resp, extra ...string) {
	g.T.Helper()
	g.T.Fatalf("%v\n%s\nresponse: %s\nerrors: %v\n%s", err, e.Describe(r), resp, resp.errList(), strings.Join(extra, "\n"))
}

// must compares the response of a valid request with the reference execution
func (g G) must(e *Env, r *Request, c cmp) (*Exec, *Resp) {
	g.T.Helper()
	x := e.Expect(r)
	if x.Critical {
		panic(fmt.Sprintf("the harness made an invalid request: %v %s", x.Errs, e.Describe(r)))
	}
	o := r.Opts
	o.Tracing = o.Tracing || c.trace && g.N(8) == 5
	resp := resolve(e.S, r.Query, o)
	if err := x.compare(resp, o, c); err != nil {
		g.fatal(err, e, r, resp, fmt.Sprintf("tracing: %v", o.Tracing), "expected: "+x.Data.String(), "expected errors: "+strings.Join(x.errList(true), "; "))
	}
	return x, resp
}

// ArgModel is a schema with a lot of resolvers with arguments
func (g G) ArgModel() *Env {
	if g.N(3) == 0 {
		return newModel(rt[ZooQuery](), rt[ZooMutation]())
	}
	d := &DynGen{G: g, Left: 6, FnHeavy: true}
	return newModel(d.Struct(0), rt[SmallMutation]())
}

func describeless(target string) yarql.ResolveOptions {
	return yarql.ResolveOptions{OperatorTarget: target}
}
