package harness

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

type span struct{ start, end int64 }

func (j *J) nanos() (int64, error) {
	if j == nil || j.Kind != JNum {
		return 0, fmt.Errorf("is no number: %s", j)
	}
	r, ok := new(big.Rat).SetString(j.S)
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, fmt.Errorf("is no integer: %s", j)
	}
	return r.Num().Int64(), nil
}

func (j *J) span(total int64) (span, error) {
	if j == nil || j.Kind != JObj {
		return span{}, fmt.Errorf("no object: %s", j)
	}
	start, err := j.Get("startOffset").nanos()
	if err != nil {
		return span{}, fmt.Errorf("startOffset %v", err)
	}
	d, err := j.Get("duration").nanos()
	if err != nil {
		return span{}, fmt.Errorf("duration %v", err)
	}
	if start < 0 || d < 0 || start+d > total {
		return span{}, fmt.Errorf("the interval %d+%d is not inside the request of %d", start, d, total)
	}
	return span{start, start + d}, nil
}

// traced is a trace read from a response
type traced struct {
	recs []TraceRec
	at   []span
}

func recText(r TraceRec) string {
	return fmt.Sprintf("record of [%s]: %s.%s %s", r.Path, r.Parent, r.Field, r.Type)
}

// readTrace checks the times of a trace, elapsed is how long the request took
func readTrace(j *J, before time.Time, elapsed time.Duration) (*traced, error) {
	if j == nil || j.Kind != JObj {
		return nil, fmt.Errorf("no trace: %s", j)
	}
	if v := j.Get("version"); v == nil || v.Kind != JNum || v.S != "1" {
		return nil, fmt.Errorf("version %s", v)
	}
	total, err := j.Get("duration").nanos()
	if err != nil {
		return nil, fmt.Errorf("duration %v", err)
	}
	if total < 0 || total > int64(elapsed) {
		return nil, fmt.Errorf("duration %d of a request of %d", total, int64(elapsed))
	}
	stamps := []time.Time{}
	for _, k := range []string{"startTime", "endTime"} {
		v := j.Get(k)
		if v == nil || v.Kind != JStr {
			return nil, fmt.Errorf("%s is no string: %s", k, v)
		}
		tm, err := time.Parse(time.RFC3339Nano, v.S)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", k, err)
		}
		// the wall clock may be set meanwhile
		if d := tm.Sub(before.Round(0)); d < -2*time.Second || d > elapsed+2*time.Second {
			return nil, fmt.Errorf("%s %s of a request at %s", k, v.S, before)
		}
		stamps = append(stamps, tm)
	}
	if d := stamps[1].Sub(stamps[0]) - time.Duration(total); d < -2*time.Second || d > 2*time.Second {
		return nil, fmt.Errorf("start and end are %s apart and the duration is %s", stamps[1].Sub(stamps[0]), time.Duration(total))
	}
	for _, k := range []string{"parsing", "validation"} {
		if _, err := j.Get(k).span(total); err != nil {
			return nil, fmt.Errorf("%s: %w", k, err)
		}
	}
	x := j.Get("execution")
	if x == nil || x.Get("resolvers") == nil || x.Get("resolvers").Kind != JList {
		return nil, fmt.Errorf("no list of resolvers: %s", x)
	}
	t := &traced{}
	for i, r := range x.Get("resolvers").L {
		s, err := r.span(total)
		if err != nil {
			return nil, fmt.Errorf("record %d: %w", i, err)
		}
		if p := r.Get("path"); p == nil || p.Kind != JList {
			return nil, fmt.Errorf("path of record %d: %s", i, p)
		}
		texts := []string{}
		for _, k := range []string{"parentType", "fieldName", "returnType"} {
			v := r.Get(k)
			if v == nil || v.Kind != JStr {
				return nil, fmt.Errorf("%s of record %d: %s", k, i, v)
			}
			texts = append(texts, v.S)
		}
		t.recs = append(t.recs, TraceRec{Path: errPath(r), Parent: texts[0], Field: texts[1], Type: texts[2]})
		t.at = append(t.at, s)
	}
	return t, nil
}

// nested checks the times of the records with each other and with the calls of the resolvers
func (t *traced) nested(calls []Call) error {
	at := map[string]span{}
	for i, r := range t.recs {
		if _, twice := at[r.Path]; twice {
			return nil
		}
		at[r.Path] = t.at[i]
	}
	paths := make([]string, 0, len(at))
	for p := range at {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	within := func(p, of string) bool { return p == of || strings.HasPrefix(p, of+",") }
	for _, p := range paths {
		s := at[p]
		for q := p; q != ""; {
			i := strings.LastIndexByte(q, ',')
			q = q[:max(i, 0)]
			if o, ok := at[q]; ok && (s.start < o.start || s.end > o.end) {
				return fmt.Errorf("the interval %v of [%s] is not within %v of [%s]", s, p, o, q)
			}
		}
		before, inside, found := time.Duration(0), time.Duration(0), false
		for _, c := range calls {
			if isDirCall(c) || c.Path == "" {
				continue // where it happened is not known
			}
			if within(c.Path, p) {
				inside += c.Took
				found = true
			} else if !found {
				before += c.Took
			}
		}
		if s.end-s.start < int64(inside) {
			return fmt.Errorf("[%s] is said to last %d, its resolvers took %d", p, s.end-s.start, int64(inside))
		}
		if found && s.start < int64(before) {
			return fmt.Errorf("[%s] is said to start at %d, the resolvers before it took %d", p, s.start, int64(before))
		}
	}
	return nil
}

func recTexts(rs []TraceRec) (res []string) {
	for _, r := range rs {
		res = append(res, recText(r))
	}
	sort.Strings(res)
	return
}

func TestC30(t *testing.T) {
	check(t, "a case is a request answered with and without tracing on one schema, now and then through HandleRequest, in a batch or with another request before it; the trace is compared with the fields the reference execution resolves, and its times with each other and the time the resolvers measured; non-trivial: at least 3 records with one below another", func(g G, st *Stats) {
		f := g.Filler(25)
		f.ErrPct = 25
		f.NaN = true
		if g.N(30) == 17 {
			f.Long, f.Full = 1, true
		}
		e, reqs := g.batch(g.NewModel(), f, 3, QOpts{WideOps: true, ArgHeavy: g.N(3) == 2})
		s := e.S
		if g.N(4) == 3 {
			s = e.S.Copy()
		}
		for _, r := range reqs {
			x := e.Expect(r)
			query, o, class := r.Query, r.Opts, "valid"
			if g.N(6) == 5 {
				query, o, class = g.anyRequest(e, reqs)
				class = "any: " + class
			}
			o.Tracing = false
			plain := resolve(s, query, o)
			o.Tracing = true
			if g.N(8) == 7 {
				o.NoMeta = true
				resp := resolve(s, query, o)
				if want := ownData(plain); string(resp.Raw) != want {
					g.T.Fatalf("data alone with tracing: %s\nwithout: %s\n%s", resp, want, describe(query, o))
				}
				o.NoMeta = false
			}
			var resp *Resp
			slow := time.Duration(0)
			if len(x.Rec.Calls) < 30 {
				slow = time.Duration(g.N(4)) * 15 * time.Microsecond
			}
			before := time.Now()
			batch := 0
			guard(func() string { return describe(query, o) }, func() {
				resp = &Resp{}
				old := rec
				rec = &Recorder{Slow: slow}
				defer func() { rec = old }()
				if class == "valid" && g.N(3) == 2 && onWire(query, o) {
					msg := g.message(query, o)
					for msg.bad {
						msg = g.message(query, o)
					}
					text := msg.text
					if g.N(2) == 1 {
						batch = 1
						if g.N(2) == 1 {
							batch = 2
							text = msg.text + "," + msg.text
						}
						text = "[" + text + "]"
					}
					raw, errs := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return "", nil }, func() []byte { return []byte(text) }, "application/json", &yarql.RequestOptions{Tracing: true})
					resp.Raw, resp.Errs = append([]byte{}, raw...), append([]error{}, errs...)
					st.Class("http", true)
				} else {
					resp.Errs = s.Resolve([]byte(query), o)
					resp.Raw = append([]byte{}, s.Result...)
				}
				resp.Calls = rec.Calls
			})
			elapsed := time.Since(before)
			fail := func(err error) {
				g.T.Fatalf("%v\n%s\nbatch of %d, request: %s\nresponse: %s\nuntraced: %s", err, e.Describe(r), batch, describe(query, o), resp, plain)
			}
			if err := plain.envelope(yarql.ResolveOptions{}); err != nil {
				fail(err)
			}
			j, err := ParseJSON(resp.Raw)
			if err != nil {
				fail(fmt.Errorf("not JSON: %w", err))
			}
			list := []*J{j}
			if batch > 0 {
				list = j.L
				if j.Kind != JList || len(list) != batch {
					fail(fmt.Errorf("%d requests have %d answers", batch, len(list)))
				}
			}
			for nr, j := range list {
				if j.Kind != JObj {
					fail(fmt.Errorf("answer %d is no object", nr))
				}
				for _, k := range []string{"data", "errors"} {
					if a, b := plain.J.Get(k), j.Get(k); (a == nil) != (b == nil) || a != nil && a.String() != b.String() {
						fail(fmt.Errorf("%s of the response is %s without tracing and %s with tracing", k, a, b))
					}
				}
				ext := j.Get("extensions")
				if ext == nil || ext.Kind != JObj {
					fail(fmt.Errorf("no extensions"))
				}
				tr, err := readTrace(ext.Get("tracing"), before, elapsed)
				if err != nil {
					fail(err)
				}
				if class != "valid" {
					continue
				}
				if err := sameList("trace", recTexts(x.Records), recTexts(tr.recs)); err != nil {
					fail(err)
				}
				if batch < 2 {
					if err := tr.nested(resp.Calls); err != nil {
						fail(err)
					}
				}
			}
			deep := false
			for _, r := range x.Records {
				deep = deep || strings.Contains(r.Path, ",")
			}
			st.Class(class, true)
			st.Class("errors", len(plain.Errs) > 0)
			st.Class("batch", batch > 0)
			st.Class("slow resolvers", slow > 0 && x.Resolvers > 0)
			st.Class("records > 10", len(x.Records) > 10)
			st.Case(class == "valid" && len(x.Records) > 2 && deep, query+" "+o.Variables)
		}
	})
}

// ownData is the text of the data of a response
func ownData(r *Resp) string {
	if len(r.Errs) == 0 {
		return strings.TrimSuffix(strings.TrimPrefix(string(r.Raw), `{"data":`), "}")
	}
	// the data ends where the rest has the length of the errors
	raw := strings.TrimPrefix(string(r.Raw), `{"data":`)
	for i := range raw {
		if strings.HasPrefix(raw[i:], `,"errors":[`) {
			if _, err := ParseJSON([]byte(raw[:i])); err == nil {
				return raw[:i]
			}
		}
	}
	return raw
}
