package harness

import (
	"context"
	"errors"
	"fmt"
	"mime/multipart"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/mjarkk/yarql"
)

// wire is a request as it is given to HandleRequest
type wire struct {
	method, contentType string
	url, form           map[string]string
	formErr             error
	body                string
	opts                *yarql.RequestOptions
}

func (w *wire) describe() string {
	return fmt.Sprintf("method %q content type %q\nurl %q\nform %q\nbody %s\nquoted body %q", w.method, w.contentType, w.url, w.form, w.body, w.body)
}

func (w *wire) send(s *yarql.Schema) *Resp {
	r := &Resp{}
	guard(w.describe, func() {
		r.Calls = record(func() {
			var raw []byte
			raw, r.Errs = s.HandleRequest(w.method,
				func(key string) string { return w.url[key] },
				func(key string) (string, error) {
					if v, ok := w.form[key]; ok {
						return v, nil
					}
					return "", w.formErr
				},
				func() []byte { return []byte(w.body) },
				w.contentType, w.opts)
			r.Raw = append([]byte{}, raw...)
			r.Errs = append([]error{}, r.Errs...)
		})
	})
	return r
}

func (g G) upDown(s string) string {
	switch g.N(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if g.N(2) == 1 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

// message is one request of a body: the JSON text, and the request or the error it stands for
type message struct {
	text, query string
	opts        yarql.ResolveOptions
	bad         bool
	why         string
}

func (g G) jsonWS() string {
	return []string{"", "", "", " ", "\n", "\t", "\r\n  "}[g.N(7)]
}

// member is a key with a value of a JSON object
type member struct{ key, val string }

func (g G) jsonObj(ms []member) string {
	for n := g.N(8); n > 5; n-- {
		ms = append(ms, []member{{"extensions", "{}"}, {"extensions", `{"query":"{x}"}`}, {"id", "1"}, {"Query", `"{b}"`}, {"querys", "null"}, {"operationname", "2"}}[g.N(6)])
	}
	perm(g, ms)
	sb := &strings.Builder{}
	sb.WriteString("{" + g.jsonWS())
	for i, m := range ms {
		if i > 0 {
			sb.WriteString("," + g.jsonWS())
		}
		sb.WriteString(jsonQuoteLay(m.key, func(n int) int { return g.N(n) % 4 % 3 }) + g.jsonWS() + ":" + g.jsonWS() + m.val + g.jsonWS())
	}
	sb.WriteString("}")
	return sb.String()
}

// message makes a body for the request, or one with a mistake
func (g G) message(query string, o yarql.ResolveOptions) message {
	m := message{query: query, opts: o}
	lay := g.Lay()
	q := member{"query", jsonQuoteLay(query, lay)}
	op := member{"operationName", jsonQuoteLay(o.OperatorTarget, lay)}
	if o.OperatorTarget == "" && g.N(2) == 0 {
		op.val = "null"
	}
	vars := member{"variables", o.Variables}
	if g.N(8) == 7 {
		m.bad = true
		switch g.N(6) {
		case 0:
			m.text, m.why = []string{"1", "null", `"{a}"`, "true", "-0.5", "false", `""`}[g.N(7)], "not an object"
			return m
		case 1:
			m.text, m.why = g.jsonObj([]member{op}), "no query"
			return m
		case 2:
			q.val, m.why = []string{"1", "null", `{"a":1}`, `["{a}"]`, "true"}[g.N(5)], "query of another type"
		case 3:
			op.val, m.why = []string{"1", `{"a":1}`, `["a"]`, "false"}[g.N(4)], "operation name of another type"
		default:
			vars.val, m.why = []string{"1", `"{}"`, `[]`, `[{}]`, "true", `""`}[g.N(6)], "variables of another type"
		}
		if vars.val == "" {
			vars.val = "null"
		}
		m.text = g.jsonObj([]member{q, op, vars})
		return m
	}
	ms := []member{q}
	if o.OperatorTarget != "" || g.N(3) == 2 {
		ms = append(ms, op)
	}
	if o.Variables != "" {
		ms = append(ms, vars)
	} else if g.N(3) == 2 {
		ms = append(ms, member{"variables", "null"})
	}
	m.text = g.jsonObj(ms)
	return m
}

// onWire tells if the request can be written as JSON
func onWire(query string, o yarql.ResolveOptions) bool {
	if !utf8.ValidString(query) || !utf8.ValidString(o.OperatorTarget) || !utf8.ValidString(o.Variables) {
		return false
	}
	if o.Variables == "" {
		return true
	}
	j, err := ParseJSON([]byte(o.Variables))
	return err == nil && j.Kind == JObj && j.depth() < 250 // the JSON reader has a limit of 300
}

func (j *J) depth() (n int) {
	for _, l := range [][]*J{j.L, j.Vals} {
		for _, v := range l {
			n = max(n, v.depth()+1)
		}
	}
	return
}

// body puts the text in a request, with something else at the other places
func (g G) body(text string, opts *yarql.RequestOptions, decoy map[string]string) *wire {
	w := &wire{opts: opts, url: decoy, formErr: errors.New("no such field"), body: text, form: map[string]string{}}
	params := []string{"", "", "; charset=utf-8", ";charset=UTF-8", " ; a=b; c=\"d\"", ";"}[g.N(6)]
	switch g.N(4) {
	case 0, 1:
		w.method = g.upDown([]string{"POST", "GET", "PUT", "", "PATCH", "POST"}[g.N(6)])
		w.contentType = g.upDown("application/json")
	case 2:
		w.method = g.upDown([]string{"POST", "PUT"}[g.N(2)])
		w.contentType = g.upDown("text/plain")
	default:
		w.method = g.upDown([]string{"POST", "PUT"}[g.N(2)])
		w.contentType = g.upDown("multipart/form-data")
		w.body = decoy["query"]
		w.form = map[string]string{"operations": text, "query": decoy["query"], "variables": "{}", "map": "{}"}
		params = []string{"", "; boundary=----x", ";boundary=\"a;b\""}[g.N(3)]
	}
	w.contentType = []string{"", "", " "}[g.N(3)] + w.contentType + params
	return w
}

func TestC28(t *testing.T) {
	check(t, "a case is one request (or a batch of requests) sent through URL parameters, a JSON body, text body or multipart field, and resolved directly on another build of the schema; requests are valid or wrong in one of ten ways, bodies have mistakes; nontrivial = not refused before it is resolved; distinct by the body or URL", func(g G, st *Stats) {
		f := g.Filler(20)
		f.ErrPct = 25
		e, valid := g.batch(g.NewModel(), f, 3, QOpts{WideOps: true, Files: []string{"f1", "f2", ""}})
		direct := e.Build(nil)
		for n := 1 + g.N(4); n > 0; n-- {
			opts, o := g.requestOptions()
			decoy := map[string]string{"query": valid[0].Query, "variables": valid[0].Opts.Variables, "operationName": valid[0].Opts.OperatorTarget, "operations": "{}"}
			one := func() (string, yarql.ResolveOptions, string) {
				var query, class string
				var mo yarql.ResolveOptions
				if g.N(2) == 1 {
					r := valid[g.N(len(valid))]
					query, mo, class = r.Query, r.Opts, "valid"
				} else {
					query, mo, class = g.anyRequest(e, valid)
				}
				res := o
				res.OperatorTarget, res.Variables = mo.OperatorTarget, mo.Variables
				return query, res, class
			}
			if g.N(3) == 0 {
				// URL
				query, o, class := one()
				w := &wire{opts: opts, body: `{"query":"{__typename}"}`, form: map[string]string{"operations": `{"query":"{__typename}"}`}}
				w.url = map[string]string{"query": query, "variables": o.Variables, "operationName": o.OperatorTarget, "operations": "{}"}
				w.method, w.contentType = g.upDown([]string{"GET", "GET", "POST", "HEAD", ""}[g.N(5)]), ""
				if w.contentType = []string{"", "text/html", "application/x-www-form-urlencoded", "application/jsonp", "json"}[g.N(5)]; strings.EqualFold(w.method, "GET") && g.N(2) == 1 {
					w.contentType = g.upDown([]string{"text/plain", "multipart/form-data; boundary=x"}[g.N(2)])
				}
				want := resolve(direct, query, o)
				got := w.send(e.S)
				st.Case(true, fmt.Sprint(w.url))
				st.Class("url", true)
				st.Class("url: "+class, true)
				if err := sameResp(want, got, o); err != nil {
					g.T.Fatalf("%v\n%s\nresponse: %s\ndirectly: %s", err, w.describe(), got, want)
				}
				continue
			}
			if g.N(12) == 11 {
				g.brokenBody(st, e, opts, decoy)
				continue
			}
			batch := g.N(2) == 1
			count := 1
			if batch {
				count = g.N(5)
			}
			msgs, texts, resolved := []message{}, []string{}, false
			small := []message{}
			if batch && count > 1 && g.N(40) == 23 {
				// a lot of small ones
				count = []int{255, 256, 257, 400}[g.N(4)]
				st.Class("batch > 250", true)
				for _, q := range []string{"{__typename}", "{a:__typename}", "query A{__typename} query B{b:__typename}", "{", ""} {
					small = append(small, g.message(q, o))
				}
			}
			for len(msgs) < count {
				if n := len(msgs); len(small) > 0 && n > 3 {
					msgs, texts = append(msgs, small[n*n/3%5]), append(texts, small[n*n/3%5].text)
					continue
				}
				query, o, class := one()
				if !onWire(query, o) {
					query, class = valid[0].Query, "valid"
					o.OperatorTarget, o.Variables = valid[0].Opts.OperatorTarget, valid[0].Opts.Variables
				}
				m := g.message(query, o)
				msgs = append(msgs, m)
				texts = append(texts, m.text)
				st.Class("body: "+class, !m.bad)
				st.Class("body: "+m.why, m.bad)
				resolved = resolved || !m.bad
			}
			text := strings.Join(texts, g.jsonWS()+","+g.jsonWS())
			if batch {
				text = "[" + g.jsonWS() + text + g.jsonWS() + "]"
			}
			w := g.body(g.jsonWS()+text+g.jsonWS(), opts, decoy)
			st.Case(resolved, w.contentType+text)
			st.Class("batch", batch)
			st.Class("empty batch", batch && count == 0)
			st.Class("batch > 1", count > 1)
			st.Class(strings.TrimSpace(strings.ToLower(strings.Split(w.contentType, ";")[0])), true)
			got := w.send(e.S)
			bad := func(err error) {
				g.T.Helper()
				g.T.Fatalf("%v\n%s\nresponse: %s\nerrors: %v", err, w.describe(), got, got.Errs)
			}
			j, err := ParseJSON(got.Raw)
			if err != nil {
				bad(err)
			}
			answers := []*J{j}
			if batch {
				if j.Kind != JList || len(j.L) != count {
					bad(fmt.Errorf("expected a list of %d answers", count))
				}
				answers = j.L
			}
			errs, calls := got.Errs, got.Calls
			for i, m := range msgs {
				if m.bad {
					if len(errs) == 0 {
						bad(fmt.Errorf("no error for message %d (%s)", i, m.why))
					}
					part := &Resp{Raw: []byte(answers[i].String()), Errs: errs[:1]}
					errs = errs[1:]
					err := part.envelope(yarql.ResolveOptions{})
					if err == nil && len(part.J.Get("data").Keys) > 0 {
						err = errors.New("the data is not empty")
					}
					if err != nil {
						bad(fmt.Errorf("message %d (%s): %w", i, m.why, err))
					}
					continue
				}
				want := resolve(direct, m.query, m.opts)
				if len(errs) < len(want.Errs) || len(calls) < len(want.Calls) {
					bad(fmt.Errorf("message %d: %d errors and %d calls left, directly there are %d and %d: %s", i, len(errs), len(calls), len(want.Errs), len(want.Calls), want))
				}
				part := &Resp{Raw: []byte(answers[i].String()), Errs: errs[:len(want.Errs)], Calls: calls[:len(want.Calls)]}
				errs, calls = errs[len(want.Errs):], calls[len(want.Calls):]
				if err := sameResp(want, part, m.opts); err != nil {
					bad(fmt.Errorf("message %d: %w\ndirectly: %s", i, err, want))
				}
			}
			if len(errs) > 0 || len(calls) > 0 {
				bad(fmt.Errorf("errors %v and calls %v of no message", errs, calls))
			}
		}
	})
}

// sameResp compares responses: their JSON values, errors and calls
func sameResp(want, got *Resp, o yarql.ResolveOptions) error {
	norm := func(r *Resp) (string, error) {
		j, err := ParseJSON(r.Raw)
		if err != nil {
			return "", fmt.Errorf("%w: %s", err, r)
		}
		n := &Resp{Raw: []byte(j.String()), Errs: r.Errs}
		return n.timeless(o)
	}
	w, err := norm(want)
	if err != nil {
		return err
	}
	h, err := norm(got)
	if err != nil {
		return err
	}
	if w != h {
		return fmt.Errorf("the response is not that of direct resolution:\n%s\ndirectly:\n%s", clip(h, 5000), clip(w, 5000))
	}
	return sameList("call", project(want.Calls, anyCall, callText, false), project(got.Calls, anyCall, callText, false))
}

// requestOptions makes options for HandleRequest, and the same for Resolve
func (g G) requestOptions() (*yarql.RequestOptions, yarql.ResolveOptions) {
	o := yarql.ResolveOptions{}
	if g.N(4) == 0 {
		return nil, o
	}
	opts := &yarql.RequestOptions{}
	if g.N(3) == 2 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if g.N(2) == 1 {
			ctx = context.Background()
		}
		opts.Context, o.Context = ctx, ctx
	}
	if g.N(3) == 2 {
		opts.Values = map[string]interface{}{"a": 1}
		o.Values = &map[string]interface{}{"a": 1}
	}
	if g.N(2) == 1 {
		file := &multipart.FileHeader{Filename: "file f1"}
		opts.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			if key == "f1" {
				return file, nil
			}
			return nil, errors.New("no file " + key)
		}
		o.GetFormFile = opts.GetFormFile
	}
	opts.Tracing = g.N(4) == 3
	o.Tracing = opts.Tracing
	return opts, o
}

// brokenBody sends a body that is no JSON
func (g G) brokenBody(st *Stats, e *Env, opts *yarql.RequestOptions, decoy map[string]string) {
	text := []string{"", "{", "[", `{"query":"{__typename}"`, `[{"query":"{__typename}"}`, `[{"query":"{__typename}"},]`, `{"query":"{__typename}",}`, `{"query":"{__typename}"}}`, `{query:"{__typename}"}`, `{"query":'{__typename}'}`, "query{__typename}", `{"query":"{__typename}`, "]", "[}"}[g.N(14)]
	w := g.body(text, opts, decoy)
	if g.N(4) == 3 {
		w.form = map[string]string{}
	}
	st.Case(false, text)
	st.Class("broken body", true)
	got := w.send(e.S)
	err := got.envelope(yarql.ResolveOptions{})
	if err == nil {
		switch {
		case len(got.Errs) != 1:
			err = fmt.Errorf("expected one error, got %v", got.Errs)
		case len(got.J.Get("data").Keys) > 0:
			err = errors.New("the data is not empty")
		case len(got.Calls) > 0:
			err = fmt.Errorf("something was called: %v", got.Calls)
		case len(w.form) == 0 && strings.Contains(strings.ToLower(w.contentType), "multipart") && got.Errs[0].Error() != w.formErr.Error():
			err = fmt.Errorf("the error is not that of the form: %v", got.Errs)
		}
	}
	if err != nil {
		g.T.Fatalf("%v\n%s\nresponse: %s\nerrors: %v", err, w.describe(), got, got.Errs)
	}
}
