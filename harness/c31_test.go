package harness

import (
	"errors"
	"fmt"
	"mime/multipart"
	"sort"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

var fileNames = []string{"file", "File", "file2", "", "a.b[0]", "0", "null", "f\"q", "ünï", "line\nbreak", "\\", " ", "variables", "operations", strings.Repeat("x", 300)}

// form is a request's form files, it remembers what was asked for
type form struct {
	files map[string]*multipart.FileHeader
	errs  map[string]error
	asked []string
}

func (f *form) get(name string) (*multipart.FileHeader, error) {
	f.asked = append(f.asked, string(append([]byte{}, name...)))
	if err := f.errs[strings.Clone(name)]; err != nil {
		return f.files[strings.Clone(name)], err
	}
	if h, ok := f.files[name]; ok {
		return h, nil
	}
	return nil, fmt.Errorf("no such file: %q", name)
}

func distinct(l []string) (res []string) {
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			res = append(res, fmt.Sprintf("%q", s))
		}
	}
	sort.Strings(res)
	return
}

// within tells if every entry of l is an entry of of, as often
func subset(what string, l, of []string) error {
	n := map[string]int{}
	for _, s := range of {
		n[s]++
	}
	for _, s := range l {
		if n[s]--; n[s] < 0 {
			return fmt.Errorf("%s: unexpected %s", what, clip(s, 800))
		}
	}
	return nil
}

// usesFile tells if a file is looked up for the arguments
func usesFile(t *In, depth int) bool {
	switch t.K {
	case IFile:
		return true
	case IPtr, IList:
		return usesFile(t.Elem, depth)
	case IStruct:
		for _, f := range t.S.Fields {
			if depth < 4 && usesFile(f.T, depth+1) {
				return true
			}
		}
	}
	return false
}

func TestC31(t *testing.T) {
	check(t, "a case is a request with file arguments (literals, variables, defaults, in lists and input objects) with form files of which some can't be had, or without form files, through Resolve and HandleRequest; non-trivial: a file is looked up", func(g G, st *Stats) {
		var e *Env
		if g.N(10) == 9 {
			e = newModel(rt[ZooQuery](), rt[ZooMutation]())
		} else {
			d := &DynGen{G: g, Left: 6, FnHeavy: true, Files: true}
			e = newModel(d.Struct(0), rt[SmallMutation]())
		}
		f := g.Filler(12)
		f.Simple, f.NoErrs = true, true
		names := []string{}
		for n := 1 + g.N(4); n > 0; n-- {
			names = append(names, fileNames[g.N(len(fileNames))])
		}
		_, reqs := g.batch(e, f, 3, QOpts{ArgHeavy: true, VarHeavy: g.N(2) == 1, Files: names, MaxDepth: 3, Budget: 8})
		s := e.S
		if g.N(4) == 3 {
			s = e.S.Copy()
		}
		for _, r := range reqs {
			forms := []*form{}
			clear(formFiles)
			files, errs := map[string]*multipart.FileHeader{}, map[string]error{}
			errPct := []int{0, 0, 20, 60}[g.N(4)]
			for i, n := range names {
				switch {
				case g.P(errPct):
					errs[n] = errors.New([]string{"http: no such file", "", "broken \"form\"\n", "ünï"}[g.N(4)])
					if g.N(3) == 2 {
						// a file comes with the error
						files[n] = &multipart.FileHeader{Filename: "broken"}
						formFiles[files[n]] = true
					}
				case g.N(12) == 11:
					files[n] = nil
				default:
					files[n] = &multipart.FileHeader{Filename: fmt.Sprintf("content of %d", i), Size: int64(i)}
					formFiles[files[n]] = true
				}
			}
			none := g.N(8) == 7
			for i := 0; i < 3; i++ {
				forms = append(forms, &form{files: files, errs: errs})
			}
			run := func(nr int, goOn bool) *Exec {
				x := NewExec(e.M, r.Doc, r.Op)
				if !none {
					x.Files = forms[nr].get
				}
				x.Continue = goOn
				x.Run(e.Root(r.Op.Kind))
				return x
			}
			x, hi := run(0, false), run(1, true)
			o := r.Opts
			var resp *Resp
			opts := &yarql.RequestOptions{}
			if !none {
				o.GetFormFile, opts.GetFormFile = forms[2].get, forms[2].get
			}
			if g.N(3) == 2 && onWire(r.Query, o) {
				w := &wire{opts: opts, formErr: errors.New("no such field")}
				if g.N(3) == 2 {
					w.method = "GET"
					w.url = map[string]string{"query": r.Query, "variables": o.Variables, "operationName": o.OperatorTarget}
				} else {
					m := g.message(r.Query, o)
					for m.bad {
						m = g.message(r.Query, o)
					}
					w = g.body(m.text, opts, map[string]string{})
				}
				resp = w.send(s)
				st.Class("http", true)
			} else {
				resp = resolve(s, r.Query, o)
			}
			asked := forms[2].asked
			fail := func(err error) {
				g.fatal(err, e, r, resp, fmt.Sprintf("form files: %v, files %v, errors %v, asked for %q", !none, files, errs, asked), "expected data: "+x.Data.String(), fmt.Sprint("expected errors: ", x.Errs))
			}
			if err := resp.envelope(yarql.ResolveOptions{}); err != nil {
				fail(err)
			}
			var err error
			if !x.Critical {
				if err = sameList("resolver call", project(x.Rec.Calls, anyCall, callArgs, true), project(resp.Calls, anyCall, callArgs, true)); err == nil {
					err = sameList("file asked for", distinct(forms[0].asked), distinct(asked))
				}
				if err == nil && len(resp.Errs) > 0 {
					err = fmt.Errorf("errors without a reason")
				}
			} else {
				if len(resp.Errs) == 0 {
					err = fmt.Errorf("no error")
				}
				// what failed is not called, what does not depend on it may be
				if err == nil {
					err = subset("resolver call", project(resp.Calls, anyCall, callArgs, true), project(hi.Rec.Calls, anyCall, callArgs, true))
				}
				if err == nil {
					err = subset("file asked for", distinct(asked), distinct(forms[1].asked))
				}
				found := none
				for _, er := range errs {
					for _, got := range resp.Errs {
						found = found || strings.Contains(got.Error(), er.Error())
					}
				}
				if err == nil && !found {
					err = fmt.Errorf("the lookup's error is not among the errors")
				}
			}
			if err != nil {
				fail(err)
			}
			looked := len(forms[1].asked) > 0
			st.Class("looked up", looked)
			st.Class("looked up > 2", len(distinct(forms[1].asked)) > 2)
			st.Class("lookup failed", x.Critical && !none)
			st.Class("no form files", x.Critical && none)
			st.Class("nothing looked up", !looked && x.Resolvers > 0)
			st.Case(looked || x.Critical, r.Key()+fmt.Sprint(none, errs))
		}
	})
}
