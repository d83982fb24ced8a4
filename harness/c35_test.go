package harness

import (
	"errors"
	"fmt"
	"mime/multipart"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

// MemQuery takes an argument of every kind
type MemQuery struct{ Tag int32 }

type memIn struct {
	Text string
	Nr   int
	In   *memIn
}

func (MemQuery) ResolveAll(ctx *yarql.Ctx, args struct {
	S, D string
	I    string `gq:",id"`
	F    *multipart.FileHeader
	T    *time.Time
	L    []string
	O    *memIn
	N    *int64
	X    *float64
}) (string, error) {
	ctx.SetValue("last", args.S)
	if args.N != nil && *args.N%3 == 0 {
		return "", errors.New("failed " + args.S)
	}
	return args.S + args.I, nil
}

func (MemQuery) ResolveDeep() *MemQuery { return &MemQuery{} }

// heap is the number of bytes in use
func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// traffic makes requests that differ in something
type traffic struct {
	names []string
	send  []func(i int) (length, size int)
}

func (g G) traffic(e *Env, s, mem *yarql.Schema, valid []*Request) *traffic {
	t := &traffic{}
	add := func(name string, send func(i int) (int, int)) {
		t.names = append(t.names, name)
		t.send = append(t.send, send)
	}
	do := func(s *yarql.Schema, q string, o yarql.ResolveOptions) (int, int) {
		s.Resolve([]byte(q), o)
		return len(q), len(s.Result)
	}
	pad := strings.Repeat(" ", []int{0, 0, 300, 400}[g.N(4)])
	lengths := []int{1, 1, 3, 150, 1000, 3000}[g.N(6)]
	for n := 1 + g.N(3); n > 0; n-- {
		traced, batch, values := g.N(4) == 2, g.N(3) == 1, g.N(3) == 1
		base := func(i int) (string, yarql.ResolveOptions) {
			o := yarql.ResolveOptions{Tracing: traced}
			if values {
				o.Values = &map[string]interface{}{"k" + strconv.Itoa(i): i}
			}
			return pad + strings.Repeat("\n", i%lengths), o
		}
		switch (g.N(10) + g.N(10)) % 10 {
		case 0, 1:
			st := g.step(e, valid)
			if len(st.Query) > 3000 {
				st = &Step{Query: valid[0].Query, Opts: valid[0].Opts}
			}
			add("comment: "+clip(st.describe(), 3000), func(i int) (int, int) {
				b, _ := base(i)
				return do(s, st.Query+fmt.Sprintf("\n#%07d", i)+b, st.Opts)
			})
		case 2:
			root := e.M.Query.Name
			add("names", func(i int) (int, int) {
				b, o := base(i)
				o.OperatorTarget = fmt.Sprintf("Op%07d", i)
				o.Variables = fmt.Sprintf(`{"v%07d":"x","w%07d":[1]}`, i, i)
				return do(s, fmt.Sprintf("query Op%07d($v%07d:String=\"d%07d\"){k%07d:__typename ...F%07d}fragment F%07d on %s{x%07d:__typename}", i, i, i, i, i, i, root, i)+b, o)
			})
		case 3:
			r := valid[g.N(len(valid))]
			add("operations: "+clip(r.Query, 2000), func(i int) (int, int) {
				b, o := base(i)
				v := o
				o = r.Opts
				o.Tracing, o.Values = v.Tracing, v.Values
				if i%2 == 1 {
					o.OperatorTarget = fmt.Sprintf("Op%07d", i)
				}
				return do(s, fmt.Sprintf("query Op%07d{__typename}\n", i)+r.Query+b, o)
			})
		case 4:
			// one document, always another operation name
			r := valid[g.N(len(valid))]
			add("targets: "+clip(r.Query, 2000), func(i int) (int, int) {
				b, o := base(i)
				o.OperatorTarget = fmt.Sprintf("Op%07d", i)
				return do(s, r.Query+b, o)
			})
		case 5:
			kinds := perm8(g)[:1+g.N(3)]
			add(fmt.Sprint("mistakes: ", kinds), func(i int) (int, int) {
				b, o := base(i)
				q := []string{"{u%07d}", "{__typename @d%07d}", "{...f%07d}", "{__typename(a%07d:1)}", "{__type(name:\"T%07d\"){name}}", "{a(", "mutation A%07d{x}", "{ ...on T%07d{a}}"}[kinds[i/3%len(kinds)]]
				if strings.Contains(q, "%") {
					q = fmt.Sprintf(q, i)
				}
				return do(s, q+b, o)
			})
		case 6, 7:
			lit := g.N(2) == 0
			add("arguments, literal "+strconv.FormatBool(lit), func(i int) (int, int) {
				b, o := base(i)
				o.GetFormFile = func(key string) (*multipart.FileHeader, error) {
					return &multipart.FileHeader{Filename: key}, nil
				}
				vals := []string{"s", fmt.Sprintf(`"s%07d"`, i), "d", fmt.Sprintf(`"\u%04x"`, 32+i%0xd000), "i", fmt.Sprintf(`"i%07d"`, i), "f", fmt.Sprintf(`"f%07d"`, i), "t", fmt.Sprintf(`"2021-01-02T03:04:05.%03dZ"`, i%1000), "l", fmt.Sprintf(`["l%07d"]`, i), "n", strconv.Itoa(1000000 + i), "x", strconv.Itoa(i) + ".5"}
				types := []string{"String", "String", "ID", "File", "Time", "[String]", "Int", "Float"}
				q, args, vars := "", []string{}, []string{}
				for k := 0; k < len(vals); k += 2 {
					v := vals[k+1]
					if !lit {
						q += "$" + vals[k] + ":" + types[k/2] + " "
						vars = append(vars, `"`+vals[k]+`":`+v)
						v = "$" + vals[k]
					}
					args = append(args, vals[k]+":"+v)
				}
				if !lit {
					o.Variables = "{" + strings.Join(vars, ",") + "}"
					q = "(" + q + ")"
				}
				return do(mem, "query"+q+"{deep{all("+strings.Join(args, ",")+fmt.Sprintf(",o:{text:\"o%07d\"})}}", i)+b, o)
			})
		case 8:
			r := valid[g.N(len(valid))]
			add("transport: "+clip(r.Query, 2000), func(i int) (int, int) {
				b, _ := base(i)
				text := `{"query":` + jsonQuote(r.Query+fmt.Sprintf("\n#%07d", i)+b) + fmt.Sprintf(`,"extra":"%07d"}`, i)
				if batch {
					text = "[" + text + "," + text + "]"
				}
				res, _ := s.HandleRequest("POST", func(string) string { return "" }, func(string) (string, error) { return text, nil }, func() []byte { return []byte(text) },
					[]string{"application/json", "multipart/form-data; boundary=" + strconv.Itoa(i)}[i%2], &yarql.RequestOptions{Tracing: traced})
				return len(text), len(res)
			})
		default:
			r := valid[g.N(len(valid))]
			add("copies: "+clip(r.Query, 2000), func(i int) (int, int) {
				c := s.Copy()
				c.Resolve([]byte(r.Query), r.Opts)
				return len(r.Query), 60000
			})
		}
	}
	return t
}

func perm8(g G) []int {
	l := []int{0, 1, 2, 3, 4, 5, 6, 7}
	perm(g, l)
	return l
}

func TestC35(t *testing.T) {
	check(t, "a case is a server that answers up to 3000 requests of one to three kinds which all differ in something (text, names, operation, arguments, files, mistakes, transport, copies of the schema), then three times as many of them again: the heap in use after garbage collection must not go on growing; non-trivial: at least 1000 requests were answered after the first round", func(g G, st *Stats) {
		f := g.Filler(8)
		f.ErrPct = 25
		model := g.NewModel()
		in := model.M.AddIntro()
		e, valid := g.batch(model, f, 3, QOpts{Intro: in, Budget: 6})
		mem := yarql.NewSchema()
		if err := mem.Parse(MemQuery{}, SmallMutation{}, nil); err != nil {
			g.T.Fatal(err)
		}
		minLen := []int{300, 300, 0, 20, 1 << 30}[g.N(5)]
		for _, s := range []*yarql.Schema{e.S, mem} {
			if minLen != 300 {
				s.SetCacheRules(&minLen)
			}
		}
		tr := g.traffic(e, e.S, mem, valid)
		nr, longest, total := 0, 0, 0
		round := func(n int) {
			for ; n > 0; n-- {
				l, size := tr.send[nr%len(tr.send)](nr)
				longest = max(longest, l)
				total += l + size
				nr++
			}
		}
		guard(func() string { return strings.Join(tr.names, "\n") }, func() {
			round(30)
			n := max(min(3000, 8000000/(total/30+1)), 60)
			round(n)
			allow := int64(100000)
			if longest > minLen {
				// what comes and goes in the cache
				allow += int64(150 * (8*longest + 300))
			}
			before, grown := heap(), []int64{}
			for {
				round(3 * n)
				now := heap()
				grown = append(grown, now-before)
				if now-before <= allow {
					break
				}
				if len(grown) == 5 || len(grown) == 2 && min(grown[0], grown[1]) > 5*allow {
					g.T.Fatalf("each time %d more requests were answered the memory in use changed by %d bytes, it must stop growing by more than %d\nminimal length for the cache: %d\nrequests: %s\nschema: %s", 3*n, grown, allow, minLen, strings.Join(tr.names, "\n"), describeType(e.Q.Type()))
				}
				before = now
			}
			st.Case(n > 333, strings.Join(tr.names, "\n")+fmt.Sprint(minLen))
			st.Class("requests above 10000", nr > 10000)
			st.Class("cache in use", longest > minLen)
			for _, n := range tr.names {
				st.Class(strings.SplitN(n, ":", 2)[0], true)
			}
			if testing.Verbose() {
				grow := "growth"
				for l := int64(1 << 10); l < grown[len(grown)-1]; l *= 4 {
					grow = fmt.Sprintf("growth > %d", l)
				}
				st.Class(grow, true)
				st.Class("rounds "+strconv.Itoa(len(grown)), true)
			}
		})
		runtime.KeepAlive(mem)
	})
}
