package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mjarkk/yarql"
)

// CtxNode has resolvers that use the context and the values of the request
type CtxNode struct {
	Tag  int32 `gq:"-"`
	V    int
	Sub  *CtxNode
	Subs []CtxNode
	Fn   func() string
}

type ctxID struct{}
type ctxCancel struct{}

func reqContext(ctx *yarql.Ctx) context.Context {
	if rec.Ref {
		return rec.Context
	}
	return ctx.GetContext()
}

func (n CtxNode) ResolveSet(ctx *yarql.Ctx, args struct {
	Key string
	Val int
}) int {
	logCall(ctx, "set"+tagStr(n.Tag), args)
	if rec.Ref {
		rec.Values[args.Key] = args.Val
	} else {
		ctx.SetValue(args.Key, args.Val)
	}
	return args.Val
}

// ResolveEmpty sets a value to nil or to a nil pointer
func (n CtxNode) ResolveEmpty(ctx *yarql.Ctx, args struct {
	Key string
	Ptr bool
}) bool {
	logCall(ctx, "empty"+tagStr(n.Tag), args)
	var v interface{}
	if args.Ptr {
		v = (*int)(nil)
	}
	if rec.Ref {
		rec.Values[args.Key] = v
	} else {
		ctx.SetValue(args.Key, v)
	}
	return args.Ptr
}

func (n CtxNode) ResolveGet(ctx *yarql.Ctx, args struct{ Key string }) *int {
	logCall(ctx, "get"+tagStr(n.Tag), args)
	var v interface{}
	if rec.Ref {
		v = rec.Values[args.Key]
	} else {
		v = ctx.GetValue(args.Key)
	}
	if i, ok := v.(int); ok {
		return &i
	}
	if _, ok := v.(*int); v != nil && !ok {
		panic(fmt.Sprint(v))
	}
	return nil
}

func (n CtxNode) ResolveHas(args struct{ Key string }, ctx *yarql.Ctx) (string, error) {
	logCall(ctx, "has"+tagStr(n.Tag), args)
	var v interface{}
	var ok bool
	if rec.Ref {
		v, ok = rec.Values[args.Key]
	} else {
		v, ok = ctx.GetValueOk(args.Key)
	}
	if !ok {
		return "", errors.New("no value for " + args.Key)
	}
	return fmt.Sprint(v), nil
}

func (n CtxNode) ResolveWho(ctx *yarql.Ctx) string {
	logCall(ctx, "who"+tagStr(n.Tag))
	c := reqContext(ctx)
	if c == nil {
		return "no context"
	}
	return fmt.Sprint(c.Value(ctxID{}), c.Err())
}

func (n CtxNode) ResolveCancel(ctx *yarql.Ctx) (*CtxNode, error) {
	logCall(ctx, "cancel"+tagStr(n.Tag))
	if c := reqContext(ctx); c != nil {
		if f, ok := c.Value(ctxCancel{}).(context.CancelFunc); ok {
			rec.cancelled()
			f()
		}
	}
	return n.Sub, nil
}

func (r *Recorder) cancelled() {
	if r.CancelAt == 0 {
		r.CancelAt = len(r.Calls)
	}
}

func (n CtxNode) ResolveSwap(ctx *yarql.Ctx, args struct {
	ID    *int
	Ended *bool
}) bool {
	logCall(ctx, "swap"+tagStr(n.Tag), args)
	var c context.Context
	if args.ID != nil {
		c = context.WithValue(context.Background(), ctxID{}, *args.ID)
	}
	if args.Ended != nil {
		ended, end := context.WithCancel(c)
		if *args.Ended {
			end()
		} else {
			defer end()
		}
		c = ended
	}
	if rec.Ref {
		rec.Context = c
	} else {
		ctx.SetContext(c)
	}
	return true
}

func (n CtxNode) ResolveBoom(ctx *yarql.Ctx) int {
	logCall(ctx, "boom"+tagStr(n.Tag))
	panic(panicText)
}

func (n CtxNode) ResolveNode(ctx *yarql.Ctx) (CtxNode, error) {
	logCall(ctx, "node"+tagStr(n.Tag))
	if n.Tag%3 == 2 {
		return n, errors.New("an error")
	}
	return n, nil
}

func (n CtxNode) ResolveNodes() []CtxNode {
	logCall(nil, "nodes"+tagStr(n.Tag))
	return n.Subs
}

var ctxDir = yarql.Directive{
	Name:  "see",
	Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
	Method: func(ctx *yarql.Ctx, args struct {
		Key string
		Set *int
	}) yarql.DirectiveModifier {
		var v interface{}
		id := "no context"
		if c := reqContext(ctx); c != nil {
			id = fmt.Sprint(c.Value(ctxID{}))
		}
		if rec.Ref {
			v = rec.Values[args.Key]
			if args.Set != nil {
				rec.Values[args.Key] = *args.Set
			}
		} else {
			v = ctx.GetValue(args.Key)
			if args.Set != nil {
				ctx.SetValue(args.Key, *args.Set)
			}
		}
		logCall(nil, fmt.Sprintf("@see %s %v %s", args.Key, v, id))
		return yarql.DirectiveModifier{}
	},
}

type failedCtx struct{ context.Context }

func (failedCtx) Err() error { return errors.New("a failed context") }

func (failedCtx) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}

type ctxGen struct {
	G
	cancel, boom bool // allowed in this request
	ends         bool // contexts put in place end at once
	nkey, left   int
	ops          int
}

func (c *ctxGen) key() *KV {
	return &KV{Name: "key", V: &Value{K: VString, S: pick(c.G, []string{"a", "a", "b", "", "ü", "long key with spaces"})}}
}

func (c *ctxGen) int() *Value { return &Value{K: VInt, S: strconv.Itoa(c.N(100))} }

func (c *ctxGen) sel(depth int) (res []*Sel) {
	for n := 1 + c.N(5); n > 0; n-- {
		c.left--
		c.nkey++
		s := &Sel{K: SField, Alias: "k" + strconv.Itoa(c.nkey)}
		op := c.N(16)
		if c.left < 0 || depth >= 3 {
			op %= 9
		}
		switch op {
		case 0:
			s.Name = "v"
		case 1, 2:
			s.Name, s.Args = "set", []*KV{c.key(), {Name: "val", V: c.int()}}
		case 3, 4:
			s.Name, s.Args = "get", []*KV{c.key()}
		case 5:
			s.Name, s.Args = "has", []*KV{c.key()}
		case 6:
			s.Name = "who"
		case 7:
			s.Name = "fn"
			if c.N(2) == 1 {
				s.Name, s.Args = "empty", []*KV{c.key(), {Name: "ptr", V: &Value{K: VBool, B: c.N(2) == 1}}}
			}
		case 8:
			s.Name = "who"
			if c.N(3) == 2 {
				if c.cancel {
					s.Name, s.Sel = "cancel", []*Sel{{K: SField, Name: "v"}}
				} else if c.boom && c.N(2) == 0 {
					s.Name = "boom"
				} else {
					s.Name, s.Args = "swap", []*KV{{Name: "ID", V: c.int()}}
					if c.ends {
						s.Args = append(s.Args, &KV{Name: "ended", V: &Value{K: VBool, B: c.N(2) == 1}})
					} else if c.N(4) == 3 {
						s.Args[0].V = &Value{K: VNull}
					}
				}
			}
		case 9, 10:
			s.Name, s.Sel = "sub", c.sel(depth+1)
		case 11:
			s.Name, s.Sel = "subs", c.sel(depth+1)
		case 12:
			s.Name, s.Sel = "node", c.sel(depth+1)
		case 13:
			s.Name, s.Sel = "nodes", c.sel(depth+1)
		case 14:
			s = &Sel{K: SInline, On: "CtxNode", Sel: c.sel(depth + 1)}
		default:
			s.Name, s.Sel = "sub", c.sel(depth+1)
			if c.cancel {
				s.Name = "cancel"
			}
		}
		s.HasSel = len(s.Sel) > 0
		c.ops++
		if c.N(5) == 4 {
			d := &DirUse{Name: "see", Args: []*KV{c.key()}}
			if c.N(2) == 1 {
				d.Args = append(d.Args, &KV{Name: "set", V: c.int()})
			}
			s.Dirs = []*DirUse{d}
		}
		res = append(res, s)
	}
	return
}

// context makes the same context twice
func (g G) context(id int) (kind string, make2 func() context.Context, cancel bool) {
	base := context.WithValue(context.Background(), ctxID{}, id)
	switch g.N(9) {
	case 0, 1:
		return "none", func() context.Context { return nil }, false
	case 2, 3:
		return "plain", func() context.Context { return base }, false
	case 4:
		return "cancelled before", func() context.Context {
			c, f := context.WithCancel(base)
			f()
			return c
		}, true
	case 5:
		return "deadline passed", func() context.Context {
			c, f := context.WithDeadline(base, time.Unix(0, 0))
			_ = f
			return c
		}, true
	case 6:
		return "failed", func() context.Context { return failedCtx{base} }, true
	}
	return "cancellable", func() context.Context {
		c, f := context.WithCancel(base)
		return context.WithValue(c, ctxCancel{}, f)
	}, true
}

func TestC29(t *testing.T) {
	check(t, "a case is one request in a history on a schema and its copies, each with a context and values of its own; resolvers and directives read and set values, look at, cancel or replace the context, or panic; the expected answer is that of a reference executor with values and context of its own; nontrivial = values are read and set, or the context is cancelled; distinct by request and context", func(g G, st *Stats) {
		reg := &Registry{Dirs: append(zooDirectives(), &Dir{D: ctxDir})}
		m, err := BuildModel(reg, rt[CtxNode](), rt[EmptyMutation]())
		if err != nil {
			panic(err)
		}
		tag := int32(0)
		var node func(depth int) *CtxNode
		node = func(depth int) *CtxNode {
			tag++
			n := &CtxNode{Tag: tag, V: g.N(50)}
			my := tag
			if g.N(5) < 4 {
				n.Fn = func() string { logCall(nil, "fn"+tagStr(my)); return "f" + tagStr(my) }
			}
			if depth < 3 && g.N(5) < 4 {
				n.Sub = node(depth + 1)
			}
			for i := g.N(3); i > 0 && depth < 3; i-- {
				n.Subs = append(n.Subs, *node(depth + 1))
			}
			if depth == 1 && g.N(40) == 23 {
				for i := 0; i < 260; i++ {
					tag++
					n.Subs = append(n.Subs, CtxNode{Tag: tag, V: i})
				}
			}
			return n
		}
		e := &Env{Reg: reg, M: m, Q: reflect.ValueOf(*node(0)), Mut: reflect.Zero(rt[EmptyMutation]())}
		schemas := []*yarql.Schema{e.Build(nil)}
		history := []string{}
		shared := &yarql.RequestOptions{}
		for n := 2 + g.N(6); n > 0; n-- {
			if g.N(6) == 5 {
				schemas = append(schemas, pick(g, schemas).Copy())
			}
			si := g.N(len(schemas))
			s := schemas[si]
			id := 100 + n
			kind, newCtx, cancel := g.context(id)
			cg := &ctxGen{G: g, cancel: cancel, boom: !cancel, left: 14}
			cg.ends = !cancel && g.N(3) == 2
			cg.boom = cg.boom && !cg.ends
			op := &Op{Kind: "query", Sel: cg.sel(0)}
			r := &Request{Op: op, Doc: &Doc{Defs: []*Def{{Op: op}}}}
			r.Query = r.Doc.Print(nil)

			var values map[string]interface{}
			vkind := []string{"none", "none", "empty", "some", "nil map"}[g.N(5)]
			newValues := func() map[string]interface{} {
				switch vkind {
				case "none", "nil map":
					return nil
				case "empty":
					return map[string]interface{}{}
				}
				return map[string]interface{}{"a": id, "ü": -id}
			}
			values = newValues()

			x := NewExec(m, r.Doc, r.Op)
			x.Values = newValues()
			if x.Values == nil {
				x.Values = map[string]interface{}{}
			}
			boom := false
			func() {
				defer func() {
					if p := recover(); p != nil {
						if p != panicText {
							panic(p)
						}
						boom = true
					}
				}()
				x.Context = newCtx()
				x.CtxErr = func() error {
					if x.Rec.Context == nil {
						return nil
					}
					err := x.Rec.Context.Err()
					if err != nil {
						x.Rec.cancelled()
					}
					return err
				}
				x.Run(e.Q)
			}()
			rec = nil

			what := fmt.Sprintf("schema %d, context %s (%d), values %s: %s", si, kind, id, vkind, r.Query)
			history = append(history, what)
			st.Class("context "+kind, true)
			st.Class("values "+vkind, true)
			st.Class("panic", boom)
			st.Class("copy", si > 0)
			st.Class("cancelled by a resolver", kind == "cancellable" && x.Rec.CancelAt > 0)
			used := strings.Contains(r.Query, "get(") && strings.Contains(r.Query, "set(")
			st.Class("values read and set", used)
			st.Class("replaced by a context that ends", cg.ends && x.Rec.CancelAt > 0)
			st.Case(used || x.Rec.CancelAt > 0, what)

			resp, panicked := &Resp{}, false
			wired := g.N(3) == 2
			guard(func() string { return strings.Join(history, "\n") }, func() {
				var calls *Recorder
				func() {
					defer func() {
						calls = rec
						rec = nil
						if p := recover(); p != nil {
							if p != panicText {
								panic(p)
							}
							panicked = true
						}
					}()
					rec = &Recorder{}
					if wired {
						var raw []byte
						opts := &yarql.RequestOptions{Context: newCtx(), Values: values}
						if vkind == "none" {
							// options without values can be used for any number of requests
							opts = shared
							opts.Context = newCtx()
						}
						raw, resp.Errs = s.HandleRequest("POST", nil, nil, func() []byte { return []byte(`{"query":` + jsonQuote(r.Query) + `}`) }, "application/json", opts)
						resp.Raw = append([]byte{}, raw...)
						return
					}
					o := yarql.ResolveOptions{Context: newCtx()}
					if vkind != "none" {
						o.Values = &values
					}
					resp.Errs = s.Resolve([]byte(r.Query), o)
					resp.Raw = append([]byte{}, s.Result...)
				}()
				resp.Calls = calls.Calls
			})
			fail := func(err error) {
				g.T.Helper()
				g.T.Fatalf("%v\n%s\nresponse: %s\nerrors: %v\nexpected: %s\nexpected errors: %v", err, strings.Join(history, "\n"), resp, resp.Errs, x.Data, x.Errs)
			}
			if panicked != boom {
				fail(fmt.Errorf("panic of a resolver: %v, expected %v", panicked, boom))
			}
			if x.Rec.CancelAt > 0 {
				// what follows may run or not
				x.Rec.Calls = x.Rec.Calls[:x.Rec.CancelAt]
				resp.Calls = resp.Calls[:min(len(resp.Calls), x.Rec.CancelAt)]
			}
			if err := sameList("call", project(x.Rec.Calls, anyCall, callText, false), project(resp.Calls, anyCall, callText, false)); err != nil {
				fail(err)
			}
			if values != nil && x.Rec.CancelAt == 0 && fmt.Sprint(values) != fmt.Sprint(x.Rec.Values) {
				fail(fmt.Errorf("the values given with the request became %v, expected %v", values, x.Rec.Values))
			}
			if boom {
				continue
			}
			if err := resp.envelope(r.Opts); err != nil {
				fail(err)
			}
			if err := x.Data.Match(resp.J.Get("data"), "data"); err != nil {
				fail(err)
			}
			paths := func(l []string) []string {
				sort.Strings(l)
				res := []string{}
				for i, p := range l {
					if i == 0 || l[i-1] != p {
						res = append(res, p)
					}
				}
				return res
			}
			got := []string{}
			for _, e := range resp.J.Get("errors").list() {
				got = append(got, errPath(e))
			}
			if err := sameList("path with an error", paths(errPaths(x.Errs)), paths(got)); err != nil {
				fail(err)
			}
		}
	})
}
