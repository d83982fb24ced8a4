package harness

import (
	"fmt"
	"testing"
)

func TestC06(t *testing.T) {
	check(t, schemaRule+"all arguments are literals; non-trivial: at least 3 literal values in arguments of called resolvers", func(g G, st *Stats) {
		f := g.Filler(12)
		f.Simple, f.NoErrs = true, true
		opt := QOpts{ArgHeavy: true, Arrays: true, NoVars: true, NoFrags: true, MaxDepth: 3, Budget: 8}
		if g.N(60) == 33 {
			opt.Big = []int{66000, 100000, 140000, 300000, 300, 70000, 600000, 17 << 20}[g.N(8)]
		}
		e, reqs := g.batch(g.ArgModel(), f, 4, opt)
		for _, r := range reqs {
			if g.N(3) == 2 {
				// other escapes, number forms and block strings
				r.Query = r.Doc.Print(g.Lay())
			}
			x, _ := g.must(e, r, cmp{trace: true, calls: callArgs, sorted: true})
			st.Class("documents above 64 kB", len(r.Query) > 65536)
			st.Class("documents above 16 MB", len(r.Query) > 1<<24)
			st.Class("literals > 6", r.Q.NLits > 6)
			st.Class("resolvers > 1", x.Resolvers > 1)
			st.Class("no resolver", x.Resolvers == 0)
			st.Case(x.Resolvers > 0 && r.Q.NLits > 2, r.Key())
		}
	})
}

// clone copies a document, values go through fv
func (d *Doc) clone(fv func(*Value) *Value) *Doc {
	n := &Doc{}
	for _, def := range d.Defs {
		if def.Op != nil {
			o := *def.Op
			o.Sel = cloneSels(o.Sel, fv)
			o.Vars = nil
			for _, v := range def.Op.Vars {
				c := *v
				if c.Given != nil {
					c.Given = cloneValue(c.Given, nil)
				}
				if c.Default != nil {
					c.Default = cloneValue(c.Default, nil)
				}
				o.Vars = append(o.Vars, &c)
			}
			n.Defs = append(n.Defs, &Def{Op: &o})
		} else {
			f := *def.Frag
			f.Sel = cloneSels(f.Sel, fv)
			n.Defs = append(n.Defs, &Def{Frag: &f})
		}
	}
	return n
}

func cloneSels(sels []*Sel, fv func(*Value) *Value) (res []*Sel) {
	for _, s := range sels {
		c := *s
		c.Args = cloneKVs(s.Args, fv)
		c.Dirs = nil
		for _, d := range s.Dirs {
			c.Dirs = append(c.Dirs, &DirUse{d.Name, cloneKVs(d.Args, fv)})
		}
		c.Sel = cloneSels(s.Sel, fv)
		res = append(res, &c)
	}
	return
}

func cloneKVs(kvs []*KV, fv func(*Value) *Value) (res []*KV) {
	for _, kv := range kvs {
		res = append(res, &KV{kv.Name, cloneValue(kv.V, fv)})
	}
	return
}

func cloneValue(v *Value, fv func(*Value) *Value) *Value {
	if fv != nil {
		if n := fv(v); n != nil {
			return n
		}
	}
	c := *v
	c.L = nil
	for _, e := range v.L {
		c.L = append(c.L, cloneValue(e, fv))
	}
	c.O = cloneKVs(v.O, fv)
	return &c
}

func (o *Op) variable(name string) *VarDef {
	for _, v := range o.Vars {
		if v.Name == name {
			return v
		}
	}
	return nil
}

func (v *VarDef) effective() *Value {
	if v.Given != nil {
		return v.Given
	}
	return v.Default
}

func TestC07(t *testing.T) {
	check(t, schemaRule+"each request is written in five ways: as generated, all variables replaced by literals, all values given as JSON with another default, all values as defaults, and with renamed and reordered variables; non-trivial: a variable is used and a resolver or directive called", func(g G, st *Stats) {
		f := g.Filler(12)
		f.Simple = true
		opt := QOpts{ArgHeavy: true, VarHeavy: true, MaxDepth: 3, Budget: 8}
		if g.N(60) == 33 {
			opt.Big = []int{66000, 100000, 140000, 300000, 300, 70000}[g.N(6)]
		}
		e, reqs := g.batch(g.ArgModel(), f, 2, opt)
		for _, r := range reqs {
			lit := *r
			lit.Doc = r.Doc.clone(func(v *Value) *Value {
				if v.K == VVar {
					return cloneValue(r.Op.variable(v.S).effective(), nil)
				}
				return nil
			})
			lit.Op = lit.Doc.Ops()[0]
			lit.Op.Vars = nil
			lit.Query, lit.Opts.Variables = lit.Doc.String(), ""
			x := e.Expect(&lit)
			want := resolve(e.S, lit.Query, lit.Opts)
			if x.Critical {
				panic(fmt.Sprintf("the harness made an invalid request: %v %s", x.Errs, e.Describe(&lit)))
			}
			// what a literal binds to
			if err := x.compare(want, lit.Opts, cmp{calls: callArgs, sorted: true}); err != nil {
				g.fatal(err, e, &lit, want)
			}
			variant := func(name string, change func(i int, v *VarDef), perms bool) {
				n := *r
				names := map[string]string{}
				if perms {
					for i, v := range r.Op.Vars {
						names[v.Name] = fmt.Sprintf("v%dx", i)
						if g.N(3) == 0 {
							names[v.Name] = fmt.Sprintf("v%d", len(r.Op.Vars)-i)
						}
					}
				}
				n.Doc = r.Doc.clone(func(v *Value) *Value {
					if v.K == VVar && perms {
						return &Value{K: VVar, S: names[v.S]}
					}
					return nil
				})
				n.Op = n.Doc.Ops()[0]
				for i, v := range n.Op.Vars {
					if perms {
						v.Name = names[v.Name]
					}
					change(i, v)
				}
				if perms {
					perm(g, n.Op.Vars)
				}
				lay := Layout(nil)
				if g.N(4) == 3 {
					lay = g.Lay()
				}
				n.Query, n.Opts.Variables = n.Doc.String(), n.Op.VariablesJSON(r.Q.ExtraVars(), lay)
				got := resolve(e.S, n.Query, n.Opts)
				err := sameList("call", project(want.Calls, anyCall, callArgs, false), project(got.Calls, anyCall, callArgs, false))
				if err == nil && string(want.Raw) != string(got.Raw) {
					err = fmt.Errorf("the responses differ")
				}
				if err != nil {
					g.fatal(fmt.Errorf("%s: %w", name, err), e, &n, got, "with literals: "+want.String(), describe(lit.Query, lit.Opts), fmt.Sprint(want.errList()))
				}
			}
			variant("as generated", func(i int, v *VarDef) {}, false)
			if len(r.Op.Vars) > 0 {
				variant("all in JSON, with another default", func(i int, v *VarDef) {
					if v.effective() == nil {
						return
					}
					v.Given = v.effective()
					v.Default = nil
					if g.N(2) == 1 {
						v.Default = r.Q.Val(v.T, false, 1)
					}
				}, false)
				variant("all as defaults", func(i int, v *VarDef) {
					v.Default, v.Given = v.effective(), nil
				}, false)
				variant("renamed and reordered", func(i int, v *VarDef) {}, true)
			}
			st.Class("variables > 1", len(r.Op.Vars) > 1)
			st.Class("nested variables", r.Q.NNested > 0)
			st.Class("no variable", len(r.Op.Vars) == 0)
			st.Case(r.Q.NVars > 0 && len(want.Calls) > 0, r.Key())
		}
	})
}
