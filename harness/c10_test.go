package harness

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// inlined replaces every spread without directives by the selections of the fragment, and inline fragments without
// directives by their selections when the scope can only be of a matching type
func (d *Doc) inlined(m *Model, op *Op, pickInline bool) *Doc {
	n := d.clone(nil)
	var expand func(sels []*Sel, static *Obj) []*Sel
	expand = func(sels []*Sel, static *Obj) (res []*Sel) {
		for _, s := range sels {
			switch {
			case s.K == SField:
				if s.HasSel {
					sub := static
					if static != nil {
						sub = nil
						if f := static.ByName[s.Name]; f != nil && f.Out.Composite() {
							sub = f.Out.Named().Obj
						}
					}
					if s.Sel = expand(s.Sel, sub); len(s.Sel) == 0 {
						s.Sel = []*Sel{{K: SInline, On: "Nothing", Sel: []*Sel{{K: SField, Name: "__typename"}}}}
					}
				}
				res = append(res, s)
			case s.K == SSpread && len(s.Dirs) == 0:
				f := n.Frag(s.Name)
				c := cloneSels(f.Sel, nil)
				res = append(res, expand([]*Sel{{K: SInline, On: f.On, Sel: c}}, static)...)
			case s.K == SInline && len(s.Dirs) == 0 && pickInline && static != nil && !static.Iface:
				if static.Name == s.On || static.HasIface(s.On) {
					res = append(res, expand(s.Sel, static)...)
				}
			case s.K == SInline:
				sub := static
				if static != nil && static.Iface {
					sub = m.Objs[s.On]
				}
				s.Sel = expand(s.Sel, sub)
				if len(s.Sel) > 0 {
					res = append(res, s)
				} else {
					s.Sel = []*Sel{{K: SField, Name: "__typename", Alias: "never"}}
					s.On = "Nothing"
					res = append(res, s)
				}
			default:
				res = append(res, s)
			}
		}
		return
	}
	for _, def := range n.Defs {
		if def.Op != nil {
			def.Op.Short = false
			def.Op.Sel = expand(def.Op.Sel, m.Root(def.Op.Kind))
			if len(def.Op.Sel) == 0 {
				def.Op.Sel = []*Sel{{K: SInline, On: "Nothing", Sel: []*Sel{{K: SField, Name: "__typename"}}}}
			}
		}
	}
	return n
}

func TestC10(t *testing.T) {
	check(t, schemaRule+"each request is compared with itself with spreads replaced by inline fragments, and with fragments replaced by their selections where the type is known; non-trivial: at least 2 fragments in executed selections", func(g G, st *Stats) {
		f := g.Filler(30)
		f.Simple = true
		e, reqs := g.batch(g.NewModel(), f, 2, QOpts{FragHeavy: true, Simple: true, NoDirs: g.N(4) > 0})
		for _, r := range reqs {
			x, resp := g.must(e, r, cmp{data: true})
			same := func(what string, doc *Doc) {
				n := *r
				n.Doc = doc
				n.Query = doc.String()
				got := resolve(e.S, n.Query, n.Opts)
				if string(got.Raw) != string(resp.Raw) {
					g.fatal(fmt.Errorf("%s: the response differs", what), e, &n, got, describe(r.Query, r.Opts), resp.String())
				}
				if err := sameList("call", project(resp.Calls, anyCall, callArgs, false), project(got.Calls, anyCall, callArgs, false)); err != nil {
					g.fatal(fmt.Errorf("%s: %w", what, err), e, &n, got, describe(r.Query, r.Opts))
				}
			}
			same("spreads inlined", r.Doc.inlined(e.M, r.Op, false))
			same("fragments replaced by their selections", r.Doc.inlined(e.M, r.Op, true))
			// the order of definitions does not matter
			re := r.Doc.clone(nil)
			perm(g, re.Defs)
			same("definitions reordered", re)
			// nor do unused fragments
			re = r.Doc.clone(nil)
			unused := 1 + g.N(12)
			if g.N(20) == 13 {
				unused = []int{40, 64, 100, 256, 300}[g.N(5)]
				st.Class("fragments of at least 40", true)
			}
			for n := unused; n > 0; n-- {
				name := "unused" + strconv.Itoa(n)
				if g.N(3) == 0 {
					name = "u" + fragNames[g.N(len(fragNames))] + strconv.Itoa(n)
				}
				re.Defs = append(re.Defs, &Def{Frag: &Frag{Name: name, On: e.M.Query.Name, Sel: []*Sel{{K: SField, Name: "__typename"}}}})
			}
			perm(g, re.Defs)
			same("unused fragments", re)
			st.Class("named fragments > 3", len(r.Doc.Defs) > 4)
			st.Class("spreads executed > 4", x.Spreads > 4)
			st.Class("on interfaces", len(e.M.Ifaces) > 0 && x.Spreads > 0)
			st.Case(x.Spreads > 1, r.Key())
		}
		// undefined fragments and cycles
		r := reqs[0]
		c := *r
		c.Doc = r.Doc.clone(nil)
		c.Op = c.Doc.Ops()[0]
		c.Op.Short = false
		what := ""
		if g.N(2) == 0 {
			what = "undefined"
			name := "undefinedFrag"
			if len(c.Doc.Defs) > 1 {
				for _, d := range c.Doc.Defs {
					if d.Frag != nil && len(d.Frag.Name) < 250 {
						// a name close to a defined one
						name = []string{d.Frag.Name + "x", d.Frag.Name[:len(d.Frag.Name)-1], "x" + d.Frag.Name}[g.N(3)]
					}
				}
			}
			if g.N(4) == 3 {
				// longer than what is left of the document
				name += strings.Repeat("y", []int{1, 40, 120, 250}[g.N(4)])
				if len(name) > 254 {
					name = name[:254]
				}
			}
			if name == "" || name == "on" || c.Doc.Frag(name) != nil {
				name = "undefinedFrag"
			}
			c.Op.Sel = append([]*Sel{{K: SSpread, Name: name}}, c.Op.Sel...)
		} else {
			what = "cycle"
			n := 1 + g.N(4)
			root := e.M.Root(c.Op.Kind).Name
			for i := 0; i < n; i++ {
				sel := []*Sel{{K: SSpread, Name: "cyc" + strconv.Itoa((i+1)%n)}}
				if g.N(2) == 1 {
					sel = append([]*Sel{{K: SField, Name: "__typename", Alias: "c" + strconv.Itoa(i)}}, sel...)
				}
				if g.N(3) == 2 {
					sel = []*Sel{{K: SInline, On: root, Sel: sel}}
				}
				c.Doc.Defs = append(c.Doc.Defs, &Def{Frag: &Frag{Name: "cyc" + strconv.Itoa(i), On: root, Sel: sel}})
			}
			c.Op.Sel = append(c.Op.Sel, &Sel{K: SSpread, Name: "cyc0"})
		}
		perm(g, c.Doc.Defs)
		c.Query = c.Doc.String()
		resp := resolve(e.S, c.Query, c.Opts)
		if err := resp.envelope(c.Opts); err != nil {
			g.fatal(err, e, &c, resp)
		}
		if len(resp.Errs) == 0 {
			g.fatal(fmt.Errorf("no error for a %s fragment", what), e, &c, resp)
		}
		st.Class(what, true)
		st.Case(true, c.Key())
	})
}

// withoutDirs leaves out what the directives of the executed operation skip
func (x *Exec) withoutDirs(sels []*Sel) (res []*Sel) {
	for _, s := range sels {
		locs := dirLocs[map[SelKind]int{SField: fieldLoc, SSpread: fragLoc, SInline: inlineLoc}[s.K]]
		skip, bad := x.directives(s.Dirs, locs)
		if bad {
			panic("bad directive")
		}
		if skip {
			continue
		}
		c := *s
		c.Dirs = nil
		c.Sel = x.withoutDirs(s.Sel)
		if c.K == SInline && len(c.Sel) == 0 {
			continue
		}
		if c.HasSel && len(c.Sel) == 0 {
			c.Sel = []*Sel{{K: SInline, On: "Nothing", Sel: []*Sel{{K: SField, Name: "__typename"}}}}
		}
		res = append(res, &c)
	}
	return
}

func TestC11(t *testing.T) {
	check(t, schemaRule+"requests have many directives, and are compared with the request without directives and without what they skip; non-trivial: a directive is called or something is skipped", func(g G, st *Stats) {
		f := g.Filler(20)
		f.Simple = true
		e, reqs := g.batch(g.NewModel(), f, 2, QOpts{DirHeavy: true, Simple: true})
		for _, r := range reqs {
			x, resp := g.must(e, r, cmp{calls: callArgs, keep: isDirCall})
			n := *r
			n.Doc = r.Doc.clone(nil)
			n.Op = n.Doc.Ops()[0]
			y := NewExec(e.M, n.Doc, r.Op)
			y.Rec = &Recorder{Ref: true}
			old := rec
			rec = y.Rec
			for _, def := range n.Doc.Defs {
				if def.Op != nil {
					def.Op.Short = false
					def.Op.Sel = y.withoutDirs(def.Op.Sel)
					if len(def.Op.Sel) == 0 {
						def.Op.Sel = []*Sel{{K: SInline, On: "Nothing", Sel: []*Sel{{K: SField, Name: "__typename"}}}}
					}
				} else {
					def.Frag.Sel = y.withoutDirs(def.Frag.Sel)
					if len(def.Frag.Sel) == 0 {
						def.Frag.Sel = []*Sel{{K: SInline, On: "Nothing", Sel: []*Sel{{K: SField, Name: "__typename"}}}}
					}
				}
			}
			rec = old
			n.Query = n.Doc.String()
			got := resolve(e.S, n.Query, n.Opts)
			if string(got.Raw) != string(resp.Raw) {
				g.fatal(fmt.Errorf("the response differs from that of the request without directives"), e, r, resp, describe(n.Query, n.Opts), got.String())
			}
			if err := sameList("resolver call", project(got.Calls, anyCall, callArgs, false), project(resp.Calls, notDirCall, callArgs, false)); err != nil {
				g.fatal(err, e, r, resp, describe(n.Query, n.Opts))
			}
			st.Class("skips", x.Skips > 0)
			st.Class("custom directives called", len(project(x.Rec.Calls, isDirCall, callName, false)) > 0)
			st.Class("directives > 3", r.Q.NDirs > 3)
			st.Case(x.Skips > 0 || len(project(x.Rec.Calls, isDirCall, callName, false)) > 0, r.Key())
		}
		badDirective(g, st, e, reqs[0])
		if g.N(8) == 3 {
			manyDirectives(g, st, e, reqs[0])
		}
	})
}

// manyDirectives puts a lot of directives on one field or fragment
func manyDirectives(g G, st *Stats, e *Env, r *Request) {
	c := *r
	c.Doc = r.Doc.clone(nil)
	c.Op = c.Doc.Ops()[0]
	c.Op.Short = false
	n := []int{100, 254, 255, 256, 257, 300, 511, 512, 513, 600}[g.N(10)]
	dirs := []*DirUse{}
	for i := 0; i < n; i++ {
		dirs = append(dirs, &DirUse{Name: "include", Args: []*KV{{"if", &Value{K: VBool, B: true}}}})
	}
	if g.N(2) == 1 {
		dirs[g.N(n)].Args[0].V.B = false
	}
	root := e.M.Root(c.Op.Kind).Name
	target := &Sel{K: SField, Name: "__typename", Alias: c.Doc.freeKey()}
	switch g.N(3) {
	case 1:
		target = &Sel{K: SInline, On: root, Sel: []*Sel{target}}
	case 2:
		c.Doc.Defs = append(c.Doc.Defs, &Def{Frag: &Frag{Name: "zzz", On: root, Sel: []*Sel{target}}})
		target = &Sel{K: SSpread, Name: "zzz"}
	}
	target.Dirs = dirs
	if c.Op.Kind == "query" && g.N(2) == 1 {
		manyAround(g, st, e, dirs)
	}
	c.Op.Sel = append([]*Sel{target}, c.Op.Sel...)
	c.Query = c.Doc.Print(nil)
	x := e.Expect(&c)
	resp := resolve(e.S, c.Query, c.Opts)
	st.Class("more than 255 directives", n > 255)
	st.Case(true, c.Key())
	if err := resp.envelope(c.Opts); err != nil {
		g.fatal(err, e, &c, resp)
	}
	if n > 255 && len(resp.Errs) > 0 {
		// too many
		if len(resp.Calls) > 0 || len(resp.J.Get("data").Keys) > 0 {
			g.fatal(fmt.Errorf("a document with %d directives in one place is refused, but executed", n), e, &c, resp)
		}
		return
	}
	if err := x.compare(resp, c.Opts, cmp{data: true}); err != nil {
		g.fatal(err, e, &c, resp, "expected: "+x.Data.String())
	}
}

// manyAround puts the directives on both sides of the arguments of a field
func manyAround(g G, st *Stats, e *Env, dirs []*DirUse) {
	var sb strings.Builder
	sb.WriteString("{x:__type")
	at, hidden := g.N(len(dirs)+1), false
	if g.N(2) == 1 {
		at = min([]int{1, 100, 254, 255}[g.N(4)], len(dirs))
	}
	for i, d := range dirs {
		if i == at {
			sb.WriteString("(name:\"" + e.M.Query.Name + "\")")
		}
		sb.WriteString(fmt.Sprintf("@include(if:%v)", d.Args[0].V.B))
		hidden = hidden || !d.Args[0].V.B
	}
	if at == len(dirs) {
		sb.WriteString("(name:\"" + e.M.Query.Name + "\")")
	}
	sb.WriteString("{name}}")
	resp := resolve(e.S, sb.String(), yarql.ResolveOptions{})
	if err := resp.envelope(yarql.ResolveOptions{}); err != nil {
		g.T.Fatalf("%v\n%s", err, sb.String())
	}
	got, want := string(resp.Raw), `{"data":{"x":{"name":"`+e.M.Query.Name+`"}}}`
	if hidden {
		want = `{"data":{}}`
	}
	if len(dirs) > 255 && len(resp.Errs) > 0 && len(resp.J.Get("data").Keys) == 0 {
		// too many
		return
	}
	if got != want {
		g.T.Fatalf("%d directives, %d of them in front of the arguments: got %s\nexpected %s\n%s", len(dirs), at, clip(got, 1000), want, sb.String())
	}
	st.Class("directives around arguments", true)
}

// badDirective puts a directive that is not allowed on the first field or fragment of the operation
func badDirective(g G, st *Stats, e *Env, r *Request) {
	c := *r
	c.Doc = r.Doc.clone(nil)
	c.Op = c.Doc.Ops()[0]
	c.Op.Short = false
	what := ""
	target := &Sel{K: SField, Name: "__typename", Alias: c.Doc.freeKey()}
	bad := &DirUse{Name: "unknown"}
	on := g.N(3)
	switch on {
	case 1:
		target = &Sel{K: SInline, On: e.M.Root(c.Op.Kind).Name, Sel: []*Sel{target}}
	case 2:
		c.Doc.Defs = append(c.Doc.Defs, &Def{Frag: &Frag{Name: "zzz", On: e.M.Root(c.Op.Kind).Name, Sel: []*Sel{target}}})
		target = &Sel{K: SSpread, Name: "zzz"}
	}
	place := []string{"a field", "an inline fragment", "a spread"}[on]
	switch g.N(4) {
	case 0:
		what = "unknown directive on " + place
		bad.Name = []string{"unknown", "Skip", "skip_", "ski", "note2", "not", "fieldonly", "skip_22", "includes"}[g.N(9)]
	case 1, 2:
		loc := []yarql.DirectiveLocation{fieldLoc, inlineLoc, fragLoc}[on]
		names := []string{}
		for _, d := range e.Reg.Dirs {
			if !slices.ContainsFunc(e.Reg.Dirs, func(o *Dir) bool { return o.D.Name == d.D.Name && slices.Contains(o.D.Where, loc) }) {
				names = append(names, d.D.Name)
			}
		}
		bad.Name = names[g.N(len(names))]
		what = "@" + bad.Name + " on " + place
		if g.N(2) == 1 && bad.Name != "fieldOnly" {
			bad.Args = []*KV{{"if", &Value{K: VBool, B: true}}}
		}
	case 3:
		loc := []yarql.DirectiveLocation{fieldLoc, inlineLoc, fragLoc}[on]
		uses := []*DirUse{
			{Name: "skip", Args: []*KV{{"if", &Value{K: VString, S: "true"}}}},
			{Name: "include", Args: []*KV{{"if", &Value{K: VList}}}},
			{Name: "skip", Args: []*KV{{"iff", &Value{K: VBool}}}},
			{Name: "skip", Args: []*KV{{"if", &Value{K: VBool}}, {"unless", &Value{K: VBool}}}},
			{Name: "include", Args: []*KV{{"if", &Value{K: VVar, S: "undeclared"}}}},
		}
		for _, d := range e.Reg.Dirs {
			if slices.Contains(d.D.Where, loc) {
				uses = append(uses, &DirUse{Name: d.D.Name, Args: []*KV{{"txt", &Value{K: VString}}}})
				for _, a := range d.Args {
					if v := g.wrongValue(a.T); v != nil {
						uses = append(uses, &DirUse{Name: d.D.Name, Args: []*KV{{a.Name, v}}})
					}
				}
			}
		}
		bad = uses[g.N(len(uses))]
		what = "wrong directive argument on " + place
	}
	target.Dirs = []*DirUse{bad}
	if g.N(3) == 2 {
		target.Dirs = []*DirUse{{Name: "include", Args: []*KV{{"if", &Value{K: VBool, B: true}}}}, bad}
	}
	pos := g.N(2) * len(c.Op.Sel)
	c.Op.Sel = append(append(append([]*Sel{}, c.Op.Sel[:pos]...), target), c.Op.Sel[pos:]...)
	c.Query = c.Doc.String()
	resp := resolve(e.S, c.Query, c.Opts)
	if err := resp.envelope(c.Opts); err != nil {
		g.fatal(err, e, &c, resp)
	}
	if len(resp.Errs) == 0 {
		g.fatal(fmt.Errorf("no error: %s", what), e, &c, resp)
	}
	if err := sameList("call", project(e.Expect(r).Rec.Calls, func(c Call) bool { return c.Name == "@"+bad.Name }, callArgs, true), project(resp.Calls, func(c Call) bool { return c.Name == "@"+bad.Name }, callArgs, true)); err != nil && pos == len(c.Op.Sel)-1 {
		g.fatal(fmt.Errorf("a directive that is not allowed was called: %w", err), e, &c, resp)
	}
	st.Class(what, true)
	st.Case(true, c.Key())
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

func TestC12(t *testing.T) {
	check(t, schemaRule+"documents have 2 to 6 operations with distinct names, each with its own fragments and variables; non-trivial: the named operation is one of at least 2", func(g G, st *Stats) {
		f := g.Filler(20)
		f.Simple = true
		e := g.NewModel()
		q := NewQGen(g, e.M, QOpts{Simple: true, Budget: 6, MaxDepth: 3})
		names := append([]string{}, opNames...)
		names = append(names, "ab", "abc", "ABCDEF", "query1", "q", "qu", "longName_"+strconv.Itoa(g.N(100)))
		perm(g, names)
		if g.N(5) == 2 {
			// names that are the same for long
			p := strings.Repeat("n", []int{7, 15, 31, 63, 64, 100, 127, 200, 240, 252}[g.N(10)])
			names = append([]string{p + "a", p + "b", "b" + p, "_" + p, p, p + "B"}[g.N(3):], names...)
		}
		ops := []*Op{}
		n := 1 + g.N(6)
		for i := 0; i < n; i++ {
			kind := []string{"query", "query", "mutation", "subscription"}[g.N(4)]
			name := names[i]
			if i == 0 && g.N(4) == 3 {
				name = ""
			}
			k := kind
			if k == "subscription" {
				k = "query"
			}
			op := q.Operation(k, name)
			op.Kind = kind
			if kind == "subscription" {
				op.Short = false
			}
			ops = append(ops, op)
		}
		perm(g, q.Doc.Defs)
		if g.N(60) == 33 && ops[0].Name != "" {
			// a lot of others
			many := []*Def{}
			for i := 0; i < []int{250, 256, 300, 1000}[g.N(4)]; i++ {
				kind := []string{"query", "mutation", "subscription"}[i*i/5%3]
				many = append(many, &Def{Op: &Op{Kind: kind, Name: "many" + strconv.Itoa(i), Sel: []*Sel{{K: SField, Name: "__typename"}}}})
			}
			at := g.N(len(q.Doc.Defs) + 1)
			q.Doc.Defs = append(append(append([]*Def{}, q.Doc.Defs[:at]...), many...), q.Doc.Defs[at:]...)
			st.Class("operations > 250", true)
		}
		r := &Request{Doc: q.Doc, Q: q, Op: ops[0]}
		r.Query = q.Doc.String()
		e.Data(f, r)
		type answer struct{ raw, calls string }
		for _, op := range append(ops, nil) {
			r.Op = op
			r.Opts.OperatorTarget = "unknownName"
			if op == nil {
				r.Op = ops[0]
				r.Opts.Variables = ""
				if g.N(2) == 1 {
					// close to a known name
					r.Opts.OperatorTarget = ops[n-1].Name + "x"
					last := ops[n-1].Name
					switch c := g.N(8); {
					case c < 3 && len(last) > 1:
						r.Opts.OperatorTarget = last[:len(last)-1]
					case c == 4 && last != "":
						r.Opts.OperatorTarget = last + []string{" ", "\n", "\t", ",", "\x00", "{", "#"}[g.N(7)]
					case c == 5 && last != "":
						r.Opts.OperatorTarget = []string{" ", "\n", ",", "\ufeff", "$", "query "}[g.N(6)] + last
					case c == 6:
						r.Opts.OperatorTarget = swapCase(last)
					case c == 7:
						r.Opts.OperatorTarget = []string{" ", "query", "\n"}[g.N(3)]
					}
					for _, o := range ops {
						if o.Name == r.Opts.OperatorTarget {
							r.Opts.OperatorTarget = "unknownName"
						}
					}
				}
			} else {
				if op.Name == "" {
					if n > 1 {
						continue
					}
				}
				r.Opts.OperatorTarget = op.Name
				r.Opts.Variables = op.VariablesJSON(nil, nil)
			}
			if op != nil && op.Kind != "subscription" {
				x, _ := g.must(e, r, cmp{trace: true, data: true, calls: callArgs})
				st.Class("mutation", op.Kind == "mutation")
				st.Class("calls", len(x.Rec.Calls) > 0)
				st.Case(n > 1, r.Opts.OperatorTarget+" "+r.Key())
				continue
			}
			resp := resolve(e.S, r.Query, r.Opts)
			if err := resp.envelope(r.Opts); err != nil {
				g.fatal(err, e, r, resp)
			}
			if len(resp.Errs) == 0 {
				g.fatal(fmt.Errorf("no error for an operation that is unknown or a subscription"), e, r, resp)
			}
			if len(resp.Calls) > 0 || len(resp.J.Get("data").Keys) > 0 {
				g.fatal(fmt.Errorf("something ran for an operation that is unknown or a subscription"), e, r, resp)
			}
			st.Class("refused", true)
			st.Case(true, r.Opts.OperatorTarget+" "+r.Key())
		}
		// only fragments
		only := &Doc{}
		for _, d := range q.Doc.Defs {
			if d.Frag != nil {
				only.Defs = append(only.Defs, d)
			}
		}
		r.Query = only.String()
		for _, target := range []string{"", ops[0].Name} {
			r.Opts = describeless(target)
			resp := resolve(e.S, r.Query, r.Opts)
			if err := resp.envelope(r.Opts); err != nil {
				g.fatal(err, e, r, resp)
			}
			if len(resp.Errs) == 0 || len(resp.Calls) > 0 || len(resp.J.Get("data").Keys) > 0 {
				g.fatal(fmt.Errorf("a document without operations must give an error and run nothing"), e, r, resp)
			}
			st.Class("no operation", true)
		}
	})
}
