package harness

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/mjarkk/yarql"
)

// Deep nests in every way there is
type Deep struct {
	Tag   int32 `gq:"-"`
	V     int32
	S     string
	Next  *Deep
	Pp    **Deep
	List  []Deep
	Ptrs  []*Deep
	Grid  [][]*Deep
	Arr   [1]*Deep
	If    DeepIface
	Ifs   []DeepIface
	Box   struct{ D *Deep }
	Boxes []DeepBox
	Fn    func() *Deep
	FnL   func(args struct{ N int8 }) ([]*Deep, error)
	Cube  [][][]Deep
	Mix   *[]*[]*[]DeepIface
	FnIf  func() (DeepIface, error)
	FnG   func(ctx *yarql.Ctx) [][]DeepBox
}

type DeepBox struct {
	V int32
	D *Deep
	I DeepIface
}

type DeepIface interface {
	ResolveK() int
	ResolveUp() DeepIface
}

type Deep2 struct {
	Tag  int32 `gq:"-"`
	V    int32
	Next *Deep
	List []DeepIface
}

func (d Deep) ResolveK() int {
	logCall(nil, "Deep.k"+tagStr(d.Tag))
	return int(d.V)
}

func (d Deep2) ResolveK() int {
	logCall(nil, "Deep2.k"+tagStr(d.Tag))
	return int(d.V)
}

func (d Deep) ResolveUp() DeepIface {
	logCall(nil, "Deep.up"+tagStr(d.Tag))
	return d.If
}

func (d Deep2) ResolveUp() DeepIface {
	logCall(nil, "Deep2.up"+tagStr(d.Tag))
	if d.Next == nil {
		return nil
	}
	return *d.Next
}

func (d Deep) ResolveMake(ctx *yarql.Ctx) (*Deep, error) {
	logCall(ctx, "Deep.make"+tagStr(d.Tag))
	return d.Next, nil
}

func (d Deep) ResolveMany(args struct{ N *int }) []Deep {
	logCall(nil, "Deep.many"+tagStr(d.Tag))
	return d.List
}

var _ = implements((*DeepIface)(nil), Deep{})
var _ = implements((*DeepIface)(nil), Deep2{})

type DeepQuery struct {
	Next *Deep
	Val  Deep
	List []Deep
	If   DeepIface
	Box  DeepBox
	Fn   func() *Deep
	V    int32
}

// deepData makes some nodes with links in every direction
func (g G) deepData() DeepQuery {
	nodes := make([]*Deep, 1+g.N(4))
	for i := range nodes {
		nodes[i] = &Deep{Tag: int32(i + 1), V: int32(g.N(100)), S: "s" + strconv.Itoa(i)}
	}
	node := func() *Deep {
		if g.N(12) == 11 {
			return nil
		}
		return pick(g, nodes)
	}
	iface := func() DeepIface {
		switch g.N(8) {
		case 7:
			return nil
		case 5, 6:
			d := Deep2{Tag: int32(50 + g.N(9)), V: 7, Next: node()}
			if n := pick(g, nodes); n.If != nil {
				d.List = []DeepIface{n.If}
			}
			return d
		}
		return *pick(g, nodes)
	}
	num := func() int { return []int{1, 1, 1, 2, 0}[g.N(5)] }
	fn := func(name string) func() *Deep {
		if g.N(12) == 11 {
			return nil
		}
		n := node()
		return func() *Deep { logCall(nil, name); return n }
	}
	for k := 0; k < 2; k++ { // twice, because of the copies
		for i, n := range nodes {
			n.Next = node()
			p := node()
			n.Pp = &p
			n.List, n.Ptrs, n.Grid, n.Ifs, n.Boxes = nil, nil, nil, nil, nil
			for j := num(); j > 0; j-- {
				n.List = append(n.List, *pick(g, nodes))
			}
			for j := num(); j > 0; j-- {
				n.Ptrs = append(n.Ptrs, node())
			}
			for j := num(); j > 0; j-- {
				n.Grid = append(n.Grid, []*Deep{node()})
			}
			n.Arr = [1]*Deep{node()}
			n.If = iface()
			for j := num(); j > 0; j-- {
				n.Ifs = append(n.Ifs, iface())
			}
			n.Box.D = node()
			for j := num(); j > 0; j-- {
				n.Boxes = append(n.Boxes, DeepBox{V: int32(j), D: node(), I: iface()})
			}
			n.Fn = fn("fn" + strconv.Itoa(i))
			l := []*Deep{node()}
			n.FnL = func(args struct{ N int8 }) ([]*Deep, error) {
				logCall(nil, "fnL"+strconv.Itoa(i), args)
				return l, nil
			}
			n.Cube, n.Mix = nil, nil
			for j := num(); j > 0; j-- {
				n.Cube = append(n.Cube, [][]Deep{{*pick(g, nodes)}, {}}[:1+g.N(2)])
			}
			if g.N(4) > 0 {
				m := []DeepIface{iface()}
				m1 := []*[]DeepIface{&m, nil}[:1+g.N(2)]
				m2 := []*[]*[]DeepIface{&m1, nil}[:1+g.N(2)]
				n.Mix = &m2
			}
			fi, boxes := iface(), [][]DeepBox{{{V: 1, D: node(), I: iface()}}}
			n.FnIf = func() (DeepIface, error) { logCall(nil, "fnIf"+strconv.Itoa(i)); return fi, nil }
			n.FnG = func(ctx *yarql.Ctx) [][]DeepBox { logCall(ctx, "fnG"+strconv.Itoa(i)); return boxes }
		}
	}
	q := DeepQuery{Next: node(), Val: *pick(g, nodes), If: iface(), Fn: fn("root"), Box: DeepBox{D: node(), I: iface()}, V: 3}
	for j := num(); j > 0; j-- {
		q.List = append(q.List, *pick(g, nodes))
	}
	return q
}

type deepGen struct {
	G
	doc               *Doc
	left, mult, nkey  int
	nfrag             int
	branches, spreads int
	chained           bool // has a long chain of fragments
}

type deepLink struct {
	name, to string
	list     bool
}

var deepLinks = map[string][]deepLink{
	"DeepQuery": {{"next", "Deep", false}, {"val", "Deep", false}, {"list", "Deep", true}, {"if", "DeepIface", false}, {"box", "DeepBox", false}, {"fn", "Deep", false}},
	"Deep": {{"next", "Deep", false}, {"pp", "Deep", false}, {"list", "Deep", true}, {"ptrs", "Deep", true}, {"grid", "Deep", true}, {"arr", "Deep", false}, {"if", "DeepIface", false}, {"ifs", "DeepIface", true},
		{"box", "box", false}, {"boxes", "DeepBox", true}, {"fn", "Deep", false}, {"fnL", "Deep", false}, {"make", "Deep", false}, {"many", "Deep", true}, {"next", "Deep", false},
		{"cube", "Deep", true}, {"mix", "DeepIface", false}, {"fnIf", "DeepIface", false}, {"fnG", "DeepBox", false}, {"up", "DeepIface", false}},
	"DeepBox": {{"d", "Deep", false}, {"i", "DeepIface", false}},
	"box":     {{"d", "Deep", false}},
	"Deep2":   {{"next", "Deep", false}, {"list", "DeepIface", false}, {"up", "DeepIface", false}},
}

var deepLeaves = map[string][]string{
	"DeepQuery": {"v"}, "Deep": {"v", "s", "k"}, "DeepBox": {"v"}, "Deep2": {"v", "k"}, "DeepIface": {"k"},
}

func (d *deepGen) field(name string, sel ...*Sel) *Sel {
	d.nkey++
	return &Sel{K: SField, Alias: "a" + strconv.Itoa(d.nkey), Name: name, Sel: sel, HasSel: len(sel) > 0}
}

func (d *deepGen) leaves(on string) (res []*Sel) {
	l := append([]string{"__typename"}, deepLeaves[on]...)
	for n := d.N(3); n > 0; n-- {
		res = append(res, d.field(pick(d.G, l)))
	}
	return
}

// sel makes a selection with objects nested depth deep
func (d *deepGen) sel(on string, depth int) []*Sel {
	d.left--
	res := d.leaves(on)
	if depth > 0 {
		side := 0
		if d.left > 0 && d.N(5) == 4 {
			side = 1 + d.N(2)
		}
		main := d.N(side + 1)
		for i := 0; i <= side; i++ {
			if i == main {
				res = append(res, d.link(on, depth-1))
			} else {
				res = append(res, d.link(on, d.N(min(depth, 4))))
			}
			res = append(res, d.leaves(on)...)
		}
		d.branches += side
	}
	if len(res) == 0 {
		res = append(res, d.field("__typename"))
	}
	chain := 0
	if on != "box" && !d.chained && d.N(60) == 33 {
		// spreads do not count
		d.chained = true
		chain = []int{10, 20, 40, 130, 300}[d.N(5)]
	}
	for ; on != "box" && (chain > 0 || d.left > 0 && d.N(6) == 5); chain-- {
		if chain <= 0 {
			d.left--
		}
		d.spreads++
		if d.N(2) == 0 {
			res = []*Sel{{K: SInline, On: on, Sel: res, HasSel: true}}
		} else {
			d.nfrag++
			f := &Frag{Name: "f" + strconv.Itoa(d.nfrag), On: on, Sel: res}
			d.doc.Defs = append(d.doc.Defs, &Def{Frag: f})
			res = []*Sel{{K: SSpread, Name: f.Name}}
		}
		if chain < 10 && d.N(2) == 0 {
			res = append(res, d.field("__typename"))
		}
	}
	return res
}

func (d *deepGen) link(on string, depth int) *Sel {
	if on == "DeepIface" {
		if depth > 0 && d.N(4) == 3 {
			return d.field("up", d.sel("DeepIface", depth)...)
		}
		to := []string{"Deep", "Deep", "Deep2"}[d.N(3)]
		d.spreads++
		return &Sel{K: SInline, On: to, Sel: d.sel(to, depth+1), HasSel: true}
	}
	l := pick(d.G, deepLinks[on])
	for l.list && d.mult >= 32 {
		l = pick(d.G, deepLinks[on])
	}
	if l.list {
		old := d.mult
		d.mult *= 2
		defer func() { d.mult = old }()
	}
	return d.field(l.name, d.sel(l.to, depth)...)
}

// between checks that the data has at least what is in lo, and at most what is in hi
func between(lo, hi *E, j *J, path string) error {
	if j == nil || hi.Kind == EObj && j.Kind != JObj || hi.Kind == EList && j.Kind != JList {
		return hi.Match(j, path)
	}
	switch hi.Kind {
	case EList:
		if len(hi.L) != len(j.L) {
			return hi.Match(j, path)
		}
		for i, e := range hi.L {
			var l *E
			if lo != nil {
				l = lo.L[i]
			}
			if err := between(l, e, j.L[i], path+"["+strconv.Itoa(i)+"]"); err != nil {
				return err
			}
		}
		return nil
	case EObj:
		at := 0
		for i, k := range hi.Keys {
			var l *E
			if lo != nil && i < len(lo.Keys) {
				l = lo.Vals[i]
			}
			if at < len(j.Keys) && j.Keys[at] == k {
				if err := between(l, hi.Vals[i], j.Vals[at], path+"."+k); err != nil {
					return err
				}
				at++
			} else if l != nil {
				return fmt.Errorf("at %s: %s is missing, expected %s", path, k, clip(l.String(), 300))
			}
		}
		if at < len(j.Keys) {
			return fmt.Errorf("at %s: expected (some of) the keys %v but got %v", path, hi.Keys, j.Keys)
		}
		return nil
	}
	return hi.Match(j, path)
}

// within checks that lo is a part of l, which is a part of hi
func within(what string, lo, l, hi []string) error {
	part := func(a, b []string) (string, bool) {
		for _, s := range a {
			for len(b) > 0 && b[0] != s {
				b = b[1:]
			}
			if len(b) == 0 {
				return s, false
			}
			b = b[1:]
		}
		return "", true
	}
	if s, ok := part(lo, l); !ok {
		return fmt.Errorf("%s: %s is missing", what, s)
	}
	if s, ok := part(l, hi); !ok {
		return fmt.Errorf("%s: %s was not expected there", what, s)
	}
	return nil
}

func errPaths(es []ExpErr) (res []string) {
	for _, e := range es {
		res = append(res, e.Path)
	}
	return
}

func TestC22(t *testing.T) {
	check(t, "a case is a query on a graph of recursive types whose deepest objects are around the maximum depth; nontrivial = within 2 of the limit; distinct by query and limit", func(g G, st *Stats) {
		e := newModel(rt[DeepQuery](), rt[EmptyMutation]())
		e.Q, e.Mut = reflect.ValueOf(g.deepData()), reflect.Zero(rt[EmptyMutation]())
		e.S = e.Build(nil)
		limit := []int{1, 2, 3, 4, 5, 6, 8, 11, 16, 40, 127, 128, 129, 254, 255}[g.N(15)]
		if limit < 255 || g.N(2) == 0 {
			e.S.MaxDepth = uint8(limit)
		}
		copied := g.N(4) == 3
		if copied {
			e.S = e.S.Copy()
		}
		e.M.MaxDepth = limit
		for n := 1 + g.N(3); n > 0; n-- {
			d := &deepGen{G: g, doc: &Doc{}, left: 30, mult: 1}
			depth := max(limit+g.N(7)-3, 1)
			if g.N(8) == 7 {
				depth = 1 + g.N(limit)
			}
			op := &Op{Kind: "query", Sel: d.sel("DeepQuery", depth)}
			d.doc.Defs = append(d.doc.Defs, &Def{Op: op})
			perm(g, d.doc.Defs)
			r := &Request{Doc: d.doc, Op: op, Query: d.doc.Print(nil)}
			lo := e.Expect(r)
			st.Case(lo.Depth >= limit-2, strconv.Itoa(limit)+" "+r.Query)
			st.Class("deepest object is the last that is allowed", !lo.Critical && lo.Depth == limit-1)
			st.Class("beyond the limit", lo.Critical)
			st.Class("errors > 1", len(lo.Errs) > 1)
			st.Class("limit >= 127", limit >= 127)
			st.Class("copy", copied)
			st.Class("side branches", d.branches > 0)
			st.Class("fragments", d.spreads > 0)
			checkDepth(g, e, r, lo, limit)
		}
	})
}

// TestC22Any is TestC22 on the schemas and requests of the other properties
func TestC22Any(t *testing.T) {
	check(t, schemaRule+"the depth limit is 1 to 6; non-trivial: an object is within 2 of the limit", func(g G, st *Stats) {
		f := g.Filler(25)
		f.NoErrs = true
		m := g.NewModel()
		limit := []int{1, 2, 2, 3, 3, 4, 5, 6}[g.N(8)]
		m.M.MaxDepth = limit
		e, reqs := g.batch(m, f, 3, QOpts{Simple: true, FragHeavy: g.N(3) == 2, MaxDepth: 8})
		e.S.MaxDepth = uint8(limit)
		for _, r := range reqs {
			lo := e.Expect(r)
			st.Case(lo.Depth >= limit-2, r.Key())
			st.Class("deepest object is the last that is allowed", !lo.Critical && lo.Depth == limit-1)
			st.Class("beyond the limit", lo.Critical)
			st.Class("errors > 1", len(lo.Errs) > 1)
			checkDepth(g, e, r, lo, limit)
		}
	})
}

// checkDepth compares with the answers that stop and go on behind a refused object
func checkDepth(g G, e *Env, r *Request, lo *Exec, limit int) {
	if !lo.Critical {
		g.must(e, r, cmp{trace: true, data: true, errs: true, calls: callPath})
		return
	}
	resp := resolve(e.S, r.Query, r.Opts)
	hi := NewExec(e.M, r.Doc, r.Op)
	hi.Continue = true
	hi.Run(e.Root(r.Op.Kind))
	err := resp.envelope(r.Opts)
	if err == nil {
		err = between(lo.Data, hi.Data, resp.J.Get("data"), "data")
	}
	if err == nil {
		err = within("resolver call", project(lo.Rec.Calls, anyCall, callPath, false), project(resp.Calls, anyCall, callPath, false), project(hi.Rec.Calls, anyCall, callPath, false))
	}
	if err == nil {
		got := []string{}
		for _, e := range resp.J.Get("errors").list() {
			got = append(got, errPath(e))
		}
		err = within("error", errPaths(lo.Errs), got, errPaths(hi.Errs))
	}
	if err != nil {
		g.fatal(err, e, r, resp, "maximum depth "+strconv.Itoa(limit), "expected at least: "+lo.Data.String(), "expected at most: "+hi.Data.String(), strings.Join(lo.errList(true), "; "))
	}
}

func (j *J) list() []*J {
	if j == nil {
		return nil
	}
	return j.L
}
