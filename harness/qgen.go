package harness

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/mjarkk/yarql"
)

// QGen makes valid documents for a model
type QGen struct {
	G
	M   *Model
	Doc *Doc
	Op  *Op
	Opt QOpts

	Left   int // fields that may still be added
	frags  []*fragInfo
	nkey   int
	nfrag  int
	base   int // the first fragment of this operation
	inFrag int
	fan    int // how many objects the current introspection selection stands for

	// statistics
	NVars, NDirs, NFrags, NArgs, NNested, NDefaults, NLits, NWide, NLong, NDeep int
}

type QOpts struct {
	NoVars, NoDirs, NoFrags, NoAlias bool
	MaxDepth                         int
	Files                            []string
	Budget                           int
	ArgHeavy                         bool
	ErrHeavy                         bool // prefer fields that may fail
	FragHeavy                        bool
	DirHeavy                         bool
	VarHeavy                         bool
	Big                              int // a string or list of about so many bytes as a literal
	NoTypename                       bool
	Simple                           bool   // plain scalars only
	Arrays                           bool   // arguments of an array type may be given (as null)
	WideOps                          bool   // other operations may be added
	Intro                            *intro // select introspection fields too
}

type fragInfo struct {
	f    *Frag
	keys map[*Obj]map[string]bool
	cost int
}

// scope is a selection set that may be executed on the objects, with the response keys taken
type scope struct {
	objs []*Obj
	used map[*Obj]map[string]bool
}

func newScope(objs []*Obj) *scope {
	s := &scope{objs: objs, used: map[*Obj]map[string]bool{}}
	for _, o := range objs {
		s.used[o] = map[string]bool{}
	}
	return s
}

func (s *scope) free(key string) bool {
	for _, o := range s.objs {
		if s.used[o][key] {
			return false
		}
	}
	return true
}

func (s *scope) take(key string) {
	for _, o := range s.objs {
		s.used[o][key] = true
	}
}

func (s *scope) narrow(cond string) *scope {
	n := &scope{used: s.used}
	for _, o := range s.objs {
		if o.Name == cond || o.HasIface(cond) {
			n.objs = append(n.objs, o)
		}
	}
	return n
}

func possible(o *Obj) []*Obj {
	if o.Iface {
		return o.Impls
	}
	return []*Obj{o}
}

func (m *Model) Root(kind string) *Obj {
	if kind == "mutation" {
		return m.Mut
	}
	return m.Query
}

var opNames = []string{"a", "A", "query", "mutation", "foo", "Foo", "fooBar", "on", "fragment", "x1", "_y", "B", "null"}

// NewQGen prepares a generator, Operation adds operations
func NewQGen(g G, m *Model, opt QOpts) *QGen {
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 6
	}
	if opt.Budget == 0 {
		opt.Budget = 24
	}
	return &QGen{G: g, M: m, Doc: &Doc{}, Opt: opt}
}

// Operation adds an operation (with fragments of its own) to the document
func (q *QGen) Operation(kind, name string) *Op {
	op := &Op{Kind: kind, Name: name}
	q.Op = op
	first := len(q.frags)
	q.base = first
	q.Left = 2 + q.N(q.Opt.Budget)
	root := q.M.Root(kind)
	op.Sel = q.sel(root, newScope(possible(root)), 0)
	if kind == "query" && name == "" && len(op.Vars) == 0 && q.N(2) == 0 {
		op.Short = true
	}
	if !q.Opt.NoVars && !op.Short && q.N(8) == 7 {
		// an unused variable
		q.newVar(&In{K: IScalar, Go: rt[int]()})
	}
	defs := []*Def{{Op: op}}
	for _, f := range q.frags[first:] {
		defs = append(defs, &Def{Frag: f.f})
	}
	perm(q.G, defs)
	q.Doc.Defs = append(q.Doc.Defs, defs...)
	return op
}

// Decoy adds an operation that is not going to be executed
func (q *QGen) Decoy(kind, name string) *Op {
	op := &Op{Kind: kind, Name: name}
	old, oldLeft := q.Op, q.Left
	q.Op, q.Left = op, 3
	root := q.M.Root(kind)
	op.Sel = q.sel(root, newScope(possible(root)), 3)
	q.Op, q.Left = old, oldLeft
	return op
}

// widen gives the document a lot more variables, fragments or operations than anyone would write
func (q *QGen) widen(op *Op) {
	n := []int{253, 255, 256, 257, 260, 300, 511, 512, 513, 700}[q.N(10)]
	if q.Opt.WideOps && q.N(20) == 13 {
		n = 66000
	}
	switch q.N(4) {
	case 0, 1:
		if q.Opt.NoVars || op.Short {
			return
		}
		vars := []*VarDef{}
		for i := 0; i < n; i++ {
			v := &VarDef{Name: "w" + strconv.Itoa(i), Type: "Int", T: &In{K: IScalar, Go: rt[int]()}}
			if i%5 == 1 {
				v.Default = &Value{K: VInt, S: "1"}
			}
			vars = append(vars, v)
		}
		// those that are used come at one end, or in between
		k := []int{n, 0, n / 2}[q.N(3)]
		op.Vars = append(append(append([]*VarDef{}, vars[:k]...), op.Vars...), vars[k:]...)
	case 2:
		if q.Opt.NoFrags {
			return
		}
		defs := []*Def{}
		for i := 0; i < n; i++ {
			defs = append(defs, &Def{Frag: &Frag{Name: "wide" + strconv.Itoa(i), On: q.M.Root(op.Kind).Name, Sel: []*Sel{{K: SField, Name: "__typename"}}}})
		}
		if n <= 700 && q.N(2) == 0 {
			// each spreads the next
			for i, d := range defs[:n-1] {
				d.Frag.Sel = []*Sel{{K: SSpread, Name: "wide" + strconv.Itoa(i+1)}}
			}
			defs[n-1].Frag.Sel[0].Alias = "endOfChain"
			op.Sel = append(op.Sel, &Sel{K: SSpread, Name: "wide0"})
		}
		if q.N(2) == 0 {
			q.Doc.Defs = append(defs, q.Doc.Defs...)
		} else {
			q.Doc.Defs = append(q.Doc.Defs, defs...)
		}
	case 3:
		if !q.Opt.WideOps || op.Name == "" {
			return
		}
		defs := []*Def{}
		for i := 0; i < n; i++ {
			defs = append(defs, &Def{Op: &Op{Kind: "query", Name: "wide" + strconv.Itoa(i), Sel: []*Sel{{K: SField, Name: "__typename"}}}})
		}
		q.Doc.Defs = append(defs, q.Doc.Defs...)
	}
	q.NWide++
}

func (q *QGen) key(sc *scope, name string) string {
	if (q.Opt.NoAlias || q.N(10) < 7) && q.inFrag == 0 && sc.free(name) {
		return ""
	}
	k := ""
	switch q.N(4) {
	case 0:
		k = tagNames[q.N(len(tagNames))]
	case 1:
		k = qlName(goNames[q.N(len(goNames))])
	}
	if q.N(60) == 59 {
		k = strings.Repeat("k", []int{100, 200, 253, 254}[q.N(4)])
	}
	if k == "" || !sc.free(k) || k == name {
		q.nkey++
		k = "k" + strconv.Itoa(q.nkey)
	}
	return k
}

func (q *QGen) sel(static *Obj, sc *scope, depth int) []*Sel {
	n := 1 + q.N(4)
	if depth == 0 {
		n += q.N(3)
	}
	res := []*Sel{}
	for i := 0; i < n; i++ {
		if i > 0 && q.Left <= 0 {
			break
		}
		res = append(res, q.item(static, sc, depth)...)
	}
	return res
}

func (q *QGen) item(static *Obj, sc *scope, depth int) []*Sel {
	c := q.N(100)
	limit := 78
	if q.Opt.FragHeavy {
		limit = 40
	}
	if q.Opt.NoFrags || c < limit || q.Left <= 0 {
		return []*Sel{q.field(static, sc, depth)}
	}
	if c%2 == 0 {
		return []*Sel{q.inline(static, sc, depth)}
	}
	if s := q.spread(static, sc, depth); s != nil {
		return []*Sel{s}
	}
	return []*Sel{q.field(static, sc, depth)}
}

func (q *QGen) typename(sc *scope) *Sel {
	q.Left--
	s := &Sel{K: SField, Name: "__typename", Alias: q.key(sc, "__typename")}
	sc.take(s.Key())
	s.Dirs = q.dirs(fieldLoc)
	return s
}

func (q *QGen) field(static *Obj, sc *scope, depth int) *Sel {
	if len(static.Fields) == 0 || !q.Opt.NoTypename && q.N(14) == 13 {
		return q.typename(sc)
	}
	if q.Opt.Intro != nil && static == q.M.Query && q.N(4) > 0 {
		return q.introField(sc, depth)
	}
	var f *Field
	deep := depth < q.Opt.MaxDepth && q.Left > 0 && q.N(3) > 0
	for try := 0; ; try++ {
		if try == 4 {
			return q.typename(sc)
		}
		f = static.Fields[q.N(len(static.Fields))]
		if static.Intro && max(q.fan, 1)*fan(f) > 8000 {
			continue
		}
		if q.Opt.ArgHeavy && len(f.Args) == 0 && try < 3 {
			continue
		}
		if q.Opt.ErrHeavy && !f.Out.Composite() && (f.FnType == nil || f.ErrNr < 0) && try < 3 {
			continue
		}
		if deep && !f.Out.Composite() && try < 3 && !(q.Opt.ErrHeavy && f.FnType != nil) {
			continue
		}
		if !f.Out.Composite() || depth < q.Opt.MaxDepth && q.Left > 0 {
			break
		}
	}
	q.Left--
	s := &Sel{K: SField, Name: f.Name, Alias: q.key(sc, f.Name)}
	sc.take(s.Key())
	s.Args = q.args(f.Args)
	s.Dirs = q.dirs(fieldLoc)
	if f.Out.Composite() {
		o := f.Out.Named().Obj
		s.HasSel = true
		if static.Intro {
			old := q.fan
			q.fan = max(q.fan, 1) * fan(f)
			defer func() { q.fan = old }()
		}
		if q.inFrag > 0 {
			// the response keys of deeper objects are free again
			old := q.inFrag
			q.inFrag = 0
			s.Sel = q.sel(o, newScope(possible(o)), depth+1)
			q.inFrag = old
		} else {
			s.Sel = q.sel(o, newScope(possible(o)), depth+1)
		}
	}
	return s
}

// cond picks a type condition and the type to take fields of
func (q *QGen) cond(static *Obj, sc *scope) (string, *Obj) {
	c := q.N(10)
	if c < 4 || len(sc.objs) == 0 {
		return static.Name, static
	}
	if c < 8 {
		o := sc.objs[q.N(len(sc.objs))]
		if c >= 6 && len(o.Ifaces) > 0 {
			o = o.Ifaces[q.N(len(o.Ifaces))]
		}
		return o.Name, o
	}
	if c == 8 {
		return []string{"Nope", "Int", "String", "person", "Ghost", "on2"}[q.N(6)], static
	}
	o := q.anyObj()
	return o.Name, o
}

func (q *QGen) anyObj() *Obj {
	names := q.M.typeNames()
	n := names[q.N(len(names))]
	if o, ok := q.M.Objs[n]; ok {
		return o
	}
	return q.M.Ifaces[n]
}

func (q *QGen) inline(static *Obj, sc *scope, depth int) *Sel {
	cond, st := q.cond(static, sc)
	q.NFrags++
	return &Sel{K: SInline, On: cond, Dirs: q.dirs(inlineLoc), Sel: q.sel(st, sc.narrow(cond), depth)}
}

func (q *QGen) spread(static *Obj, sc *scope, depth int) *Sel {
	q.NFrags++
	own := q.frags[q.base:]
	if len(own) > 0 && q.N(5) != 0 {
		i := q.N(len(own))
		for try := 0; try < 3; try++ {
			f := own[(i+try)%len(own)]
			if f.keys == nil || f.cost > 40 {
				continue // under construction
			}
			if sp := q.use(f, sc); sp != nil {
				return sp
			}
		}
	}
	if len(own) >= 12 || depth > q.Opt.MaxDepth+2 {
		return nil
	}
	cond, st := q.cond(static, sc)
	f := &fragInfo{f: &Frag{Name: q.fragName(), On: cond}}
	q.frags = append(q.frags, f)
	objs := []*Obj{}
	for _, n := range q.M.typeNames() {
		if o := q.M.Objs[n]; o != nil && (o.Name == cond || o.HasIface(cond)) {
			objs = append(objs, o)
		}
	}
	fs := newScope(objs)
	// what this place has used already is not available
	for _, o := range sc.objs {
		if fs.used[o] != nil {
			for k := range sc.used[o] {
				fs.used[o][k] = true
			}
		}
	}
	before := q.Left
	q.inFrag++
	f.f.Sel = q.sel(st, fs, depth)
	q.inFrag--
	f.cost = before - q.Left + 1
	f.keys = map[*Obj]map[string]bool{}
	for _, o := range objs {
		f.keys[o] = map[string]bool{}
		for k := range fs.used[o] {
			if sc.used[o] == nil || !sc.used[o][k] || !contains(sc.objs, o) {
				f.keys[o][k] = true
			}
		}
	}
	return q.use(f, sc)
}

func contains(l []*Obj, o *Obj) bool {
	for _, x := range l {
		if x == o {
			return true
		}
	}
	return false
}

// use spreads a fragment if its keys are free
func (q *QGen) use(f *fragInfo, sc *scope) *Sel {
	for _, o := range sc.objs {
		for k := range f.keys[o] {
			if sc.used[o][k] {
				return nil
			}
		}
	}
	for _, o := range sc.objs {
		for k := range f.keys[o] {
			sc.used[o][k] = true
		}
	}
	q.Left -= f.cost / 4
	return &Sel{K: SSpread, Name: f.f.Name, Dirs: q.dirs(fragLoc)}
}

var fragNames = []string{"f", "fr", "frag", "fragment", "fragA", "F", "query", "x", "xa", "xab", "xabc", "on1", "Person", "ABCDEF", "a_b", "a_", "null", "inline"}

func (q *QGen) fragName() string {
	n := fragNames[q.N(len(fragNames))]
	if q.N(30) == 29 {
		n = strings.Repeat("f", []int{200, 253, 254, 100}[q.N(4)])
	}
	for _, f := range q.frags {
		if f.f.Name == n {
			q.nfrag++
			return "f" + strconv.Itoa(q.nfrag)
		}
	}
	return n
}

const (
	fieldLoc = iota
	fragLoc
	inlineLoc
)

var boolT = &In{K: IScalar, Go: reflect.TypeOf(false)}

func (q *QGen) boolVal(b bool) *Value {
	v := &Value{K: VBool, B: b}
	if !q.Opt.NoVars && q.N(3) == 2 {
		return q.asVar(boolT, v)
	}
	return v
}

func (q *QGen) dirs(loc int) (res []*DirUse) {
	if q.Opt.NoDirs {
		return nil
	}
	pct := 8
	if q.Opt.DirHeavy {
		pct = 45
	}
	for n := 0; n < 3 && q.P(pct); n++ {
		q.NDirs++
		switch c := q.N(5); {
		case c < 2:
			// @skip and @include
			skip := q.N(3) == 2
			name := "include"
			b := !skip
			if q.N(2) == 1 {
				name, b = "skip", skip
			}
			d := &DirUse{Name: name, Args: []*KV{{"if", q.boolVal(b)}}}
			res = append(res, d)
			if skip {
				return
			}
		default:
			known := []*Dir{}
			for _, d := range q.M.Reg.Dirs {
				for _, l := range d.D.Where {
					if l == dirLocs[loc] {
						known = append(known, d)
					}
				}
			}
			if len(known) == 0 {
				continue
			}
			d := known[q.N(len(known))]
			use := &DirUse{Name: d.D.Name}
			use.Args = q.args(d.Args)
			skip := false
			for _, a := range use.Args {
				if d.D.Name == "note" && a.Name == "skip" || (d.D.Name == "skip_2" || d.D.Name == "split") && (a.Name == "if" || a.Name == "skip") {
					skip = q.N(3) == 2
					a.V = q.boolVal(skip)
				}
			}
			res = append(res, use)
			if skip {
				return
			}
		}
	}
	return
}

// Values

func (q *QGen) args(args []*Arg) []*KV {
	res := []*KV{}
	for _, a := range args {
		p := 60
		if len(args) > 8 {
			p = 25
		}
		if q.P(p) && (a.T.inputOK() || q.Opt.Arrays && q.N(3) > 0) {
			res = append(res, &KV{a.Name, q.Val(a.T, !q.Opt.NoVars, 0)})
			q.NArgs++
		}
	}
	perm(q.G, res)
	return res
}

func (t *In) inputOK() bool {
	for t.K == IPtr {
		t = t.Elem
	}
	return t.K != IArray
}

// size is about the number of bytes the value is written in
func (v *Value) size() int {
	n := len(v.S) + 1
	for _, i := range v.L {
		n += i.size()
	}
	for _, kv := range v.O {
		n += kv.V.size()
	}
	return n
}

// varOK tells if there is a variable type for the input
func (t *In) varOK() bool {
	for t.K == IPtr || t.K == IList {
		t = t.Elem
	}
	return t.K != IArray
}

// Val makes a value that binds to the type
func (q *QGen) Val(t *In, vars bool, depth int) *Value {
	if !t.inputOK() {
		return &Value{K: VNull}
	}
	pct := 20
	if q.Opt.VarHeavy {
		pct = 45
	}
	if vars && t.varOK() && q.P(pct) {
		if depth > 0 {
			q.NNested++
		}
		for _, v := range q.Op.Vars {
			if q.N(3) != 0 && v.T != nil && sameIn(v.T, t) {
				q.NVars++
				return &Value{K: VVar, S: v.Name}
			}
		}
		return q.asVar(t, q.Val(t, false, depth))
	}
	if q.N(16) == 15 {
		return &Value{K: VNull}
	}
	q.NLits++
	if q.Opt.Simple {
		if v := q.simpleVal(t); v != nil {
			return v
		}
	}
	switch t.K {
	case IPtr:
		return q.Val(t.Elem, vars, depth)
	case IList:
		v := &Value{K: VList}
		n := []int{1, 0, 2, 3, 4, 1}[q.N(6)]
		if q.Opt.Big > 0 && (t.Elem.K == IScalar || t.Elem.K == IEnum) {
			n, q.Opt.Big = q.Opt.Big/7, 0
			one := q.Val(t.Elem, false, depth+1)
			if one.size() > 100 {
				one = &Value{K: VNull} // a long text that often would be gigabytes
			}
			for ; n > 2; n-- {
				v.L = append(v.L, one)
			}
		}
		if depth > 3 {
			n = q.N(2)
		}
		if !t.Elem.inputOK() {
			n = 0
		}
		if n > 1 && depth == 0 && q.Opt.Big == 0 && q.NLong < 2 && q.N(40) == 23 {
			q.NLong++
			// a long list of a few values
			some := []*Value{q.Val(t.Elem, vars, depth+2), q.Val(t.Elem, false, depth+2), q.Val(t.Elem, false, depth+2)}
			for i := range some {
				if some[i].size() > 2000 {
					some[i] = &Value{K: VNull}
				}
			}
			for l := []int{255, 256, 257, 300, 600}[q.N(5)]; l > 0; l-- {
				v.L = append(v.L, some[l*l/7%3])
			}
		}
		if n > 1 && depth > 0 && depth < 4 && q.Opt.Big == 0 && q.NLong < 2 && q.N(25) == 13 && t.Elem.inputOK() {
			q.NLong++
			// a list inside a value
			some := []*Value{q.Val(t.Elem, vars, depth+2), q.Val(t.Elem, false, depth+2)}
			for i := range some {
				if some[i].size() > 500 {
					some[i] = &Value{K: VNull}
				}
			}
			for l := 5 + q.N(60); l > 0; l-- {
				v.L = append(v.L, some[l*l/7%2])
			}
		}
		for ; n > 0; n-- {
			v.L = append(v.L, q.Val(t.Elem, vars, depth+1))
		}
		return v
	case IStruct:
		if depth < 2 && q.NDeep == 0 && q.N(25) == 13 {
			q.NDeep++
			if v := q.deep(t, depth); v != nil {
				return v
			}
		}
		v := &Value{K: VObject}
		p := 60
		if depth > 0 {
			p = 30
		}
		if depth > 3 {
			p = 8
		}
		for _, f := range t.S.Fields {
			if q.P(p) && (f.T.inputOK() || q.Opt.Arrays && q.N(3) > 0) {
				v.O = append(v.O, &KV{f.Name, q.Val(f.T, vars, depth+1)})
			}
		}
		perm(q.G, v.O)
		return v
	case IEnum:
		v := &Value{K: VEnum, S: t.Enum.Keys[q.N(len(t.Enum.Keys))]}
		if !q.Opt.Simple && q.N(10) == 7 {
			v.K = VString
		}
		return v
	case ITime:
		return &Value{K: VString, S: q.isoText()}
	case IFile:
		if len(q.Opt.Files) == 0 {
			return &Value{K: VNull}
		}
		return &Value{K: VString, S: q.Opt.Files[q.N(len(q.Opt.Files))]}
	case IID:
		if t.Go.Kind() == reflect.String {
			return &Value{K: VString, S: q.str()}
		}
		return &Value{K: VString, S: q.intText(t.Go)}
	case IArray:
		return &Value{K: VNull}
	}
	switch k := t.Go.Kind(); k {
	case reflect.Bool:
		if !q.Opt.Simple && q.N(12) == 7 {
			return &Value{K: VInt, S: []string{"1", "0", "7", "-1", "9007199254740993", "-0"}[q.N(6)]}
		}
		return &Value{K: VBool, B: q.N(2) == 1}
	case reflect.String:
		s := q.str()
		if q.Opt.Big > 0 && s != "" {
			s = strings.Repeat(s, q.Opt.Big/len(s)+1)
			q.Opt.Big = 0
		}
		return &Value{K: VString, S: s}
	case reflect.Float32, reflect.Float64:
		return q.spell(q.floatVal(t.Go.Bits()))
	default:
		return q.spell(&Value{K: VInt, S: q.intText(t.Go)})
	}
}

// deep makes a value of an input that holds itself, many levels deep
func (q *QGen) deep(t *In, depth int) *Value {
	for _, f := range t.S.Fields {
		in, list := f.T, 0
		for in.K == IPtr || in.K == IList {
			if in.K == IList {
				list++
			}
			in = in.Elem
		}
		if in.K != IStruct || in.S != t.S || q.N(3) == 0 {
			continue
		}
		v := q.Val(t, false, 4)
		leaf := &KV{}
		for _, l := range t.S.Fields {
			if l != f && l.T.inputOK() {
				leaf = &KV{l.Name, q.Val(l.T, false, 4)}
			}
		}
		// JSON deeper than 300 levels is refused
		for n := []int{9, 17, 33, 65, 129, 250, 257, 260}[q.N(8)] / (1 + list); n > 0; n-- {
			for i := 0; i < list; i++ {
				v = &Value{K: VList, L: []*Value{v}}
			}
			v = &Value{K: VObject, O: []*KV{{f.Name, v}}}
			if leaf.V != nil && n%3 == 0 {
				v.O = append(v.O, leaf)
			}
		}
		return v
	}
	return nil
}

// spell writes some numbers with a plus or with _ between and around digits
func (q *QGen) spell(v *Value) *Value {
	if q.Opt.Simple || q.N(8) != 5 {
		return v
	}
	if v.S[0] != '-' && q.N(3) == 1 {
		v.Raw = "+"
	}
	for i, c := range v.S {
		v.Raw += string(c)
		if i > 0 && v.S[i-1] == 'e' && (c == '+' || c == '-') {
			continue
		}
		if c >= '0' && c <= '9' || c == '.' {
			v.Raw += []string{"", "", "_", "__"}[q.N(4)]
		}
	}
	return v
}

func (q *QGen) simpleVal(t *In) *Value {
	switch t.K {
	case ITime:
		return &Value{K: VString, S: time.Unix(int64(q.N(100)), 0).UTC().Format("2006-01-02T15:04:05.000Z")}
	case IID:
		return &Value{K: VString, S: strconv.Itoa(q.N(100))}
	case IScalar:
		switch t.Go.Kind() {
		case reflect.Bool:
		case reflect.String:
			return &Value{K: VString, S: simpleStrs[q.N(len(simpleStrs))]}
		default:
			return &Value{K: VInt, S: strconv.Itoa(q.N(100))}
		}
	}
	return nil
}

func (q *QGen) floatVal(bits int) *Value {
	f := q.float(bits)
	if f == math.Trunc(f) && math.Abs(f) < 1e15 && q.N(2) == 0 {
		s := strconv.FormatFloat(f, 'f', 0, 64)
		if s == "-0" {
			s = "0"
		}
		return &Value{K: VInt, S: s}
	}
	s := strconv.FormatFloat(f, []byte{'g', 'e', 'f'}[q.N(3)], -1, 64)
	if len(s) > 60 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	if bits == 32 && math.Abs(f) < 3.4e38 && q.N(2) == 0 {
		s = strconv.FormatFloat(f, 'g', -1, 32)
	}
	s = strings.Replace(s, "e+0", "e+", 1)
	s = strings.Replace(s, "e-0", "e-", 1)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return &Value{K: VFloat, S: s}
}

func sameIn(a, b *In) bool {
	if a.Go != b.Go || a.K != b.K {
		return false
	}
	if a.Elem != nil {
		return sameIn(a.Elem, b.Elem)
	}
	return a.S == b.S
}

var varNames = []string{"a", "b", "A", "x", "xy", "foo", "Foo", "query", "on", "null", "true", "_v", "v_1", "data", "input"}

func (q *QGen) newVar(t *In) *VarDef {
	name := varNames[q.N(len(varNames))]
	if n := len(q.Op.Vars); q.N(40) == 39 || n > 0 && len(q.Op.Vars[n-1].Name) > 30 && q.N(2) == 1 {
		name = strings.Repeat("v", []int{31, 63, 64, 127, 128, 200, 253}[q.N(7)]) + []string{"a", "b", "v"}[q.N(3)]
	}
	for _, v := range q.Op.Vars {
		if v.Name == name {
			name = "v" + strconv.Itoa(len(q.Op.Vars))
			break
		}
	}
	d := &VarDef{Name: name, T: t, Type: q.varType(t)}
	q.Op.Vars = append(q.Op.Vars, d)
	return d
}

// asVar passes a value (without variables) through a new variable
func (q *QGen) asVar(t *In, v *Value) *Value {
	d := q.newVar(t)
	q.NVars++
	switch q.N(4) {
	case 0, 1:
		d.Given = v
	case 2:
		d.Default = v
		q.NDefaults++
	case 3:
		d.Given = v
		d.Default = q.Val(t, false, 1)
	}
	return &Value{K: VVar, S: d.Name}
}

// varType is a declared type that is accepted for the input
func (q *QGen) varType(t *In) string {
	for t.K == IPtr {
		t = t.Elem
	}
	nn := []string{"", "!"}[q.N(2)]
	alt := q.N(4) == 3
	switch t.K {
	case IList, IArray:
		return "[" + q.varType(t.Elem) + "]" + nn
	case IStruct:
		return t.S.Name + nn
	case IEnum:
		if alt {
			return "String" + nn
		}
		return t.Enum.Name + nn
	case ITime:
		if alt {
			return "String" + nn
		}
		return "Time" + nn
	case IFile:
		if alt {
			return "String" + nn
		}
		return "File" + nn
	case IID:
		if alt {
			return "String" + nn
		}
		return "ID" + nn
	}
	return scalarName(t.Go.Kind()) + nn
}

func (q *QGen) ExtraVars() (res []*KV) {
	if q.N(6) != 5 {
		return nil
	}
	for n := 1 + q.N(2); n > 0; n-- {
		res = append(res, &KV{"unused" + strconv.Itoa(n), &Value{K: VString, S: q.str()}})
	}
	return
}

var _ = time.Second

var dirLocs = [...]yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline}
