package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/mjarkk/yarql"
	"verif/harness/zoo2"
)

// Types that cannot be made with reflect: with methods, or containing themselves

type loopList []loopList
type loopPtr *loopPtr
type loopMix []*loopMix
type loopArr *[2]loopArr
type okTree struct{ Sub []okTree }
type okTree2 struct{ Sub *[]*okTree2 }

type mNone struct{ A int }
type mVoid struct{ A int }
type mVariadic struct{ A int }
type mTwo struct{ A int }
type mTwoErr struct{ A int }
type mOnlyErr struct{ A int }
type mOnlyID struct{ A int }
type mCtxVal struct{ A int }
type mIntArg struct{ A int }
type mMapArg struct{ A int }
type mPtrArg struct{ A int }
type mMapIn struct{ A int }
type mIfaceIn struct{ A int }
type mFuncIn struct{ A int }
type mBadTagIn struct{ A int }
type mChan struct{ A int }
type mErrAsData struct{ A int }
type mIDStruct struct{ A int }
type mIDFloat struct{ A int }
type mIDBool struct{ A int }
type mAny struct{ A int }
type mFine struct{ A int }
type mFine2 struct{ A int }
type mBadUnused struct{ A int }
type mBadPtr struct{ A int }
type mDeepIn struct{ A int }
type mLoopIn struct{ A int }
type mHiddenBad struct {
	A int
	b chan int
}

func (mNone) ResolveFoo() int                                           { return 1 }
func (mVoid) ResolveFoo()                                               {}
func (mVariadic) ResolveFoo(a ...struct{ A int }) int                   { return 1 }
func (mTwo) ResolveFoo() (int, string)                                  { return 1, "" }
func (mTwoErr) ResolveFoo() (int, error, error)                         { return 1, nil, nil }
func (mOnlyErr) ResolveFoo() error                                      { return nil }
func (mOnlyID) ResolveFoo() (yarql.AttrIsID, error)                     { return 0, nil }
func (mCtxVal) ResolveFoo(c yarql.Ctx) int                              { return 1 }
func (mIntArg) ResolveFoo(a int) int                                    { return 1 }
func (mMapArg) ResolveFoo(a map[string]int) int                         { return 1 }
func (mPtrArg) ResolveFoo(a *struct{ A int }) int                       { return 1 }
func (mMapIn) ResolveFoo(a struct{ A map[string]int }) int              { return 1 }
func (mIfaceIn) ResolveFoo(c *yarql.Ctx, a struct{ A interface{} }) int { return 1 }
func (mFuncIn) ResolveFoo(a struct{ A []func() }) int                   { return 1 }
func (mBadTagIn) ResolveFoo(a struct {
	A struct {
		B int `gq:"b c"`
	}
}) int {
	return 1
}
func (mChan) ResolveFoo() chan int                        { return nil }
func (mErrAsData) ResolveFoo() ([]error, error)           { return nil, nil }
func (mIDStruct) ResolveFoo() (mNone, yarql.AttrIsID)     { return mNone{}, 0 }
func (mIDFloat) ResolveFoo() (*float64, yarql.AttrIsID)   { return nil, 0 }
func (mIDBool) ResolveFoo() (bool, yarql.AttrIsID, error) { return true, 0, nil }
func (mAny) ResolveFoo() interface{}                      { return 1 }
func (mFine) ResolveFoo() (error, yarql.AttrIsID, *uint8) { return nil, 0, nil }
func (mFine2) ResolveFoo(a struct{ A int }, c *yarql.Ctx, b struct{ B []*mMapIn }) *mFine {
	return nil
}
func (mBadUnused) Foo(a ...int) map[string]chan int { return nil }
func (*mBadPtr) ResolveFoo() chan int               { return nil }
func (mDeepIn) ResolveFoo(a struct {
	A struct{ B []*struct{ C complex64 } }
}) int {
	return 1
}
func (mLoopIn) ResolveFoo(a struct{ A loopList }) int { return 1 }

// interfaces

type badResult interface{ ResolveFoo() chan int }
type badResultImpl struct{}

func (badResultImpl) ResolveFoo() chan int { return nil }

type badArgs interface{ ResolveFoo(a int) int }
type badArgsImpl struct{}

func (badArgsImpl) ResolveFoo(a int) int { return 1 }

type badImpl interface{ Foo() int }
type badImplImpl struct{ C chan int }

func (badImplImpl) Foo() int { return 1 }

type goodIface interface {
	ResolveFoo(a struct{ A int }) (int, error)
	Other(...int)
}
type goodIfaceImpl struct{ C int }

func (goodIfaceImpl) ResolveFoo(a struct{ A int }) (int, error) { return 1, nil }
func (goodIfaceImpl) Other(...int)                              {}

type emptyIface interface{}
type emptyIfaceImpl struct{ C int }

type noImpl interface{ ResolveFoo() int }

var _ = implements((*badResult)(nil), badResultImpl{})
var _ = implements((*badArgs)(nil), badArgsImpl{})
var _ = implements((*badImpl)(nil), badImplImpl{})
var _ = implements((*goodIface)(nil), goodIfaceImpl{})
var _ = implements((*emptyIface)(nil), emptyIfaceImpl{})

var schemaBits = []reflect.Type{
	rt[map[string]int](), rt[chan int](), rt[complex64](), rt[complex128](), rt[uintptr](), rt[unsafe.Pointer](), rt[interface{}](), rt[error](),
	rt[interface{ ResolveFoo() int }](), rt[fmt.Stringer](), rt[context.Context](), rt[io.Reader](), rt[noImpl](),
	rt[badResult](), rt[badArgs](), rt[badImpl](), rt[goodIface](), rt[emptyIface](), rt[Animal](), rt[Node](), rt[badResultImpl](), rt[badArgsImpl](), rt[badImplImpl](), rt[goodIfaceImpl](), rt[emptyIfaceImpl](),
	rt[loopList](), rt[loopPtr](), rt[loopMix](), rt[loopArr](), rt[okTree](), rt[okTree2](),
	rt[mNone](), rt[mVoid](), rt[mVariadic](), rt[mTwo](), rt[mTwoErr](), rt[mOnlyErr](), rt[mOnlyID](), rt[mCtxVal](), rt[mIntArg](), rt[mMapArg](), rt[mPtrArg](), rt[mMapIn](), rt[mIfaceIn](), rt[mFuncIn](), rt[mBadTagIn](), rt[mChan](), rt[mErrAsData](), rt[mIDStruct](), rt[mIDFloat](), rt[mIDBool](), rt[mAny](), rt[mFine](), rt[mFine2](), rt[mBadUnused](), rt[mBadPtr](), rt[mDeepIn](), rt[mLoopIn](), rt[mHiddenBad](),
	rt[sync.Mutex](), rt[bytes.Buffer](), rt[*big.Int](), rt[big.Float](), rt[url.URL](), rt[json.Number](), rt[json.RawMessage](), rt[time.Duration](), rt[time.Location](), rt[*time.Time](), rt[multipart.FileHeader](), rt[http.Header](), rt[http.Client](), rt[reflect.Value](), rt[reflect.StructField](), rt[strings.Builder](), rt[yarql.Ctx](), rt[yarql.Schema](), rt[yarql.Directive](), rt[yarql.AttrIsID](), rt[yarql.ResolveOptions](),
	rt[Person](), rt[zoo2.Cat](), rt[Cat](), rt[Renamed](), rt[func()](), rt[func() int](), rt[[]func() int](), rt[*func() int](), rt[[0]int](), rt[[3]chan int](), rt[struct{}](),
}

// Clasher implements an interface with the name of a struct
type Clasher struct{ A int }

func (Clasher) ResolveClash() int { return 1 }

// clashTypes have the names of other types
var clashTypes = func() []reflect.Type {
	type Node struct{ A int }
	type Time struct{ A int }
	type ID struct{ A int }
	type Fruit struct{ A int }
	type Fine struct{ A int }
	type Boolean interface{ ResolveClash() int }
	type Person interface{ ResolveClash() int }
	type House interface{ ResolveClash() int }
	type Animal interface{ ResolveClash() int }
	implements((*Boolean)(nil), Clasher{})
	implements((*Person)(nil), Clasher{})
	implements((*Animal)(nil), Clasher{})
	return []reflect.Type{rt[Node](), rt[Time](), rt[ID](), rt[Fruit](), rt[Fine](), rt[Boolean](), rt[Person](), rt[House](), rt[Animal](), rt[Clasher]()}
}()

// schemaGen makes types that might not be supported
type schemaGen struct {
	G
	left, odd int
}

func (s *schemaGen) oddNow() bool {
	if s.odd > 0 && s.N(4) == 3 {
		s.odd--
		return true
	}
	return false
}

func (s *schemaGen) typ(depth int) reflect.Type {
	s.left--
	if s.oddNow() {
		switch s.N(7) {
		case 6:
			return pick(s.G, clashTypes)
		case 0:
			return reflect.MapOf(rt[string](), s.typ(depth+1))
		case 1:
			return reflect.ChanOf(reflect.BothDir, s.typ(depth+1))
		}
		return pick(s.G, schemaBits)
	}
	if depth > 4 || s.left < 0 {
		return pick(s.G, plainTypes)
	}
	switch s.N(9) {
	case 0, 1, 2:
		return pick(s.G, plainTypes)
	case 3:
		return reflect.PtrTo(s.typ(depth + 1))
	case 4:
		return reflect.SliceOf(s.typ(depth + 1))
	case 5:
		return reflect.ArrayOf(s.N(3), s.typ(depth+1))
	case 6:
		return s.structType(depth+1, false)
	case 7:
		return pick(s.G, []reflect.Type{rt[Person](), rt[Animal](), rt[House](), rt[okTree2](), rt[mFine](), rt[MethodNames](), rt[Scalars]()})
	}
	return rt[time.Time]()
}

var plainTypes = []reflect.Type{rt[string](), rt[int](), rt[bool](), rt[float64](), rt[uint8](), rt[int64](), rt[float32](), rt[Fruit](), rt[Color](), rt[MyStr](), rt[time.Time](), rt[Solo]()}

var oddTags = []string{"a b", "1a", "_a", "é", "a-b", "a.b", "a!", "__x", " ", "a,foo", ",ids", "a,,", ",", "a,id,x", "-,what", "-", "- ,id", "a,id,id", ",id", "$a", "a\\tb"}

func (s *schemaGen) structType(depth int, in bool) reflect.Type {
	fs := []reflect.StructField{}
	for i := s.N(5); i > 0 || depth == 0 && len(fs) == 0; i-- {
		f := reflect.StructField{Name: fmt.Sprintf("F%c%d", 'a'+s.N(26), len(fs))}
		switch {
		case in:
			f.Type = s.in(depth)
		case s.N(3) == 2:
			f.Type = s.fn(depth)
		default:
			f.Type = s.typ(depth)
		}
		k := f.Type
		for n := 0; n < 3 && k.Kind() == reflect.Ptr; n++ {
			k = k.Elem()
		}
		switch {
		case s.oddNow():
			tag := pick(s.G, oddTags)
			if s.N(3) == 2 {
				tag = ",id"
			}
			f.Tag = reflect.StructTag(`gq:"` + tag + `"`)
		case idKind(k.Kind()) && k.PkgPath() == "" && s.N(4) == 3:
			f.Tag = `gq:",id"`
		case s.N(9) == 8:
			f.Tag = `gq:"-"`
		}
		if s.N(12) == 11 {
			f.Name, f.PkgPath = strings.ToLower(f.Name), "verif/harness"
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (s *schemaGen) in(depth int) reflect.Type {
	s.left--
	if s.oddNow() {
		switch s.N(5) {
		case 0:
			return reflect.MapOf(rt[string](), rt[int]())
		case 1:
			return s.fn(depth + 1)
		case 2:
			return pick(s.G, clashTypes)
		}
		return pick(s.G, schemaBits)
	}
	if depth > 4 || s.left < 0 {
		return pick(s.G, plainTypes)
	}
	switch s.N(10) {
	case 0, 1, 2:
		return pick(s.G, plainTypes)
	case 3:
		return reflect.PtrTo(s.in(depth + 1))
	case 4:
		return reflect.SliceOf(s.in(depth + 1))
	case 5:
		return reflect.ArrayOf(s.N(3), s.in(depth+1))
	case 6, 7:
		return s.structType(depth+1, true)
	case 8:
		return tFile
	}
	return pick(s.G, []reflect.Type{rt[PointIn](), rt[TreeIn](), rt[Both](), rt[RenamedIn](), rt[okTree](), rt[mNone](), rt[time.Time]()})
}

func (s *schemaGen) fn(depth int) reflect.Type {
	in, out := []reflect.Type{}, []reflect.Type{}
	for i := s.N(3); i > 0; i-- {
		switch {
		case s.oddNow():
			in = append(in, pick(s.G, []reflect.Type{tCtx, rt[int](), rt[*PointIn](), rt[[]PointIn](), rt[map[string]int](), rt[interface{}](), rt[context.Context](), rt[func()](), rt[**yarql.Ctx](), rt[[]*yarql.Ctx](), tTime, tFile, rt[*yarql.Schema](), rt[Person]()}))
		case s.N(4) == 3:
			in = append(in, tCtxPtr)
		case s.N(6) == 5:
			in = append(in, rt[PointIn]())
		default:
			in = append(in, s.structType(depth+1, true))
		}
	}
	data := true
	if s.oddNow() {
		data = s.N(2) == 0
		for i := s.N(3); i > 0; i-- {
			out = append(out, pick(s.G, []reflect.Type{tErr, tAttrID, rt[int](), rt[chan int](), rt[error](), rt[CodedErr](), rt[[]error]()}))
		}
	} else {
		if s.N(3) == 2 {
			out = append(out, pick(s.G, []reflect.Type{tErr, tErr, rt[CodedErr]()}))
		}
	}
	if data {
		t := s.typ(depth + 1)
		if idKind(t.Kind()) && s.N(4) == 3 {
			out = append(out, tAttrID)
		}
		out = append(out, t)
	}
	perm(s.G, out)
	variadic := false
	if s.oddNow() && s.N(3) == 2 {
		in = append(in, reflect.SliceOf(s.structType(depth+1, true)))
		variadic = true
	}
	return reflect.FuncOf(in, out, variadic)
}

func (s *schemaGen) root(named bool) (interface{}, reflect.Type) {
	var t reflect.Type
	if s.odd > 0 && s.N(12) == 11 {
		s.odd--
		switch s.N(4) {
		case 0:
			return nil, nil
		case 1:
			t = pick(s.G, schemaBits)
			if t.Kind() == reflect.Interface {
				return nil, nil
			}
		case 2:
			t = pick(s.G, plainTypes)
		default:
			t = reflect.PtrTo(rt[SmallMutation]())
		}
	} else if named || s.N(8) == 7 {
		t = pick(s.G, []reflect.Type{rt[SmallMutation](), rt[EmptyMutation](), rt[PeopleQuery](), rt[Person](), rt[mFine2](), rt[MethodNames](), rt[struct{}]()})
	} else {
		t = s.structType(0, false)
	}
	return reflect.Zero(t).Interface(), t
}

// parse calls Parse, panics become errors
func parse(s *yarql.Schema, q, m interface{}) (err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	guard(func() string { return fmt.Sprintf("parse of %T and %T", q, m) }, func() {
		err = s.Parse(q, m, nil)
	})
	return
}

func TestC21(t *testing.T) {
	check(t, "nontrivial = a pair of roots that is refused, or is accepted and has func fields, interfaces or recursive types; distinct by the types", func(g G, st *Stats) {
		sg := &schemaGen{G: g, left: 14, odd: []int{0, 1, 1, 2, 3}[g.N(5)]}
		q, qt := sg.root(false)
		m, mt := sg.root(g.N(8) < 7)
		if g.N(4) == 3 {
			q, qt, m, mt = m, mt, q, qt
		}
		text := fmt.Sprintf("query root: %v\nmutation root: %v", qt, mt)
		reg := ZooRegistry()
		model, want := BuildModel(reg, qt, mt)
		s, err := reg.NewYarql()
		if err != nil {
			g.T.Fatal(err)
		}
		before := ""
		if g.N(4) == 3 {
			// the schema has seen other roots before, with or without success
			q0, t0 := sg.root(false)
			m0, t1 := sg.root(true)
			err, panicked := parse(s, q0, m0)
			if panicked != nil {
				g.T.Fatalf("Parse panics with %v for %v and %v", panicked, t0, t1)
			}
			before = fmt.Sprintf("\nparsed before (error %v): %v and %v", err, t0, t1)
			text += before
		}
		got, panicked := parse(s, q, m)
		if panicked != nil {
			g.T.Fatalf("Parse panics with %v\n%s\nexpected: %v", panicked, text, want)
		}
		if (got != nil) != (want != nil) {
			g.T.Fatalf("Parse returns the error %v, expected %v\n%s", got, want, text)
		}
		st.Case(want != nil || strings.Contains(text, "func(") || len(model.Ifaces) > 0, text)
		st.Class("accepted", want == nil)
		st.Class("accepted with odd parts", want == nil && sg.odd == 0)
		if want != nil {
			if got.Error() == "" {
				g.T.Fatalf("Parse returns an error without text, expected %v\n%s", want, text)
			}
			why := want.Error()
			why = why[strings.LastIndex(why, ": ")+1:]
			words := append(strings.Fields(why), "", "")
			st.Class("refused: "+strings.Join(words[:2], " "), true)
			// a refused schema serves nothing
			stdout := os.Stdout
			os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			errs := s.Resolve([]byte("{__typename}"), yarql.ResolveOptions{})
			os.Stdout.Close()
			os.Stdout = stdout
			if len(errs) == 0 && (before == "" || q != nil && m != nil) {
				g.T.Fatalf("a schema that was refused with %v answers %s\n%s", got, s.Result, text)
			}
			if again, panicked := parse(s, q, m); panicked != nil || again == nil {
				g.T.Fatalf("the second Parse of the same roots panics with %v or returns the error %v, the first returned %v, expected %v\n%s", panicked, again, got, want, text)
			}
			return
		}
		e := &Env{M: model, Reg: reg, Q: reflect.ValueOf(q), Mut: reflect.ValueOf(m), S: s}
		for _, kind := range []string{"query", "mutation"} {
			r := e.single(kind, []*Sel{plainSel("__typename")})
			g.must(e, r, cmp{data: true, errs: true})
		}
		doc, op := fullDoc()
		full := &Request{Doc: doc, Op: op, Query: doc.Print(nil)}
		resp := resolve(s, full.Query, full.Opts)
		if err := errors.Join(resp.envelope(full.Opts), errors.Join(resp.Errs...)); err != nil {
			g.fatal(err, e, full, resp)
		}
		if before != "" {
			fresh, err := reg.NewYarql()
			if err != nil {
				panic(err)
			}
			if err := fresh.Parse(q, m, nil); err != nil {
				g.T.Fatalf("%v\n%s", err, text)
			}
			if r := resolve(fresh, full.Query, full.Opts); r.String() != resp.String() {
				g.fatal(fmt.Errorf("the introspection is not that of a schema without earlier roots: %s", r), e, full, resp, before)
			}
			st.Class("accepted after other roots", true)
		}
		names := map[string]bool{}
		for _, t := range resp.J.Get("data").Get("__schema").Get("types").L {
			names[t.Get("name").S] = true
		}
		for _, n := range model.typeNames() {
			if !names[n] {
				g.fatal(fmt.Errorf("the type %s is missing in the introspection", n), e, full, resp)
			}
		}
	})
}
