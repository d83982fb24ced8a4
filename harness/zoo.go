package harness

import (
	"errors"
	"mime/multipart"
	"reflect"
	"strconv"
	"time"

	"verif/harness/zoo2"

	"github.com/mjarkk/yarql"
)

// Enums

type Fruit uint8
type Color string
type Level int16
type Big uint64
type Solo int

var zooEnums = []interface{}{
	map[string]Fruit{"APPLE": 0, "PEER": 1, "GRAPEFRUIT": 7, "nullish": 8, "trueish": 9, "truez": 10, "nullA": 11, "falseZ": 12, "null0": 13, "true9": 14, "false_": 15},
	map[string]Color{"RED": "red", "GREEN": "", "blue_2": "BLUE", "RED_": "RED"},
	map[string]Level{"LOW": -300, "MID": 0, "HIGH": 32767},
	map[string]Big{"B0": 0, "BMAX": 18446744073709551615, "B63": 1 << 63},
	map[string]Solo{"ONLY": -5},
}

// Named types that are no enums

type MyStr string
type MyInt int32
type MyFloat float32
type MyBool bool
type Names []string
type Grid [][]int16

// Inputs

type PointIn struct {
	X      int8
	Y      *int16
	Label  string `gq:"lbl"`
	Hidden string `gq:"-"`
	ABC    uint
	inner  int
}

type TreeIn struct {
	Val    int64
	Kids   []TreeIn
	Left   *TreeIn
	Tags   []string
	Opt    *Fruit
	Colors []Color
	Pts    []*PointIn
	F32    float32
	F64    *float64
	B      bool
	When   *time.Time
	Key    uint16  `gq:"id,ID"`
	SKey   *string `gq:",id"`
	Matrix [][]int32
	PP     **int8
}

// FixedIn has members no value can be given to
type FixedIn struct {
	Two   [2]int
	Ptr   *[1]string
	Pairs [][2]bool
	In    [3]PointIn
	Name  string
}

// Both is used as output and as input
type Both struct {
	Name string
	N    int32
	Kid  *Both
}

// Outputs

type Scalars struct {
	Bo   bool
	Str  string
	In   int
	In8  int8
	In16 int16
	In32 int32
	In64 int64
	Ui   uint
	Ui8  uint8
	Ui16 uint16
	Ui32 uint32
	Ui64 uint64
	Fl32 float32
	Fl64 float64
	Ms   MyStr
	Mi   MyInt
	Mf   MyFloat
	Mb   MyBool

	Ids    string  `gq:",id"`
	Idi    int     `gq:"idi,ID"`
	Idi8   int8    `gq:"idi_8, Id"`
	Idu64  uint64  `gq:",id"`
	Idps   *string `gq:",ID"`
	Idpi   *int32  `gq:",id"`
	Idpp   **uint8 `gq:",id"`
	FOO    string
	URLish string `gq:"Custom_Name9"`
	Skip   string `gq:"-"`

	En    Fruit
	Col   Color
	Lvl   Level
	Bg    Big
	Not   zoo2.Fruit
	Pen   *Fruit
	Lcol  []Color
	Tm    time.Time
	Ptm   *time.Time
	Ltm   []time.Time
	Pstr  *string
	Pint  *int64
	Ppbo  **bool
	Lstr  []string
	Lint  []int
	Lby   []byte
	Lfl   []float64
	LLin  [][]int32
	Lps   []*string
	Plst  *[]string
	Plps  *[]*float32
	Arr   [3]int8
	Aarr  [2][2]string
	Names Names
	Grid  Grid
	Aptr  [2]*uint16
}

type embedded struct {
	EmbeddedField string
}

type Person struct {
	embedded
	Tag     int32   `gq:"-"`
	RLabel  string  `gq:"-"`
	RErr    string  `gq:"-"`
	RBest   *Person `gq:"-"`
	RPals   []Person
	RID     uint32   `gq:"-"`
	RPets   []Animal `gq:"-"`
	Name    string
	Age     *uint8
	Friends []Person
	Parent  *Person
	Fav     Fruit
	Home    Node
	Pets    []Animal
	PPets   []*Animal
	Both    Both
	Meta    *Scalars
	Calc    func(ctx *yarql.Ctx, args struct {
		A int32
		B *string
		T *TreeIn
	}) (string, error)
	Lazy func() *Person
}

// panicText as an error text makes a resolver panic
const panicText = "the resolver panics"

func mkErr(s string) error {
	switch s {
	case "":
		return nil
	case panicText:
		panic(panicText)
	}
	return errors.New(s)
}

type LabelArgs struct {
	Prefix string
	N      *int16
	Color  Color
	hidden int
}

func (p Person) ResolveId() (uint32, yarql.AttrIsID) {
	logCall(nil, "Person.id"+tagStr(p.Tag))
	return p.RID, 0
}

func (p Person) ResolveLabel(ctx *yarql.Ctx, args LabelArgs) (string, error) {
	logCall(ctx, "Person.label"+tagStr(p.Tag), args)
	return args.Prefix + p.RLabel, mkErr(p.RErr)
}

func (p Person) ResolveBest(ctx *yarql.Ctx) (*Person, error) {
	logCall(ctx, "Person.best"+tagStr(p.Tag))
	return p.RBest, mkErr(p.RErr)
}

func (p Person) ResolvePals(args struct {
	First *int
	Where PointIn
	By    []Level
}, ctx *yarql.Ctx, more struct {
	Extra map1 `gq:"-"`
	Last  bool
}) (err error, pals []Person) {
	logCall(ctx, "Person.pals"+tagStr(p.Tag), args, more.Last)
	return mkErr(p.RErr), p.RPals
}

type map1 map[string]int

func (p Person) ResolvePets() []Animal {
	logCall(nil, "Person.pets"+tagStr(p.Tag))
	return p.RPets
}

// Not resolvers
func (p Person) Resolvelower() string          { return "no" }
func (p Person) Resolve() string               { return "no" }
func (p Person) Unresolved() string            { return "no" }
func (p Person) GetName() string               { return "no" }
func (p *Person) ResolveOnPointer() string     { return "no" }
func (p Person) resolveSmall() map[string]bool { return nil }

// Interfaces

type Node interface {
	ResolveId() (uint32, yarql.AttrIsID)
	ResolveLabel(ctx *yarql.Ctx, args LabelArgs) (string, error)
}

type Animal interface {
	ResolveName() string
}

type Cat struct {
	Tag    int32  `gq:"-"`
	RName  string `gq:"-"`
	Meow   *string
	Kids   []Animal
	Owner  *Person
	RErr   string `gq:"-"`
	RId    uint32 `gq:"-"`
	Indoor bool
}

func (c Cat) ResolveName() string {
	logCall(nil, "Cat.name"+tagStr(c.Tag))
	return c.RName
}
func (c Cat) ResolveId() (uint32, yarql.AttrIsID) {
	logCall(nil, "Cat.id"+tagStr(c.Tag))
	return c.RId, 0
}
func (c Cat) ResolveLabel(ctx *yarql.Ctx, args LabelArgs) (string, error) {
	logCall(ctx, "Cat.label"+tagStr(c.Tag), args)
	return c.RName + args.Prefix, mkErr(c.RErr)
}

type Dog struct {
	Tag   int32  `gq:"-"`
	RName string `gq:"-"`
	Bark  string
	Mate  Animal
	Sizes [2]uint8
}

func (d Dog) ResolveName() string {
	logCall(nil, "Dog.name"+tagStr(d.Tag))
	return d.RName
}

// Ghost implements Animal but is not registered
type Ghost struct{ Bark string }

func (Ghost) ResolveName() string { return "boo" }

// House implements only Node
type House struct {
	Tag    int32  `gq:"-"`
	RErr   string `gq:"-"`
	Street string
	People []Person
}

func (h House) ResolveId() (uint32, yarql.AttrIsID) {
	logCall(nil, "House.id"+tagStr(h.Tag))
	return 7, 0
}
func (h House) ResolveLabel(ctx *yarql.Ctx, args LabelArgs) (string, error) {
	logCall(ctx, "House.label"+tagStr(h.Tag), args)
	return h.Street, mkErr(h.RErr)
}

var (
	tNode   = reflect.TypeOf((*Node)(nil)).Elem()
	tAnimal = reflect.TypeOf((*Animal)(nil)).Elem()
)

func implements(i interface{}, v interface{}) bool {
	it, vt := reflect.TypeOf(i).Elem(), reflect.TypeOf(v)
	regImpl[it] = append(regImpl[it], vt)
	regIfaces[vt] = append(regIfaces[vt], it)
	return yarql.Implements(i, v)
}

func rename(v interface{}, name string) bool {
	regRename[reflect.TypeOf(v)] = name
	yarql.TypeRename(v, name)
	return true
}

var _ = implements((*Animal)(nil), Cat{})
var _ = implements((*Animal)(nil), Dog{})
var _ = implements((*Animal)(nil), zoo2.Cat{})
var _ = implements((*Node)(nil), Person{})
var _ = implements((*Node)(nil), Cat{})
var _ = implements((*Node)(nil), House{})
var _ = rename(zoo2.Cat{}, "Cat2")
var _ = rename(Renamed{}, "NewName")
var _ = rename(RenamedIn{}, "NewIn")

type Renamed struct {
	A string
	B *Renamed
}

type RenamedIn struct {
	A string
	B *RenamedIn
}

func init() {
	zoo2.OnName = func(tag int32) { logCall(nil, "Cat2.name"+tagStr(tag)) }
}

// Roots

type ZooQuery struct {
	Tag      int32 `gq:"-"`
	Scalars  Scalars
	PScalars *Scalars
	LScalars []Scalars
	Me       Person
	People   []*Person
	RPerson  *Person   `gq:"-"`
	RPeople  []Person  `gq:"-"`
	RNode    Node      `gq:"-"`
	RNodes   []Node    `gq:"-"`
	RErr     string    `gq:"-"`
	RStr     string    `gq:"-"`
	RTime    time.Time `gq:"-"`
	RFruit   Fruit     `gq:"-"`
	Node     Node
	PNode    *Node
	Nodes    []Node
	Pet      Animal
	Pets     [][]Animal
	House    House
	Cat      Cat
	Dog      *Dog
	Cat2     zoo2.Cat
	Renamed  Renamed
	Deep     [][]*Person
	Anon     struct {
		A string
		B []struct{ C *int }
		D func(args struct {
			X []struct{ Y int8 }
			Z *struct{ W string }
		}) *struct{ E bool }
	}
	Fn     func() string
	FnArgs func(ctx *yarql.Ctx, args TreeIn) (*Both, error)
	FnID   func(args struct {
		Key int64 `gq:",id"`
	}) (uint64, yarql.AttrIsID)
	TagID   func() string `gq:"tag_id,id"`
	FnLists func(args struct {
		L  []int
		LL [][]string
		LP []*int32
		PL *[]uint8
		LE []Fruit
		LB []Both
		LT []time.Time
	}) []Both
}

func (q ZooQuery) ResolvePerson(ctx *yarql.Ctx, args struct {
	Key uint32 `gq:"id,ID"`
}) (*Person, error) {
	logCall(ctx, "Query.person", args)
	return q.RPerson, mkErr(q.RErr)
}

func (q ZooQuery) ResolveSearch(args struct {
	Text   string
	Tree   *TreeIn
	Fruits []Fruit
	Limit  int16
	Ren    *RenamedIn
	Fix    *FixedIn
}, ctx *yarql.Ctx) ([]Person, error) {
	logCall(ctx, "Query.search", args)
	return q.RPeople, mkErr(q.RErr)
}

func (q ZooQuery) ResolveNodeBy(ctx *yarql.Ctx, args struct {
	ID string `gq:"id,id"`
}) (error, Node) {
	logCall(ctx, "Query.nodeBy", args)
	return mkErr(q.RErr), q.RNode
}

func (q ZooQuery) ResolveAllNodes() []Node {
	logCall(nil, "Query.allNodes")
	return q.RNodes
}

func (q ZooQuery) ResolveNow(args struct{ At time.Time }) time.Time {
	logCall(nil, "Query.now", args)
	return q.RTime
}

func (q ZooQuery) ResolveFruit(args struct{ Like Fruit }) (Fruit, error) {
	logCall(nil, "Query.fruit", args)
	return q.RFruit, mkErr(q.RErr)
}

func (q ZooQuery) ResolveURL() string {
	logCall(nil, "Query.URL")
	return q.RStr
}

func (q ZooQuery) ResolveUpload(ctx *yarql.Ctx, args struct {
	File  *multipart.FileHeader
	Other *multipart.FileHeader
	Files []*multipart.FileHeader
	N     int
}) string {
	logCall(ctx, "Query.upload", args)
	if args.File == nil {
		return ""
	}
	return args.File.Filename
}

func (q ZooQuery) ResolveEchoBoth(args struct{ In Both }) Both {
	logCall(nil, "Query.echoBoth", args)
	return args.In
}

type AllArgs struct {
	Bo   bool
	Str  string
	In   int
	In8  int8
	In16 int16
	In32 int32
	In64 int64
	Ui   uint
	Ui8  uint8
	Ui16 uint16
	Ui32 uint32
	Ui64 uint64
	Fl32 float32
	Fl64 float64
	Ms   MyStr
	Mi   MyInt
	Mf   MyFloat
	Mb   MyBool
	Ids  string `gq:",id"`
	Idi8 int8   `gq:",id"`
	Idu  uint64 `gq:",id"`
	Idp  *int32 `gq:",id"`
	En   Fruit
	Col  Color
	Lvl  Level
	Bg   Big
	Not  zoo2.Fruit
	Tm   time.Time
	Ptm  *time.Time
	Pbo  *bool
	Pstr *string
	Pin  *int64
	Ppf  **float64
	Lstr []string
	Lps  []*string
	LLin [][]int16
	Lui8 []uint8
	Plst *[]Color
	Nms  Names
	Tree TreeIn
	Ptr  *TreeIn
	Pts  []PointIn
	Both *Both
	Ren  RenamedIn
	Fix  FixedIn
}

func (q ZooQuery) ResolveAll(args AllArgs) bool {
	logCall(nil, "Query.all", args)
	return true
}

type ZooMutation struct {
	Tag     int32   `gq:"-"`
	RPerson *Person `gq:"-"`
	RErr    string  `gq:"-"`
	State   Both
	Self    *ZooQuery
	Set     func(args struct{ V int64 }) (int64, error)
}

func (m ZooMutation) ResolveCreate(ctx *yarql.Ctx, args struct {
	Name string
	Tree *TreeIn
}) (*Person, error) {
	logCall(ctx, "Mutation.create", args)
	return m.RPerson, mkErr(m.RErr)
}

func (m ZooMutation) ResolveDelete(args struct{ Ids []int32 }) bool {
	logCall(nil, "Mutation.delete", args)
	return true
}

// Directives

func zooDirectives() []*Dir {
	return []*Dir{
		{D: yarql.Directive{
			Name:  "note",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
			Method: func(args struct {
				Text  string
				Tree  *TreeIn
				Fruit Fruit
				Skip  bool
			}) yarql.DirectiveModifier {
				logCall(nil, "@note", args)
				return yarql.DirectiveModifier{Skip: args.Skip}
			},
			Description: "notes",
		}},
		{D: yarql.Directive{
			Name:  "fieldOnly",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField},
			Method: func(ctx *yarql.Ctx) yarql.DirectiveModifier {
				logCall(ctx, "@fieldOnly")
				return yarql.DirectiveModifier{}
			},
		}},
		{D: yarql.Directive{
			Name:  "skip_2",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationFragmentInline, yarql.DirectiveLocationFragment},
			Method: func(ctx *yarql.Ctx, args struct{ If *bool }) yarql.DirectiveModifier {
				logCall(ctx, "@skip_2", args)
				return yarql.DirectiveModifier{Skip: args.If != nil && *args.If}
			},
		}},
		{D: yarql.Directive{
			Name:  "spreadOnly",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationFragment},
			Method: func(args struct {
				If *bool
				N  int8
			}) yarql.DirectiveModifier {
				logCall(nil, "@spreadOnly", args)
				return yarql.DirectiveModifier{Skip: args.If != nil && *args.If}
			},
			Description: "only on spreads",
		}},
		{D: yarql.Directive{
			Name:  "inlineOnly",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationFragmentInline},
			Method: func(args struct{ If bool }) yarql.DirectiveModifier {
				logCall(nil, "@inlineOnly", args)
				return yarql.DirectiveModifier{Skip: args.If}
			},
		}},
		// one name for 2 directives with their own places, and arguments of an input type without a name
		{D: yarql.Directive{
			Name:  "split",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField},
			Method: func(args struct {
				At   struct{ Line, Column int16 }
				Skip bool
			}) yarql.DirectiveModifier {
				logCall(nil, "@split on a field", args)
				return yarql.DirectiveModifier{Skip: args.Skip}
			},
			Description: "of fields",
		}},
		{D: yarql.Directive{
			Name:  "split",
			Where: []yarql.DirectiveLocation{yarql.DirectiveLocationFragmentInline, yarql.DirectiveLocationFragment},
			Method: func(args struct {
				If    bool
				Where []struct{ X, Y float64 }
			}) yarql.DirectiveModifier {
				logCall(nil, "@split on a fragment", args)
				return yarql.DirectiveModifier{Skip: args.If}
			},
			Description: "of fragments",
		}},
	}
}

func ZooRegistry() *Registry {
	r := &Registry{Dirs: zooDirectives()}
	for _, e := range zooEnums {
		r.Enums = append(r.Enums, NewEnum(e))
	}
	return r
}

// Spook implements Node but is not registered
type Spook struct{ Bark string }

func (Spook) ResolveId() (uint32, yarql.AttrIsID) { return 0, 0 }
func (Spook) ResolveLabel(ctx *yarql.Ctx, args LabelArgs) (string, error) {
	return "", nil
}

// Pair is a small object with a resolver that takes lists
type Pair struct {
	Tag   int32  `gq:"-"`
	RStr  string `gq:"-"`
	RErr  string `gq:"-"`
	Left  *Pair
	Right []Pair
	Num   int64
}

func (p Pair) ResolveJoin(ctx *yarql.Ctx, args struct {
	Nums  []int8
	Names []string `gq:"by_names"`
	Flag  *bool
}) (string, error) {
	logCall(ctx, "Pair.join"+tagStr(p.Tag), args)
	return p.RStr, mkErr(p.RErr)
}

func tagStr(t int32) string { return "#" + strconv.Itoa(int(t)) }

func ctxOf(v reflect.Value) *yarql.Ctx { return v.Interface().(*yarql.Ctx) }

// SmallMutation is the other root next to a generated one
type SmallMutation struct {
	Tag  int32  `gq:"-"`
	RStr string `gq:"-"`
	RErr string `gq:"-"`
	Pair Pair
	Set  func(ctx *yarql.Ctx, args struct{ V int64 }) (int64, error)
}

func (m SmallMutation) ResolveAdd(ctx *yarql.Ctx, args struct {
	Nums []int32
	Opt  *string
}) (string, error) {
	logCall(ctx, "Small.add"+tagStr(m.Tag), args)
	return m.RStr, mkErr(m.RErr)
}

// PeopleQuery has lists of objects with resolvers
type PeopleQuery struct {
	Tag    int32  `gq:"-"`
	RPairs []Pair `gq:"-"`
	RErr   string `gq:"-"`
	Pairs  []Pair
	People []Person
	Matrix [][]Pair
	Nodes  []Node
	Pets   []*Animal
	Houses []*House
	One    *Pair
	Fn     func(ctx *yarql.Ctx) ([]Pair, error)
	FnOne  func(args struct{ N int }) (error, *Pair)
	Fixed  [3]Pair
}

func (q PeopleQuery) ResolveSome(ctx *yarql.Ctx, args struct{ N int8 }) ([]Pair, error) {
	logCall(ctx, "People.some", args)
	return q.RPairs, mkErr(q.RErr)
}

// PeopleModel is a schema for long lists of objects with resolvers
func PeopleModel() *Env { return newModel(rt[PeopleQuery](), rt[SmallMutation]()) }
