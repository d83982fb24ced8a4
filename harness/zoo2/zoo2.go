// Package zoo2 has types with the same Go names as types in the harness package
package zoo2

// Fruit is not registered as enum, the type with the same name in the harness package is
type Fruit string

// Cat is registered for the interfaces of the harness package under the name Cat2
type Cat struct {
	Tag   int32  `gq:"-"`
	RName string `gq:"-"`
	Lives uint8
	Fur   Fruit
}

// OnName is called by ResolveName
var OnName = func(tag int32) {}

func (c Cat) ResolveName() string {
	OnName(c.Tag)
	return c.RName
}

// Note is an interface implementation only known by this package
type Note struct {
	Text string
}

func (n Note) ResolveName() string { return n.Text }

// DirectiveModifier has the name of the library's
type DirectiveModifier struct{ Skip bool }
