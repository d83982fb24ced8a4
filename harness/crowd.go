package harness

import "github.com/mjarkk/yarql"

// Crowd is an interface with many implementations
type Crowd interface {
	ResolveNr() int
	ResolveNext(ctx *yarql.Ctx) Crowd
}

// Role is an interface of some of the crowd
type Role interface {
	ResolveNr() int
	ResolveRole() string
}

type Role0 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role1 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role2 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role3 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role4 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role5 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role6 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role7 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Role8 interface {
	Role
	ResolveNext(ctx *yarql.Ctx) Crowd
}

type Member0 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm0   int
	Size  int8
}

func (m Member0) ResolveNr() int { return 0 }
func (m Member0) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member0.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member0{})

func (m Member0) ResolveRole() string { return "role 0" }

var _ = implements((*Role)(nil), Member0{})

type Member1 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm1   int
	Size  int8
}

func (m Member1) ResolveNr() int { return 1 }
func (m Member1) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member1.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member1{})

type Member2 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm2   int
	Size  int8
}

func (m Member2) ResolveNr() int { return 2 }
func (m Member2) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member2.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member2{})

type Member3 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm3   int
	Size  int8
}

func (m Member3) ResolveNr() int { return 3 }
func (m Member3) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member3.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member3{})

func (m Member3) ResolveRole() string { return "role 3" }

var _ = implements((*Role)(nil), Member3{})
var _ = implements((*Role0)(nil), Member3{})
var _ = implements((*Role1)(nil), Member3{})
var _ = implements((*Role2)(nil), Member3{})
var _ = implements((*Role3)(nil), Member3{})
var _ = implements((*Role4)(nil), Member3{})
var _ = implements((*Role5)(nil), Member3{})
var _ = implements((*Role6)(nil), Member3{})
var _ = implements((*Role7)(nil), Member3{})
var _ = implements((*Role8)(nil), Member3{})

type Member4 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm4   int
	Size  int8
}

func (m Member4) ResolveNr() int { return 4 }
func (m Member4) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member4.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member4{})

type Member5 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm5   int
	Size  int8
}

func (m Member5) ResolveNr() int { return 5 }
func (m Member5) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member5.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member5{})

type Member6 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm6   int
	Size  int8
}

func (m Member6) ResolveNr() int { return 6 }
func (m Member6) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member6.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member6{})

func (m Member6) ResolveRole() string { return "role 6" }

var _ = implements((*Role)(nil), Member6{})

type Member7 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm7   int
	Size  int8
}

func (m Member7) ResolveNr() int { return 7 }
func (m Member7) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member7.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member7{})

type Member8 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm8   int
	Size  int8
}

func (m Member8) ResolveNr() int { return 8 }
func (m Member8) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member8.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member8{})

type Member9 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm9   int
	Size  int8
}

func (m Member9) ResolveNr() int { return 9 }
func (m Member9) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member9.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member9{})

func (m Member9) ResolveRole() string { return "role 9" }

var _ = implements((*Role)(nil), Member9{})
var _ = implements((*Role1)(nil), Member9{})
var _ = implements((*Role3)(nil), Member9{})
var _ = implements((*Role5)(nil), Member9{})
var _ = implements((*Role7)(nil), Member9{})

type Member10 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm10  int
	Size  int8
}

func (m Member10) ResolveNr() int { return 10 }
func (m Member10) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member10.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member10{})

type Member11 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm11  int
	Size  int8
}

func (m Member11) ResolveNr() int { return 11 }
func (m Member11) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member11.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member11{})

type Member12 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm12  int
	Size  int8
}

func (m Member12) ResolveNr() int { return 12 }
func (m Member12) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member12.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member12{})

func (m Member12) ResolveRole() string { return "role 12" }

var _ = implements((*Role)(nil), Member12{})

type Member13 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm13  int
	Size  int8
}

func (m Member13) ResolveNr() int { return 13 }
func (m Member13) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member13.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member13{})

type Member14 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm14  int
	Size  int8
}

func (m Member14) ResolveNr() int { return 14 }
func (m Member14) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member14.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member14{})

type Member15 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm15  int
	Size  int8
}

func (m Member15) ResolveNr() int { return 15 }
func (m Member15) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member15.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member15{})

func (m Member15) ResolveRole() string { return "role 15" }

var _ = implements((*Role)(nil), Member15{})

type Member16 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm16  int
	Size  int8
}

func (m Member16) ResolveNr() int { return 16 }
func (m Member16) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member16.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member16{})

type Member17 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm17  int
	Size  int8
}

func (m Member17) ResolveNr() int { return 17 }
func (m Member17) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member17.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member17{})

type Member18 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm18  int
	Size  int8
}

func (m Member18) ResolveNr() int { return 18 }
func (m Member18) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member18.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member18{})

func (m Member18) ResolveRole() string { return "role 18" }

var _ = implements((*Role)(nil), Member18{})

type Member19 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm19  int
	Size  int8
}

func (m Member19) ResolveNr() int { return 19 }
func (m Member19) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member19.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member19{})

type Member20 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm20  int
	Size  int8
}

func (m Member20) ResolveNr() int { return 20 }
func (m Member20) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member20.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member20{})

type Member21 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm21  int
	Size  int8
}

func (m Member21) ResolveNr() int { return 21 }
func (m Member21) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member21.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member21{})

func (m Member21) ResolveRole() string { return "role 21" }

var _ = implements((*Role)(nil), Member21{})
var _ = implements((*Role0)(nil), Member21{})
var _ = implements((*Role1)(nil), Member21{})
var _ = implements((*Role2)(nil), Member21{})
var _ = implements((*Role3)(nil), Member21{})
var _ = implements((*Role4)(nil), Member21{})
var _ = implements((*Role5)(nil), Member21{})
var _ = implements((*Role6)(nil), Member21{})
var _ = implements((*Role7)(nil), Member21{})
var _ = implements((*Role8)(nil), Member21{})

type Member22 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm22  int
	Size  int8
}

func (m Member22) ResolveNr() int { return 22 }
func (m Member22) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member22.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member22{})

type Member23 struct {
	Tag   int32 `gq:"-"`
	RNext Crowd `gq:"-"`
	Vm23  int
	Size  int8
}

func (m Member23) ResolveNr() int { return 23 }
func (m Member23) ResolveNext(ctx *yarql.Ctx) Crowd {
	logCall(ctx, "Member23.next"+tagStr(m.Tag))
	return m.RNext
}

var _ = implements((*Crowd)(nil), Member23{})
