package zoo2

// RegOne has the name of a type in the harness package
type RegOne struct{ N int }

func (r RegOne) ResolveFoo() int { return r.N + 1000 }
