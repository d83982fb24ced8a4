package zoo2

// Types for enums, some with the names of types in the harness package

type Shade int8
type Weight uint64
type Mood string
