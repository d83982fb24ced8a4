module verif/harness

go 1.23

require (
	github.com/mjarkk/yarql v0.0.0
	github.com/valyala/fastjson v1.6.3
	pgregory.net/rapid v1.3.0
)

replace github.com/mjarkk/yarql => /repo
