module verif/harness

go 1.23

require (
	github.com/giulianopz/go-readability v0.0.0
	golang.org/x/net v0.25.0
	pgregory.net/rapid v1.3.0
)

require github.com/andybalholm/cascadia v1.3.2 // indirect

replace github.com/giulianopz/go-readability => /repo
