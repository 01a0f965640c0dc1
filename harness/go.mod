module vh
go 1.25.0
require github.com/neilotoole/jsoncolor v0.0.0
replace github.com/neilotoole/jsoncolor => /repo
require (
	github.com/fatih/color v1.19.0
	github.com/mattn/go-colorable v0.1.14
	golang.org/x/sys v0.45.0
	golang.org/x/term v0.43.0
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/mattn/go-isatty v0.0.22 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/segmentio/asm v1.1.3 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require (
	// Only used for test/benchmark/comparison.
	github.com/nwidger/jsoncolor v0.3.2
	// Only used for test/benchmark/comparison.
	github.com/segmentio/encoding v0.5.4
	github.com/stretchr/testify v1.11.1
)
