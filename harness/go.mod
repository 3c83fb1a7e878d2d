module vharness

go 1.16

require (
	github.com/ethereum/go-ethereum v1.9.2
	github.com/philhofer/seth v0.0.0
	github.com/tinylib/msgp v1.1.0
	golang.org/x/crypto v0.0.0-20190820162420-60c769a6c586
)

replace github.com/philhofer/seth => /repo
