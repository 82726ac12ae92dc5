module verif

go 1.21.6

require (
	github.com/PolyhedraZK/ExpanderCompilerCollection v0.0.0
	github.com/consensys/gnark v0.10.0
	github.com/consensys/gnark-crypto v0.13.0
	golang.org/x/crypto v0.26.0
)

replace (
	github.com/PolyhedraZK/ExpanderCompilerCollection => /repo
	github.com/consensys/gnark => ../../../shims/go/gnark
	github.com/consensys/gnark-crypto => ../../../shims/go/gnark-crypto
	golang.org/x/crypto => ../../../shims/go/xcrypto
)
