package bn254

import "github.com/consensys/gnark-crypto/ecc"

const ID = ecc.BN254
