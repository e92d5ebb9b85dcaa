// Code generated by genshim. DO NOT EDIT.
package rand

import real "math/rand/v2"

type ChaCha8 = real.ChaCha8
type PCG = real.PCG
type Rand = real.Rand
type Source = real.Source
type Zipf = real.Zipf

var ExpFloat64 = real.ExpFloat64
var New = real.New
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64
var Uint = real.Uint
var Uint32N = real.Uint32N
var Uint64N = real.Uint64N
var UintN = real.UintN
