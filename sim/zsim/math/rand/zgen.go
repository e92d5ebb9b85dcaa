// Code generated by genshim. DO NOT EDIT.
package rand

import real "math/rand"

type Rand = real.Rand
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf

var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
