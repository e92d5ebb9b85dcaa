// Code generated by genshim. DO NOT EDIT.
package fmt

import real "fmt"

type Formatter = real.Formatter
type GoStringer = real.GoStringer
type ScanState = real.ScanState
type Scanner = real.Scanner
type State = real.State
type Stringer = real.Stringer

var Append = real.Append
var Appendf = real.Appendf
var Appendln = real.Appendln
var FormatString = real.FormatString
var Fscan = real.Fscan
var Fscanf = real.Fscanf
var Fscanln = real.Fscanln
var Sscan = real.Sscan
var Sscanf = real.Sscanf
var Sscanln = real.Sscanln
