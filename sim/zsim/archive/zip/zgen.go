// Code generated by genshim. DO NOT EDIT.
package zip

import real "archive/zip"

const Deflate = real.Deflate
const Store = real.Store

type Compressor = real.Compressor
type Decompressor = real.Decompressor
type File = real.File
type FileHeader = real.FileHeader
type Reader = real.Reader
type Writer = real.Writer

var ErrAlgorithm = real.ErrAlgorithm
var ErrChecksum = real.ErrChecksum
var ErrFormat = real.ErrFormat
var ErrInsecurePath = real.ErrInsecurePath
var FileInfoHeader = real.FileInfoHeader
var NewReader = real.NewReader
var NewWriter = real.NewWriter
var RegisterCompressor = real.RegisterCompressor
var RegisterDecompressor = real.RegisterDecompressor
