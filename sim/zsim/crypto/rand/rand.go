// Package rand draws from the simulation's generator.
package rand

import (
	"io"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Rand())
	}
	return len(p), nil
}

// Reader is the source.
var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
