// Package ioutil forwards to the simulated os.
package ioutil

import (
	"io"
	"io/fs"
	"sort"

	os "github.com/bazelbuild/buildtools/zsim/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadAll(r io.Reader) ([]byte, error)            { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser            { return io.NopCloser(r) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// Discard discards.
var Discard = io.Discard
