// Package zip reads archives of the simulated file system.
package zip

import (
	real "archive/zip"

	os "github.com/bazelbuild/buildtools/zsim/os"
)

// ReadCloser is an open archive.
type ReadCloser struct {
	f *os.File
	Reader
}

// OpenReader opens an archive by name.
func OpenReader(name string) (*ReadCloser, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	r, err := real.NewReader(f, fi.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{f: f, Reader: *r}, nil
}

// Close closes the archive.
func (rc *ReadCloser) Close() error { return rc.f.Close() }
