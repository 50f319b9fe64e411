//go:build go1.24

package ioutil

import (
	"io"
	"io/fs"

	zos "github.com/crimist/trakx/zz/sh/os"
)

func ReadFile(p string) ([]byte, error)                       { return zos.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error        { return zos.WriteFile(p, b, m) }
func TempFile(d, p string) (*zos.File, error)                  { return zos.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)                      { return zos.MkdirTemp(d, p) }
func ReadAll(r io.Reader) ([]byte, error)                      { return io.ReadAll(r) }
