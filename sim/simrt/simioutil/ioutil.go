// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"

	"verif.local/simrt/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, data []byte, perm simos.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]simos.FileInfo, error) {
	es, err := simos.ReadDir(name)
	var out []simos.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func TempFile(dir, pat string) (*simos.File, error) { return simos.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)       { return simos.MkdirTemp(dir, pat) }
