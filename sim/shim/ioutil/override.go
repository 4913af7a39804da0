// Package ioutil uses the simulated file system.
package ioutil

import (
	"io/fs"

	sos "github.com/vearutop/flatjsonl/verifsim/shim/os"
	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

func ReadFile(name string) ([]byte, error)                    { return simrt.ReadFile(name) }
func WriteFile(name string, data []byte, _ fs.FileMode) error { return simrt.WriteFile(name, data) }
func TempFile(dir, pattern string) (*sos.File, error)         { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return sos.MkdirTemp(dir, pattern) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	ds, err := simrt.ReadDir(name)

	var res []fs.FileInfo

	for _, d := range ds {
		i, _ := d.Info()
		res = append(res, i)
	}

	return res, err
}
