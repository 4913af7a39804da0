// Package filepath walks the simulated file system.
package filepath

import (
	"io/fs"
	rfilepath "path/filepath"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

func Glob(pattern string) ([]string, error)    { return simrt.GlobPath(pattern) }
func EvalSymlinks(path string) (string, error) { return rfilepath.Clean(path), nil }

func Abs(path string) (string, error) {
	if rfilepath.IsAbs(path) {
		return rfilepath.Clean(path), nil
	}

	return rfilepath.Join("/work", path), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simrt.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}

	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}

	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}

		return err
	}

	ds, err := simrt.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			return err
		}
	}

	for _, d := range ds {
		if err := walkDir(rfilepath.Join(path, d.Name()), d, fn); err != nil {
			if err == fs.SkipDir {
				break
			}

			return err
		}
	}

	return nil
}

func Walk(root string, fn rfilepath.WalkFunc) error {
	return WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(path, nil, err)
		}

		i, _ := d.Info()

		return fn(path, i, err)
	})
}
