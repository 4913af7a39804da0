// Package os is the simulated operating system.
package os

import (
	ros "os"
	"strings"
	"syscall"
	"time"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
)

// File is a simulated file.
type File = simrt.File

// Standard streams.
var (
	Stdin  = simrt.Std(0, "/dev/stdin")
	Stdout = simrt.Std(1, "/dev/stdout")
	Stderr = simrt.Std(2, "/dev/stderr")
)

// Args is set by the harness.
var Args = []string{"prog"}

func Open(name string) (*File, error) { return simrt.OpenFile(name, simrt.ORdonly) }
func Create(name string) (*File, error) {
	return simrt.OpenFile(name, simrt.ORdwr|simrt.OCreate|simrt.OTrunc)
}
func OpenFile(name string, flag int, _ ros.FileMode) (*File, error) {
	return simrt.OpenFile(name, flag)
}
func Stat(name string) (ros.FileInfo, error)                   { return simrt.Stat(name) }
func Lstat(name string) (ros.FileInfo, error)                  { return simrt.Stat(name) }
func ReadFile(name string) ([]byte, error)                     { return simrt.ReadFile(name) }
func WriteFile(name string, data []byte, _ ros.FileMode) error { return simrt.WriteFile(name, data) }
func Remove(name string) error                                 { return simrt.Remove(name) }
func RemoveAll(name string) error                              { return simrt.RemoveAll(name) }
func Rename(a, b string) error                                 { return simrt.Rename(a, b) }
func Mkdir(name string, _ ros.FileMode) error                  { return simrt.Mkdir(name) }
func MkdirAll(name string, _ ros.FileMode) error               { return simrt.MkdirAll(name) }
func ReadDir(name string) ([]ros.DirEntry, error)              { return simrt.ReadDir(name) }
func Truncate(name string, size int64) error                   { return simrt.Truncate(name, size) }
func Chmod(name string, _ ros.FileMode) error                  { return exists("chmod", name) }
func Chown(name string, _, _ int) error                        { return exists("chown", name) }
func Chtimes(name string, _, _ time.Time) error                { return exists("chtimes", name) }
func Symlink(a, b string) error {
	return &ros.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Link(a, b string) error { return &ros.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM} }
func Readlink(name string) (string, error) {
	return "", &ros.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}

	for i := 0; ; i++ {
		n := dir + "/" + strings.ReplaceAll(pattern, "*", "") + string(rune('a'+i%26)) + string(rune('a'+i/26%26))
		if err := simrt.Mkdir(n); err == nil || !ros.IsExist(err) {
			return n, err
		}
	}
}

func exists(op, name string) error {
	_, err := simrt.Stat(name)

	return err
}
func Exit(code int)                   { simrt.Exit(code) }
func TempDir() string                 { return "/tmp" }
func Getwd() (string, error)          { return "/work", nil }
func Getpid() int                     { return 4242 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Environ() []string               { return nil }
func Hostname() (string, error)       { return "sim", nil }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}

	for i := 0; ; i++ {
		n := dir + "/" + strings.ReplaceAll(pattern, "*", "") + string(rune('a'+i%26)) + string(rune('a'+i/26%26))
		f, err := simrt.OpenFile(n, simrt.ORdwr|simrt.OCreate|simrt.OExcl)
		if err == nil || !ros.IsExist(err) {
			return f, err
		}
	}
}
