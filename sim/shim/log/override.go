// Package log logs to the simulated standard error.
package log

import (
	"fmt"
	"io"
	rlog "log"

	sos "github.com/vearutop/flatjsonl/verifsim/shim/os"
)

type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{w: out, prefix: prefix, flags: flag}
}
func Default() *Logger { return std }

func (l *Logger) out(s string) {
	var w io.Writer = sos.Stderr
	if l.w != nil {
		w = l.w
	}

	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}

	_, _ = w.Write([]byte(l.prefix + s))
}

func (l *Logger) Output(_ int, s string) error { l.out(s); return nil }
func (l *Logger) SetOutput(w io.Writer)        { l.w = w }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) Writer() io.Writer            { return l.w }
func (l *Logger) Print(v ...any)               { l.out(fmt.Sprint(v...)) }
func (l *Logger) Println(v ...any)             { l.out(fmt.Sprintln(v...)) }
func (l *Logger) Printf(f string, v ...any)    { l.out(fmt.Sprintf(f, v...)) }
func (l *Logger) Fatal(v ...any)               { l.out(fmt.Sprint(v...)); sos.Exit(1) }
func (l *Logger) Fatalln(v ...any)             { l.out(fmt.Sprintln(v...)); sos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any)    { l.out(fmt.Sprintf(f, v...)); sos.Exit(1) }
func (l *Logger) Panic(v ...any)               { s := fmt.Sprint(v...); l.out(s); panic(s) }
func (l *Logger) Panicln(v ...any)             { s := fmt.Sprintln(v...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); l.out(s); panic(s) }

func Output(_ int, s string) error { std.out(s); return nil }
func SetOutput(w io.Writer)        { std.w = w }
func SetPrefix(p string)           { std.prefix = p }
func SetFlags(f int)               { std.flags = f }
func Flags() int                   { return rlog.LstdFlags }
func Prefix() string               { return std.prefix }
func Writer() io.Writer            { return sos.Stderr }
func Print(v ...any)               { std.Print(v...) }
func Println(v ...any)             { std.Println(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
