//go:build !vsim_nolib

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/vearutop/flatjsonl/flatjsonl"
	sos "github.com/vearutop/flatjsonl/verifsim/shim/os"
)

const hasLibrary = true

// libInput is an input that a program gives as a reader.
type libInput struct {
	name   string
	stored int64
	f      *sos.File
}

// String keeps addresses out of messages, they differ from run to run.
func (l *libInput) String() string { return l.name }

func (l *libInput) Size() int64 { return l.stored }

func (l *libInput) Compression() string {
	switch {
	case strings.HasSuffix(l.name, ".gz"):
		return "gzip"
	case strings.HasSuffix(l.name, ".zst"):
		return "zst"
	}

	return ""
}

// Reset starts the next pass.
func (l *libInput) Reset() {
	if l.f != nil {
		_ = l.f.Close()
		l.f = nil
	}
}

func (l *libInput) Read(p []byte) (int, error) {
	if l.f == nil {
		f, err := sos.Open(l.name)
		if err != nil {
			return 0, err
		}

		l.f = f
	}

	return l.f.Read(p)
}

// libMain is a program that uses the package.
func (c *Case) libMain() {
	f := flatjsonl.Flags{}

	f.Register()
	f.Parse()

	cfg := flatjsonl.Config{}
	b, _ := json.Marshal(c.O.Cfg)

	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}

	var (
		inputs []flatjsonl.Input
		opened []io.Closer
	)

	for i := range c.In {
		if c.Library > 1 && i%2 == 1 { // Files and readers together.
			inputs = append(inputs, flatjsonl.Input{FileName: c.In[i].Name})

			continue
		}

		l := &libInput{name: c.In[i].Name, stored: int64(len(c.In[i].Stored()))}
		inputs = append(inputs, flatjsonl.Input{Reader: l})
		opened = append(opened, closer{l})
	}

	p, err := flatjsonl.NewProcessor(f, cfg, inputs...)
	if err == nil {
		err = p.Process()
	}

	for _, o := range opened {
		_ = o.Close()
	}

	if err != nil {
		_, _ = fmt.Fprintln(sos.Stderr, err)
		sos.Exit(1)
	}
}

type closer struct{ *libInput }

func (c closer) Close() error {
	c.Reset()

	return nil
}
