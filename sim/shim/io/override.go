// Package io has pipes that are scheduled by the simulator.
package io

import (
	rio "io"

	ssync "github.com/vearutop/flatjsonl/verifsim/shim/sync"
)

type pipe struct {
	wr   ssync.Mutex // One write at a time.
	mu   ssync.Mutex
	cond *ssync.Cond
	data []byte
	has  bool
	rerr error
	werr error
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe makes a synchronous pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = ssync.NewCond(&p.mu)

	return &PipeReader{p: p}, &PipeWriter{p: p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p

	p.mu.Lock()
	defer p.mu.Unlock()

	for {
		switch {
		case p.rerr != nil:
			return 0, rio.ErrClosedPipe
		case p.has:
			n := copy(b, p.data)
			p.data = p.data[n:]

			if len(p.data) == 0 {
				p.has = false
				p.cond.Broadcast()
			}

			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}

		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = rio.ErrClosedPipe
	}

	r.p.mu.Lock()
	defer r.p.mu.Unlock()

	if r.p.rerr == nil {
		r.p.rerr = err
	}

	r.p.cond.Broadcast()

	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p

	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()

	if p.werr != nil {
		return 0, rio.ErrClosedPipe
	}

	if p.rerr != nil {
		return 0, p.rerr
	}

	p.data, p.has = b, true
	p.cond.Broadcast()

	for p.has {
		if p.rerr != nil || p.werr != nil {
			n := len(b) - len(p.data)
			p.data, p.has = nil, false

			if p.rerr != nil {
				return n, p.rerr
			}

			return n, rio.ErrClosedPipe
		}

		p.cond.Wait()
	}

	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = rio.EOF
	}

	w.p.mu.Lock()
	defer w.p.mu.Unlock()

	if w.p.werr == nil {
		w.p.werr = err
	}

	w.p.cond.Broadcast()

	return nil
}
