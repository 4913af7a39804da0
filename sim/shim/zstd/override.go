// Package zstd is klauspost/compress/zstd without goroutines of its own: they would escape the simulator.
package zstd

import (
	"io"

	real "github.com/klauspost/compress/zstd"
)

func NewReader(r io.Reader, opts ...real.DOption) (*real.Decoder, error) {
	return real.NewReader(r, append(opts[:len(opts):len(opts)], real.WithDecoderConcurrency(1))...)
}

func NewWriter(w io.Writer, opts ...real.EOption) (*real.Encoder, error) {
	return real.NewWriter(w, append(opts[:len(opts):len(opts)], real.WithEncoderConcurrency(1))...)
}
