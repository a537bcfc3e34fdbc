package main

import (
	"errors"
	"io"
	"os"
)

// rich is a source which has more than Read, as files and buffers have.
// Whatever it is asked, it takes from the source, and so it is recorded.
type rich struct {
	*source
	stash error
}

func (r *rich) Read(p []byte) (int, error) {
	if r.stash != nil {
		return 0, r.stash
	}
	return r.source.Read(p)
}

func (r *rich) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := r.Read(b[:])
		if n == 1 {
			r.stash = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (r *rich) WriteTo(w io.Writer) (total int64, err error) {
	buf := make([]byte, 1+rng.Intn(600))
	for empty := 0; empty < 100; empty++ {
		n, err := r.Read(buf)
		if n > 0 {
			empty = 0
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
			if m < n {
				return total, io.ErrShortWrite
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
	return total, io.ErrNoProgress
}

func (r *rich) Len() (n int) {
	for _, p := range r.pieces {
		n += len(p.b)
	}
	return n
}
func (r *rich) Size() int64 { return int64(r.Len()) }
func (r *rich) Close() error {
	r.pieces, r.revive, r.end = nil, nil, "CLOSED"
	return nil
}
func (r *rich) Seek(int64, int) (int64, error) { return 0, errors.ErrUnsupported }
func (r *rich) Name() string                   { return "rich" }

// dressed is the source itself, or with more methods.
func dressed(s *source) io.Reader {
	if rng.Intn(4) == 0 {
		return &rich{source: s}
	}
	return s
}

// richSink is a sink which has more than Write.
type richSink struct {
	*sink
	closed bool
}

func (s *richSink) Write(p []byte) (int, error) {
	if s.closed {
		s.t.new("sink").bytes("b", p).str("e", "CLOSED").num("took", 0).end()
		return 0, os.ErrClosed
	}
	return s.sink.Write(p)
}
func (s *richSink) WriteString(x string) (int, error) { return s.Write([]byte(x)) }
func (s *richSink) WriteByte(b byte) error {
	_, err := s.Write([]byte{b})
	return err
}
func (s *richSink) ReadFrom(r io.Reader) (total int64, err error) {
	buf := make([]byte, 1+rng.Intn(600))
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := s.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
func (s *richSink) Flush() error   { return nil }
func (s *richSink) Sync() error    { return nil }
func (s *richSink) Available() int { return 4096 }
func (s *richSink) Buffered() int  { return 0 }
func (s *richSink) Close() error {
	s.closed = true
	return nil
}

func dressedSink(s *sink) io.Writer {
	if rng.Intn(4) == 0 {
		return &richSink{sink: s}
	}
	return s
}
