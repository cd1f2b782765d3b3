// Package memio is an offline stand-in for vimagination.zapto.org/memio v1.0.0,
// written from its documented API (the module cannot be fetched here).
package memio

import (
	"errors"
	"io"
)

// ErrInvalidSeek is returned for a seek to before the start of the data.
var ErrInvalidSeek = errors.New("invalid seek position")

// ErrClosed is returned for operations on closed data.
var ErrClosed = errors.New("operation not permitted when closed")

// Buffer grants a byte slice very straightforward IO methods.
type Buffer []byte

// Read satisfies io.Reader.
func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*s) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *s)
	*s = (*s)[n:]

	return n, nil
}

// WriteTo satisfies io.WriterTo.
func (s *Buffer) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(*s)
	*s = (*s)[n:]

	return int64(n), err
}

// Write satisfies io.Writer.
func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)

	return len(p), nil
}

// WriteString writes a string to the buffer.
func (s *Buffer) WriteString(str string) (int, error) {
	*s = append(*s, str...)

	return len(str), nil
}

// ReadFrom satisfies io.ReaderFrom.
func (s *Buffer) ReadFrom(r io.Reader) (int64, error) {
	var (
		t   int64
		buf [512]byte
	)

	for {
		n, err := r.Read(buf[:])
		*s = append(*s, buf[:n]...)
		t += int64(n)

		if err != nil {
			if errors.Is(err, io.EOF) {
				return t, nil
			}

			return t, err
		}
	}
}

// ReadByte satisfies io.ByteReader.
func (s *Buffer) ReadByte() (byte, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	b := (*s)[0]
	*s = (*s)[1:]

	return b, nil
}

// WriteByte satisfies io.ByteWriter.
func (s *Buffer) WriteByte(b byte) error {
	*s = append(*s, b)

	return nil
}

// Peek reads the next n bytes without advancing.
func (s *Buffer) Peek(n int) ([]byte, error) {
	if n > len(*s) {
		return *s, io.EOF
	}

	return (*s)[:n], nil
}

// Bytes returns the contents.
func (s *Buffer) Bytes() []byte { return *s }

// String returns the contents.
func (s *Buffer) String() string { return string(*s) }

// Len returns the number of bytes held.
func (s *Buffer) Len() int { return len(*s) }

// Close empties the buffer.
func (s *Buffer) Close() error {
	*s = nil

	return nil
}

// ReadMem holds a byte slice that can be used for many IO interfaces.
type ReadMem struct {
	data []byte
	pos  int64
}

// Open uses a byte slice for reading.
func Open(data []byte) *ReadMem { return &ReadMem{data: data} }

// Read satisfies io.Reader.
func (b *ReadMem) Read(p []byte) (int, error) {
	if b.pos >= int64(len(b.data)) {
		return 0, io.EOF
	}

	n := copy(p, b.data[b.pos:])
	b.pos += int64(n)

	return n, nil
}

// ReadAt satisfies io.ReaderAt.
func (b *ReadMem) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off >= int64(len(b.data)) {
		return 0, io.EOF
	}

	n := copy(p, b.data[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// ReadByte satisfies io.ByteReader.
func (b *ReadMem) ReadByte() (byte, error) {
	var p [1]byte

	_, err := b.Read(p[:])

	return p[0], err
}

// Seek satisfies io.Seeker.
func (b *ReadMem) Seek(offset int64, whence int) (int64, error) {
	return seek(&b.pos, int64(len(b.data)), offset, whence)
}

// Close satisfies io.Closer.
func (b *ReadMem) Close() error {
	b.data = nil

	return nil
}

func seek(pos *int64, length, offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += *pos
	case io.SeekEnd:
		offset += length
	}

	if offset < 0 {
		return 0, ErrInvalidSeek
	}

	*pos = offset

	return offset, nil
}

// WriteMem holds a pointer to a byte slice that grows as it is written.
type WriteMem struct {
	data *[]byte
	pos  int64
}

// Create uses a byte slice for writing.
func Create(data *[]byte) *WriteMem { return &WriteMem{data: data} }

// Write satisfies io.Writer.
func (b *WriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, b.pos)
	b.pos += int64(n)

	return n, err
}

// WriteAt satisfies io.WriterAt.
func (b *WriteMem) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, ErrInvalidSeek
	}

	end := off + int64(len(p))
	if end > int64(len(*b.data)) {
		if end <= int64(cap(*b.data)) {
			*b.data = (*b.data)[:end]
		} else {
			nd := make([]byte, end, end*2)

			copy(nd, *b.data)

			*b.data = nd
		}
	}

	return copy((*b.data)[off:], p), nil
}

// WriteByte satisfies io.ByteWriter.
func (b *WriteMem) WriteByte(c byte) error {
	_, err := b.Write([]byte{c})

	return err
}

// Seek satisfies io.Seeker.
func (b *WriteMem) Seek(offset int64, whence int) (int64, error) {
	return seek(&b.pos, int64(len(*b.data)), offset, whence)
}

// Close satisfies io.Closer.
func (b *WriteMem) Close() error { return nil }
