// Package byteio is an offline stand-in for vimagination.zapto.org/byteio
// v1.0.0, written from its documented API (the module cannot be fetched here).
// Generated by ../gen_byteio.py.
package byteio

import (
	"io"
	"math"
)

// LittleEndianReader wraps an io.Reader.
type LittleEndianReader struct {
	io.Reader
	buffer [9]byte
}

// LittleEndianWriter wraps an io.Writer.
type LittleEndianWriter struct {
	io.Writer
	buffer [9]byte
}

// ReadUint8 reads an unsigned 8 bit integer.
func (s *LittleEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:1])
	if err != nil {
		return 0, n, err
	}

	return uint8(s.buffer[0]), n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (s *LittleEndianReader) ReadInt8() (int8, int, error) {
	d, n, err := s.ReadUint8()

	return int8(d), n, err
}

// WriteUint8 writes an unsigned 8 bit integer.
func (s *LittleEndianWriter) WriteUint8(d uint8) (int, error) {
	s.buffer[0] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (s *LittleEndianWriter) WriteInt8(d int8) (int, error) {
	return s.WriteUint8(uint8(d))
}

// ReadUint16 reads an unsigned 16 bit integer.
func (s *LittleEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:2])
	if err != nil {
		return 0, n, err
	}

	return uint16(s.buffer[0]) | uint16(s.buffer[1])<<8, n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (s *LittleEndianReader) ReadInt16() (int16, int, error) {
	d, n, err := s.ReadUint16()

	return int16(d), n, err
}

// WriteUint16 writes an unsigned 16 bit integer.
func (s *LittleEndianWriter) WriteUint16(d uint16) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)

	return s.Writer.Write(s.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (s *LittleEndianWriter) WriteInt16(d int16) (int, error) {
	return s.WriteUint16(uint16(d))
}

// ReadUint24 reads an unsigned 24 bit integer.
func (s *LittleEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:3])
	if err != nil {
		return 0, n, err
	}

	return uint32(s.buffer[0]) | uint32(s.buffer[1])<<8 | uint32(s.buffer[2])<<16, n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (s *LittleEndianReader) ReadInt24() (int32, int, error) {
	d, n, err := s.ReadUint24()

	return int32(d<<8) >> 8, n, err
}

// WriteUint24 writes an unsigned 24 bit integer.
func (s *LittleEndianWriter) WriteUint24(d uint32) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)

	return s.Writer.Write(s.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (s *LittleEndianWriter) WriteInt24(d int32) (int, error) {
	return s.WriteUint24(uint32(d))
}

// ReadUint32 reads an unsigned 32 bit integer.
func (s *LittleEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:4])
	if err != nil {
		return 0, n, err
	}

	return uint32(s.buffer[0]) | uint32(s.buffer[1])<<8 | uint32(s.buffer[2])<<16 | uint32(s.buffer[3])<<24, n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (s *LittleEndianReader) ReadInt32() (int32, int, error) {
	d, n, err := s.ReadUint32()

	return int32(d), n, err
}

// WriteUint32 writes an unsigned 32 bit integer.
func (s *LittleEndianWriter) WriteUint32(d uint32) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)

	return s.Writer.Write(s.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (s *LittleEndianWriter) WriteInt32(d int32) (int, error) {
	return s.WriteUint32(uint32(d))
}

// ReadUint40 reads an unsigned 40 bit integer.
func (s *LittleEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:5])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32, n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (s *LittleEndianReader) ReadInt40() (int64, int, error) {
	d, n, err := s.ReadUint40()

	return int64(d<<24) >> 24, n, err
}

// WriteUint40 writes an unsigned 40 bit integer.
func (s *LittleEndianWriter) WriteUint40(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)

	return s.Writer.Write(s.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (s *LittleEndianWriter) WriteInt40(d int64) (int, error) {
	return s.WriteUint40(uint64(d))
}

// ReadUint48 reads an unsigned 48 bit integer.
func (s *LittleEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:6])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40, n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (s *LittleEndianReader) ReadInt48() (int64, int, error) {
	d, n, err := s.ReadUint48()

	return int64(d<<16) >> 16, n, err
}

// WriteUint48 writes an unsigned 48 bit integer.
func (s *LittleEndianWriter) WriteUint48(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)

	return s.Writer.Write(s.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (s *LittleEndianWriter) WriteInt48(d int64) (int, error) {
	return s.WriteUint48(uint64(d))
}

// ReadUint56 reads an unsigned 56 bit integer.
func (s *LittleEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:7])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40 | uint64(s.buffer[6])<<48, n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (s *LittleEndianReader) ReadInt56() (int64, int, error) {
	d, n, err := s.ReadUint56()

	return int64(d<<8) >> 8, n, err
}

// WriteUint56 writes an unsigned 56 bit integer.
func (s *LittleEndianWriter) WriteUint56(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)
	s.buffer[6] = byte(d >> 48)

	return s.Writer.Write(s.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (s *LittleEndianWriter) WriteInt56(d int64) (int, error) {
	return s.WriteUint56(uint64(d))
}

// ReadUint64 reads an unsigned 64 bit integer.
func (s *LittleEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:8])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40 | uint64(s.buffer[6])<<48 | uint64(s.buffer[7])<<56, n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (s *LittleEndianReader) ReadInt64() (int64, int, error) {
	d, n, err := s.ReadUint64()

	return int64(d), n, err
}

// WriteUint64 writes an unsigned 64 bit integer.
func (s *LittleEndianWriter) WriteUint64(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)
	s.buffer[6] = byte(d >> 48)
	s.buffer[7] = byte(d >> 56)

	return s.Writer.Write(s.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (s *LittleEndianWriter) WriteInt64(d int64) (int, error) {
	return s.WriteUint64(uint64(d))
}

// ReadFloat32 reads a float32.
func (s *LittleEndianReader) ReadFloat32() (float32, int, error) {
	d, n, err := s.ReadUint32()

	return math.Float32frombits(d), n, err
}

// WriteFloat32 writes a float32.
func (s *LittleEndianWriter) WriteFloat32(d float32) (int, error) {
	return s.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float64.
func (s *LittleEndianReader) ReadFloat64() (float64, int, error) {
	d, n, err := s.ReadUint64()

	return math.Float64frombits(d), n, err
}

// WriteFloat64 writes a float64.
func (s *LittleEndianWriter) WriteFloat64(d float64) (int, error) {
	return s.WriteUint64(math.Float64bits(d))
}

// StickyLittleEndianReader wraps an io.Reader; the first error is kept in Err and stops all later reads.
type StickyLittleEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (s *StickyLittleEndianReader) Read(p []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}

	var n int

	n, s.Err = s.Reader.Read(p)
	s.Count += int64(n)

	return n, s.Err
}

func (s *StickyLittleEndianReader) fill(n int) bool {
	if s.Err != nil {
		return false
	}

	var m int

	m, s.Err = io.ReadFull(s.Reader, s.buffer[:n])
	s.Count += int64(m)

	return s.Err == nil
}

// ReadByte implements io.ByteReader.
func (s *StickyLittleEndianReader) ReadByte() (byte, error) {
	b := s.ReadUint8()

	return b, s.Err
}

// ReadBool reads a single byte as a boolean.
func (s *StickyLittleEndianReader) ReadBool() bool {
	return s.ReadUint8() != 0
}

// ReadBytes reads exactly size bytes.
func (s *StickyLittleEndianReader) ReadBytes(size int) []byte {
	if s.Err != nil {
		return nil
	}

	buf := make([]byte, size)

	var n int

	n, s.Err = io.ReadFull(s.Reader, buf)
	s.Count += int64(n)

	return buf
}

// ReadString reads exactly size bytes as a string.
func (s *StickyLittleEndianReader) ReadString(size int) string {
	return string(s.ReadBytes(size))
}

// StickyLittleEndianWriter wraps an io.Writer; the first error is kept in Err and stops all later writes.
type StickyLittleEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (s *StickyLittleEndianWriter) Write(p []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}

	var n int

	n, s.Err = s.Writer.Write(p)
	s.Count += int64(n)

	return n, s.Err
}

// WriteByte implements io.ByteWriter.
func (s *StickyLittleEndianWriter) WriteByte(b byte) error {
	s.WriteUint8(b)

	return s.Err
}

// WriteBool writes a single byte.
func (s *StickyLittleEndianWriter) WriteBool(b bool) {
	if b {
		s.WriteUint8(1)
	} else {
		s.WriteUint8(0)
	}
}

// WriteBytes writes the given bytes.
func (s *StickyLittleEndianWriter) WriteBytes(p []byte) {
	s.Write(p)
}

// WriteString writes the given string.
func (s *StickyLittleEndianWriter) WriteString(p string) {
	s.Write([]byte(p))
}

// ReadUint8 reads an unsigned 8 bit integer.
func (s *StickyLittleEndianReader) ReadUint8() uint8 {
	if !s.fill(1) {
		return 0
	}

	return uint8(s.buffer[0])
}

// ReadInt8 reads a signed 8 bit integer.
func (s *StickyLittleEndianReader) ReadInt8() int8 {
	d := s.ReadUint8()

	return int8(d)
}

// WriteUint8 writes an unsigned 8 bit integer.
func (s *StickyLittleEndianWriter) WriteUint8(d uint8) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.Write(s.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (s *StickyLittleEndianWriter) WriteInt8(d int8) {
	s.WriteUint8(uint8(d))
}

// ReadUint16 reads an unsigned 16 bit integer.
func (s *StickyLittleEndianReader) ReadUint16() uint16 {
	if !s.fill(2) {
		return 0
	}

	return uint16(s.buffer[0]) | uint16(s.buffer[1])<<8
}

// ReadInt16 reads a signed 16 bit integer.
func (s *StickyLittleEndianReader) ReadInt16() int16 {
	d := s.ReadUint16()

	return int16(d)
}

// WriteUint16 writes an unsigned 16 bit integer.
func (s *StickyLittleEndianWriter) WriteUint16(d uint16) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.Write(s.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (s *StickyLittleEndianWriter) WriteInt16(d int16) {
	s.WriteUint16(uint16(d))
}

// ReadUint24 reads an unsigned 24 bit integer.
func (s *StickyLittleEndianReader) ReadUint24() uint32 {
	if !s.fill(3) {
		return 0
	}

	return uint32(s.buffer[0]) | uint32(s.buffer[1])<<8 | uint32(s.buffer[2])<<16
}

// ReadInt24 reads a signed 24 bit integer.
func (s *StickyLittleEndianReader) ReadInt24() int32 {
	d := s.ReadUint24()

	return int32(d<<8) >> 8
}

// WriteUint24 writes an unsigned 24 bit integer.
func (s *StickyLittleEndianWriter) WriteUint24(d uint32) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.Write(s.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (s *StickyLittleEndianWriter) WriteInt24(d int32) {
	s.WriteUint24(uint32(d))
}

// ReadUint32 reads an unsigned 32 bit integer.
func (s *StickyLittleEndianReader) ReadUint32() uint32 {
	if !s.fill(4) {
		return 0
	}

	return uint32(s.buffer[0]) | uint32(s.buffer[1])<<8 | uint32(s.buffer[2])<<16 | uint32(s.buffer[3])<<24
}

// ReadInt32 reads a signed 32 bit integer.
func (s *StickyLittleEndianReader) ReadInt32() int32 {
	d := s.ReadUint32()

	return int32(d)
}

// WriteUint32 writes an unsigned 32 bit integer.
func (s *StickyLittleEndianWriter) WriteUint32(d uint32) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.Write(s.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (s *StickyLittleEndianWriter) WriteInt32(d int32) {
	s.WriteUint32(uint32(d))
}

// ReadUint40 reads an unsigned 40 bit integer.
func (s *StickyLittleEndianReader) ReadUint40() uint64 {
	if !s.fill(5) {
		return 0
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32
}

// ReadInt40 reads a signed 40 bit integer.
func (s *StickyLittleEndianReader) ReadInt40() int64 {
	d := s.ReadUint40()

	return int64(d<<24) >> 24
}

// WriteUint40 writes an unsigned 40 bit integer.
func (s *StickyLittleEndianWriter) WriteUint40(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.Write(s.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (s *StickyLittleEndianWriter) WriteInt40(d int64) {
	s.WriteUint40(uint64(d))
}

// ReadUint48 reads an unsigned 48 bit integer.
func (s *StickyLittleEndianReader) ReadUint48() uint64 {
	if !s.fill(6) {
		return 0
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40
}

// ReadInt48 reads a signed 48 bit integer.
func (s *StickyLittleEndianReader) ReadInt48() int64 {
	d := s.ReadUint48()

	return int64(d<<16) >> 16
}

// WriteUint48 writes an unsigned 48 bit integer.
func (s *StickyLittleEndianWriter) WriteUint48(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)
	s.Write(s.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (s *StickyLittleEndianWriter) WriteInt48(d int64) {
	s.WriteUint48(uint64(d))
}

// ReadUint56 reads an unsigned 56 bit integer.
func (s *StickyLittleEndianReader) ReadUint56() uint64 {
	if !s.fill(7) {
		return 0
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40 | uint64(s.buffer[6])<<48
}

// ReadInt56 reads a signed 56 bit integer.
func (s *StickyLittleEndianReader) ReadInt56() int64 {
	d := s.ReadUint56()

	return int64(d<<8) >> 8
}

// WriteUint56 writes an unsigned 56 bit integer.
func (s *StickyLittleEndianWriter) WriteUint56(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)
	s.buffer[6] = byte(d >> 48)
	s.Write(s.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (s *StickyLittleEndianWriter) WriteInt56(d int64) {
	s.WriteUint56(uint64(d))
}

// ReadUint64 reads an unsigned 64 bit integer.
func (s *StickyLittleEndianReader) ReadUint64() uint64 {
	if !s.fill(8) {
		return 0
	}

	return uint64(s.buffer[0]) | uint64(s.buffer[1])<<8 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<32 | uint64(s.buffer[5])<<40 | uint64(s.buffer[6])<<48 | uint64(s.buffer[7])<<56
}

// ReadInt64 reads a signed 64 bit integer.
func (s *StickyLittleEndianReader) ReadInt64() int64 {
	d := s.ReadUint64()

	return int64(d)
}

// WriteUint64 writes an unsigned 64 bit integer.
func (s *StickyLittleEndianWriter) WriteUint64(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 32)
	s.buffer[5] = byte(d >> 40)
	s.buffer[6] = byte(d >> 48)
	s.buffer[7] = byte(d >> 56)
	s.Write(s.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (s *StickyLittleEndianWriter) WriteInt64(d int64) {
	s.WriteUint64(uint64(d))
}

// ReadFloat32 reads a float32.
func (s *StickyLittleEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(s.ReadUint32())
}

// WriteFloat32 writes a float32.
func (s *StickyLittleEndianWriter) WriteFloat32(d float32) {
	s.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float64.
func (s *StickyLittleEndianReader) ReadFloat64() float64 {
	return math.Float64frombits(s.ReadUint64())
}

// WriteFloat64 writes a float64.
func (s *StickyLittleEndianWriter) WriteFloat64(d float64) {
	s.WriteUint64(math.Float64bits(d))
}

// BigEndianReader wraps an io.Reader.
type BigEndianReader struct {
	io.Reader
	buffer [9]byte
}

// BigEndianWriter wraps an io.Writer.
type BigEndianWriter struct {
	io.Writer
	buffer [9]byte
}

// ReadUint8 reads an unsigned 8 bit integer.
func (s *BigEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:1])
	if err != nil {
		return 0, n, err
	}

	return uint8(s.buffer[0]), n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (s *BigEndianReader) ReadInt8() (int8, int, error) {
	d, n, err := s.ReadUint8()

	return int8(d), n, err
}

// WriteUint8 writes an unsigned 8 bit integer.
func (s *BigEndianWriter) WriteUint8(d uint8) (int, error) {
	s.buffer[0] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (s *BigEndianWriter) WriteInt8(d int8) (int, error) {
	return s.WriteUint8(uint8(d))
}

// ReadUint16 reads an unsigned 16 bit integer.
func (s *BigEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:2])
	if err != nil {
		return 0, n, err
	}

	return uint16(s.buffer[0])<<8 | uint16(s.buffer[1]), n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (s *BigEndianReader) ReadInt16() (int16, int, error) {
	d, n, err := s.ReadUint16()

	return int16(d), n, err
}

// WriteUint16 writes an unsigned 16 bit integer.
func (s *BigEndianWriter) WriteUint16(d uint16) (int, error) {
	s.buffer[0] = byte(d >> 8)
	s.buffer[1] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (s *BigEndianWriter) WriteInt16(d int16) (int, error) {
	return s.WriteUint16(uint16(d))
}

// ReadUint24 reads an unsigned 24 bit integer.
func (s *BigEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:3])
	if err != nil {
		return 0, n, err
	}

	return uint32(s.buffer[0])<<16 | uint32(s.buffer[1])<<8 | uint32(s.buffer[2]), n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (s *BigEndianReader) ReadInt24() (int32, int, error) {
	d, n, err := s.ReadUint24()

	return int32(d<<8) >> 8, n, err
}

// WriteUint24 writes an unsigned 24 bit integer.
func (s *BigEndianWriter) WriteUint24(d uint32) (int, error) {
	s.buffer[0] = byte(d >> 16)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (s *BigEndianWriter) WriteInt24(d int32) (int, error) {
	return s.WriteUint24(uint32(d))
}

// ReadUint32 reads an unsigned 32 bit integer.
func (s *BigEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:4])
	if err != nil {
		return 0, n, err
	}

	return uint32(s.buffer[0])<<24 | uint32(s.buffer[1])<<16 | uint32(s.buffer[2])<<8 | uint32(s.buffer[3]), n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (s *BigEndianReader) ReadInt32() (int32, int, error) {
	d, n, err := s.ReadUint32()

	return int32(d), n, err
}

// WriteUint32 writes an unsigned 32 bit integer.
func (s *BigEndianWriter) WriteUint32(d uint32) (int, error) {
	s.buffer[0] = byte(d >> 24)
	s.buffer[1] = byte(d >> 16)
	s.buffer[2] = byte(d >> 8)
	s.buffer[3] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (s *BigEndianWriter) WriteInt32(d int32) (int, error) {
	return s.WriteUint32(uint32(d))
}

// ReadUint40 reads an unsigned 40 bit integer.
func (s *BigEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:5])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0])<<32 | uint64(s.buffer[1])<<24 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<8 | uint64(s.buffer[4]), n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (s *BigEndianReader) ReadInt40() (int64, int, error) {
	d, n, err := s.ReadUint40()

	return int64(d<<24) >> 24, n, err
}

// WriteUint40 writes an unsigned 40 bit integer.
func (s *BigEndianWriter) WriteUint40(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 32)
	s.buffer[1] = byte(d >> 24)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 8)
	s.buffer[4] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (s *BigEndianWriter) WriteInt40(d int64) (int, error) {
	return s.WriteUint40(uint64(d))
}

// ReadUint48 reads an unsigned 48 bit integer.
func (s *BigEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:6])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0])<<40 | uint64(s.buffer[1])<<32 | uint64(s.buffer[2])<<24 | uint64(s.buffer[3])<<16 | uint64(s.buffer[4])<<8 | uint64(s.buffer[5]), n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (s *BigEndianReader) ReadInt48() (int64, int, error) {
	d, n, err := s.ReadUint48()

	return int64(d<<16) >> 16, n, err
}

// WriteUint48 writes an unsigned 48 bit integer.
func (s *BigEndianWriter) WriteUint48(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 40)
	s.buffer[1] = byte(d >> 32)
	s.buffer[2] = byte(d >> 24)
	s.buffer[3] = byte(d >> 16)
	s.buffer[4] = byte(d >> 8)
	s.buffer[5] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (s *BigEndianWriter) WriteInt48(d int64) (int, error) {
	return s.WriteUint48(uint64(d))
}

// ReadUint56 reads an unsigned 56 bit integer.
func (s *BigEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:7])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0])<<48 | uint64(s.buffer[1])<<40 | uint64(s.buffer[2])<<32 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<16 | uint64(s.buffer[5])<<8 | uint64(s.buffer[6]), n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (s *BigEndianReader) ReadInt56() (int64, int, error) {
	d, n, err := s.ReadUint56()

	return int64(d<<8) >> 8, n, err
}

// WriteUint56 writes an unsigned 56 bit integer.
func (s *BigEndianWriter) WriteUint56(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 48)
	s.buffer[1] = byte(d >> 40)
	s.buffer[2] = byte(d >> 32)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 16)
	s.buffer[5] = byte(d >> 8)
	s.buffer[6] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (s *BigEndianWriter) WriteInt56(d int64) (int, error) {
	return s.WriteUint56(uint64(d))
}

// ReadUint64 reads an unsigned 64 bit integer.
func (s *BigEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(s.Reader, s.buffer[:8])
	if err != nil {
		return 0, n, err
	}

	return uint64(s.buffer[0])<<56 | uint64(s.buffer[1])<<48 | uint64(s.buffer[2])<<40 | uint64(s.buffer[3])<<32 | uint64(s.buffer[4])<<24 | uint64(s.buffer[5])<<16 | uint64(s.buffer[6])<<8 | uint64(s.buffer[7]), n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (s *BigEndianReader) ReadInt64() (int64, int, error) {
	d, n, err := s.ReadUint64()

	return int64(d), n, err
}

// WriteUint64 writes an unsigned 64 bit integer.
func (s *BigEndianWriter) WriteUint64(d uint64) (int, error) {
	s.buffer[0] = byte(d >> 56)
	s.buffer[1] = byte(d >> 48)
	s.buffer[2] = byte(d >> 40)
	s.buffer[3] = byte(d >> 32)
	s.buffer[4] = byte(d >> 24)
	s.buffer[5] = byte(d >> 16)
	s.buffer[6] = byte(d >> 8)
	s.buffer[7] = byte(d >> 0)

	return s.Writer.Write(s.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (s *BigEndianWriter) WriteInt64(d int64) (int, error) {
	return s.WriteUint64(uint64(d))
}

// ReadFloat32 reads a float32.
func (s *BigEndianReader) ReadFloat32() (float32, int, error) {
	d, n, err := s.ReadUint32()

	return math.Float32frombits(d), n, err
}

// WriteFloat32 writes a float32.
func (s *BigEndianWriter) WriteFloat32(d float32) (int, error) {
	return s.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float64.
func (s *BigEndianReader) ReadFloat64() (float64, int, error) {
	d, n, err := s.ReadUint64()

	return math.Float64frombits(d), n, err
}

// WriteFloat64 writes a float64.
func (s *BigEndianWriter) WriteFloat64(d float64) (int, error) {
	return s.WriteUint64(math.Float64bits(d))
}

// StickyBigEndianReader wraps an io.Reader; the first error is kept in Err and stops all later reads.
type StickyBigEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (s *StickyBigEndianReader) Read(p []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}

	var n int

	n, s.Err = s.Reader.Read(p)
	s.Count += int64(n)

	return n, s.Err
}

func (s *StickyBigEndianReader) fill(n int) bool {
	if s.Err != nil {
		return false
	}

	var m int

	m, s.Err = io.ReadFull(s.Reader, s.buffer[:n])
	s.Count += int64(m)

	return s.Err == nil
}

// ReadByte implements io.ByteReader.
func (s *StickyBigEndianReader) ReadByte() (byte, error) {
	b := s.ReadUint8()

	return b, s.Err
}

// ReadBool reads a single byte as a boolean.
func (s *StickyBigEndianReader) ReadBool() bool {
	return s.ReadUint8() != 0
}

// ReadBytes reads exactly size bytes.
func (s *StickyBigEndianReader) ReadBytes(size int) []byte {
	if s.Err != nil {
		return nil
	}

	buf := make([]byte, size)

	var n int

	n, s.Err = io.ReadFull(s.Reader, buf)
	s.Count += int64(n)

	return buf
}

// ReadString reads exactly size bytes as a string.
func (s *StickyBigEndianReader) ReadString(size int) string {
	return string(s.ReadBytes(size))
}

// StickyBigEndianWriter wraps an io.Writer; the first error is kept in Err and stops all later writes.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (s *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}

	var n int

	n, s.Err = s.Writer.Write(p)
	s.Count += int64(n)

	return n, s.Err
}

// WriteByte implements io.ByteWriter.
func (s *StickyBigEndianWriter) WriteByte(b byte) error {
	s.WriteUint8(b)

	return s.Err
}

// WriteBool writes a single byte.
func (s *StickyBigEndianWriter) WriteBool(b bool) {
	if b {
		s.WriteUint8(1)
	} else {
		s.WriteUint8(0)
	}
}

// WriteBytes writes the given bytes.
func (s *StickyBigEndianWriter) WriteBytes(p []byte) {
	s.Write(p)
}

// WriteString writes the given string.
func (s *StickyBigEndianWriter) WriteString(p string) {
	s.Write([]byte(p))
}

// ReadUint8 reads an unsigned 8 bit integer.
func (s *StickyBigEndianReader) ReadUint8() uint8 {
	if !s.fill(1) {
		return 0
	}

	return uint8(s.buffer[0])
}

// ReadInt8 reads a signed 8 bit integer.
func (s *StickyBigEndianReader) ReadInt8() int8 {
	d := s.ReadUint8()

	return int8(d)
}

// WriteUint8 writes an unsigned 8 bit integer.
func (s *StickyBigEndianWriter) WriteUint8(d uint8) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 0)
	s.Write(s.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (s *StickyBigEndianWriter) WriteInt8(d int8) {
	s.WriteUint8(uint8(d))
}

// ReadUint16 reads an unsigned 16 bit integer.
func (s *StickyBigEndianReader) ReadUint16() uint16 {
	if !s.fill(2) {
		return 0
	}

	return uint16(s.buffer[0])<<8 | uint16(s.buffer[1])
}

// ReadInt16 reads a signed 16 bit integer.
func (s *StickyBigEndianReader) ReadInt16() int16 {
	d := s.ReadUint16()

	return int16(d)
}

// WriteUint16 writes an unsigned 16 bit integer.
func (s *StickyBigEndianWriter) WriteUint16(d uint16) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 8)
	s.buffer[1] = byte(d >> 0)
	s.Write(s.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (s *StickyBigEndianWriter) WriteInt16(d int16) {
	s.WriteUint16(uint16(d))
}

// ReadUint24 reads an unsigned 24 bit integer.
func (s *StickyBigEndianReader) ReadUint24() uint32 {
	if !s.fill(3) {
		return 0
	}

	return uint32(s.buffer[0])<<16 | uint32(s.buffer[1])<<8 | uint32(s.buffer[2])
}

// ReadInt24 reads a signed 24 bit integer.
func (s *StickyBigEndianReader) ReadInt24() int32 {
	d := s.ReadUint24()

	return int32(d<<8) >> 8
}

// WriteUint24 writes an unsigned 24 bit integer.
func (s *StickyBigEndianWriter) WriteUint24(d uint32) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 16)
	s.buffer[1] = byte(d >> 8)
	s.buffer[2] = byte(d >> 0)
	s.Write(s.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (s *StickyBigEndianWriter) WriteInt24(d int32) {
	s.WriteUint24(uint32(d))
}

// ReadUint32 reads an unsigned 32 bit integer.
func (s *StickyBigEndianReader) ReadUint32() uint32 {
	if !s.fill(4) {
		return 0
	}

	return uint32(s.buffer[0])<<24 | uint32(s.buffer[1])<<16 | uint32(s.buffer[2])<<8 | uint32(s.buffer[3])
}

// ReadInt32 reads a signed 32 bit integer.
func (s *StickyBigEndianReader) ReadInt32() int32 {
	d := s.ReadUint32()

	return int32(d)
}

// WriteUint32 writes an unsigned 32 bit integer.
func (s *StickyBigEndianWriter) WriteUint32(d uint32) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 24)
	s.buffer[1] = byte(d >> 16)
	s.buffer[2] = byte(d >> 8)
	s.buffer[3] = byte(d >> 0)
	s.Write(s.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (s *StickyBigEndianWriter) WriteInt32(d int32) {
	s.WriteUint32(uint32(d))
}

// ReadUint40 reads an unsigned 40 bit integer.
func (s *StickyBigEndianReader) ReadUint40() uint64 {
	if !s.fill(5) {
		return 0
	}

	return uint64(s.buffer[0])<<32 | uint64(s.buffer[1])<<24 | uint64(s.buffer[2])<<16 | uint64(s.buffer[3])<<8 | uint64(s.buffer[4])
}

// ReadInt40 reads a signed 40 bit integer.
func (s *StickyBigEndianReader) ReadInt40() int64 {
	d := s.ReadUint40()

	return int64(d<<24) >> 24
}

// WriteUint40 writes an unsigned 40 bit integer.
func (s *StickyBigEndianWriter) WriteUint40(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 32)
	s.buffer[1] = byte(d >> 24)
	s.buffer[2] = byte(d >> 16)
	s.buffer[3] = byte(d >> 8)
	s.buffer[4] = byte(d >> 0)
	s.Write(s.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (s *StickyBigEndianWriter) WriteInt40(d int64) {
	s.WriteUint40(uint64(d))
}

// ReadUint48 reads an unsigned 48 bit integer.
func (s *StickyBigEndianReader) ReadUint48() uint64 {
	if !s.fill(6) {
		return 0
	}

	return uint64(s.buffer[0])<<40 | uint64(s.buffer[1])<<32 | uint64(s.buffer[2])<<24 | uint64(s.buffer[3])<<16 | uint64(s.buffer[4])<<8 | uint64(s.buffer[5])
}

// ReadInt48 reads a signed 48 bit integer.
func (s *StickyBigEndianReader) ReadInt48() int64 {
	d := s.ReadUint48()

	return int64(d<<16) >> 16
}

// WriteUint48 writes an unsigned 48 bit integer.
func (s *StickyBigEndianWriter) WriteUint48(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 40)
	s.buffer[1] = byte(d >> 32)
	s.buffer[2] = byte(d >> 24)
	s.buffer[3] = byte(d >> 16)
	s.buffer[4] = byte(d >> 8)
	s.buffer[5] = byte(d >> 0)
	s.Write(s.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (s *StickyBigEndianWriter) WriteInt48(d int64) {
	s.WriteUint48(uint64(d))
}

// ReadUint56 reads an unsigned 56 bit integer.
func (s *StickyBigEndianReader) ReadUint56() uint64 {
	if !s.fill(7) {
		return 0
	}

	return uint64(s.buffer[0])<<48 | uint64(s.buffer[1])<<40 | uint64(s.buffer[2])<<32 | uint64(s.buffer[3])<<24 | uint64(s.buffer[4])<<16 | uint64(s.buffer[5])<<8 | uint64(s.buffer[6])
}

// ReadInt56 reads a signed 56 bit integer.
func (s *StickyBigEndianReader) ReadInt56() int64 {
	d := s.ReadUint56()

	return int64(d<<8) >> 8
}

// WriteUint56 writes an unsigned 56 bit integer.
func (s *StickyBigEndianWriter) WriteUint56(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 48)
	s.buffer[1] = byte(d >> 40)
	s.buffer[2] = byte(d >> 32)
	s.buffer[3] = byte(d >> 24)
	s.buffer[4] = byte(d >> 16)
	s.buffer[5] = byte(d >> 8)
	s.buffer[6] = byte(d >> 0)
	s.Write(s.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (s *StickyBigEndianWriter) WriteInt56(d int64) {
	s.WriteUint56(uint64(d))
}

// ReadUint64 reads an unsigned 64 bit integer.
func (s *StickyBigEndianReader) ReadUint64() uint64 {
	if !s.fill(8) {
		return 0
	}

	return uint64(s.buffer[0])<<56 | uint64(s.buffer[1])<<48 | uint64(s.buffer[2])<<40 | uint64(s.buffer[3])<<32 | uint64(s.buffer[4])<<24 | uint64(s.buffer[5])<<16 | uint64(s.buffer[6])<<8 | uint64(s.buffer[7])
}

// ReadInt64 reads a signed 64 bit integer.
func (s *StickyBigEndianReader) ReadInt64() int64 {
	d := s.ReadUint64()

	return int64(d)
}

// WriteUint64 writes an unsigned 64 bit integer.
func (s *StickyBigEndianWriter) WriteUint64(d uint64) {
	if s.Err != nil {
		return
	}

	s.buffer[0] = byte(d >> 56)
	s.buffer[1] = byte(d >> 48)
	s.buffer[2] = byte(d >> 40)
	s.buffer[3] = byte(d >> 32)
	s.buffer[4] = byte(d >> 24)
	s.buffer[5] = byte(d >> 16)
	s.buffer[6] = byte(d >> 8)
	s.buffer[7] = byte(d >> 0)
	s.Write(s.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (s *StickyBigEndianWriter) WriteInt64(d int64) {
	s.WriteUint64(uint64(d))
}

// ReadFloat32 reads a float32.
func (s *StickyBigEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(s.ReadUint32())
}

// WriteFloat32 writes a float32.
func (s *StickyBigEndianWriter) WriteFloat32(d float32) {
	s.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float64.
func (s *StickyBigEndianReader) ReadFloat64() float64 {
	return math.Float64frombits(s.ReadUint64())
}

// WriteFloat64 writes a float64.
func (s *StickyBigEndianWriter) WriteFloat64(d float64) {
	s.WriteUint64(math.Float64bits(d))
}
