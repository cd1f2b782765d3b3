#!/usr/bin/env python3
"""Writes byteio/byteio.go: the offline stand-in for vimagination.zapto.org/byteio v1.0.0."""
out = ['''// Package byteio is an offline stand-in for vimagination.zapto.org/byteio
// v1.0.0, written from its documented API (the module cannot be fetched here).
// Generated by ../gen_byteio.py.
package byteio

import (
	"io"
	"math"
)
''']
ints = [8, 16, 24, 32, 40, 48, 56, 64]
def gotype(n):
    for b in (8, 16, 32, 64):
        if n <= b: return b
for endian in ("Little", "Big"):
    for sticky in (False, True):
        name = ("Sticky" if sticky else "") + endian + "Endian"
        if sticky:
            out.append(f'''
// {name}Reader wraps an io.Reader; the first error is kept in Err and stops all later reads.
type {name}Reader struct {{
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}}

// Read implements io.Reader.
func (s *{name}Reader) Read(p []byte) (int, error) {{
	if s.Err != nil {{
		return 0, s.Err
	}}

	var n int

	n, s.Err = s.Reader.Read(p)
	s.Count += int64(n)

	return n, s.Err
}}

func (s *{name}Reader) fill(n int) bool {{
	if s.Err != nil {{
		return false
	}}

	var m int

	m, s.Err = io.ReadFull(s.Reader, s.buffer[:n])
	s.Count += int64(m)

	return s.Err == nil
}}

// ReadByte implements io.ByteReader.
func (s *{name}Reader) ReadByte() (byte, error) {{
	b := s.ReadUint8()

	return b, s.Err
}}

// ReadBool reads a single byte as a boolean.
func (s *{name}Reader) ReadBool() bool {{
	return s.ReadUint8() != 0
}}

// ReadBytes reads exactly size bytes.
func (s *{name}Reader) ReadBytes(size int) []byte {{
	if s.Err != nil {{
		return nil
	}}

	buf := make([]byte, size)

	var n int

	n, s.Err = io.ReadFull(s.Reader, buf)
	s.Count += int64(n)

	return buf
}}

// ReadString reads exactly size bytes as a string.
func (s *{name}Reader) ReadString(size int) string {{
	return string(s.ReadBytes(size))
}}

// {name}Writer wraps an io.Writer; the first error is kept in Err and stops all later writes.
type {name}Writer struct {{
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}}

// Write implements io.Writer.
func (s *{name}Writer) Write(p []byte) (int, error) {{
	if s.Err != nil {{
		return 0, s.Err
	}}

	var n int

	n, s.Err = s.Writer.Write(p)
	s.Count += int64(n)

	return n, s.Err
}}

// WriteByte implements io.ByteWriter.
func (s *{name}Writer) WriteByte(b byte) error {{
	s.WriteUint8(b)

	return s.Err
}}

// WriteBool writes a single byte.
func (s *{name}Writer) WriteBool(b bool) {{
	if b {{
		s.WriteUint8(1)
	}} else {{
		s.WriteUint8(0)
	}}
}}

// WriteBytes writes the given bytes.
func (s *{name}Writer) WriteBytes(p []byte) {{
	s.Write(p)
}}

// WriteString writes the given string.
func (s *{name}Writer) WriteString(p string) {{
	s.Write([]byte(p))
}}
''')
        else:
            out.append(f'''
// {name}Reader wraps an io.Reader.
type {name}Reader struct {{
	io.Reader
	buffer [9]byte
}}

// {name}Writer wraps an io.Writer.
type {name}Writer struct {{
	io.Writer
	buffer [9]byte
}}
''')
        for n in ints:
            g = gotype(n); k = n // 8
            order = list(range(k)) if endian == "Little" else list(range(k))[::-1]
            expr = " | ".join((f"uint{g}(s.buffer[{i}])" + (f"<<{8*order[i]}" if order[i] else "")) for i in range(k))
            put = "\n".join(f"\ts.buffer[{i}] = byte(d >> {8*order[i]})" for i in range(k))
            sign = f"int{g}(d)" if g == n else f"int{g}(d<<{g-n}) >> {g-n}"
            if sticky:
                out.append(f'''
// ReadUint{n} reads an unsigned {n} bit integer.
func (s *{name}Reader) ReadUint{n}() uint{g} {{
	if !s.fill({k}) {{
		return 0
	}}

	return {expr}
}}

// ReadInt{n} reads a signed {n} bit integer.
func (s *{name}Reader) ReadInt{n}() int{g} {{
	d := s.ReadUint{n}()

	return {sign}
}}

// WriteUint{n} writes an unsigned {n} bit integer.
func (s *{name}Writer) WriteUint{n}(d uint{g}) {{
	if s.Err != nil {{
		return
	}}

{put}
	s.Write(s.buffer[:{k}])
}}

// WriteInt{n} writes a signed {n} bit integer.
func (s *{name}Writer) WriteInt{n}(d int{g}) {{
	s.WriteUint{n}(uint{g}(d))
}}
''')
            else:
                out.append(f'''
// ReadUint{n} reads an unsigned {n} bit integer.
func (s *{name}Reader) ReadUint{n}() (uint{g}, int, error) {{
	n, err := io.ReadFull(s.Reader, s.buffer[:{k}])
	if err != nil {{
		return 0, n, err
	}}

	return {expr}, n, nil
}}

// ReadInt{n} reads a signed {n} bit integer.
func (s *{name}Reader) ReadInt{n}() (int{g}, int, error) {{
	d, n, err := s.ReadUint{n}()

	return {sign}, n, err
}}

// WriteUint{n} writes an unsigned {n} bit integer.
func (s *{name}Writer) WriteUint{n}(d uint{g}) (int, error) {{
{put}

	return s.Writer.Write(s.buffer[:{k}])
}}

// WriteInt{n} writes a signed {n} bit integer.
func (s *{name}Writer) WriteInt{n}(d int{g}) (int, error) {{
	return s.WriteUint{n}(uint{g}(d))
}}
''')
        for f in (32, 64):
            if sticky:
                out.append(f'''
// ReadFloat{f} reads a float{f}.
func (s *{name}Reader) ReadFloat{f}() float{f} {{
	return math.Float{f}frombits(s.ReadUint{f}())
}}

// WriteFloat{f} writes a float{f}.
func (s *{name}Writer) WriteFloat{f}(d float{f}) {{
	s.WriteUint{f}(math.Float{f}bits(d))
}}
''')
            else:
                out.append(f'''
// ReadFloat{f} reads a float{f}.
func (s *{name}Reader) ReadFloat{f}() (float{f}, int, error) {{
	d, n, err := s.ReadUint{f}()

	return math.Float{f}frombits(d), n, err
}}

// WriteFloat{f} writes a float{f}.
func (s *{name}Writer) WriteFloat{f}(d float{f}) (int, error) {{
	return s.WriteUint{f}(math.Float{f}bits(d))
}}
''')
open("byteio/byteio.go", "w").write("".join(out))
