package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"vimagination.zapto.org/limage/zverif/tr"
)

// prop is a property: its type, content and, if not -1, the length stated for it.
type prop struct {
	t, n int
	d    []byte
}

func mk(t int, d ...byte) prop { return prop{t, -1, d} }

func be32(v int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }
func be16(v int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(v)) }

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func xstr(s string) []byte { return cat(be32(len(s)+1), []byte(s), []byte{0}) }

// pic is a picture's channels, each w*h bytes.
type pic struct {
	w, h int
	ch   [][]byte
}

type xmask struct {
	name  []byte
	props []prop
	p     pic
}

// xlayer is a layer of a file to write.
type xlayer struct {
	w, h, typ int
	name      []byte // as stored, with its length
	props     []prop
	p         *pic
	mask      *xmask
	group     bool
}

// xfile is a file to write.
type xfile struct {
	ver, w, h, base, prec int
	comp                  int
	props                 []prop
	layers                []*xlayer
	shuffle, gaps, share  bool
	strat                 int // run-length coding
	rle                   func(ch []byte) []byte
	end                   []byte // what follows the last block
	tiling                int
}

// field is a number within the file.
type field struct {
	at, n int
	k     string
}

type fix struct {
	at, to int
}

type block struct {
	d  []byte
	f  []fix
	fs []field
}

type fwriter struct {
	*xfile
	r      tr.Rng
	blocks []*block
	tiles  map[string]int
	fields []field
}

func (w *fwriter) add() (int, *block) {
	b := new(block)
	w.blocks = append(w.blocks, b)

	return len(w.blocks) - 1, b
}

func (b *block) num(k string, v int) {
	b.fs = append(b.fs, field{len(b.d), 4, k})
	b.d = append(b.d, be32(v)...)
}

func (w *fwriter) psize() int {
	if w.ver >= 11 {
		return 8
	}

	return 4
}

// ptr writes a pointer to a block, or 0.
func (w *fwriter) ptr(b *block, k string, to int) {
	b.fs = append(b.fs, field{len(b.d), w.psize(), k})

	if to >= 0 {
		b.f = append(b.f, fix{len(b.d), to})
	}

	b.d = append(b.d, make([]byte, w.psize())...)
}

func (w *fwriter) props(b *block, ps []prop) {
	for _, p := range ps {
		b.num("ptype", p.t)

		if p.n >= 0 {
			b.num("plen", p.n)
		} else {
			b.num("plen", len(p.d))
		}

		for i := 0; i+4 <= len(p.d) && i < 40; i += 4 {
			b.fs = append(b.fs, field{len(b.d) + i, 4, fmt.Sprintf("prop%d.%d", p.t, i)})
		}

		b.d = append(b.d, p.d...)
	}

	b.num("ptype", 0)
	b.num("plen", 0)
}

func (w *fwriter) str(b *block, s []byte) {
	b.fs = append(b.fs, field{len(b.d), 4, "strlen"})
	b.d = append(b.d, s...)
}

// picture writes a hierarchy, its levels and tiles.
func (w *fwriter) picture(p *pic) int {
	id, b := w.add()

	b.num("hw", p.w)
	b.num("hh", p.h)
	b.num("bpp", len(p.ch))

	lid, l := w.add()
	w.ptr(b, "level", lid)

	if w.r.Intn(3) == 0 { // levels nobody reads
		did, d := w.add()
		d.num("w", p.w/2)
		d.num("h", p.h/2)
		d.num("0", 0)
		w.ptr(b, "dummy", did)
	}

	w.ptr(b, "end", -1)
	l.num("lw", p.w)
	l.num("lh", p.h)

	n := 64
	if w.tiling > 0 {
		n = w.tiling
	}

	if p.w > 0 && p.h > 0 {
		for y := 0; y < p.h; y += n {
			for x := 0; x < p.w; x += n {
				w.ptr(l, "tile", w.tile(p, x, y, min(n, p.w-x), min(n, p.h-y)))
			}
		}
	}

	l.num("tend", 0)

	return id
}

func (w *fwriter) tile(p *pic, x, y, tw, th int) int {
	var d []byte

	if w.comp == 0 {
		for j := y; j < y+th; j++ {
			for i := x; i < x+tw; i++ {
				for _, c := range p.ch {
					d = append(d, c[j*p.w+i])
				}
			}
		}
	} else {
		for _, c := range p.ch {
			t := make([]byte, 0, tw*th)

			for j := y; j < y+th; j++ {
				t = append(t, c[j*p.w+x:j*p.w+x+tw]...)
			}

			if w.rle != nil {
				d = append(d, w.rle(t)...)
			} else {
				d = append(d, encodeRLE(w.r, t, w.strat)...)
			}
		}
	}

	if id, ok := w.tiles[string(d)]; ok && w.share {
		return id
	}

	id, b := w.add()
	b.d = d
	w.tiles[string(d)] = id

	if w.comp == 1 {
		b.fs = append(b.fs, field{0, 1, "rle"})
	}

	return id
}

// write makes the bytes and the places of the numbers among them.
func (f *xfile) write(r tr.Rng) ([]byte, []field) {
	w := &fwriter{xfile: f, r: r, tiles: make(map[string]int)}
	_, h := w.add()

	h.d = append(h.d, "gimp xcf "...)

	if f.ver == 0 {
		h.d = append(h.d, "file"...)
	} else {
		h.d = append(h.d, fmt.Sprintf("v%03d", f.ver)...)
	}

	h.d = append(h.d, 0)
	h.num("width", f.w)
	h.num("height", f.h)
	h.num("base", f.base)

	if f.ver >= 4 {
		h.num("precision", f.prec)
	}

	w.props(h, f.props)

	for _, l := range f.layers {
		id, b := w.add()
		w.ptr(h, "layer", id)
		b.num("lwidth", l.w)
		b.num("lheight", l.h)
		b.num("ltype", l.typ)
		w.str(b, l.name)
		w.props(b, l.props)

		p := -1
		if l.p != nil {
			p = w.picture(l.p)
		}

		w.ptr(b, "hptr", p)

		m := -1
		if l.mask != nil {
			var c *block

			m, c = w.add()
			c.num("mw", l.mask.p.w)
			c.num("mh", l.mask.p.h)
			w.str(c, l.mask.name)
			w.props(c, l.mask.props)
			w.ptr(c, "mhptr", w.picture(&l.mask.p))
		}

		w.ptr(b, "mptr", m)
	}

	w.ptr(h, "layerend", -1)
	w.ptr(h, "channelend", -1)

	order := make([]int, len(w.blocks)-1)
	for n := range order {
		order[n] = n + 1
	}

	if f.shuffle {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}

	pos := make([]int, len(w.blocks))
	out := append([]byte{}, h.d...)
	w.fields = append(w.fields, h.fs...)

	for _, n := range order {
		if f.gaps && r.Intn(3) == 0 {
			for i := r.Intn(9); i > 0; i-- {
				out = append(out, byte(r.Intn(256)))
			}
		}

		pos[n] = len(out)

		for _, fl := range w.blocks[n].fs {
			fl.at += pos[n]
			w.fields = append(w.fields, fl)
		}

		out = append(out, w.blocks[n].d...)
	}

	for n, b := range w.blocks {
		for _, x := range b.f {
			at := pos[n] + x.at + w.psize() - 4

			binary.BigEndian.PutUint32(out[at:], uint32(pos[x.to]))
		}
	}

	return append(out, f.end...), w.fields
}

// encodeRLE codes a channel in one of many ways: 0 all literal, 1 all runs, 2
// long forms only, 3 short pieces, otherwise anything.
func encodeRLE(r tr.Rng, ch []byte, strat int) []byte {
	var o []byte

	for i := 0; i < len(ch); {
		run := 1

		for i+run < len(ch) && ch[i+run] == ch[i] {
			run++
		}

		left := len(ch) - i
		asRun := strat == 1 || (strat != 0 && run > 1 && r.Intn(6) != 0) || (strat > 3 && r.Intn(8) == 0)

		if asRun {
			n := run

			if strat == 3 || (strat > 3 && r.Intn(4) == 0) {
				n = 1 + r.Intn(run)
			}

			long := n > 127 || strat == 2 || (strat > 3 && r.Intn(4) == 0)

			if long {
				o = append(o, 127, byte(n>>8), byte(n), ch[i])
			} else {
				o = append(o, byte(n-1), ch[i])
			}

			i += n

			continue
		}

		n := 1

		switch {
		case strat == 0:
			n = left
		case strat == 3:
			n = 1 + r.Intn(min(3, left))
		default: // up to the next run
			for n < left && (n+2 >= left || ch[i+n] != ch[i+n+1] || ch[i+n] != ch[i+n+2]) {
				n++
			}

			if strat > 3 && r.Intn(4) == 0 {
				n = 1 + r.Intn(n)
			}
		}

		if n > 127 || strat == 2 || (strat > 3 && r.Intn(4) == 0) {
			o = append(o, 128, byte(n>>8), byte(n))
		} else {
			o = append(o, byte(256-n))
		}

		o = append(o, ch[i:i+n]...)
		i += n
	}

	return o
}

// plane makes a channel of n bytes below lim: mostly long runs when calm.
func plane(r tr.Rng, w, h, lim int, calm bool) []byte {
	b := make([]byte, w*h)

	switch k := r.Intn(6); {
	case k == 0:
		v := byte(r.V8() % lim)

		for n := range b {
			b[n] = v
		}
	case calm || k < 4:
		for i := 0; i < len(b); {
			n := 1 + r.Intn(tr.Pick(r, []int{2, 5, 40, 130, 300, 4000}))
			v := byte(r.V8() % lim)

			if calm {
				n += 20
			}

			for ; n > 0 && i < len(b); n-- {
				b[i] = v
				i++
			}
		}
	case k == 4:
		for n := range b {
			b[n] = byte((n%max(w, 1)*3 + n/max(w, 1)*5) % lim)
		}
	default:
		for n := range b {
			b[n] = byte(r.V8() % lim)
		}
	}

	return b
}
