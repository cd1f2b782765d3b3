package main

import (
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- files that contradict themselves, or state what the format does not have

// liar makes a file that is sound, of any kind, and not too long.
func (g *fgen) liar(i int) *xfile {
	g.o = defopt()
	g.o.ends = false
	g.o.zero = i%7 == 0

	switch i % 5 {
	case 0:
		g.o.sizes, g.o.layers, g.o.depth = tileSizes, 2, 0
	case 1:
		g.o.depth = 3
	case 2:
		g.o.texts = true
	}

	return g.file()
}

// one of the layers with a picture, or none
func (g *fgen) leaf() *xlayer {
	var ls []*xlayer

	for _, l := range g.f.layers {
		if !l.group && l.p != nil {
			ls = append(ls, l)
		}
	}

	if len(ls) == 0 {
		return nil
	}

	return tr.Pick(g.Rng, ls)
}

// among puts a property somewhere among others.
func (g *fgen) among(ps []prop, p prop) []prop {
	n := g.Intn(len(ps) + 1)

	return append(append(append([]prop{}, ps[:n]...), p), ps[n:]...)
}

func (g *fgen) beyond(lim int) []byte {
	return be32(tr.Pick(g.Rng, []int{lim, lim + 1, lim + 7, 256, 257, 65536, 1 << 24, 1 << 30, 0x7fffffff, 0x80000000, 0x80000001, 0xffffff00, 0xffffffff}))
}

func (g *fgen) ill() []byte { // a string that is none
	if g.Intn(3) == 0 { // for something late in a long one
		n := tr.Pick(g.Rng, []int{200, 260, 400, 520, 700, 1030, 1500, 2100}) + g.Intn(40)
		b := make([]byte, n+1)

		for i := range b[:n] {
			b[i] = byte('a' + i%26)
		}

		switch g.Intn(4) {
		case 0:
			b[n] = 'z'
		case 1:
			b[n-1] = 0xc3
		default:
			b[n-1-g.Intn(60)] = tr.Pick(g.Rng, []byte{0x80, 0xff, 0xc3, 0xe2, 0xf0})
		}

		return cat(be32(n+1), b)
	}

	return tr.Pick(g.Rng, [][]byte{
		cat(be32(1), []byte{1}), cat(be32(4), []byte("abcd")), cat(be32(3), []byte{0xff, 'a', 0}), cat(be32(4), []byte{'a', 0xc3, 0x28, 0}),
		cat(be32(3), []byte{'a', 0xc3, 0}), cat(be32(4), []byte{0xed, 0xa0, 0x80, 0})[:7], cat(be32(5), []byte{0xed, 0xa0, 0x80, 'x', 0}), cat(be32(3), []byte{0xc0, 0x80, 0}),
		cat(be32(6), []byte{0xf8, 0x88, 0x80, 0x80, 0x80, 0}), cat(be32(300), make([]byte, 299), []byte{7}),
	})
}

// structural lies about a layer; false if they do not apply to it
func (g *fgen) lie(k int) bool {
	f := g.f
	l := tr.Pick(g.Rng, f.layers)
	p := g.leaf()

	switch k {
	case 0: // another kind of colours
		l.typ = tr.Pick(g.Rng, []int{l.typ + 2, l.typ ^ 4, l.typ + 6, l.typ + 64, l.typ | 1<<30, l.typ ^ 2})
	case 1: // a picture of another size
		if p == nil {
			return false
		}

		w, h := p.p.w+g.Intn(3)-1, p.p.h+g.Intn(3)-1

		if g.Intn(4) == 0 {
			w, h = p.p.h, p.p.w
		}

		if w < 0 || h < 0 || w == p.w && h == p.h {
			return false
		}

		*p.p = *g.pic(w, h, len(p.p.ch), f.base == 2)
	case 2: // a picture of more or fewer channels
		if p == nil {
			return false
		}

		n := tr.Pick(g.Rng, []int{1, 2, 3, 4, 5})

		if n == len(p.p.ch) {
			return false
		}

		*p.p = *g.pic(p.p.w, p.p.h, n, f.base == 2)
	case 3: // a mask of another size
		w, h := l.w+g.Intn(3)-1, l.h+g.Intn(3)-1

		if g.Intn(4) == 0 {
			w, h = l.h, l.w
		}

		if w < 0 || h < 0 || w == l.w && h == l.h || w*h > 50000 {
			return false
		}

		l.mask = &xmask{name: xstr("m"), p: *g.pic(w, h, 1, false)}
	case 4: // a mask of several channels
		if l.w*l.h > 50000 {
			return false
		}

		l.mask = &xmask{name: xstr("m"), p: *g.pic(l.w, l.h, 2+g.Intn(3), false)}
	case 5: // colours beyond the palette
		if p == nil || f.base != 2 || g.pal == 256 || p.w*p.h == 0 {
			return false
		}

		c := p.p.ch[0]

		for i := g.Intn(3) * g.Intn(8); i >= 0; i-- {
			c[tr.Pick(g.Rng, []int{0, len(c) - 1, g.Intn(len(c))})] = byte(tr.Pick(g.Rng, []int{g.pal, 255, g.pal + g.Intn(256-g.pal)}))
		}
	case 6: // the same group twice
		for _, o := range f.layers {
			for _, q := range o.props {
				if o.group && q.t == 30 {
					d := &xlayer{w: 1, h: 1, typ: f.base<<1 | 1, name: xstr("again"), group: true, props: []prop{mk(29), q}}
					f.layers = append(f.layers[:len(f.layers):len(f.layers)], d)

					if last := f.layers[len(f.layers)-2]; last.typ&1 == 0 {
						return false
					}

					return true
				}
			}
		}

		return false
	case 7:
		l.name = g.ill()
	case 8: // parasites of such names, or longer than all of them
		d := cat(g.ill(), be32(0), be32(0))

		if g.Intn(2) == 0 {
			d = g.parasite("x", g.randBytes(2+g.Intn(20)))
			m := mk(21, d...)

			if m.n = g.Intn(len(d)); m.n == 0 {
				return false
			}

			if g.Intn(2) == 0 {
				l.props = g.among(l.props, m)
			} else {
				f.props = g.among(f.props, m)
			}

			return true
		}

		d = cat(g.parasites(), d)

		if g.Intn(2) == 0 {
			l.props = g.among(l.props, mk(21, d...))
		} else {
			f.props = g.among(f.props, mk(21, d...))
		}
	case 9:
		l.props = g.among(l.props, mk(6, g.beyond(256)...))
	case 10:
		l.props = g.among(l.props, mk(8, g.beyond(2)...))
	case 11:
		l.props = g.among(l.props, mk(30, g.randBytes(1+g.Intn(3)+4*g.Intn(3))...))
	case 12: // an end with something in it
		e := mk(0, g.randBytes(4*(1+g.Intn(4)))...)

		switch g.Intn(3) {
		case 0:
			l.props = append(l.props, e)
		case 1:
			f.props = append(f.props, e)
		default:
			if l.mask == nil {
				return false
			}

			l.mask.props = append(l.mask.props, e)
		}
	case 13:
		if l.mask == nil {
			return false
		}

		l.mask.props = g.among(l.mask.props, mk(6, g.beyond(256)...))
	case 14:
		f.props = g.among(f.props, mk(6, g.beyond(256)...))
	case 15:
		f.props = g.among(f.props, mk(tr.Pick(g.Rng, []int{8, 9, 28}), g.beyond(2)...))
	case 16:
		f.props = g.among(f.props, mk(22, g.beyond(5)...))
	case 17:
		f.props = g.among(f.props, mk(18, g.randBytes(5*g.Intn(5)+1+g.Intn(4))...))
	case 18:
		f.props = g.among(f.props, mk(39, g.randBytes(1+2*g.Intn(9))...))
	case 19:
		f.props = g.among(f.props, mk(17, byte(tr.Pick(g.Rng, []int{2, 3, 4, 127, 128, 254, 255}))))
	case 20: // more colours than there can be
		if f.base != 2 {
			return false
		}

		n := tr.Pick(g.Rng, []int{257, 258, 300, 512, 513, 1000, 1024})
		f.props = g.among(f.props, mk(1, cat(be32(n), g.randBytes(3*n))...))
	case 21:
		f.base = tr.Pick(g.Rng, []int{3, 4, 5, 6, 7, 256, 257, 258, 512, 1 << 16, 1<<16 | 2, 1 << 24, 1<<31 | 1})
	case 22:
		f.ver = tr.Pick(g.Rng, []int{14, 15, 20, 99, 100, 101, 111, 999})
	}

	return true
}

func (g *fgen) contradict() {
	for i := 0; i < 23*10*g.K; i++ {
		for n := i; ; n++ {
			g.liar(n)

			if g.lie(i % 23) {
				break
			}

			if i%23 == 20 || i%23 == 5 {
				g.o.bases = []int{2}
			}
		}

		g.f.strat = g.Intn(6)
		g.dec("lie")
	}

	for i := 0; i < 40*g.K; i++ { // any one number, a little or much
		g.liar(i)
		b, fs := g.f.write(g.Rng)

		if len(b) > 20000 {
			continue
		}

		for k := 0; k < 14; k++ {
			f := tr.Pick(g.Rng, fs)
			was := get(b, f)
			g.bad(put(b, f, tr.Pick(g.Rng, []uint64{was + 1, was - 1, was + 64, was ^ 1, was ^ 2, was << 1, was | 1<<16, was | 1<<31, was + 256, uint64(g.Intn(300))})), "number "+f.k)
		}

		for k := 0; k < 3; k++ { // the header
			o := append([]byte{}, b...)
			at := 9 + g.Intn(5)
			o[at] = tr.Pick(g.Rng, []byte{0, ' ', '0', '1', '2', '4', '9', 'v', 'V', 'e', 0xff, o[at] + 1, o[at] - 1, o[at] ^ 0x20})
			g.bad(o, "header")
		}
	}

	// of pictures of many tiles, the last few
	for i := 0; i < 3*g.K; i++ {
		w, h := tr.Pick(g.Rng, []int{1100, 40, 200}), tr.Pick(g.Rng, []int{700, 5000})
		g.pal = 9 + g.Intn(200)
		n := 1 + g.Intn(2)
		g.f = &xfile{ver: tr.Pick(g.Rng, allVers), w: w, h: h, base: 2, prec: 150, comp: 1, strat: 1, props: []prop{mk(17, 1), mk(1, cat(be32(g.pal), g.randBytes(3*g.pal))...)}}
		p := &pic{w: w, h: h}

		for k := 0; k < n; k++ {
			p.ch = append(p.ch, make([]byte, w*h))
		}

		p.ch[0][len(p.ch[0])-1-g.Intn(60)] = byte(g.pal + g.Intn(2))
		g.f.layers = []*xlayer{{w: w, h: h, typ: 3 + n, name: xstr("far"), p: p}}
		g.dec("far")
	}
}

// Add adds an event, which is strict where that is what it is about.
func (g *fgen) Add(op string, e tr.Event) {
	if d, ok := e.(*decEv); ok {
		d.Strict = tr.B2I(g.Prop == "C30")
	}

	g.Gen.Add(op, e)
}
