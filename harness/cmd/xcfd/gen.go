package main

import (
	"fmt"

	"vimagination.zapto.org/limage/zverif/tr"
)

// how a file is made
type fopt struct {
	vers    []int
	bases   []int
	comp    int // -1 either
	sizes   []int
	maxpx   int
	layers  int // most at the top
	depth   int
	masks   bool
	texts   bool
	props   bool // others that do not matter
	attrs   bool // opacity, visibility, mode
	off     int
	clip    bool // layers that stick out of the canvas
	zero    bool // pictures without pixels
	palsize []int
	strats  int
	ends    bool
	shuffle bool
	steady  bool // no layer that is dissolved
}

var (
	smallSizes = []int{1, 2, 3, 5, 8}
	tileSizes  = []int{1, 7, 63, 64, 65, 100, 127, 128, 129, 192, 193}
	allVers    = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
)

func defopt() fopt {
	return fopt{vers: allVers, bases: []int{0, 0, 1, 2}, comp: -1, sizes: smallSizes, maxpx: 40000, layers: 4, depth: 2, masks: true,
		props: true, attrs: true, off: 20, clip: true, palsize: []int{1, 2, 3, 16, 255, 256}, strats: 6, ends: true, shuffle: true}
}

func channels(typ int) int {
	n := 1
	if typ < 2 {
		n = 3
	}

	return n + typ&1
}

type fgen struct {
	*tr.Gen
	o        fopt
	f        *xfile
	pal      int
	pathless bool // only layers within groups have paths
}

func (g *fgen) pic(w, h, n int, idx bool) *pic {
	p := &pic{w: w, h: h}

	for i := 0; i < n; i++ {
		lim := 256

		if idx && i == 0 {
			lim = g.pal
		}

		p.ch = append(p.ch, plane(g.Rng, w, h, lim, w*h > 3000))
	}

	return p
}

func (g *fgen) randBytes(n int) []byte {
	b := make([]byte, n)

	for i := range b {
		b[i] = byte(g.Intn(256))
	}

	return b
}

func (g *fgen) parasite(name string, data []byte) []byte {
	return cat(xstr(name), be32(g.Intn(4)), be32(len(data)), data)
}

func (g *fgen) parasites() []byte {
	var b []byte

	for i := g.Intn(4); i > 0; i-- {
		b = append(b, g.parasite(tr.Pick(g.Rng, []string{"gimp-comment", "icc-profile", "x", "tëst"}), g.randBytes(g.Intn(40)))...)
	}

	return b
}

func (g *fgen) str() []byte {
	if g.Intn(4) == 0 {
		return be32(0)
	}

	return xstr(tr.Pick(g.Rng, []string{"", "unit", "millimètres", "pt"}))
}

func (g *fgen) paths() []byte {
	n := g.Intn(3)
	b := cat(be32(0), be32(n))

	for ; n > 0; n-- {
		v, np := 1+g.Intn(3), g.Intn(4)
		b = append(b, cat(g.str(), be32(g.Intn(2)), []byte{byte(g.Intn(5))}, be32(g.Intn(2)), be32(np), be32(v))...)

		if v > 1 {
			b = append(b, be32(1)...)
		}

		if v > 2 {
			b = append(b, be32(g.Intn(100))...)
		}

		b = append(b, g.randBytes(12*np)...)
	}

	return b
}

func (g *fgen) vectors() []byte {
	n := g.Intn(3)
	b := cat(be32(1), be32(0), be32(n))

	for ; n > 0; n-- {
		m, k := g.Intn(3), g.Intn(3)
		b = append(b, cat(g.str(), be32(g.Intn(100)), be32(g.Intn(2)), be32(g.Intn(2)), be32(m), be32(k))...)

		for ; m > 0; m-- {
			b = append(b, g.parasite("p", g.randBytes(g.Intn(9)))...)
		}

		for ; k > 0; k-- {
			nf, np := 2+g.Intn(5), g.Intn(4)
			b = append(b, cat(be32(1), be32(g.Intn(2)), be32(nf), be32(np), g.randBytes(np*(4*nf+4)))...)
		}
	}

	return b
}

func (g *fgen) unknown() prop {
	return mk(tr.Pick(g.Rng, []int{14, 16, 27, 32, 34, 35, 36, 37, 38, 40, 41, 77, 1000, 0x7fffffff, 0x80000001, 0xffffffff}), g.randBytes(g.Intn(30))...)
}

func (g *fgen) imageProp() prop {
	switch g.Intn(16) {
	case 0:
		return mk(6, be32(g.V8())...)
	case 1:
		return mk(tr.Pick(g.Rng, []int{8, 9, 28}), be32(g.Intn(2))...)
	case 2:
		return mk(20, g.randBytes(4)...)
	case 3:
		return mk(22, be32(g.Intn(5))...)
	case 4:
		return mk(18, g.randBytes(5*g.Intn(4))...)
	case 5:
		return mk(19, g.randBytes(8)...)
	case 6:
		return mk(21, g.parasites()...)
	case 7, 8:
		return mk(23, g.paths()...)
	case 9:
		return mk(24, cat(g.randBytes(8), g.str(), g.str(), g.str(), g.str(), g.str())...)
	case 10, 11:
		return mk(25, g.vectors()...)
	case 12:
		return mk(39, g.randBytes(2*g.Intn(9))...)
	case 13:
		if g.f.base != 2 {
			return mk(1, g.randBytes(g.Intn(20))...)
		}
	}

	// what is a layer's property means nothing here
	if g.Intn(3) == 0 {
		return mk(tr.Pick(g.Rng, []int{2, 3, 4, 5, 7, 10, 11, 12, 13, 15, 26, 29, 30, 31, 33}), g.randBytes(g.Intn(20))...)
	}

	return g.unknown()
}

func (g *fgen) layerProp() prop {
	switch g.Intn(6) {
	case 0:
		return mk(tr.Pick(g.Rng, []int{9, 10, 11, 12, 13, 28}), be32(g.Intn(2))...)
	case 1:
		return mk(tr.Pick(g.Rng, []int{5, 20, 26, 31}), g.randBytes(4)...)
	case 2:
		return mk(2)
	case 3:
		return mk(21, g.parasites()...)
	case 4: // what is an image's property means nothing here
		return mk(tr.Pick(g.Rng, []int{1, 3, 4, 17, 18, 19, 22, 23, 24, 25, 39}), g.randBytes(g.Intn(20))...)
	}

	return g.unknown()
}

func (g *fgen) attrProps() []prop {
	var ps []prop

	if !g.o.attrs {
		return ps
	}

	if g.Intn(2) == 0 {
		ps = append(ps, mk(6, be32(g.V8())...))
	}

	if g.Intn(4) == 0 {
		ps = append(ps, mk(33, tr.Pick(g.Rng, [][]byte{
			{0, 0, 0, 0}, {0x3f, 0x80, 0, 0}, {0x3f, 0, 0, 0}, {0x3e, 0xcc, 0xcc, 0xcd}, {0x3f, 0x7f, 0xff, 0xff},
			{0x3b, 0x80, 0x80, 0x81}, {0x3a, 0x80, 0, 0}, {0xbf, 0x80, 0, 0}, {0x40, 0, 0, 0}, {0x3f, byte(g.Intn(256)), byte(g.Intn(256)), 0},
			{0x3e, byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256))}, {0x3d, byte(g.Intn(256)), 7, 0},
		})...))
	}

	if g.Intn(3) == 0 {
		ps = append(ps, mk(8, be32(g.Intn(2))...))
	}

	if g.Intn(2) == 0 {
		m := g.Intn(66)

		if m == 1 && g.o.steady {
			m = 0
		}

		ps = append(ps, mk(7, be32(m)...))
	}

	return ps
}

// layers adds n layers and what they hold to the file.
func (g *fgen) layers(n, depth int, path []int, ox, oy int) {
	for i := 0; i < n; i++ {
		w, h := tr.Pick(g.Rng, g.o.sizes), tr.Pick(g.Rng, g.o.sizes)

		for w*h > g.o.maxpx {
			w, h = tr.Pick(g.Rng, g.o.sizes), tr.Pick(g.Rng, g.o.sizes)
		}

		if g.o.zero && g.Intn(5) == 0 {
			if g.Intn(2) == 0 {
				w = 0
			} else {
				h = 0
			}

			if g.Intn(3) == 0 {
				w, h = 0, 0
			}
		}

		l := &xlayer{w: w, h: h, typ: g.f.base<<1 | 1}
		l.name = xstr(tr.Pick(g.Rng, []string{"", "a", "Background", "Ebene ü", "\"<&>", "long name, long enough to be told apart"}))

		if g.Intn(8) == 0 {
			l.name = be32(0)
		}

		l.group = depth > 0 && g.Intn(3) == 0
		x, y := ox+g.Intn(g.o.off+1), oy+g.Intn(g.o.off+1)

		if g.o.clip {
			x -= g.Intn(g.o.off + 1)
			y -= g.Intn(g.o.off + 1)
		}

		var ps []prop

		if x != 0 || y != 0 || g.Intn(2) == 0 {
			ps = append(ps, mk(15, cat(be32(x), be32(y))...))
		} else {
			x, y = 0, 0
		}

		mine := append(append([]int{}, path...), i)

		if len(mine) > 1 || !g.pathless && (l.group || g.Intn(4) == 0) {
			var d []byte

			for _, k := range mine {
				d = append(d, be32(k)...)
			}

			ps = append(ps, mk(30, d...))
		}

		if l.group {
			ps = append(ps, mk(29))
		}

		ps = append(ps, g.attrProps()...)

		if g.o.texts && !l.group && g.Intn(2) == 0 {
			ps = append(ps, mk(26, be32(1)...), mk(21, cat(g.parasites(), g.parasite("gimp-text-layer", g.description()), g.parasites())...))
		} else if g.o.props && g.Intn(4) == 0 {
			ps = append(ps, mk(21, g.parasites()...))
		}

		for k := 0; g.o.props && k < 4 && g.Intn(2) == 0; k++ {
			if p := g.layerProp(); p.t != 21 {
				ps = append(ps, p)
			}
		}

		g.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		l.props = ps

		l.p = g.pic(w, h, channels(l.typ), g.f.base == 2)

		if g.o.masks && g.Intn(4) == 0 {
			l.mask = &xmask{name: xstr("mask"), p: *g.pic(w, h, 1, false)}

			if g.Intn(2) == 0 {
				l.mask.props = append(l.mask.props, mk(6, be32(g.V8())...), g.unknown())
			}
		}

		g.f.layers = append(g.f.layers, l)

		if l.group {
			if g.Intn(3) == 0 {
				l.p = nil // nobody reads it
			}

			g.layers(g.Intn(g.o.layers+1), depth-1, mine, x, y)
		}
	}
}

// file makes a file; w, h of 0 are chosen.
func (g *fgen) file() *xfile {
	o := g.o
	g.f = &xfile{ver: tr.Pick(g.Rng, o.vers), base: tr.Pick(g.Rng, o.bases), comp: o.comp, strat: g.Intn(o.strats), prec: tr.Pick(g.Rng, []int{0, 100, 150}),
		shuffle: o.shuffle && g.Intn(2) == 0, gaps: o.shuffle && g.Intn(2) == 0, share: g.Intn(3) == 0}

	if o.comp < 0 {
		g.f.comp = g.Intn(3) & 1 // rather not compressed
		g.f.comp ^= 1
	}

	g.f.w, g.f.h = 1+g.Intn(80), 1+g.Intn(80)

	if o.sizes[len(o.sizes)-1] > 60 {
		g.f.w, g.f.h = 60+g.Intn(200), 60+g.Intn(200)
	}

	if g.f.comp == 1 {
		g.f.props = append(g.f.props, mk(17, 1))
	} else if g.Intn(2) == 0 {
		g.f.props = append(g.f.props, mk(17, 0))
	}

	g.pal = tr.Pick(g.Rng, o.palsize)

	if g.f.base == 2 {
		g.f.props = append(g.f.props, mk(1, cat(be32(g.pal), g.randBytes(3*g.pal))...))
	}

	for k := 0; o.props && k < 5 && g.Intn(3) != 0; k++ {
		g.f.props = append(g.f.props, g.imageProp())
	}

	g.Shuffle(len(g.f.props), func(i, j int) { g.f.props[i], g.f.props[j] = g.f.props[j], g.f.props[i] })

	if g.f.comp == 0 && g.o.maxpx > 9000 {
		g.o.maxpx = 9000
	}

	g.pathless = g.Intn(2) == 0
	g.layers(1+g.Intn(o.layers), o.depth, nil, 0, 0)
	g.o.maxpx = o.maxpx

	last := g.f.layers[len(g.f.layers)-1]

	if g.Intn(3) == 0 && last.typ&1 == 1 { // the last one need not have alpha
		last.typ--

		if last.p != nil {
			last.p.ch = last.p.ch[:len(last.p.ch)-1]
		}
	}

	if o.ends && g.Intn(4) == 0 {
		g.f.end = g.randBytes(g.Intn(20))
	}

	return g.f
}

// leaves lists where the layers with pictures are, as the file has them.
func (f *xfile) leaves() (ps [][]int, ls []*xlayer) {
	type node struct {
		path string
		kids int
		at   []int
	}

	groups := map[string]*node{"": {}}
	n := 0

	for _, l := range f.layers {
		var path []int

		for _, p := range l.props {
			if p.t == 30 {
				path = nil

				for i := 0; i+4 <= len(p.d); i += 4 {
					path = append(path, int(p.d[i+2])<<8|int(p.d[i+3]))
				}
			}
		}

		if path == nil {
			path = []int{n}
			n++
		}

		g := groups[fmt.Sprint(path[:len(path)-1])]
		if len(path) == 1 {
			g = groups[""]
		}

		if g == nil {
			continue
		}

		at := append(append([]int{}, g.at...), g.kids)
		g.kids++

		if l.group {
			groups[fmt.Sprint(path)] = &node{at: at}
		} else {
			ps = append(ps, at)
			ls = append(ls, l)
		}
	}

	return ps, ls
}

// accesses picks points of the file's layers in an order that goes from tile to tile.
func (g *fgen) accesses(n int) []access {
	ps, ls := g.f.leaves()
	if len(ps) == 0 {
		return nil
	}

	var as []access

	for i := 0; i < n; i++ {
		k := g.Intn(len(ps))

		if g.Intn(2) == 0 && len(as) > 0 {
			k = 0
		}

		w, h := ls[k].w, ls[k].h
		a := access{LP: ps[k]}

		switch g.Intn(12) {
		case 0:
			a.X, a.Y = -1-g.Intn(70), g.Intn(h+1)
		case 1:
			a.X, a.Y = g.Intn(w+1), h+g.Intn(70)
		case 2:
			a.X, a.Y = w+g.Intn(3), h-1
		case 3:
			a.X, a.Y = w-1, -1
		default:
			a.X, a.Y = g.Intn(w+1), g.Intn(h+1)

			if g.Intn(2) == 0 {
				a.X = min(w, a.X/64*64+g.Intn(2)*63)
			}

			if g.Intn(2) == 0 {
				a.Y = min(h, a.Y/64*64+g.Intn(2)*63)
			}
		}

		as = append(as, a)
	}

	return as
}

var vias = []string{"at", "at", "at", "image", "seek", "bufio", "bufseek"}

func (g *fgen) dec(note string) *decEv {
	b, _ := g.f.write(g.Rng)
	e := &decEv{B: b, Note: note, Via: tr.Pick(g.Rng, vias), Acc: g.accesses(20)}
	g.Add("xdec", e)

	return e
}

func generate(g *tr.Gen) {
	f := &fgen{Gen: g, o: defopt()}

	switch g.Prop {
	case "C18":
		f.genDeferred()
		f.wrote(40 * f.K)
	case "C19":
		f.genFormat()
		f.wrote(60 * f.K)
	case "C20":
		f.genGroups()
		f.wrote(30 * f.K)
		f.huge("layers", 3000, "nest", 1000, "wide", 5000)
	case "C16":
		f.roundTrips()
	case "C17":
		f.runLengths()
		f.streams()
	case "C21":
		f.hostile()
		f.huge("layers", 20000, "path", 1000000, "props", 200000, "parasites", 200000, "guides", 500000, "parens", 1000000, "parens", 10000000,
			"balanced", 1000000, "tags", 300000, "values", 500000, "word", 2000000, "number", 1000000, "spans", 200000, "deepspans", 200000,
			"openspans", 200000, "attrs", 200000)
	case "C22":
		f.faults()
	case "C24":
		f.texts()
		f.descriptions()
		f.huge("literal", 200000, "escapes", 100000, "spans", 20000, "deepspans", 60, "tags", 1000, "values", 1000, "balanced", 60)
	case "C29":
		f.roundTrips()
		f.texts()
	case "C30":
		f.contradict()
	case "C25":
		f.concurrent()
	}
}

func (g *fgen) genDeferred() {
	g.o.comp = 1
	g.o.props = false

	for i := 0; i < 90*g.K; i++ {
		g.o.sizes, g.o.layers = tileSizes, 2
		g.file()
		g.dec("tiles")
	}

	for i := 0; i < 150*g.K; i++ {
		g.o.sizes, g.o.layers = smallSizes, 4
		g.o.zero = i%5 == 0
		g.file()
		g.dec("small")
	}
}

func (g *fgen) genFormat() {
	for _, v := range allVers {
		for b := 0; b < 3; b++ {
			for i := 0; i < 6*g.K; i++ {
				g.o.vers, g.o.bases = []int{v}, []int{b}
				g.o.zero = i%6 == 5
				g.file()
				g.dec("format")
			}
		}
	}

	g.o = defopt()
	g.o.sizes, g.o.layers = tileSizes, 2

	for i := 0; i < 50*g.K; i++ {
		g.file()
		g.dec("tiles")
	}
}

func (g *fgen) genGroups() {
	g.o.depth, g.o.sizes = 4, []int{1, 2, 3, 4}

	for i := 0; i < 300*g.K; i++ {
		g.o.layers = 2 + i%4
		g.file()
		g.dec("groups").Reps = 4
	}
}
