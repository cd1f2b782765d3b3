package main

import (
	"bytes"

	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- xwrote: a tree of any size, in a file this package did not write

type wroteEv struct {
	tr.Head
	Ver   int         `json:"ver"`
	Base  int         `json:"base"`
	Pal   [][]int     `json:"pal"`
	Comp  int         `json:"comp"`
	Strat int         `json:"strat"`
	L     []tr.Layer  `json:"l"`
	Seed  int         `json:"seed"`
	WH    []int       `json:"wh"`
	CWH   []int       `json:"cwh"`
	CPal  [][]int     `json:"cpal"`
	Dec   string      `json:"dec"`
	Dec2  string      `json:"dec2"`
	Out   []tr.OLayer `json:"out"`
	Out2  []tr.OLayer `json:"out2"`
	Pts   int         `json:"npts"`
	KB    int         `json:"kb"`
	MS    int         `json:"ms"`
	Size  int         `json:"size"` // of the file and its pixels, in kB
}

// planes are the channels of a picture in the colours of the file.
func (e *wroteEv) planes(c *tr.Content) *pic {
	n := c.W * c.H
	p := &pic{w: c.W, h: c.H}

	for k := 0; k < channels(e.Base<<1|1); k++ {
		ch := make([]byte, n)

		for i := range ch {
			v := c.P[i%len(c.P)]

			if ch[i] = 255; k < len(v) {
				ch[i] = byte(v[k])
			}
		}

		p.ch = append(p.ch, ch)
	}

	return p
}

func (e *wroteEv) layers(f *xfile, ls []tr.Layer, path []byte, ox, oy int) {
	for n := range ls {
		l := &ls[n]
		w, h := l.B[2]-l.B[0], l.B[3]-l.B[1]
		x, y := ox+l.B[0], oy+l.B[1]
		mine := cat(path, be32(n))
		m := 0

		for k, name := range legacy {
			if name == l.M {
				m = k
			}
		}

		x0 := &xlayer{w: w, h: h, typ: e.Base<<1 | 1, name: xstr(l.N)}
		x0.props = []prop{mk(6, be32(255-l.T)...), mk(8, be32(1-l.I)...), mk(15, cat(be32(x), be32(y))...), mk(7, be32(m)...)}

		if len(path) > 0 || l.C.K == "grp" || e.Seed%4 == 0 {
			x0.props = append(x0.props, mk(30, mine...))
		}

		f.layers = append(f.layers, x0)
		c := &l.C

		if c.K == "msk" {
			x0.mask = &xmask{name: xstr("mask"), p: pic{w: w, h: h, ch: [][]byte{make([]byte, w*h)}}}

			for i := range x0.mask.p.ch[0] {
				x0.mask.p.ch[0][i] = byte(c.MP[i%len(c.MP)])
			}

			c = c.C
		}

		if c.K == "grp" {
			x0.props = append(x0.props, mk(29))
			e.layers(f, c.L, mine, x, y)
		} else {
			x0.p = e.planes(c)
		}
	}
}

var legacy = []string{"Normal", "Dissolve", "Behind", "Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract", "DarkenOnly", "LightenOnly"}

func (e *wroteEv) Run() {
	e.Out, e.Out2, e.CPal, e.CWH = []tr.OLayer{}, []tr.OLayer{}, [][]int{}, []int{}
	f := &xfile{ver: e.Ver, w: e.WH[0], h: e.WH[1], base: e.Base, prec: 150, comp: e.Comp, strat: e.Strat, shuffle: e.Seed%3 == 0, share: e.Seed%2 == 0}
	f.props = []prop{mk(17, byte(e.Comp))}

	if e.Base == 2 {
		b := be32(len(e.Pal))

		for _, c := range e.Pal {
			b = append(b, byte(c[0]), byte(c[1]), byte(c[2]))
		}

		f.props = append(f.props, mk(1, b...))
	}

	e.layers(f, e.L, nil, 0, 0)

	b, _ := f.write(tr.NewRng(int64(e.Seed), "wrote"))
	e.Size = len(b) >> 10

	for _, l := range f.layers {
		e.Size += l.w * l.h >> 8
	}

	if c, err := decodeConfig("at", b); err == nil {
		e.CWH = []int{c.Width, c.Height}
		_, e.CPal = model(c.ColorModel)
	}

	e.KB, e.MS = cost(func() {
		im, err := decode("at", b)

		if e.Dec = errStr(err); err == nil {
			e.Out = tr.Observe(im, e.Pts)
		}
	})

	im, err := xcf.DecodeCompressed(at{bytes.NewReader(b)})

	if e.Dec2 = errStr(err); err == nil {
		e.Out2 = tr.Observe(im, e.Pts)
	}
}

// wrote adds trees of large layers, of many and of deep ones.
func (g *fgen) wrote(n int) {
	o := tr.TreeOpt{Depth: 2, Width: 3, Size: 90, Off: 60, Long: 1400, Mask: true, Exact: true, Groups: true, Modes: legacy, Neg: true}
	formats := [][]string{{"nrgba", "lrgb", "nrgba"}, {"lgraya", "gray", "lgraya"}, {"pal", "pala", "pala"}}

	for i := 0; i < n; i++ {
		e := &wroteEv{Ver: tr.Pick(g.Rng, allVers), Base: g.Intn(3), Comp: 1, Strat: g.Intn(6), Seed: g.Intn(1000), Pal: [][]int{}, Pts: 60}
		p := o
		p.Formats = formats[e.Base]

		if e.Base != 0 {
			p.Modes = []string{"Normal"}
		}

		if g.Intn(4) == 0 {
			e.Comp = 0
		}

		switch i % 8 {
		case 0, 1:
			e.L = g.some(&p, 1+g.Intn(3))
		case 2: // one long one
			p.Long, p.Depth, p.Groups = 30000, 0, false
			p.Size = 4
			e.L = g.some(&p, 1+g.Intn(2))
		case 3: // a wide group, and another
			p.Size, p.Long, p.Groups = 2, 0, false
			e.L = append(g.some(&p, 1), tr.Wrap(g.some(&p, 100+g.Intn(220)), 2, 3)...)
			e.L = append(e.L, tr.Wrap(g.some(&p, 2), 300, 1)...)
			e.Pts = 4
		case 4: // many
			p.Size, p.Long = 3, 0
			e.L = g.some(&p, 200+g.Intn(150))
			e.Pts = 4
		case 5: // deep
			p.Size, p.Long, p.Groups = 3, 0, false
			e.L = g.some(&p, 1)

			for d := 5 + g.Intn(20); d > 0; d-- {
				e.L = append(g.some(&p, g.Intn(2)), tr.Wrap(e.L, g.Intn(50), g.Intn(50))...)
			}
		case 6: // far from one another
			p.Size, p.Long, p.Depth = 5, 80, 1
			e.L = g.some(&p, 2+g.Intn(3))

			for k := range e.L {
				d := []int{0, 0}
				d[g.Intn(2)] = tr.Pick(g.Rng, []int{0, 300, 33000, 66000, 150000})
				e.L[k].B = tr.Shift(e.L[k].B, d[0], d[1])
			}

			if g.Intn(2) == 0 {
				e.L = append(tr.Wrap(e.L, 0, 3), g.some(&p, 1)...)
			}
		case 7: // of many tiles
			p.Depth, p.Groups, p.Long = 0, false, 0
			e.L = g.some(&p, 1)
			s := [][2]int{{1100 + g.Intn(200), 1100 + g.Intn(100)}, {100 + g.Intn(40), 9000}, {20000, 70}}[i/8%3]
			e.L = append(e.L, tr.Layer{N: "tiles", M: "Normal", B: []int{3, 1, 3 + s[0], 1 + s[1]}, C: g.Px(tr.Pick(g.Rng, p.Formats), s[0], s[1], false)})
			e.Pts = 200
		}

		if e.Base == 2 {
			e.Pal = g.NewPalette(tr.Pick(g.Rng, []int{3, 100, 129, 200, 255, 256}))
			g.repaint(e.L, e.Pal)
		}

		dx, dy, w, h := 0, 0, 1, 1

		for _, l := range e.L {
			dx, dy = max(dx, -l.B[0]), max(dy, -l.B[1])
		}

		for k := range e.L {
			b := e.L[k].B
			b = []int{b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy}
			e.L[k].B = b
			w, h = max(w, b[2]), max(h, b[3])
		}

		e.L[len(e.L)-1].M = "Normal"
		e.WH = []int{w, h}

		g.Add("xwrote", e)
	}
}

func (g *fgen) repaint(ls []tr.Layer, pl [][]int) {
	for n := range ls {
		c := &ls[n].C

		if c.K == "msk" {
			c = c.C
		}

		if g.repaint(c.L, pl); c.K == "px" {
			c.PL = pl

			for k := range c.P {
				c.P[k][0] = tr.Pick(g.Rng, []int{0, g.Intn(len(pl)), g.Intn(len(pl)), len(pl) - 1})
			}
		}
	}
}

// some makes n layers that fill their bounds.
func (g *fgen) some(o *tr.TreeOpt, n int) []tr.Layer {
	ls := g.Layers(*o, n)

	tr.Fit(ls)

	for k := range ls {
		ls[k].N = tr.Pick(g.Rng, tr.Names)
	}

	return ls
}
