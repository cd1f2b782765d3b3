package tr

import "encoding/json"

// Interesting16 are the 16-bit component values around which arithmetic breaks.
var Interesting16 = []int{0, 1, 2, 255, 256, 257, 0x3fff, 0x4000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xc000, 0xfefe, 0xff00, 0xfffd, 0xfffe, 0xffff}

// Interesting8 likewise for 8 bits.
var Interesting8 = []int{0, 1, 2, 63, 64, 126, 127, 128, 129, 191, 192, 253, 254, 255}

// V16 picks a 16-bit value, often an interesting one.
func (r Rng) V16() int {
	if r.Intn(3) == 0 {
		return Pick(r, Interesting16)
	}

	return r.Intn(65536)
}

// V8 picks an 8-bit value, often an interesting one.
func (r Rng) V8() int {
	if r.Intn(3) == 0 {
		return Pick(r, Interesting8)
	}

	return r.Intn(256)
}

// A8 picks an 8-bit alpha, often an extreme.
func (r Rng) A8() int {
	switch r.Intn(4) {
	case 0:
		return 255
	case 1:
		return 0
	}

	return r.V8()
}

// NewPalette makes n distinct palette entries.
func (r Rng) NewPalette(n int) [][]int {
	var pl [][]int

	seen := make(map[[3]int]bool)

	for len(pl) < n {
		c := [3]int{r.V8(), r.V8(), r.V8()}

		if !seen[c] {
			seen[c] = true
			pl = append(pl, []int{c[0], c[1], c[2]})
		}
	}

	return pl
}

// Most is how many pixels a picture has before they repeat.
const Most = 1031

// Px makes random pixels of the given format and size. bin restricts alpha to the extremes.
func (r Rng) Px(f string, w, h int, bin bool) Content {
	c := Content{K: "px", F: f, W: w, H: h, L: []Layer{}}
	a := func() int {
		if bin {
			return 255 * r.Intn(2)
		}

		return r.A8()
	}

	if f == "pal" || f == "pala" {
		c.PL = r.NewPalette(2 + r.Intn(6))

		if r.Intn(24) == 0 {
			c.PL = r.NewPalette(200 + r.Intn(57))
		}
	}

	for i := 0; i < min(w*h, Most); i++ {
		var p []int

		switch f {
		case "nrgba":
			p = []int{r.V8(), r.V8(), r.V8(), a()}
		case "nrgba64":
			p = []int{r.V16(), r.V16(), r.V16(), a() * 257}

			if !bin && r.Intn(2) == 0 {
				p[3] = r.V16()
			}
		case "rgba":
			al := a()
			p = []int{r.Intn(al + 1), r.Intn(al + 1), r.Intn(al + 1), al}
		case "gray":
			p = []int{r.V8()}
		case "lrgb":
			p = []int{r.V8(), r.V8(), r.V8()}
		case "lgraya":
			p = []int{r.V8(), a()}
		case "pal":
			p = []int{r.Intn(len(c.PL))}
		case "pala":
			p = []int{r.Intn(len(c.PL)), a()}
		}

		c.P = append(c.P, p)
	}

	return c
}

// TreeOpt bounds the random layer trees.
type TreeOpt struct {
	Formats  []string
	Modes    []string
	Depth    int // further nesting allowed
	Width    int // most layers in a group
	Size     int // largest width and height of a layer
	Off      int // largest offset, either sign
	Long     int // largest width or height of some
	Mask     bool
	Text     bool
	Dissolve bool // allow dissolve layers, with alpha at the extremes
	Neg      bool // allow negative offsets
	Exact    bool // content exactly fills the bounds
	Mono     bool // one palette for all
	Groups   bool
}

// size chooses the size of a layer.
func (o *TreeOpt) size(r Rng) (int, int) {
	w, h := 1+r.Intn(o.Size), 1+r.Intn(o.Size)

	if o.Long > 0 && r.Intn(2) == 0 {
		if w = 1 + r.Intn(o.Long); r.Intn(2) == 0 {
			w, h = h, w
		}
	}

	return w, h
}

// Layers makes a random list of layers.
func (r Rng) Layers(o TreeOpt, n int) []Layer {
	ls := make([]Layer, n)

	for i := range ls {
		ls[i] = r.Layer(o)
	}

	return ls
}

// Layer makes a random layer.
func (r Rng) Layer(o TreeOpt) Layer {
	w, h := o.size(r)
	x, y := r.Intn(o.Off+1), r.Intn(o.Off+1)

	if o.Neg && r.Intn(3) == 0 {
		x -= o.Off
		y -= r.Intn(o.Off + 1)
	}

	l := Layer{N: Pick(r, []string{"", "a", "Layer 1", "ünï", "<&>\"'"}), B: []int{x, y, x + w, y + h}, M: Pick(r, o.Modes)}

	if r.Intn(6) == 0 {
		l.I = 1
	}

	if r.Intn(3) == 0 {
		l.T = r.V8()
	}

	bin := false

	if o.Dissolve && r.Intn(6) == 0 {
		l.M = "Dissolve"
		l.T = 255 * (r.Intn(4) / 3)
		bin = true
	}

	if o.Groups && o.Depth > 0 && !bin && r.Intn(3) == 0 {
		p := o
		p.Depth--
		l.C = Content{K: "grp", L: r.Layers(p, 1+r.Intn(o.Width))}

		return l
	}

	cw, ch := w, h

	if !o.Exact && r.Intn(5) == 0 {
		cw, ch = o.size(r)
	}

	l.C = r.Px(Pick(r, o.Formats), cw, ch, bin)

	if o.Mask && !bin && r.Intn(4) == 0 {
		l.C = r.Masked(l.C, cw, ch, o.Exact)
	}

	if o.Text && r.Intn(6) == 0 {
		in := l.C
		l.C = Content{K: "txt", C: &in, L: []Layer{}, S: []Datum{{D: "t", F: "f", FG: []int{0, 0, 0}, BG: []int{0, 0, 0}}}}
	}

	return l
}

// Masked wraps a content of the given size in a mask.
func (r Rng) Masked(in Content, w, h int, exact bool) Content {
	m := Content{K: "msk", C: &in, L: []Layer{}, MB: []int{0, 0, w, h}}

	if !exact && r.Intn(2) == 0 {
		m.MB = []int{r.Intn(3) - 1, r.Intn(3) - 1, w + r.Intn(3) - 1, h + r.Intn(3) - 1}

		if m.MB[2] <= m.MB[0] || m.MB[3] <= m.MB[1] {
			m.MB = []int{0, 0, w, h}
		}
	}

	for i := 0; i < min(Most, (m.MB[2]-m.MB[0])*(m.MB[3]-m.MB[1])); i++ {
		m.MP = append(m.MP, r.A8())
	}

	return m
}

// Clone copies a value through JSON.
func Clone[T any](v T) T {
	var w T

	b, err := json.Marshal(v)
	Check(err)
	Check(json.Unmarshal(b, &w))

	return w
}

// Size is the extent of a content from its origin.
func (c *Content) Size() (int, int) {
	switch c.K {
	case "grp":
		w, h := 0, 0

		for _, l := range c.L {
			if l.B[0] < l.B[2] && l.B[1] < l.B[3] {
				w, h = max(w, l.B[2]), max(h, l.B[3])
			}
		}

		return w, h
	case "msk", "txt":
		return c.C.Size()
	}

	return c.W, c.H
}

// Fit makes every layer's bounds its content's size, and the content of every
// group start at or after the group's origin.
func Fit(ls []Layer) {
	for n := range ls {
		l := &ls[n]

		if l.C.K == "grp" {
			Fit(l.C.L)

			dx, dy := 0, 0

			for _, k := range l.C.L {
				dx, dy = max(dx, -k.B[0]), max(dy, -k.B[1])
			}

			for i := range l.C.L {
				b := l.C.L[i].B
				l.C.L[i].B = []int{b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy}
			}
		}

		w, h := l.C.Size()
		l.B = []int{l.B[0], l.B[1], l.B[0] + w, l.B[1] + h}
	}
}

// Points chooses points of a w by h picture: all of a small one, else its
// corners, the surroundings of multiples of 64 and a few others.
func Points(w, h, n int) [][2]int {
	if w <= 0 || h <= 0 {
		return nil
	}

	var ps [][2]int

	if w*h <= n {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				ps = append(ps, [2]int{x, y})
			}
		}

		return ps
	}

	ps = append(ps, [2]int{0, 0}, [2]int{w - 1, 0}, [2]int{0, h - 1}, [2]int{w - 1, h - 1})
	r := NewRng(int64(w*7919+h), "points")

	for len(ps) < n {
		x, y := r.Intn(w), r.Intn(h)

		if r.Intn(2) == 0 {
			x = min(w-1, max(0, (x/64)*64+r.Intn(3)-1))
		}

		if r.Intn(2) == 0 {
			y = min(h-1, max(0, (y/64)*64+r.Intn(3)-1))
		}

		ps = append(ps, [2]int{x, y})

		if r.Intn(2) == 0 { // and as far into another tile
			across, n := (w+63)/64, ((w+63)/64)*((h+63)/64)

			if t := (y/64*across + x/64) ^ 1<<r.Intn(12); t < n {
				ps = append(ps, [2]int{min(w-1, t%across*64+x%64), min(h-1, t/across*64+y%64)})
			}
		}
	}

	return ps
}

// Grad is a large picture.
func (r Rng) Grad(f string, w, h int) Content {
	if f == "tiled" { // squares of one colour each, often the same as the one before
		c := Content{K: "px", F: f, W: w, H: h, PL: [][]int{}, L: []Layer{}, P: [][]int{{r.V8(), r.V8(), r.V8(), r.A8()}}}

		for i := r.Intn(3); i > 0; i-- {
			c.P = append(c.P, []int{r.V8(), r.V8(), r.V8(), r.A8()}, c.P[0])
		}

		return c
	}

	return Content{K: "px", F: f, W: w, H: h, L: []Layer{}, P: [][]int{{r.Intn(256), r.Intn(2) * (1 + r.Intn(200))}}}
}
