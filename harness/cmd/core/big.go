package main

import (
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- big: a pixel image too large to write down, filled rectangle by rectangle

type bigOp struct {
	A    string     `json:"a"` // fill, setat (typed, raw), colat (any colour), sub
	V    int        `json:"v"`
	R    []int      `json:"r"`
	Val  []int      `json:"val"`
	C    *tr.Colour `json:"c,omitempty"`
	N    []int      `json:"n"`
	Pre  []int      `json:"pre"`
	Back int        `json:"back"` // every point is then stored back as it was read
}

type bigPt struct {
	X     int   `json:"x"`
	Y     int   `json:"y"`
	Raw   []int `json:"raw"`
	Shown []int `json:"shown"`
}

type bigView struct {
	B    []int   `json:"b"`
	Opq  int     `json:"opq"`
	Pts  []bigPt `json:"pts"`
	Hist [][]int `json:"hist"` // every value found, and how often
}

type bigEv struct {
	head
	Kind  string    `json:"kind"`
	B     []int     `json:"b"`
	PL    [][]int   `json:"pl"`
	Opq   int       `json:"opq"`
	Ops   []bigOp   `json:"ops"`
	Views []bigView `json:"views"`
	At    [][]int   `json:"at"` // where to look
}

func rawSet(im pixImg, x, y int, v []int) {
	switch i := im.(type) {
	case *limage.RGB:
		i.SetRGB(x, y, lcolor.RGB{R: uint8(v[0]), G: uint8(v[1]), B: uint8(v[2])})
	case *limage.GrayAlpha:
		i.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: uint8(v[0]), A: uint8(v[1])})
	case *limage.PalettedAlpha:
		i.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: uint8(v[0]), A: uint8(v[1])})
	}
}

func newPix(kind string, b image.Rectangle, pl [][]int) pixImg {
	switch kind {
	case "rgb":
		return limage.NewRGB(b)
	case "graya":
		return limage.NewGrayAlpha(b)
	}

	return limage.NewPalettedAlpha(b, lcolor.AlphaPalette(tr.Palette(pl)))
}

func (e *bigEv) Run() {
	e.Views = []bigView{}
	e.Panic = tr.Safe(func() {
		views := []pixImg{newPix(e.Kind, tr.Rect(e.B), e.PL)}

		for n := range e.Ops {
			o := &e.Ops[n]
			v := views[o.V-1]
			r := tr.Rect(o.R)

			if o.A == "sub" {
				views = append(views, v.SubImage(r).(pixImg))

				continue
			}

			for y := r.Min.Y; y < r.Max.Y; y++ {
				for x := r.Min.X; x < r.Max.X; x++ {
					if o.A == "fill" {
						rawSet(v, x, y, o.Val)
					} else {
						v.Set(x, y, o.C.Go())
					}

					if c := v.At(x, y); o.Back == 1 && c != nil && image.Pt(x, y).In(v.Bounds()) {
						v.Set(x, y, c)
					}
				}
			}

			if o.A == "col" { // what was made of it is judged by itself
				o.N, o.Pre, o.Val = tr.N64(o.C.Go()), tr.Pre(o.C.Go()), []int{}

				if q := r.Intersect(v.Bounds()); !q.Empty() {
					o.Val = rawGet(v, q.Max.X-1, q.Max.Y-1)
				}
			}
		}

		for _, v := range views {
			b := v.Bounds()
			w := bigView{B: tr.Ints(b), Opq: b2i(v.Opaque()), Hist: [][]int{}}

			for _, p := range e.At {
				w.Pts = append(w.Pts, bigPt{p[0], p[1], rawGet(v, p[0], p[1]), tr.N64(v.At(p[0], p[1]))})
			}

			at := make(map[[3]int]int)

			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					var k [3]int

					copy(k[:], rawGet(v, x, y))

					i, ok := at[k]
					if !ok {
						i = len(w.Hist)
						at[k] = i
						w.Hist = append(w.Hist, append(append([]int{}, rawGet(v, x, y)...), 0))
					}

					w.Hist[i][len(w.Hist[i])-1]++
				}
			}

			e.Views = append(e.Views, w)
		}
	})
}

func (g *gen) big(views bool) {
	opq := b2i(views)
	sizes := [][2]int{{300, 200}, {1100, 3}, {2, 1500}, {70000, 1}, {1, 33000}, {257, 256}, {64, 65}, {700, 130}, {129, 40}, {35, 35}, {40, 700}, {5, 300}}

	for i := 0; i < 84*g.k; i++ {
		s := sizes[i%len(sizes)]
		kind := []string{"rgb", "graya", "pala"}[g.Intn(3)]
		x, y := tr.Pick(g.Rng, []int{0, -3, 100, -300, 5000, -70000, 1 << 20}), tr.Pick(g.Rng, []int{0, 0, -5, 99, 256, -1000, 65536})
		e := &bigEv{head: head{Op: "big"}, Kind: kind, B: []int{x, y, x + s[0], y + s[1]}, PL: [][]int{}, Opq: opq}

		if kind == "pala" {
			e.PL = g.NewPalette(tr.Pick(g.Rng, []int{1, 2, 9, 40, 130, 256}))
		}

		bounds := [][]int{e.B}
		rect := func(b []int, grow int) []int {
			w, h := max(1, b[2]-b[0]), max(1, b[3]-b[1])
			x0, y0 := b[0]-grow+g.Intn(w+grow), b[1]-grow+g.Intn(h+grow)
			x1, y1 := x0+1+g.Intn(min(w, 600)), y0+1+g.Intn(min(h, 400))

			switch g.Intn(5) {
			case 0:
				x0, x1 = b[2]-1-g.Intn(2), b[2]+grow
			case 1:
				y0, y1 = b[3]-1-g.Intn(2), b[3]+grow
			}

			return []int{x0, y0, max(x0+1, x1), max(y0+1, y1)}
		}

		val := func() []int {
			switch kind {
			case "rgb":
				return []int{g.V8(), g.V8(), g.V8()}
			case "graya":
				return []int{g.V8(), g.A8()}
			}

			return []int{tr.Pick(g.Rng, []int{0, len(e.PL) - 1, g.Intn(len(e.PL))}), g.A8()}
		}

		for n := 0; n < 9; n++ {
			v := 1 + g.Intn(len(bounds))

			switch q := g.Intn(6); {
			case views && len(bounds) < 4 && (q < 2 || n < 2):
				b := bounds[v-1]
				w, h := b[2]-b[0], b[3]-b[1]
				r := []int{b[0] + g.Intn(w/3+1) - 1, b[1] + g.Intn(h/3+1) - 1, b[2] - g.Intn(w/3+1) + 1, b[3] - g.Intn(h/3+1) + 1}

				for k := range r { // to an end
					if g.Intn(3) == 0 {
						r[k] = b[k]
					}
				}

				switch g.Intn(5) { // a column, a row, often the last
				case 0:
					r[0] = b[2] - 1 - g.Intn(w)*g.Intn(2)
					r[2] = r[0] + 1 + g.Intn(2)
				case 1:
					r[1] = b[3] - 1 - g.Intn(h)*g.Intn(2)
					r[3] = r[1] + 1 + g.Intn(2)
				}

				if r[2] <= r[0] {
					r[2] = r[0] + 1
				}

				if r[3] <= r[1] {
					r[3] = r[1] + 1
				}

				e.Ops = append(e.Ops, bigOp{A: "sub", V: v, R: r})
				bounds = append(bounds, tr.Ints(tr.Rect(r).Intersect(tr.Rect(b))))
			case q == 5:
				c := g.colour()
				e.Ops = append(e.Ops, bigOp{A: "col", V: v, R: rect(bounds[v-1], 2), C: &c, Back: g.Intn(2)})
			default:
				e.Ops = append(e.Ops, bigOp{A: "fill", V: v, R: rect(bounds[v-1], 2), Val: val(), Back: g.Intn(2)})
			}
		}

		if views && g.Intn(2) == 0 { // a whole view opaque, but perhaps for one point
			v := 1 + g.Intn(len(bounds))
			b := bounds[v-1]
			o := val()
			o[1] = 255
			e.Ops = append(e.Ops, bigOp{A: "fill", V: v, R: b, Val: o})

			if g.Intn(2) == 0 {
				o = val()
				e.Ops = append(e.Ops, bigOp{A: "fill", V: v, R: []int{b[2] - 1, b[3] - 1, b[2], b[3]}, Val: o})
			}
		}

		for n := range e.Ops {
			o := &e.Ops[n]

			if o.Val == nil {
				o.Val = []int{}
			}

			o.N, o.Pre = []int{0, 0, 0, 0}, []int{0, 0, 0, 0}

			for k := 0; k < 2; k++ {
				e.At = append(e.At, []int{o.R[2*g.Intn(2)] - g.Intn(2), o.R[1+2*g.Intn(2)] - g.Intn(2)})
			}
		}

		for _, b := range bounds {
			e.At = append(e.At, []int{b[0], b[1]}, []int{b[2] - 1, b[3] - 1}, []int{b[2], b[3] - 1}, []int{b[0] - 1, b[3] - 1}, []int{b[0] + g.Intn(b[2]-b[0]+1), b[1] + g.Intn(b[3]-b[1]+1)})
		}

		g.one(e)
	}
}

// large are trees of large layers, far apart.
func large(o tr.TreeOpt) tr.TreeOpt {
	o.Size, o.Long, o.Off, o.Width, o.Depth = 70, 1500, 700, 3, 2

	return o
}
