package main

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- meta: what images say of themselves

type metaObs struct {
	LB []int     `json:"lb"` // of a layer: where it lies, and its content
	C  *metaObs  `json:"c,omitempty"`
	B  []int     `json:"b"`
	M  string    `json:"m"`
	PL [][]int   `json:"pl"`
	L  []metaObs `json:"l"`
}

type metaEv struct {
	head
	How string     `json:"how"`
	L   []tr.Layer `json:"l"`
	Rs  [][]int    `json:"rs"`
	O   metaObs    `json:"o"`
}

func colours(p []color.Color) [][]int {
	cs := [][]int{}

	for _, c := range p {
		r, g, b, _ := c.RGBA()
		cs = append(cs, []int{int(r >> 8), int(g >> 8), int(b >> 8)})
	}

	return cs
}

func model(m color.Model) (string, [][]int) {
	none := [][]int{}

	switch m := m.(type) {
	case color.Palette:
		return "pal", colours(m)
	case lcolor.AlphaPalette:
		return "pala", colours(m)
	}

	switch m {
	case color.NRGBAModel:
		return "nrgba", none
	case color.NRGBA64Model:
		return "nrgba64", none
	case color.RGBAModel:
		return "rgba", none
	case color.GrayModel:
		return "gray", none
	case color.AlphaModel:
		return "alpha", none
	case lcolor.RGBModel:
		return "lrgb", none
	case lcolor.GrayAlphaModel:
		return "lgraya", none
	}

	return "?", none
}

func tells(im image.Image) metaObs {
	o := metaObs{LB: []int{}, B: tr.Ints(im.Bounds()), L: []metaObs{}}
	o.M, o.PL = model(im.ColorModel())

	switch t := im.(type) {
	case limage.Image:
		for _, l := range t {
			c := tells(l.Image)
			m, pl := model(l.ColorModel())
			o.L = append(o.L, metaObs{LB: tr.Ints(l.Bounds()), C: &c, B: []int{}, M: m, PL: pl, L: []metaObs{}})
		}
	case *limage.Image:
		u := tells(*t)
		o.L = u.L
	case limage.MaskedImage:
		o.L = append(o.L, tells(t.Image))
	case *limage.MaskedImage:
		o.L = append(o.L, tells(t.Image))
	case limage.Text:
		o.L = append(o.L, tells(t.Image))
	case *limage.Text:
		o.L = append(o.L, tells(t.Image))
	}

	return o
}

func (e *metaEv) Run() {
	e.O = metaObs{LB: []int{}, B: []int{}, PL: [][]int{}, L: []metaObs{}}

	if e.Rs == nil {
		e.Rs = [][]int{}
	}

	e.Panic = tr.Safe(func() {
		var im image.Image = tr.Image(e.L)

		if e.How == "pointer" {
			i := im.(limage.Image)
			im = &i
		}

		for _, r := range e.Rs {
			im = im.(interface {
				SubImage(image.Rectangle) image.Image
			}).SubImage(tr.Rect(r))
		}

		e.O = tells(im)
	})
}

// ---- names: what the modes are called

type namesEv struct {
	head
	Names []string `json:"names"`
}

func (e *namesEv) Run() {
	e.Names = []string{}
	e.Panic = tr.Safe(func() {
		for n := 0; n < len(tr.AllModes)+20; n++ {
			e.Names = append(e.Names, limage.Composite(n).String())
		}

		for _, n := range []uint32{1 << 8, 1 << 16, 1 << 31, 1<<32 - 1} {
			e.Names = append(e.Names, limage.Composite(n).String())
		}
	})
}

func (g *gen) c28() {
	g.one(&namesEv{head: head{Op: "names"}})

	o := tr.TreeOpt{Formats: append([]string{"pal"}, allFormats...), Modes: []string{"Normal"}, Depth: 4, Width: 4, Size: 6, Off: 6, Mask: true, Text: true, Neg: true, Groups: true}

	for i := 0; i < 2500*g.k; i++ {
		o := o
		o.Exact = i%4 == 0

		if i%12 == 5 {
			o = large(o)
		}

		e := &metaEv{head: head{Op: "meta"}, How: []string{"value", "pointer"}[i%2], L: g.Layers(o, g.Intn(4))}

		for n := range e.L {
			if g.Intn(4) == 0 {
				e.L[n].I = 1
			}

			switch g.Intn(12) {
			case 0: // nowhere
				e.L[n].B = []int{0, 0, 0, 0}
			case 1:
				e.L[n].B[2] = e.L[n].B[0]
			case 2:
				e.L[n].C = tr.Content{K: "grp", L: []tr.Layer{}}
			}
		}

		if i%3 > 0 && len(e.L) > 0 {
			for n := 1 + g.Intn(3); n > 0; n-- {
				l := tr.Pick(g.Rng, e.L)
				r := []int{l.B[0] - 2 + g.Intn(6), l.B[1] - 2 + g.Intn(6), l.B[2] + 3 - g.Intn(6), l.B[3] + 3 - g.Intn(6)}

				if r[2] > r[0] && r[3] > r[1] {
					e.Rs = append(e.Rs, r)
				}
			}
		}

		g.one(e)
	}
}
