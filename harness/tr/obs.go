package tr

import (
	"image"

	"vimagination.zapto.org/limage"
)

// OLayer is a layer as it was found in the code's result.
type OLayer struct {
	N   string   `json:"n"`
	NB  Bytes    `json:"nb"`
	B   []int    `json:"b"`
	M   string   `json:"m"`
	I   int      `json:"i"`
	T   int      `json:"t"`
	K   string   `json:"k"`
	L   []OLayer `json:"l"`
	Pts [][]int  `json:"pts"`
	MP  [][]int  `json:"mp"`
	S   []Datum  `json:"s"`
}

// B2I is 1 for true.
func B2I(b bool) int {
	if b {
		return 1
	}

	return 0
}

// Observe projects a layered image; n bounds the points looked at per layer.
func Observe(im limage.Image, n int) []OLayer {
	ls := make([]OLayer, 0, len(im))

	for _, l := range im {
		o := OLayer{N: l.Name, NB: Bytes(l.Name), B: Ints(l.LayerBounds), M: ModeName(l.Mode), I: B2I(l.Invisible), T: int(l.Transparency), L: []OLayer{}, Pts: [][]int{}, MP: [][]int{}, S: []Datum{}}
		o.content(l.Image, l.LayerBounds.Dx(), l.LayerBounds.Dy(), n)
		ls = append(ls, o)
	}

	return ls
}

func (o *OLayer) content(im image.Image, w, h, n int) {
	switch im := im.(type) {
	case nil:
		o.K = "nil"

		return
	case limage.Image:
		o.K = "grp"
		o.L = Observe(im, n)

		return
	case *limage.Image:
		o.content(*im, w, h, n)

		return
	case *limage.MaskedImage:
		o.content(*im, w, h, n)

		return
	case *limage.Text:
		o.content(*im, w, h, n)

		return
	case limage.MaskedImage:
		o.content(im.Image, w, h, n)

		if o.K == "txt" {
			o.K = "tmsk"
		} else if o.K == "grp" {
			o.K = "gmsk"
		} else {
			o.K = "msk"
		}

		for _, p := range Points(w, h, n) {
			v := 0

			if image.Pt(p[0], p[1]).In(im.Mask.Rect) {
				v = int(im.Mask.GrayAt(p[0], p[1]).Y)
			}

			o.MP = append(o.MP, []int{p[0], p[1], v})
		}

		return
	case limage.Text:
		o.content(im.Image, w, h, n)

		if o.K == "msk" {
			o.K = "tmsk"
		} else {
			o.K = "txt"
		}

		for _, d := range im.TextData {
			o.S = append(o.S, Undatum(d))
		}

		return
	}

	o.K = "px"
	o.Pts = Look(im, 0, 0, w, h, n)
}

// Look samples the w by h picture at (x0, y0) of im.
func Look(im image.Image, x0, y0, w, h, n int) [][]int {
	ps := [][]int{}

	for _, p := range Points(w, h, n) {
		ps = append(ps, append([]int{p[0], p[1]}, N64(im.At(x0+p[0], y0+p[1]))...))
	}

	return ps
}

// Undatum projects a piece of styled text.
func Undatum(d limage.TextDatum) Datum {
	o := Datum{D: d.Data, F: d.Font, DB: Bytes(d.Data), FB: Bytes(d.Font), Z: int(d.Size), LS: int(d.LetterSpacing), R: int(d.Rise), B: B2I(d.Bold), I: B2I(d.Italic), U: B2I(d.Underline), ST: B2I(d.Strikethrough), FG: []int{-1, -1, -1, -1}, BG: []int{-1, -1, -1, -1}}

	if d.ForeColor != nil {
		o.FG = N64(d.ForeColor)
	}

	if d.BackColor != nil {
		o.BG = N64(d.BackColor)
	}

	return o
}
