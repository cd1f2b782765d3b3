package tr

import "strings"

// Formats are the pixel formats of the trees.
var Formats = []string{"nrgba", "nrgba", "nrgba64", "rgba", "gray", "lrgb", "lgraya", "pal", "pala"}

func PlainModes() []string {
	var ms []string

	for _, m := range AllModes {
		if m != "Dissolve" {
			ms = append(ms, m)
		}
	}

	return append(ms, "Normal", "Normal", "Normal", "Normal")
}

var Names = []string{"", "a", "Layer 1", "ünï ☃", "<&>\"'", " lead", "a\tb\nc", "]]>", strings.Repeat("long", 80), "-->", "&amp;"}

func Dot(n int) Layer {
	c := Content{K: "px", F: "gray", W: 1, H: 1, L: []Layer{}, P: [][]int{{n % 256}}}

	return Layer{N: "l", B: []int{n % 7, n / 7, n%7 + 1, n/7 + 1}, M: "Normal", C: c}
}

// tree makes layers whose content fills their bounds.
func (g *Gen) Tree(o TreeOpt) []Layer {
	ls := g.Layers(o, 1+g.Intn(o.Width))

	g.name(ls)
	Fit(ls)

	return ls
}

func (g *Gen) name(ls []Layer) {
	for n := range ls {
		ls[n].N = Pick(g.Rng, Names)

		switch ls[n].C.K {
		case "grp":
			g.name(ls[n].C.L)

			fallthrough
		case "msk", "txt":
			ls[n].C.PT = g.Intn(4) / 3
		}
	}
}

func Opts() TreeOpt {
	return TreeOpt{Formats: Formats, Modes: PlainModes(), Depth: 3, Width: 4, Size: 5, Off: 6, Mask: true, Text: true, Neg: true, Exact: true, Groups: true}
}

func Many(n int) []Layer {
	ls := make([]Layer, n)

	for i := range ls {
		ls[i] = Dot(i)
	}

	return ls
}

func Wrap(ls []Layer, x, y int) []Layer {
	w := []Layer{{N: "g", B: []int{x, y, x, y}, M: "Normal", C: Content{K: "grp", L: ls}}}

	Fit(w)

	return w
}

var Kinds = []string{"image", "image", "image", "pimage", "layer", "player", "plain", "shifted"}

// trees calls f with the layer trees C11, C12 and C15 start from.
func (g *Gen) Trees(n int, f func(kind string, ls []Layer, off []int)) {
	zero := []int{0, 0}

	for _, m := range AllModes { // every mode, also on groups
		l := Dot(3)
		l.M = m
		k := Wrap([]Layer{Dot(9)}, 0, 0)
		k[0].M = m

		f("image", []Layer{l, k[0], Dot(0)}, zero)
	}

	for t := 0; t < 256; t += 1 + g.Intn(3) { // every transparency
		l := Dot(3)
		l.T = t

		f("image", []Layer{l, Dot(0)}, zero)
	}

	for _, n := range Names {
		l := Dot(5)
		l.N = n
		k := Wrap([]Layer{Dot(9)}, 2, 1)
		k[0].N = n

		f("image", []Layer{l, k[0]}, zero)
	}

	for _, n := range []int{31, 32, 33, 40, 70, 130, 260} {
		f("image", Many(n), zero)
		f("image", append(Wrap(Many(n), 1, 2), Dot(1)), zero)
	}

	for n := 0; n < 4; n++ { // groups of nothing
		none := Layer{N: "none", B: []int{n, 1, n, 1}, M: "Normal", T: n, C: Content{K: "grp", L: []Layer{}, PT: n}}

		f("image", []Layer{Dot(1), none}, zero)
		f("image", append(Wrap([]Layer{none, Dot(1), none}, 1, 0), none), zero)
	}

	deep := Many(2)

	for i := 0; i < 12; i++ {
		deep = append([]Layer{Dot(i)}, Wrap(deep, i%3, i%2)...)
	}

	f("image", deep, zero)

	for _, s := range [][2]int{{300, 200}, {1, 300}, {257, 256}, {128, 65}} {
		c := g.Grad("grad", s[0], s[1])

		f("image", []Layer{{N: "big", B: []int{3, -2, 3 + s[0], s[1] - 2}, M: "Normal", C: c}, Dot(4)}, zero)
	}

	for k, d := range []int{33000, 66000, 70000, 33000} { // far away, one way or the other
		ls := Many(2)

		if k == 3 {
			ls = Wrap(Many(2), 3, 1)
		}

		ls[0].B = Shift(ls[0].B, d, 1)
		ls = append(Many(2), ls...)

		f("image", append(ls, Dot(1)), zero)
		f("image", Transpose(append(ls, Dot(1))), zero)
	}

	for _, n := range []int{250, 300} { // groups and others after many
		ls := append(Wrap(Many(3), 1, 2), Wrap(append(Many(2), Wrap(Many(2), 3, 0)...), 2, 1)...)
		ls = append(append(Many(n), ls...), Many(3)...)

		f("image", ls, zero)
		f("image", append(Many(1), Wrap(ls, 0, 1)...), zero)
	}

	for i := 0; i < 8+n/100; i++ { // long ones, and layers and groups far apart
		o := Opts()
		ls := g.Tree(o)

		for _, l := range ls {
			if i%2 == 0 {
				g.Far(&l, i/2%2, Pick(g.Rng, []int{130, 300, 3000, 40000}))
			}
		}

		for k := 0; k < 1+g.Intn(2); k++ {
			w, h := Pick(g.Rng, []int{200, 1100, 2500, 33000}), 1+g.Intn(3)
			if i/2%2 == 1 {
				w, h = h, w
			}

			c := g.Px(Pick(g.Rng, Formats), w, h, false)

			if g.Intn(3) == 0 {
				c = g.Masked(c, w, h, true)
			}

			ls = append(ls, Layer{N: "long", B: []int{g.Intn(5), g.Intn(5), 0, 0}, M: "Normal", C: c})
		}

		if g.Intn(2) == 0 {
			ls = append(Wrap(ls, g.Intn(400)-200, g.Intn(3)), Dot(1))
		}

		Fit(ls)
		f("image", ls, zero)
	}

	for i := 0; i < n; i++ {
		o := Opts()

		switch i % 5 {
		case 1:
			o.Groups = false
			o.Width = 7
		case 2:
			o.Modes = []string{"Normal"}
			o.Width = 2
		case 3:
			o.Neg = false
			o.Depth = 5
			o.Width = 3
		}

		ls := g.Tree(o)
		kind := Pick(g.Rng, Kinds)
		off := zero

		switch kind {
		case "layer", "player":
			ls = ls[:1]
			ls[0].I = 0
			ls[0].M = "Normal"
		case "plain":
			ls = ls[:1]

			for ls[0].C.K == "grp" {
				ls = g.Tree(o)[:1]
			}
		case "shifted":
			w, h := 1+g.Intn(6), 1+g.Intn(6)
			ls = []Layer{{N: "s", B: []int{0, 0, w, h}, M: "Normal", C: g.Px(Pick(g.Rng, Formats), w, h, false)}}
			off = []int{g.Intn(9) - 4, g.Intn(9) - 4}
		}

		f(kind, ls, off)
	}
}

// Far moves a layer, and those within, by at most n in one direction.
func (g *Gen) Far(l *Layer, k, n int) {
	d := g.Intn(n)
	l.B[k], l.B[k+2] = l.B[k]+d, l.B[k+2]+d

	if l.C.K == "grp" {
		for i := range l.C.L {
			g.Far(&l.C.L[i], k, n)
		}
	}
}

func Shift(b []int, x, y int) []int { return []int{b[0] + x, b[1] + y, b[2] + x, b[3] + y} }

// Transpose exchanges the axes of where layers are, not of their pixels.
func Transpose(ls []Layer) []Layer {
	ls = Clone(ls)

	for n := range ls {
		l := &ls[n]
		w, h := l.B[2]-l.B[0], l.B[3]-l.B[1]
		l.B = []int{l.B[1], l.B[0], l.B[1] + w, l.B[0] + h}

		if l.C.K == "grp" {
			l.C.L = Transpose(l.C.L)
		}
	}

	Fit(ls)

	return ls
}
