package main

import (
	"encoding/json"

	"vimagination.zapto.org/limage/zverif/tr"
)

type gen struct {
	tr.Rng
	out *tr.Out
	s   int
	k   int // effort multiplier
}

func (g *gen) one(e event) {
	g.next()
	g.put(e)
}

func (g *gen) next() {
	g.s++
	g.out.Next()
	jrn.session()
}

func (g *gen) put(e event) {
	setS(e, g.s)
	jrn.run(e)
	g.out.Put(e)
}

func setS(e event, s int) {
	switch e := e.(type) {
	case *compEv:
		e.S = s
	case *dissEv:
		e.S = s
	case *colEv:
		e.S = s
	case *hsvEv:
		e.S = s
	case *convEv:
		e.S = s
	case *palEv:
		e.S = s
	case *atEv:
		e.S = s
	case *subEv:
		e.S = s
	case *strEv:
		e.S = s
	case *pixEv:
		e.S = s
	case *bigEv:
		e.S = s
	}
}

func n64(v ...int) tr.Colour { return tr.Colour{K: "nrgba64", V: v} }

func (g *gen) colour() tr.Colour {
	switch g.Intn(14) {
	case 0:
		return tr.Colour{K: "nrgba", V: []int{g.V8(), g.V8(), g.V8(), g.A8()}}
	case 1:
		a := g.A8()

		return tr.Colour{K: "rgba", V: []int{g.Intn(a + 1), g.Intn(a + 1), g.Intn(a + 1), a}}
	case 2:
		a := g.V16()

		return tr.Colour{K: "rgba64", V: []int{g.Intn(a + 1), g.Intn(a + 1), g.Intn(a + 1), a}}
	case 3:
		return tr.Colour{K: "gray", V: []int{g.V8()}}
	case 4:
		return tr.Colour{K: "gray16", V: []int{g.V16()}}
	case 5:
		return tr.Colour{K: "alpha", V: []int{g.A8()}}
	case 6:
		return tr.Colour{K: "alpha16", V: []int{g.V16()}}
	case 7:
		return tr.Colour{K: "lrgb", V: []int{g.V8(), g.V8(), g.V8()}}
	case 8:
		return tr.Colour{K: "lgraya", V: []int{g.V8(), g.A8()}}
	case 9:
		return tr.Colour{K: "hsva", V: []int{g.V16(), g.V16(), g.V16(), g.V16()}}
	case 10:
		return tr.Colour{K: "hsla", V: []int{g.V16(), g.V16(), g.V16(), g.V16()}}
	case 11:
		return n64(g.V16(), g.V16(), g.V16(), 65535)
	}

	return n64(g.V16(), g.V16(), g.V16(), g.V16())
}

var separable = []string{"Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract", "DarkenOnly",
	"LightenOnly", "Divide", "Dodge", "Burn", "HardLight", "SoftLight", "GrainExtract", "GrainMerge"}

var component = []string{"Hue", "Saturation", "Color", "Value", "Luminosity"}

func other(m string, lists ...[]string) bool {
	for _, l := range lists {
		for _, n := range l {
			if n == m {
				return false
			}
		}
	}

	return true
}

func (g *gen) comp(op, m string, b, t tr.Colour) {
	g.one(&compEv{head: head{Op: op}, M: m, B: b, T: t})
}

var grid = []int{0, 1, 257, 0x2aaa, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xaaaa, 0xc0c0, 0xfefe, 0xfffe, 0xffff}

var alphas = [][2]int{{65535, 65535}, {65535, 32768}, {32767, 65535}, {65535, 0}, {0, 65535}, {0, 0}, {257, 255}, {40000, 20000}, {20000, 40000}, {65534, 65535}, {65535, 1}, {1, 1}, {65535, 65534}}

func generate(prop string, seed int64, thorough bool, out *tr.Out) {
	g := &gen{Rng: tr.NewRng(seed, prop), out: out, k: 1}

	if thorough {
		g.k = 12
	}

	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.pixels(false)
		g.big(false)
	case "C08":
		g.pixels(true)
		g.big(true)
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C28":
		g.c28()
	}
}

func (g *gen) points(ls []tr.Layer, n int) []atPt {
	var ps []atPt

	for i := 0; i < n; i++ {
		l := tr.Pick(g.Rng, ls)
		ps = append(ps, atPt{X: l.B[0] - 1 + g.Intn(l.B[2]-l.B[0]+2), Y: l.B[1] - 1 + g.Intn(l.B[3]-l.B[1]+2)})
	}

	return ps
}

func (g *gen) at(ls []tr.Layer, n int) {
	g.one(&atEv{head: head{Op: "at"}, L: ls, Pts: g.points(ls, n)})
}

var allFormats = []string{"nrgba", "nrgba64", "rgba", "gray", "lrgb", "lgraya", "pala", "nrgba", "nrgba64"}

func noDissolve() []string {
	var ms []string

	for _, m := range tr.AllModes {
		if m != "Dissolve" {
			ms = append(ms, m)
		}
	}

	for i := 0; i < 20; i++ {
		ms = append(ms, "Normal")
	}

	return ms
}

func (g *gen) c01() {
	o := tr.TreeOpt{Formats: allFormats, Modes: noDissolve(), Depth: 3, Width: 4, Size: 5, Off: 3, Mask: true, Text: true, Dissolve: true, Neg: true, Groups: true}

	for i := 0; i < 1500*g.k; i++ {
		p := o

		switch i % 6 {
		case 1: // plain palettes
			p.Formats = []string{"pal", "pal", "nrgba", "pala"}
		case 2:
			p.Groups = false
			p.Width = 8
		case 3:
			p.Modes = []string{"Normal"}
		}

		ls := g.Layers(p, 1+g.Intn(p.Width))

		if i%6 == 1 {
			ls[0].C = g.Px("pal", ls[0].B[2]-ls[0].B[0], ls[0].B[3]-ls[0].B[1], false)

			for k := range ls { // alphas around one half
				if ls[k].C.F == "nrgba" && ls[k].M != "Dissolve" && g.Intn(2) == 0 {
					ls[k].T = 0
					ls[k].C.F = "nrgba64"

					for q := range ls[k].C.P {
						c := ls[k].C.P[q]
						ls[k].C.P[q] = []int{c[0] * 257, c[1] * 257, c[2] * 257, tr.Pick(g.Rng, []int{0, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xffff})}
					}
				}
			}
		}

		g.at(ls, 6)
	}

	// a dissolve layer of partial alpha on top
	for i := 0; i < 200*g.k; i++ {
		ls := g.Layers(o, 1+g.Intn(3))
		ls[0].M = "Dissolve"
		ls[0].T = g.V8()
		ls[0].C = g.Px("nrgba64", 5, 5, false)
		ls[0].I = 0
		g.at(ls, 6)
	}

	g.dlay(60 * g.k)

	// many layers, deep nesting, far away places
	for i := 0; i < 20*g.k; i++ {
		p := o
		p.Groups, p.Size, p.Off = false, 3, 1
		g.at(g.Layers(p, 30+g.Intn(50)), 2)

		ls := g.Layers(p, 2)

		for d := 0; d < 5+g.Intn(6); d++ {
			l := g.Layer(p)
			l.C = tr.Content{K: "grp", L: ls}

			if l.M == "Dissolve" {
				l.M = "Multiply"
			}

			ls = append([]tr.Layer{l}, g.Layers(p, g.Intn(2))...)
		}

		g.at(ls, 3)

		ls = g.Layers(o, 2)

		dx, dy := tr.Pick(g.Rng, []int{-100000, 65535, 1000000, -32768}), tr.Pick(g.Rng, []int{-100000, 65535, 1000000, 256})

		for k := range ls {
			ls[k].B[0] += dx
			ls[k].B[2] += dx
			ls[k].B[1] += dy
			ls[k].B[3] += dy
		}

		g.at(ls, 4)
	}

	for i := 0; i < 120*g.k; i++ {
		p := large(o)

		if i%4 == 1 {
			p.Formats = []string{"pal", "pal", "nrgba", "pala"}
		}

		g.at(g.Layers(p, 1+g.Intn(3)), 24)
	}

	g.one(&atEv{head: head{Op: "at"}, L: []tr.Layer{}, Pts: []atPt{{X: 0, Y: 0}}})
}

func (g *gen) c02() {
	for _, m := range separable {
		i := 0

		var xs, ys []int

		for _, x := range grid {
			for _, y := range grid {
				xs, ys = append(xs, x), append(ys, y)
			}
		}

		p := g.Perm(len(xs))

		for i+2 < len(p) {
			for n, a := range alphas {
				if n > 5 && (i/3+n)%4 != 0 {
					continue
				}

				g.comp("comp", m, n64(xs[p[i]], xs[p[i+1]], xs[p[i+2]], a[0]), n64(ys[p[i]], ys[p[i+1]], ys[p[i+2]], a[1]))
			}

			i += 3
		}

		g.comp("comp", m, n64(0, 0, 0, 65535), n64(0x7fff, 0x7fff, 0x8000, 65535))

		// at full opacity, channels alike and apart
		for i := 0; i < 150*g.k; i++ {
			x := g.V16()
			g.comp("comp", m, n64(x, g.V16(), g.V16(), 65535), n64(x, g.V16(), g.V16(), 65535))
			g.comp("comp", m, n64(g.V16(), g.V16(), g.V16(), g.V16()), n64(g.V16(), g.V16(), g.V16(), g.V16()))
		}

		for i := 0; i < 60*g.k; i++ {
			g.comp("comp", m, g.colour(), g.colour())
		}
	}
}

func (g *gen) c03() {
	for _, m := range tr.AllModes {
		if m == "Dissolve" {
			continue
		}

		for _, a := range alphas {
			g.comp("alph", m, n64(g.V16(), g.V16(), g.V16(), a[0]), n64(g.V16(), g.V16(), g.V16(), a[1]))
			g.comp("alph", m, n64(0, 65535, g.V16(), a[0]), n64(65535, 0, g.V16(), a[1]))
		}

		for i := 0; i < 80*g.k; i++ {
			g.comp("alph", m, n64(g.V16(), g.V16(), g.V16(), g.V16()), n64(g.V16(), g.V16(), g.V16(), g.V16()))
			g.comp("alph", m, g.colour(), g.colour())
			g.comp("alph", m, n64(g.V16(), g.V16(), g.V16(), 65535), g.colour())
			g.comp("alph", m, g.colour(), n64(g.V16(), g.V16(), g.V16(), 0))
		}
	}
}

// dlay adds a layer that dissolves above others, and below some that are out of the way.
func (g *gen) dlay(n int) {
	o := tr.TreeOpt{Formats: append([]string{"pal"}, allFormats...), Modes: noDissolve(), Depth: 2, Width: 3, Size: 3, Off: 1, Mask: true, Text: true, Groups: true}

	for i := 0; i < n; i++ {
		over, below := g.Layers(o, g.Intn(4)), g.Layers(o, g.Intn(4))

		for k := range over {
			if over[k].I = 1; g.Intn(2) == 0 {
				over[k].I, over[k].B = 0, tr.Shift(over[k].B, 9, 9)
			}
		}

		d := g.Layer(o)
		d.M, d.I, d.B = "Dissolve", 0, []int{0, 0, 4, 4}
		d.T = tr.Pick(g.Rng, []int{0, 0, g.V8(), 255})
		d.C = g.Px(tr.Pick(g.Rng, []string{"nrgba", "nrgba64", "lgraya", "pala", "pal", "gray"}), 4, 4, false)

		if i%3 == 0 { // the colours of a palette
			if len(over) == 0 {
				over = g.Layers(tr.TreeOpt{Formats: []string{"pal"}, Modes: []string{"Normal"}, Size: 3}, 1)
				over[0].I = 1
			}

			over[0].C = g.Px("pal", over[0].B[2]-over[0].B[0], over[0].B[3]-over[0].B[1], false)
		}

		g.one(&dlayEv{head: head{Op: "dlay"}, How: tr.Pick(g.Rng, []string{"image", "image", "sub"}), L: append(append(over, d), below...), K: len(over) + 1, X: g.Intn(3), Y: g.Intn(3), N: 1024})
	}
}

func (g *gen) c04() {
	g.dlay(80 * g.k)

	as := []int{0, 1, 255, 257, 2000, 8192, 0x4000, 0x7fff, 0x8000, 0xc000, 60000, 0xff00, 0xfffe, 0xffff}

	for _, how := range []string{"direct", "image"} {
		for _, ta := range as {
			for _, ba := range []int{0, 257, 0x8000, 65535} {
				e := &dissEv{head: head{Op: "diss"}, How: how, B: n64(1+g.Intn(30000), g.V16(), g.V16(), ba), T: n64(30002+g.Intn(30000), g.V16(), g.V16(), ta), N: 4096}

				if g.k > 1 {
					e.N = 8192
				}

				g.one(e)
			}
		}
	}

	for i := 0; i < 60*g.k; i++ {
		g.one(&dissEv{head: head{Op: "diss"}, How: tr.Pick(g.Rng, []string{"direct", "image"}), B: n64(1+g.Intn(30000), g.V16(), g.V16(), g.V16()), T: n64(30002+g.Intn(30000), g.V16(), g.V16(), g.V16()), N: 2048})
	}

	for i := 0; i < 300*g.k; i++ {
		g.comp("comp", "Dissolve", n64(g.V16(), g.V16(), g.V16(), g.V16()), n64(g.V16(), g.V16(), g.V16(), g.V16()))
	}
}

func (g *gen) hsv(c tr.Colour) { g.one(&hsvEv{head: head{Op: "hsv"}, C: c}) }
func (g *gen) col(c tr.Colour) { g.one(&colEv{head: head{Op: "col"}, C: c}) }

func (g *gen) c05() {
	es := []int{0, 1, 2, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff}

	for _, r := range es {
		for _, gr := range es {
			for _, b := range es {
				g.hsv(n64(r, gr, b, 65535))
			}
		}
	}

	for i := 0; i < 2500*g.k; i++ {
		g.hsv(n64(g.V16(), g.V16(), g.V16(), g.V16()))
	}

	for i := 0; i < 400*g.k; i++ {
		c := g.colour()

		if c.K != "rgba" && c.K != "rgba64" {
			g.hsv(c)
		}

		d := g.V16()
		g.hsv(n64(d, d, d, g.V16()))
		g.hsv(n64(d, d, g.V16(), g.V16()))
		g.hsv(n64(g.V16(), d, d, g.V16()))
		g.hsv(n64(d, g.V16(), d, g.V16()))
	}

	hs := []int{0, 1, 10922, 10923, 21844, 21845, 21846, 32767, 32768, 43690, 43691, 54612, 54613, 65533, 65534, 65535}

	for _, k := range []string{"hsva", "hsla"} {
		for _, h := range hs {
			for _, s := range []int{0, 1, 0x8000, 65535} {
				for _, v := range []int{0, 1, 0x4000, 0x7fff, 0x8000, 0xc000, 65534, 65535} {
					g.col(tr.Colour{K: k, V: []int{h, s, v, 65535}})
				}
			}
		}

		for i := 0; i < 1500*g.k; i++ {
			g.col(tr.Colour{K: k, V: []int{g.V16(), g.V16(), g.V16(), g.V16()}})
		}
	}

	for _, m := range component {
		for i := 0; i < 400*g.k; i++ {
			d := g.V16()
			g.comp("comp", m, n64(g.V16(), g.V16(), g.V16(), 65535), n64(g.V16(), g.V16(), g.V16(), 65535))
			g.comp("comp", m, n64(g.V16(), g.V16(), g.V16(), g.V16()), n64(g.V16(), g.V16(), g.V16(), g.V16()))

			if i%4 == 0 {
				g.comp("comp", m, n64(g.V16(), g.V16(), g.V16(), 65535), n64(d, d, d, g.V16()))
				g.comp("comp", m, n64(d, d, d, g.V16()), n64(g.V16(), g.V16(), g.V16(), g.V16()))
				g.comp("comp", m, n64(g.V16(), g.V16(), g.V16(), tr.Pick(g.Rng, alphas)[0]), n64(g.V16(), g.V16(), g.V16(), tr.Pick(g.Rng, alphas)[1]))
			}
		}
	}
}

func (g *gen) c06() {
	for y := 0; y < 256; y++ {
		for _, a := range []int{0, 1, y, 127, 128, 254, 255, g.Intn(256)} {
			g.col(tr.Colour{K: "lgraya", V: []int{y, a}})
			g.one(&convEv{head: head{Op: "conv"}, Model: "lgraya", C: tr.Colour{K: "lgraya", V: []int{y, a}}})
		}

		g.col(tr.Colour{K: "lrgb", V: []int{y, 255 - y, g.V8()}})
		g.one(&convEv{head: head{Op: "conv"}, Model: "lrgb", C: tr.Colour{K: "lrgb", V: []int{y, g.V8(), 255 - y}}})
	}

	for i := 0; i < 2500*g.k; i++ {
		c := g.colour()
		g.col(c)
		g.one(&convEv{head: head{Op: "conv"}, Model: "lrgb", C: c})
		g.one(&convEv{head: head{Op: "conv"}, Model: "lgraya", C: g.colour()})
	}

	for i := 0; i < 1500*g.k; i++ {
		n := 1 + g.Intn(16)

		if i%25 == 0 {
			n = tr.Pick(g.Rng, []int{100, 129, 200, 255, 256})
		}

		pl := g.NewPalette(n)
		c := g.colour()

		if g.Intn(8) == 0 { // exactly the last one
			p := pl[len(pl)-1]
			c = tr.Colour{K: "nrgba", V: []int{p[0], p[1], p[2], g.A8()}}
		} else if g.Intn(3) == 0 { // exactly an entry, whatever its alpha
			p := tr.Pick(g.Rng, pl)
			c = tr.Colour{K: "nrgba", V: []int{p[0], p[1], p[2], g.A8()}}
		}

		g.one(&palEv{head: head{Op: "pal"}, PL: pl, C: c})
	}
}

func (g *gen) pixels(views bool) {
	opq := 0

	if views {
		opq = 1
	}

	kinds := []string{"rgb", "graya", "pala"}

	for i := 0; i < 240*g.k; i++ {
		kind := kinds[i%3]
		b := []int{g.Intn(5) - 3, g.Intn(5) - 3, 0, 0}
		b[2], b[3] = b[0]+1+g.Intn(4), b[1]+1+g.Intn(4)

		switch i % 20 {
		case 7:
			b[0], b[2] = b[0]+100000, b[2]+100000
		case 13:
			b[2] = b[0] // empty
		}

		pl := [][]int{}

		if kind == "pala" {
			pl = g.NewPalette(1 + g.Intn(20))
		}

		g.next()

		ev := func(e *pixEv) {
			e.Op, e.Kind, e.PL, e.Opq, e.B = "pix", kind, pl, opq, b
			g.put(e)
		}

		ev(&pixEv{A: "new"})

		bounds := [][]int{b}

		for k := 0; k < 14; k++ {
			v := 1 + g.Intn(len(bounds))
			x, y := b[0]-1+g.Intn(b[2]-b[0]+2), b[1]-1+g.Intn(b[3]-b[1]+2)

			switch q := g.Intn(8); {
			case views && (q == 0 || k < 2) && len(bounds) < 4:
				r := []int{b[0] - 1 + g.Intn(3), b[1] - 1 + g.Intn(3), b[2] + 1 - g.Intn(3), b[3] + 1 - g.Intn(3)}

				if g.Intn(8) == 0 {
					r = []int{b[2] + 1, b[3] + 1, b[2] + 3, b[3] + 3}
				}

				ev(&pixEv{A: "sub", V: v, R: r})

				bounds = append(bounds, r)
			case q < 4:
				var val []int

				switch kind {
				case "rgb":
					val = []int{g.V8(), g.V8(), g.V8()}
				case "graya":
					val = []int{g.V8(), g.A8()}
				case "pala":
					val = []int{g.Intn(len(pl)), g.A8()}
				}

				ev(&pixEv{A: "raw", V: v, X: x, Y: y, Val: val})
			case q < 6:
				c := g.colour()
				ev(&pixEv{A: "col", V: v, X: x, Y: y, C: &c})
			default:
				ev(&pixEv{A: "back", V: v, X: x, Y: y})
			}
		}

		if views { // fill a view opaque, pixel by pixel
			v := 1 + g.Intn(len(bounds))

			for y := b[1]; y < b[3]; y++ {
				for x := b[0]; x < b[2]; x++ {
					val := []int{g.V8(), 255}

					switch kind {
					case "rgb":
						val = []int{1, 2, g.V8()}
					case "pala":
						val[0] = g.Intn(len(pl))
					}

					ev(&pixEv{A: "raw", V: v, X: x, Y: y, Val: val})
				}
			}
		}
	}
}

func (g *gen) c09() {
	o := tr.TreeOpt{Formats: append([]string{"pal"}, allFormats...), Modes: noDissolve(), Depth: 3, Width: 3, Size: 7, Off: 4, Mask: true, Text: true, Dissolve: true, Neg: true, Groups: true}

	for i := 0; i < 1700*g.k; i++ {
		o := o

		if i >= 1500*g.k {
			o = large(o)
		}

		ls := g.Layers(o, 1+g.Intn(3))

		if i%5 == 0 {
			ls = g.Layers(o, 1)
			in := ls[0]
			in.C = tr.Content{K: "grp", L: g.Layers(o, 1+g.Intn(3))}
			in.M = "Normal"
			ls[0] = in
		}

		e := &subEv{head: head{Op: "sub"}, How: []string{"image", "layer", "layerimg"}[i%3], L: ls}

		for n := 1 + g.Intn(3); n > 0; n-- {
			l := tr.Pick(g.Rng, ls)
			r := []int{l.B[0] - 2 + g.Intn(5), l.B[1] - 2 + g.Intn(5), l.B[2] + 2 - g.Intn(5), l.B[3] + 2 - g.Intn(5)}

			if o.Long > 0 {
				r = []int{l.B[0] + g.Intn(l.B[2]-l.B[0]), l.B[1] + g.Intn(l.B[3]-l.B[1]), l.B[2] + 40 - g.Intn(60), l.B[3] + 40 - g.Intn(60)}
			}

			if r[2] <= r[0] {
				r[2] = r[0] + 1
			}

			if r[3] <= r[1] {
				r[3] = r[1] + 1
			}

			e.Rs = append(e.Rs, r)
		}

		g.one(e)
	}
}

func (g *gen) c10() {
	// every mask value and opacity over a spread of alphas
	for o := 0; o < 256; o++ {
		for k := 0; k < 3; k++ {
			c := g.Px("nrgba64", 3, 1, false)
			c.P[0][3] = 65535
			m := tr.Content{K: "msk", L: []tr.Layer{}, C: &c, MB: []int{0, 0, 3, 1}, MP: []int{o, g.V8(), 255}}
			l := tr.Layer{B: []int{0, 0, 3, 1}, M: "Normal", T: 0, C: m}

			switch k {
			case 1:
				l.C, l.T = c, o
			case 2:
				l.T = g.V8()
			}

			g.one(&atEv{head: head{Op: "at"}, L: []tr.Layer{l}, Pts: []atPt{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 2, Y: 0}}})
		}
	}

	for i := 0; i < 1290*g.k; i++ {
		w, h := 1+g.Intn(4), 1+g.Intn(4)

		if i >= 1200*g.k {
			if w, h = 1+g.Intn(1500), 1+g.Intn(90); i%2 == 0 {
				w, h = h, w
			}
		}
		in := g.Px(tr.Pick(g.Rng, append([]string{"pal"}, allFormats...)), w, h, false)

		if g.Intn(6) == 0 {
			in = tr.Content{K: "grp", L: g.Layers(tr.TreeOpt{Formats: allFormats, Modes: noDissolve(), Size: 4, Off: 2, Width: 3, Mask: true}, 2)}
		}

		c := g.Masked(in, w, h, false)

		if g.Intn(4) == 0 {
			q := c
			c = g.Masked(q, w, h, false)
		}

		x, y := g.Intn(7)-3, g.Intn(7)-3
		l := tr.Layer{B: []int{x, y, x + w, y + h}, M: "Normal", C: c}

		if g.Intn(2) == 0 {
			l.T = g.V8()
		}

		g.at([]tr.Layer{l}, 6+w/20+h/20)
	}

	for i := 0; i < 150*g.k; i++ {
		e := &strEv{head: head{Op: "str"}, Parts: []string{}}

		for n := g.Intn(6); n > 0; n-- {
			e.Parts = append(e.Parts, tr.Pick(g.Rng, []string{"", "a", "Hello ", "\n", "<b>", "ünï", "\"", "x y"}))
		}

		g.one(e)
	}
}

// behaviours turns behaviours of the specification into events: values of the
// small scale (0, 1) become those of the real one (0, 255).
func behaviours(kind, file string, out *tr.Out) {
	g := &gen{Rng: tr.NewRng(1, kind), out: out, s: 1000000}

	tr.Lines(file, func(b []byte) {
		switch kind {
		case "compose", "subimage", "meta":
			var ls []tr.Layer

			tr.Check(json.Unmarshal(b, &ls))

			scaleLayers(ls)

			if kind == "subimage" {
				for _, how := range []string{"image", "layer"} {
					g.one(&subEv{head: head{Op: "sub"}, How: how, L: ls, Rs: [][]int{{0, 0, 2, 1}, {-1, 0, 2, 1}}})
					g.one(&subEv{head: head{Op: "sub"}, How: how, L: ls, Rs: [][]int{{1, -1, 3, 2}}})
				}

				return
			}

			if kind == "meta" {
				for _, rs := range [][][]int{{}, {{0, 0, 1, 1}}, {{1, -1, 3, 2}, {-1, 0, 2, 1}}} {
					g.one(&metaEv{head: head{Op: "meta"}, L: ls, Rs: rs})
				}

				return
			}

			e := &atEv{head: head{Op: "at"}, L: ls}

			for x := -2; x < 4; x++ {
				e.Pts = append(e.Pts, atPt{X: x, Y: 0})
			}

			g.one(e)
		case "pix", "view":
			var h struct {
				Kind string `json:"kind"`
				B    []int  `json:"b"`
				H    []struct {
					A    string
					V    int
					X, Y int
					C    []int
				} `json:"h"`
			}

			tr.Check(json.Unmarshal(b, &h))

			for _, k := range []string{"graya", "rgb", "pala"} {
				g.next()

				pl := [][]int{}

				if k == "pala" {
					pl = [][]int{{1, 2, 3}, {200, 100, 50}}
				}

				ev := func(e *pixEv) {
					e.Op, e.Kind, e.PL, e.B = "pix", k, pl, h.B
					e.Opq = b2i(kind == "view")
					g.put(e)
				}

				ev(&pixEv{A: "new"})

				for _, a := range h.H {
					if a.A == "sub" {
						ev(&pixEv{A: "sub", V: a.V, R: a.C})

						continue
					}

					val := []int{a.C[0], a.C[1] * 255}

					switch k {
					case "rgb":
						val = []int{a.C[0], a.C[1], 7}
					case "graya":
						val[0] *= 255
					}

					ev(&pixEv{A: "raw", V: a.V, X: a.X, Y: a.Y, Val: val})
				}
			}
		}
	})
}

func scaleLayers(ls []tr.Layer) {
	for n := range ls {
		ls[n].T *= 255
		scaleContent(&ls[n].C)
	}
}

func scaleContent(c *tr.Content) {
	scaleLayers(c.L)

	if c.L == nil {
		c.L = []tr.Layer{}
	}

	if c.C != nil {
		scaleContent(c.C)
	}

	for n := range c.MP {
		c.MP[n] *= 255
	}

	for n := range c.PL {
		for k := range c.PL[n] {
			c.PL[n][k] *= 255
		}
	}

	for n := range c.P {
		for k := range c.P[n] {
			switch {
			case c.F == "pal", c.F == "pala" && k == 0:
			default:
				c.P[n][k] *= 255
			}
		}
	}
}
