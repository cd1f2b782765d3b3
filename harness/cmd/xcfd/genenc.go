package main

import (
	"fmt"
	"strings"

	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- texts

var (
	words = []string{"a", "Hello", "x y", "\"", "\\", "<b>", "&amp;", "&", "ünï ☃", "𝄞", "\n", ")", "(", "'", "]]>", "<markup>", "</span>", " ", "  ", "\\n", "\\\"", "%d", "#", "0", "1.5", "é\"\n\\<>"}
	fonts = []string{"Sans", "Sans", "", "Serif Bold", "A \"quoted\" font", "back\\slash", "<&>", "Größe", "o'clock", "sans", "Monospace,"}
	edges = []int{0, 1, 2, 17, 18, 19, 100, 999, 1000, 1023, 1024, 1025, 2000000, 2097151, 2097152, 4194303, 4194304, 5000000, 99999999, 899999999}
)

func (g *fgen) words() string {
	var b strings.Builder

	for i := 1 + g.Intn(5); i > 0; i-- {
		b.WriteString(tr.Pick(g.Rng, words))

		if g.Intn(12) == 0 {
			b.WriteString(strings.Repeat("long ", g.Intn(90)))
		}
	}

	return b.String()
}

func (g *fgen) size() int {
	if g.Intn(3) == 0 {
		return tr.Pick(g.Rng, edges)
	}

	return g.Intn(60)
}

func (g *fgen) datum() tr.Datum {
	d := tr.Datum{D: g.words(), F: tr.Pick(g.Rng, fonts), Z: g.size(), FG: []int{0, 0, 0}, BG: []int{0, 0, 0}}

	if g.Intn(2) == 0 {
		d.FG = []int{g.V8(), g.V8(), g.V8()}
	}

	if g.Intn(3) == 0 {
		d.Z = 18
	}

	if g.Intn(3) == 0 {
		d.B, d.I, d.U, d.ST = g.Intn(2), g.Intn(2), g.Intn(2), g.Intn(2)
	}

	if g.Intn(4) == 0 {
		d.LS = g.size()
	}

	if g.Intn(4) == 0 {
		d.R = g.size()
	}

	if g.Intn(5) == 0 {
		d.BG = []int{g.V8(), g.V8(), g.V8(), 255}
	}

	if g.Intn(25) == 0 {
		d.D = ""
	}

	return d
}

func (g *fgen) data(n int) []tr.Datum {
	ds := make([]tr.Datum, n)

	for i := range ds {
		ds[i] = g.datum()

		if i > 0 && g.Intn(3) == 0 { // only one thing is different
			d := ds[i-1]
			d.D = g.words()

			switch g.Intn(11) {
			case 0:
				d.F = tr.Pick(g.Rng, fonts)
			case 1:
				d.Z = g.size()
			case 2:
				d.FG = []int{g.V8(), g.V8(), g.V8()}
			case 3:
				d.B = 1 - d.B
			case 4:
				d.I = 1 - d.I
			case 5:
				d.U = 1 - d.U
			case 6:
				d.ST = 1 - d.ST
			case 7:
				d.LS = g.size()
			case 8:
				d.R = g.size()
			case 9:
				d.BG = []int{g.V8(), g.V8(), g.V8(), 255}
			}

			ds[i] = d
		}
	}

	for i := range ds {
		ds[i].DB, ds[i].FB = tr.Bytes(ds[i].D), tr.Bytes(ds[i].F)
	}

	return ds
}

// dress gives the text layers of a tree texts, and puts some of their masks outside.
func (g *fgen) dress(ls []tr.Layer) {
	for n := range ls {
		c := &ls[n].C

		switch c.K {
		case "grp":
			g.dress(c.L)

			if g.Intn(5) == 0 { // a group with a mask
				in := *c
				w, h := ls[n].B[2]-ls[n].B[0], ls[n].B[3]-ls[n].B[1]
				*c = g.Masked(in, w, h, g.Intn(3) != 0)
				c.PT = g.Intn(3) / 2
			}
		case "txt":
			c.S = g.data(1 + g.Intn(3))

			if c.C.K == "msk" && g.Intn(3) != 0 {
				m := *c.C
				t := *c
				t.C = m.C
				m.C = &t
				*c = m
			}
		case "msk":
			if c.C.K == "txt" {
				c.C.S = g.data(1 + g.Intn(3))
			}
		}
	}
}

func (g *fgen) texts() {
	one := func(ds []tr.Datum, kind string) {
		in := g.Px(tr.Pick(g.Rng, []string{"nrgba", "nrgba", "gray", "pal"}), 1, 1, false)
		c := tr.Content{K: "txt", C: &in, L: []tr.Layer{}, S: ds, PT: g.Intn(2)}

		if g.Intn(4) == 0 {
			c = g.Masked(c, 1, 1, true)
		}

		l := tr.Layer{N: "t", B: []int{0, 0, 1, 1}, M: "Normal", C: c}
		ls := []tr.Layer{l}

		if kind == "image" && g.Intn(2) == 0 {
			ls = append(ls, tr.Dot(g.Intn(9)))
		}

		if kind == "image" && g.Intn(4) == 0 {
			ls = tr.Wrap(ls, 1, 1)
		}

		g.rt(kind, ls, []int{0, 0}, 2)
	}

	for _, w := range words {
		for _, n := range []int{1, 2} {
			ds := g.data(n)
			ds[0].D, ds[0].DB = w, tr.Bytes(w)

			if g.Intn(2) == 0 {
				ds[0].B, ds[0].I, ds[0].U, ds[0].ST, ds[0].LS, ds[0].R = 0, 0, 0, 0, 0, 0
				ds[0].BG = []int{0, 0, 0}
			}

			one(ds, "image")
		}
	}

	for _, f := range fonts {
		for _, n := range []int{1, 2} {
			ds := g.data(n)
			ds[0].F, ds[0].FB = f, tr.Bytes(f)

			one(ds, "image")
		}
	}

	for _, z := range edges {
		for k := 0; k < 4; k++ {
			ds := g.data(1 + k/3)

			switch k {
			case 0, 3:
				ds[0].Z = z
			case 1:
				ds[0].LS = z
			case 2:
				ds[0].R = z
			}

			one(ds, "image")
		}
	}

	for c := 0; c < 256; c += 1 + g.Intn(4) { // every shade, in the plain form and in markup
		ds := g.data(1 + c&1)
		ds[0].FG = []int{c, 255 - c, g.V8()}
		ds[0].BG = []int{0, 0, 0}

		if c&1 == 0 {
			ds[0].B, ds[0].I, ds[0].U, ds[0].ST, ds[0].LS, ds[0].R = 0, 0, 0, 0, 0, 0
		}

		one(ds, "image")
	}

	for n := 0; n < 16; n++ { // every combination of the flags
		ds := g.data(2)
		ds[0].B, ds[0].I, ds[0].U, ds[0].ST = n&1, n>>1&1, n>>2&1, n>>3&1

		one(ds, "image")
	}

	for i := 0; i < 250*g.K; i++ {
		one(g.data(1+g.Intn(5)), tr.Pick(g.Rng, []string{"image", "image", "layer", "player", "plain"}))
	}
}

// ---- round trips

// rt writes a picture, and reads it back when that is what matters.
func (g *fgen) rt(kind string, ls []tr.Layer, off []int, pts int) {
	if g.Prop == "C29" {
		g.Add("xform", &formEv{Kind: kind, L: ls, Off: off})
	} else {
		g.Add("xrt", &rtEv{Kind: kind, L: ls, Off: off, Pts: pts})
	}
}

func (g *fgen) roundTrips() {
	add := func(kind string, ls []tr.Layer, off []int) { g.rt(kind, ls, off, 0) }

	// every mode, in colour: on top, in groups, on groups, below everything
	for _, m := range tr.AllModes {
		l := func() tr.Layer {
			return tr.Layer{N: m, B: []int{0, 0, 2, 1}, M: m, C: g.Px("nrgba", 2, 1, false)}
		}
		k := tr.Wrap([]tr.Layer{l(), l()}, g.Intn(3), g.Intn(3))
		k[0].M = m

		add("image", []tr.Layer{l(), k[0], l()}, []int{0, 0})
		add("image", append([]tr.Layer{l()}, k...), []int{0, 0})
	}

	g.Trees(420*g.K, func(kind string, ls []tr.Layer, off []int) {
		g.dress(ls)
		add(kind, ls, off)
	})

	// sizes around the tile's
	for _, w := range []int{1, 63, 64, 65, 127, 128, 129, 200} {
		for _, h := range []int{1, 64, 65, 130} {
			f := tr.Pick(g.Rng, []string{"grad", "ggray", "tiled"})
			c := g.Grad(f, w, h)
			x, y := g.Intn(20)-10, g.Intn(20)-10

			add("image", []tr.Layer{{N: "big", B: []int{x, y, x + w, y + h}, M: "Normal", C: c}, tr.Dot(3)}, []int{0, 0})

			if g.Intn(3) == 0 {
				add("plain", []tr.Layer{{N: "", B: []int{0, 0, w, h}, M: "Normal", C: g.Grad(f, w, h)}}, []int{0, 0})
				add("shifted", []tr.Layer{{N: "", B: []int{0, 0, w, h}, M: "Normal", C: g.Grad(f, w, h)}}, []int{x, y})
			}
		}
	}

	for _, s := range [][]int{{64, 64}, {128, 64}, {64, 128}, {150, 130}, {256, 128}, {300, 70}} {
		add("image", []tr.Layer{{N: "t", B: []int{0, 0, s[0], s[1]}, M: "Normal", C: g.Grad("tiled", s[0], s[1])}}, []int{0, 0})
	}

	// palettes of all sizes, in one file
	for _, n := range []int{1, 2, 3, 15, 16, 17, 128, 255, 256, 257, 300} {
		for k := 0; k < 2; k++ {
			pl := g.NewPalette(n)
			f := []string{"pal", "pala"}[k]
			mk := func(w, h int) tr.Content {
				c := tr.Content{K: "px", F: f, W: w, H: h, PL: pl, L: []tr.Layer{}}

				for i := 0; i < w*h; i++ {
					p := []int{g.Intn(min(n, 256))}

					if i < min(n, 256) {
						p[0] = i
					}

					if f == "pala" {
						p = append(p, g.A8())
					}

					c.P = append(c.P, p)
				}

				return c
			}
			w := []int{4, 20}[g.Intn(2)]
			l := tr.Layer{N: "p", B: []int{1, 2, 1 + w, 15}, M: "Normal", C: mk(w, 13), T: g.V8()}

			add("image", []tr.Layer{l, {N: "q", B: []int{0, 0, 3, 3}, M: "Normal", C: mk(3, 3)}}, []int{0, 0})
			add("plain", []tr.Layer{{N: "", B: []int{0, 0, 9, 9}, M: "Normal", C: mk(9, 9)}}, []int{0, 0})

			// others in a picture of that palette
			o := tr.Opts()
			ls := append([]tr.Layer{l}, g.Tree(o)...)
			g.dress(ls)
			add("image", ls, []int{0, 0})
		}
	}

	// grey ones
	for i := 0; i < 40*g.K; i++ {
		o := tr.Opts()
		ls := append([]tr.Layer{tr.Dot(g.Intn(256))}, g.Tree(o)...)

		if g.Intn(2) == 0 {
			ls[0].C = g.Px("lgraya", 1, 1, false)
		}

		g.dress(ls)
		add("image", ls, []int{0, 0})
	}

	// masks of every value
	for k := 0; k < 4; k++ {
		in := g.Px("nrgba", 16, 16, false)
		m := tr.Content{K: "msk", C: &in, L: []tr.Layer{}, MB: []int{0, 0, 16, 16}, PT: k & 1}

		for i := 0; i < 256; i++ {
			m.MP = append(m.MP, (i*7+k)%256)
		}

		g.rt("image", []tr.Layer{{N: "m", B: []int{2, 2, 18, 18}, M: "Normal", C: m}}, []int{0, 0}, 256)
	}

	// pixels and tiles that change in the middle of anything
	for i := 0; i < 20*g.K; i++ {
		w, h := 1+g.Intn(20), 1+g.Intn(20)
		add("image", []tr.Layer{{N: "n", B: []int{0, 0, w, h}, M: "Normal", C: g.Px(tr.Pick(g.Rng, []string{"nrgba", "lgraya", "gray", "lrgb"}), w, h, false)}}, []int{0, 0})
	}
}

// ---- run lengths

// runs makes a channel of n bytes out of runs of the lengths given.
func (g *fgen) runs(n int, lens ...int) [][]int {
	var rs [][]int

	last := -1

	for n > 0 {
		k := 1 + g.Intn(3)

		if len(lens) > 0 {
			k, lens = lens[0], lens[1:]
		} else if g.Intn(3) == 0 {
			k = tr.Pick(g.Rng, []int{1, 2, 3, 4, 5, 100, 126, 127, 128, 129, 130, 131, 200, 255, 256, 257, 258, 300, 1000, 4095})
		}

		if k = min(k, n); k == 0 {
			continue
		}

		v := g.Intn(256)

		for v == last {
			v = g.Intn(256)
		}

		if g.Intn(40) == 0 {
			v = tr.Pick(g.Rng, []int{0, 127, 128, 255})

			if v == last {
				v ^= 1
			}
		}

		rs = append(rs, []int{v, k})
		last = v
		n -= k
	}

	return rs
}

func (g *fgen) runLengths() {
	one := func(w, h int, lens ...[]int) {
		n := 2

		if len(lens) > 2 || len(lens) == 0 && g.Intn(3) == 0 {
			n = 4
		}

		e := &rleEv{WW: w, HH: h}

		for i := 0; i < n; i++ {
			var l []int

			if i < len(lens) {
				l = lens[i]
			}

			e.Ch = append(e.Ch, g.runs(w*h, l...))
		}

		g.Add("xrle", e)
	}

	edge := []int{1, 2, 3, 4, 5, 63, 64, 65, 125, 126, 127, 128, 129, 130, 131, 132, 254, 255, 256, 257, 258, 259}

	for _, a := range edge { // a run of each length at the start, the end, between literals and between runs
		for k := 0; k < 4; k++ {
			var l []int

			switch k {
			case 0:
				l = []int{a}
			case 1:
				l = []int{1, 1, a, 1}
			case 2:
				l = []int{3, a, 3}
			case 3:
				l = []int{a, a, a}
			}

			sum := 0

			for _, x := range l {
				sum += x
			}

			h := (sum + 63) / 64

			if k&1 == 0 && sum <= 64 { // no more than these
				one(sum, 1, l, []int{sum})
			} else {
				one(64, max(h, 1), l, append([]int{1 + g.Intn(4)}, l...))
			}
		}

		ones := make([]int, a) // as many literals
		for i := range ones {
			ones[i] = 1
		}

		one(64, (a+8+63)/64, append(ones, 8), append([]int{8}, ones...))
	}

	for _, s := range [][2]int{{64, 64}, {63, 64}, {64, 63}, {1, 1}, {2, 1}, {1, 2}, {1, 64}, {64, 1}, {64, 2}, {43, 3}} {
		n := s[0] * s[1]

		one(s[0], s[1], []int{n}, []int{n})
		one(s[0], s[1], []int{n - 1, 1}, []int{1, n - 1})
		one(s[0], s[1], []int{max(1, n-2), 1, 1}, []int{max(1, n-3), 3})
		one(s[0], s[1])
		one(s[0], s[1])

		lit := make([]int, n)
		for i := range lit {
			lit[i] = 1
		}

		one(s[0], s[1], lit, lit)
	}

	for i := 0; i < 200*g.K; i++ {
		one(1+g.Intn(64), 1+g.Intn(64))
	}
}

// ops makes a stream of n bytes out of operations of every kind, perhaps with one that is wrong.
func (g *fgen) ops(n int, wrong string) []byte {
	var o []byte

	put := func(k int, long, run bool) {
		switch {
		case run && long:
			o = append(o, 127, byte(k>>8), byte(k), byte(g.Intn(256)))
		case run:
			o = append(o, byte(k-1), byte(g.Intn(256)))
		case long:
			o = append(append(o, 128, byte(k>>8), byte(k)), g.randBytes(k)...)
		default:
			o = append(append(o, byte(256-k)), g.randBytes(k)...)
		}
	}

	at := g.Intn(n)
	left := n

	for left > 0 {
		if wrong == "zero" && n-left >= at {
			put(0, true, g.Intn(2) == 0)

			wrong = ""
		}

		k := 1 + g.Intn(min(left, tr.Pick(g.Rng, []int{1, 2, 3, 10, 127, 128, 300, 4096})))
		long, run := g.Intn(2) == 0, g.Intn(2) == 0

		if g.Intn(3) == 0 {
			k = min(left, tr.Pick(g.Rng, []int{1, 126, 127, 128, 129, 255, 256, 257}))
		}

		if k > 127 {
			long = true
		}

		if k == left && strings.HasPrefix(wrong, "over") {
			k += map[string]int{"over1": 1, "over2": 2, "over": 1 + g.Intn(300)}[wrong]

			if k > 127 {
				long = true
			}

			put(k, long, run)

			break
		}

		put(k, long, run)

		left -= k
	}

	return o
}

func (g *fgen) streams() {
	one := func(w, h int, wrong string) {
		typ := tr.Pick(g.Rng, []int{1, 2, 3})
		base := typ / 2
		g.f = &xfile{ver: tr.Pick(g.Rng, []int{0, 3, 4, 10, 11, 13}), w: w, h: h, base: base, prec: 150, comp: 1, props: []prop{mk(17, 1)}}
		l := &xlayer{w: w, h: h, typ: typ, name: xstr("s"), p: &pic{w: w, h: h}}

		if typ == 2 { // the last layer need not have alpha
			l.p.ch = make([][]byte, 1)
		} else {
			l.p.ch = make([][]byte, channels(typ))
		}

		for i := range l.p.ch {
			l.p.ch[i] = make([]byte, w*h)
		}

		g.f.layers = []*xlayer{l}
		n := 0
		tx, ty := (w+63)/64, (h+63)/64
		last := tx*ty*len(l.p.ch) - 1
		which := g.Intn(last + 1)

		if wrong == "cut" {
			which = last
		}

		g.f.rle = func(ch []byte) []byte {
			n++

			if n-1 == which {
				if wrong == "cut" {
					o := g.ops(len(ch), "")

					return o[:g.Intn(len(o))]
				}

				return g.ops(len(ch), wrong)
			}

			return g.ops(len(ch), "")
		}

		b, _ := g.f.write(g.Rng)

		g.Add("xdec", &decEv{B: b, Note: "rle " + wrong, Via: "at", Pts: w * h})
	}

	for _, wrong := range []string{"", "", "cut", "over1", "over2", "over", "zero"} {
		for i := 0; i < 40*g.K; i++ {
			w, h := 1+g.Intn(20), 1+g.Intn(12)

			switch i % 10 {
			case 0:
				w, h = 64, 1+g.Intn(5)
			case 1:
				w, h = 1+g.Intn(3), 1
			case 2:
				w, h = 65+g.Intn(5), 1+g.Intn(5)
			}

			if i == 9 {
				w, h = 64, 64
			}

			one(w, h, wrong)
		}
	}
}

// ---- destinations that fail

func (g *fgen) faults() {
	k := 0
	modes := []string{"stick", "once", "short", "shorterr", "fullerr"}
	one := func(kind string, ls []tr.Layer, off []int) {
		e := &faultEv{Kind: kind, L: ls, Off: off, Mode: "none"}

		if tr.Safe(e.Run) != "" {
			g.Add("xfault", e)

			return
		}

		t := e.Writes
		g.Add("xfault", &faultEv{Kind: kind, L: ls, Off: off, Mode: "none"})
		k++

		step := 1

		if t > 300 && !g.Thorough {
			step = t / 150
		}

		for at := 1; at <= t; at += step {
			g.Add("xfault", &faultEv{Kind: kind, L: ls, Off: off, Mode: modes[(at+k)%5], At: at})
		}
	}

	n := 0

	g.Trees(40*g.K, func(kind string, ls []tr.Layer, off []int) {
		n++
		g.dress(ls)

		if len(fmt.Sprint(ls)) > 3000 || n < 20 && n%10 != 0 || n < 240 && n%40 != 0 || n > 240 && n%3 != 0 {
			return
		}

		one(kind, ls, off)
	})

	one("image", []tr.Layer{{N: "a", B: []int{0, 0, 66, 2}, M: "Normal", C: g.Px("nrgba", 66, 2, false)}, tr.Dot(2)}, []int{0, 0})
	one("plain", []tr.Layer{{N: "a", B: []int{0, 0, 2, 2}, M: "Normal", C: g.Px("pal", 2, 2, false)}}, []int{0, 0})
	for _, w := range []int{64, 128} {
		one("image", []tr.Layer{{N: "a", B: []int{0, 0, w, 2}, M: "Normal", C: g.Px("nrgba", w, 2, false)}, tr.Dot(2)}, []int{0, 0})
		one("image", []tr.Layer{{N: "a", B: []int{0, 0, 1, w}, M: "Normal", C: g.Masked(g.Px("gray", 1, w, false), 1, w, true)}}, []int{0, 0})
	}

	g.Add("xbig", &bigEv{N: 250, MB: 15})
	g.Add("xbig", &bigEv{N: 280, MB: 15})
	one("plain", []tr.Layer{{N: "a", B: []int{0, 0, 3, 2}, M: "Normal", C: g.Px("lgraya", 3, 2, false)}}, []int{0, 0})

	in := g.Px("gray", 2, 2, false)
	t := tr.Content{K: "txt", C: &in, L: []tr.Layer{}, S: g.data(2)}
	one("image", tr.Wrap([]tr.Layer{{N: "t", B: []int{0, 0, 2, 2}, M: "Normal", C: g.Masked(t, 2, 2, true)}}, 1, 1), []int{0, 0})
}

// ---- many readers

func (g *fgen) concurrent() {
	for i := 0; i < 36*g.K; i++ {
		g.o = defopt()
		g.o.comp = 1
		g.o.props = false
		g.o.steady = true
		g.o.sizes, g.o.layers, g.o.maxpx = tileSizes, 2, 9000
		g.o.clip = i%2 == 0

		if i%3 == 0 {
			g.o.layers, g.o.depth = 1, 1
		}

		kind := "deferred"

		switch i % 6 {
		case 4:
			kind = "eager"
		}

		g.file()
		b, _ := g.f.write(g.Rng)
		e := &conEv{Kind: kind, B: b, Par: 2 + g.Intn(7), Reps: 4, Acc: g.accesses(60)}

		for k := 0; k < 20; k++ {
			e.Pts = append(e.Pts, []int{g.Intn(g.f.w), g.Intn(g.f.h)})
		}

		g.Add("xcon", e)
	}

	for i := 0; i < 4*g.K; i++ {
		o := tr.Opts()
		ls := g.Tree(o)
		plain(ls)
		e := &conEv{Kind: "ora", L: ls, Par: 4, Reps: 2}

		for k := 0; k < 20; k++ {
			e.Pts = append(e.Pts, []int{g.Intn(12) - 1, g.Intn(12) - 1})
			e.Acc = append(e.Acc, access{LP: []int{g.Intn(len(ls))}, X: g.Intn(6), Y: g.Intn(6)})
		}

		g.Add("xcon", e)
	}
}

func plain(ls []tr.Layer) {
	for n := range ls {
		if ls[n].M == "Dissolve" {
			ls[n].M = "Normal"
		}

		if ls[n].C.K == "grp" {
			plain(ls[n].C.L)
		}
	}
}
