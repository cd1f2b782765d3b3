package main

import "vimagination.zapto.org/limage/zverif/tr"

// families of pictures whose colours every file they are saved in can hold.
var families = [][]string{
	{"nrgba"}, {"nrgba", "lrgb"}, {"nrgba", "nrgba64", "rgba", "lrgb"}, {"gray", "lgraya"}, {"lgraya"}, {"pal", "pala"}, {"pala"},
}

type sgen struct {
	*tr.Gen
	pl   [][]int
	ids  int
	rgb  bool
	dims map[int][2]int
}

// dress gives leaves identities and one palette, and texts something to say.
func (g *sgen) dress(ls []tr.Layer) {
	for n := range ls {
		l := &ls[n]

		if !g.rgb {
			l.M = "Normal"
		}

		g.content(&l.C)
	}
}

func (g *sgen) content(c *tr.Content) {
	switch c.K {
	case "grp":
		g.dress(c.L)
	case "msk", "txt":
		g.content(c.C)

		for n := range c.S {
			d := &c.S[n]
			d.D = tr.Pick(g.Rng, tr.Names)

			if d.D == "" {
				d.D = "t"
			}

			d.DB, d.F, d.FB = tr.Bytes(d.D), "Sans", tr.Bytes("Sans")
			d.Z, d.FG, d.BG = 10+g.Intn(20), []int{g.V8(), g.V8(), g.V8(), 255}, []int{}
		}
	case "px":
		switch c.F {
		case "pal", "pala":
			c.PL = g.pl

			for n := range c.P {
				c.P[n][0] = g.Intn(len(g.pl))
			}
		case "nrgba":
			g.ids++
			c.ID = g.ids
			g.dims[c.ID] = [2]int{c.W, c.H}
		}
	}
}

func (g *sgen) picture(i int) []tr.Layer {
	fam := families[i%len(families)]
	o := tr.Opts()
	o.Formats = fam
	o.Size = 4
	o.Width = 3
	o.Depth = 2
	g.rgb = i%len(families) < 3

	if !g.rgb {
		o.Modes = []string{"Normal"}
	}

	g.pl = g.NewPalette(2 + g.Intn(8))
	g.ids = 0
	g.dims = map[int][2]int{}

	ls := g.Tree(o)

	// a group may have a mask
	for n := range ls {
		if l := &ls[n]; l.C.K == "grp" && g.Intn(4) == 0 && (g.rgb || fam[0] == "lgraya") {
			normal(l.C.L)
			l.C = g.Masked(l.C, l.B[2]-l.B[0], l.B[3]-l.B[1], true)
		}
	}

	g.dress(ls)

	return ls
}

func normal(ls []tr.Layer) {
	for n := range ls {
		ls[n].M = "Normal"

		if ls[n].C.K == "grp" {
			normal(ls[n].C.L)
		}
	}
}

func (g *sgen) rect() []int {
	a, b := g.Intn(101), g.Intn(101)
	c, d := g.Intn(101), g.Intn(101)

	if g.Intn(3) == 0 {
		a, c = 0, 0
	}

	if g.Intn(3) == 0 {
		b, d = 99, 99
	}

	return []int{min(a, b), min(c, d), max(a, b), max(c, d)}
}

func (g *sgen) save() string { return tr.Pick(g.Rng, []string{"ora", "xcf", "xcfc"}) }

// chain crops and saves, one after the other.
func (g *sgen) chain(i int) {
	e := &sessEv{L: g.picture(i)}

	for k := 2 + g.Intn(4); k > 0; k-- {
		s := step{Do: g.save(), From: len(e.Steps) + 1}

		if g.Intn(4) == 0 {
			s.Do, s.RS = "crop", g.rect()
		}

		e.Steps = append(e.Steps, s)
	}

	g.Add("sess", e)
}

// history does anything with any of the pictures there are.
func (g *sgen) history(i int) {
	e := &sessEv{L: g.picture(i)}
	pics := 1

	for k := 4 + g.Intn(8); k > 0; k-- {
		s := step{Do: "look", From: 1 + g.Intn(pics)}

		switch g.Intn(8) {
		case 0, 1:
			s.Do = g.save()
			s.Par = g.Intn(3) * g.Intn(3)
			pics++
		case 2, 3:
			s.Do, s.RS = "crop", g.rect()
			pics++
		case 4, 5, 6:
			if g.ids > 0 {
				s.Do = "store"
				s.ID = 1 + g.Intn(g.ids)
				d := g.dims[s.ID]
				s.X, s.Y, s.V = g.Intn(d[0]), g.Intn(d[1]), []int{g.V8(), g.V8(), g.V8(), g.A8()}
			}
		}

		e.Steps = append(e.Steps, s)

		if s.Do == "crop" && g.Intn(2) == 0 { // a step on what was made
			e.Steps = append(e.Steps, step{Do: g.save(), From: pics})
			pics++
		}
	}

	for k := 1; k <= pics && k <= 6; k++ {
		e.Steps = append(e.Steps, step{Do: "look", From: k})
	}

	g.Add("sess", e)
}

func generate(d *tr.Gen) {
	g := &sgen{Gen: d}

	n := 800 * g.K

	for i := 0; i < n; i++ {
		if g.Prop == "C26" {
			g.chain(i)
		} else {
			g.history(i)
		}
	}
}
