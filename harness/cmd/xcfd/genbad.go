package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- text descriptions

func (g *fgen) quoted(s string, apos bool) string {
	q := "\""
	if apos {
		q = "'"
	}

	s = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", q, map[string]string{"\"": "&quot;", "'": "&apos;"}[q]).Replace(s)

	return q + s + q
}

func (g *fgen) markup(depth int) string {
	var b strings.Builder

	for i := g.Intn(4); i > 0; i-- {
		switch k := g.Intn(8); {
		case k < 3 || depth == 0:
			s := tr.Pick(g.Rng, []string{"a", "Hello ", "x\ny", "ünï", " ", "\"", "'", "1", "\\", ")"})
			b.WriteString(s)
		case k == 3:
			b.WriteString(tr.Pick(g.Rng, []string{"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#233;", "&#x1D11E;", "&#10;"}))
		case k < 6:
			e := tr.Pick(g.Rng, []string{"b", "i", "u", "s"})
			fmt.Fprintf(&b, "<%s>%s</%s>", e, g.markup(depth-1), e)
		default:
			as := ""

			for j := g.Intn(4); j > 0; j-- {
				as += tr.Pick(g.Rng, []string{" ", " ", "  ", "\n "})
				v := ""
				n := tr.Pick(g.Rng, []string{"foreground", "background", "font", "size", "letter_spacing", "rise", "lang"})

				switch n {
				case "foreground", "background":
					v = fmt.Sprintf("#%06x", g.Intn(1<<24))

					if g.Intn(2) == 0 {
						v = strings.ToUpper(v)
					}

					if g.Intn(4) == 0 {
						v = v[:4]
					}
				case "font", "lang":
					v = tr.Pick(g.Rng, fonts)
				default:
					v = fmt.Sprint(g.size() * tr.Pick(g.Rng, []int{1, 1024, 1024}))

					if len(v) > 12 {
						v = "18432"
					}
				}

				as += " " + n + "=" + g.quoted(v, g.Intn(3) == 0)
			}

			if g.Intn(6) == 0 {
				fmt.Fprintf(&b, "<span%s/>", as)
			} else {
				fmt.Fprintf(&b, "<span%s>%s</span>", as, g.markup(depth-1))
			}
		}
	}

	return b.String()
}

// lit writes a string of a description.
func (g *fgen) lit(s string) string {
	var b strings.Builder

	b.WriteByte('"')

	for i := 0; i < len(s); i++ {
		c := s[i]

		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n' && g.Intn(2) == 0:
			b.WriteString("\\n")
		case g.Intn(12) == 0:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}

	b.WriteByte('"')

	return b.String()
}

// description makes the content of a text layer's parasite.
func (g *fgen) description() []byte {
	var ts []string

	if g.Intn(2) == 0 {
		ts = append(ts, "(text "+g.lit(g.words())+")")
	} else {
		ts = append(ts, "(markup "+g.lit("<markup>"+g.markup(3)+"</markup>")+")")
	}

	if g.Intn(3) != 0 {
		ts = append(ts, "(font "+g.lit(tr.Pick(g.Rng, fonts))+")")
	}

	if g.Intn(3) != 0 {
		ts = append(ts, tr.Pick(g.Rng, []string{"(font-size 18.000000)", "(font-size 18)", "(font-size 7.9)", fmt.Sprintf("(font-size %d.5)", g.size()), "(font-size 0)"}))
	}

	if g.Intn(3) != 0 {
		c := func() string {
			switch g.Intn(5) {
			case 0:
				return "0"
			case 1:
				return "1"
			case 2:
				return "0.000000"
			case 3:
				return fmt.Sprintf("0.%d", g.Intn(1000000))
			}

			return fmt.Sprintf("%f", float64(g.V8())/255)
		}

		ts = append(ts, fmt.Sprintf("(color (color-rgb %s %s %s))", c(), c(), c()))
	}

	for i := g.Intn(6); i > 0; i-- {
		ts = append(ts, tr.Pick(g.Rng, []string{"(font-size-units pixels)", "(antialias yes)", "(base-direction ltr)", "(justify left)",
			"(box-mode dynamic)", "(box-width 12.000000)", "(hinting yes)", "(unknown)", "(unknown (deep (deeper \"x\" 1 2) y) z)", "(kerning no)", "(language \"en-us\")", "(transform (matrix 1 0 0 1))"}))
	}

	g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })

	s := strings.Join(ts, tr.Pick(g.Rng, []string{"\n", "\n", "", " ", "\r\n", "\n\n "}))

	if g.Intn(2) == 0 {
		s += "\n"
	}

	if g.Intn(5) != 0 {
		s += "\x00"
	}

	if g.Intn(8) == 0 {
		s += tr.Pick(g.Rng, []string{"x", "(text \"no\")", "\x00\x00", ")"})
	}

	return []byte(s)
}

// spoil breaks a description somewhere.
func (g *fgen) spoil(d []byte) []byte {
	for k := 1 + g.Intn(2); k > 0 && len(d) > 0; k-- {
		i := g.Intn(len(d))
		c := tr.Pick(g.Rng, []string{"(", ")", "\"", "\\", "<", ">", "&", "/", "=", "\x00", " ", "#", ";", "é", "\xff", "9", "-", ".", "'", "\t", "</b>", "<b>", "&#0;", "(x", "99999999999999999999"})

		// rather where it matters
		if g.Intn(2) == 0 {
			for j := 0; j < 40; j++ {
				if n := g.Intn(len(d)); strings.IndexByte("()\"\\<>&;=/#", d[n]) >= 0 {
					i = n

					break
				}
			}
		}

		switch g.Intn(5) {
		case 0:
			d = d[:i]
		case 1:
			d = append(append([]byte{}, d[:i]...), d[i+1:]...)
		case 2:
			d = append(append(append([]byte{}, d[:i]...), c...), d[i+1:]...)
		case 3:
			j := min(len(d), i+g.Intn(12))
			d = append(append([]byte{}, d[:j]...), d[i:]...)
		default:
			d = append(append(append([]byte{}, d[:i]...), c...), d[i:]...)
		}
	}

	return d
}

// textFile is a file with a text layer of that description.
func (g *fgen) textFile(d []byte, note string) *decEv {
	g.f = &xfile{ver: tr.Pick(g.Rng, []int{0, 3, 4, 11}), w: 2, h: 2, base: tr.Pick(g.Rng, []int{0, 0, 1}), comp: 1, props: []prop{mk(17, 1)}, prec: 150}
	typ := g.f.base<<1 | 1
	par := g.parasite("gimp-text-layer", d)

	if g.Intn(4) == 0 {
		par = cat(g.parasites(), par, g.parasites())
	}

	l := &xlayer{w: 1, h: 1, typ: typ, name: xstr("t"), props: []prop{mk(26, be32(1)...), mk(21, par...)}, p: g.pic(1, 1, channels(typ), false)}
	g.f.layers = []*xlayer{l}
	b, _ := g.f.write(g.Rng)
	e := &decEv{B: b, Note: note, Via: "at", Pts: 1}
	g.Add("xdec", e)

	return e
}

func (g *fgen) descriptions() {
	for i := 0; i < 300*g.K; i++ {
		g.textFile(g.description(), "text")
	}

	for i := 0; i < 300*g.K; i++ {
		g.textFile(g.spoil(g.description()), "spoilt text")
	}

	d := []byte("(text \"a\\\"b\")(font \"S\")(color (color-rgb 0.5 1 0))\x00")

	for n := range d {
		g.textFile(d[:n], "cut text")
	}

	d = []byte("(markup \"<markup>x<b>y</b><span font='z' size='1024'>&amp;</span></markup>\")\x00")

	for n := range d {
		g.textFile(d[:n], "cut markup")
	}

	// deep nesting
	for _, n := range []int{10, 50, 200, 20000} {
		e := g.textFile([]byte("(text \"x\")"+strings.Repeat("(a ", n)+strings.Repeat(")", n)+"\x00"), "deep tags")
		if n > 50 {
			e.Note = "deep"
		}

		if n < 2000 {
			g.textFile([]byte("(markup "+g.lit("<markup>"+strings.Repeat("<b>", n)+"x"+strings.Repeat("</b>", n)+"</markup>")+")\x00"), "deep markup")
		}
	}
}

// ---- files that lie, and files that end early

var hostile = []uint64{0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x3fffffff, 0x40000000, 0x55555556, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff8, 0xffffffff}

func put(b []byte, f field, v uint64) []byte {
	o := append([]byte{}, b...)

	switch f.n {
	case 1:
		o[f.at] = byte(v)
	case 4:
		binary.BigEndian.PutUint32(o[f.at:], uint32(v))
	case 8:
		binary.BigEndian.PutUint64(o[f.at:], v)
	}

	return o
}

func get(b []byte, f field) uint64 {
	switch f.n {
	case 1:
		return uint64(b[f.at])
	case 4:
		return uint64(binary.BigEndian.Uint32(b[f.at:]))
	}

	return binary.BigEndian.Uint64(b[f.at:])
}

func (g *fgen) bad(b []byte, note string) *decEv {
	e := &decEv{B: b, Note: note, Via: tr.Pick(g.Rng, vias), Pts: 2}
	g.Add("xdec", e)

	return e
}

// victim makes a small file of one of many kinds.
func (g *fgen) victim(i int) ([]byte, []field) {
	for {
		g.o = defopt()
		g.o.vers = []int{[]int{0, 3, 4, 9, 10, 11, 12, 13}[i%8]}
		g.o.bases = []int{i % 3}
		g.o.comp = 1 - i/3%2
		g.o.sizes, g.o.maxpx = []int{1, 2, 3, 4}, 16
		g.o.layers, g.o.depth = 2, i%2
		g.o.palsize = []int{1, 2, 3}
		g.o.texts = i%3 != 2
		g.o.props = i%4 == 3
		g.o.ends = false
		g.o.shuffle = i%4 > 1
		g.file()

		if i%5 == 0 {
			l := g.f.layers[0]
			l.mask = &xmask{name: xstr("mask"), p: *g.pic(l.w, l.h, 1, false)}
		}

		b, fs := g.f.write(g.Rng)
		if len(b) < 900 {
			return b, fs
		}
	}
}

func (g *fgen) hostile() {
	n := 16
	if g.Thorough {
		n = 120
	}

	for i := 0; i < n; i++ {
		b, fs := g.victim(i)

		g.bad(b, "whole")

		step := 1
		if !g.Thorough {
			step = 1 + len(b)/250
		}

		for at := g.Intn(step); at < len(b); at += step {
			g.bad(append([]byte{}, b[:at]...), "cut")
		}

		for _, f := range fs {
			was := get(b, f)
			vs := append([]uint64{was + 1, was - 1, uint64(len(b)), uint64(len(b)) - 1, uint64(len(b)) + 1, uint64(f.at), 13, 26, 30}, hostile...)

			if f.n == 8 {
				vs = append(vs, 1<<32, 1<<32|was, 1<<63, 1<<63-1, 1<<62, ^uint64(0), ^uint64(7), 1<<40)
			}

			for _, v := range vs {
				if !g.Thorough && g.Intn(3) != 0 {
					continue
				}

				g.bad(put(b, f, v), "field "+f.k)
			}
		}

		for k := 0; k < 60; k++ { // any change at all
			o := append([]byte{}, b...)

			for j := 1 + g.Intn(3); j > 0; j-- {
				at := g.Intn(len(o))

				switch g.Intn(4) {
				case 0:
					o[at] ^= 1 << g.Intn(8)
				case 1:
					o[at] = byte(g.Intn(256))
				case 2:
					o[at] = tr.Pick(g.Rng, []byte{0, 1, 127, 128, 255})
				default: // two fields at once
					f := fs[g.Intn(len(fs))]
					o = put(o, f, tr.Pick(g.Rng, hostile))
				}
			}

			g.bad(o, "flips")
		}
	}

	// no file at all
	for k := 0; k < 40; k++ {
		g.bad(g.randBytes(g.Intn(60)), "noise")
		g.bad(append([]byte("gimp xcf file\x00"), g.randBytes(g.Intn(60))...), "noise")
	}

	g.large()
}

// large makes files that state much and hold little.
func (g *fgen) large() {
	for _, ver := range []int{3, 11} {
		for _, s := range [][2]int{{1, 1 << 30}, {1 << 30, 1}, {1 << 16, 1 << 16}, {1 << 20, 1 << 10}, {65535, 65535}, {0x7fffffff, 0x7fffffff}, {0xffffffff, 0xffffffff}, {0x80000000, 1}, {1 << 31, 1 << 31}, {3, 1 << 29}, {100000, 100000}, {0, 1 << 30}, {1 << 30, 0}} {
			for comp := 0; comp < 2; comp++ {
				for k := 0; k < 6; k++ { // which of the sizes lie
					typ := 1
					f := &xfile{ver: ver, w: 4, h: 4, base: 0, comp: comp, prec: 150, props: []prop{mk(17, byte(comp))}}
					l := &xlayer{w: 4, h: 4, typ: typ, name: xstr("l"), p: g.pic(4, 4, 4, false)}
					l.mask = &xmask{name: xstr("m"), p: *g.pic(4, 4, 1, false)}
					f.layers = []*xlayer{l}

					if k == 4 {
						l.group = true
						l.props = append(l.props, mk(29), mk(30, be32(0)...))
					}

					b, fs := f.write(g.Rng)
					m := 0

					for _, x := range fs {
						w := strings.Contains(x.k, "w") && x.k != "hwx"
						is := false

						switch x.k {
						case "width", "height":
							is = k == 0 || k == 3
						case "lwidth", "lheight":
							is = k == 1 || k == 3 || k == 4
						case "hw", "hh", "lw", "lh":
							m++
							is = k == 2 || k == 3 || k == 5 && m > 4
						case "mw", "mh":
							is = k == 5 || k == 3
						}

						if is {
							v := s[1]

							if w && x.k != "lwh" && (strings.HasSuffix(x.k, "w") || strings.HasSuffix(x.k, "width")) {
								v = s[0]
							}

							b = put(b, x, uint64(v))
						}
					}

					g.bad(b, "large")
				}
			}
		}
	}

	// lists of pointers that go on, to the same place
	for _, n := range []int{10, 1000, 4000} {
		f := &xfile{ver: 3, w: 4, h: 4, base: 0, comp: 1, props: []prop{mk(17, 1)}}
		f.layers = []*xlayer{{w: 4, h: 4, typ: 1, name: xstr("l"), p: g.pic(4, 4, 4, false)}}
		b, fs := f.write(g.Rng)

		for _, x := range fs {
			if x.k == "layer" {
				was := get(b, x)
				ps := be32(int(was) + 4*n)
				var more []byte

				for i := 0; i <= n; i++ {
					more = append(more, ps...)
				}

				b = append(append(append([]byte{}, b[:x.at]...), more...), b[x.at+4:]...)

				break
			}
		}

		g.bad(b, fmt.Sprintf("same layer %d", n))
	}
}
