package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"vimagination.zapto.org/limage/zverif/tr"
)

var oraModes = []string{"Normal", "Multiply", "Screen", "Overlay", "DarkenOnly", "LightenOnly", "Dodge", "Burn", "HardLight",
	"SoftLight", "Difference", "Color", "Luminosity", "Hue", "Saturation", "Plus", "DestinationIn", "DestinationOut",
	"SourceAtop", "DestinationAtop"}

type gen struct{ *tr.Gen }

func generate(tg *tr.Gen) {
	g := gen{tg}

	switch g.Prop {
	case "C11":
		g.Trees(700*g.K, func(kind string, ls []tr.Layer, off []int) {
			g.Add("ort", &rtEv{Kind: kind, L: ls, Off: off})
		})
	case "C12":
		g.Trees(500*g.K, func(kind string, ls []tr.Layer, off []int) {
			g.Add("oenc", &encEv{Kind: kind, L: ls, Off: off, Thumb: 1})
		})
		g.thumbs()
	case "C13":
		for i := 0; i < 1500*g.K; i++ {
			g.Add("odoc", g.doc(i))
		}

		g.huge(0, "nest", 1000, "nestnest", 1000, "layers", 3000, "groups", 2000, "other", 1000, "inlayer", 1000, "attrs", 1000, "text", 100000, "comment", 300000)
	case "C14":
		g.malformed()
		g.huge(0, "nest", 9000, "nest", 3000000, "nestnest", 2000, "nestnest", 1000000, "layers", 20000, "groups", 5000, "other", 1000000, "inlayer", 1000000,
			"attrs", 100000, "comment", 3000000)
		g.huge(1, "nest", 9000, "nest", 3000000, "layers", 5000, "groups", 5000, "other", 1000000, "inlayer", 1000000, "attrs", 100000, "comment", 300000)
	case "C15":
		g.faults()
	}
}

func (g gen) thumbs() {
	sizes := [][2]int{{255, 255}, {256, 256}, {257, 257}, {256, 257}, {257, 256}, {300, 200}, {200, 300}, {512, 512}, {600, 1},
		{1, 600}, {3, 700}, {513, 2}, {256, 1}, {1, 257}, {511, 300}, {258, 129},
		{300, 511}, {257, 258}, {258, 257}, {290, 260}}

	if g.Thorough {
		sizes = append(sizes, [2]int{1200, 500}, [2]int{2000, 3}, [2]int{3, 2000}, [2]int{777, 778}, [2]int{1025, 1024})

		for i := 0; i < 60; i++ {
			sizes = append(sizes, [2]int{1 + g.Intn(700), 1 + g.Intn(700)})
		}
	} else {
		for i := 0; i < 6; i++ {
			sizes = append(sizes, [2]int{1 + g.Intn(500), 1 + g.Intn(500)})
		}
	}

	for n, s := range sizes {
		c := g.Grad("grad", s[0], s[1])
		x, y := 0, 0

		if n%3 == 1 {
			x, y = g.Intn(20)-10, g.Intn(20)-10
		}

		ls := []tr.Layer{tr.Dot(g.Intn(40)), {N: "big", B: []int{x, y, x + s[0], y + s[1]}, M: "Normal", C: c}}

		if n%2 == 0 {
			ls = ls[1:]
		}

		g.Add("oenc", &encEv{Kind: tr.Pick(g.Rng, []string{"image", "image", "layer"}), L: ls, Off: []int{0, 0}, Thumb: 1})
	}
}

// ---- documents

func (g gen) num(k string, n int) attr { return attr{K: k, N: n, D: 1, OK: 1} }

var opacities = [][2]int{{0, 1}, {1, 1}, {1, 2}, {3, 4}, {1, 4}, {128, 255}, {127, 255}, {254, 255}, {1, 255}, {999, 1000}, {1, 1000},
	{998, 1000}, {501, 1000}, {-1, 1}, {2, 1}, {-5, 10}, {1001, 1000}, {3, 1000000}, {999999, 1000000}, {498039, 1000000}, {300, 1}}

func (g gen) attrs(src string) []attr {
	as := []attr{}

	if src != "" {
		as = append(as, attr{K: "src", V: src, D: 1})
	}

	if g.Intn(3) > 0 {
		as = append(as, attr{K: "name", V: tr.Pick(g.Rng, tr.Names), D: 1})
	}

	if g.Intn(3) > 0 {
		as = append(as, g.num("x", g.Intn(14)-4))
	}

	if g.Intn(3) > 0 {
		as = append(as, g.num("y", g.Intn(14)-4))
	}

	switch g.Intn(5) {
	case 0:
		o := tr.Pick(g.Rng, opacities)
		as = append(as, attr{K: "opacity", N: o[0], D: o[1], OK: 1})
	case 1:
		d := tr.Pick(g.Rng, []int{10, 100, 255, 1000, 100000})
		as = append(as, attr{K: "opacity", N: g.Intn(d + 1), D: d, OK: 1})
	}

	switch g.Intn(5) {
	case 0:
		as = append(as, attr{K: "visibility", V: "hidden", D: 1})
	case 1:
		as = append(as, attr{K: "visibility", V: "visible", D: 1})
	case 2:
		as = append(as, attr{K: "visibility", V: tr.Pick(g.Rng, []string{"Hidden", "hide", "hiddens", "", "collapse", "0", "false"}), D: 1})
	}

	if g.Intn(2) == 0 {
		as = append(as, attr{K: "composite-op", V: tr.Pick(g.Rng, ops), D: 1})
	}

	if g.Intn(4) == 0 {
		as = append(as, attr{K: tr.Pick(g.Rng, []string{"edit-locked", "selected", "w", "h", "isolation", "title"}), V: "1", N: 1, D: 1, OK: 1})
	}

	g.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })

	return as
}

var ops = []string{"svg:src-over", "svg:multiply", "svg:screen", "svg:overlay", "svg:darken", "svg:lighten", "svg:color-dodge",
	"svg:color-burn", "svg:hard-light", "svg:soft-light", "svg:difference", "svg:color", "svg:luminosity", "svg:hue",
	"svg:saturation", "svg:plus", "svg:dst-in", "svg:dst-out", "svg:src-atop", "svg:dst-atop", "svg:unheard-of", "multiply", ""}

func (g gen) space(ts *[]tok, in bool) {
	if g.Intn(4) > 0 {
		return
	}

	v := []string{"\n", " ", "<!-- <stack><layer src=\"none\"/> -->", "<?pi x?>"}

	if in {
		v = append(v, "text &lt;stack>", "<![CDATA[<stack>]]>")
	}

	*ts = append(*ts, tok{T: "x", A: []attr{}, V: tr.Pick(g.Rng, v)})
}

var unknown = []string{"filter", "meta", "text", "layers", "Stack", "image", "params", "x"}

func (g gen) unknown(ts *[]tok, depth int) {
	e := tr.Pick(g.Rng, unknown)
	*ts = append(*ts, tok{T: "o", E: e, A: g.attrs("")})

	for n := g.Intn(3); n > 0 && depth > 0; n-- {
		g.space(ts, true)

		switch g.Intn(3) {
		case 0:
			g.unknown(ts, depth-1)
		case 1:
			*ts = append(*ts, tok{T: "o", E: "stack", A: g.attrs("")})
			g.unknown(ts, depth-1)
			*ts = append(*ts, tok{T: "c", E: "stack", A: []attr{}})
		default:
			*ts = append(*ts, tok{T: "o", E: "layer", A: g.attrs("none.png")}, tok{T: "c", E: "layer", A: []attr{}})
		}
	}

	*ts = append(*ts, tok{T: "c", E: e, A: []attr{}})
}

func (g gen) stack(ts *[]tok, srcs []source, depth, width int) {
	for n := g.Intn(width + 1); n > 0; n-- {
		g.space(ts, true)

		switch k := g.Intn(7); {
		case k == 0:
			g.unknown(ts, 2)
		case k < 3 && depth > 0:
			*ts = append(*ts, tok{T: "o", E: "stack", A: g.attrs("")})
			g.stack(ts, srcs, depth-1, width)
			*ts = append(*ts, tok{T: "c", E: "stack", A: []attr{}})
		default:
			*ts = append(*ts, tok{T: "o", E: "layer", A: g.attrs(tr.Pick(g.Rng, srcs).N)})

			if g.Intn(6) == 0 {
				g.unknown(ts, 1)
				g.space(ts, true)
			}

			*ts = append(*ts, tok{T: "c", E: "layer", A: []attr{}})
		}
	}

	g.space(ts, true)
}

func (g gen) doc(i int) *docEv {
	srcs := []source{}

	for n := 0; n < 1+g.Intn(4); n++ {
		w, h := 1+g.Intn(5), 1+g.Intn(5)
		f := tr.Pick(g.Rng, []string{"nrgba", "nrgba", "nrgba64", "gray", "lrgb", "pal"})
		s := source{N: fmt.Sprintf("data/%d.png", n), OK: 1, C: g.Px(f, w, h, false)}

		if n == 3 {
			s.N = "other/" + tr.Pick(g.Rng, []string{"ä.png", "a b.png", "x&y.png"})
		}

		if g.Intn(20) == 0 {
			s.C = g.Grad("grad", 20+g.Intn(60), 20+g.Intn(60))
		}

		srcs = append(srcs, s)
	}

	e := &docEv{Mime: tr.Pick(g.Rng, []string{"ok", "ok", "ok", "none", "deflated"}), Stack: 1, Srcs: srcs, Toks: []tok{}}
	ts := &e.Toks

	g.space(ts, false)

	ia := []attr{g.num("w", 1+g.Intn(14)), g.num("h", 1+g.Intn(14)), {K: "version", V: "0.0.3", D: 1}, {K: "xres", V: "72q", D: 1}}

	g.Shuffle(len(ia), func(i, j int) { ia[i], ia[j] = ia[j], ia[i] })

	*ts = append(*ts, tok{T: "o", E: "image", A: ia})

	for n := g.Intn(3) / 2; n > 0; n-- {
		g.space(ts, true)
		g.unknown(ts, 2)
	}

	g.space(ts, true)

	*ts = append(*ts, tok{T: "o", E: "stack", A: []attr{}})

	switch i % 8 {
	case 0:
		g.stack(ts, srcs, 6, 2)
	case 1:
		for n := 0; n < 34; n++ {
			*ts = append(*ts, tok{T: "o", E: "layer", A: g.attrs(tr.Pick(g.Rng, srcs).N)}, tok{T: "c", E: "layer", A: []attr{}})
		}
	default:
		g.stack(ts, srcs, 3, 4)
	}

	*ts = append(*ts, tok{T: "c", E: "stack", A: []attr{}})

	for n := g.Intn(4) / 3; n > 0; n-- {
		g.unknown(ts, 1)
		g.space(ts, true)
	}

	*ts = append(*ts, tok{T: "c", E: "image", A: []attr{}})

	g.space(ts, false)
	g.shorten(*ts)

	return e
}

// shorten writes some empty elements as empty element tags.
func (g gen) shorten(ts []tok) {
	for n := 0; n+1 < len(ts); n++ {
		if ts[n].T == "o" && ts[n+1].T == "c" && ts[n].E == ts[n+1].E && g.Intn(3) > 0 {
			ts[n].SC = 1
		}
	}
}

// cut ends the document at a byte.
func cut(e *docEv, at int) {
	text, ends := render(e.Toks)

	if at >= len(text) {
		return
	}

	n := 0

	for n < len(ends) && ends[n] <= at {
		n++
	}

	from := 0

	if n > 0 {
		from = ends[n-1]
	}

	if e.Toks[n].T == "o" && e.Toks[n].SC == 1 || n == 0 || e.Toks[n-1].SC == 0 {
		// the token is cut in two, or is missing altogether
	}

	ts := append([]tok{}, e.Toks[:n]...)

	if n > 0 && ts[n-1].SC == 1 { // cannot happen: the closing half ends at the same byte
		n--
	}

	if from < at {
		if e.Toks[n].T == "x" && e.Toks[n].V != "" && !strings.HasPrefix(e.Toks[n].V, "<") {
			if !strings.Contains(e.Toks[n].V, "&") {
				ts = append(ts, tok{T: "x", A: []attr{}, V: text[from:at]})
			} else {
				ts = append(ts, tok{T: "b", A: []attr{}, V: "&"})
			}
		} else {
			ts = append(ts, tok{T: "b", A: []attr{}, V: text[from:at]})
		}
	}

	e.Toks = ts
}

func (g gen) breakDoc(e *docEv) {
	n := g.Intn(len(e.Toks))

	switch g.Intn(12) {
	case 0:
		e.Mime = tr.Pick(g.Rng, []string{"wrong", "long", "short"})
	case 1:
		e.Stack = 0
	case 2: // an unreadable number
		for k := range e.Toks {
			i := (n + k) % len(e.Toks)

			if as := e.Toks[i].A; len(as) > 0 {
				for j := range as {
					if a := &as[j]; numeric[a.K] {
						a.OK = 0
						a.N = 0
						a.V = tr.Pick(g.Rng, []string{"", "q", "1q", "--1", "1 2", "0x1g", "99999999999999999999999", "half", "1,5"})

						if a.K == "opacity" && strings.HasPrefix(a.V, "999") {
							a.V = "o.5"
						}

						return
					}
				}
			}
		}
	case 3: // a missing size
		for i := range e.Toks {
			if e.Toks[i].T == "o" {
				as := e.Toks[i].A[:0]
				drop := tr.Pick(g.Rng, []string{"w", "h"})

				for _, a := range e.Toks[i].A {
					if a.K != drop {
						as = append(as, a)
					}
				}

				e.Toks[i].A = as

				return
			}
		}
	case 4: // an unreadable picture
		if len(e.Srcs) == 0 {
			return
		}

		s := &e.Srcs[g.Intn(len(e.Srcs))]
		s.OK = 0
		s.H = tr.Pick(g.Rng, []string{"cut", "head", "empty", "text"})
	case 5: // a missing picture
		if len(e.Srcs) > 0 {
			e.Srcs[g.Intn(len(e.Srcs))].N = "elsewhere.png"
		}
	case 6: // a missing src
		for k := range e.Toks {
			i := (n + k) % len(e.Toks)

			if e.Toks[i].E == "layer" && e.Toks[i].T == "o" {
				as := []attr{}

				for _, a := range e.Toks[i].A {
					if a.K != "src" {
						as = append(as, a)
					}
				}

				e.Toks[i].A = as

				return
			}
		}
	case 7: // a missing tag
		for k := range e.Toks {
			i := (n + k) % len(e.Toks)

			if t := e.Toks[i]; (t.T == "c" && e.Toks[i-1].SC == 0) || (t.T == "o" && t.SC == 0) {
				e.Toks = append(append([]tok{}, e.Toks[:i]...), e.Toks[i+1:]...)

				return
			}
		}
	case 8: // a tag closed by another
		for k := range e.Toks {
			i := (n + k) % len(e.Toks)

			if e.Toks[i].T == "c" && e.Toks[i-1].SC == 0 {
				e.Toks[i].E = tr.Pick(g.Rng, []string{"stac", "layer", "stack", "image", "q"})

				return
			}
		}
	case 9: // broken syntax
		b := tok{T: "b", A: []attr{}, V: tr.Pick(g.Rng, []string{"<", "<layer src=>", "</>", "&nonsense;", "<layer src=\"a\" <", "<1/>"})}

		if n > 0 && e.Toks[n-1].SC == 1 {
			n--
		}

		e.Toks = append(append(append([]tok{}, e.Toks[:n]...), b), e.Toks[n:]...)
	case 10:
		e.Toks = []tok{}
	default:
		text, _ := render(e.Toks)

		cut(e, g.Intn(len(text)))
	}
}

func (g gen) malformed() {
	for i := 0; i < 1500*g.K; i++ {
		e := g.doc(i)

		if i%10 > 0 {
			g.breakDoc(e)
		}

		g.Add("odoc", e)
	}

	// every cut of a few documents
	for i := 0; i < 2*g.K; i++ {
		var e *docEv

		for e == nil || len(e.Toks) > 20 || len(e.Toks) < 8 {
			e = g.doc(2)
		}

		text, _ := render(e.Toks)

		for at := 0; at < len(text); at++ {
			c := tr.Clone(*e)
			cut(&c, at)
			g.Add("odoc", &c)
		}
	}

	// documents of which nothing is known
	for i := 0; i < 500*g.K; i++ {
		e := g.doc(i)
		text, _ := render(e.Toks)
		b := []byte(text)

		for n := 1 + g.Intn(4); n > 0; n-- {
			switch k := g.Intn(len(b)); g.Intn(4) {
			case 0:
				b[k] ^= 1 << g.Intn(8)
			case 1:
				b = append(b[:k], b[min(len(b), k+1+g.Intn(9)):]...)
			case 2:
				x := append([]byte{}, b[k:min(len(b), k+g.Intn(40))]...)
				b = append(b[:k], append(x, b[k:]...)...)
			default:
				x := []byte(tr.Pick(g.Rng, []string{"NaN", "Inf", "-1", "1e400", "<stack>", "</stack>", "\"", "<", ">", "9223372036854775807", "-9223372036854775808", "</image>"}))
				b = append(b[:k], append(x, b[k:]...)...)
			}

			if len(b) == 0 {
				b = []byte("<")
			}
		}

		e.Raw = string(b)
		g.Add("odoc", e)
	}
}

// ---- failing writers

func (g gen) faults() {
	n := 0
	total := func(kind string, ls []tr.Layer, off []int) int {
		e := &faultEv{Kind: kind, L: ls, Off: off, Mode: "none"}

		if tr.Safe(e.Run) != "" || e.Err != "" {
			return 0
		}

		return e.Total
	}
	one := func(kind string, ls []tr.Layer, off []int) {
		g.Add("ofault", &faultEv{Kind: kind, L: ls, Off: off, Mode: "none"})

		t := total(kind, ls, off)
		if t == 0 {
			return
		}

		var ats []int

		if n++; n%12 == 0 || g.Thorough && n%4 == 0 {
			for at := 0; at < t; at += 1 + t/400 {
				ats = append(ats, at)
			}
		} else {
			for i := 0; i < 6; i++ {
				ats = append(ats, g.Intn(t))
			}
		}

		ats = append(ats, 0, 1, t-1, t-2, t-22, t-23, max(0, t-60))

		for k, at := range ats {
			g.Add("ofault", &faultEv{Kind: kind, L: ls, Off: off, At: max(0, at), Mode: []string{"stick", "once", "short", "shorterr", "fullerr"}[(k+n)%5]})
		}
	}

	k := 0

	g.Trees(60*g.K, func(kind string, ls []tr.Layer, off []int) {
		if k++; k%6 == 0 || k > 230 {
			one(kind, ls, off)
		}
	})

	// large enough for the archive writer's buffer to flush on the way
	for _, s := range [][2]int{{90, 70}, {200, 150}, {70, 300}} {
		ls := []tr.Layer{{N: "noise", B: []int{0, 0, s[0], s[1]}, M: "Normal", C: g.Px("nrgba64", s[0], s[1], false)}}
		t := total("image", ls, []int{0, 0})

		for i := 0; i < 12; i++ {
			for _, m := range []string{"stick", "once"} {
				at := t * i / 12

				if i == 11 {
					at = t - 1 - g.Intn(50)
				}

				g.Add("ofault", &faultEv{Kind: "image", L: ls, Off: []int{0, 0}, At: at, Mode: m})
			}
		}
	}

	// pictures that cannot be written
	empty := tr.Content{K: "px", F: "nrgba", W: 0, H: 3, L: []tr.Layer{}, P: [][]int{}}

	for i := 0; i < 20*g.K; i++ {
		ls := g.Tree(tr.TreeOpt{Formats: tr.Formats, Modes: []string{"Normal"}, Depth: 2, Width: 3, Size: 3, Off: 3, Exact: true, Groups: true})
		bad := tr.Layer{N: "none", B: []int{1, 1, 1, 4}, M: "Normal", C: empty}

		if g.Intn(2) == 0 {
			bad.C = tr.Content{K: "px", F: "gray", W: 4, H: 0, L: []tr.Layer{}, P: [][]int{}}
			bad.B = []int{1, 1, 5, 1}
		}

		p := &ls

		for g.Intn(2) == 0 {
			var q *[]tr.Layer

			for n := range *p {
				if (*p)[n].C.K == "grp" {
					q = &(*p)[n].C.L
				}
			}

			if q == nil {
				break
			}

			p = q
		}

		k := g.Intn(len(*p) + 1)
		*p = append((*p)[:k:k], append([]tr.Layer{bad}, (*p)[k:]...)...)

		g.Add("ofault", &faultEv{Kind: "image", L: ls, Off: []int{0, 0}, Mode: "none", Bad: 1})
	}

	g.Add("ofault", &faultEv{Kind: "image", L: []tr.Layer{}, Off: []int{0, 0}, Mode: "none", Bad: 1})
}

// ---- behaviours of the specification

func scale(ls []tr.Layer) {
	for n := range ls {
		ls[n].T *= 255
		scaleContent(&ls[n].C)
	}
}

func scaleContent(c *tr.Content) {
	scale(c.L)

	for _, p := range c.P {
		for k := range p {
			p[k] *= 255
		}
	}

	for k := range c.MP {
		c.MP[k] *= 255
	}

	if c.C != nil {
		scaleContent(c.C)
	}

	if c.L == nil {
		c.L = []tr.Layer{}
	}
}

func beh(tg *tr.Gen, kind string, line []byte) {
	g := gen{tg}

	switch kind {
	case "doc":
		e := &docEv{Mime: "ok", Stack: 1}
		tr.Check(json.Unmarshal(line, e))

		for n := range e.Srcs {
			scaleContent(&e.Srcs[n].C)
			e.Srcs[n].H = "text"
		}

		for n := range e.Toks {
			if e.Toks[n].A == nil {
				e.Toks[n].A = []attr{}
			}
		}

		g.shorten(e.Toks)
		g.Add("odoc", e)
	case "rt", "enc":
		var ls []tr.Layer

		tr.Check(json.Unmarshal(line, &ls))
		scale(ls)

		if kind == "rt" {
			g.Add("ort", &rtEv{Kind: "image", L: ls, Off: []int{0, 0}})
		} else {
			g.Add("oenc", &encEv{Kind: "image", L: ls, Off: []int{0, 0}, Thumb: 1})
		}
	}
}

// huge adds documents of these kinds, of so many and of a few.
func (g gen) huge(cut int, ks ...any) {
	for i := 0; i < len(ks); i += 2 {
		n := ks[i+1].(int)

		g.Add("ohuge", &hugeEv{Kind: ks[i].(string), N: n, Cut: cut})
		g.Add("ohuge", &hugeEv{Kind: ks[i].(string), N: 1 + g.Intn(min(n, 300)), Cut: cut})
	}
}
