// Command core exercises the limage and lcolor packages and records what they
// do as events for the specification (spec/TraceCore.tla) to judge.
//
//	core gen PROP SEED TIER PREFIX N   events chosen by the driver
//	core beh FILE PREFIX N             behaviours generated from the specification
//	core exec FILE PREFIX N            the inputs of recorded events, executed again
package main

import (
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"os"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zverif/tr"
)

type event interface{ Run() }

type head struct {
	Op    string `json:"op"`
	S     int    `json:"s"`
	Panic string `json:"panic"`
}

// ---- comp, alph: one composition

type compEv struct {
	head
	M  string    `json:"m"`
	B  tr.Colour `json:"b"`
	T  tr.Colour `json:"t"`
	BN []int     `json:"bn"`
	TN []int     `json:"tn"`
	R  []int     `json:"r"`
}

func (e *compEv) Run() {
	b, t := e.B.Go(), e.T.Go()
	e.BN, e.TN = tr.N64(b), tr.N64(t)
	e.Panic = tr.Safe(func() { e.R = tr.N64(tr.Modes[e.M].Composite(b, t)) })
}

// ---- diss: many evaluations of Dissolve

type dissEv struct {
	head
	How string    `json:"how"`
	B   tr.Colour `json:"b"`
	T   tr.Colour `json:"t"`
	BN  []int     `json:"bn"`
	TN  []int     `json:"tn"`
	N   int       `json:"n"`
	CB  int       `json:"cb"`
	CT  int       `json:"ct"`
}

type one struct{ c color.Color }

func (o one) ColorModel() color.Model { return color.NRGBA64Model }
func (o one) Bounds() image.Rectangle { return image.Rect(0, 0, 1, 1) }
func (o one) At(int, int) color.Color { return o.c }

func (e *dissEv) Run() {
	b, t := e.B.Go(), e.T.Go()
	e.BN, e.TN = tr.N64(b), tr.N64(t)
	e.CB, e.CT = 0, 0
	op := append(append([]int{}, e.TN[:3]...), 65535)
	im := limage.Image{
		{LayerBounds: image.Rect(0, 0, 1, 1), Mode: limage.CompositeDissolve, Image: one{t}},
		{LayerBounds: image.Rect(0, 0, 1, 1), Image: one{b}},
	}

	e.Panic = tr.Safe(func() {
		for i := 0; i < e.N; i++ {
			var c []int

			if e.How == "image" {
				c = tr.N64(im.At(0, 0))
			} else {
				c = tr.N64(limage.CompositeDissolve.Composite(b, t))
			}

			if eq(c, op) {
				e.CT++
			} else if eq(c, e.BN) || c[3] == 0 && e.BN[3] == 0 {
				e.CB++
			}
		}
	})
}

func eq(a, b []int) bool {
	for n := range a {
		if a[n] != b[n] {
			return false
		}
	}

	return true
}

// ---- col: a colour and its projections

type colEv struct {
	head
	C   tr.Colour `json:"c"`
	NN  []int     `json:"nn"`
	Pre []int     `json:"pre"`
}

func (e *colEv) Run() {
	e.Panic = tr.Safe(func() {
		c := e.C.Go()
		e.NN, e.Pre = tr.N64(c), tr.Pre(c)
	})
}

// ---- hsv: to HSV and HSL and back

type hsvEv struct {
	head
	C   tr.Colour `json:"c"`
	N   []int     `json:"n"`
	HSV []int     `json:"hsv"`
	HSL []int     `json:"hsl"`
	BV  []int     `json:"bv"`
	BL  []int     `json:"bl"`
}

func (e *hsvEv) Run() {
	e.Panic = tr.Safe(func() {
		c := e.C.Go()
		v, l := lcolor.RGBToHSV(c), lcolor.RGBToHSL(c)
		e.N = tr.N64(c)
		e.HSV = []int{int(v.H), int(v.S), int(v.V), int(v.A)}
		e.HSL = []int{int(l.H), int(l.S), int(l.L), int(l.A)}
		e.BV, e.BL = tr.N64(v), tr.N64(l)
	})
}

// ---- conv: a colour model

type convEv struct {
	head
	Model string    `json:"model"`
	C     tr.Colour `json:"c"`
	N     []int     `json:"n"`
	Pre   []int     `json:"pre"`
	K     string    `json:"k"`
	R     []int     `json:"r"`
	R2    []int     `json:"r2"`
}

func fields(c color.Color) (string, []int) {
	switch c := c.(type) {
	case lcolor.RGB:
		return "lrgb", []int{int(c.R), int(c.G), int(c.B)}
	case lcolor.GrayAlpha:
		return "lgraya", []int{int(c.Y), int(c.A)}
	}

	return fmt.Sprintf("%T", c), tr.N64(c)
}

func (e *convEv) Run() {
	e.Panic = tr.Safe(func() {
		c := e.C.Go()
		e.N, e.Pre = tr.N64(c), tr.Pre(c)
		m := lcolor.RGBModel

		if e.Model == "lgraya" {
			m = lcolor.GrayAlphaModel
		}

		r := m.Convert(c)
		e.K, e.R = fields(r)
		_, e.R2 = fields(m.Convert(r))
	})
}

// ---- pal: the alpha palette

type palEv struct {
	head
	PL  [][]int   `json:"pl"`
	C   tr.Colour `json:"c"`
	N   []int     `json:"n"`
	I   int       `json:"i"`
	CV  []int     `json:"cv"`
	CV2 []int     `json:"cv2"`
	SI  int       `json:"si"`
	SA  int       `json:"sa"`
}

func (e *palEv) Run() {
	e.Panic = tr.Safe(func() {
		ap := lcolor.AlphaPalette(tr.Palette(e.PL))
		c := e.C.Go()
		e.N = tr.N64(c)
		e.I = ap.Index(c)
		v := ap.Convert(c)
		e.CV, e.CV2 = tr.N64(v), tr.N64(ap.Convert(v))
		im := limage.NewPalettedAlpha(image.Rect(0, 0, 1, 1), ap)
		im.Set(0, 0, c)
		ia := im.IndexAlphaAt(0, 0)
		e.SI, e.SA = int(ia.I), int(ia.A)
	})
}

// ---- at: a layered image looked at

type obs struct {
	V   []int   `json:"v"`
	Acc [][]int `json:"acc"`
	Lay []lobs  `json:"lay"`
	C   *obs    `json:"c,omitempty"`
}

type lobs struct {
	On int   `json:"on"`
	V  []int `json:"v"`
	C  *obs  `json:"c,omitempty"`
}

type atPt struct {
	X int  `json:"x"`
	Y int  `json:"y"`
	O *obs `json:"o"`
}

type atEv struct {
	head
	L   []tr.Layer `json:"l"`
	Pts []atPt     `json:"pts"`
}

func look(c *tr.Content, im image.Image, x, y int) *obs {
	o := &obs{V: tr.N64(im.At(x, y)), Acc: [][]int{}, Lay: []lobs{}}

	switch c.K {
	case "msk":
		o.C = look(c.C, im.(limage.MaskedImage).Image, x, y)
	case "txt":
		o.C = look(c.C, im.(limage.Text).Image, x, y)
	case "grp":
		g := im.(limage.Image)
		h := append(limage.Image{}, g...)
		o.Acc = [][]int{tr.N64(h.At(x, y))}

		for n, l := range g {
			h[n].Invisible = true
			o.Acc = append(o.Acc, tr.N64(h.At(x, y)))
			lo := lobs{V: []int{0, 0, 0, 0}}

			if !l.Invisible && image.Pt(x, y).In(tr.Rect(c.L[n].B)) {
				lo.On = 1
				lo.V = tr.N64(l.At(x, y))
				lo.C = look(&c.L[n].C, l.Image, x-c.L[n].B[0], y-c.L[n].B[1])
			}

			o.Lay = append(o.Lay, lo)
		}
	}

	return o
}

func (e *atEv) Run() {
	e.Panic = tr.Safe(func() {
		root := tr.Content{K: "grp", L: e.L}
		im := tr.Image(e.L)

		for n, p := range e.Pts {
			e.Pts[n].O = look(&root, im, p.X, p.Y)
		}
	})
}

// ---- dlay: a layer that dissolves, and what lies below it

type dlayEv struct {
	head
	How string     `json:"how"`
	L   []tr.Layer `json:"l"`
	K   int        `json:"k"`
	X   int        `json:"x"`
	Y   int        `json:"y"`
	O   *obs       `json:"o"`
	N   int        `json:"n"`
	CB  int        `json:"cb"`
	CT  int        `json:"ct"`
}

func (e *dlayEv) Run() {
	e.CB, e.CT = 0, 0
	e.Panic = tr.Safe(func() {
		im := tr.Image(e.L)
		e.O = look(&tr.Content{K: "grp", L: e.L}, im, e.X, e.Y)

		if e.How == "sub" {
			im = im.SubImage(image.Rect(e.X-1, e.Y-1, e.X+2, e.Y+2)).(limage.Image)
		}

		b, t := e.O.Acc[e.K], append(append([]int{}, e.O.Lay[e.K-1].V[:3]...), 65535)

		for i := 0; i < e.N; i++ {
			switch c := tr.N64(im.At(e.X, e.Y)); {
			case eq(c, t):
				e.CT++
			case eq(c, b) || c[3] == 0 && b[3] == 0:
				e.CB++
			}
		}
	})
}

// ---- sub: sub-images of layered images and layers

type subPt struct {
	X  int   `json:"x"`
	Y  int   `json:"y"`
	Be []int `json:"be"`
	Su []int `json:"su"`
	Af []int `json:"af"`
}

type attr struct {
	N string `json:"n"`
	M string `json:"m"`
	I int    `json:"i"`
	T int    `json:"t"`
}

type subEv struct {
	head
	How  string     `json:"how"`
	L    []tr.Layer `json:"l"`
	Rs   [][]int    `json:"rs"`
	Bs   [][]int    `json:"bs"`
	Attr []attr     `json:"attr"`
	Pts  []subPt    `json:"pts"`
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

func (e *subEv) Run() {
	if e.How != "image" {
		e.L = e.L[:1]
	}

	e.Bs, e.Attr, e.Pts = [][]int{}, []attr{}, []subPt{}
	e.Panic = tr.Safe(func() {
		im := tr.Image(e.L)
		all := image.Rect(-1000000, -1000000, 1000000, 1000000)

		for _, r := range e.Rs {
			all = all.Intersect(tr.Rect(r))
		}

		var (
			shown image.Image
			subs  []limage.Layer
			orig  image.Image = im
		)

		switch e.How {
		case "image":
			s := image.Image(im)

			for _, r := range e.Rs {
				s = s.(interface {
					SubImage(image.Rectangle) image.Image
				}).SubImage(tr.Rect(r))
			}

			shown = s
			subs = s.(limage.Image)
		case "layer":
			l := im[0]

			for _, r := range e.Rs {
				l = l.SubImageLayer(tr.Rect(r))
			}

			shown, orig = l, im[0]
			subs = []limage.Layer{l}
		default: // layerimg
			l := im[0]

			var s image.Image = l

			for _, r := range e.Rs {
				s = s.(interface {
					SubImage(image.Rectangle) image.Image
				}).SubImage(tr.Rect(r))
			}

			shown, orig = s, l

			if sl, ok := s.(limage.Layer); ok {
				subs = []limage.Layer{sl}
			} else {
				subs = []limage.Layer{{Name: l.Name, Mode: l.Mode, Invisible: l.Invisible, Transparency: l.Transparency, LayerBounds: s.Bounds()}}
			}
		}

		for _, l := range subs {
			e.Bs = append(e.Bs, tr.Ints(l.Bounds()))
			e.Attr = append(e.Attr, attr{l.Name, tr.ModeName(l.Mode), b2i(l.Invisible), int(l.Transparency)})
		}

		if e.How != "image" {
			all = all.Intersect(tr.Rect(e.L[0].B))
		} else {
			var u image.Rectangle

			for _, l := range e.L {
				u = u.Union(tr.Rect(l.B))
			}

			all = all.Intersect(u.Inset(-2))
		}

		fresh := tr.Image(e.L)

		var ref image.Image = fresh

		if e.How != "image" {
			ref = fresh[0]
		}

		sx, sy := all.Dx()/9+1, all.Dy()/9+1

		for y := all.Min.Y; y < all.Max.Y; y += sy {
			for x := all.Min.X; x < all.Max.X; x += sx {
				e.Pts = append(e.Pts, subPt{x, y, tr.N64(ref.At(x, y)), tr.N64(shown.At(x, y)), tr.N64(orig.At(x, y))})
			}
		}

		for n, l := range e.L { // and the corners
			for k := 0; k < 4; k++ {
				x, y := l.B[k&2]-1+k%2, l.B[(k&1)*2+1]-(k+n)%2

				if image.Pt(x, y).In(all) {
					e.Pts = append(e.Pts, subPt{x, y, tr.N64(ref.At(x, y)), tr.N64(shown.At(x, y)), tr.N64(orig.At(x, y))})
				}
			}
		}
	})
}

// ---- str: flattened text

type strEv struct {
	head
	Parts []string `json:"parts"`
	R     string   `json:"r"`
}

func (e *strEv) Run() {
	e.Panic = tr.Safe(func() {
		var t limage.TextData

		for _, p := range e.Parts {
			t = append(t, limage.TextDatum{Data: p})
		}

		e.R = t.String()
	})
}

// ---- pix: a session on a pixel image

type snap struct {
	B     []int   `json:"b"`
	Opq   int     `json:"opq"`
	Raw   [][]int `json:"raw"`
	Shown [][]int `json:"shown"`
}

type pixEv struct {
	head
	A    string     `json:"a"`
	Kind string     `json:"kind"`
	B    []int      `json:"b"`
	PL   [][]int    `json:"pl"`
	V    int        `json:"v"`
	X    int        `json:"x"`
	Y    int        `json:"y"`
	R    []int      `json:"r"`
	Val  []int      `json:"val"`
	C    *tr.Colour `json:"c,omitempty"`
	N    []int      `json:"n"`
	Pre  []int      `json:"pre"`
	Got  []int      `json:"got"`
	Opq  int        `json:"opq"` // judge Opaque as well
	Snap []snap     `json:"snap"`
}

type pixImg interface {
	image.Image
	Set(x, y int, c color.Color)
	SubImage(image.Rectangle) image.Image
	Opaque() bool
}

var sess struct {
	b     image.Rectangle
	views []pixImg
}

func rawGet(i pixImg, x, y int) []int {
	switch i := i.(type) {
	case *limage.RGB:
		c := i.RGBAt(x, y)

		return []int{int(c.R), int(c.G), int(c.B)}
	case *limage.GrayAlpha:
		c := i.GrayAlphaAt(x, y)

		return []int{int(c.Y), int(c.A)}
	case *limage.PalettedAlpha:
		c := i.IndexAlphaAt(x, y)

		return []int{int(c.I), int(c.A)}
	}

	return nil
}

func (e *pixEv) Run() {
	if e.R == nil {
		e.R = []int{0, 0, 0, 0}
	}

	if e.Val == nil {
		e.Val = []int{}
	}

	e.N, e.Pre, e.Got = []int{0, 0, 0, 0}, []int{0, 0, 0, 0}, []int{}
	e.Panic = tr.Safe(func() {
		switch e.A {
		case "new":
			sess.b = tr.Rect(e.B)

			switch e.Kind {
			case "rgb":
				sess.views = []pixImg{limage.NewRGB(sess.b)}
			case "graya":
				sess.views = []pixImg{limage.NewGrayAlpha(sess.b)}
			case "pala":
				sess.views = []pixImg{limage.NewPalettedAlpha(sess.b, lcolor.AlphaPalette(tr.Palette(e.PL)))}
			}
		case "raw":
			switch i := sess.views[e.V-1].(type) {
			case *limage.RGB:
				i.SetRGB(e.X, e.Y, lcolor.RGB{R: uint8(e.Val[0]), G: uint8(e.Val[1]), B: uint8(e.Val[2])})
			case *limage.GrayAlpha:
				i.SetGrayAlpha(e.X, e.Y, lcolor.GrayAlpha{Y: uint8(e.Val[0]), A: uint8(e.Val[1])})
			case *limage.PalettedAlpha:
				i.SetIndexAlpha(e.X, e.Y, lcolor.IndexedAlpha{I: uint8(e.Val[0]), A: uint8(e.Val[1])})
			}
		case "col":
			c := e.C.Go()
			e.N, e.Pre = tr.N64(c), tr.Pre(c)
			sess.views[e.V-1].Set(e.X, e.Y, c)
			e.Got = rawGet(sess.views[e.V-1], e.X, e.Y)
		case "back":
			if image.Pt(e.X, e.Y).In(sess.b) {
				v := sess.views[e.V-1]

				if c := v.At(e.X, e.Y); c != nil {
					v.Set(e.X, e.Y, c)
				}
			}
		case "sub":
			sess.views = append(sess.views, sess.views[e.V-1].SubImage(tr.Rect(e.R)).(pixImg))
		}

		e.Snap = nil

		for _, v := range sess.views {
			s := snap{B: tr.Ints(v.Bounds()), Opq: b2i(v.Opaque())}

			for y := sess.b.Min.Y - 1; y <= sess.b.Max.Y; y++ {
				for x := sess.b.Min.X - 1; x <= sess.b.Max.X; x++ {
					s.Raw = append(s.Raw, rawGet(v, x, y))
					s.Shown = append(s.Shown, tr.N64(v.At(x, y)))
				}
			}

			e.Snap = append(e.Snap, s)
		}
	})
}

func blank(op string) event {
	switch op {
	case "comp", "alph":
		return new(compEv)
	case "diss":
		return new(dissEv)
	case "col":
		return new(colEv)
	case "hsv":
		return new(hsvEv)
	case "conv":
		return new(convEv)
	case "pal":
		return new(palEv)
	case "at":
		return new(atEv)
	case "dlay":
		return new(dlayEv)
	case "sub":
		return new(subEv)
	case "meta":
		return new(metaEv)
	case "names":
		return new(namesEv)
	case "str":
		return new(strEv)
	case "pix":
		return new(pixEv)
	case "big":
		return new(bigEv)
	}

	tr.Check(fmt.Errorf("unknown op %q", op))

	return nil
}

func num(s string) int {
	n, err := strconv.Atoi(s)
	tr.Check(err)

	return n
}

func main() {
	a := os.Args[1:]

	if os.Getenv("ZV_JOURNAL") == "" {
		guarded(a[len(a)-2], num(a[len(a)-1]))

		return
	}

	limit()

	jrn = openJournal()

	switch a[0] {
	case "gen":
		out := tr.NewOut(a[4], num(a[5]))
		generate(a[1], int64(num(a[2])), a[3] == "thorough", out)
		out.Close()
	case "beh":
		out := tr.NewOut(a[3], num(a[4]))
		behaviours(a[1], a[2], out)
		out.Close()
	case "exec":
		out := tr.NewOut(a[2], num(a[3]))
		last := -1

		tr.Lines(a[1], func(b []byte) {
			var h head

			tr.Check(json.Unmarshal(b, &h))

			e := blank(h.Op)
			tr.Check(json.Unmarshal(b, e))

			if h.S != last {
				out.Next()
				jrn.session()
				last = h.S
			}

			jrn.run(e)
			out.Put(e)
		})

		out.Close()
	default:
		tr.Check(fmt.Errorf("unknown command %q", a[0]))
	}
}
