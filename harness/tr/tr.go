// Package tr holds what the drivers share: the event format, colour and layer
// tree encodings (the projection between the specification's abstract values
// and limage's concrete ones), and the seeded random source.
package tr

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Colour is a typed colour: K names the Go type, V its fields in order.
type Colour struct {
	K string `json:"k"`
	V []int  `json:"v"`
}

// Go makes the concrete colour.
func (c Colour) Go() color.Color {
	v := c.V
	switch c.K {
	case "nrgba":
		return color.NRGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])}
	case "nrgba64":
		return color.NRGBA64{uint16(v[0]), uint16(v[1]), uint16(v[2]), uint16(v[3])}
	case "rgba":
		return color.RGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])}
	case "rgba64":
		return color.RGBA64{uint16(v[0]), uint16(v[1]), uint16(v[2]), uint16(v[3])}
	case "gray":
		return color.Gray{uint8(v[0])}
	case "gray16":
		return color.Gray16{uint16(v[0])}
	case "alpha":
		return color.Alpha{uint8(v[0])}
	case "alpha16":
		return color.Alpha16{uint16(v[0])}
	case "lrgb":
		return lcolor.RGB{R: uint8(v[0]), G: uint8(v[1]), B: uint8(v[2])}
	case "lgraya":
		return lcolor.GrayAlpha{Y: uint8(v[0]), A: uint8(v[1])}
	case "hsva":
		return lcolor.HSVA{H: uint16(v[0]), S: uint16(v[1]), V: uint16(v[2]), A: uint16(v[3])}
	case "hsla":
		return lcolor.HSLA{H: uint16(v[0]), S: uint16(v[1]), L: uint16(v[2]), A: uint16(v[3])}
	}

	panic("unknown colour kind " + c.K)
}

// N64 projects a colour the code returned onto its non-premultiplied 16-bit
// value, exactly where the type allows it.
func N64(c color.Color) []int {
	switch c := c.(type) {
	case nil:
		return []int{-1, -1, -1, -1}
	case color.NRGBA64:
		return []int{int(c.R), int(c.G), int(c.B), int(c.A)}
	case color.NRGBA:
		return []int{int(c.R) * 257, int(c.G) * 257, int(c.B) * 257, int(c.A) * 257}
	}

	if n, ok := c.(interface{ ToNRGBA() color.NRGBA64 }); ok {
		return N64(n.ToNRGBA())
	}

	return N64(color.NRGBA64Model.Convert(c))
}

// Pre projects a colour onto its premultiplied RGBA() value.
func Pre(c color.Color) []int {
	if c == nil {
		return []int{-1, -1, -1, -1}
	}

	r, g, b, a := c.RGBA()

	return []int{int(r), int(g), int(b), int(a)}
}

// Modes names the composite modes.
var Modes = map[string]limage.Composite{
	"Normal": limage.CompositeNormal, "Dissolve": limage.CompositeDissolve, "Behind": limage.CompositeBehind,
	"Multiply": limage.CompositeMultiply, "Screen": limage.CompositeScreen, "Overlay": limage.CompositeOverlay,
	"Difference": limage.CompositeDifference, "Addition": limage.CompositeAddition, "Subtract": limage.CompositeSubtract,
	"DarkenOnly": limage.CompositeDarkenOnly, "LightenOnly": limage.CompositeLightenOnly, "Hue": limage.CompositeHue,
	"Saturation": limage.CompositeSaturation, "Color": limage.CompositeColor, "Value": limage.CompositeValue,
	"Divide": limage.CompositeDivide, "Dodge": limage.CompositeDodge, "Burn": limage.CompositeBurn,
	"HardLight": limage.CompositeHardLight, "SoftLight": limage.CompositeSoftLight,
	"GrainExtract": limage.CompositeGrainExtract, "GrainMerge": limage.CompositeGrainMerge,
	"Luminosity": limage.CompositeLuminosity, "Plus": limage.CompositePlus,
	"DestinationIn": limage.CompositeDestinationIn, "DestinationOut": limage.CompositeDestinationOut,
	"SourceAtop": limage.CompositeSourceAtop, "DestinationAtop": limage.CompositeDestinationAtop,
	"ColorErase": limage.CompositeColorErase, "Chroma": limage.CompositeChroma, "Lightness": limage.CompositeLightness,
	"VividLight": limage.CompositeVividLight, "PinLight": limage.CompositePinLight,
	"LinearLight": limage.CompositeLinearLight, "HardMix": limage.CompositeHardMix,
	"Exclusion": limage.CompositeExclusion, "LinearBurn": limage.CompositeLinearBurn,
	"Luminance": limage.CompositeLuminance, "Erase": limage.CompositeErase, "Merge": limage.CompositeMerge,
	"Split": limage.CompositeSplit, "PassThrough": limage.CompositePassThrough,
}

var modeNames = func() map[limage.Composite]string {
	m := make(map[limage.Composite]string)

	for n, c := range Modes {
		m[c] = n
	}

	return m
}()

// ModeName gives the specification's name of a mode.
func ModeName(c limage.Composite) string {
	if n, ok := modeNames[c]; ok {
		return n
	}

	return fmt.Sprintf("mode%d", c)
}

// AllModes lists the mode names in numeric order.
var AllModes = func() []string {
	ms := make([]string, len(Modes))

	for n, c := range Modes {
		ms[c] = n
	}

	return ms
}()

// Content is what a layer holds. K: px (pixels), grp (group), msk (masked), txt (text).
type Content struct {
	K  string   `json:"k"`
	F  string   `json:"f,omitempty"`  // px: pixel format
	W  int      `json:"w,omitempty"`  // px
	H  int      `json:"h,omitempty"`  // px
	P  [][]int  `json:"p,omitempty"`  // px: raw pixels, row major, from the first again where they end
	PL [][]int  `json:"pl,omitempty"` // px: palette, 8-bit r,g,b
	L  []Layer  `json:"l"`            // grp: layers
	C  *Content `json:"c,omitempty"`  // msk, txt
	MB []int    `json:"mb,omitempty"` // msk: mask bounds
	MP []int    `json:"mp,omitempty"` // msk: mask values, from the first again where they end
	S  []Datum  `json:"s,omitempty"`  // txt
	PT int      `json:"pt,omitempty"` // grp, msk, txt: held by pointer
	ID int      `json:"id"`           // px: can be stored to in a session
}

// Datum is one piece of styled text.
type Datum struct {
	D  string `json:"d"`
	F  string `json:"f"`
	Z  int    `json:"z"`
	FG []int  `json:"fg"`
	BG []int  `json:"bg"`
	LS int    `json:"ls"`
	R  int    `json:"r"`
	B  int    `json:"bold"`
	I  int    `json:"ital"`
	U  int    `json:"und"`
	ST int    `json:"str"`
	DB Bytes  `json:"db"` // the bytes of D
	FB Bytes  `json:"fb"` // the bytes of F
}

// Bytes is written as a list of numbers.
type Bytes []byte

// MarshalJSON writes the list.
func (b Bytes) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 4*len(b)+2)
	o = append(o, '[')

	for n, v := range b {
		if n > 0 {
			o = append(o, ',')
		}

		o = strconv.AppendInt(o, int64(v), 10)
	}

	return append(o, ']'), nil
}

// UnmarshalJSON reads it.
func (b *Bytes) UnmarshalJSON(d []byte) error {
	var is []int

	if err := json.Unmarshal(d, &is); err != nil {
		return err
	}

	*b = make(Bytes, len(is))

	for n, v := range is {
		(*b)[n] = byte(v)
	}

	return nil
}

// Layer is one layer.
type Layer struct {
	N string  `json:"n"`
	B []int   `json:"b"`
	M string  `json:"m"`
	I int     `json:"i"`
	T int     `json:"t"`
	C Content `json:"c"`
}

// Rect makes a rectangle without reordering its corners.
func Rect(b []int) image.Rectangle {
	return image.Rectangle{Min: image.Pt(b[0], b[1]), Max: image.Pt(b[2], b[3])}
}

// Ints lists a rectangle.
func Ints(r image.Rectangle) []int {
	return []int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y}
}

// Palette makes a palette of opaque colours.
func Palette(pl [][]int) color.Palette {
	p := make(color.Palette, len(pl))

	for n, c := range pl {
		p[n] = lcolor.RGB{R: uint8(c[0]), G: uint8(c[1]), B: uint8(c[2])}
	}

	return p
}

func bools(n int) bool { return n != 0 }

// Go makes the concrete image of a content.
func (c *Content) Go() image.Image {
	switch c.K {
	case "grp":
		im := Image(c.L)

		if c.PT > 1 && len(im) == 0 {
			im = nil
		}

		if c.PT&1 == 1 {
			return &im
		}

		return im
	case "msk":
		r := Rect(c.MB)
		m := image.NewGray(r)

		for n := range m.Pix {
			m.Pix[n] = uint8(c.MP[n%len(c.MP)])
		}

		mi := limage.MaskedImage{Image: c.C.Go(), Mask: m}

		if c.PT == 1 {
			return &mi
		}

		return mi
	case "txt":
		t := limage.Text{Image: c.C.Go()}

		for _, d := range c.S {
			t.TextData = append(t.TextData, d.Go())
		}

		if c.PT == 1 {
			return &t
		}

		return t
	}

	r := image.Rect(0, 0, c.W, c.H)

	switch c.F {
	case "nrgba":
		im := image.NewNRGBA(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			for k, v := range p {
				im.Pix[4*n+k] = uint8(v)
			}
		}

		return im
	case "rgba":
		im := image.NewRGBA(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			for k, v := range p {
				im.Pix[4*n+k] = uint8(v)
			}
		}

		return im
	case "grad", "ggray":
		return grad(c, r)
	case "tiled":
		im := image.NewNRGBA(r)

		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				p := c.P[(x/64+5*(y/64))%len(c.P)]
				im.SetNRGBA(x, y, color.NRGBA{uint8(p[0]), uint8(p[1]), uint8(p[2]), uint8(p[3])})
			}
		}

		return im
	case "nrgba64":
		im := image.NewNRGBA64(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.SetNRGBA64(n%c.W, n/c.W, color.NRGBA64{uint16(p[0]), uint16(p[1]), uint16(p[2]), uint16(p[3])})
		}

		return im
	case "gray":
		im := image.NewGray(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.Pix[n] = uint8(p[0])
		}

		return im
	case "lrgb":
		im := limage.NewRGB(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.Pix[n] = lcolor.RGB{R: uint8(p[0]), G: uint8(p[1]), B: uint8(p[2])}
		}

		return im
	case "lgraya":
		im := limage.NewGrayAlpha(r)

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.Pix[n] = lcolor.GrayAlpha{Y: uint8(p[0]), A: uint8(p[1])}
		}

		return im
	case "pal":
		im := image.NewPaletted(r, Palette(c.PL))

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.Pix[n] = uint8(p[0])
		}

		return im
	case "pala":
		im := limage.NewPalettedAlpha(r, lcolor.AlphaPalette(Palette(c.PL)))

		for n := 0; n < c.W*c.H; n++ {
			p := c.P[n%len(c.P)]

			im.Pix[n] = lcolor.IndexedAlpha{I: uint8(p[0]), A: uint8(p[1])}
		}

		return im
	}

	panic("unknown pixel format " + c.F)
}

// grad makes a large picture given by a function of the coordinates (PixN in Compose.tla).
func grad(c *Content, r image.Rectangle) image.Image {
	k, al := c.P[0][0], c.P[0][1]
	a := func(x, y int) uint8 {
		if al == 0 {
			return 255
		}

		return uint8(x*3 + y*5 + al)
	}

	if c.F == "ggray" {
		im := limage.NewGrayAlpha(r)

		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				im.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: uint8(x*3 + y*7 + k), A: a(x, y)})
			}
		}

		return im
	}

	im := image.NewNRGBA(r)

	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			im.SetNRGBA(x, y, color.NRGBA{uint8(x + k), uint8(y), uint8((x/256)*7 + (y/256)*11 + k), a(x, y)})
		}
	}

	return im
}

// Go makes the concrete text datum.
func (d Datum) Go() limage.TextDatum {
	t := limage.TextDatum{
		Data: d.D, Font: d.F, Size: uint32(d.Z), LetterSpacing: uint32(d.LS), Rise: uint32(d.R),
		ForeColor: lcolor.RGB{R: uint8(d.FG[0]), G: uint8(d.FG[1]), B: uint8(d.FG[2])},
		BackColor: color.Alpha{},
		Bold:      bools(d.B), Italic: bools(d.I), Underline: bools(d.U), Strikethrough: bools(d.ST),
	}

	if len(d.BG) == 4 && d.BG[3] == 255 { // one that is not seen through
		t.BackColor = lcolor.RGB{R: uint8(d.BG[0]), G: uint8(d.BG[1]), B: uint8(d.BG[2])}
	}

	return t
}

// Go makes the concrete layer.
func (l *Layer) Go() limage.Layer {
	return limage.Layer{
		Name: l.N, LayerBounds: Rect(l.B), Mode: Modes[l.M], Invisible: bools(l.I), Transparency: uint8(l.T),
		Image: l.C.Go(),
	}
}

// Image makes the concrete layered image.
func Image(ls []Layer) limage.Image {
	im := make(limage.Image, len(ls))

	for n := range ls {
		im[n] = ls[n].Go()
	}

	return im
}

// Safe runs f and returns "" or the text of the panic it raised.
func Safe(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)

			if os.Getenv("ZVERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
	}()

	f()

	return ""
}

// Rng is the seeded random source of the drivers.
type Rng struct{ *rand.Rand }

// NewRng makes a source from the seed and a salt.
func NewRng(seed int64, salt string) Rng {
	h := int64(1469598103934665603)

	for _, c := range salt {
		h = (h ^ int64(c)) * 1099511628211
	}

	return Rng{rand.New(rand.NewSource(seed*7919 + h))}
}

// Pick chooses one element.
func Pick[T any](r Rng, v []T) T { return v[r.Intn(len(v))] }

// Out writes events, spread round robin over n files so that they can be
// validated in parallel; consecutive events of one group stay together.
type Out struct {
	files []*os.File
	ws    []*bufio.Writer
	cur   int
	N     int
}

// NewOut opens prefix.0.ndjson .. prefix.(n-1).ndjson.
func NewOut(prefix string, n int) *Out {
	o := new(Out)

	for i := 0; i < n; i++ {
		f, err := os.Create(fmt.Sprintf("%s.%d.ndjson", prefix, i))
		Check(err)

		o.files = append(o.files, f)
		o.ws = append(o.ws, bufio.NewWriterSize(f, 1<<20))
	}

	return o
}

// Next starts a new group.
func (o *Out) Next() { o.cur = (o.cur + 1) % len(o.ws) }

// Put writes one event.
func (o *Out) Put(v any) {
	b, err := json.Marshal(v)
	Check(err)

	o.ws[o.cur].Write(noNulls(b))
	o.ws[o.cur].WriteByte('\n')

	o.N++
}

// noNulls makes empty lists of the nulls an event that was broken off leaves.
func noNulls(b []byte) []byte {
	if !bytes.Contains(b, []byte("null")) {
		return b
	}

	o := make([]byte, 0, len(b))
	str := false

	for n := 0; n < len(b); n++ {
		switch {
		case str && b[n] == '\\':
			o = append(o, b[n])
			n++
		case b[n] == '"':
			str = !str
		case !str && bytes.HasPrefix(b[n:], []byte("null")):
			o = append(o, '[', ']')
			n += 3

			continue
		}

		o = append(o, b[n])
	}

	return o
}

// Close flushes.
func (o *Out) Close() {
	for n, w := range o.ws {
		Check(w.Flush())
		Check(o.files[n].Close())
	}
}

// Check stops the driver on an infrastructure error (never on a behaviour of the code under test).
func Check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver error:", err)
		os.Exit(3)
	}
}

// Lines reads an ndjson file.
func Lines(name string, f func([]byte)) {
	fh, err := os.Open(name)
	Check(err)

	defer fh.Close()

	s := bufio.NewScanner(fh)
	s.Buffer(make([]byte, 1<<20), 1<<30)

	for s.Scan() {
		if len(s.Bytes()) > 0 {
			f(s.Bytes())
		}
	}

	Check(s.Err())
}
