package main

import (
	"bytes"
	"errors"
	"image"
	"image/color"
	"io"
	"reflect"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

// shifted is a plain image whose bounds do not start at the origin.
type shifted struct {
	image.Image
	d image.Point
}

func (s shifted) Bounds() image.Rectangle { return s.Image.Bounds().Add(s.d) }
func (s shifted) At(x, y int) color.Color { return s.Image.At(x-s.d.X, y-s.d.Y) }

// picture makes the image of an event.
func picture(kind string, ls []tr.Layer, off []int) image.Image {
	switch kind {
	case "image":
		return tr.Image(ls)
	case "pimage":
		im := tr.Image(ls)

		return &im
	case "layer":
		return ls[0].Go()
	case "player":
		l := ls[0].Go()

		return &l
	case "plain":
		return ls[0].C.Go()
	case "shifted":
		return shifted{ls[0].C.Go(), image.Pt(off[0], off[1])}
	}

	panic("unknown kind")
}

var errWriter = errors.New("the destination failed")

// file is a destination that keeps what is written, and may fail.
type file struct {
	b      []byte
	put    []bool
	mode   string // none, stick, once, short, shorterr, fullerr
	at     int    // the write that fails
	writes int
	fails  int
	after  int // bytes accepted after a failure
}

func (f *file) keep(p []byte, off int64) {
	if n := int(off) + len(p); n > len(f.b) {
		f.b = append(f.b, make([]byte, n-len(f.b))...)
		f.put = append(f.put, make([]bool, n-len(f.put))...)
	}

	for n := range p {
		f.put[int(off)+n] = true
	}

	copy(f.b[off:], p)

	if f.fails > 0 {
		f.after += len(p)
	}
}

// WriteAt writes.
func (f *file) WriteAt(p []byte, off int64) (int, error) {
	f.writes++

	if off < 0 || off > 1<<28 {
		return 0, errWriter
	}

	if f.mode == "none" || f.writes < f.at || f.writes > f.at && f.mode != "stick" || len(p) == 0 {
		f.keep(p, off)

		return len(p), nil
	}

	n := 0

	if f.mode == "fullerr" { // an error for bytes that are all there
		f.keep(p, off)

		n = len(p)
	} else if f.mode == "short" || f.mode == "shorterr" {
		n = len(p) / 2
		f.keep(p[:n], off)
	}

	f.fails++

	if f.mode == "short" {
		return n, nil
	}

	return n, errWriter
}

func (f *file) holes() int {
	n := 0

	for _, b := range f.put {
		if !b {
			n++
		}
	}

	return n
}

func space(m color.Model) (int, [][]int) {
	switch m {
	case color.GrayModel, color.Gray16Model, lcolor.GrayAlphaModel:
		return 1, [][]int{}
	}

	if k, pal := model(m); k == "pal" {
		return 2, pal
	}

	return 0, [][]int{}
}

// ---- xrt: written and read back

type rtEv struct {
	tr.Head
	Kind  string      `json:"kind"`
	L     []tr.Layer  `json:"l"`
	Off   []int       `json:"off"`
	Base  int         `json:"base"` // the colour space of the image
	Pal   [][]int     `json:"pal"`
	Enc   string      `json:"enc"`
	B     tr.Bytes    `json:"b"`
	Holes int         `json:"holes"`
	Dec   string      `json:"dec"`
	Out   []tr.OLayer `json:"out"`
	Dec2  string      `json:"dec2"`
	Out2  []tr.OLayer `json:"out2"`
	Strs  []tr.Bytes  `json:"strs"` // the flattened texts
	Pts   int         `json:"npts"`
}

// texts lists the flattened strings of the text layers.
func texts(im limage.Image) []tr.Bytes {
	ss := []tr.Bytes{}

	for _, l := range im {
		c := l.Image

		for done := false; !done; {
			switch t := c.(type) {
			case limage.MaskedImage:
				c = t.Image
			case limage.Text:
				ss = append(ss, tr.Bytes(t.String()))
				c = t.Image
			case limage.Image:
				ss = append(ss, texts(t)...)
				done = true
			default:
				done = true
			}
		}
	}

	return ss
}

func (e *rtEv) Run() {
	e.Out, e.Out2, e.B, e.Strs = []tr.OLayer{}, []tr.OLayer{}, tr.Bytes{}, []tr.Bytes{}
	e.Enc, e.Dec, e.Dec2, e.Holes = "", "", "", 0

	m := picture(e.Kind, e.L, e.Off)
	e.Base, e.Pal = space(m.ColorModel())

	f := &file{mode: "none"}

	if e.Enc = errStr(xcf.Encode(f, m)); e.Enc != "" {
		return
	}

	e.B = f.b
	e.Holes = f.holes()

	n := e.Pts
	if n == 0 {
		n = ptsPerLayer
	}

	im, err := decode("at", e.B)

	if e.Dec = errStr(err); err == nil {
		e.Out = tr.Observe(im, n)
		e.Strs = texts(im)
	}

	im, err = xcf.DecodeCompressed(at{bytes.NewReader(e.B)})

	if e.Dec2 = errStr(err); err == nil {
		e.Out2 = tr.Observe(im, n)
	}
}

// ---- xrle: channels written and read back

type rleEv struct {
	tr.Head
	WW   int       `json:"w"`
	HH   int       `json:"h"`
	Ch   [][][]int `json:"ch"` // per channel, runs of value and length
	Enc  string    `json:"enc"`
	B    tr.Bytes  `json:"b"`
	Diff int       `json:"diff"` // pixels that came back differently, 1000000 if nothing did
}

func (e *rleEv) Run() {
	e.B, e.Diff, e.Enc = tr.Bytes{}, 0, ""
	ch := make([][]byte, len(e.Ch))

	for n, rs := range e.Ch {
		for _, r := range rs {
			for i := 0; i < r[1]; i++ {
				ch[n] = append(ch[n], byte(r[0]))
			}
		}
	}

	var im image.Image

	r := image.Rect(0, 0, e.WW, e.HH)

	if len(ch) == 2 {
		g := limage.NewGrayAlpha(r)

		for n := range ch[0] {
			g.SetGrayAlpha(n%e.WW, n/e.WW, lcolor.GrayAlpha{Y: ch[0][n], A: ch[1][n]})
		}

		im = g
	} else {
		g := image.NewNRGBA(r)

		for n := range ch[0] {
			g.SetNRGBA(n%e.WW, n/e.WW, color.NRGBA{ch[0][n], ch[1][n], ch[2][n], ch[3][n]})
		}

		im = g
	}

	f := &file{mode: "none"}

	if e.Enc = errStr(xcf.Encode(f, im)); e.Enc != "" {
		return
	}

	e.B = f.b

	for _, d := range []func(io.ReaderAt) (limage.Image, error){xcf.Decode, xcf.DecodeCompressed} {
		back, err := d(at{bytes.NewReader(f.b)})
		if err != nil || len(back) != 1 || back[0].LayerBounds != r {
			e.Diff = 1000000

			return
		}

		for y := 0; y < e.HH; y++ {
			for x := 0; x < e.WW; x++ {
				if !reflect.DeepEqual(tr.N64(back[0].Image.At(x, y)), tr.N64(im.At(x, y))) {
					e.Diff++
				}
			}
		}
	}
}

// ---- xfault: a destination that fails

type faultEv struct {
	tr.Head
	Kind   string     `json:"kind"`
	L      []tr.Layer `json:"l"`
	Off    []int      `json:"off"`
	Mode   string     `json:"mode"`
	At     int        `json:"at"`
	Err    string     `json:"err"`
	Is     int        `json:"is"` // the error is the destination's
	Writes int        `json:"writes"`
	Fails  int        `json:"fails"`
	After  int        `json:"after"`
	Holes  int        `json:"holes"`
	B      tr.Bytes   `json:"b"` // what was written, when all went well
}

func (e *faultEv) Run() {
	f := &file{mode: e.Mode, at: e.At}
	err := xcf.Encode(f, picture(e.Kind, e.L, e.Off))
	e.Err = errStr(err)
	e.Is = tr.B2I(errors.Is(err, errWriter))
	e.Writes, e.Fails, e.After, e.Holes = f.writes, f.fails, f.after, f.holes()
	e.B = tr.Bytes{}

	if err == nil {
		e.B = f.b
	}
}

// ---- xbig: more than there is room for

type bigEv struct {
	tr.Head
	N   int    `json:"n"`  // layers
	MB  int    `json:"mb"` // length of each one's name, in MB
	Err string `json:"err"`
	Gap int    `json:"gap"` // bytes of the file that were not written just once
	Top int    `json:"top"` // where the file ends, in MB, rounded up
}

// counter is a destination that keeps nothing.
type counter struct{ put, end int64 }

// WriteAt counts.
func (c *counter) WriteAt(p []byte, off int64) (int, error) {
	c.put += int64(len(p))
	c.end = max(c.end, off+int64(len(p)))

	return len(p), nil
}

func (e *bigEv) Run() {
	name := strings.Repeat("n", e.MB<<20)
	im := make(limage.Image, e.N)

	for n := range im {
		im[n] = limage.Layer{Name: name, LayerBounds: image.Rect(0, 0, 1, 1), Image: image.NewGray(image.Rect(0, 0, 1, 1))}
	}

	var c counter

	e.Err = errStr(xcf.Encode(&c, im))
	e.Gap = int(max(-1<<20, min(1<<20, c.end-c.put)))
	e.Top = int((c.end + 1<<20 - 1) >> 20)
}

// ---- xform: the form of what is written

type formEv struct {
	tr.Head
	Kind string     `json:"kind"`
	L    []tr.Layer `json:"l"`
	Off  []int      `json:"off"`
	Enc  string     `json:"enc"`
	B    tr.Bytes   `json:"b"`
}

func (e *formEv) Run() {
	e.B, e.Enc = tr.Bytes{}, ""
	f := &file{mode: "none"}

	if e.Enc = errStr(xcf.Encode(f, picture(e.Kind, e.L, e.Off))); e.Enc == "" {
		e.B = f.b
	}
}
