// Command xcfd exercises the xcf package and records what it does as events
// for the specification (spec/TraceXcf.tla) to judge.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"image"
	"image/color"
	"io"
	"os"
	"reflect"
	"runtime"
	"time"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

const (
	ptsPerLayer = 30
	ptsPerTree  = 3000
)

func errStr(err error) string {
	if err == nil {
		return ""
	}

	if s := err.Error(); s != "" {
		return s
	}

	return "error"
}

// seeker hides every other ability of a reader.
type seeker struct{ r *bytes.Reader }

func (s seeker) Read(p []byte) (int, error)                { return s.r.Read(p) }
func (s seeker) Seek(off int64, whence int) (int64, error) { return s.r.Seek(off, whence) }

// at hides every other ability of a positional reader.
type at struct{ r *bytes.Reader }

func (s at) ReadAt(p []byte, off int64) (int, error) { return s.r.ReadAt(p, off) }

func source(via string, b []byte) io.Reader {
	r := bytes.NewReader(b)

	switch via {
	case "seek":
		return seeker{r}
	case "bufio":
		return bufio.NewReader(r)
	case "bufseek":
		return bufio.NewReaderSize(seeker{r}, 16)
	}

	return r
}

var errNotLayered = errors.New("not a layered image")

func decode(via string, b []byte) (limage.Image, error) {
	if via == "at" {
		return xcf.Decode(at{bytes.NewReader(b)})
	}

	im, _, err := image.Decode(source(via, b))
	if err != nil {
		if im != nil && !(reflect.ValueOf(im).Kind() == reflect.Slice && reflect.ValueOf(im).IsNil()) {
			return limage.Image{}, err
		}

		return nil, err
	}

	l, ok := im.(limage.Image)
	if !ok {
		return nil, errNotLayered
	}

	return l, nil
}

func decodeConfig(via string, b []byte) (image.Config, error) {
	if via == "at" {
		return xcf.DecodeConfig(at{bytes.NewReader(b)})
	}

	c, _, err := image.DecodeConfig(source(via, b))

	return c, err
}

// cost measures what f takes: kilobytes allocated and milliseconds of processor time.
func cost(f func()) (int, int) {
	var a, b runtime.MemStats

	runtime.ReadMemStats(&a)

	ms := tr.CPU(f)

	runtime.ReadMemStats(&b)

	return int((b.TotalAlloc - a.TotalAlloc) >> 10), ms
}

// ---- xdec: the bytes of a file and what becomes of them

type access struct {
	LP []int `json:"lp"` // the layer: its place in every group on the way to it
	X  int   `json:"x"`
	Y  int   `json:"y"`
	C  []int `json:"c"`
	C2 []int `json:"c2"`
}

type decEv struct {
	tr.Head
	B      tr.Bytes    `json:"b"`
	Via    string      `json:"via"`
	Reps   int         `json:"reps"`
	Pts    int         `json:"npts"` // points looked at per layer, 0 for the usual number
	Acc    []access    `json:"acc"`
	Note   string      `json:"note"`
	Strict int         `json:"strict"` // must contradictions be refused
	Dec    string      `json:"dec"`
	Img    int         `json:"img"`
	Out    []tr.OLayer `json:"out"`
	Dec2   string      `json:"dec2"`
	Img2   int         `json:"img2"`
	Out2   []tr.OLayer `json:"out2"`
	Diff   int         `json:"diff"` // repetitions with another result
	Cfg    string      `json:"cfg"`
	WH     []int       `json:"wh"`
	CM     string      `json:"cm"`
	Pal    [][]int     `json:"pal"`
	KB     int         `json:"kb"`
	MS     int         `json:"ms"`
}

func model(m color.Model) (string, [][]int) {
	pal := [][]int{}
	add := func(cs []color.Color) {
		for _, c := range cs {
			v := tr.N64(c)
			pal = append(pal, []int{v[0] / 257, v[1] / 257, v[2] / 257})
		}
	}

	switch m := m.(type) {
	case lcolor.AlphaPalette:
		add(m)

		return "pal", pal
	case color.Palette:
		add(m)

		return "pal", pal
	case nil:
		return "nil", pal
	}

	switch m {
	case color.NRGBAModel:
		return "nrgba", pal
	case lcolor.GrayAlphaModel:
		return "graya", pal
	}

	return "other", pal
}

// find goes to a layer's picture.
func find(im limage.Image, lp []int) image.Image {
	for n, k := range lp {
		if k < 0 || k >= len(im) {
			return nil
		}

		c := im[k].Image

		for done := false; !done; {
			switch t := c.(type) {
			case limage.MaskedImage:
				c = t.Image
			case limage.Text:
				c = t.Image
			default:
				done = true
			}
		}

		if n == len(lp)-1 {
			if _, ok := c.(limage.Image); ok {
				return nil
			}

			return c
		}

		g, ok := c.(limage.Image)
		if !ok {
			return nil
		}

		im = g
	}

	return nil
}

func observe(im limage.Image) []tr.OLayer { return observeN(im, 0) }

func observeN(im limage.Image, per int) []tr.OLayer {
	if per > 0 {
		return tr.Observe(im, per)
	}

	n := 0

	var count func(im limage.Image)

	count = func(im limage.Image) {
		for _, l := range im {
			n++

			switch t := l.Image.(type) {
			case limage.Image:
				count(t)
			case limage.MaskedImage:
				if g, ok := t.Image.(limage.Image); ok {
					count(g)
				}
			}
		}
	}
	count(im)

	return tr.Observe(im, min(ptsPerLayer, max(3, ptsPerTree/max(1, n))))
}

func (e *decEv) Run() {
	e.Out, e.Out2, e.WH, e.Pal = []tr.OLayer{}, []tr.OLayer{}, []int{0, 0}, [][]int{}
	e.Dec, e.Dec2, e.Cfg, e.CM = "", "", "", ""
	e.Img, e.Img2, e.Diff = 0, 0, 0

	if e.Acc == nil {
		e.Acc = []access{}
	}

	if e.Via == "" {
		e.Via = "at"
	}

	var (
		c         image.Config
		im, im2   limage.Image
		err, err2 error
	)

	kb0, ms0 := cost(func() { c, err = decodeConfig(e.Via, e.B) })
	e.Cfg = errStr(err)

	if err == nil {
		e.WH = []int{c.Width, c.Height}
		e.CM, e.Pal = model(c.ColorModel)
	}

	kb1, ms1 := cost(func() { im, err = decode(e.Via, e.B) })
	kb2, ms2 := cost(func() { im2, err2 = xcf.DecodeCompressed(at{bytes.NewReader(e.B)}) })
	e.KB, e.MS = max(kb0, kb1, kb2), max(ms0, ms1, ms2)
	e.Dec, e.Dec2 = errStr(err), errStr(err2)
	e.Img, e.Img2 = tr.B2I(im != nil), tr.B2I(im2 != nil)

	if err2 == nil {
		for n := range e.Acc {
			a := &e.Acc[n]
			a.C, a.C2 = []int{}, []int{}

			if p := find(im2, a.LP); p != nil {
				a.C2 = tr.N64(p.At(a.X, a.Y))
			}
		}

		e.Out2 = observeN(im2, e.Pts)
	}

	if err == nil {
		e.Out = observeN(im, e.Pts)

		for n := range e.Acc {
			a := &e.Acc[n]
			a.C = []int{}

			if p := find(im, a.LP); p != nil {
				a.C = tr.N64(p.At(a.X, a.Y))
			}
		}

		// the image as a whole must be readable as well
		b := im.Bounds()
		im.ColorModel()

		for _, p := range tr.Points(min(b.Dx(), 4096), min(b.Dy(), 4096), 6) {
			im.At(b.Min.X+p[0], b.Min.Y+p[1])
		}
	}

	if err2 == nil {
		b := im2.Bounds()
		im2.ColorModel()

		for _, p := range tr.Points(min(b.Dx(), 4096), min(b.Dy(), 4096), 6) {
			im2.At(b.Min.X+p[0], b.Min.Y+p[1])
		}
	}

	for n := 0; n < e.Reps; n++ {
		old := runtime.GOMAXPROCS(1 + n%8)
		again, err := decode("at", e.B)

		runtime.GOMAXPROCS(old)

		if (err == nil) != (e.Dec == "") {
			e.Diff++
		} else if err == nil {
			a, _ := json.Marshal(observeN(again, e.Pts))
			b, _ := json.Marshal(e.Out)

			if !bytes.Equal(a, b) {
				e.Diff++
			}
		}
	}
}

func blank(op string) tr.Event {
	switch op {
	case "xdec":
		return new(decEv)
	case "xrt":
		return new(rtEv)
	case "xrle":
		return new(rleEv)
	case "xfault":
		return new(faultEv)
	case "xhuge":
		return new(hugeEv)
	case "xbig":
		return new(bigEv)
	case "xwrote":
		return new(wroteEv)
	case "xform":
		return new(formEv)
	case "xcon":
		return new(conEv)
	}

	return nil
}

func main() {
	d := tr.Driver{
		Blank:    blank,
		Generate: generate,
		Beh:      behave,
		Timeout:  20 * time.Second,
		Effort:   10,
	}

	if os.Getenv("ZV_RACE") != "" {
		d.Timeout = 60 * time.Second
	}

	d.Main()
}
