// Command orad exercises the ora package and records what it does as events
// for the specification (spec/TraceOra.tla) to judge.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"strconv"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zverif/tr"
)

const ptsPerLayer = 40

func errStr(err error) string {
	if err == nil {
		return ""
	}

	if s := err.Error(); s != "" {
		return s
	}

	return "error"
}

// shifted is a plain image whose bounds do not start at the origin.
type shifted struct {
	image.Image
	d image.Point
}

func (s shifted) Bounds() image.Rectangle { return s.Image.Bounds().Add(s.d) }
func (s shifted) At(x, y int) color.Color { return s.Image.At(x-s.d.X, y-s.d.Y) }

// picture makes the image of an event.
func picture(kind string, ls []tr.Layer, off []int) image.Image {
	switch kind {
	case "image":
		return tr.Image(ls)
	case "pimage":
		im := tr.Image(ls)

		return &im
	case "layer":
		return ls[0].Go()
	case "player":
		l := ls[0].Go()

		return &l
	case "plain":
		return ls[0].C.Go()
	case "shifted":
		return shifted{ls[0].C.Go(), image.Pt(off[0], off[1])}
	}

	panic("unknown kind")
}

func unzip(b []byte) (*zip.Reader, error) { return zip.NewReader(bytes.NewReader(b), int64(len(b))) }

func decode(b []byte) (limage.Image, error) {
	z, err := unzip(b)
	if err != nil {
		return nil, fmt.Errorf("zip: %w", err)
	}

	return ora.Decode(z)
}

// ---- ort: written and read back

type rtEv struct {
	tr.Head
	Kind string      `json:"kind"`
	L    []tr.Layer  `json:"l"`
	Off  []int       `json:"off"`
	Enc  string      `json:"enc"`
	Dec  string      `json:"dec"`
	Out  []tr.OLayer `json:"out"`
	Enc2 string      `json:"enc2"`
	Out2 []tr.OLayer `json:"out2"`
	Pic  [][]int     `json:"pic"` // x, y, was, is
}

func (e *rtEv) Run() {
	e.Out, e.Out2, e.Pic = []tr.OLayer{}, []tr.OLayer{}, [][]int{}
	e.Enc, e.Dec, e.Enc2 = "", "", ""

	var b bytes.Buffer

	m := picture(e.Kind, e.L, e.Off)

	if e.Enc = errStr(ora.Encode(&b, m)); e.Enc != "" {
		return
	}

	im, err := decode(b.Bytes())

	if e.Dec = errStr(err); err != nil {
		return
	}

	e.Out = tr.Observe(im, ptsPerLayer)

	if e.Kind != "image" && e.Kind != "pimage" {
		r := m.Bounds()

		for _, p := range tr.Points(r.Dx(), r.Dy(), ptsPerLayer) {
			v := append([]int{p[0], p[1]}, tr.N64(m.At(r.Min.X+p[0], r.Min.Y+p[1]))...)
			e.Pic = append(e.Pic, append(v, tr.N64(im.At(p[0], p[1]))...))
		}
	}

	b.Reset()

	if e.Enc2 = errStr(ora.Encode(&b, im)); e.Enc2 != "" {
		return
	}

	im, err = decode(b.Bytes())

	if e.Enc2 = errStr(err); err != nil {
		return
	}

	e.Out2 = tr.Observe(im, ptsPerLayer)
}

// ---- oenc: what is in the archive

type attr struct {
	K  string `json:"k"`
	V  string `json:"v"`
	N  int    `json:"n"`
	D  int    `json:"d"`
	OK int    `json:"ok"`
}

type tok struct {
	T  string `json:"t"`
	E  string `json:"e"`
	A  []attr `json:"a"`
	V  string `json:"v"`            // x, b: the text
	SC int    `json:"sc,omitempty"` // o: written as an empty element tag with the closing tag that follows
}

type entry struct {
	N     string `json:"n"`
	Store int    `json:"store"`
	Mime  int    `json:"mime"` // content is the mimetype
}

type srcPic struct {
	N   string  `json:"n"`
	Sz  []int   `json:"sz"`
	Pts [][]int `json:"pts"`
}

type cell struct {
	P  []int `json:"p"`
	C  []int `json:"c"`  // the part of the picture looked at
	Lo []int `json:"lo"` // premultiplied extremes over it
	Hi []int `json:"hi"`
	Is []int `json:"is"`
}

type encEv struct {
	tr.Head
	Kind   string     `json:"kind"`
	L      []tr.Layer `json:"l"`
	Off    []int      `json:"off"`
	Thumb  int        `json:"thumb"` // judge the thumbnail's pixels as well
	Enc    string     `json:"enc"`
	Zip    string     `json:"zip"`
	Ents   []entry    `json:"ents"`
	Toks   []tok      `json:"toks"`
	Doc    string     `json:"doc"`
	Srcs   []srcPic   `json:"srcs"`
	WH     []int      `json:"wh"`
	Merged [][]int    `json:"merged"` // x, y, was, is
	MSz    []int      `json:"msz"`
	TSz    []int      `json:"tsz"`
	Cells  []cell     `json:"cells"`
}

var numeric = map[string]bool{"x": true, "y": true, "w": true, "h": true, "opacity": true}

func parseDoc(r io.Reader) ([]tok, error) {
	x := xml.NewDecoder(r)
	ts := []tok{}

	for {
		t, err := x.Token()
		if errors.Is(err, io.EOF) {
			return ts, nil
		} else if err != nil {
			return ts, err
		}

		switch t := t.(type) {
		case xml.StartElement:
			k := tok{T: "o", E: t.Name.Local, A: []attr{}}

			for _, a := range t.Attr {
				v := attr{K: a.Name.Local, V: a.Value, D: 1}

				if numeric[v.K] {
					f, err := strconv.ParseFloat(a.Value, 64)
					v.OK = tr.B2I(err == nil)

					if v.K == "opacity" {
						v.D = 1000000
						v.N = int(f*1000000 + 0.5)
					} else {
						v.N, err = strconv.Atoi(a.Value)
						v.OK = tr.B2I(err == nil)
					}
				}

				k.A = append(k.A, v)
			}

			ts = append(ts, k)
		case xml.EndElement:
			ts = append(ts, tok{T: "c", E: t.Name.Local, A: []attr{}})
		}
	}
}

func entPNG(f *zip.File) (image.Image, error) {
	r, err := f.Open()
	if err != nil {
		return nil, err
	}

	defer r.Close()

	return png.Decode(r)
}

func (e *encEv) Run() {
	e.Ents, e.Toks, e.Srcs, e.Merged, e.Cells = []entry{}, []tok{}, []srcPic{}, [][]int{}, []cell{}
	e.MSz, e.TSz, e.WH = []int{0, 0}, []int{0, 0}, []int{0, 0}
	e.Enc, e.Zip, e.Doc = "", "", ""

	var b bytes.Buffer

	m := picture(e.Kind, e.L, e.Off)

	if e.Enc = errStr(ora.Encode(&b, m)); e.Enc != "" {
		return
	}

	z, err := unzip(b.Bytes())

	if e.Zip = errStr(err); err != nil {
		return
	}

	r := m.Bounds()
	e.WH = []int{r.Dx(), r.Dy()}

	for _, f := range z.File {
		en := entry{N: f.Name, Store: tr.B2I(f.Method == zip.Store)}

		switch {
		case f.Name == "mimetype":
			rd, err := f.Open()
			if err == nil {
				c, err := io.ReadAll(rd)
				en.Mime = tr.B2I(err == nil && string(c) == "image/openraster")
			}
		case f.Name == "stack.xml":
			rd, err := f.Open()
			if err == nil {
				e.Toks, err = parseDoc(rd)
			}

			e.Doc = errStr(err)
		case f.Name == "mergedimage.png":
			if p, err := entPNG(f); err == nil {
				pr := p.Bounds()
				e.MSz = []int{pr.Dx(), pr.Dy()}

				if pr.Size() == r.Size() {
					for _, q := range tr.Points(r.Dx(), r.Dy(), 60) {
						v := append([]int{q[0], q[1]}, tr.N64(m.At(r.Min.X+q[0], r.Min.Y+q[1]))...)
						e.Merged = append(e.Merged, append(v, tr.N64(p.At(q[0], q[1]))...))
					}
				}
			}
		case f.Name == "Thumbnails/thumbnail.png":
			if p, err := entPNG(f); err == nil {
				pr := p.Bounds()
				e.TSz = []int{pr.Dx(), pr.Dy()}
				e.cells(m, p)
			}
		default:
			if p, err := entPNG(f); err == nil {
				pr := p.Bounds()
				e.Srcs = append(e.Srcs, srcPic{N: f.Name, Sz: []int{pr.Dx(), pr.Dy()}, Pts: tr.Look(p, 0, 0, pr.Dx(), pr.Dy(), ptsPerLayer)})
			}
		}

		e.Ents = append(e.Ents, en)
	}
}

func (e *encEv) cells(m, p image.Image) {
	if e.Thumb == 0 {
		return
	}

	r, t := m.Bounds(), p.Bounds()
	w, h, tw, th := r.Dx(), r.Dy(), t.Dx(), t.Dy()

	for _, q := range tr.Points(tw, th, 24) {
		x, y := q[0], q[1]
		c := []int{max(0, x*w/tw-1), max(0, y*h/th-1), min(w, (x+1)*w/tw+2), min(h, (y+1)*h/th+2)}
		lo, hi := []int{1 << 20, 1 << 20, 1 << 20, 1 << 20}, []int{-1, -1, -1, -1}

		for v := c[1]; v < c[3]; v++ {
			for u := c[0]; u < c[2]; u++ {
				for k, n := range tr.Pre(m.At(r.Min.X+u, r.Min.Y+v)) {
					lo[k], hi[k] = min(lo[k], n), max(hi[k], n)
				}
			}
		}

		e.Cells = append(e.Cells, cell{P: []int{x, y}, C: c, Lo: lo, Hi: hi, Is: tr.Pre(p.At(x, y))})
	}
}

// ---- odoc: a stack document decoded

type source struct {
	N  string     `json:"n"`
	OK int        `json:"ok"` // 1: a readable png; 0: broken in the way How says
	H  string     `json:"how"`
	C  tr.Content `json:"c"`
}

type docEv struct {
	tr.Head
	Mime  string      `json:"mime"` // ok, none, wrong, long, short
	Stack int         `json:"stack"`
	Toks  []tok       `json:"toks"`
	Srcs  []source    `json:"srcs"`
	Raw   string      `json:"raw"` // if not empty, the text of the document instead: nothing is known of it
	Cfg   string      `json:"cfg"`
	WH    []int       `json:"wh"`
	Dec   string      `json:"dec"`
	Img   int         `json:"img"` // an image was returned
	Out   []tr.OLayer `json:"out"`
	At    int         `json:"at"`
}

func escape(s string) string {
	var b bytes.Buffer

	xml.EscapeText(&b, []byte(s))

	return b.String()
}

func (a attr) String() string {
	v := a.V

	if numeric[a.K] && a.OK == 1 {
		if a.K == "opacity" {
			v = strconv.FormatFloat(float64(a.N)/float64(a.D), 'f', -1, 64)
		} else {
			v = strconv.Itoa(a.N)
		}
	}

	return fmt.Sprintf(" %s=\"%s\"", a.K, escape(v))
}

// render writes the tokens and where each one ends.
func render(ts []tok) (string, []int) {
	var sb strings.Builder

	ends := make([]int, len(ts))

	for n, t := range ts {
		switch t.T {
		case "o":
			sb.WriteString("<" + t.E)

			for _, a := range t.A {
				sb.WriteString(a.String())
			}

			if t.SC == 1 {
				sb.WriteString("/")
			}

			sb.WriteString(">")
		case "c":
			if n == 0 || ts[n-1].SC == 0 {
				sb.WriteString("</" + t.E + ">")
			}
		case "x":
			if t.V == "" {
				t.V = "<!-- -->"
			}

			sb.WriteString(t.V)
		default:
			sb.WriteString(t.V)
		}

		ends[n] = sb.Len()
	}

	return sb.String(), ends
}

func sourceBytes(s source) []byte {
	var b bytes.Buffer

	tr.Check(png.Encode(&b, s.C.Go()))

	switch {
	case s.OK == 1:
		return b.Bytes()
	case s.H == "cut":
		return b.Bytes()[:b.Len()*2/3]
	case s.H == "head":
		return b.Bytes()[:20]
	case s.H == "empty":
		return nil
	}

	return []byte("this is no picture")
}

func (e *docEv) archive() []byte {
	var b bytes.Buffer

	z := zip.NewWriter(&b)
	put := func(name string, method uint16, c []byte) {
		w, err := z.CreateHeader(&zip.FileHeader{Name: name, Method: method})
		tr.Check(err)
		_, err = w.Write(c)
		tr.Check(err)
	}

	switch e.Mime {
	case "none":
	case "wrong":
		put("mimetype", zip.Store, []byte("image/openrasteR"))
	case "long":
		put("mimetype", zip.Store, []byte("image/openraster\n"))
	case "short":
		put("mimetype", zip.Store, []byte("image/openraste"))
	case "deflated":
		put("mimetype", zip.Deflate, []byte("image/openraster"))
	default:
		put("mimetype", zip.Store, []byte("image/openraster"))
	}

	text := e.Raw
	if text == "" {
		text, _ = render(e.Toks)
	}

	for n, s := range e.Srcs {
		if n == 1 && e.Stack == 1 {
			put("stack.xml", zip.Deflate, []byte(text))
		}

		put(s.N, zip.Deflate, sourceBytes(s))
	}

	if len(e.Srcs) < 2 && e.Stack == 1 {
		put("stack.xml", zip.Deflate, []byte(text))
	}

	tr.Check(z.Close())

	return b.Bytes()
}

func (e *docEv) Run() {
	e.Out, e.WH, e.Img = []tr.OLayer{}, []int{0, 0}, 0
	e.Cfg, e.Dec = "", ""

	b := e.archive()
	z, err := unzip(b)
	tr.Check(err)

	c, err := ora.DecodeConfig(z)
	e.Cfg = errStr(err)
	e.WH = []int{c.Width, c.Height}

	z, err = unzip(b)
	tr.Check(err)

	im, err := ora.Decode(z)
	e.Dec = errStr(err)
	e.Img = tr.B2I(im != nil)

	if err == nil {
		e.Out = tr.Observe(im, ptsPerLayer)
	}
}

// ---- ohuge: documents that are too large to write down, but simply described

type hugeEv struct {
	tr.Head
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Cut  int    `json:"cut"` // the document ends before it closes anything
	Cfg  string `json:"cfg"`
	Dec  string `json:"dec"`
	Img  int    `json:"img"`
	Got  int    `json:"got"` // the depth, or the number of layers, found
	Ms   int    `json:"ms"`
}

func (e *hugeEv) doc() string {
	const layer = `<layer src="p.png"/>`

	body, end := "", ""

	switch e.Kind {
	case "nest":
		body, end = strings.Repeat("<stack>", e.N)+layer, strings.Repeat("</stack>", e.N)
	case "nestnest": // groups that are not the last of theirs
		body, end = strings.Repeat("<stack>"+layer, e.N), strings.Repeat("</stack>", e.N)
	case "layers":
		body = strings.Repeat(layer, e.N)
	case "groups":
		body = strings.Repeat("<stack>"+layer+"</stack>", e.N)
	case "other": // unknown elements within each other
		body, end = strings.Repeat("<x>", e.N), strings.Repeat("</x>", e.N)+layer
	case "inlayer":
		body, end = `<layer src="p.png">`+strings.Repeat("<x>", e.N), strings.Repeat("</x>", e.N)+"</layer>"
	case "attrs":
		body = "<layer" + strings.Repeat(` y="1"`, e.N) + ` src="p.png"/>`
	case "text":
		body = strings.Repeat("x &amp; ", e.N) + layer
	case "comment":
		body = "<!--" + strings.Repeat("x", e.N) + "-->" + layer
	}

	if e.Cut == 1 {
		end = ""
	} else {
		end += "</stack></image>"
	}

	return `<image w="3" h="2"><stack>` + body + end
}

func (e *hugeEv) Run() {
	e.Got, e.Img, e.Cfg, e.Dec = 0, 0, "", ""
	d := docEv{Mime: "ok", Stack: 1, Raw: e.doc(), Srcs: []source{{N: "p.png", OK: 1, C: tr.Content{K: "px", F: "gray", W: 1, H: 1, P: [][]int{{7}}}}}}
	b := d.archive()
	z, err := unzip(b)
	tr.Check(err)

	_, err = ora.DecodeConfig(z)
	e.Cfg = errStr(err)

	var im limage.Image

	e.Ms = tr.CPU(func() {
		z, err = unzip(b)
		tr.Check(err)

		im, err = ora.Decode(z)
	})
	e.Dec = errStr(err)
	e.Img = tr.B2I(im != nil)

	switch e.Kind {
	case "nest", "nestnest":
		for len(im) > 0 {
			g, ok := im[len(im)-1].Image.(limage.Image)
			if !ok {
				break
			}

			im = g
			e.Got++
		}
	default:
		e.Got = len(im)
	}
}

// ---- ofault: a writer that fails

type faultEv struct {
	tr.Head
	Kind  string     `json:"kind"`
	L     []tr.Layer `json:"l"`
	Off   []int      `json:"off"`
	Mode  string     `json:"mode"` // stick, once, short, shorterr, fullerr, none
	At    int        `json:"at"`   // the byte at which writing fails
	Bad   int        `json:"bad"`  // the picture itself cannot be written
	Fails int        `json:"fails"`
	Err   string     `json:"err"`
	Dec   string     `json:"dec"`
	Total int        `json:"total"`
	Same  int        `json:"same"` // what was written is what is written where nothing fails
}

var errWriter = errors.New("the writer failed")

type faulty struct {
	b     bytes.Buffer
	mode  string
	at    int
	fails int
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.mode == "none" || f.fails > 0 && f.mode != "stick" || f.fails == 0 && f.b.Len()+len(p) <= f.at {
		return f.b.Write(p)
	}

	f.fails++

	n := 0

	if f.fails == 1 && f.mode != "stick" {
		n = f.at - f.b.Len()
	}

	switch f.mode {
	case "fullerr": // an error for bytes that are all there
		f.b.Write(p)

		return len(p), errWriter
	case "short", "shorterr":
		f.b.Write(p[:n])

		if f.mode == "short" {
			return n, nil
		}

		return n, errWriter
	}

	return 0, errWriter
}

func (e *faultEv) Run() {
	w := &faulty{mode: e.Mode, at: e.At}
	e.Err = errStr(ora.Encode(w, picture(e.Kind, e.L, e.Off)))
	e.Fails = w.fails
	e.Total = w.b.Len()
	e.Dec, e.Same = "-", 0

	if e.Err == "" {
		var b bytes.Buffer

		err := ora.Encode(&b, picture(e.Kind, e.L, e.Off))
		e.Same = tr.B2I(err == nil && bytes.Equal(b.Bytes(), w.b.Bytes()))
	}

	if e.Err == "" {
		im, err := decode(w.b.Bytes())
		e.Dec = errStr(err)

		if err == nil && im == nil {
			e.Dec = "no image"
		}
	}
}

func blank(op string) tr.Event {
	switch op {
	case "ort":
		return new(rtEv)
	case "oenc":
		return new(encEv)
	case "odoc":
		return new(docEv)
	case "ohuge":
		return new(hugeEv)
	case "ofault":
		return new(faultEv)
	}

	return nil
}

func main() {
	d := tr.Driver{Blank: blank, Generate: generate, Beh: beh, Effort: 10}
	d.Main()
}
