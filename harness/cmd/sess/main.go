// Command sess runs sessions with layered pictures - cropping, saving in either
// format, reading again, storing pixels - for spec/TraceSess.tla to judge.
package main

import (
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"errors"
	"image"
	"image/color"
	"image/draw"
	"sync"
	"time"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

type step struct {
	Do   string      `json:"do"`
	From int         `json:"from"`
	RS   []int       `json:"rs"` // crop: in hundredths of the bounds
	R    []int       `json:"r"`
	ID   int         `json:"id"`
	X    int         `json:"x"`
	Y    int         `json:"y"`
	V    []int       `json:"v"`
	Par  int         `json:"par"` // how many save at once
	Err  string      `json:"err"`
	Sums []string    `json:"sums"`
	Obs  []tr.OLayer `json:"obs"`
}

type sessEv struct {
	tr.Head
	L     []tr.Layer `json:"l"`
	Steps []step     `json:"steps"`
	Races int        `json:"races"` // data races seen
}

type mem struct{ b []byte }

var errFar = errors.New("far beyond the file")

func (m *mem) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 || off > 1<<28 {
		return 0, errFar
	}

	if n := int(off) + len(p); n > len(m.b) {
		m.b = append(m.b, make([]byte, n-len(m.b))...)
	}

	copy(m.b[off:], p)

	return len(p), nil
}

func errStr(err error) string {
	if err == nil {
		return ""
	}

	if s := err.Error(); s != "" {
		return s
	}

	return "error"
}

func encode(do string, im image.Image) ([]byte, error) {
	if do == "ora" {
		var b bytes.Buffer

		err := ora.Encode(&b, im)

		return b.Bytes(), err
	}

	var m mem

	err := xcf.Encode(&m, im)

	return m.b, err
}

func decode(do string, b []byte) (limage.Image, error) {
	r := bytes.NewReader(b)

	switch do {
	case "ora":
		z, err := zip.NewReader(r, int64(len(b)))
		if err != nil {
			return nil, err
		}

		return ora.Decode(z)
	case "xcf":
		return xcf.Decode(r)
	}

	return xcf.DecodeCompressed(r)
}

// leaves finds the pixels that can be stored to.
func leaves(im image.Image, c *tr.Content, to map[int]draw.Image) {
	switch t := im.(type) {
	case *limage.Image:
		leaves(*t, c, to)
	case limage.Image:
		for n := range c.L {
			leaves(t[n].Image, &c.L[n].C, to)
		}
	case limage.MaskedImage:
		leaves(t.Image, c.C, to)
	case *limage.MaskedImage:
		leaves(t.Image, c.C, to)
	case limage.Text:
		leaves(t.Image, c.C, to)
	case *limage.Text:
		leaves(t.Image, c.C, to)
	case draw.Image:
		if c.ID > 0 {
			to[c.ID] = t
		}
	}
}

func (e *sessEv) Run() {
	e.Races = 0
	before := raceErrors()

	defer func() { e.Races = raceErrors() - before }()

	first := tr.Image(e.L)
	pics := []limage.Image{first}
	store := make(map[int]draw.Image)

	leaves(first, &tr.Content{K: "grp", L: e.L}, store)

	for n := range e.Steps {
		s := &e.Steps[n]
		s.Err, s.Sums, s.Obs = "", []string{}, []tr.OLayer{}

		if s.RS == nil {
			s.RS = []int{}
		}

		if s.R == nil {
			s.R = []int{}
		}

		if s.V == nil {
			s.V = []int{}
		}
	}

	for n := range e.Steps {
		s := &e.Steps[n]

		if s.From < 1 || s.From > len(pics) {
			s.Err = "no such picture"

			return
		}

		im := pics[s.From-1]

		switch s.Do {
		case "look":
			s.Obs = tr.Observe(im, pts)
		case "store":
			d := store[s.ID]
			if d == nil {
				s.Err = "no such pixels"

				return
			}

			d.Set(s.X, s.Y, color.NRGBA{uint8(s.V[0]), uint8(s.V[1]), uint8(s.V[2]), uint8(s.V[3])})
		case "crop":
			if len(s.RS) == 4 {
				b := im.Bounds()
				at := func(lo, size, part int) int { return lo + size*part/100 }
				s.R = []int{at(b.Min.X, b.Dx(), s.RS[0]), at(b.Min.Y, b.Dy(), s.RS[1]), at(b.Min.X, b.Dx(), s.RS[2]) + 1, at(b.Min.Y, b.Dy(), s.RS[3]) + 1}
			}

			c, ok := im.SubImage(tr.Rect(s.R)).(limage.Image)
			if !ok {
				s.Err = "not a layered image"

				return
			}

			pics = append(pics, c)
			s.Obs = tr.Observe(c, pts)
		default:
			var (
				b    []byte
				wg   sync.WaitGroup
				bs   = make([][]byte, max(1, s.Par))
				errs = make([]error, len(bs))
			)

			for k := range bs {
				wg.Add(1)

				one := func() {
					defer wg.Done()

					bs[k], errs[k] = encode(s.Do, im)
				}

				if k < len(bs)-1 {
					go one()
				} else {
					one()
				}
			}

			wg.Wait()

			b = bs[0]

			for k := range bs {
				if errs[k] != nil {
					s.Err = errStr(errs[k])

					return
				}

				h := sha1.Sum(bs[k])
				s.Sums = append(s.Sums, hex.EncodeToString(h[:8]))
			}

			c, err := decode(s.Do, b)
			if err != nil {
				s.Err = "read: " + errStr(err)

				return
			}

			pics = append(pics, c)
			s.Obs = tr.Observe(c, pts)
		}
	}
}

const pts = 7

func blank(op string) tr.Event {
	if op == "sess" {
		return new(sessEv)
	}

	return nil
}

func behave(g *tr.Gen, kind string, line []byte) {
	var e sessEv

	tr.Check(json.Unmarshal(line, &e))
	scale(e.L)

	pics, steps := 1, e.Steps[:0]

	for _, s := range e.Steps {
		switch s.Do {
		case "end":
			continue
		case "store":
			for n := range s.V {
				s.V[n] *= 255
			}
		default:
			pics++
		}

		steps = append(steps, s)
	}

	for k := 1; k <= pics; k++ {
		steps = append(steps, step{Do: "look", From: k})
	}

	e.Steps = steps

	g.Add("sess", &e)
}

// scale brings a picture of the models' two levels to eight bits.
func scale(ls []tr.Layer) {
	for n := range ls {
		ls[n].T *= 255

		scaleContent(&ls[n].C)
	}
}

func scaleContent(c *tr.Content) {
	scale(c.L)

	if c.C != nil {
		scaleContent(c.C)
	}

	for n := range c.MP {
		c.MP[n] *= 255
	}

	for _, p := range c.P {
		for n := range p {
			p[n] *= 255
		}
	}
}

func main() {
	d := tr.Driver{Blank: blank, Generate: generate, Beh: behave, Effort: 8, Timeout: 60 * time.Second}
	d.Main()
}
