package main

import (
	"bytes"
	"image"
	"runtime"
	"sync"

	"archive/zip"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- xcon: many readers of one decoded image

type conEv struct {
	tr.Head
	Kind  string      `json:"kind"` // deferred, eager, ora
	B     tr.Bytes    `json:"b"`
	L     []tr.Layer  `json:"l"` // ora: what is encoded
	Par   int         `json:"par"`
	Reps  int         `json:"reps"`
	Acc   []access    `json:"acc"` // one after the other by one reader, from another place by each
	Dec   string      `json:"dec"`
	Out   []tr.OLayer `json:"out"`
	Seen  [][]int     `json:"seen"` // what a single reader sees of the whole at the points
	Pts   [][]int     `json:"pts"`
	Wrong [][]int     `json:"wrong"` // reads that differed from the single reader's
	Races int         `json:"races"`
}

func (e *conEv) decode() (limage.Image, error) {
	switch e.Kind {
	case "eager":
		return xcf.Decode(at{bytes.NewReader(e.B)})
	case "ora":
		var b bytes.Buffer

		if err := ora.Encode(&b, tr.Image(e.L)); err != nil {
			return nil, err
		}

		z, err := zip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
		if err != nil {
			return nil, err
		}

		return ora.Decode(z)
	}

	return xcf.DecodeCompressed(at{bytes.NewReader(e.B)})
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}

	for n := range a {
		if a[n] != b[n] {
			return false
		}
	}

	return true
}

func (e *conEv) Run() {
	e.Dec, e.Out, e.Seen, e.Wrong, e.Races = "", []tr.OLayer{}, [][]int{}, [][]int{}, 0

	if e.Acc == nil {
		e.Acc = []access{}
	}

	if e.Pts == nil {
		e.Pts = [][]int{}
	}

	if e.L == nil {
		e.L = []tr.Layer{}
	}

	if e.B == nil {
		e.B = tr.Bytes{}
	}

	before := raceErrors()

	single, err := e.decode()
	if e.Dec = errStr(err); err != nil {
		return
	}

	e.Out = observe(single)

	for n := range e.Acc {
		a := &e.Acc[n]
		a.C, a.C2 = []int{}, []int{}

		if p := find(single, a.LP); p != nil {
			a.C = tr.N64(p.At(a.X, a.Y))
		}
	}

	for _, p := range e.Pts {
		e.Seen = append(e.Seen, tr.N64(single.At(p[0], p[1])))
	}

	// all readers share this one
	im, err := e.decode()
	if e.Dec = errStr(err); err != nil {
		return
	}

	ls := make([]image.Image, len(e.Acc))

	for n, a := range e.Acc {
		ls[n] = find(im, a.LP)
	}

	var (
		mu sync.Mutex
		wg sync.WaitGroup
	)

	start := make(chan struct{})
	wrong := func(w ...int) {
		mu.Lock()
		defer mu.Unlock()

		if len(e.Wrong) < 10 {
			e.Wrong = append(e.Wrong, w)
		}
	}
	pan := make(chan any, e.Par)

	for r := 0; r < e.Par; r++ {
		wg.Add(1)

		go func(r int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pan <- p
				}
			}()

			<-start

			for k := 0; k < e.Reps; k++ {
				for i := range e.Acc {
					n := (i*(1+2*(r%3)) + r*7 + k) % len(e.Acc)

					if ls[n] != nil {
						if c := tr.N64(ls[n].At(e.Acc[n].X, e.Acc[n].Y)); !same(c, e.Acc[n].C) {
							wrong(append([]int{0, n}, c...)...)
						}
					}

					if i%16 == r%16 {
						runtime.Gosched()
					}
				}

				for i := range e.Pts {
					n := (i + r*5) % len(e.Pts)

					if c := tr.N64(im.At(e.Pts[n][0], e.Pts[n][1])); !same(c, e.Seen[n]) {
						wrong(append([]int{1, n}, c...)...)
					}
				}

				im.Bounds()
				im.ColorModel()
			}
		}(r)
	}

	close(start)
	wg.Wait()

	select {
	case p := <-pan:
		panic(p)
	default:
	}

	e.Races = raceErrors() - before
}
