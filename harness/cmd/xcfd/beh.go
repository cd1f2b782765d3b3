package main

import (
	"encoding/json"

	"vimagination.zapto.org/limage/zverif/tr"
)

// behave replays a behaviour of the specification.
func behave(d *tr.Gen, kind string, line []byte) {
	g := &fgen{Gen: d, o: defopt()}

	switch kind {
	case "rle":
		g.stream(line)
	case "file":
		var e struct {
			B tr.Bytes `json:"b"`
		}

		tr.Check(json.Unmarshal(line, &e))

		x := &decEv{B: e.B, Note: "model", Via: tr.Pick(g.Rng, vias), Reps: 1}

		for i := 0; i < 24; i++ {
			lp := []int{g.Intn(6)}

			if g.Intn(3) == 0 {
				lp = append(lp, g.Intn(3))
			}

			x.Acc = append(x.Acc, access{LP: lp, X: g.Intn(66), Y: g.Intn(3)})
		}

		g.Add("xdec", x)
	case "tiles", "readers":
		g.tileWalk(kind, line)
	case "text":
		var e struct {
			B tr.Bytes `json:"b"`
		}

		tr.Check(json.Unmarshal(line, &e))
		g.textFile(e.B, "model")
	case "styled":
		g.styled(line)
	default:
		panic("unknown kind of behaviour " + kind)
	}
}

// stream makes a file of a single channel with the coding given.
func (g *fgen) stream(line []byte) {
	var e struct {
		N int      `json:"n"`
		B tr.Bytes `json:"b"`
	}

	tr.Check(json.Unmarshal(line, &e))

	h := 1

	for h <= 64 && (e.N%h != 0 || e.N/h > 64) {
		h++
	}

	w := e.N / h

	if h <= 64 && g.Intn(2) == 0 {
		w, h = h, w
	}

	g.f = &xfile{ver: tr.Pick(g.Rng, allVers), w: w, h: h, base: 1, prec: 150, comp: 1, props: []prop{mk(17, 1)}}
	g.f.layers = []*xlayer{{w: w, h: h, typ: 2, name: xstr("s"), p: &pic{w: w, h: h, ch: [][]byte{make([]byte, w*h)}}}}
	g.f.rle = func([]byte) []byte { return e.B }
	b, _ := g.f.write(g.Rng)

	g.Add("xdec", &decEv{B: b, Note: "stream", Via: "at", Pts: min(w*h, 400)})
}

// tileWalk reads the tiles of a picture in the order given.
func (g *fgen) tileWalk(kind string, line []byte) {
	var e struct {
		H [][]int `json:"h"`
	}

	tr.Check(json.Unmarshal(line, &e))

	// three tiles by two, the last of each row and column not whole
	w, h := 128+1+g.Intn(64), 64+1+g.Intn(64)
	typ := tr.Pick(g.Rng, []int{1, 3, 5})
	g.pal = tr.Pick(g.Rng, []int{3, 256})
	g.f = &xfile{ver: tr.Pick(g.Rng, allVers), w: w, h: h, base: typ / 2, prec: 150, comp: 1, props: []prop{mk(17, 1)}, strat: g.Intn(6)}

	if typ == 5 {
		g.f.props = append(g.f.props, mk(1, cat(be32(g.pal), g.randBytes(3*g.pal))...))
	}

	if g.Intn(2) == 0 {
		typ--
	}

	g.f.layers = []*xlayer{{w: w, h: h, typ: typ, name: xstr("s"), p: g.pic(w, h, channels(typ), typ >= 4)}}
	b, _ := g.f.write(g.Rng)

	var (
		acc     []access
		readers int
	)

	for _, s := range e.H {
		x, y := (s[1]-1)%3*64, (s[1]-1)/3*64
		tw, th := min(64, w-x), min(64, h-y)
		x += tr.Pick(g.Rng, []int{0, tw - 1, g.Intn(tw)})
		y += tr.Pick(g.Rng, []int{0, th - 1, g.Intn(th)})
		acc = append(acc, access{LP: []int{0}, X: x, Y: y})
		readers = max(readers, s[0])
	}

	if kind == "readers" {
		g.Add("xcon", &conEv{Kind: "deferred", B: b, Par: readers, Reps: 3, Acc: acc})
	} else {
		g.Add("xdec", &decEv{B: b, Note: "walk", Via: "at", Acc: acc, Pts: 20})
	}
}

// styled writes text whose every character has a style of its own.
func (g *fgen) styled(line []byte) {
	type style struct {
		F  tr.Bytes `json:"f"`
		Z  int      `json:"z"`
		FG []int    `json:"fg"`
		BG []int    `json:"bg"`
		LS int      `json:"ls"`
		R  int      `json:"r"`
		B  int      `json:"b"`
		I  int      `json:"i"`
		U  int      `json:"u"`
		ST int      `json:"st"`
	}

	var e struct {
		Said [][2]json.RawMessage `json:"said"`
	}

	tr.Check(json.Unmarshal(line, &e))

	ds := []tr.Datum{}

	for _, s := range e.Said {
		var (
			b  tr.Bytes
			st style
		)

		tr.Check(json.Unmarshal(s[0], &b))
		tr.Check(json.Unmarshal(s[1], &st))

		ds = append(ds, tr.Datum{D: string(b), DB: b, F: string(st.F), FB: st.F, Z: st.Z, FG: st.FG, BG: st.BG, LS: st.LS, R: st.R, B: st.B, I: st.I, U: st.U, ST: st.ST})

		if len(ds[len(ds)-1].BG) == 3 {
			ds[len(ds)-1].BG = append(ds[len(ds)-1].BG, 255)
		}
	}

	if len(ds) == 0 {
		return
	}

	in := g.Px("nrgba", 1, 1, false)
	g.Add("xrt", &rtEv{Kind: "image", Off: []int{0, 0}, Pts: 2,
		L: []tr.Layer{{N: "t", B: []int{0, 0, 1, 1}, M: "Normal", C: tr.Content{K: "txt", C: &in, L: []tr.Layer{}, S: ds}}}})
}
