package main

import (
	"bytes"
	"fmt"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zverif/tr"
)

// ---- xhuge: files that are too large to write down, but simply described

type hugeEv struct {
	tr.Head
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Size int    `json:"size"` // of the file, in KB, rounded up
	Dec  string `json:"dec"`
	Img  int    `json:"img"`
	Cfg  string `json:"cfg"`
	Kb   int    `json:"kb"`
	Ms   int    `json:"ms"`
	Got  int    `json:"got"` // what was asked of the picture: layers, depth, pieces
}

func textProp(desc string) prop {
	return mk(21, cat(xstr("gimp-text-layer"), be32(1), be32(len(desc)+1), []byte(desc), []byte{0})...)
}

func (e *hugeEv) file() []byte {
	f := &xfile{ver: 0, w: 4, h: 4, base: 1, comp: 1, props: []prop{mk(17, 1)}, strat: 1}
	one := func(ps ...prop) *xlayer {
		l := &xlayer{w: 1, h: 1, typ: 3, name: xstr("l"), props: ps, p: &pic{1, 1, [][]byte{{1}, {255}}}}
		f.layers = append(f.layers, l)

		return l
	}
	text := func(s string) { one(textProp(s)) }
	n := e.N

	switch e.Kind {
	case "layers":
		for i := 0; i < n; i++ {
			one()
		}
	case "nest":
		var path []byte

		for i := 0; i < n; i++ {
			path = append(path, be32(0)...)
			one(mk(29), mk(30, path...))
		}
	case "wide":
		one(mk(29), mk(30, be32(0)...))

		for i := 0; i < n; i++ {
			one(mk(30, cat(be32(0), be32(i))...))
		}
	case "path":
		one(mk(30, bytes.Repeat([]byte{0, 0, 0, 1}, n)...))
	case "props":
		for i := 0; i < n; i++ {
			f.props = append(f.props, mk(1000+i, 1))
		}

		one()
	case "parasites":
		f.props = append(f.props, mk(21, bytes.Repeat(cat(xstr("x"), be32(0), be32(1), []byte{7}), n)...))

		one()
	case "guides":
		f.props = append(f.props, mk(18, bytes.Repeat([]byte{0, 0, 0, 1, 1}, n)...))

		one()
	case "parens":
		text(strings.Repeat("(a ", n))
	case "balanced":
		text("(text \"t\")(a " + strings.Repeat("(a ", n) + strings.Repeat(")", n+1))
	case "tags":
		text("(text \"t\")" + strings.Repeat("(a 1)", n))
	case "values":
		text("(text \"t\")(a " + strings.Repeat("1 ", n) + ")")
	case "literal":
		text("(text \"" + strings.Repeat("x", n) + "\")")
	case "word":
		text("(text \"t\")(" + strings.Repeat("x", n) + " 1)")
	case "number":
		text("(text \"t\")(a " + strings.Repeat("1", n) + ")")
	case "escapes":
		text("(text \"" + strings.Repeat("\\\\", n) + "\")")
	case "spans":
		text("(markup \"<markup>" + strings.Repeat("<b>x</b>y", n) + "</markup>\")")
	case "deepspans":
		text("(markup \"<markup>" + strings.Repeat("<b>", n) + "x" + strings.Repeat("</b>", n) + "</markup>\")")
	case "openspans":
		text("(markup \"<markup>" + strings.Repeat("<b>x", n) + "\")")
	case "attrs":
		text("(markup \"<markup><span" + strings.Repeat(" size='1024'", n) + ">x</span></markup>\")")
	default:
		tr.Check(fmt.Errorf("unknown kind %q", e.Kind))
	}

	b, _ := f.write(tr.NewRng(1, "huge"))

	return b
}

func depth(im limage.Image) int {
	d := 0

	for len(im) > 0 {
		d++
		im, _ = im[0].Image.(limage.Image)
	}

	return d
}

func (e *hugeEv) Run() {
	b := e.file()
	e.Size, e.Img, e.Got = (len(b)+1023)>>10, 0, 0

	_, err := xcf.DecodeConfig(bytes.NewReader(b))
	e.Cfg = errStr(err)

	var im limage.Image

	e.Kb, e.Ms = cost(func() { im, err = xcf.Decode(bytes.NewReader(b)) })
	e.Dec = errStr(err)
	e.Img = tr.B2I(im != nil)

	if len(im) == 0 {
		return
	}

	switch e.Kind {
	case "nest":
		e.Got = depth(im)
	case "wide":
		g, _ := im[0].Image.(limage.Image)
		e.Got = len(g)
	case "layers":
		e.Got = len(im)
	default:
		if t, ok := im[0].Image.(limage.Text); ok {
			e.Got = len(t.TextData)

			if e.Kind == "literal" || e.Kind == "escapes" {
				e.Got = len(t.TextData.String())
			}
		}
	}
}

// huge adds files of these kinds, of so many and of a few.
func (g *fgen) huge(ks ...any) {
	for i := 0; i < len(ks); i += 2 {
		n := ks[i+1].(int)

		g.Add("xhuge", &hugeEv{Kind: ks[i].(string), N: n})
		g.Add("xhuge", &hugeEv{Kind: ks[i].(string), N: 1 + g.Intn(min(n, 500))})
	}
}
