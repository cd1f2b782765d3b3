// ratd drives the adaptation of readers to positional readers.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/zverif/tr"
)

type step struct {
	A string `json:"a"` // call, seek, read, fault, end
	P int    `json:"p"`
	O int    `json:"o"`
	N int    `json:"n"`
}

type answer struct {
	P   int    `json:"p"`
	O   int    `json:"o"`
	N   int    `json:"n"`
	Got []int  `json:"got"`
	Err string `json:"err"`
}

type ratEv struct {
	tr.Head
	Kind    string   `json:"kind"` // rs, ra, rsa, none, bytes, strings
	D       []int    `json:"d"`
	Start   int      `json:"start"`
	Wraps   [][]int  `json:"wraps"` // [buffer size, bytes consumed] of each bufio.Reader around it
	Procs   int      `json:"procs"`
	Eager   int      `json:"eager"` // the source reports its end together with its last bytes
	Zero    int      `json:"zero"`  // the source sometimes reads nothing
	Free    int      `json:"free"`  // the source is not stepped
	Hist    []step   `json:"h"`
	Adapted int      `json:"adapted"`
	Fired   int      `json:"fired"`
	Dead    int      `json:"dead"`
	Calls   []answer `json:"r"`
}

var errFault = errors.New("injected")

type grant struct {
	fault bool
	n     int
}

// source is a reader with a cursor whose operations can be held back.
type source struct {
	e     *ratEv
	data  []byte
	mu    sync.Mutex
	cur   int64
	on    bool
	ticks int
	gate  chan chan grant
	fired int
}

func (s *source) wait() grant {
	s.mu.Lock()
	on := s.on
	s.ticks++
	t := s.ticks
	s.mu.Unlock()

	if !on {
		return grant{n: 1 << 30}
	}

	if s.e.Free == 1 {
		runtime.Gosched()

		if t%7 == 0 {
			time.Sleep(20 * time.Microsecond)
		}

		return grant{n: 1 + t%3}
	}

	c := make(chan grant)
	s.gate <- c

	return <-c
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	g := s.wait()

	s.mu.Lock()
	defer s.mu.Unlock()

	if g.fault {
		s.fired++

		return 0, errFault
	}

	switch whence {
	case io.SeekCurrent:
		off += s.cur
	case io.SeekEnd:
		off += int64(len(s.data))
	}

	if off < 0 {
		return 0, errors.New("negative position")
	}

	s.cur = off

	return off, nil
}

func (s *source) Read(p []byte) (int, error) {
	g := s.wait()

	s.mu.Lock()
	defer s.mu.Unlock()

	if len(p) == 0 {
		return 0, nil
	}

	if g.fault {
		s.fired++

		n := 0

		if s.cur < int64(len(s.data)) && len(p) > 1 && g.n > 0 {
			n = copy(p[:1], s.data[s.cur:])
			s.cur += int64(n)
		}

		return n, errFault
	}

	if s.cur >= int64(len(s.data)) {
		return 0, io.EOF
	}

	if s.e.Zero == 1 && s.ticks%5 == 0 {
		return 0, nil
	}

	if g.n > 0 && g.n < len(p) {
		p = p[:g.n]
	}

	n := copy(p, s.data[s.cur:])
	s.cur += int64(n)

	if s.e.Eager == 1 && s.cur == int64(len(s.data)) {
		return n, io.EOF
	}

	return n, nil
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	g := s.wait()

	s.mu.Lock()
	defer s.mu.Unlock()

	if g.fault {
		s.fired++

		return 0, errFault
	}

	return bytes.NewReader(s.data).ReadAt(p, off)
}

type (
	rsOnly struct {
		io.Reader
		io.Seeker
	}
	raOnly struct {
		io.Reader
		io.ReaderAt
	}
	rOnly struct{ io.Reader }
)

func (e *ratEv) Run() {
	e.Calls, e.Adapted, e.Fired, e.Dead = []answer{}, 0, 0, 0
	data := make([]byte, len(e.D))

	for n, b := range e.D {
		data[n] = byte(b)
	}

	s := &source{e: e, data: data, cur: int64(e.Start), gate: make(chan chan grant, 64)}

	var r io.Reader

	switch e.Kind {
	case "rs":
		r = rsOnly{s, s}
	case "ra":
		r = raOnly{s, s}
	case "rsa":
		r = s
	case "none":
		r = rOnly{s}
	case "bytes":
		b := bytes.NewReader(data)
		b.Seek(int64(e.Start), io.SeekStart)
		r = b
	case "strings":
		b := strings.NewReader(string(data))
		b.Seek(int64(e.Start), io.SeekStart)
		r = b
	}

	for _, w := range e.Wraps {
		b := bufio.NewReaderSize(r, w[0])
		io.CopyN(io.Discard, b, int64(w[1]))
		r = b
	}

	ra := internal.GetReaderAt(r)
	if ra == nil {
		return
	}

	e.Adapted = 1
	s.mu.Lock()
	s.on = true
	s.mu.Unlock()

	var (
		mu   sync.Mutex
		wg   sync.WaitGroup
		todo = make([]chan step, e.Procs+1)
	)

	for p := 1; p <= e.Procs; p++ {
		todo[p] = make(chan step, len(e.Hist)+1)

		wg.Add(1)

		go func(p int) {
			defer wg.Done()

			for c := range todo[p] {
				buf := make([]byte, c.N)
				n, err := ra.ReadAt(buf, int64(c.O))
				a := answer{P: p, O: c.O, N: c.N, Got: []int{}}

				for _, b := range buf[:max(0, min(n, c.N))] {
					a.Got = append(a.Got, int(b))
				}

				if n < 0 || n > c.N {
					a.Got = make([]int, c.N+1)
				}

				switch {
				case err == nil:
				case errors.Is(err, errFault):
					a.Err = "fault"
				case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
					a.Err = "eof"
				default:
					a.Err = "other"
				}

				mu.Lock()
				e.Calls = append(e.Calls, a)
				mu.Unlock()
			}
		}(p)
	}

	done := make(chan struct{})

	var parked []chan grant

	settle := func() { // let everyone who can reach the gate
		t := time.After(150 * time.Microsecond)

		for {
			select {
			case c := <-s.gate:
				parked = append(parked, c)
			case <-t:
				return
			}
		}
	}

	for _, h := range e.Hist {
		switch h.A {
		case "call":
			todo[h.P] <- h
		case "seek", "read", "fault":
			if e.Free == 1 {
				continue
			}

			if settle(); len(parked) == 0 {
				select {
				case c := <-s.gate:
					parked = append(parked, c)
				case <-time.After(3 * time.Millisecond):
					continue
				}
			}

			i := h.P % len(parked)
			parked[i] <- grant{fault: h.A == "fault", n: h.N}
			parked = append(parked[:i], parked[i+1:]...)
		}
	}

	for p := 1; p <= e.Procs; p++ {
		close(todo[p])
	}

	go func() {
		wg.Wait()
		close(done)
	}()

	limit := time.After(10 * time.Second)

	for {
		if settle(); len(parked) > 0 {
			parked[0] <- grant{n: 1 << 30}
			parked = parked[1:]

			continue
		}

		select {
		case c := <-s.gate:
			parked = append(parked, c)
		case <-done:
			e.Fired = s.fired

			return
		case <-limit:
			e.Dead = 1

			mu.Lock() // keep what is there; the rest never returns
			e.Calls = append([]answer{}, e.Calls...)
			mu.Unlock()

			return
		}
	}
}

func content(n int) []int {
	d := make([]int, n)

	for i := range d {
		d[i] = (i*37 + 11) % 256
	}

	return d
}

func generate(g *tr.Gen) {
	kinds := []string{"rs", "rs", "rs", "rs", "ra", "rsa", "none", "bytes", "strings"}

	for i := 0; i < 1500*g.K; i++ {
		d := tr.Pick(g.Rng, []int{0, 1, 2, 5, 16, 17, 40, 100})
		e := &ratEv{Kind: tr.Pick(g.Rng, kinds), D: content(d), Procs: 1 + g.Intn(4), Eager: g.Intn(2), Zero: g.Intn(3) / 2, Wraps: [][]int{}, Hist: []step{}}

		if g.Intn(2) == 0 {
			e.Start = g.Intn(d + 3)
		}

		for n := g.Intn(4); n > 0; n-- {
			e.Wraps = append(e.Wraps, []int{tr.Pick(g.Rng, []int{16, 17, 32, 64, 4096}), g.Intn(d/2 + 2)})
		}

		faults := g.Intn(3) == 0
		calls := 1 + g.Intn(7)

		if e.Free = g.Intn(3) / 2; e.Free == 1 {
			e.Procs = 2 + g.Intn(7)
			calls = 3 * e.Procs
		}

		for n := calls; n > 0; {
			switch g.Intn(3) {
			case 0:
				h := step{A: "call", P: 1 + g.Intn(e.Procs), O: g.Intn(d + 4), N: g.Intn(d + 4)}

				switch g.Intn(12) {
				case 0:
					h.O = 1 << 30
				case 1:
					h.O = -1 - g.Intn(3)
				}

				if h.N > 12 && g.Intn(2) == 0 {
					h.N = g.Intn(12)
				}

				e.Hist = append(e.Hist, h)
				n--
			case 1:
				e.Hist = append(e.Hist, step{A: "read", P: g.Intn(4), N: 1 + g.Intn(5)})
			default:
				if faults && g.Intn(4) == 0 {
					e.Hist = append(e.Hist, step{A: "fault", P: g.Intn(4), N: g.Intn(2)})
				} else {
					e.Hist = append(e.Hist, step{A: "seek", P: g.Intn(4)})
				}
			}
		}

		for n := g.Intn(6); n > 0; n-- {
			e.Hist = append(e.Hist, step{A: tr.Pick(g.Rng, []string{"read", "seek", "read"}), P: g.Intn(4), N: 1 + g.Intn(4)})
		}

		g.Add("rat", e)
	}
}

func beh(g *tr.Gen, _ string, line []byte) {
	var b struct {
		D, Procs, Start int
		Hist            []step `json:"h"`
	}

	tr.Check(json.Unmarshal(line, &b))

	for n, k := range []string{"rs", "rs", "rsa"} {
		e := &ratEv{Kind: k, D: content(b.D), Procs: b.Procs, Start: b.Start, Hist: b.Hist, Wraps: [][]int{}, Eager: n % 2}

		if n == 1 {
			e.Wraps = [][]int{{16, 2}, {32, 1}}
		}

		g.Add("rat", e)
	}
}

func main() {
	d := tr.Driver{
		Blank: func(op string) tr.Event {
			if op == "rat" {
				return new(ratEv)
			}

			return nil
		},
		Generate: generate,
		Beh:      beh,
		Timeout:  60 * time.Second,
		Effort:   12,
	}
	d.Main()
}
