package tr

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Head starts every event: the operation, the session and how the code under
// test failed to return, if it did (panic, crash of the process, hang).
type Head struct {
	Op    string `json:"op"`
	S     int    `json:"s"`
	Panic string `json:"panic"`
}

// H gives access to the head.
func (h *Head) H() *Head { return h }

// Event is one self-contained experiment on the code.
type Event interface {
	H() *Head
	Run()
}

// Gen collects the events of one run.
type Gen struct {
	Rng
	Prop     string
	Thorough bool
	K        int // effort multiplier
	evs      []Event
}

// Add appends an event; each is a session of its own.
func (g *Gen) Add(op string, e Event) {
	h := e.H()
	h.Op = op
	h.S = len(g.evs) + 1
	g.evs = append(g.evs, e)
}

// Driver is a command that runs events in worker processes, so that a crash or
// a hang of the code under test is an observation like any other.
type Driver struct {
	Blank    func(op string) Event
	Generate func(g *Gen)
	Beh      func(g *Gen, kind string, line []byte)
	Timeout  time.Duration // per event
	Workers  int
	Effort   int // multiplier of the thorough tier
}

func (d *Driver) workers() int {
	if d.Workers > 0 {
		return d.Workers
	}

	return 8
}

// Main is the driver's main function.
func (d *Driver) Main() {
	if d.Timeout == 0 {
		d.Timeout = 30 * time.Second
	}

	a := os.Args[1:]
	num := func(s string) int {
		n, err := strconv.Atoi(s)
		Check(err)

		return n
	}

	switch a[0] {
	case "work":
		d.work()
	case "gen":
		g := &Gen{Rng: NewRng(int64(num(a[2])), a[1]), Prop: a[1], Thorough: a[3] == "thorough", K: 1}

		if g.Thorough {
			g.K = max(d.Effort, 1)
		}

		d.Generate(g)
		d.run(g.evs, a[4], num(a[5]))
	case "beh":
		g := &Gen{Rng: NewRng(1, a[1]), Prop: a[1], K: 1}

		Lines(a[2], func(b []byte) { d.Beh(g, a[1], append([]byte{}, b...)) })
		d.run(g.evs, a[3], num(a[4]))
	case "exec":
		var evs []Event

		Lines(a[1], func(b []byte) { evs = append(evs, d.parse(b)) })
		d.run(evs, a[2], num(a[3]))
	default:
		Check(fmt.Errorf("unknown command %q", a[0]))
	}
}

func (d *Driver) parse(b []byte) Event {
	var h Head

	Check(json.Unmarshal(b, &h))

	e := d.Blank(h.Op)
	if e == nil {
		Check(fmt.Errorf("unknown op %q", h.Op))
	}

	Check(json.Unmarshal(b, e))

	return e
}

func (d *Driver) work() {
	limitMemory()

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)

	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}

		e := d.parse(line)
		h := e.H()
		h.Panic = ""

		if p := Safe(e.Run); p != "" {
			h.Panic = "panic: " + p
		}

		b, err := json.Marshal(e)
		Check(err)
		out.Write(b)
		out.WriteByte('\n')
		Check(out.Flush())

		if len(line) > 1<<20 {
			runtime.GC()
		}
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func (d *Driver) start() *worker {
	w := &worker{err: new(bytes.Buffer)}
	w.cmd = exec.Command(os.Args[0], "work")
	w.cmd.Stderr = w.err

	var err error

	w.in, err = w.cmd.StdinPipe()
	Check(err)

	o, err := w.cmd.StdoutPipe()
	Check(err)

	w.out = bufio.NewReaderSize(o, 1<<20)

	Check(w.cmd.Start())

	return w
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// one runs an event in the worker; ok is false when the worker is lost.
func (d *Driver) one(w *worker, line []byte) (res []byte, why string) {
	var (
		got  []byte
		rerr error
		done = make(chan struct{})
	)

	go func() {
		w.in.Write(append(line, '\n'))
		got, rerr = w.out.ReadBytes('\n')
		close(done)
	}()

	t := time.NewTimer(d.Timeout)
	defer t.Stop()

	select {
	case <-done:
		if rerr == nil {
			return got, ""
		}

		w.cmd.Wait()

		return nil, "crash: " + firstLines(w.err.String())
	case <-t.C:
		w.cmd.Process.Kill()
		<-done

		return nil, "hang: no answer within " + d.Timeout.String()
	}
}

func firstLines(s string) string {
	var ls []string

	for _, l := range strings.Split(s, "\n") {
		if l != "" && len(ls) < 3 {
			ls = append(ls, l)
		}
	}

	s = strings.Join(ls, " | ")

	if len(s) > 400 {
		s = s[:400]
	}

	return s
}

const maxHangs = 24

func (d *Driver) run(evs []Event, prefix string, n int) {
	res := make([][]byte, len(evs))
	next := make(chan int)

	var (
		wg    sync.WaitGroup
		hangs atomic.Int32
	)

	for i := 0; i < d.workers(); i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			var w *worker

			for k := range next {
				if hangs.Load() >= maxHangs { // enough was seen, and there is no time for more
					evs[k] = nil

					continue
				}

				if w == nil {
					w = d.start()
				}

				b, err := json.Marshal(evs[k])
				Check(err)

				r, why := d.one(w, b)
				if why != "" {
					w.stop()
					w = nil
					evs[k].H().Panic = why

					if strings.HasPrefix(why, "hang") {
						hangs.Add(1)
					}

					r, err = json.Marshal(evs[k])
					Check(err)
				} else if x := bytes.TrimSpace(r); len(x) == 0 || x[0] != '{' {
					Check(fmt.Errorf("worker answered %q", r))
				}

				res[k] = bytes.TrimSpace(r)
				evs[k] = nil
			}

			if w != nil {
				w.stop()
			}
		}()
	}

	for k := range evs {
		next <- k
	}

	close(next)
	wg.Wait()

	out := NewOut(prefix, n)

	for _, r := range res {
		if r == nil {
			continue
		}

		out.Next()
		out.Put(json.RawMessage(r))
	}

	out.Close()
}
