package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"vimagination.zapto.org/limage/zverif/tr"
)

// The events run in a process of their own, so that code that never returns,
// or takes its process down, becomes an event as well: the journal holds the
// events of the session that is under way.

const patience = 30 * time.Second

type journal struct {
	f     *os.File
	off   int64
	beats chan struct{}
}

var jrn *journal

func openJournal() *journal {
	f, err := os.Create(os.Getenv("ZV_JOURNAL"))
	tr.Check(err)

	j := &journal{f: f, beats: make(chan struct{}, 1)}

	go func() {
		for {
			select {
			case <-j.beats:
			case <-time.After(patience):
				fmt.Fprintln(os.Stderr, "hang: no answer within", patience)
				os.Exit(7)
			}
		}
	}()

	return j
}

func (j *journal) session() { j.off = 0 }

func (j *journal) run(e event) {
	select {
	case j.beats <- struct{}{}:
	default:
	}

	j.keep(e)
	e.Run()
	j.off += j.keep(e)
}

func (j *journal) keep(e event) int64 {
	b, err := json.Marshal(e)
	tr.Check(err)

	b = append(b, '\n')
	_, err = j.f.WriteAt(append(b, 0), j.off)
	tr.Check(err)

	return int64(len(b))
}

// guarded runs this command in another process and, when that breaks down,
// leaves the session it broke down in as all there is to see.
func guarded(prefix string, n int) {
	name := prefix + ".journal"
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "ZV_JOURNAL="+name)
	c.Stdout = os.Stdout

	var msg bytes.Buffer

	c.Stderr = &msg
	err := c.Run()
	j, jerr := os.ReadFile(name)
	os.Remove(name)

	if err == nil {
		return
	}

	tr.Check(jerr)

	why := msg.String()
	if strings.Contains(why, "driver error:") || len(j) == 0 {
		os.Stderr.WriteString(why)
		os.Exit(1)
	}

	if !strings.HasPrefix(why, "hang: ") {
		why = "crash: " + why
	}

	if len(why) > 400 {
		why = why[:400]
	}

	if n := bytes.IndexByte(j, 0); n >= 0 {
		j = j[:n]
	}

	ls := bytes.Split(bytes.TrimSuffix(j, []byte{'\n'}), []byte{'\n'})
	out := tr.NewOut(prefix, n)

	for k, l := range ls {
		m := make(map[string]any)
		d := json.NewDecoder(bytes.NewReader(l))

		d.UseNumber()
		tr.Check(d.Decode(&m))

		if k == len(ls)-1 {
			m["panic"] = strings.ToValidUTF8(why, "?")
		}

		out.Put(m)
	}

	out.Close()
}

func limit() {
	l := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}
