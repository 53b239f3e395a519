// Package io has the small helpers the drivers share: sharded ndjson output, guarded execution.
package io

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
	"unicode/utf8"
)

// ASCII escapes everything outside ASCII in JSON text.
func ASCII(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for len(b) > 0 {
		if b[0] < 0x80 {
			out = append(out, b[0])
			b = b[1:]
			continue
		}
		r, w := utf8.DecodeRune(b)
		if r > 0xffff {
			r -= 0x10000
			out = append(out, fmt.Sprintf(`\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))...)
		} else {
			out = append(out, fmt.Sprintf(`\u%04x`, r)...)
		}
		b = b[w:]
	}
	return out
}

// Sink writes events round robin to PREFIX.<i>.ndjson and the readable inputs to PREFIX.inputs.ndjson.
type Sink struct {
	prefix string
	files  []*os.File
	w      []*bufio.Writer
	inF    *os.File
	in     *bufio.Writer
	now    *os.File
	N      int
}

// Several processes may share the work: -part I/N.
var (
	part  = flag.String("part", "0/1", "this process is number I of N")
	turns = -1
)

func parts() (int, int) {
	var i, n int
	_, err := fmt.Sscanf(*part, "%d/%d", &i, &n)
	Must(err)
	return i, n
}

// Mine is asked once per piece of work: is it up to this process?
func Mine() bool {
	i, n := parts()
	turns++
	return turns%n == i
}

func NewSink(prefix string, shards int) *Sink {
	s := &Sink{prefix: prefix}
	first, n := parts()
	inputs := prefix + ".inputs.ndjson"
	if n > 1 {
		shards = 1
		inputs = fmt.Sprintf("%s.inputs.%d.ndjson", prefix, first)
	}
	for i := 0; i < shards; i++ {
		f, err := os.Create(fmt.Sprintf("%s.%d.ndjson", prefix, first+i))
		Must(err)
		s.files = append(s.files, f)
		s.w = append(s.w, bufio.NewWriterSize(f, 1<<20))
	}
	f, err := os.Create(inputs)
	Must(err)
	s.inF, s.in = f, bufio.NewWriterSize(f, 1<<20)
	return s
}

// Try notes the input about to be run, so that it is known should the code under test end this process.
func (s *Sink) Try(input interface{}) {
	if s.now == nil {
		first, _ := parts()
		f, err := os.Create(fmt.Sprintf("%s.now.%d", s.prefix, first))
		Must(err)
		s.now = f
	}
	b, err := json.Marshal(input)
	Must(err)
	Must(s.now.Truncate(0))
	_, err = s.now.WriteAt(b, 0)
	Must(err)
}

// Put writes an event (for the model checker) and its input (for replays).
func (s *Sink) Put(event, input interface{}) {
	s.Event(event)
	s.Input(input)
}

// Event and Input write one without the other.
func (s *Sink) Event(event interface{}) {
	i := s.N % len(s.w)
	s.N++
	writeLine(s.w[i], event)
}

func (s *Sink) Input(input interface{}) { writeLine(s.in, input) }

func writeLine(w *bufio.Writer, v interface{}) {
	b, err := json.Marshal(v)
	Must(err)
	_, err = w.Write(append(ASCII(b), '\n'))
	Must(err)
}

func (s *Sink) Close() {
	for i := range s.w {
		Must(s.w[i].Flush())
		Must(s.files[i].Close())
	}
	Must(s.in.Flush())
	Must(s.inF.Close())
}

// Must ends the driver on an internal error (exit status 3: neither pass nor violation).
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		debug.PrintStack()
		os.Exit(3)
	}
}

// Guard runs f and returns "" or how it failed.
func Guard(limit time.Duration, f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- "panic: " + strings.SplitN(fmt.Sprint(r), "\n", 2)[0]
			}
		}()
		f()
		done <- ""
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(limit):
		return "hang"
	}
}

// Lines calls f for each line of a file.
func Lines(name string, f func([]byte)) {
	fh, err := os.Open(name)
	Must(err)
	defer fh.Close()
	r := bufio.NewReaderSize(fh, 1<<20)
	for {
		b, err := r.ReadBytes('\n')
		if len(b) > 1 {
			f(b)
		}
		if err != nil {
			return
		}
	}
}
