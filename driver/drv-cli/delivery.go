package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	dio "gqlverif/io"
)

// a case of MC_Delivery
type deliveryCase struct {
	ID      string `json:"id"`
	Cmd     string `json:"cmd"`
	Way     string `json:"way"`
	Files   int    `json:"files"`
	Errors  int    `json:"errors"`
	Pieces  int    `json:"pieces"`
	Width   int    `json:"width"`
	Pad     int    `json:"pad"`
	Handles int    `json:"handles"`
}

type deliveryEvent struct {
	ID       string       `json:"id"`
	Case     deliveryCase `json:"case"`
	Names    []string     `json:"names"`
	Order    []int        `json:"order"`
	Status   int          `json:"status"`
	Lines    []string     `json:"lines"`
	Verdicts []string     `json:"verdicts"`
	Crash    string       `json:"crash"`
}

type deliveryInput struct {
	ID   string       `json:"id"`
	Case deliveryCase `json:"case"`
	Args []string     `json:"args"`
	Out  string       `json:"out"`
}

// unread tells how many bytes in a pipe nobody has read yet.
func unread(f *os.File) int {
	var n int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B, uintptr(unsafe.Pointer(&n))); e != 0 {
		return 0
	}
	return int(n)
}

// feed writes a text in pieces, each when the ones before it have been read.
func feed(ctx context.Context, w *os.File, text string, pieces int) {
	defer w.Close()
	for i := 0; i < pieces; i++ {
		for unread(w) > 0 {
			select {
			case <-ctx.Done():
				return
			case <-time.After(500 * time.Microsecond):
			}
		}
		if _, err := w.WriteString(text[len(text)*i/pieces : len(text)*(i+1)/pieces]); err != nil {
			return
		}
	}
}

// fifo makes a named pipe that delivers a text to its first reader.
func fifo(ctx context.Context, path, text string, pieces int) {
	dio.Must(syscall.Mkfifo(path, 0o644))
	go func() {
		for ctx.Err() == nil {
			fd, err := syscall.Open(path, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
			if err == nil {
				dio.Must(syscall.SetNonblock(fd, false))
				feed(ctx, os.NewFile(uintptr(fd), path), text, pieces)
				return
			}
			time.Sleep(500 * time.Microsecond)
		}
	}()
}

// delivered runs a command on the files of a case, delivered as it says.
func delivered(id string, r *rand.Rand, c deliveryCase) (interface{}, interface{}) {
	ev := deliveryEvent{ID: id, Case: c, Names: []string{}, Order: []int{}, Lines: []string{}, Verdicts: []string{}}
	in := deliveryInput{ID: id, Case: c}
	text := func(f, errors int) string {
		d := strings.Repeat("d", c.Width)
		if c.Width == 0 {
			d = "d"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%s\"%s\" scalar S%d\n", strings.Repeat("\n", c.Pad), d, f)
		for j := 1; j <= errors; j++ {
			fmt.Fprintf(&b, "type T%dx%d\n", f, j)
		}
		return b.String()
	}
	dir := dirFor(nil)
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	put := func(name, t string) {
		p := filepath.Join(dir, name)
		dio.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		if c.Way == "fifo" {
			fifo(ctx, p, t, c.Pieces)
			return
		}
		dio.Must(os.WriteFile(p, []byte(t), 0o644))
	}
	var stdin *os.File
	var args []string
	switch {
	case c.Way == "stdin" || c.Way == "device":
		rd, w, err := os.Pipe()
		dio.Must(err)
		defer rd.Close()
		stdin = rd
		go feed(ctx, w, text(1, c.Errors), c.Pieces)
		ev.Names = append(ev.Names, "/dev/stdin")
		args = []string{"lint"}
		if c.Way == "device" {
			args = append(args, option(r, "f", "filepath", "/dev/stdin")...)
		}
	case c.Cmd == "lint":
		for f := 1; f <= c.Files; f++ {
			n := fmt.Sprintf("s%d.graphql", f)
			ev.Names = append(ev.Names, n)
			put(n, text(f, c.Errors))
		}
		args = append([]string{"lint"}, option(r, "f", "filepath", "*.graphql")...)
	default:
		for f := 1; f <= c.Files; f++ {
			n := fmt.Sprintf("s%d.graphql", f)
			ev.Names = append(ev.Names, "old/"+n)
			put("old/"+n, text(f, c.Errors))
			put("new/"+n, text(f, 0))
		}
		args = flags(r, "old/*.graphql", "new/*.graphql", r.Intn(2) == 0, false)
	}
	cmd := exec.CommandContext(ctx, gqlPath, args...)
	if c.Handles > 0 {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$@\"", c.Handles), "sh", gqlPath}, args...)...)
	}
	cmd.Dir, cmd.Env = dir, []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	if stdin != nil {
		cmd.Stdin = stdin
	}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if err := cmd.Run(); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			dio.Must(err)
		}
		ev.Status = ee.ExitCode()
	}
	switch {
	case ctx.Err() != nil:
		ev.Crash = "hang"
	case ev.Status < 0 || strings.Contains(er.String(), "goroutine "):
		ev.Crash = "crash"
	}
	at, seen := map[string]int{}, map[int]bool{}
	for i, n := range ev.Names {
		at[n] = i + 1
	}
	var ls []string
	if c.Cmd == "lint" {
		for _, l := range lines(out.String()) {
			if strings.TrimSpace(l) != "" {
				ls = append(ls, l)
			}
		}
	} else {
		es, tail := split(out.String())
		for _, e := range es {
			ls = append(ls, e.Text)
		}
		ls = append(ls, tail...)
	}
	for _, l := range ls {
		if isVerdict(l) || strings.Contains(l, "lint errors") {
			ev.Verdicts = append(ev.Verdicts, l)
			continue
		}
		ev.Lines = append(ev.Lines, l)
		if f := at[strings.SplitN(l, ":", 2)[0]]; f > 0 && !seen[f] {
			seen[f], ev.Order = true, append(ev.Order, f)
		}
	}
	in.Args, in.Out = args, out.String()
	if len(in.Out) > 2000 {
		in.Out = in.Out[:2000] + "..."
	}
	return ev, in
}
