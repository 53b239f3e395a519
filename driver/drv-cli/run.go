package main

import (
	"bytes"
	"context"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	dio "gqlverif/io"
)

var (
	gqlPath string
	workDir string
)

type result struct {
	Status int
	Out    string
	Err    string
	Crash  string
}

// gql runs the tool in a directory.
func gql(dir, stdin string, env []string, args ...string) result {
	return run(dir, strings.NewReader(stdin), nil, env, args...)
}

func gqlFile(dir string, stdin *os.File, args ...string) result {
	return run(dir, stdin, nil, nil, args...)
}

// runToFile sends the standard output to a file outside the directory.
func runToFile(dir string, env []string, args ...string) result {
	f, err := os.CreateTemp(workDir, "out-")
	dio.Must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	return run(dir, strings.NewReader(""), f, env, args...)
}

// nobody is an account that owns nothing (nil if programs cannot be run under it here).
var nobody *syscall.SysProcAttr

func findNobody() {
	if os.Geteuid() != 0 {
		return
	}
	a := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	c := exec.Command("/bin/true")
	c.SysProcAttr = a
	if c.Run() == nil {
		nobody = a
	}
}

func run(dir string, stdin io.Reader, file *os.File, env []string, args ...string) result {
	return runAs(nil, dir, stdin, file, env, args...)
}

func runAs(who *syscall.SysProcAttr, dir string, stdin io.Reader, file *os.File, env []string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, gqlPath, args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
	c.Stdin = stdin
	c.SysProcAttr = who
	var out, er bytes.Buffer
	c.Stdout, c.Stderr = &out, &er
	if file != nil {
		c.Stdout = file
	}
	err := c.Run()
	if file != nil {
		b, e := os.ReadFile(file.Name())
		dio.Must(e)
		out.Write(b)
	}
	r := result{Out: out.String(), Err: er.String()}
	if ctx.Err() != nil {
		r.Crash = "hang"
		return r
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			dio.Must(err)
		}
		r.Status = ee.ExitCode()
	}
	if i := strings.Index(r.Err, "panic:"); i >= 0 || r.Status < 0 || strings.Contains(r.Err, "goroutine ") {
		if i < 0 {
			i = 0
		}
		s := r.Err[i:]
		if len(s) > 300 {
			s = s[:300]
		}
		r.Crash = "crash: " + s
	}
	return r
}

func lines(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// dirFor makes a scratch directory with the given files (names relative to it).
func dirFor(files map[string]string) string {
	d, err := os.MkdirTemp(workDir, "case-")
	dio.Must(err)
	dio.Must(os.Chmod(d, 0o755))
	for n, t := range files {
		p := filepath.Join(d, n)
		dio.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		dio.Must(os.WriteFile(p, []byte(t), 0o644))
	}
	return d
}

type pair struct {
	ev, in interface{}
}

// parallel computes n pairs with 8 workers; later functions run in order on one goroutine.
func parallel(n int, f func(i int) (interface{}, interface{}), put func(i int, ev, in interface{})) {
	res := make([]chan pair, n)
	for i := range res {
		res[i] = make(chan pair, 1)
	}
	var mu sync.Mutex
	next := 0
	for w := 0; w < 8; w++ {
		go func() {
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n {
					return
				}
				ev, in := f(i)
				res[i] <- pair{ev, in}
			}
		}()
	}
	for i := range res {
		p := <-res[i]
		if p.ev != nil {
			put(i, p.ev, p.in)
		}
	}
}
