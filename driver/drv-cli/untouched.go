package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	dio "gqlverif/io"
)

// entry is what there is at a path.
type entry2 struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
	Mode string `json:"mode"`
	Data string `json:"data"` // digest of the contents, target of a link
	Time string `json:"time"` // of the last change, not of the last reading
}

type treeRun struct {
	Protected string   `json:"protected"`
	Before    []entry2 `json:"before"`
	After     []entry2 `json:"after"`
	Status    int      `json:"status"`
	Text      string   `json:"text"`
	Crash     string   `json:"crash"`
}

type treeEvent struct {
	ID   string    `json:"id"`
	What string    `json:"what"`
	Runs []treeRun `json:"runs"`
}

type treeInput struct {
	ID    string            `json:"id"`
	SC    scenario          `json:"sc"`
	Args  []string          `json:"args"`
	Files map[string]string `json:"files"`
}

func tree(dir string) []entry2 {
	l := []entry2{}
	dio.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := os.Lstat(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		e := entry2{Path: rel, Kind: i.Mode().Type().String(), Mode: i.Mode().Perm().String(), Time: fmt.Sprint(i.ModTime().UnixNano())}
		st := i.Sys().(*syscall.Stat_t)
		e.Mode += fmt.Sprintf(" %d:%d x%d #%d", st.Uid, st.Gid, st.Nlink, st.Ino)
		switch {
		case i.Mode().IsRegular():
			b, err := os.ReadFile(p)
			dio.Must(err)
			e.Data = fmt.Sprintf("%d %x", len(b), sha256.Sum256(b))
		case i.Mode().Type() == fs.ModeSymlink:
			e.Data, err = os.Readlink(p)
			dio.Must(err)
		}
		l = append(l, e)
		return nil
	}))
	sort.Slice(l, func(i, j int) bool { return l[i].Path < l[j].Path })
	return l
}

var dressings = []func(r *rand.Rand, s string) string{
	func(r *rand.Rand, s string) string { return s },
	func(r *rand.Rand, s string) string { return strings.ReplaceAll(s, "\n", "\r\n") },
	func(r *rand.Rand, s string) string { return "\ufeff" + s },
	func(r *rand.Rand, s string) string { return strings.TrimSpace(s) },
	func(r *rand.Rand, s string) string { return s + "\n\n \t\n" },
	func(r *rand.Rand, s string) string { return "#lint-disable type-caps\n" + s + "#lint-enable type-caps" },
	func(r *rand.Rand, s string) string { return s + "\n" + strings.Repeat("# padding\n", 9000) },
	func(r *rand.Rand, s string) string {
		if s == "" {
			return s
		}
		return s + "\n" + lintText(r)
	},
}

// untouched runs the tool on the files of a scenario with the owner of the files and of the directories being someone
// else or not, and their modes forbidding changes or not.
func untouched(id string, sc scenario, seed int64, dress int) (interface{}, interface{}) {
	ev := &treeEvent{ID: id, What: sc.Cmd, Runs: []treeRun{}}
	in := &treeInput{ID: id, SC: sc}
	for _, how := range []string{"open", "files", "all"} {
		r := rand.New(rand.NewSource(seed)) // the same each time
		dir := dirFor(map[string]string{"home/.gqlrc": "", "tmp/keep": "", "extra.graphql": "type Extra { a: Int }"})
		f, fin, args, stdin := materialise(id, dir, sc, r)
		if f == nil {
			os.RemoveAll(dir)
			return nil, nil
		}
		d := r.Intn(len(dressings))
		if dress >= 0 {
			d = dress
		}
		paths := []string{}
		dirs := []string{}
		dio.Must(filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
			if e.IsDir() {
				dirs = append(dirs, p)
			} else if e.Type().IsRegular() {
				paths = append(paths, p)
			}
			return nil
		}))
		sort.Strings(paths)
		then := time.Unix(1500000000, 123456789)
		for i, p := range paths {
			b, err := os.ReadFile(p)
			dio.Must(err)
			dio.Must(os.WriteFile(p, []byte(dressings[(d+i)%len(dressings)](r, string(b))), 0o644))
			locked := false
			if s, _ := os.Lstat(p); s.Mode().Perm() == 0 {
				locked = true
			}
			if how == "open" && nobody != nil {
				dio.Must(os.Chown(p, 65534, 65534))
			}
			if how == "open" && !locked {
				dio.Must(os.Chmod(p, 0o666))
			} else if !locked {
				dio.Must(os.Chmod(p, 0o444))
			}
			dio.Must(os.Chtimes(p, then, then))
		}
		for i := len(dirs) - 1; i >= 0; i-- {
			mode := fs.FileMode(0o777)
			if how == "all" {
				mode = 0o555
			}
			dio.Must(os.Chmod(dirs[i], mode))
			dio.Must(os.Chtimes(dirs[i], then, then))
		}
		var from io.Reader = strings.NewReader("type FromStdin { a: Int }")
		if stdin != nil {
			from = stdin
		}
		run := treeRun{Protected: how, Before: tree(dir)}
		res := runAs(nobody, dir, from, nil, []string{"HOME=" + dir + "/home", "TMPDIR=" + dir + "/tmp", "XDG_CACHE_HOME=" + dir + "/home/cache"}, args...)
		run.After = tree(dir)
		run.Status, run.Text, run.Crash = res.Status, res.Out+"\n"+res.Err, res.Crash
		if stdin != nil {
			stdin.Close()
		}
		ev.Runs = append(ev.Runs, run)
		in.Args, in.Files = args, fin.Files
		for _, p := range dirs {
			_ = os.Chmod(p, 0o755)
		}
		os.RemoveAll(dir)
	}
	return ev, in
}

func untouchedAll(cases string, seed int64, n int, sink *dio.Sink) {
	var scs []scenario
	dio.Lines(cases, func(b []byte) {
		var x scenario
		dio.Must(json.Unmarshal(b, &x))
		scs = append(scs, x)
	})
	type job struct{ k, dress int }
	var jobs []job
	var rest []int
	for k, sc := range scs {
		files := 0
		for _, s := range sc.Sides {
			files += len(s.Files)
		}
		if files == 1 && len(sc.Sides) == 1 { // in every dress
			for d := range dressings {
				jobs = append(jobs, job{k, d})
			}
		} else {
			rest = append(rest, k)
		}
	}
	for i := int(seed) % (1 + len(rest)/n); i < len(rest); i += 1 + len(rest)/n {
		jobs = append(jobs, job{rest[i], -1})
	}
	parallel(len(jobs), func(i int) (interface{}, interface{}) {
		j := jobs[i]
		return untouched(fmt.Sprintf("scenario-%d-%d", j.k, j.dress), scs[j.k], seed*7919+int64(j.k), j.dress)
	}, func(i int, ev, in interface{}) { sink.Put(ev, in) })
}
