package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	dio "gqlverif/io"
	"gqlverif/model"
)

// brief is what a history tells of a change.
type brief struct {
	Ct   string `json:"ct"`
	Crit string `json:"crit"`
	Path string `json:"path"`
	Msg  string `json:"msg"`
}

// historyEvent holds what comparing each version with each reports.
type historyEvent struct {
	ID    string      `json:"id"`
	At    [][][]brief `json:"at"`
	Crash string      `json:"crash"`
}

type historyInput struct {
	ID       string         `json:"id"`
	Versions [][]model.File `json:"versions"`
	Edits    [][]string     `json:"edits"`
	Crash    string         `json:"crash"`
}

func emitHistory(id string, versions [][]model.File, edits [][]string) {
	ev := historyEvent{ID: id, At: [][][]brief{}}
	in := historyInput{ID: id, Versions: versions, Edits: edits}
	for _, fs := range versions {
		if _, err := parse(fs); err != nil {
			dio.Must(fmt.Errorf("history %s: %v\n%v", id, err, fs))
		}
	}
	sink.Try(in)
	ev.Crash = dio.Guard(60*time.Second, func() {
		for _, a := range versions {
			row := [][]brief{}
			for _, b := range versions {
				o, err1 := subject(a)
				n, err2 := subject(b)
				if err1 != nil || err2 != nil {
					panic(fmt.Sprint("not parsed: ", err1, err2))
				}
				l := []brief{}
				for _, c := range report(o, n) {
					l = append(l, brief{c.Ct, c.Crit, c.Path, c.Msg})
				}
				row = append(row, l)
			}
			ev.At = append(ev.At, row)
		}
	})
	if ev.Crash != "" {
		ev.At = [][][]brief{}
	}
	in.Crash = ev.Crash
	sink.Put(ev, in)
}

// histories runs the families of versions a model emitted.
func histories(file string) {
	k := 0
	dio.Lines(file, func(b []byte) {
		k++
		if !dio.Mine() {
			return
		}
		var c struct {
			ID   string       `json:"id"`
			Docs []*model.Doc `json:"docs"`
		}
		dio.Must(json.Unmarshal(b, &c))
		plain := model.Style{}
		var vs [][]model.File
		for _, d := range c.Docs {
			fs := plain.Render(d, []string{"v.graphql"})
			p, err := parse(fs)
			if err != nil || !same(pj.Project(p), d) {
				dio.Must(fmt.Errorf("history %s is not rendered faithfully: %v\n%s", c.ID, err, fs[0].Text))
			}
			vs = append(vs, fs)
		}
		emitHistory(c.ID, vs, nil)
	})
}

// chain makes a random history: a few edits at a time, at times of one sort only.
func chain(i int, r *rand.Rand) {
	g := model.NewGen(r, typePool)
	d := g.Doc(2+r.Intn(len(typePool)-1), []int{0, 20, 50}[r.Intn(3)])
	classes := []int{model.AnyEdit, model.AnyEdit, model.Additive | model.Dangerous | model.Neutral, model.Additive | model.Neutral}[r.Intn(4)]
	s := model.Style{}
	if r.Intn(2) == 0 {
		s.R = r
	}
	names := []string{"v1.graphql", "v2.graphql"}[:1+r.Intn(2)]
	vs, edits := [][]model.File{s.Render(d, names)}, [][]string{}
	for n := 2 + r.Intn(4); n > 0; n-- {
		var e []string
		if d, e = g.Mutate(d, 1+r.Intn(3), classes); classes == model.AnyEdit && r.Intn(8) == 0 {
			d, e = g.Doc(2+r.Intn(len(typePool)-1), 20), []string{"independent"}
		}
		vs, edits = append(vs, s.Render(d, names)), append(edits, e)
	}
	emitHistory(fmt.Sprintf("chain-%d", i), vs, edits)
}
