package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	dio "gqlverif/io"
)

// wordsCase is a command line, and the plainest one that should do the same (if any should).
type wordsCase struct {
	Argv  []string `json:"argv"`
	Plain []string `json:"plain"`
}

type ended struct {
	Status int    `json:"status"`
	Out    string `json:"out"`
	Err    string `json:"err"`
	Crash  string `json:"crash"`
}

type wordsEvent struct {
	ID    string   `json:"id"`
	Argv  []string `json:"argv"`
	Plain []string `json:"plain"`
	Got   ended    `json:"got"`
	Want  ended    `json:"want"`
}

type wordsInput struct {
	ID    string            `json:"id"`
	Files map[string]string `json:"files"`
	Stdin string            `json:"stdin"`
	Argv  []string          `json:"argv"`
	Plain []string          `json:"plain"`
}

var wordsFiles = map[string]string{
	"a.graphql":      "type thing { a(x: Int): Int B: Int }\nenum E { X Y }\n\"an input\"\ninput In { a: Int }\n",
	"b.graphql":      "type thing { a(x: Int!): Int }\nenum E { X Y Z }\n\"an input\"\ninput In { a: Int b: Int }\n\"new\"\ntype Fresh { a: Int }\n",
	"broken.graphql": "type Broken {\n",
	"-b":             "type ofOption { a: Int }\n",
	"-f":             "type ofOther { a: Int }\n",
	"--":             "type ofDashes { a: Int }\n",
}

const wordsStdin = "type fromInput { a: Int }\n"

func words(cases string, put func(i int, ev, in interface{})) {
	var all []wordsCase
	dio.Lines(cases, func(b []byte) {
		var c wordsCase
		dio.Must(json.Unmarshal(b, &c))
		all = append(all, c)
	})
	dir := dirFor(wordsFiles)
	var mu sync.Mutex
	seen := map[string]ended{}
	do := func(argv []string) ended {
		r := gql(dir, wordsStdin, nil, argv...)
		e := r.Err
		if len(e) > 400 { // usage follows
			e = e[:400]
		}
		return ended{r.Status, r.Out, e, r.Crash}
	}
	parallel(len(all), func(i int) (interface{}, interface{}) {
		c := all[i]
		ev := &wordsEvent{ID: fmt.Sprintf("words-%d", i), Argv: c.Argv, Plain: c.Plain, Got: do(c.Argv)}
		if len(c.Plain) > 0 {
			k := strings.Join(c.Plain, "\x00")
			mu.Lock()
			w, ok := seen[k]
			mu.Unlock()
			if !ok {
				w = do(c.Plain)
				mu.Lock()
				seen[k] = w
				mu.Unlock()
			}
			ev.Want = w
		}
		return ev, &wordsInput{ev.ID, wordsFiles, wordsStdin, c.Argv, c.Plain}
	}, put)
}
