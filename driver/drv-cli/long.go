package main

import (
	"math/rand"
	"regexp"
	"strings"

	"gqlverif/model"
)

var (
	someName   = regexp.MustCompile(`\b(?:type|enum|interface|input|union|scalar) +(\w+)|\b(\w+) *[:(]`)
	someString = regexp.MustCompile(`= *"([^"\\\n]+)"|reason: *"([^"\\\n]+)"`)
)

// lengthen makes a name or a string of a few files very long, everywhere.
func lengthen(r *rand.Rand, lists ...[]model.File) {
	re, word := someName, `\b`
	if r.Intn(3) == 0 {
		re, word = someString, `"`
	}
	var found []string
	for _, fs := range lists {
		for _, f := range fs {
			for _, m := range re.FindAllStringSubmatch(f.Text, -1) {
				found = append(found, m[1]+m[2])
			}
		}
	}
	if len(found) == 0 {
		return
	}
	name := found[r.Intn(len(found))]
	long := name + strings.Repeat(string("xyz_Q7"[r.Intn(6)]), []int{30, 60, 100, 120, 180, 250, 300, 450, 700, 1100, 4100}[r.Intn(11)]) + name
	was := regexp.MustCompile(word + regexp.QuoteMeta(name) + word)
	var now []string
	for _, fs := range lists {
		for _, f := range fs {
			t := was.ReplaceAllStringFunc(f.Text, func(m string) string { return strings.Replace(m, name, long, 1) })
			if len(t) > len(f.Text)+40000 || !parses(t) {
				return
			}
			now = append(now, t)
		}
	}
	for _, fs := range lists {
		for i := range fs {
			fs[i].Text, now = now[0], now[1:]
		}
	}
}
