// drv-cli runs the command line tool (and the library beside it) and records what it prints and how it ends.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"

	dio "gqlverif/io"
)

func main() {
	mode := flag.String("mode", "", "lint, many, compare, lists, merge, repeat, crash, faults, files, delivery, selection, words")
	out := flag.String("out", "", "")
	shards := flag.Int("shards", 8, "")
	n := flag.Int("n", 100, "number of random cases")
	times := flag.Int("times", 6, "repetitions (mode repeat)")
	seed := flag.Int64("seed", 1, "")
	cases := flag.String("cases", "", "cases of the model (modes faults, files, delivery, lists, selection, words)")
	flag.StringVar(&gqlPath, "gql", "", "")
	flag.StringVar(&workDir, "work", "", "scratch directory")
	flag.Parse()
	dio.Must(os.MkdirAll(workDir, 0o755))
	dio.Must(os.Chmod(workDir, 0o755))
	findNobody()
	sink := dio.NewSink(*out, *shards)
	put := func(i int, ev, in interface{}) { sink.Put(ev, in) }
	rnd := func(i int) *rand.Rand { return rand.New(rand.NewSource(*seed*1000003 + int64(i))) }
	switch *mode {
	case "lint":
		parallel(*n, func(i int) (interface{}, interface{}) { return lintCase(fmt.Sprintf("lint-%d", i), rnd(i), false) }, put)
	case "many":
		parallel(*n, func(i int) (interface{}, interface{}) { return lintCase(fmt.Sprintf("many-%d", i), rnd(i), true) }, put)
	case "compare":
		ps := []string{"mixed", "mixed", "large", "same", "additive", "safe", "breaking"}
		parallel(*n, func(i int) (interface{}, interface{}) {
			return compareCase(fmt.Sprintf("compare-%d", i), rnd(i), ps[i%len(ps)])
		}, func(i int, ev, in interface{}) {
			library(ev.(*cmpEvent), in.(*cmpInput), rnd(i))
			sink.Put(ev, in)
		})
	case "lists":
		var all []listCase
		dio.Lines(*cases, func(b []byte) {
			var c listCase
			dio.Must(json.Unmarshal(b, &c))
			all = append(all, c)
		})
		parallel(len(all), func(i int) (interface{}, interface{}) {
			return listed(fmt.Sprintf("%s-%d", all[i].ID, i), rnd(i), all[i])
		}, func(i int, ev, in interface{}) {
			library(ev.(*cmpEvent), in.(*cmpInput), rnd(i))
			sink.Put(ev, in)
		})
	case "files":
		var all []filesCase
		dio.Lines(*cases, func(b []byte) {
			var c filesCase
			dio.Must(json.Unmarshal(b, &c))
			all = append(all, c)
		})
		parallel(len(all), func(i int) (interface{}, interface{}) {
			return filesOf(fmt.Sprintf("%s-%d", all[i].ID, i), rnd(i), all[i])
		}, put)
	case "delivery":
		var all []deliveryCase
		dio.Lines(*cases, func(b []byte) {
			var c deliveryCase
			dio.Must(json.Unmarshal(b, &c))
			all = append(all, c)
		})
		parallel(len(all), func(i int) (interface{}, interface{}) {
			return delivered(fmt.Sprintf("%s-%d", all[i].ID, i), rnd(i), all[i])
		}, put)
	case "merge":
		parallel(*n, func(i int) (interface{}, interface{}) { return mergeCase(fmt.Sprintf("merge-%d", i), rnd(i)) }, put)
	case "repeat":
		parallel(*n, func(i int) (interface{}, interface{}) {
			if i%3 == 2 {
				return repeatLib(fmt.Sprintf("repeat-%d", i), rnd(i), 3**times)
			}
			return repeatCase(fmt.Sprintf("repeat-%d", i), rnd(i), *times)
		}, put)
	case "crash":
		odd := []string{}
		for _, t := range oddTexts {
			if parses(t) {
				odd = append(odd, t)
			}
		}
		parallel(len(odd), func(i int) (interface{}, interface{}) {
			return crashLib(fmt.Sprintf("odd-%d", i), odd[i], odd)
		}, put)
		parallel(len(odd), func(i int) (interface{}, interface{}) {
			return crashCli(fmt.Sprintf("oddcli-%d", i), odd[i], odd[rnd(i).Intn(len(odd))], rnd(i))
		}, put)
		deep, kinds := repeated()
		for _, t := range deep {
			if !parses(t) {
				dio.Must(fmt.Errorf("not parsable: %s", t))
			}
		}
		parallel(len(deep), func(i int) (interface{}, interface{}) {
			others := []string{odd[rnd(i).Intn(len(odd))]}
			for _, j := range []int{i - kinds, i + kinds, i + 5*kinds, i + rnd(i).Intn(kinds)} {
				if j >= 0 && j < len(deep) {
					others = append(others, deep[j])
				}
			}
			return crashLib(fmt.Sprintf("deep-%d", i), deep[i], others)
		}, put)
		parallel(len(deep)/10, func(i int) (interface{}, interface{}) {
			r := rnd(i)
			return crashCli(fmt.Sprintf("deepcli-%d", i), deep[r.Intn(len(deep))], deep[r.Intn(len(deep))], r)
		}, put)
		parallel(*n, func(i int) (interface{}, interface{}) {
			r := rnd(i)
			a, b := damaged(r), damaged(r)
			if i%8 == 0 {
				return crashCli(fmt.Sprintf("damagedcli-%d", i), a, b, r)
			}
			return crashLib(fmt.Sprintf("damaged-%d", i), a, []string{b, odd[r.Intn(len(odd))]})
		}, put)
		fmt.Println("odd texts", len(odd))
	case "selection":
		var all []selCase
		dio.Lines(*cases, func(b []byte) {
			var c selCase
			dio.Must(json.Unmarshal(b, &c))
			all = append(all, c)
		})
		parallel(len(all), func(i int) (interface{}, interface{}) {
			return selectionCase(fmt.Sprintf("%s-%d", all[i].ID, i), all[i].Sel)
		}, put)
	case "words":
		words(*cases, put)
	case "untouched":
		untouchedAll(*cases, *seed, *n, sink)
	case "faults":
		faults(*cases, *seed, sink)
	default:
		dio.Must(fmt.Errorf("unknown mode %s", *mode))
	}
	sink.Close()
	fmt.Println("events", sink.N)
}

// a selection of rules, a case of the model
type selCase struct {
	ID  string  `json:"id"`
	Sel [][]int `json:"sel"`
}
