// vh runs the checks of the properties in /verif/properties.jsonl.
package main

import (
	_ "time/tzdata"

	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

func main() {
	args := os.Args[1:]
	bad := func() {
		fmt.Fprintln(os.Stderr, "usage: vh check ID TIER | vh replay FILE | vh list")
		os.Exit(2)
	}
	if len(args) == 0 {
		bad()
	}
	num := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			bad()
		}
		return n
	}
	prop := func(id string) *Prop {
		p := props[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		return p
	}
	addScripts()
	switch args[0] {
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Rule)
		}
	case "check":
		if len(args) != 3 {
			bad()
		}
		seed := 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			seed = num(s)
		}
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "."
		}
		os.Exit(parent(prop(args[1]), args[2], uint64(seed), verif))
	case "worker":
		budget, err := time.ParseDuration(args[5])
		if err != nil {
			bad()
		}
		os.Exit(worker(prop(args[1]), args[2], uint64(num(args[3])), num(args[4]), budget, args[6]))
	case "one":
		os.Exit(runOne(prop(args[1]), args[2], uint64(num(args[3])), num(args[4]), num(args[5])))
	case "replay":
		os.Exit(replayFile(args[1]))
	default:
		bad()
	}
}
