// cyq runs the queries given as arguments, one after another, against one
// fresh graph and context, and prints results (a development aid).
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

func main() {
	g := lpg.NewGraph()
	ctx := oc.NewEvalContext(g)
	for _, q := range os.Args[1:] {
		if q == "RESET" {
			ctx = oc.NewEvalContext(g)
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					st := strings.Split(string(debug.Stack()), "\n")
					fmt.Println("PANIC", q, r)
					for i, l := range st {
						if strings.Contains(l, "panic.go") && i+6 < len(st) {
							fmt.Println(strings.Join(st[i+1:i+7], "\n"))
						}
					}
				}
			}()
			v, err := oc.ParseAndEvaluate(q, ctx)
			if err != nil {
				fmt.Println(q, "=> ERR", err)
				return
			}
			rs := v.Get().(oc.ResultSet)
			fmt.Printf("%s => cols=%v rows=%d\n", q, rs.Cols, len(rs.Rows))
			for i, r := range rs.Rows {
				if i > 20 {
					break
				}
				fmt.Print("    ")
				for k, v := range r {
					fmt.Printf("%s=%v(%T) ", k, v, v.Get())
				}
				fmt.Println()
			}
		}()
	}
	fmt.Println("nodes", g.NumNodes(), "edges", g.NumEdges())
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		fmt.Print(" ", n.GetLabels(), " ")
		n.ForEachProperty(func(k string, v interface{}) bool { fmt.Printf("%s=%v(%T) ", k, v, v); return true })
		fmt.Println()
	}
	for it := g.GetEdges(); it.Next(); {
		fmt.Println("  edge", it.Edge())
	}
}
