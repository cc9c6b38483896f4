package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// play runs queries on an empty graph, each in a new context, and returns
// the rows of the last one
func play(queries ...string) (rows []map[string]oc.Value, panicked string, err error) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	g := lpg.NewGraph()
	return playOn(g, queries...)
}

func playOn(g *lpg.Graph, queries ...string) (rows []map[string]oc.Value, panicked string, err error) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	for _, q := range queries {
		v, err := oc.ParseAndEvaluate(q, oc.NewEvalContext(g))
		if err != nil {
			return nil, "", err
		}
		rows = v.Get().(oc.ResultSet).Rows
	}
	return rows, "", nil
}

func init() {
	demos["newest"] = func() bool {
		rows, p, err := play("CREATE (:A)", "CREATE (:B)", "MATCH (n:B) DELETE n", "CREATE (:C)", "MATCH (n) RETURN n")
		return p == "" && err == nil && len(rows) == 1
	}
	demos["parse-date-midnight"] = func() bool {
		local := time.Local
		defer func() { time.Local = local }()
		time.Local = zone("America/Sao_Paulo")
		rows, p, err := play("RETURN parseDate('2018-11-04', 'YYYY-MM-DD')")
		return p == "" && err == nil && len(rows) == 1 && same(fromNative(rows[0]["1"].Get(), nil), DateV{daysFromCivil(2018, 11, 3)})
	}
	demos["pattern-values"] = func() bool {
		rows, p, err := play("CREATE (:A {x: 1.5})", "MATCH (n {x: 1.5}) RETURN n")
		return p == "" && err == nil && len(rows) == 0
	}
	demos["merge-values"] = func() bool {
		rows, p, err := play("MERGE (:A {x: 1.5})", "MERGE (:A {x: 1.5})", "MATCH (n) RETURN n")
		return p == "" && err == nil && len(rows) == 2
	}
	demos["zero-length"] = func() bool {
		rows, p, err := play("CREATE (:A)-[:T]->(:B)", "MATCH (a:A)-[*0..1]->(b) RETURN b")
		return p == "" && err == nil && len(rows) == 1
	}
	demos["var-length-backward"] = func() bool {
		_, p, _ := play("CREATE (:A)-[:T]->()-[:T]->()-[:U]->(:C)", "MATCH (a)-[:T]->(b)-[*1..2]->(c:C) RETURN a")
		return strings.Contains(p, "Appended edge is disconnected from path")
	}
	demos["path-orientation"] = func() bool {
		rows, p, err := play("CREATE (:A)-[:T]->()-[:T]->(:C)", "MATCH (a:A)-[r*2..2]->(c:C) RETURN r", "MATCH (a)-[r*2..2]->(c:C) RETURN r")
		if p != "" || err != nil || len(rows) != 1 {
			return false
		}
		path, isPath := rows[0]["1"].Get().(*lpg.Path)
		return isPath && path.NumEdges() == 2 && path.First().HasLabel("C")
	}
	demos["path-variable"] = func() bool {
		_, p, err := play("CREATE (:A)-[:T]->(:B)", "MATCH p=(:A)-[]->() RETURN p")
		return p == "" && err != nil
	}
	demos["index-bool"] = func() bool {
		g := lpg.NewGraph()
		g.AddNodePropertyIndex("x", lpg.BtreeIndex)
		_, p, _ := playOn(g, "CREATE (:A {x: true})", "CREATE (:A {x: false})")
		return p != ""
	}
	demos["index-types"] = func() bool {
		g := lpg.NewGraph()
		g.AddNodePropertyIndex("x", lpg.BtreeIndex)
		_, p, _ := playOn(g, "CREATE (:A {x: 1})", "MATCH (n {x: 'a'}) RETURN n")
		return strings.Contains(p, "Incomparable")
	}
}
