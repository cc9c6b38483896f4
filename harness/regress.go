package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// script is a fixed history: queries on an empty graph, each in a context
// of its own. The outcome of the last one is compared to want: "error",
// "no panic", or the number of rows
type script struct {
	index   string
	queries []string
	params  map[string]interface{}
	want    string
}

func sc(want string, queries ...string) script { return script{queries: queries, want: want} }

// scripts checks fixed histories
func scripts(cases ...script) func(t *T) error {
	return func(t *T) error {
		for _, c := range cases {
			t.Logf("queries: %s", strings.Join(c.queries, "; "))
			g := lpg.NewGraph()
			if c.index != "" {
				t.Logf("  with a B-tree index on %s", c.index)
				g.AddNodePropertyIndex(c.index, lpg.BtreeIndex)
			}
			for i, q := range c.queries {
				ctx := oc.NewEvalContext(g)
				for k, v := range c.params {
					ctx.SetParameter(k, oc.ValueOf(v))
				}
				ev, perr, fail := cachedParse(q)
				if fail != nil {
					return fail
				}
				var v oc.Value
				err := perr
				if err == nil {
					v, err = ev.Evaluate(ctx)
				}
				t.Eval(true, q)
				got := "error"
				if err == nil {
					rs, isRS := v.Get().(oc.ResultSet)
					if !isRS {
						return failf("%s: the result is a %T", q, v.Get())
					}
					got = fmt.Sprint(len(rs.Rows))
				}
				switch {
				case i+1 < len(c.queries):
					if err != nil {
						return failf("%s: %v", q, err)
					}
				case c.want == "no panic":
				case got != c.want:
					return failf("%s: got %s (%v), expected %s", q, got, err, c.want)
				}
			}
		}
		return nil
	}
}

type parseResult struct {
	ev  oc.Evaluatable
	err error
}

var parseResults = map[string]parseResult{}

// cachedParse parses a text once
func cachedParse(q string) (oc.Evaluatable, error, error) {
	if r, exists := parseResults[q]; exists {
		return r.ev, r.err, nil
	}
	ev, perr, fail := parse(q)
	if fail != nil {
		return nil, nil, fail
	}
	parseResults[q] = parseResult{ev, perr}
	return ev, perr, nil
}

// both runs two regression functions
func both(a, b func(t *T) error) func(t *T) error {
	return func(t *T) error {
		if err := a(t); err != nil {
			return err
		}
		return b(t)
	}
}

// patternScripts are patterns of all shapes on graphs of different
// densities
func patternScripts() []script {
	var out []script
	graphs := []string{"CREATE (:A)", "CREATE (:A)-[:T]->(:B)", "CREATE (:A)-[:T]->(:B), (:C)", "CREATE (a:A)-[:T]->(b:B)-[:U]->(a), (a)-[:T]->(a), (:C)"}
	for _, g := range graphs {
		for _, rng := range []string{"", "*0..0", "*0..1", "*1..1", "*2..2", "*0", "*1", "*..1", "*"} {
			for _, dir := range [][2]string{{"-", "->"}, {"<-", "-"}, {"-", "-"}, {"<-", "->"}} {
				for _, typ := range []string{"", ":T", "r"} {
					q := "MATCH (a)" + dir[0] + "[" + typ + rng + "]" + dir[1] + "(b) RETURN a, b"
					if typ == "r" {
						q = "MATCH ()" + dir[0] + "[" + typ + rng + "]" + dir[1] + "(:B) RETURN r"
					}
					out = append(out, sc("no panic", g, q))
				}
			}
		}
	}
	return out
}

// addScripts adds fixed histories to the properties
func addScripts() {
	fixed := map[string]func(t *T) error{
		"C01": scripts(append(patternScripts(),
			sc("no panic", "MATCH ``=(a) RETURN a"), sc("no panic", "CREATE ``=(a) RETURN a"), sc("no panic", "CREATE (``) RETURN 1"), sc("no panic", "CREATE (a) RETURN a AS ``"), sc("no panic", "CREATE ()-[``:T]->() RETURN 1"), sc("no panic", "MERGE ``=(:A) RETURN 1"),
			sc("no panic", "RETURN 1 AS `` UNION RETURN 2 AS ``"), sc("error", "UNWIND [1] AS x RETURN x"), sc("error", "RETURN [x IN [1] | x]"), sc("error", "CREATE (:A) WITH 1 AS x RETURN x"),
		)...),
		"C04": scripts(
			sc("1", "CREATE (:A {k: 1})", "MATCH (`1a`:A) SET `1a`.k = 2 RETURN `1a`.k AS `1` ORDER BY `1`"), sc("0", "CREATE (:A), (:A)", "MATCH (`1`:A) DELETE `1`", "MATCH (n) RETURN n"),
			sc("1", "MERGE (`1`:A) ON CREATE SET `1`.k = 1", "MATCH (`2`) REMOVE `2`.x MERGE (`2`)-[`1`:R]->(`3`) RETURN `3`"), sc("2", "CREATE ``=(:A), ()", "MATCH (n) RETURN n"),
		),
		"C20": scripts(
			sc("1", "OPTIONAL MATCH (n:X) SET n.k = 1, n:A, n = {a: 1}, n += {b: 1} REMOVE n.k, n:A RETURN n"), sc("error", "OPTIONAL MATCH (n:X) SET n.k = 1/0 RETURN n"), sc("error", "CREATE ()", "MATCH (n) SET m.k = 1"),
		),
		"C12": scripts(
			sc("1", "CREATE (:A)-[:T]->(:B)", "MATCH (a:A)<-->(b:B) RETURN 1"), sc("2", "CREATE (:A)-[:T]->(:B)", "MATCH (a)<-[]->(b) RETURN 1"), sc("1", "CREATE (:A)-[:T]->(:B), (:C)", "MATCH (b)<-[:T]-(a) RETURN 1"),
			sc("2", "CREATE (:A)-[:T]->(:B), (:C)", "MATCH (b)-[:T]-(a) RETURN 1"), sc("1", "CREATE (a:A)-[:T]->(b:B)-[:T]->(a), (b)-[:T]->(b), (:C)", "MATCH (n)-->(n) RETURN n"),
		),
		"C14": scripts(
			sc("3", "CREATE (:A), (:A), (:A)", "MATCH (a:A) OPTIONAL MATCH (a)-->(b) RETURN a, b"), sc("4", "CREATE (:A), (:A)", "MATCH (a:A) MATCH (b:A) RETURN a, b"), sc("0", "CREATE (:A)-[:T]->(:B)", "OPTIONAL MATCH (a:X)-[r]->() MATCH (b)-[r]->() RETURN b"),
		),
		"C16": scripts(sc("2", "CREATE (:A), (:A), (:A)", "MATCH (a) RETURN a LIMIT 2"), sc("1", "CREATE (:A), (:A), (:A)", "MATCH (a) RETURN a SKIP 2")),
		"C19": scripts(sc("2", "CREATE (:A), (:A)", "MATCH (a:A) CREATE (b:B) RETURN b"), sc("1", "CREATE (:A {x: null})", "MATCH (a) WHERE a.x IS NULL RETURN a"), sc("2", "CREATE (a:A) CREATE (a)-[:T]->(b) CREATE (b)-[:T]->(c)", "MATCH (a)-->(b) RETURN a")),
		"C21": scripts(
			sc("0", "CREATE (:A)-[:T]->(:B)", "MATCH (a)-[r]->(b) DELETE r DELETE r DELETE a DELETE a DETACH DELETE b, b DELETE b", "MATCH (n) RETURN n"),
			sc("1", "CREATE (:A)-[:T]->(:B), (:C)", "MATCH (a)-[r]->(b) DETACH DELETE a DELETE r, a DELETE b DETACH DELETE b", "MATCH (n) RETURN n"),
			sc("1", "CREATE (:A), (:B)", "MATCH (a:A) MATCH (b) DELETE a DELETE a", "MATCH (n) RETURN n"),
		),
		"C26": scripts(
			script{index: "x", queries: []string{"CREATE (:A {x: 1})", "CREATE (:A {x: 2})", "MATCH (n {x: $p}) RETURN n"}, params: map[string]interface{}{"$p": nil}, want: "0"},
			script{index: "x", queries: []string{"CREATE (:A {x: 'a'})", "CREATE (:A {x: 'b'})-[:T]->()", "MATCH (n {x: null})-[]->() RETURN n"}, want: "0"},
			script{index: "x", queries: []string{"CREATE (:A {x: 'a'})", "MATCH (n {x: null}) RETURN n"}, want: "0"},
		),
	}
	for id, f := range fixed {
		p := props[id]
		if p.Regress != nil {
			f = both(p.Regress, f)
		}
		p.Regress = f
	}
}
