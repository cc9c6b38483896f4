package main

import (
	"fmt"
	"sort"
	"strings"
)

// shapes describes how the elements in each row are connected to each
// other, which tells rows apart whose elements are alike
func shapes(rows []map[string]V, g *MGraph) []string {
	out := []string{}
	for _, row := range rows {
		keys := sortedKeys(row)
		s := []string{}
		for _, a := range keys {
			for _, b := range keys {
				switch x := row[a].(type) {
				case NodeV:
					if y, isNode := row[b].(NodeV); isNode && a < b {
						s = append(s, fmt.Sprint(a, "=", b, x == y))
					}
				case PathV:
					l := x.list()
					if len(l) != 1 {
						continue
					}
					e := g.edge(l[0])
					switch y := row[b].(type) {
					case NodeV:
						if e != nil {
							s = append(s, fmt.Sprint(a, "-", b, e.From == y.ID, e.To == y.ID))
						}
					case PathV:
						if a < b {
							s = append(s, fmt.Sprint(a, "=", b, x == y))
						}
					}
				}
			}
		}
		out = append(out, strings.Join(s, " "))
	}
	sort.Strings(out)
	// how often each new element occurs in each column
	count := map[string]map[V]int{}
	for _, row := range rows {
		for k, v := range row {
			switch v.(type) {
			case NodeV, PathV:
				if count[k] == nil {
					count[k] = map[V]int{}
				}
				count[k][v]++
			}
		}
	}
	for _, k := range sortedKeys(count) {
		ns := []int{}
		for _, n := range count[k] {
			ns = append(ns, n)
		}
		sort.Ints(ns)
		out = append(out, fmt.Sprint(k, ns))
	}
	return out
}

// checkShapes compares the rows of an updating query in more detail
func (r *Run) checkShapes() error {
	if r.Skipped || r.Want.st != ok || len(r.Want.Parts) != 1 {
		return nil
	}
	p := r.Want.Parts[0]
	if !p.HasRet || p.Skip >= 0 || p.Limit >= 0 {
		return nil
	}
	got, want := shapes(r.Out.Rows, r.Got), shapes(p.Full, r.Model)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return failf("the elements of the rows are not connected as expected:\ngot:  %s\nwant: %s\nrows: %s", strings.Join(got, " | "), strings.Join(want, " | "), showRows(r.Out.Rows))
	}
	return nil
}

// updateCase runs a query on several graphs
func updateCase(t *T, q *QGen, query *Query, g *MGraph, more int, o GraphOpts, nontrivial func(*Run, *MGraph) bool) error {
	text := anyText(t.Src, query.marked())
	ev, err := mustParse(t, text)
	if err != nil {
		return err
	}
	for i := 0; i <= more; i++ {
		gi := g
		if i > 0 {
			if t.Pct(50) {
				gi = mutate(t.Src, g)
			} else {
				gi = genGraph(t.Src, o)
			}
		}
		env := withGraph(q.bindEnv(), gi)
		logGraph(t, fmt.Sprintf("graph %d", i), gi)
		r, err := runQuery(t, ev, query, gi, env, buildOpts(t.Src, gi))
		if err != nil {
			return err
		}
		if err := r.checkShapes(); err != nil {
			return err
		}
		t.Eval(nontrivial(r, gi), text, graphKey(gi, env))
	}
	return nil
}

// changed tells if the graph is not as before, or an error is specified
func changed(r *Run, before *MGraph) bool {
	if r.Skipped {
		return false
	}
	if r.Want.st == bad {
		return true
	}
	return strings.Join(r.Got.show(), "\n") != strings.Join(before.show(), "\n")
}

// updateReads makes the reading clauses of an updating query
func (q *QGen) updateReads() []Match {
	switch q.Weighted(6, 3, 1) {
	case 0:
		return q.simpleReads()
	case 1:
		q.pReuse = 30
		return q.reads(1+q.N(2), 2, 1, 40)
	}
	ms := q.simpleReads()
	m := &ms[len(ms)-1]
	if m.Where == nil {
		m.Where = q.condition(2)
	}
	return ms
}

// afterReads makes a RETURN clause that shows the state after the updates
func (q *QGen) showState() *Ret {
	r := q.returnAll()
	if r.Star {
		return r
	}
	for i, n := 0, q.N(4); i < n; i++ {
		if e := q.propLeaf(pick(q.Src, "int", "str", "bool", "list:int")); e != nil {
			r.Items = append(r.Items, Item{E: e, Alias: fmt.Sprintf("s%d", i)})
		}
	}
	return r
}

func init() {
	o := GraphOpts{MaxNodes: 6, MaxEdges: 8, Density: 50}
	register(&Prop{
		ID:   "C19",
		Rule: "one to three CREATE clauses of one to three patterns with new and bound nodes, all directions, labels, property maps of literals, parameters, expressions and properties of bound variables, after zero or more MATCH clauses on random graphs, compared to the reference interpreter: the graph (by refinement colours, known elements by identity), the rows, and how the elements in each row are connected; non-trivial: the graph changes, or an error is specified",
		Run: func(t *T) error {
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.gen.pNull = 6
			s := Single{}
			if t.Pct(70) {
				s.Reads = q.updateReads()
			}
			for i, n := 0, 1+t.Weighted(6, 3, 1); i < n; i++ {
				s.Updates = append(s.Updates, q.createClause(t.Weighted(8, 1)*15))
			}
			switch {
			case t.Pct(60):
				s.Ret = q.returnAll()
			case t.Pct(70):
				s.Ret = q.showState()
			}
			return updateCase(t, q, one(s), g, 5, o, changed)
		},
	})
	register(&Prop{
		ID:   "C20",
		Rule: "one to three SET and REMOVE clauses with one to four items of all kinds (property, = map or node, += map or node, labels), whose values read the properties they change, after MATCH and OPTIONAL MATCH clauses on random graphs, compared to the reference interpreter (only if the order of rows does not matter); non-trivial: the graph changes, or an error is specified",
		Run: func(t *T) error {
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.gen.pNull = 6
			q.gen.errs = t.Pct(6)
			s := Single{Reads: q.updateReads()}
			if len(q.nodes) == 0 {
				return errDiscard
			}
			for i, n := 0, 1+t.Weighted(6, 3, 1); i < n; i++ {
				if t.Pct(70) {
					s.Updates = append(s.Updates, q.setClause())
				} else {
					s.Updates = append(s.Updates, q.removeClause())
				}
			}
			if t.Pct(75) {
				s.Ret = q.showState()
				if t.Pct(20) {
					s.Ret = &Ret{Items: q.retItems(4)}
				}
			}
			return updateCase(t, q, one(s), g, 5, o, changed)
		},
	})
	register(&Prop{
		ID:   "C21",
		Rule: "DELETE and DETACH DELETE of one to three nodes, relationships, paths and nulls selected by MATCH and OPTIONAL MATCH clauses, sometimes after SET, on random graphs, compared to the reference interpreter, including that a refused deletion changes nothing; non-trivial: the graph changes, or an error is specified",
		Run: func(t *T) error {
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			s := Single{}
			switch {
			case t.Pct(25):
				p := q.pathPat(1)
				q.rangeAt(&p, 0)
				s.Reads = []Match{{Pats: []Path{p}}}
			default:
				s.Reads = q.updateReads()
			}
			if len(q.nodes)+len(q.rels)+len(q.paths) == 0 {
				return errDiscard
			}
			if t.Pct(12) && len(q.nodes) > 0 {
				s.Updates = append(s.Updates, q.setClause())
			}
			s.Updates = append(s.Updates, q.deleteClause(45))
			for t.Pct(25) {
				s.Updates = append(s.Updates, q.deleteClause(45))
			}
			if t.Pct(40) {
				s.Ret = &Ret{Items: []Item{{E: lit(1), Alias: "one"}}}
			}
			return updateCase(t, q, one(s), g, 7, o, changed)
		},
	})
}

// mergeKeys are the properties in the patterns of MERGE
func mergeKeys(us []Upd) (map[string]bool, bool) {
	keys := map[string]bool{}
	simple := true
	add := func(e *E) {
		if e == nil {
			return
		}
		if e.K != "map" {
			simple = false
		}
		for _, k := range e.Ops {
			keys[k] = true
		}
	}
	for _, u := range us {
		if u.K != "merge" {
			return nil, false
		}
		for _, p := range u.Pats {
			for _, n := range p.Nodes {
				add(n.Props)
			}
			for _, r := range p.Rels {
				add(r.Props)
			}
		}
	}
	return keys, simple
}

// keepsMerged tells if the actions of MERGE do not change what the
// patterns match
func keepsMerged(us []Upd) bool {
	keys, simple := mergeKeys(us)
	if !simple {
		return false
	}
	for _, u := range us {
		for _, a := range u.On {
			for _, it := range a.Items {
				if it.K == "assign" || it.K == "add" || (it.K == "prop" && keys[it.Key]) {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 60}
	register(&Prop{
		ID:   "C22",
		Rule: "one to three MERGE clauses with patterns of up to two relationships, new and bound nodes, properties from literals, parameters and bound variables, ON CREATE and ON MATCH, alone or for each row of MATCH and CREATE clauses, each evaluated two or three times in fresh contexts on the graph it has changed, compared to the reference interpreter; and, when the actions cannot change what the patterns match, that a repetition creates nothing; non-trivial: the graph changes, or existing elements are matched",
		Run: func(t *T) error {
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			s := Single{}
			switch {
			case t.Pct(50):
				s.Reads = q.updateReads()
			case t.Pct(25):
				s.Updates = append(s.Updates, q.createClause(0))
			}
			merges := []Upd{}
			n := 1 + t.Weighted(6, 4, 1)
			for i := 0; i < n; i++ {
				var bound []string
				if len(q.nodes) > 0 && t.Pct(75) {
					bound = append([]string{}, q.nodes...)
				}
				m := q.mergeClause(bound)
				merges = append(merges, m)
				s.Updates = append(s.Updates, m)
			}
			if t.Pct(65) {
				s.Ret = q.showState()
			}
			query := one(s)
			text := query.text()
			ev, err := mustParse(t, text)
			if err != nil {
				return err
			}
			again := len(s.Reads) == 0 && len(merges) == 1 && len(s.Updates) == 1 && keepsMerged(merges)
			for i := 0; i < 5; i++ {
				gi := g
				if i > 0 {
					if t.Pct(50) {
						gi = mutate(t.Src, g)
					} else {
						gi = genGraph(t.Src, o)
					}
				}
				se := newSession(t, gi, buildOpts(t.Src, gi))
				params := q.bindEnv().Params
				key := graphKey(gi, &Env{Params: params})
				specified := true
				for j, n := 0, 2+t.N(2); j < n; j++ {
					before := se.sizes()
					r, err := se.step(ev, query, se.open(params))
					if err != nil {
						return err
					}
					if r == nil {
						break
					}
					if r.Want.st == bad || r.Out.Err != nil {
						specified = false
					}
					if again && specified && j > 0 && before != se.sizes() {
						return failf("repeating the query changes the graph from %s to %s", before, se.sizes())
					}
					t.Eval(!r.Skipped && (se.changes > 0 || r.Exec.Matched > 0), text, key, j)
				}
			}
			return nil
		},
	})
}
