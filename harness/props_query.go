package main

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"
)

// Run is one evaluation of a query compared to the reference interpreter
type Run struct {
	Want    Result
	Out     Outcome
	Exec    *Exec
	Real    *Real
	Model   *MGraph
	Ctx     *oc.EvalContext
	CG, CW  Colours
	Got     *MGraph
	Skipped bool // the result is not specified
}

func mustParse(t *T, text string) (oc.Evaluatable, error) {
	t.Logf("query: %s", text)
	ev, perr, fail := parse(text)
	if fail != nil {
		return nil, fail
	}
	if perr != nil {
		return nil, failf("the query is rejected: %v", clip(perr.Error(), 300))
	}
	return ev, nil
}

func logGraph(t *T, title string, g *MGraph) {
	t.Logf("%s:", title)
	for _, l := range g.show() {
		t.Logf("    %s", l)
	}
}

// predict runs the reference interpreter on a copy of g
func predict(q *Query, g *MGraph, env *Env, filter func(string, V) V) (*Exec, Result) {
	x := newExec(g.clone(), env)
	x.Filter = filter
	res := x.Run(q)
	return x, res
}

// runQuery evaluates a query on a graph, and compares the result and the
// new state of the graph to the reference interpreter
func runQuery(t *T, ev oc.Evaluatable, q *Query, g *MGraph, env *Env, opts BuildOpts) (*Run, error) {
	x, want := predict(q, g, env, nil)
	if want.tooLarge(q) {
		return &Run{Want: want, Exec: x, Skipped: true}, nil
	}
	gr := build(g, opts)
	ctx := newContext(gr, env)
	r := &Run{Want: want, Exec: x, Real: gr, Model: x.G, Ctx: ctx}
	se := showEnv(env)
	if se != "" {
		t.Logf("  with %s", se)
	}
	out, fail := evaluate(ev, ctx, gr)
	if fail != nil {
		return nil, fail
	}
	r.Out = out
	return r, r.check(t, q, g)
}

func (r *Run) check(t *T, q *Query, before *MGraph) error {
	t.Logf("  result: %s", clip(r.Out.String(), 600))
	r.Got = r.Real.abstract()
	switch r.Want.st {
	case unspec:
		r.Skipped = true
		if !q.updates() {
			return r.unchanged(before)
		}
		return nil
	case bad:
		if r.Out.Err == nil {
			return failf("got %s, expected an error", clip(r.Out.String(), 600))
		}
		if !r.Exec.Dirty {
			return r.unchanged(before)
		}
		if r.Exec.Exact {
			r.CG = colours(r.Got, before.nextNode, before.nextEdge)
			r.CW = colours(r.Model, before.nextNode, before.nextEdge)
			if d := diffGraphs(r.Got, r.Model, r.CG, r.CW); d != "" {
				return failf("wrong state of the graph after the error:\n%s", d)
			}
		}
		return nil
	}
	if r.Out.Err != nil {
		return failf("got %s, expected rows", r.Out)
	}
	r.CG = colours(r.Got, before.nextNode, before.nextEdge)
	r.CW = colours(r.Model, before.nextNode, before.nextEdge)
	if d := diffResult(r.Out, r.Want, r.CG, r.CW); d != "" {
		return failf("wrong result: %s", d)
	}
	if d := diffGraphs(r.Got, r.Model, r.CG, r.CW); d != "" {
		return failf("wrong state of the graph:\n%s", d)
	}
	return nil
}

func (r *Run) unchanged(before *MGraph) error {
	if d := diffGraphs(r.Got, before, colours(r.Got, realNew, realNew), colours(before, realNew, realNew)); d != "" {
		return failf("the query must not change the graph:\n%s", d)
	}
	return nil
}

func (r *Run) rows() int {
	if r.Skipped || r.Want.st != ok {
		return 0
	}
	return len(r.Out.Rows)
}

func (q *Query) updates() bool {
	for _, p := range q.Parts {
		if len(p.Updates) > 0 {
			return true
		}
	}
	return false
}

// graphKey is a text of a graph and an environment for counting
func graphKey(g *MGraph, env *Env) string {
	return strings.Join(g.show(), ";") + showEnv(env)
}

func buildOpts(s *Src, g *MGraph) BuildOpts {
	o := BuildOpts{}
	if s.Pct(30) {
		o.NodeOrder = s.Perm(len(g.Nodes))
	}
	if s.Pct(30) {
		o.EdgeOrder = s.Perm(len(g.Edges))
	}
	o.Interleave = s.Pct(30)
	return o
}

// manyGraphs checks a query on the graph it was made for and others
func manyGraphs(t *T, q *QGen, query *Query, g *MGraph, more int, o GraphOpts, nontrivial func(*Run) bool) error {
	text := anyText(t.Src, query.marked())
	ev, err := mustParse(t, text)
	if err != nil {
		return err
	}
	for i := 0; i <= more; i++ {
		gi := g
		if i > 0 {
			if t.Pct(40) {
				gi = mutate(t.Src, g)
			} else {
				gi = genGraph(t.Src, o)
			}
		}
		env := q.bindEnv()
		env = withGraph(env, gi)
		logGraph(t, fmt.Sprintf("graph %d", i), gi)
		r, err := runQuery(t, ev, query, gi, env, buildOpts(t.Src, gi))
		if err != nil {
			return err
		}
		t.Eval(nontrivial(r), text, graphKey(gi, env))
	}
	return nil
}

// withGraph replaces the graph of an environment made by Gen, which has
// a node n for properties if the graph is not given
func withGraph(env *Env, g *MGraph) *Env {
	return &Env{Vars: env.Vars, Params: env.Params, Funcs: env.Funcs, G: g}
}

// mutate makes a small change
func mutate(s *Src, g *MGraph) *MGraph {
	c := g.clone()
	ids, eids := c.nodeIDs(), c.edgeIDs()
	for i, n := 0, 1+s.N(3); i < n; i++ {
		switch s.N(6) {
		case 0:
			if len(ids) > 0 {
				c.addEdge(pickFrom(s, ids), pickFrom(s, ids), pickFrom(s, typePool), genEdgeProps(s, 40))
			}
		case 1:
			if len(eids) > 0 {
				delete(c.Edges, pickFrom(s, eids))
			}
		case 2:
			if len(ids) > 0 {
				n := c.Nodes[pickFrom(s, ids)]
				n.Props = genNodeProps(s, 50)
			}
		case 3:
			if len(ids) > 0 {
				n := c.Nodes[pickFrom(s, ids)]
				l := pickFrom(s, labelPool[:3])
				if n.Labels[l] {
					delete(n.Labels, l)
				} else {
					n.Labels[l] = true
				}
			}
		case 4:
			if len(eids) > 0 {
				if e := c.Edges[pickFrom(s, eids)]; e != nil {
					e.From, e.To = e.To, e.From
				}
			}
		case 5:
			if len(eids) > 0 {
				if e := c.Edges[pickFrom(s, eids)]; e != nil {
					c.addEdge(e.From, e.To, e.Label, genEdgeProps(s, 40))
				}
			}
		}
	}
	return c
}

// regressQuery is a fixed query on a fixed graph
type regressQuery struct {
	q    *Query
	g    *MGraph
	env  *Env
	name string
}

func hasRows(r *Run) bool { return r.rows() > 0 || (r.Want.st == bad && !r.Skipped) }

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "single path patterns of 0 to 4 steps with random labels, types, properties, directions, repeated and anonymous variables, on random graphs (up to 14 nodes; loops, parallel relationships, stars, chains; sometimes up to 120 nodes), compared to enumeration of all embeddings; non-trivial: the query returns rows",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 9, MaxEdges: 14, Density: 45}
			if t.Pct(20) {
				o.MaxNodes, o.MaxEdges = 14, 24
			}
			big := t.Pct(6)
			if big {
				o.MaxNodes, o.MaxEdges = 120, 150
			}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.pReuse = 12
			steps := t.Weighted(2, 5, 4, 2, 1)
			p := q.pathPat(steps)
			query := one(Single{Reads: []Match{{Pats: []Path{p}}}, Ret: q.returnAll()})
			more := 7
			if big {
				more = 2
			}
			return manyGraphs(t, q, query, g, more, o, hasRows)
		},
	})
	register(&Prop{
		ID:   "C13",
		Rule: "path patterns with variable length relationships, exact, bounded, half open and unbounded, alone or in longer patterns that start at a bound node, on random graphs with cycles, loops and parallel relationships, compared to enumeration of all paths without repeated relationships; non-trivial: the query returns rows",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 6, MaxEdges: 8, Density: 35}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.pReuse = 8
			var reads []Match
			multi := t.Pct(40)
			pats := []Path{}
			if multi {
				// the first node must be bound
				first := q.pathPat(0)
				if first.Nodes[0].Var == "" {
					first.Nodes[0].Var = q.fresh("n")
					q.nodes = append(q.nodes, first.Nodes[0].Var)
				}
				p := q.pathPat(1 + t.N(3))
				// it is the first node of the path as well
				old := p.Nodes[0].Var
				p.Nodes[0] = NodePat{Var: first.Nodes[0].Var}
				q.dropUnused(old, first, p)
				for i := range p.Rels {
					if t.Pct(60) {
						q.rangeAt(&p, i)
					}
				}
				if t.Bool() {
					pats = append(pats, first, p)
					reads = append(reads, Match{Pats: pats})
				} else {
					reads = append(reads, Match{Pats: []Path{first}}, Match{Pats: []Path{p}})
				}
			} else {
				p := q.pathPat(1)
				q.rangeAt(&p, 0)
				reads = append(reads, Match{Pats: []Path{p}})
			}
			if len(q.paths) > 0 && t.Pct(25) {
				// the paths found are looked for again
				p := q.pathPat(1)
				q.rangeAt(&p, 0)
				q.forget(p.Rels[0].Var)
				r := &p.Rels[0]
				r.Var, r.Types, r.Props = pickFrom(t.Src, q.paths), nil, nil
				if t.Bool() {
					r.Exact, r.Min, r.Max = false, -1, -1
				}
				for i := range p.Nodes {
					p.Nodes[i].Props = nil
					if t.Bool() {
						p.Nodes[i].Labels = nil
					}
				}
				reads = append(reads, Match{Pats: []Path{p}})
			}
			ret := q.returnAll()
			if len(q.paths) > 0 && t.Pct(10) {
				// only single relationships have properties
				ret.Items = append(ret.Items, Item{E: prop(variable(pickFrom(t.Src, q.paths)), pick(t.Src, "w", "t")), Alias: "ps"})
			}
			query := one(Single{Reads: reads, Ret: ret})
			return manyGraphs(t, q, query, g, 5, o, hasRows)
		},
	})
}

// reads makes MATCH clauses that share variables
func (q *QGen) reads(clauses, maxPats, maxSteps int, optional int) []Match {
	var out []Match
	for i := 0; i < clauses; i++ {
		m := Match{}
		if i > 0 {
			q.earlier = append([]string{}, q.nodes...)
			m.Optional = q.Pct(optional)
		}
		for j, n := 0, 1+q.N(maxPats); j < n; j++ {
			known := append([]string{}, q.rels...)
			p := q.pathPat(q.Weighted(3, 5, 2) % (maxSteps + 1))
			// relationships can be shared as well
			for k := range p.Rels {
				if len(known) > 0 && q.Pct(15) && p.Rels[k].Var != "" {
					old := p.Rels[k].Var
					v := pickFrom(q.Src, known)
					used := false
					for l := range p.Rels {
						used = used || p.Rels[l].Var == v
					}
					if !used {
						p.Rels[k].Var = v
						q.rels = without(q.rels, old)
					}
				}
			}
			m.Pats = append(m.Pats, p)
		}
		if q.Pct(15) {
			m.Where = q.condition(1)
		}
		out = append(out, m)
	}
	return out
}

// condition makes the condition of WHERE
func (q *QGen) condition(depth int) *E {
	return q.gen.expr("bool", depth)
}

func without(list []string, x string) []string {
	out := []string{}
	for _, v := range list {
		if v != x {
			out = append(out, v)
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "one to three MATCH and OPTIONAL MATCH clauses of one to three path patterns that share node and relationship variables, also repeated in a pattern, on random graphs, compared to the join of the enumerated embeddings; non-trivial: the query returns rows",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 5, MaxEdges: 7, Density: 50}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.pReuse = 45
			q.pAnon = 15
			clauses := 1 + t.Weighted(4, 5, 2)
			query := one(Single{Reads: q.reads(clauses, 3-clauses/2, 2, 35), Ret: q.returnAll()})
			return manyGraphs(t, q, query, g, 6, o, hasRows)
		},
	})
}

// amount makes the operand of SKIP or LIMIT
func (q *QGen) amount(n int) *E {
	switch q.Weighted(5, 2, 1, 1, 1) {
	case 1:
		return q.paramFor(n)
	case 2:
		return bin("+", lit(n-n/2), lit(n/2))
	case 3:
		return fn("size", lit(strings.Repeat("x", n%50)))
	case 4:
		return &E{K: "case", G: true, A: []*E{cmp("=", lit(n), q.paramFor(n)), lit(n), lit(n + 1)}}
	}
	return lit(n)
}

func (q *QGen) window(r *Ret, total int) {
	if q.Pct(40) {
		r.Skip = q.amount(q.N(total + 2))
	}
	if q.Pct(50) {
		r.Limit = q.amount(q.N(total + 2))
	}
}

// orderBy adds sort keys
func (q *QGen) orderBy(r *Ret) {
	for i, n := 0, 1+q.Weighted(4, 3, 1); i < n; i++ {
		o := OrderItem{}
		aliases := []string{}
		for _, it := range r.Items {
			if it.Alias != "" && (it.E.K == "prop" || it.E.K == "bin") {
				aliases = append(aliases, it.Alias)
			}
		}
		switch {
		case len(aliases) > 0 && q.Pct(40):
			o.E = variable(pickFrom(q.Src, aliases))
		case q.Pct(75):
			o.E = q.propLeaf(pick(q.Src, "int", "str", "float", "bool"))
			if o.E == nil {
				o.E = lit(1)
			}
		case q.Pct(20):
			// values of two types
			c := q.propLeaf(pick(q.Src, "int", "int", "str"))
			if c == nil {
				c = lit(1)
			}
			o.E = &E{K: "case", G: true, A: []*E{unary(pick(q.Src, "isnull", "notnull"), c), q.storedValue("int", 30), q.storedValue("str", 30)}}
		default:
			o.E = q.gen.expr(pick(q.Src, "int", "str", "bool"), 2)
		}
		switch q.N(5) {
		case 1:
			o.Desc, o.Word = true, "DESC"
		case 2:
			o.Desc, o.Word = true, "DESCENDING"
		case 3:
			o.Word = "ASC"
		case 4:
			o.Word = "ASCENDING"
		}
		r.Order = append(r.Order, o)
	}
}

// simpleReads makes a MATCH clause that usually has several rows
func (q *QGen) simpleReads() []Match {
	switch q.Weighted(6, 2, 1) {
	case 0:
		p := Path{Nodes: []NodePat{{Var: q.fresh("n")}}}
		q.nodes = append(q.nodes, p.Nodes[0].Var)
		if q.Pct(30) {
			p.Nodes[0].Labels = []string{pickFrom(q.Src, q.labels)}
		}
		if q.Pct(50) {
			r := RelPat{Dir: q.N(4)}
			if q.Bool() {
				r.Var = q.fresh("r")
				q.rels = append(q.rels, r.Var)
			}
			if q.Pct(30) {
				r.Types = []string{pickFrom(q.Src, typePool)}
			}
			n := NodePat{Var: q.fresh("n")}
			q.nodes = append(q.nodes, n.Var)
			p.Rels = append(p.Rels, r)
			p.Nodes = append(p.Nodes, n)
		}
		return []Match{{Pats: []Path{p}}}
	case 1:
		return []Match{{Pats: []Path{q.pathPat(1)}}}
	}
	return q.reads(2, 1, 1, 50)
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "MATCH clauses with random conditions of depth up to 4 over properties, parameters, variables and literals, including nulls and failing operands, on random graphs, compared to filtering the enumerated embeddings; for each condition c also NOT c and c IS NULL, whose rows must partition those of the MATCH without condition; non-trivial: some but not all rows are kept, or the condition fails",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 7, MaxEdges: 9, Density: 65}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			var reads []Match
			if t.Pct(70) {
				reads = q.simpleReads()
			} else {
				reads = q.reads(1+t.N(2), 2, 1, 40)
			}
			q.gen.errs = t.Pct(25)
			q.gen.pNull = 8
			m := &reads[t.N(len(reads))]
			full := make([]Match, len(reads))
			ret := q.returnAll()
			// the condition may use variables of later clauses only in the last one
			m = &reads[len(reads)-1]
			m.Where = nil
			copy(full, reads)
			c := q.condition(1 + t.N(4))
			if t.Pct(50) {
				ot := pick(t.Src, "int", "str", "int", "float")
				if e := q.propLeaf(ot); e != nil {
					var x *E = lit(smallValue(t.Src, ot))
					if t.Bool() {
						x = q.gen.expr(ot, 1)
					}
					simple := cmp(pick(t.Src, "=", "<>", "<", "<=", ">", ">="), e, x)
					c = simple
					if t.Bool() {
						c = nary(pick(t.Src, "and", "or", "xor"), simple, q.condition(1+t.N(2)))
					}
				}
			}
			variants := []*E{c}
			if t.Pct(20) {
				variants = append(variants, not(parens(c)), unary("isnull", parens(c)))
			}
			envs := []*Env{}
			graphs := []*MGraph{}
			for i := 0; i < 8; i++ {
				gi := g
				if i > 0 {
					if t.Bool() {
						gi = mutate(t.Src, g)
					} else {
						gi = genGraph(t.Src, o)
					}
				}
				graphs = append(graphs, gi)
				envs = append(envs, withGraph(q.bindEnv(), gi))
			}
			counts := make([]int, len(graphs))
			partition := make([]bool, len(graphs))
			for i := range partition {
				partition[i] = len(variants) == 3 && !m.Optional
			}
			for _, w := range variants {
				m.Where = w
				query := one(Single{Reads: reads, Ret: ret})
				text := query.text()
				ev, err := mustParse(t, text)
				if err != nil {
					return err
				}
				for i, gi := range graphs {
					logGraph(t, fmt.Sprintf("graph %d", i), gi)
					r, err := runQuery(t, ev, query, gi, envs[i], buildOpts(t.Src, gi))
					if err != nil {
						return err
					}
					if r.Skipped || r.Want.st != ok {
						partition[i] = false
					} else {
						counts[i] += r.rows()
					}
					_, all := predict(one(Single{Reads: full, Ret: ret}), gi, envs[i], nil)
					some := r.Want.st == bad && !r.Skipped
					if all.st == ok && !r.Skipped && r.Want.st == ok {
						n := len(all.Parts[0].Full)
						some = r.rows() > 0 && r.rows() < n
					}
					t.Eval(some, text, graphKey(gi, envs[i]))
				}
			}
			for i, gi := range graphs {
				if !partition[i] {
					continue
				}
				query := one(Single{Reads: full, Ret: ret})
				out, err := runText(query.text(), newContext(build(gi, BuildOpts{}), envs[i]), nil)
				if err != nil {
					return err
				}
				if out.Err != nil {
					return failf("the query without condition fails: %v", out.Err)
				}
				if len(out.Rows) != counts[i] {
					return failf("graph %d: %d rows without condition, but %d rows with the condition, its negation, or its test for null", i, len(out.Rows), counts[i])
				}
			}
			return nil
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "RETURN of variables, properties, expressions and * with and without aliases, with SKIP and LIMIT given as literals, parameters and expressions, after MATCH clauses on random graphs or without any, compared to projecting the enumerated rows; for fully ordered results also windows that tile the result; non-trivial: rows are returned, or an error is specified",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 7, MaxEdges: 9, Density: 60}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			if t.Pct(12) {
				return tiling(t, q, g)
			}
			var reads []Match
			if t.Pct(85) {
				reads = q.simpleReads()
			}
			q.gen.errs = t.Pct(15)
			ret := &Ret{Items: q.retItems(5)}
			switch {
			case t.Pct(15) && len(reads) > 0:
				ret = &Ret{Star: true}
				if t.Pct(60) {
					ret.Items = q.retItems(3)
				}
			}
			if t.Pct(60) {
				q.window(ret, t.N(12))
			}
			query := one(Single{Reads: reads, Ret: ret})
			return manyGraphs(t, q, query, g, 6, o, hasRows)
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "RETURN with DISTINCT, ORDER BY with up to three keys and directions, SKIP and LIMIT in all combinations, on random graphs with duplicate and missing property values, compared to deduplicating and sorting the enumerated rows (rows with equal keys in any order); non-trivial: at least two rows before SKIP and LIMIT",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 10, MaxEdges: 10, Density: 75}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			reads := q.simpleReads()
			ret := &Ret{Distinct: t.Pct(50)}
			if ret.Distinct && t.Pct(75) {
				// properties have duplicates
				for i, n := 0, 1+t.N(3); i < n; i++ {
					e := q.propLeaf(pick(t.Src, "int", "str", "bool", "list:int", "float"))
					if e == nil {
						e = lit(1)
					}
					it := Item{E: e}
					if t.Bool() {
						it.Alias = fmt.Sprintf("x%d", i)
					}
					ret.Items = append(ret.Items, it)
				}
			} else {
				ret.Items = q.retItems(4)
			}
			if !ret.Distinct || t.Pct(60) {
				q.orderBy(ret)
				if ret.Distinct && t.Pct(70) {
					// sort by what is returned
					for i := range ret.Order {
						ret.Order[i].E = pickFrom(t.Src, ret.Items).E
					}
				}
			}
			if t.Pct(45) {
				q.window(ret, 8)
			}
			query := one(Single{Reads: reads, Ret: ret})
			return manyGraphs(t, q, query, g, 6, o, func(r *Run) bool {
				return !r.Skipped && (r.Want.st == bad || (r.Want.st == ok && len(r.Want.Parts[0].Full) > 1))
			})
		},
	})
	register(&Prop{
		ID:   "C18",
		Rule: "UNION and UNION ALL of two to four queries returning the same columns of numbers, strings, lists, maps, nulls, nodes and relationships with many duplicates within and between the sides, compared to the multiset or set union of the enumerated rows; non-trivial: at least two rows",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 6, MaxEdges: 7, Density: 70}
			g := genGraph(t.Src, o)
			var query Query
			cols := 1 + t.N(3)
			kinds := []string{}
			for i := 0; i < cols; i++ {
				kinds = append(kinds, pick(t.Src, "int", "str", "node", "rel", "mixed", "list:int", "map", "bool"))
			}
			named := t.Pct(70)
			var gen *Gen
			n := 2 + t.Weighted(60, 30, 10, 3, 3, 2)
			kind := t.Bool()
			// the queries of a UNION can use the same names
			apart := pick(t.Src, 0, 0, 1, 20)
			for i := 0; i < n; i++ {
				q := newQGen(t.Src, g)
				q.names = i * apart
				if gen == nil {
					gen = q.gen
				} else {
					q.gen = gen
					gen.hook = q.propLeaf
				}
				var reads []Match
				if t.Pct(80) {
					reads = q.simpleReads()
				}
				q.gen.pNull = 10
				ret := &Ret{Distinct: t.Pct(15)}
				for c, k := range kinds {
					it := Item{E: q.unionValue(k)}
					if named {
						it.Alias = fmt.Sprintf("c%d", c)
					}
					ret.Items = append(ret.Items, it)
				}
				if t.Pct(10) {
					// all rows in order, which is not kept by UNION
					ret.Order = []OrderItem{{E: lit(1)}}
				}
				part := Single{Reads: reads, Ret: ret}
				if len(reads) > 0 && len(q.nodes) > 0 && t.Pct(4) {
					// a query that returns nothing
					part.Ret, part.Updates = nil, []Upd{q.setClause()}
				}
				query.Parts = append(query.Parts, part)
				if i > 0 {
					// either all of them or none
					query.All = append(query.All, kind)
				}
			}
			if t.Pct(10) {
				for i := range query.All {
					query.All[i] = t.Bool()
				}
			}
			q := newQGen(t.Src, g)
			q.gen = gen
			return manyGraphs(t, q, &query, g, 6, o, func(r *Run) bool { return r.rows() > 1 })
		},
	})
}

// unionValue makes a returned value of a kind
func (q *QGen) unionValue(kind string) *E {
	leaf := func(t string) *E {
		if q.Pct(70) {
			if e := q.propLeaf(t); e != nil {
				return e
			}
		}
		if q.Pct(12) {
			return lit(nil)
		}
		return lit(smallValue(q.Src, t))
	}
	switch kind {
	case "node":
		if len(q.nodes) > 0 {
			return variable(pickFrom(q.Src, q.nodes))
		}
		return lit(nil)
	case "rel":
		if len(q.rels) > 0 {
			return variable(pickFrom(q.Src, q.rels))
		}
		return lit(nil)
	case "mixed":
		return leaf(pick(q.Src, "int", "str", "bool", "list:int"))
	case "map":
		e := &E{K: "map"}
		for _, k := range []string{"a", "b"} {
			if q.Pct(70) {
				e.Ops = append(e.Ops, k)
				e.A = append(e.A, leaf("int"))
			}
		}
		return e
	case "list:int":
		if q.Bool() {
			return leaf(kind)
		}
		e := &E{K: "list"}
		for i, n := 0, q.N(3); i < n; i++ {
			e.A = append(e.A, leaf("int"))
		}
		return e
	}
	return leaf(kind)
}

// tiling checks that consecutive windows of a fully ordered result are
// the result
func tiling(t *T, q *QGen, g *MGraph) error {
	// a key that is different in all rows
	for i, id := range g.nodeIDs() {
		g.Nodes[id].Props["u"] = i*7%101 - 50
	}
	q.nodes = []string{"n"}
	base := Single{Reads: []Match{{Pats: []Path{{Nodes: []NodePat{{Var: "n"}}}}}}}
	key := OrderItem{E: prop(variable("n"), "u"), Desc: t.Bool()}
	if key.Desc {
		key.Word = "DESC"
	}
	run := func(skip, limit *E) ([]string, error) {
		s := base
		s.Ret = &Ret{Items: []Item{{E: prop(variable("n"), "u"), Alias: "u"}}, Order: []OrderItem{key}, Skip: skip, Limit: limit}
		query := one(s)
		text := query.text()
		ev, err := cached(text)
		if err != nil {
			return nil, err
		}
		t.Logf("query: %s", text)
		r, err := runQuery(t, ev, query, g, &Env{Params: q.gen.fixed, G: g}, BuildOpts{})
		if err != nil {
			return nil, err
		}
		if r.Skipped || r.Out.Err != nil {
			return nil, failf("no rows: %s", r.Out)
		}
		rows := []string{}
		for _, row := range r.Out.Rows {
			rows = append(rows, showRow(row))
		}
		t.Eval(len(rows) > 1, text, graphKey(g, nil2env(q.gen.fixed)))
		return rows, nil
	}
	logGraph(t, "graph", g)
	all, err := run(nil, nil)
	if err != nil {
		return err
	}
	size := 1 + t.N(4)
	var tiles []string
	for at := 0; at < len(all)+size; at += size {
		if q.gen.fixed == nil {
			q.gen.fixed = map[string]V{}
		}
		q.gen.fixed["$s"], q.gen.fixed["$l"] = at, size
		rows, err := run(param("s"), param("l"))
		if err != nil {
			return err
		}
		tiles = append(tiles, rows...)
	}
	if strings.Join(tiles, "|") != strings.Join(all, "|") {
		return failf("windows of %d rows give %v, the result is %v", size, tiles, all)
	}
	return nil
}

func nil2env(p map[string]V) *Env { return &Env{Params: p} }

// rangeAt makes relationship i of a path one of variable length
func (q *QGen) rangeAt(p *Path, i int) {
	r := &p.Rels[i]
	q.makeRange(r)
	if r.Var != "" {
		for j, v := range q.rels {
			if v == r.Var {
				q.rels = append(append([]string{}, q.rels[:j]...), q.rels[j+1:]...)
				break
			}
		}
		q.paths = append(q.paths, r.Var)
	}
}

// forget removes a variable of a path
func (q *QGen) forget(name string) {
	for j, v := range q.paths {
		if v == name {
			q.paths = append(append([]string{}, q.paths[:j]...), q.paths[j+1:]...)
			return
		}
	}
}

// dropUnused forgets a variable that no pattern contains
func (q *QGen) dropUnused(name string, pats ...Path) {
	if name == "" {
		return
	}
	for _, p := range pats {
		for _, v := range p.vars() {
			if v == name {
				return
			}
		}
	}
	for j, v := range q.nodes {
		if v == name {
			q.nodes = append(append([]string{}, q.nodes[:j]...), q.nodes[j+1:]...)
			return
		}
	}
}
