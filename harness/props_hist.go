package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C24

// bindVars tells a generator which variables are bound in a context
func (q *QGen) bindVars(env *Env) {
	for _, k := range sortedKeys(env.Vars) {
		switch v := env.Vars[k].(type) {
		case NodeV:
			q.nodes = append(q.nodes, k)
		case PathV:
			if len(v.list()) == 1 {
				q.rels = append(q.rels, k)
			}
		}
	}
}

// visible is what a context sees: its own variables and those of the
// contexts it belongs to
func visible(chain ...*Env) *Env {
	e := &Env{Vars: map[string]V{}, Params: map[string]V{}}
	for _, c := range chain {
		for k, v := range c.Vars {
			e.Vars[k] = v
		}
		for k, v := range c.Params {
			e.Params[k] = v
		}
	}
	return e
}

// mustExport checks that the variables of the last projected row stay
// bound
func (s *Session) mustExport(r *Run, c *sessionCtx) error {
	if r == nil || r.Skipped || r.Want.st != ok {
		return nil
	}
	for i, p := range r.Want.Parts {
		if !p.HasRet || p.Skip >= 0 || p.Limit >= 0 || i >= len(r.Exec.FinalRows) || len(r.Exec.FinalRows[i]) == 0 {
			continue
		}
		for k := range r.Exec.FinalRows[i][0] {
			if _, bound := c.env.Vars[k]; !bound {
				if _, err := c.ctx.GetVar(k); err != nil {
					return failf("the variable %s of the query is not bound in the context", k)
				}
			}
		}
	}
	return nil
}

// unionQuery makes a UNION of queries that bind variables of the same
// names
func (q *QGen) unionQuery() *Query {
	query := &Query{}
	nodes, rels, names := q.nodes, q.rels, q.names
	last := names
	all := q.Bool()
	for j, n := 0, 2+q.Weighted(3, 1); j < n; j++ {
		q.nodes, q.rels = append([]string{}, nodes...), append([]string{}, rels...)
		if q.Pct(60) {
			q.names = names
		}
		sg := Single{Reads: q.reads(1, 2, 2, 20)}
		sg.Ret = &Ret{Items: []Item{{E: q.unionValue(pick(q.Src, "int", "node")), Alias: "c"}}}
		query.Parts = append(query.Parts, sg)
		if j > 0 {
			query.All = append(query.All, all)
		}
		if q.names > last {
			last = q.names
		}
	}
	q.names = last
	return query
}

func scopeCase(t *T) error {
	o := GraphOpts{MaxNodes: 6, MaxEdges: 8, Density: 60}
	g := genGraph(t.Src, o)
	s := newSession(t, g, buildOpts(t.Src, g))
	params := map[string]V{"$a": t.Range(0, 3), "$b": "x"}
	root, other := s.open(params), s.open(params)
	names := 0
	for i, n := 0, 2+t.N(4); i < n; i++ {
		c := root
		which := "context 1"
		if t.Pct(30) {
			c, which = other, "context 2"
		}
		q := newQGen(t.Src, s.g)
		q.names = names
		q.bindVars(c.env)
		q.pReuse = 45
		var query *Query
		switch t.Weighted(6, 2, 2, 2) {
		case 3:
			// the variables of all queries of a UNION
			query = q.unionQuery()
		case 0:
			sg := Single{Reads: q.reads(1, 2, 2, 0)}
			sg.Ret = &Ret{}
			for _, v := range append(append([]string{}, q.nodes...), q.rels...) {
				sg.Ret.Items = append(sg.Ret.Items, Item{E: variable(v), Alias: v})
			}
			if len(sg.Ret.Items) == 0 {
				sg.Ret.Items = []Item{{E: lit(1)}}
			}
			query = one(sg)
		case 1:
			query = one(Single{Updates: []Upd{q.createClause(0)}, Ret: q.showState()})
		case 2:
			query = one(Single{Updates: []Upd{q.mergeClause(append([]string{}, q.nodes...))}, Ret: q.showState()})
		}
		names = q.names
		more := map[string]V{}
		for k, v := range q.bindEnv().Params {
			more[k] = v
		}
		for k, v := range q.bindEnv().Vars {
			c.env.Vars[k] = v
			c.ctx.SetVar(k, toValue(v, s.real))
		}
		c.setParams(s, more)
		t.Logf("%s", which)
		ev, err := mustParse(t, query.text())
		if err != nil {
			return err
		}
		bound := len(c.env.Vars)
		r, err := s.step(ev, query, c)
		if err != nil {
			return err
		}
		if err := s.mustExport(r, c); err != nil {
			return err
		}
		// the other one is not affected
		for _, x := range s.ctxs {
			if x == c {
				continue
			}
			for k := range x.ctx.GetVarsNearestScope() {
				if _, known := x.env.Vars[k]; !known {
					return failf("the variable %s appears in the other context", k)
				}
			}
			for k, v := range x.env.Vars {
				got, err := x.ctx.GetVar(k)
				if err != nil || show(fromOC(got, s.real)) != show(v) {
					return failf("the variable %s of the other context is %v (%v), it was %s", k, got, err, show(v))
				}
			}
		}
		t.Eval(r != nil && bound > 0 && hasRows(r), query.text(), graphKey(s.g, c.env))
	}
	return nil
}

// subCase checks variables and parameters in subcontexts
func subCase(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 5, Density: 60})
	gr := build(g, BuildOpts{})
	logGraph(t, "graph", g)
	type scope struct {
		ctx    *oc.EvalContext
		env    *Env
		parent *scope
	}
	scopes := []*scope{{ctx: oc.NewEvalContext(gr.g), env: &Env{Vars: map[string]V{}, Params: map[string]V{}}}}
	see := func(s *scope) *Env {
		chain := []*Env{}
		for x := s; x != nil; x = x.parent {
			chain = append([]*Env{x.env}, chain...)
		}
		e := visible(chain...)
		e.G = g
		return e
	}
	gen := newGen(t.Src, "arith", "list", "str")
	value := func() V {
		if t.Pct(10) {
			return nil
		}
		if len(g.Nodes) > 0 && t.Pct(25) {
			return NodeV{pickFrom(t.Src, g.nodeIDs())}
		}
		return gen.value(pick(t.Src, "int", "str", "list:int", "bool"))
	}
	vars := []string{"x", "y", "z"}
	params := []string{"$p", "$q"}
	index := func(s *scope) int {
		for i, x := range scopes {
			if x == s {
				return i
			}
		}
		return -1
	}
	for i, n := 0, 4+t.N(10); i < n; i++ {
		s := pickFrom(t.Src, scopes)
		switch t.Weighted(2, 4, 2, 1, 4) {
		case 0:
			if len(scopes) < 5 {
				scopes = append(scopes, &scope{ctx: s.ctx.SubContext(), env: &Env{Vars: map[string]V{}, Params: map[string]V{}}, parent: s})
				t.Logf("context %d is a subcontext of %d", len(scopes)-1, index(s))
			}
		case 1:
			k, v := pickFrom(t.Src, vars), value()
			t.Logf("context %d: %s = %s", index(s), k, show(v))
			s.env.Vars[k] = v
			s.ctx.SetVar(k, toValue(v, gr))
		case 2:
			k, v := pickFrom(t.Src, params), value()
			t.Logf("context %d: %s = %s", index(s), k, show(v))
			s.env.Params[k] = v
			s.ctx.SetParameter(k, toValue(v, gr))
		case 3:
			k := pickFrom(t.Src, vars)
			t.Logf("context %d: remove %s", index(s), k)
			delete(s.env.Vars, k)
			s.ctx.RemoveVar(k)
		case 4:
			// a query in this context
			switch t.N(3) {
			case 0:
				// expressions do not bind anything
				var e *E
				k := pickFrom(t.Src, vars)
				e = listOf(variable(k), param(pick(t.Src, "p", "q")))
				text := "RETURN " + plain(e.text(0)) + " AS r"
				ev, err := cached(text)
				if err != nil {
					return err
				}
				out, fail := evaluate(ev, s.ctx, gr)
				if fail != nil {
					return fail
				}
				t.Logf("context %d: %s: %s", index(s), text, clip(out.String(), 200))
				if err := checkSingle(out, e.eval(see(s)), "r"); err != nil {
					return err
				}
				t.Eval(s.parent != nil, text, show(Map(see(s).Vars)), show(Map(see(s).Params)))
			case 1:
				// binds m to the last node, in this context only
				text := "MATCH (m) RETURN m AS m"
				env := see(s)
				if _, bound := env.Vars["m"]; bound {
					continue
				}
				ev, err := cached(text)
				if err != nil {
					return err
				}
				out, fail := evaluate(ev, s.ctx, gr)
				if fail != nil {
					return fail
				}
				t.Logf("context %d: %s: %s", index(s), text, clip(out.String(), 200))
				if out.Err != nil || len(out.Rows) != len(g.Nodes) {
					return failf("got %s, expected %d rows", out, len(g.Nodes))
				}
				if len(out.Rows) > 0 {
					s.env.Vars["m"] = out.Rows[len(out.Rows)-1]["m"]
				}
				t.Eval(true, text, graphKey(g, env))
			case 2:
				// a bound variable constrains the pattern
				k := pick(t.Src, "x", "y", "m")
				env := see(s)
				v, bound := env.Vars[k]
				id, isNode := v.(NodeV)
				if !bound || !isNode {
					continue
				}
				text := "MATCH (" + k + ") RETURN " + k + " AS r"
				ev, err := cached(text)
				if err != nil {
					return err
				}
				out, fail := evaluate(ev, s.ctx, gr)
				if fail != nil {
					return fail
				}
				t.Logf("context %d: %s: %s", index(s), text, clip(out.String(), 200))
				if out.Err != nil || len(out.Rows) != 1 || !same(out.Rows[0]["r"], id) {
					return failf("got %s, expected the row r=%s", out, show(id))
				}
				// the query has bound it here
				s.env.Vars[k] = v
				t.Eval(true, text, show(id), index(s))
			}
		}
		// every context sees what it should
		for _, x := range scopes {
			env := see(x)
			for _, k := range append([]string{"m", "nope"}, vars...) {
				got, err := x.ctx.GetVar(k)
				want, bound := env.Vars[k]
				switch {
				case (err == nil) != bound:
					return failf("context %d: variable %s: %v, %v; expected bound: %v", index(x), k, got, err, bound)
				case bound && !same(fromOC(got, gr), want):
					return failf("context %d: variable %s is %s, expected %s", index(x), k, show(fromOC(got, gr)), show(want))
				}
			}
			for _, k := range append([]string{"$nope", "p"}, params...) {
				got, err := x.ctx.GetParameter(k)
				want, bound := env.Params[k]
				switch {
				case (err == nil) != bound:
					return failf("context %d: parameter %s: %v, %v; expected bound: %v", index(x), k, got, err, bound)
				case bound && !same(fromOC(got, gr), want):
					return failf("context %d: parameter %s is %s, expected %s", index(x), k, show(fromOC(got, gr)), show(want))
				}
			}
		}
		t.Eval(len(scopes) > 1, "scopes", i, len(scopes))
	}
	return nil
}

// substitute replaces the parameters that have values with literals
func substitute(e *E, params map[string]V) *E {
	if e == nil {
		return nil
	}
	if e.K == "param" {
		if v, exists := params[e.S]; exists && hasLiteral(v) {
			return lit(v)
		}
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, substitute(a, params))
	}
	return &c
}

func (q *Query) mapExprs(f func(*E) *E) *Query {
	c := &Query{All: q.All}
	for _, p := range q.Parts {
		s := Single{}
		pats := func(in []Path) []Path {
			var out []Path
			for _, x := range in {
				y := Path{Var: x.Var}
				for _, n := range x.Nodes {
					n.Props = f(n.Props)
					y.Nodes = append(y.Nodes, n)
				}
				for _, r := range x.Rels {
					r.Props = f(r.Props)
					y.Rels = append(y.Rels, r)
				}
				out = append(out, y)
			}
			return out
		}
		items := func(in []SetItem) []SetItem {
			var out []SetItem
			for _, x := range in {
				x.E = f(x.E)
				out = append(out, x)
			}
			return out
		}
		for _, m := range p.Reads {
			m.Pats = pats(m.Pats)
			m.Where = f(m.Where)
			s.Reads = append(s.Reads, m)
		}
		for _, u := range p.Updates {
			u.Pats = pats(u.Pats)
			u.Items = items(u.Items)
			var es []*E
			for _, e := range u.Exprs {
				es = append(es, f(e))
			}
			u.Exprs = es
			var on []Action
			for _, a := range u.On {
				a.Items = items(a.Items)
				on = append(on, a)
			}
			u.On = on
			s.Updates = append(s.Updates, u)
		}
		if p.Ret != nil {
			r := *p.Ret
			r.Items, r.Order = nil, nil
			for _, it := range p.Ret.Items {
				it.E = f(it.E)
				r.Items = append(r.Items, it)
			}
			for _, o := range p.Ret.Order {
				o.E = f(o.E)
				r.Order = append(r.Order, o)
			}
			r.Skip, r.Limit = f(r.Skip), f(r.Limit)
			s.Ret = &r
		}
		c.Parts = append(c.Parts, s)
	}
	return c
}

// paramCase checks that parameters are the same as literals, and that
// unknown names are errors
func paramCase(t *T) error {
	o := GraphOpts{MaxNodes: 6, MaxEdges: 7, Density: 60}
	g := genGraph(t.Src, o)
	q := newQGen(t.Src, g)
	q.gen.pWrong = 4
	var query *Query
	if t.Pct(50) {
		query = q.readQuery()
	} else {
		query = q.updateQuery()
	}
	if len(q.gen.params) == 0 {
		return errDiscard
	}
	env := withGraph(q.bindEnv(), g)
	written := query.mapExprs(func(e *E) *E { return substitute(e, env.Params) })
	opts := buildOpts(t.Src, g)
	logGraph(t, "graph", g)
	var rows [2]int
	for i, qq := range []*Query{query, written} {
		ev, err := mustParse(t, qq.text())
		if err != nil {
			return err
		}
		r, err := runQuery(t, ev, qq, g, env, opts)
		if err != nil {
			return err
		}
		rows[i] = len(r.Out.Rows)
		if r.Out.Err != nil {
			rows[i] = -1
		}
		t.Eval(hasRows(r), qq.text(), graphKey(g, env))
	}
	if rows[0] != rows[1] {
		return failf("%d rows with parameters, %d rows with literals", rows[0], rows[1])
	}
	// without one of the parameters
	if t.Pct(30) {
		ps := cloneMap(env.Params)
		delete(ps, pickFrom(t.Src, sortedKeys(ps)))
		ev, err := mustParse(t, query.text())
		if err != nil {
			return err
		}
		r, err := runQuery(t, ev, query, g, &Env{Params: ps, Vars: env.Vars, G: g}, opts)
		if err != nil {
			return err
		}
		t.Eval(r.Out.Err != nil, query.text(), graphKey(g, env), "unknown")
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "sequences of queries in two contexts on one graph that reuse variables bound by earlier queries, compared to the reference interpreter and to the variables seen through the API; trees of subcontexts with random setting, removing and reading of variables and parameters, compared to a model of scopes; queries with parameters compared to the same queries with literals in their place, and with a parameter removed; non-trivial: variables of earlier queries or contexts are used, or rows are returned",
		Run: func(t *T) error {
			switch t.Weighted(4, 3, 3) {
			case 0:
				return scopeCase(t)
			case 1:
				return subCase(t)
			}
			return paramCase(t)
		},
	})
}

// ---------------------------------------------------------------- C26

// throughCreate builds the graph with CREATE queries
func throughCreate(g *MGraph, s *Src) (*Real, string, error) {
	r := newReal()
	ids := g.nodeIDs()
	order := s.Perm(len(ids))
	// the text: nodes with their properties, then the relationships
	nodes := []string{}
	for _, i := range order {
		n := g.Nodes[ids[i]]
		p := NodePat{Var: fmt.Sprintf("n%d", n.ID), Labels: sortedKeys(n.Labels)}
		if len(n.Props) > 0 {
			p.Props = lit(Map(n.Props))
		}
		nodes = append(nodes, plain(p.text()))
	}
	edges := []string{}
	eids := g.edgeIDs()
	for _, i := range s.Perm(len(eids)) {
		e := g.Edges[eids[i]]
		rel := RelPat{Var: fmt.Sprintf("e%d", e.ID), Types: []string{e.Label}}
		if len(e.Props) > 0 {
			rel.Props = lit(Map(e.Props))
		}
		a, b := fmt.Sprintf("(n%d)", e.From), fmt.Sprintf("(n%d)", e.To)
		if s.Bool() {
			rel.Dir = dirLeft
			a, b = b, a
		}
		edges = append(edges, a+plain(rel.text())+b)
	}
	if len(nodes) == 0 {
		return r, "", nil
	}
	text := "CREATE " + strings.Join(append(nodes, edges...), ",")
	if s.Bool() {
		text = "CREATE " + strings.Join(nodes, " CREATE ")
		if len(edges) > 0 {
			text += " CREATE " + strings.Join(edges, ",")
		}
	}
	ctx := oc.NewEvalContext(r.g)
	if _, err := oc.ParseAndEvaluate(text, ctx); err != nil {
		return nil, text, failf("%s: %v", text, err)
	}
	for id := range g.Nodes {
		v, err := ctx.GetVar(fmt.Sprintf("n%d", id))
		if err != nil {
			return nil, text, failf("%s: the variable n%d is not bound", text, id)
		}
		n, isNode := v.Get().(*lpg.Node)
		if !isNode {
			return nil, text, failf("%s: the variable n%d is not a node", text, id)
		}
		r.setNode(id, n)
	}
	for id := range g.Edges {
		v, err := ctx.GetVar(fmt.Sprintf("e%d", id))
		if err != nil {
			return nil, text, failf("%s: the variable e%d is not bound", text, id)
		}
		p, isPath := v.Get().(*lpg.Path)
		if !isPath || p.NumEdges() != 1 {
			return nil, text, failf("%s: the variable e%d is not a relationship", text, id)
		}
		r.setEdge(id, p.GetEdge(0))
	}
	got := r.abstract()
	if d := diffGraphs(got, g, colours(got, realNew, realNew), colours(g, realNew, realNew)); d != "" {
		return nil, text, failf("%s: wrong graph\n%s", text, d)
	}
	return r, text, nil
}

// anchored gives every node pattern of a query a label, so that unlabelled
// nodes do not matter
func (q *Query) anchored() *Query {
	c := *q
	fix := func(ps []Path) {
		for i := range ps {
			for j := range ps[i].Nodes {
				n := &ps[i].Nodes[j]
				if len(n.Labels) == 0 {
					n.Labels = []string{[]string{"A", "B", "C"}[(i+j)%3]}
				}
			}
		}
	}
	for _, p := range c.Parts {
		for _, m := range p.Reads {
			fix(m.Pats)
		}
	}
	return &c
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "random reading and updating queries, each on five variants of a random graph: in plain order, permuted and interleaved, with hash and B-tree indexes on node and relationship properties added before or after the data, built by CREATE queries, and with isolated groups of other nodes; every outcome and new state compared to the reference interpreter; non-trivial: rows are returned, or the graph changes",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 8, MaxEdges: 9, Density: 60}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			var query *Query
			switch t.Weighted(4, 4, 3) {
			case 0:
				// properties in patterns, which indexes are for
				p := q.pathPat(t.Weighted(5, 4, 1))
				for i := range p.Nodes {
					if p.Nodes[i].Props == nil && t.Pct(60) {
						m := &E{K: "map"}
						for _, k := range t.Perm(3)[:t.Weighted(0, 3, 2, 1)] {
							k := []string{"k", "s", "j"}[k]
							v := smallValue(t.Src, nodeKeys[k])
							if n := len(g.Nodes); n > 0 && t.Pct(70) {
								// the value some node has
								if w, ok := g.Nodes[t.N(n)].Props[k]; ok && w != nil {
									v = w
								}
							}
							m.Ops, m.A = append(m.Ops, k), append(m.A, q.valueExpr(v, k))
						}
						p.Nodes[i].Props = m
					}
				}
				for i := range p.Rels {
					if p.Rels[i].Props == nil && t.Pct(30) {
						k := pick(t.Src, "w", "t")
						p.Rels[i].Props = &E{K: "map", Ops: []string{k}, A: []*E{lit(smallValue(t.Src, edgeKeys[k]))}}
					}
				}
				query = one(Single{Reads: []Match{{Pats: []Path{p}}}, Ret: q.returnAll()})
			case 1:
				query = q.readQuery()
			case 2:
				query = q.updateQuery()
			}
			extra := t.Pct(40)
			if extra {
				query = query.anchored()
			}
			text := query.text()
			ev, err := mustParse(t, text)
			if err != nil {
				return err
			}
			env := withGraph(q.bindEnv(), g)
			_, want := predict(query, g, env, nil)
			if want.tooLarge(query) {
				return errDiscard
			}
			logGraph(t, "graph", g)
			if se := showEnv(env); se != "" {
				t.Logf("  with %s", se)
			}
			subset := func(keys []string) []string {
				out := []string{}
				for _, k := range keys {
					if t.Pct(60) {
						out = append(out, k)
					}
				}
				return out
			}
			for v := 0; v < 5; v++ {
				gi := g
				var gr *Real
				x, want := predict(query, gi, env, nil)
				name := ""
				switch v {
				case 0:
					name = "plain"
					gr = build(gi, BuildOpts{})
				case 1:
					name = "permuted"
					gr = build(gi, BuildOpts{NodeOrder: t.Perm(len(gi.Nodes)), EdgeOrder: t.Perm(len(gi.Edges)), Interleave: t.Bool()})
				case 2:
					o := BuildOpts{NodeIndex: subset([]string{"k", "s", "j"}), EdgeIndex: subset([]string{"w", "t"}), IndexLate: t.Bool()}
					name = fmt.Sprintf("indexes on %v, %v, added after the data: %v", o.NodeIndex, o.EdgeIndex, o.IndexLate)
					gr = build(gi, o)
				case 3:
					name = "built by CREATE"
					var text string
					gr, text, err = throughCreate(gi, t.Src)
					if err != nil {
						return err
					}
					name += ": " + text
				case 4:
					if !extra {
						continue
					}
					name = "with other nodes"
					gi = g.clone()
					first := -1
					n := 1 + t.N(5)
					if t.Pct(25) {
						n = 20 + t.N(60)
					}
					for i := 0; i < n; i++ {
						labels := []string{}
						if t.Bool() {
							labels = []string{"Other"}
						}
						m := gi.addNode(labels, genNodeProps(t.Src, 60))
						if first < 0 {
							first = m.ID
						}
						if t.Bool() {
							gi.addEdge(m.ID, t.Range(first, m.ID), pickFrom(t.Src, typePool), nil)
						}
					}
					before := want
					x, want = predict(query, gi, env, nil)
					if want.st == ok && before.st == ok && len(want.Parts[0].Full) != len(before.Parts[0].Full) && !query.updates() {
						return errDiscard // they do matter
					}
					gr = build(gi, buildOpts(t.Src, gi))
				}
				t.Logf("variant: %s", name)
				r := &Run{Want: want, Exec: x, Real: gr, Model: x.G, Ctx: newContext(gr, env)}
				out, fail := evaluate(ev, r.Ctx, gr)
				if fail != nil {
					return fail
				}
				r.Out = out
				if err := r.check(t, query, gi); err != nil {
					return err
				}
				t.Eval(r.rows() > 0 || (!r.Skipped && changed(r, gi)), text, v, graphKey(gi, env))
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C27

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "path patterns of 0 to 3 steps with this, target, other variables and anonymous nodes at any position, labels, types, properties, directions, a variable length step from the start, looked up from every node of random graphs, twice, with one parsed pattern; compared to enumeration, and to MATCH of the same text with the start bound; non-trivial: nodes are found",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 7, MaxEdges: 10, Density: 45}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.gen.params = map[string]string{}
			steps := t.Weighted(1, 5, 4, 2)
			p := q.pathPat(steps)
			// literals only: there is no context
			for i := range p.Nodes {
				if e := p.Nodes[i].Props; e != nil {
					p.Nodes[i].Props = substitute(e, q.bindEnv().Params)
				}
			}
			for i := range p.Rels {
				if e := p.Rels[i].Props; e != nil {
					p.Rels[i].Props = substitute(e, q.bindEnv().Params)
				}
			}
			// names for the nodes
			start, target := 0, len(p.Nodes)-1
			if t.Pct(30) {
				start = t.N(len(p.Nodes))
			}
			if t.Pct(25) {
				target = t.N(len(p.Nodes))
			}
			if !t.Pct(6) {
				p.Nodes[target].Var = "target"
			}
			p.Nodes[start].Var = "this"
			if t.Pct(8) {
				// the path returns to the start
				p.Nodes[t.N(len(p.Nodes))].Var = "this"
			}
			if t.Pct(25) && steps > 0 {
				// only if the path starts at a bound node
				if p.Nodes[0].Var == "this" || steps == 1 {
					q.makeRange(&p.Rels[t.N(steps)])
				}
			}
			hasTarget := false
			for _, n := range p.Nodes {
				hasTarget = hasTarget || n.Var == "target"
			}
			text := plain(p.text())
			t.Logf("pattern: %s", text)
			part, err := oc.ParsePatternExpr(text)
			if err != nil {
				return failf("the pattern is rejected: %v", err)
			}
			matchText := "MATCH " + text + " RETURN 1"
			if hasTarget {
				matchText = "MATCH " + text + " RETURN target"
			}
			ev, perr, fail := parse(matchText)
			if fail != nil || perr != nil {
				return failf("%s is rejected: %v %v", matchText, perr, fail)
			}
			for i := 0; i < 4; i++ {
				gi := g
				if i > 0 {
					gi = mutate(t.Src, g)
				}
				logGraph(t, "graph", gi)
				gr := build(gi, buildOpts(t.Src, gi))
				before := snapshot(gr)
				for _, id := range gi.nodeIDs() {
					np, rp, st := pathProps(p, &Env{G: gi}, false)
					if st != ok {
						continue
					}
					want := []int{}
					m := newMatcher(gi)
					st = m.match(p, np, rp, func(name string) (V, bool) {
						if name == "this" {
							return NodeV{id}, true
						}
						return nil, false
					}, func(row map[string]V) {
						if v, isNode := row["target"].(NodeV); isNode {
							want = append(want, v.ID)
						}
					})
					if st != ok {
						continue
					}
					for k := 0; k < 2; k++ {
						found, err := part.FindRelative(gr.node[id])
						if err != nil {
							return failf("from node#%d: %v", id, err)
						}
						got := []int{}
						for _, n := range found {
							x, known := gr.nodeID[n]
							if !known {
								return failf("from node#%d: an unknown node is returned", id)
							}
							got = append(got, x)
						}
						sort.Ints(got)
						sort.Ints(want)
						t.Logf("  from node#%d: %v", id, got)
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return failf("from node#%d: found %v, expected %v", id, got, want)
						}
						t.Eval(len(got) > 0, text, graphKey(gi, &Env{}), id, k)
					}
					if k := t.N(3); k == 0 && hasTarget {
						ctx := oc.NewEvalContext(gr.g)
						ctx.SetVar("this", oc.RValue{Value: gr.node[id]})
						out, fail := evaluate(ev, ctx, gr)
						if fail != nil {
							return fail
						}
						rows := []int{}
						for _, r := range out.Rows {
							if n, isNode := r["1"].(NodeV); isNode {
								rows = append(rows, n.ID)
							}
						}
						sort.Ints(rows)
						if out.Err != nil || fmt.Sprint(rows) != fmt.Sprint(want) {
							return failf("from node#%d: MATCH gives %s, expected %v", id, out, want)
						}
					}
				}
				if after := snapshot(gr); after != before {
					return failf("the lookup changes the graph to\n%s", after)
				}
			}
			return nil
		},
	})
}

// ---------------------------------------------------------------- C28

func init() {
	register(&Prop{
		ID:   "C28",
		Rule: "histories of 5 to 14 reading and updating queries in up to three contexts on one graph, in which the variables bound by earlier queries are used by later ones, some queries fail, and some are repeated; each result and each state of the graph compared to the reference interpreter; non-trivial: the query changes the graph, returns rows, or fails as it must",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 4, MaxEdges: 4, Density: 60}
			g := genGraph(t.Src, o)
			if t.Pct(25) {
				g = newMGraph()
			}
			s := newSession(t, g, BuildOpts{})
			if t.Pct(20) {
				s = newSession(t, g, BuildOpts{NodeIndex: []string{"k", "s"}, EdgeIndex: []string{"w"}})
			}
			names := 0
			type old struct {
				ev oc.Evaluatable
				q  *Query
				ps map[string]V
			}
			var done []old
			for i, n := 0, 5+t.N(10); i < n; i++ {
				var c *sessionCtx
				if len(s.ctxs) == 0 || (len(s.ctxs) < 3 && t.Pct(15)) {
					c = s.open(nil)
				} else {
					c = pickFrom(t.Src, s.ctxs)
				}
				if len(s.g.Nodes)+len(s.g.Edges) > 60 {
					break
				}
				for k := range s.ctxs {
					if s.ctxs[k] == c {
						t.Logf("context %d", k)
					}
				}
				var x old
				if len(done) > 0 && t.Pct(20) {
					x = pickFrom(t.Src, done)
					t.Logf("query: %s", x.q.text())
					clash := false
					// variables bound since then change its meaning, which
					// is as specified
					_ = clash
				} else {
					q := newQGen(t.Src, s.g)
					q.names = names
					if t.Pct(50) {
						q.bindVars(c.env)
					}
					if t.Pct(8) {
						q.gen.errs = true
					}
					if t.Pct(10) {
						x.q = q.unionQuery()
					} else if t.Pct(65) {
						x.q = q.updateQuery()
					} else {
						x.q = q.readQuery()
					}
					names = q.names
					env := q.bindEnv()
					if len(env.Vars) > 0 {
						for k, v := range env.Vars {
							c.env.Vars[k] = v
							c.ctx.SetVar(k, toValue(v, s.real))
						}
					}
					x.ps = env.Params
					var err error
					x.ev, err = mustParse(t, anyText(t.Src, x.q.marked()))
					if err != nil {
						return err
					}
					done = append(done, x)
				}
				c.setParams(s, x.ps)
				r, err := s.step(x.ev, x.q, c)
				if err != nil {
					return err
				}
				if r != nil {
					t.Eval(!r.Skipped && (hasRows(r) || x.q.updates()), x.q.text(), graphKey(r.Model, c.env))
				}
			}
			return nil
		},
	})
}
