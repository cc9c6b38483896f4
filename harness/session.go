package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// Session is a history of queries on one graph, in several contexts.
// After each query, which is compared to the reference interpreter, the
// abstract graph is read again, so that elements keep their identity
type Session struct {
	t    *T
	real *Real
	g    *MGraph
	ctxs []*sessionCtx
	// the number of queries that changed the graph, that failed, that
	// returned rows
	changes, errors, results int
}

type sessionCtx struct {
	ctx *oc.EvalContext
	env *Env
}

func newSession(t *T, g *MGraph, opts BuildOpts) *Session {
	s := &Session{t: t, real: build(g, opts), g: g}
	logGraph(t, "graph", g)
	return s
}

// open makes a new context
func (s *Session) open(params map[string]V) *sessionCtx {
	c := &sessionCtx{env: &Env{Vars: map[string]V{}, Params: map[string]V{}}}
	c.ctx = oc.NewEvalContext(s.real.g)
	s.ctxs = append(s.ctxs, c)
	c.setParams(s, params)
	return c
}

func (c *sessionCtx) setParams(s *Session, params map[string]V) {
	for k, v := range params {
		c.env.Params[k] = v
		c.ctx.SetParameter(k, toValue(v, s.real))
	}
}

// newest is the node that was created last
func (s *Session) newest() int {
	last := -1
	for it := s.real.g.GetNodes(); it.Next(); {
		last = s.real.nodeID[it.Node()]
	}
	return last
}

func (s *Session) resync() {
	s.g = s.real.abstract()
	s.g.nextNode, s.g.nextEdge = s.real.next, s.real.next
}

// dropDeleted forgets variables of elements that do not exist
func (s *Session) dropDeleted() {
	var gone func(v V) bool
	gone = func(v V) bool {
		switch x := v.(type) {
		case NodeV:
			return s.g.Nodes[x.ID] == nil
		case PathV:
			for _, id := range x.list() {
				if s.g.Edges[id] == nil {
					return true
				}
			}
		case List:
			for _, e := range x {
				if gone(e) {
					return true
				}
			}
		case Map:
			for _, e := range x {
				if gone(e) {
					return true
				}
			}
		}
		return false
	}
	for _, c := range s.ctxs {
		for _, k := range sortedKeys(c.env.Vars) {
			if gone(c.env.Vars[k]) {
				delete(c.env.Vars, k)
				c.ctx.RemoveVar(k)
			}
		}
	}
}

// step evaluates a query in a context. It returns nil if the query cannot
// be evaluated because of a known finding, or because its result is too
// large
func (s *Session) step(ev oc.Evaluatable, q *Query, c *sessionCtx) (*Run, error) {
	env := withGraph(c.env, s.g)
	x, want := predict(q, s.g, env, nil)
	if want.tooLarge(q) {
		return nil, nil
	}
	if q.deletes() {
		// The graph library does not find nodes that are added after the
		// newest node has been deleted (known finding)
		newest := s.newest()
		if want.st == unspec || (newest >= 0 && x.G.Nodes[newest] == nil) {
			s.t.Logf("another node")
			s.real.g.NewNode([]string{"Keeper"}, nil)
			s.resync()
			env = withGraph(c.env, s.g)
			x, want = predict(q, s.g, env, nil)
			newest = s.newest()
			if want.tooLarge(q) || want.st == unspec || x.G.Nodes[newest] == nil {
				return nil, nil
			}
		}
	}
	r := &Run{Want: want, Exec: x, Real: s.real, Model: x.G, Ctx: c.ctx}
	if se := showEnv(env); se != "" {
		s.t.Logf("  with %s", se)
	}
	before := s.g
	out, fail := evaluate(ev, c.ctx, s.real)
	if fail != nil {
		return nil, fail
	}
	r.Out = out
	if err := r.check(s.t, q, before); err != nil {
		return nil, err
	}
	if err := r.checkShapes(); err != nil {
		return nil, err
	}
	if !r.Skipped && changed(r, before) {
		s.changes++
	}
	if out.Err != nil {
		s.errors++
	}
	if len(out.Rows) > 0 {
		s.results++
	}
	s.resync()
	if err := s.exported(r, q, c, before); err != nil {
		return nil, err
	}
	s.dropDeleted()
	return r, nil
}

// exported reads the variables of a context after a query. They keep
// their values, except for those the query binds: these have the values of
// one of its rows
func (s *Session) exported(r *Run, q *Query, c *sessionCtx, before *MGraph) error {
	now := map[string]V{}
	changed := map[string]V{}
	for k, v := range c.ctx.GetVarsNearestScope() {
		x := fromOC(v, s.real)
		now[k] = x
		if old, exists := c.env.Vars[k]; !exists || show(old) != show(x) {
			changed[k] = x
		}
	}
	for k := range c.env.Vars {
		if _, exists := now[k]; !exists {
			return failf("the variable %s of the context has disappeared", k)
		}
	}
	old := c.env.Vars
	c.env.Vars = now
	if len(changed) == 0 {
		return nil
	}
	if r.Out.Err != nil {
		return failf("a failed query sets variables of the context: %s", show(Map(changed)))
	}
	if r.Skipped || r.Want.st != ok {
		return nil
	}
	for k := range changed {
		if v, exists := old[k]; exists && v != nil && !q.createsPath(k) {
			if reversedPath(v, now[k]) {
				delete(changed, k)
				continue
			}
			return failf("the variable %s of the context was %s and is now %s", k, show(v), show(now[k]))
		}
	}
	// Of the queries of a UNION, the last one that binds a variable
	// determines its value
	left := cloneMap(changed)
	for i := len(r.Exec.FinalRows) - 1; i >= 0; i-- {
		rows := r.Exec.FinalRows[i]
		if len(rows) == 0 {
			continue
		}
		mine := []string{}
		for _, k := range sortedKeys(left) {
			if _, binds := rows[0][k]; binds {
				mine = append(mine, k)
			}
		}
		found := false
		for _, row := range rows {
			all := true
			for _, k := range mine {
				w, bound := row[k]
				if !bound || valueKey(left[k], r.CG) != valueKey(w, r.CW) {
					all = false
				}
			}
			found = found || all
		}
		if !found {
			return failf("the variables set in the context are those of none of the rows: %s\nrows: %s", show(Map(changed)), showRows(rows))
		}
		for _, k := range mine {
			delete(left, k)
		}
	}
	if len(left) > 0 {
		return failf("variables that the query does not bind are set in the context: %s", show(Map(left)))
	}
	return nil
}

// reversedPath is true for paths of several relationships that are the
// same but for their order (known finding path-orientation)
func reversedPath(a, b V) bool {
	x, ok1 := a.(PathV)
	y, ok2 := b.(PathV)
	if !ok1 || !ok2 {
		return false
	}
	p, q := strings.Split(x.Edges, ","), strings.Split(y.Edges, ",")
	sort.Strings(p)
	sort.Strings(q)
	return len(p) > 1 && strings.Join(p, ",") == strings.Join(q, ",")
}

// createsPath tells if the query binds a path variable to what it creates,
// which replaces the value it has
func (q *Query) createsPath(name string) bool {
	for _, p := range q.Parts {
		for _, u := range p.Updates {
			for _, x := range u.Pats {
				if x.Var == name {
					return true
				}
			}
		}
	}
	return false
}

func (q *Query) deletes() bool {
	for _, p := range q.Parts {
		for _, u := range p.Updates {
			if u.K == "delete" {
				return true
			}
		}
	}
	return false
}

// sizes of the real graph
func (s *Session) sizes() string {
	return fmt.Sprintf("%d nodes, %d edges", s.real.g.NumNodes(), s.real.g.NumEdges())
}

var _ = lpg.NewGraph
