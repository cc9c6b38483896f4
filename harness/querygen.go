package main

import (
	"fmt"
	"strings"
)

// The generated graphs have these labels, types and properties. Each
// property key is always of the same type
var labelPool = []string{"A", "B", "C", "D"}
var typePool = []string{"R", "S", "T"}

var nodeKeys = map[string]string{"k": "int", "j": "int", "s": "str", "b": "bool", "f": "float", "l": "list:int"}
var edgeKeys = map[string]string{"w": "int", "t": "str"}

func smallValue(s *Src, t string) V {
	switch t {
	case "int":
		return s.Range(0, 3)
	case "str":
		if s.Pct(8) {
			return pick(s, "X", "Y", "xy", "x ")
		}
		return pick(s, "x", "y", "z", "")
	case "bool":
		return s.Bool()
	case "float":
		return pick(s, 0.5, 1.5, 2.0, -1.0)
	case "list:int":
		l := List{}
		for i, n := 0, s.N(3); i < n; i++ {
			l = append(l, s.Range(0, 3))
		}
		return l
	}
	panic(t)
}

func genNodeProps(s *Src, density int) map[string]V {
	p := map[string]V{}
	for _, k := range []string{"k", "j", "s", "b", "f", "l"} {
		d := density
		if k == "f" || k == "l" || k == "b" {
			d /= 2
		}
		if s.Pct(d) {
			p[k] = smallValue(s, nodeKeys[k])
		}
	}
	return p
}

func genEdgeProps(s *Src, density int) map[string]V {
	p := map[string]V{}
	for _, k := range []string{"w", "t"} {
		if s.Pct(density) {
			p[k] = smallValue(s, edgeKeys[k])
		}
	}
	return p
}

// GraphOpts bound a generated graph
type GraphOpts struct {
	MaxNodes, MaxEdges int
	Labels             int // number of labels in use
	Density            int // percentage of properties
}

func genGraph(s *Src, o GraphOpts) *MGraph {
	g := newMGraph()
	if o.Labels == 0 {
		o.Labels = 3
	}
	n := s.N(o.MaxNodes + 1)
	if n == 0 && s.Pct(90) {
		n = 1 + s.N(o.MaxNodes)
	}
	for i := 0; i < n; i++ {
		labels := []string{}
		for _, l := range labelPool[:o.Labels] {
			if s.Pct(45) {
				labels = append(labels, l)
			}
		}
		g.addNode(labels, genNodeProps(s, o.Density))
	}
	if n == 0 {
		return g
	}
	edge := func(a, b int) {
		if len(g.Edges) < o.MaxEdges {
			g.addEdge(a, b, pickFrom(s, typePool), genEdgeProps(s, o.Density))
		}
	}
	switch s.Weighted(6, 2, 2, 1, 1) {
	case 0: // random
		for i, m := 0, s.N(o.MaxEdges+1); i < m; i++ {
			edge(s.N(n), s.N(n))
		}
	case 1: // line or cycle, with chords
		for i := 0; i+1 < n; i++ {
			if s.Pct(80) {
				edge(i, i+1)
			} else {
				edge(i+1, i)
			}
		}
		if s.Bool() {
			edge(n-1, 0)
		}
		for i, m := 0, s.N(4); i < m; i++ {
			edge(s.N(n), s.N(n))
		}
	case 2: // star
		for i := 1; i < n; i++ {
			if s.Bool() {
				edge(0, i)
			} else {
				edge(i, 0)
			}
		}
		for i, m := 0, s.N(4); i < m; i++ {
			edge(s.N(n), s.N(n))
		}
	case 3: // parallel edges and loops between few nodes
		for i, m := 0, s.N(o.MaxEdges+1); i < m; i++ {
			edge(s.N(min(n, 3)), s.N(min(n, 3)))
		}
	case 4: // binary tree
		for i := 1; i < n; i++ {
			edge((i-1)/2, i)
		}
	}
	return g
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// QGen generates queries for a graph
type QGen struct {
	*Src
	gen *Gen
	g   *MGraph
	// variables of the query: those of nodes, single relationships,
	// variable length relationships
	nodes, rels, paths []string
	// nullable variables, from OPTIONAL MATCH
	nullable map[string]bool
	names    int
	labels   []string
	keys     map[string]string
	// anonymous percentage of variables, percentage of reused variables
	pAnon, pReuse int
	// what the patterns may contain
	varLen  bool
	noProps bool
	// ranges that are open end at the number of edges
	maxPathRange int
	// if set, the only variables whose properties are used
	leafNodes *[]string
	// variables of preceding clauses, whose properties patterns can use
	earlier []string
}

func newQGen(s *Src, g *MGraph) *QGen {
	q := &QGen{Src: s, g: g, nullable: map[string]bool{}, labels: labelPool[:3], keys: nodeKeys, pAnon: 30, pReuse: 15}
	q.gen = newGen(s, "arith", "cmp", "bool", "list", "str", "null", "func", "case")
	q.gen.pNull, q.gen.pWrong = 4, 0
	q.gen.hook = q.propLeaf
	q.gen.noProps = true
	return q
}

func (q *QGen) fresh(prefix string) string {
	q.names++
	return fmt.Sprintf("%s%d", prefix, q.names)
}

// propLeaf is a property of a variable of the query
func (q *QGen) propLeaf(t string) *E {
	type cand struct{ v, k string }
	cs := []cand{}
	nodes := q.nodes
	if q.leafNodes != nil {
		nodes = *q.leafNodes
	}
	for _, v := range nodes {
		for _, k := range sortedKeys(nodeKeys) {
			if nodeKeys[k] == t || (t == "num" && (nodeKeys[k] == "int" || nodeKeys[k] == "float")) || (t == "count" && k == "k") || (t == "list" && k == "l") {
				cs = append(cs, cand{v, k})
			}
		}
	}
	rels := q.rels
	if q.leafNodes != nil {
		rels = nil
	}
	for _, v := range rels {
		for _, k := range sortedKeys(edgeKeys) {
			if edgeKeys[k] == t {
				cs = append(cs, cand{v, k})
			}
		}
	}
	if len(cs) == 0 {
		return nil
	}
	c := pickFrom(q.Src, cs)
	return prop(variable(c.v), c.k)
}

func (q *QGen) paramFor(v V) *E {
	n := fmt.Sprintf("$p%d", len(q.gen.params))
	q.gen.params[n] = "fixed"
	q.fixed(n, v)
	return &E{K: "param", S: n}
}

// paramOf is a parameter of a type, whose value varies
func (q *QGen) paramOf(typ string) *E {
	n := fmt.Sprintf("$p%d", len(q.gen.params))
	q.gen.params[n] = typ
	return &E{K: "param", S: n}
}

func (q *QGen) fixed(n string, v V) {
	if q.gen.fixed == nil {
		q.gen.fixed = map[string]V{}
	}
	q.gen.fixed[n] = v
}

func (q *QGen) valueExpr(v V, key string) *E {
	if _, isNodeKey := nodeKeys[key]; isNodeKey && len(q.earlier) > 0 && q.Pct(35) {
		return prop(variable(pickFrom(q.Src, q.earlier)), key)
	}
	if q.Pct(8) {
		v = nil
	}
	if q.Pct(25) || !hasLiteral(v) {
		return q.paramFor(v)
	}
	return lit(v)
}

// propMap makes the properties of a pattern
func (q *QGen) propMap(keys []string, values map[string]V, types map[string]string) *E {
	if len(keys) == 0 {
		return nil
	}
	m := Map{}
	e := &E{K: "map"}
	for _, k := range keys {
		v, exists := values[k]
		if !exists {
			v = smallValue(q.Src, types[k])
		}
		m[k] = v
		e.Ops = append(e.Ops, k)
		e.A = append(e.A, q.valueExpr(v, k))
	}
	if q.Pct(12) {
		return q.paramFor(m)
	}
	return e
}

func (q *QGen) nodePat(n *MNode, anchor bool) NodePat {
	p := NodePat{}
	if n != nil {
		for _, l := range sortedKeys(n.Labels) {
			if q.Pct(25) {
				p.Labels = append(p.Labels, l)
			}
		}
		if len(n.Labels) > 2 && q.Pct(10) {
			p.Labels = sortedKeys(n.Labels)
		}
		if q.Pct(6) {
			p.Labels = []string{pickFrom(q.Src, q.labels)}
		}
		if len(p.Labels) > 0 && q.Pct(4) {
			// once more
			p.Labels = append(p.Labels, p.Labels[0])
		}
	} else {
		for i, n := 0, q.Weighted(60, 40, 8, 2); i < n; i++ {
			p.Labels = append(p.Labels, pickFrom(q.Src, q.labels))
		}
	}
	if !q.noProps && q.Pct(12) {
		keys := []string{pick(q.Src, "k", "s", "j")}
		if q.Pct(20) {
			keys = []string{"k", "s"}
		}
		var vals map[string]V
		if n != nil && q.Pct(85) {
			vals = n.Props
			have := []string{}
			for _, k := range keys {
				if _, ok := vals[k]; ok {
					have = append(have, k)
				}
			}
			keys = have
		}
		p.Props = q.propMap(keys, vals, nodeKeys)
	}
	return p
}

// manyTypes is a list of at least three types that contains one
func (q *QGen) manyTypes(label string) []string {
	types := []string{label}
	for _, x := range []string{"R", "S", "T", "U", "V"} {
		if x != label && q.Pct(60) {
			types = append(types, x)
		}
	}
	if len(types) < 3 {
		types = append(types, "W", "X")
	}
	for i := len(types) - 1; i > 0; i-- {
		j := q.N(i + 1)
		types[i], types[j] = types[j], types[i]
	}
	return types
}

func (q *QGen) relPat(e *MEdge, forward bool) RelPat {
	r := RelPat{Colons: q.Pct(20)}
	if e != nil {
		if forward {
			r.Dir = q.pickDir(dirRight)
		} else {
			r.Dir = q.pickDir(dirLeft)
		}
		kind := q.Weighted(5, 4, 2, 1)
		if e.Label == "" {
			// an empty name is not a type
			kind = 0
		}
		switch kind {
		case 1:
			r.Types = []string{e.Label}
		case 2:
			r.Types = []string{pickFrom(q.Src, typePool), e.Label}
			if r.Types[0] == r.Types[1] && q.Bool() {
				r.Types = r.Types[:1]
			}
		case 3:
			r.Types = q.manyTypes(e.Label)
		}
	} else {
		r.Dir = pick(q.Src, dirRight, dirLeft, dirNone, dirBoth)
		switch q.Weighted(5, 4, 2, 1) {
		case 3:
			r.Types = q.manyTypes("R")
		case 1:
			r.Types = []string{pickFrom(q.Src, typePool)}
		case 2:
			r.Types = []string{"R", pick(q.Src, "S", "T")}
		}
	}
	if !q.noProps && q.Pct(12) {
		key := pick(q.Src, "w", "t")
		var vals map[string]V
		if e != nil {
			vals = e.Props
		}
		r.Props = q.propMap([]string{key}, vals, edgeKeys)
	}
	return r
}

func (q *QGen) pickDir(d int) int {
	switch q.Weighted(6, 2, 1, 1) {
	case 1:
		return dirNone
	case 2:
		return dirBoth
	case 3:
		return pick(q.Src, dirRight, dirLeft)
	}
	return d
}

// makeRange turns a relationship into one of variable length
func (q *QGen) makeRange(r *RelPat) {
	r.Range = true
	big := 0
	if q.Pct(12) {
		big = q.N(5)
	}
	switch q.Weighted(3, 3, 2, 2, 2) {
	case 0:
		r.Min = q.Range(1, 3)
		r.Max = r.Min + q.N(3) + big
	case 1:
		r.Exact = true
		r.Min = q.Range(1, 3) + big
		r.Max = r.Min
	case 2:
		r.Min, r.Max = -1, q.Range(1, 4)+big
	case 3:
		r.Min, r.Max = q.Range(1, 3)+big, -1
	case 4:
		r.Min, r.Max = -1, -1
	}
}

// pathPat makes a path pattern with the given number of steps
func (q *QGen) pathPat(steps int) Path {
	p := Path{}
	var at *MNode
	guided := q.g != nil && len(q.g.Nodes) > 0 && q.Pct(75)
	elem := map[string]int{} // which node a variable of the pattern stands for
	ids := []int{}
	if q.g != nil {
		ids = q.g.nodeIDs()
	}
	node := func(n *MNode) NodePat {
		np := q.nodePat(n, false)
		switch {
		case q.Pct(q.pAnon):
		case len(q.nodes) > 0 && q.Pct(q.pReuse):
			// a variable of the query
			v := pickFrom(q.Src, q.nodes)
			if id, inPath := elem[v]; inPath && guided && n != nil && id != n.ID && q.Pct(70) {
				v = q.fresh("n")
				q.nodes = append(q.nodes, v)
				elem[v] = n.ID
			}
			np.Var = v
		default:
			np.Var = q.fresh("n")
			if n != nil {
				elem[np.Var] = n.ID
			}
			q.nodes = append(q.nodes, np.Var)
		}
		return np
	}
	var out, in map[int][]int
	if guided {
		out, in = incidence(q.g)
		at = q.g.Nodes[pickFrom(q.Src, ids)]
		if len(q.g.Edges) > 0 && steps > 0 {
			// prefer nodes that have edges
			for i := 0; i < 3 && len(out[at.ID])+len(in[at.ID]) == 0; i++ {
				at = q.g.Nodes[pickFrom(q.Src, ids)]
			}
		}
	}
	p.Nodes = append(p.Nodes, node(at))
	for i := 0; i < steps; i++ {
		var e *MEdge
		forward := true
		if at != nil {
			n := len(out[at.ID]) + len(in[at.ID])
			if n > 0 {
				x := q.N(n)
				if x < len(out[at.ID]) {
					e = q.g.Edges[out[at.ID][x]]
				} else {
					e = q.g.Edges[in[at.ID][x-len(out[at.ID])]]
					forward = false
				}
			}
		}
		r := q.relPat(e, forward)
		switch {
		case e == nil:
			at = nil
		case forward:
			at = q.g.Nodes[e.To]
		default:
			at = q.g.Nodes[e.From]
		}
		if q.Pct(45) {
			r.Var = q.fresh("r")
			q.rels = append(q.rels, r.Var)
		}
		p.Rels = append(p.Rels, r)
		p.Nodes = append(p.Nodes, node(at))
	}
	return p
}

// hasRange tells if a path has variable length relationships
func (p Path) hasRange() bool {
	for _, r := range p.Rels {
		if r.Range {
			return true
		}
	}
	return false
}

// params binds the parameters of a query
func (q *QGen) bindEnv() *Env {
	env := q.gen.bindEnv()
	return env
}

// retItems returns the variables and some expressions
func (q *QGen) retItems(max int) []Item {
	items := []Item{}
	names := map[string]bool{}
	n := 1 + q.N(max) + q.gen.extra(3, 10)
	for i := 0; i < n; i++ {
		it := Item{}
		vars := append(append(append([]string{}, q.nodes...), q.rels...), q.paths...)
		switch {
		case len(vars) > 0 && q.Pct(55):
			it.E = variable(pickFrom(q.Src, vars))
		case q.Pct(60):
			t := pick(q.Src, "int", "str", "int", "bool", "float", "list:int")
			it.E = q.propLeaf(t)
			if it.E == nil {
				it.E = q.gen.expr(t, 1)
			}
		default:
			it.E = q.gen.expr(pick(q.Src, "int", "str", "bool", "list", "float"), 2)
		}
		if q.Pct(35) {
			it.Alias = pick(q.Src, "x", "y", "z", "c") + fmt.Sprint(i)
			if q.Pct(10) && len(vars) > 0 {
				it.Alias = pickFrom(q.Src, vars)
			}
			if names[it.Alias] {
				it.Alias = ""
			}
			names[it.Alias] = true
		}
		items = append(items, it)
	}
	return items
}

// returnAll returns every variable of the query
func (q *QGen) returnAll() *Ret {
	vars := append(append(append([]string{}, q.nodes...), q.rels...), q.paths...)
	r := &Ret{}
	if len(vars) == 0 {
		r.Items = []Item{{E: lit(1), Alias: "one"}}
		return r
	}
	if q.Pct(50) {
		r.Star = true
		return r
	}
	for _, v := range vars {
		r.Items = append(r.Items, Item{E: variable(v), Alias: v})
	}
	return r
}

func (q *QGen) String() string {
	return strings.Join(q.nodes, ",")
}
