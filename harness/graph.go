package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// MNode, MEdge and MGraph are the abstract graph of the reference
// interpreter
type MNode struct {
	ID     int
	Labels map[string]bool
	Props  map[string]V
	// Keeper nodes are never deleted
	Keeper bool
}

type MEdge struct {
	ID       int
	From, To int
	Label    string
	Props    map[string]V
}

type MGraph struct {
	Nodes    map[int]*MNode
	Edges    map[int]*MEdge
	nextNode int
	nextEdge int
}

func newMGraph() *MGraph {
	return &MGraph{Nodes: map[int]*MNode{}, Edges: map[int]*MEdge{}}
}

func (g *MGraph) node(id int) *MNode {
	if g == nil {
		return nil
	}
	return g.Nodes[id]
}

func (g *MGraph) edge(id int) *MEdge {
	if g == nil {
		return nil
	}
	return g.Edges[id]
}

func (g *MGraph) addNode(labels []string, props map[string]V) *MNode {
	n := &MNode{ID: g.nextNode, Labels: map[string]bool{}, Props: map[string]V{}}
	g.nextNode++
	for _, l := range labels {
		n.Labels[l] = true
	}
	for k, v := range props {
		if v != nil {
			n.Props[k] = v
		}
	}
	g.Nodes[n.ID] = n
	return n
}

func (g *MGraph) addEdge(from, to int, label string, props map[string]V) *MEdge {
	e := &MEdge{ID: g.nextEdge, From: from, To: to, Label: label, Props: map[string]V{}}
	g.nextEdge++
	for k, v := range props {
		if v != nil {
			e.Props[k] = v
		}
	}
	g.Edges[e.ID] = e
	return e
}

func (g *MGraph) nodeIDs() []int {
	ids := make([]int, 0, len(g.Nodes))
	for id := range g.Nodes {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (g *MGraph) edgeIDs() []int {
	ids := make([]int, 0, len(g.Edges))
	for id := range g.Edges {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (g *MGraph) clone() *MGraph {
	c := &MGraph{Nodes: map[int]*MNode{}, Edges: map[int]*MEdge{}, nextNode: g.nextNode, nextEdge: g.nextEdge}
	for id, n := range g.Nodes {
		labels := map[string]bool{}
		for l := range n.Labels {
			labels[l] = true
		}
		c.Nodes[id] = &MNode{ID: id, Labels: labels, Props: cloneMap(n.Props), Keeper: n.Keeper}
	}
	for id, e := range g.Edges {
		c.Edges[id] = &MEdge{ID: id, From: e.From, To: e.To, Label: e.Label, Props: cloneMap(e.Props)}
	}
	return c
}

// show describes the graph, one element in a line
func (g *MGraph) show() []string {
	out := []string{}
	for _, id := range g.nodeIDs() {
		n := g.Nodes[id]
		out = append(out, fmt.Sprintf("node#%d %s %s", id, labelText(sortedKeys(n.Labels)), show(Map(n.Props))))
	}
	for _, id := range g.edgeIDs() {
		e := g.Edges[id]
		out = append(out, fmt.Sprintf("edge#%d node#%d -[:%s %s]-> node#%d", id, e.From, e.Label, show(Map(e.Props)), e.To))
	}
	return out
}

func labelText(labels []string) string {
	s := ""
	for _, l := range labels {
		s += ":" + l
	}
	return s
}

// Real is a graph of the library, with the numbers of its elements in the
// abstract graph. Elements that are created later get other numbers
type Real struct {
	// property indexes exist
	indexed bool
	g       *lpg.Graph
	node    map[int]*lpg.Node
	nodeID  map[*lpg.Node]int
	edge    map[int]*lpg.Edge
	edgeID  map[*lpg.Edge]int
	next    int
}

const realNew = 1000000

func newReal() *Real {
	return &Real{g: lpg.NewGraph(), node: map[int]*lpg.Node{}, nodeID: map[*lpg.Node]int{}, edge: map[int]*lpg.Edge{}, edgeID: map[*lpg.Edge]int{}, next: realNew}
}

func (r *Real) setNode(id int, n *lpg.Node) { r.node[id] = n; r.nodeID[n] = id }
func (r *Real) setEdge(id int, e *lpg.Edge) { r.edge[id] = e; r.edgeID[e] = id }

// scan gives numbers to the elements that do not have one
func (r *Real) scan() {
	for it := r.g.GetNodes(); it.Next(); {
		if _, ok := r.nodeID[it.Node()]; !ok {
			r.setNode(r.next, it.Node())
			r.next++
		}
	}
	for it := r.g.GetEdges(); it.Next(); {
		if _, ok := r.edgeID[it.Edge()]; !ok {
			r.setEdge(r.next, it.Edge())
			r.next++
		}
	}
}

// BuildOpts tell how the graph of the library is built
type BuildOpts struct {
	NodeOrder, EdgeOrder []int // permutations, or nil
	Interleave           bool  // create edges as soon as their nodes exist
	NodeIndex, EdgeIndex []string
	IndexLate            bool // add the indexes after the elements
}

func build(m *MGraph, opts BuildOpts) *Real {
	r := newReal()
	r.indexed = len(opts.NodeIndex)+len(opts.EdgeIndex) > 0
	index := func() {
		for _, p := range opts.NodeIndex {
			ix := lpg.BtreeIndex
			if len(p)%2 == 0 {
				ix = lpg.HashIndex
			}
			r.g.AddNodePropertyIndex(p, ix)
		}
		for _, p := range opts.EdgeIndex {
			r.g.AddEdgePropertyIndex(p, lpg.BtreeIndex)
		}
	}
	if !opts.IndexLate {
		index()
	}
	nodes, edges := m.nodeIDs(), m.edgeIDs()
	permute := func(ids, p []int) []int {
		if p == nil {
			return ids
		}
		out := make([]int, len(ids))
		for i := range p {
			out[i] = ids[p[i]]
		}
		return out
	}
	nodes, edges = permute(nodes, opts.NodeOrder), permute(edges, opts.EdgeOrder)
	addEdges := func() {
		for _, id := range edges {
			if _, done := r.edge[id]; done {
				continue
			}
			e := m.Edges[id]
			from, to := r.node[e.From], r.node[e.To]
			if from == nil || to == nil {
				continue
			}
			r.setEdge(id, r.g.NewEdge(from, to, e.Label, nativeProps(e.Props, r)))
		}
	}
	for _, id := range nodes {
		n := m.Nodes[id]
		r.setNode(id, r.g.NewNode(sortedKeys(n.Labels), nativeProps(n.Props, r)))
		if opts.Interleave {
			addEdges()
		}
	}
	addEdges()
	if opts.IndexLate {
		index()
	}
	return r
}

func nativeProps(p map[string]V, r *Real) map[string]interface{} {
	if len(p) == 0 {
		return nil
	}
	out := map[string]interface{}{}
	for k, v := range p {
		out[k] = native(v, r)
	}
	return out
}

// abstract reads the graph of the library
func (r *Real) abstract() *MGraph {
	r.scan()
	g := newMGraph()
	for it := r.g.GetNodes(); it.Next(); {
		n := it.Node()
		id := r.nodeID[n]
		mn := &MNode{ID: id, Labels: map[string]bool{}, Props: map[string]V{}}
		for _, l := range n.GetLabels().Slice() {
			mn.Labels[l] = true
		}
		n.ForEachProperty(func(k string, v interface{}) bool {
			if !nilNative(v) {
				mn.Props[k] = fromNative(v, r)
			}
			return true
		})
		g.Nodes[id] = mn
	}
	for it := r.g.GetEdges(); it.Next(); {
		e := it.Edge()
		id := r.edgeID[e]
		from, ok1 := r.nodeID[e.GetFrom()]
		to, ok2 := r.nodeID[e.GetTo()]
		if !ok1 || !ok2 {
			from, to = -1, -1
		}
		me := &MEdge{ID: id, From: from, To: to, Label: e.GetLabel(), Props: map[string]V{}}
		e.ForEachProperty(func(k string, v interface{}) bool {
			if !nilNative(v) {
				me.Props[k] = fromNative(v, r)
			}
			return true
		})
		g.Edges[id] = me
	}
	return g
}

// Colours describe the elements of a graph so that elements of two graphs
// have the same description if an isomorphism maps one to the other.
// Elements known to both graphs are described by their numbers
type Colours struct {
	node map[int]string
	edge map[int]string
}

func hash(parts ...string) string {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// colours describes the elements of g; those with numbers less than known
// are known
func colours(g *MGraph, knownNode, knownEdge int) Colours {
	c := Colours{map[int]string{}, map[int]string{}}
	base := map[int]string{}
	fresh := 0
	for id, n := range g.Nodes {
		d := labelText(sortedKeys(n.Labels)) + show(Map(n.Props))
		if id < knownNode {
			d = fmt.Sprintf("#%d %s", id, d)
		} else {
			fresh++
		}
		base[id] = hash(d)
	}
	edgeBase := map[int]string{}
	for id, e := range g.Edges {
		d := e.Label + show(Map(e.Props))
		if id < knownEdge {
			d = fmt.Sprintf("#%d %s", id, d)
		}
		edgeBase[id] = d
	}
	type half struct {
		dir   string
		edge  int
		other int
	}
	adj := map[int][]half{}
	for id, e := range g.Edges {
		adj[e.From] = append(adj[e.From], half{">", id, e.To})
		adj[e.To] = append(adj[e.To], half{"<", id, e.From})
	}
	rounds := fresh
	if rounds > 8 {
		rounds = 8
	}
	cur := base
	for i := 0; i < rounds; i++ {
		next := map[int]string{}
		for id := range g.Nodes {
			if id < knownNode {
				next[id] = cur[id]
				continue
			}
			parts := []string{}
			for _, h := range adj[id] {
				parts = append(parts, h.dir+edgeBase[h.edge]+cur[h.other])
			}
			sort.Strings(parts)
			next[id] = hash(append([]string{cur[id]}, parts...)...)
		}
		cur = next
	}
	c.node = cur
	for id, e := range g.Edges {
		c.edge[id] = hash(edgeBase[id], cur[e.From], cur[e.To])
	}
	return c
}

// diffGraphs compares the graph of the library to the expected one
func diffGraphs(got, want *MGraph, cg, cw Colours) string {
	count := map[string]int{}
	desc := map[string]string{}
	add := func(g *MGraph, c Colours, n int) {
		for id, node := range g.Nodes {
			k := "n" + c.node[id]
			count[k] += n
			desc[k] = fmt.Sprintf("node#%d %s %s", id, labelText(sortedKeys(node.Labels)), show(Map(node.Props)))
		}
		for id, e := range g.Edges {
			k := "e" + c.edge[id]
			count[k] += n
			desc[k] = fmt.Sprintf("edge#%d node#%d -[:%s %s]-> node#%d", id, e.From, e.Label, show(Map(e.Props)), e.To)
		}
	}
	add(want, cw, 1)
	add(got, cg, -1)
	out := []string{}
	for k, n := range count {
		if n > 0 {
			out = append(out, fmt.Sprintf("missing (%d): %s", n, desc[k]))
		} else if n < 0 {
			out = append(out, fmt.Sprintf("unexpected (%d): %s", -n, desc[k]))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// rowKey is a text of a row in which nodes and edges are given by their
// colours
func rowKey(row map[string]V, c Colours) string {
	parts := []string{}
	for _, k := range sortedKeys(row) {
		parts = append(parts, k+"="+valueKey(row[k], c))
	}
	return strings.Join(parts, " ")
}

func valueKey(v V, c Colours) string {
	switch x := v.(type) {
	case NodeV:
		if s, ok := c.node[x.ID]; ok {
			return "node:" + s
		}
		return "node?"
	case PathV:
		parts := []string{}
		for _, id := range x.list() {
			if s, ok := c.edge[id]; ok {
				parts = append(parts, s)
			} else {
				parts = append(parts, "?")
			}
		}
		// Which end of a path comes first depends on the plan
		// (known finding)
		fwd := strings.Join(parts, ",")
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
		if bwd := strings.Join(parts, ","); bwd < fwd {
			fwd = bwd
		}
		return "path:" + fwd
	case List:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, valueKey(e, c))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case Map:
		parts := []string{}
		for _, k := range sortedKeys(x) {
			parts = append(parts, k+": "+valueKey(x[k], c))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	return show(v)
}

// rowsOf converts the rows of a result
func rowsOf(rs oc.ResultSet, gr *Real) []map[string]V {
	rows := make([]map[string]V, 0, len(rs.Rows))
	for _, r := range rs.Rows {
		row := map[string]V{}
		for k, v := range r {
			row[k] = fromOC(v, gr)
		}
		rows = append(rows, row)
	}
	return rows
}

// diffRows compares rows; ordered tells if their order matters
func diffRows(got, want []map[string]V, cg, cw Colours, ordered bool) string {
	if ordered {
		if len(got) != len(want) {
			return fmt.Sprintf("%d rows, expected %d\ngot:  %s\nwant: %s", len(got), len(want), showRows(got), showRows(want))
		}
		for i := range got {
			if rowKey(got[i], cg) != rowKey(want[i], cw) {
				return fmt.Sprintf("row %d: got %s, expected %s", i, showRow(got[i]), showRow(want[i]))
			}
		}
		return ""
	}
	count := map[string]int{}
	desc := map[string]string{}
	for _, r := range want {
		k := rowKey(r, cw)
		count[k]++
		desc[k] = showRow(r)
	}
	for _, r := range got {
		k := rowKey(r, cg)
		count[k]--
		if _, ok := desc[k]; !ok {
			desc[k] = showRow(r)
		}
	}
	out := []string{}
	for k, n := range count {
		if n > 0 {
			out = append(out, fmt.Sprintf("missing row (%d): %s", n, desc[k]))
		} else if n < 0 {
			out = append(out, fmt.Sprintf("unexpected row (%d): %s", -n, desc[k]))
		}
	}
	if len(out) == 0 {
		return ""
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return fmt.Sprintf("%d rows, expected %d\n%s", len(got), len(want), strings.Join(out, "\n"))
}

func showRows(rows []map[string]V) string {
	parts := []string{}
	for i, r := range rows {
		if i == 12 {
			parts = append(parts, "...")
			break
		}
		parts = append(parts, "{"+showRow(r)+"}")
	}
	return "[" + strings.Join(parts, ", ") + "]"
}
