package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- syntax

// NodePat and RelPat are the elements of a path pattern. Props is a map
// or a parameter
type NodePat struct {
	Var    string
	Labels []string
	Props  *E
}

const (
	dirRight = iota
	dirLeft
	dirNone
	dirBoth
)

type RelPat struct {
	Var   string
	Types []string
	Props *E
	Dir   int
	// Var-length: Min, Max are -1 if they are open, Exact is *n
	Range bool
	Min   int
	Max   int
	Exact bool
	// Colons repeats the colon in :A|:B
	Colons bool
}

type Path struct {
	Var   string
	Nodes []NodePat
	Rels  []RelPat
}

type Match struct {
	Optional bool
	Pats     []Path
	Where    *E
}

// SetItem is an item of SET or REMOVE: prop, assign, add, or labels
type SetItem struct {
	K      string
	Var    string
	Key    string
	Labels []string
	E      *E
}

type Action struct {
	OnCreate bool
	Items    []SetItem
}

// Upd is an updating clause: create, merge, set, remove, delete
type Upd struct {
	K      string
	Pats   []Path
	Items  []SetItem
	Exprs  []*E
	Detach bool
	On     []Action
}

type Item struct {
	E     *E
	Alias string
}

type OrderItem struct {
	E    *E
	Desc bool
	Word string
}

type Ret struct {
	Star     bool
	Distinct bool
	Items    []Item
	Order    []OrderItem
	Skip     *E
	Limit    *E
}

type Single struct {
	Reads   []Match
	Updates []Upd
	Ret     *Ret
}

type Query struct {
	Parts []Single
	All   []bool // UNION ALL before part i+1
}

func one(s Single) *Query { return &Query{Parts: []Single{s}} }

// ---------------------------------------------------------------- text

func labelList(labels []string) string {
	s := ""
	for _, l := range labels {
		s += ":" + mOpt + name(l)
	}
	return s
}

// withProps adds the properties to the parts of a pattern. The $ of a
// parameter would be part of a name that precedes it
func withProps(parts []string, props *E) string {
	s := strings.Join(parts, mOpt)
	if props == nil {
		return s
	}
	if s == "" {
		return props.raw()
	}
	if props.K == "param" {
		return s + mSP + props.raw()
	}
	return s + mOpt + props.raw()
}

func (n NodePat) text() string {
	parts := []string{}
	if n.Var != "" {
		parts = append(parts, name(n.Var))
	}
	if len(n.Labels) > 0 {
		parts = append(parts, labelList(n.Labels))
	}
	return "(" + mOpt + withProps(parts, n.Props) + mOpt + ")"
}

func (r RelPat) text() string {
	s := mDash
	parts := []string{}
	if r.Var != "" {
		parts = append(parts, name(r.Var))
	}
	if len(r.Types) > 0 {
		t := ":" + mOpt + name(r.Types[0])
		for _, x := range r.Types[1:] {
			t += mOpt + "|"
			if r.Colons {
				t += ":"
			}
			t += mOpt + name(x)
		}
		parts = append(parts, t)
	}
	if r.Range {
		t := "*"
		switch {
		case r.Exact:
			t += mOpt + strconv.Itoa(r.Min)
		case r.Min >= 0 && r.Max >= 0:
			t += mOpt + strconv.Itoa(r.Min) + mOpt + ".." + mOpt + strconv.Itoa(r.Max)
		case r.Min >= 0:
			t += mOpt + strconv.Itoa(r.Min) + mOpt + ".."
		case r.Max >= 0:
			t += mOpt + ".." + mOpt + strconv.Itoa(r.Max)
		}
		parts = append(parts, t)
	}
	if len(parts) > 0 || r.Props != nil {
		s += mOpt + "[" + mOpt + withProps(parts, r.Props) + mOpt + "]" + mOpt
	} else {
		s += mOpt
	}
	s += mDash
	if r.Dir == dirLeft || r.Dir == dirBoth {
		s = mLeft + mOpt + s
	}
	if r.Dir == dirRight || r.Dir == dirBoth {
		s += mOpt + mRight
	}
	return s
}

func (p Path) text() string {
	s := ""
	if p.Var != "" {
		s = name(p.Var) + mOpt + "=" + mOpt
	}
	s += p.Nodes[0].text()
	for i, r := range p.Rels {
		s += mOpt + r.text() + mOpt + p.Nodes[i+1].text()
	}
	return s
}

func patsText(ps []Path) string {
	parts := []string{}
	for _, p := range ps {
		parts = append(parts, p.text())
	}
	return strings.Join(parts, mOpt+","+mOpt)
}

func (m Match) text() string {
	s := kw("MATCH")
	if m.Optional {
		s = kw("OPTIONAL") + mSP + kw("MATCH")
	}
	s += mSP + patsText(m.Pats)
	if m.Where != nil {
		s += mSP + kw("WHERE") + mSP + m.Where.text(0)
	}
	return s
}

func (it SetItem) text(set bool) string {
	switch it.K {
	case "prop":
		s := name(it.Var) + mOpt + "." + mOpt + name(it.Key)
		if set {
			s += mOpt + "=" + mOpt + it.E.text(0)
		}
		return s
	case "assign":
		return name(it.Var) + mOpt + "=" + mOpt + it.E.text(0)
	case "add":
		return name(it.Var) + mOpt + "+=" + mOpt + it.E.text(0)
	}
	if set {
		return name(it.Var) + mOpt + labelList(it.Labels)
	}
	return name(it.Var) + labelList(it.Labels)
}

func setText(items []SetItem, set bool) string {
	parts := []string{}
	for _, it := range items {
		parts = append(parts, it.text(set))
	}
	return strings.Join(parts, mOpt+","+mOpt)
}

func (u Upd) text() string {
	switch u.K {
	case "create":
		return kw("CREATE") + mSP + patsText(u.Pats)
	case "merge":
		s := kw("MERGE") + mSP + u.Pats[0].text()
		for _, a := range u.On {
			w := "ON MATCH SET"
			if a.OnCreate {
				w = "ON CREATE SET"
			}
			s += mSP + kw(w) + mSP + setText(a.Items, true)
		}
		return s
	case "set":
		return kw("SET") + mSP + setText(u.Items, true)
	case "remove":
		return kw("REMOVE") + mSP + setText(u.Items, false)
	case "delete":
		parts := []string{}
		for _, e := range u.Exprs {
			parts = append(parts, e.text(0))
		}
		s := kw("DELETE") + mSP + strings.Join(parts, mOpt+","+mOpt)
		if u.Detach {
			s = kw("DETACH") + mSP + s
		}
		return s
	}
	panic(u.K)
}

func (r Ret) text() string {
	s := kw("RETURN")
	if r.Distinct {
		s += mSP + kw("DISTINCT")
	}
	parts := []string{}
	if r.Star {
		parts = append(parts, "*")
	}
	for _, it := range r.Items {
		t := it.E.text(0)
		if it.Alias != "" {
			t += mSP + kw("AS") + mSP + name(it.Alias)
		}
		parts = append(parts, t)
	}
	s += mSP + strings.Join(parts, mOpt+","+mOpt)
	if len(r.Order) > 0 {
		parts = nil
		for _, o := range r.Order {
			t := o.E.text(0)
			if o.Word != "" {
				t += mSP + kw(o.Word)
			}
			parts = append(parts, t)
		}
		s += mSP + kw("ORDER") + mSP + kw("BY") + mSP + strings.Join(parts, ","+mOpt)
	}
	if r.Skip != nil {
		s += mSP + kw("SKIP") + mSP + r.Skip.text(0)
	}
	if r.Limit != nil {
		s += mSP + kw("LIMIT") + mSP + r.Limit.text(0)
	}
	return s
}

func (s Single) text() string {
	parts := []string{}
	for _, m := range s.Reads {
		parts = append(parts, m.text())
	}
	for _, u := range s.Updates {
		parts = append(parts, u.text())
	}
	if s.Ret != nil {
		parts = append(parts, s.Ret.text())
	}
	return strings.Join(parts, mSP)
}

func (q *Query) marked() string {
	s := q.Parts[0].text()
	for i, p := range q.Parts[1:] {
		w := "UNION"
		if q.All[i] {
			w = "UNION ALL"
		}
		s += mSP + kw(w) + mSP + p.text()
	}
	return s
}

func (q *Query) text() string { return plain(q.marked()) }

// anyText lays out marked text in the usual way, or sometimes with random
// letter case of the keywords, and random white space
func anyText(s *Src, marked string) string {
	switch s.Weighted(80, 14, 6) {
	case 1:
		return keywordCase(s, marked)
	case 2:
		return layout(s, marked)
	}
	return plain(marked)
}

// ---------------------------------------------------------------- matching

// matchNode tells if a node matches a pattern with the given properties
func matchNode(n *MNode, p NodePat, props Map) bool {
	for _, l := range p.Labels {
		if !n.Labels[l] {
			return false
		}
	}
	return hasProps(n.Props, props)
}

func hasProps(have map[string]V, want Map) bool {
	for k, v := range want {
		x, exists := have[k]
		if !exists || v == nil || !same(x, v) {
			return false
		}
	}
	return true
}

func matchEdge(e *MEdge, p RelPat, props Map) bool {
	if len(p.Types) > 0 {
		found := false
		for _, t := range p.Types {
			found = found || t == e.Label
		}
		if !found {
			return false
		}
	}
	return hasProps(e.Props, props)
}

// pathProps evaluates the properties of a path pattern. A null property
// matches nothing, and has no meaning in MERGE
func pathProps(p Path, env *Env, merge bool) (nodes, rels []Map, st status) {
	eval := func(e *E) Map {
		if e == nil {
			return nil
		}
		r := e.eval(env)
		if r.st != ok {
			if st != bad {
				st = r.st
			}
			return nil
		}
		m, isMap := r.v.(Map)
		if !isMap {
			st = bad
			return nil
		}
		for _, v := range m {
			switch v.(type) {
			case int, string:
			case nil:
				if merge && st == ok {
					st = unspec
				}
			default:
				// The graph library compares only these
				if st == ok {
					st = unspec
				}
			}
		}
		return m
	}
	for i := range p.Nodes {
		nodes = append(nodes, eval(p.Nodes[i].Props))
	}
	for i := range p.Rels {
		rels = append(rels, eval(p.Rels[i].Props))
	}
	return
}

// incidence lists the edges of the nodes
func incidence(g *MGraph) (out, in map[int][]int) {
	out, in = map[int][]int{}, map[int][]int{}
	for _, id := range g.edgeIDs() {
		e := g.Edges[id]
		out[e.From] = append(out[e.From], id)
		in[e.To] = append(in[e.To], id)
	}
	return
}

const maxRows = 5000

// matcher finds the embeddings of path patterns by trying everything
type matcher struct {
	g       *MGraph
	out, in map[int][]int
	n       int
	walked  int
	tooMany bool
	unspec  bool
}

func newMatcher(g *MGraph) *matcher {
	m := &matcher{g: g}
	m.out, m.in = incidence(g)
	return m
}

// match calls emit for each embedding of p that agrees with lookup
func (m *matcher) match(p Path, nodeProps, relProps []Map, lookup func(string) (V, bool), emit func(map[string]V)) status {
	vars := map[string]V{}
	get := func(name string) (V, bool) {
		if v, ok := vars[name]; ok {
			return v, true
		}
		return lookup(name)
	}
	names := p.vars()
	// variables bound to something else are errors
	for _, n := range p.Nodes {
		if v, bound := lookup(n.Var); n.Var != "" && bound && v != nil {
			if _, isNode := v.(NodeV); !isNode {
				if _, isPath := v.(PathV); isPath {
					return unspec
				}
				return bad
			}
		}
	}
	for _, r := range p.Rels {
		if v, bound := lookup(r.Var); r.Var != "" && bound && v != nil {
			if _, isPath := v.(PathV); !isPath {
				if _, isNode := v.(NodeV); isNode {
					return unspec
				}
				return bad
			}
		}
	}
	var node func(i int, id int)
	var rel func(i int, at int)
	node = func(i, id int) {
		if m.tooMany || !matchNode(m.g.Nodes[id], p.Nodes[i], nodeProps[i]) {
			return
		}
		if name := p.Nodes[i].Var; name != "" {
			if v, bound := get(name); bound {
				if v != V(NodeV{id}) {
					return
				}
				rel(i, id)
				return
			}
			vars[name] = NodeV{id}
			rel(i, id)
			delete(vars, name)
			return
		}
		rel(i, id)
	}
	rel = func(i, at int) {
		if i == len(p.Rels) {
			m.n++
			if m.n > maxRows {
				m.tooMany = true
				return
			}
			row := map[string]V{}
			for _, k := range names {
				row[k], _ = get(k)
			}
			emit(row)
			return
		}
		r := p.Rels[i]
		min, max := 1, 1
		if r.Range {
			min, max = r.Min, r.Max
			if r.Exact {
				max = min
			}
			if min < 0 {
				min = 1
			}
			if min == 0 {
				m.unspec = true
			}
		}
		var bound []int
		isBound := false
		if r.Var != "" {
			if v, exists := get(r.Var); exists {
				isBound = true
				path, isPath := v.(PathV)
				if !isPath {
					return // null
				}
				bound = path.list()
			}
		}
		used := map[int]bool{}
		edges := []int{}
		trail := []int{} // the nodes
		var walk func(at int)
		steps := 0
		arrive := func(at int) {
			if isBound {
				if len(bound) != len(edges) {
					return
				}
				for _, e := range bound {
					if !used[e] {
						return
					}
				}
				if len(edges) > 1 && !allDistinct(trail) {
					m.unspec = true
				}
				node(i+1, at)
				return
			}
			if r.Var != "" {
				vars[r.Var] = mkPath(edges...)
				node(i+1, at)
				delete(vars, r.Var)
				return
			}
			node(i+1, at)
		}
		walk = func(at int) {
			steps++
			m.walked++
			trail = append(trail, at)
			defer func() { trail = trail[:len(trail)-1] }()
			if steps > maxRows || m.walked > 4*maxRows {
				m.tooMany = true
			}
			if m.tooMany {
				return
			}
			if len(edges) >= min && len(edges) > 0 {
				arrive(at)
			}
			if max >= 0 && len(edges) >= max {
				return
			}
			try := func(id, to int) {
				if used[id] || !matchEdge(m.g.Edges[id], r, relProps[i]) {
					return
				}
				used[id] = true
				edges = append(edges, id)
				walk(to)
				edges = edges[:len(edges)-1]
				delete(used, id)
			}
			if r.Dir != dirLeft {
				for _, id := range m.out[at] {
					try(id, m.g.Edges[id].To)
				}
			}
			if r.Dir != dirRight {
				for _, id := range m.in[at] {
					e := m.g.Edges[id]
					if e.From == e.To && r.Dir != dirLeft {
						continue // a loop has been tried
					}
					try(id, e.From)
				}
			}
		}
		walk(at)
	}
	for _, id := range m.g.nodeIDs() {
		node(0, id)
	}
	switch {
	case m.tooMany || m.unspec:
		return unspec
	}
	return ok
}

func allDistinct(ids []int) bool {
	seen := map[int]bool{}
	for _, id := range ids {
		if seen[id] {
			return false
		}
		seen[id] = true
	}
	return true
}

// hasRange tells if a query has variable length relationships
func (q *Query) hasRange() bool {
	for _, s := range q.Parts {
		for _, m := range s.Reads {
			for _, p := range m.Pats {
				if p.hasRange() {
					return true
				}
			}
		}
	}
	return false
}

func (q *Query) hasMerge() bool {
	for _, s := range q.Parts {
		for _, u := range s.Updates {
			if u.K == "merge" {
				return true
			}
		}
	}
	return false
}

// tooLarge tells if the library must not be asked for the result
func (r Result) tooLarge(q *Query) bool {
	return r.huge || (r.st == unspec && (q.hasRange() || q.hasMerge()))
}

func (p Path) vars() []string {
	out := []string{}
	for _, n := range p.Nodes {
		if n.Var != "" {
			out = append(out, n.Var)
		}
	}
	for _, r := range p.Rels {
		if r.Var != "" {
			out = append(out, r.Var)
		}
	}
	return out
}

// ---------------------------------------------------------------- execution

// Exec is the reference interpreter of queries. It changes G
type Exec struct {
	G    *MGraph
	Base *Env
	// Dirty is set when updating clauses have begun
	Dirty bool
	// Exact is set if G is as it must be after an error
	Exact bool
	// Created are the elements created by the query
	CreatedNodes, CreatedEdges map[int]bool
	// what was written in the running SET clause by other rows
	written map[string]write
	curRow  int
	// Filter is applied to properties that are written
	Filter func(key string, v V) V
	huge   bool
	// set if a pattern contains a variable of the context: then it is not
	// specified if RETURN * returns it
	usesBase bool
	// FinalRows are the rows before the projection, of each query of a UNION
	FinalRows [][]map[string]V
	// Matched counts the rows of MATCH and MERGE
	Matched int
	// elements deleted by this query
	goneNodes, goneEdges map[int]bool
}

type write struct {
	row int
	// shared: other rows wrote it before
	shared bool
	v      V
}

// other tells if a row other than the given one wrote it
func (w write) other(row int) bool {
	return w.shared || w.row != row
}

// Part is the result of a single query
type Part struct {
	Cols        []string
	Full        []map[string]V // before SKIP and LIMIT
	Keys        [][]V
	Desc        []bool
	Ordered     bool
	Skip, Limit int
	HasRet      bool
}

// Result is the result of a query
type Result struct {
	st status
	// too many rows or paths to list
	huge  bool
	Parts []Part
	All   []bool
}

type stop struct{ st status }

func (x *Exec) fail(st status) { panic(stop{st}) }

func newExec(g *MGraph, env *Env) *Exec {
	x := &Exec{G: g, CreatedNodes: map[int]bool{}, CreatedEdges: map[int]bool{}}
	x.Base = &Env{Vars: map[string]V{}, Params: map[string]V{}, G: g}
	if env != nil {
		x.Base.Params, x.Base.Funcs, x.Base.OnUnspec = env.Params, env.Funcs, env.OnUnspec
		for k, v := range env.Vars {
			x.Base.Vars[k] = v
		}
	}
	return x
}

// Run executes a query
func (x *Exec) Run(q *Query) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			s, isStop := r.(stop)
			if !isStop {
				panic(r)
			}
			res = Result{st: s.st, huge: x.huge}
		}
	}()
	res.All = q.All
	for _, s := range q.Parts {
		res.Parts = append(res.Parts, x.single(s))
	}
	return res
}

func (x *Exec) env(row map[string]V) *Env {
	e := &Env{Vars: make(map[string]V, len(x.Base.Vars)+len(row)), Params: x.Base.Params, Funcs: x.Base.Funcs, G: x.G, OnRead: x.Base.OnRead, OnUnspec: x.Base.OnUnspec}
	for k, v := range x.Base.Vars {
		e.Vars[k] = v
	}
	for k, v := range row {
		e.Vars[k] = v
	}
	return e
}

// all evaluates something for all rows, with errors prevailing over
// unspecified results
type pending struct{ st status }

func (p *pending) add(st status) {
	if st == bad || (st == unspec && p.st == ok) {
		p.st = st
	}
}

func (x *Exec) settle(p pending) {
	if p.st != ok {
		x.fail(p.st)
	}
}

func merged(a, b map[string]V) map[string]V {
	r := make(map[string]V, len(a)+len(b))
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

func (x *Exec) matchClause(m Match, row map[string]V) ([]map[string]V, status) {
	env := x.env(row)
	p := pending{}
	type prepared struct{ nodes, rels []Map }
	pre := []prepared{}
	for _, pat := range m.Pats {
		x.noteBase(pat)
		n, r, st := pathProps(pat, env, false)
		p.add(st)
		pre = append(pre, prepared{n, r})
	}
	if p.st != ok {
		return nil, p.st
	}
	rows := []map[string]V{{}}
	for i, pat := range m.Pats {
		next := []map[string]V{}
		mt := newMatcher(x.G)
		for _, r := range rows {
			p.add(mt.match(pat, pre[i].nodes, pre[i].rels, func(name string) (V, bool) {
				if v, bound := r[name]; bound {
					return v, true
				}
				v, bound := env.Vars[name]
				return v, bound
			}, func(found map[string]V) {
				next = append(next, merged(r, found))
			}))
			if mt.tooMany || len(next) > maxRows {
				x.huge = true
				return nil, unspec
			}
			if p.st == unspec {
				return nil, unspec
			}
		}
		rows = next
	}
	if p.st != ok {
		return nil, p.st
	}
	if m.Where != nil {
		kept := []map[string]V{}
		for _, r := range rows {
			res := m.Where.eval(x.env(merged(row, r)))
			p.add(res.st)
			if res.st != ok {
				continue
			}
			switch b := res.v.(type) {
			case nil:
			case bool:
				if b {
					kept = append(kept, r)
				}
			default:
				p.add(unspec)
			}
		}
		rows = kept
	}
	if p.st != ok {
		return nil, p.st
	}
	if m.Optional && len(rows) == 0 {
		r := map[string]V{}
		for _, pat := range m.Pats {
			for _, v := range pat.vars() {
				if _, bound := env.Vars[v]; !bound {
					r[v] = nil
				}
			}
		}
		rows = append(rows, r)
	}
	x.Matched += len(rows)
	return rows, ok
}

func (x *Exec) noteBase(p Path) {
	for _, v := range append(p.vars(), p.Var) {
		if _, bound := x.Base.Vars[v]; bound {
			x.usesBase = true
		}
	}
}

func (x *Exec) single(s Single) Part {
	part := Part{Skip: -1, Limit: -1}
	if s.Ret != nil {
		part.HasRet = true
		// These are evaluated once
		env := x.env(nil)
		amount := func(e *E) int {
			if e == nil {
				return -1
			}
			r := e.eval(env)
			if r.st != ok {
				x.fail(r.st)
			}
			n, isInt := r.v.(int)
			if !isInt {
				x.fail(bad)
			}
			if n < 0 {
				x.fail(unspec)
			}
			return n
		}
		part.Skip, part.Limit = amount(s.Ret.Skip), amount(s.Ret.Limit)
	}
	rows := []map[string]V{{}}
	for _, m := range s.Reads {
		next := []map[string]V{}
		p := pending{}
		for _, row := range rows {
			rs, st := x.matchClause(m, row)
			p.add(st)
			for _, r := range rs {
				next = append(next, merged(row, r))
			}
			if len(next) > maxRows {
				x.huge = true
				x.fail(unspec)
			}
		}
		x.settle(p)
		rows = next
	}
	for i, u := range s.Updates {
		if i == 0 && len(s.Reads) == 0 && u.K != "create" && u.K != "merge" {
			x.fail(bad)
		}
		x.Dirty = true
		rows = x.update(u, rows)
	}
	x.FinalRows = append(x.FinalRows, rows)
	if s.Ret == nil {
		return part
	}
	if s.Ret.Star && x.usesBase {
		x.fail(unspec)
	}
	x.project(*s.Ret, rows, &part)
	return part
}

func (x *Exec) project(ret Ret, rows []map[string]V, part *Part) {
	for i, it := range ret.Items {
		if it.Alias != "" {
			part.Cols = append(part.Cols, it.Alias)
		} else {
			part.Cols = append(part.Cols, strconv.Itoa(i+1))
		}
	}
	p := pending{}
	part.Ordered = len(ret.Order) > 0
	for _, o := range ret.Order {
		part.Desc = append(part.Desc, o.Desc)
	}
	seen, sortable := map[string]bool{}, map[string]status{}
	for _, row := range rows {
		env := x.env(row)
		out := map[string]V{}
		if ret.Star {
			for k, v := range row {
				out[k] = v
			}
		}
		failed := false
		for i, it := range ret.Items {
			r := it.E.eval(env)
			p.add(r.st)
			if r.st != ok {
				failed = true
				continue
			}
			if it.Alias != "" {
				out[it.Alias] = r.v
			} else {
				out[strconv.Itoa(i+1)] = r.v
			}
		}
		if failed {
			continue
		}
		var keys []V
		if part.Ordered {
			kenv := x.env(merged(row, out))
			st := pending{}
			for _, o := range ret.Order {
				r := o.E.eval(kenv)
				st.add(r.st)
				keys = append(keys, r.v)
			}
			if !ret.Distinct {
				p.add(st.st)
			} else if k := distinctRowKey(out); !seen[k] {
				seen[k] = true
				sortable[k] = st.st
			} else if sortable[k] != st.st {
				// only the sort keys of one of the duplicates are needed
				sortable[k] = unspec
			}
		}
		part.Full = append(part.Full, out)
		part.Keys = append(part.Keys, keys)
	}
	for _, st := range sortable {
		p.add(st)
	}
	if p.st != ok && !ret.Distinct && !part.Ordered && (part.Skip > 0 || part.Limit >= 0) {
		// rows that are skipped may or may not be evaluated
		x.fail(unspec)
	}
	if ret.Distinct {
		distinct(part, x)
	}
	if part.Ordered && p.st == ok {
		p.add(sortPart(part))
	}
	x.settle(p)
}

// distinctKey is the same for values that are the same
func distinctKey(v V) string {
	switch x := v.(type) {
	case int:
		return show(float64(x))
	case float64:
		if x == 0 {
			x = 0
		}
		return show(x)
	case List:
		s := "["
		for _, e := range x {
			s += distinctKey(e) + ", "
		}
		return s + "]"
	case Map:
		s := "{"
		for _, k := range sortedKeys(x) {
			s += strconv.Quote(k) + ": " + distinctKey(x[k]) + ", "
		}
		return s + "}"
	}
	return show(v)
}

func distinctRowKey(row map[string]V) string {
	s := ""
	for _, k := range sortedKeys(row) {
		s += strconv.Quote(k) + "=" + distinctKey(row[k]) + " "
	}
	return s
}

// hasNaN finds values whose identity is not specified
func oddIdentity(v V) bool {
	switch x := v.(type) {
	case float64:
		return x != x
	case Dur:
		return true
	case PathV:
		return len(x.list()) > 1
	case List:
		for _, e := range x {
			if oddIdentity(e) {
				return true
			}
		}
	case Map:
		for _, e := range x {
			if oddIdentity(e) {
				return true
			}
		}
	}
	return false
}

func distinct(part *Part, x *Exec) {
	seen := map[string]map[string]V{}
	var rows []map[string]V
	var keys [][]V
	sortKey := map[string]string{}
	for i, r := range part.Full {
		for _, v := range r {
			if oddIdentity(v) {
				x.fail(unspec)
			}
		}
		k := distinctRowKey(r)
		if first, dup := seen[k]; dup {
			for c, v := range r {
				if !same(v, first[c]) {
					x.fail(unspec)
				}
			}
			if sortKey[k] != show(List(part.Keys[i])) {
				// sorted by something that is not the same in equal rows
				x.fail(unspec)
			}
			continue
		}
		seen[k] = r
		sortKey[k] = show(List(part.Keys[i]))
		rows = append(rows, r)
		keys = append(keys, part.Keys[i])
	}
	part.Full, part.Keys = rows, keys
}

func sortRank(v V) int {
	switch x := v.(type) {
	case nil:
		return 2
	case float64:
		if x != x {
			return 1
		}
	}
	return 0
}

// compareKeys orders sort keys; st is bad if they are not comparable
func compareKeys(a, b V) (int, status) {
	ra, rb := sortRank(a), sortRank(b)
	if ra != 0 || rb != 0 {
		return ra - rb, ok
	}
	lt, eq := compare("<", val(a), val(b)), compare("=", val(a), val(b))
	if lt.st != ok || eq.st != ok {
		if lt.st == bad || eq.st == bad {
			return 0, bad
		}
		return 0, unspec
	}
	if lt.v == true {
		return -1, ok
	}
	if eq.v == true {
		return 0, ok
	}
	return 1, ok
}

// comparable finds whether rows can be sorted by the k-th and later keys
func comparable(part *Part, rows []int, k int) status {
	if k == len(part.Desc) {
		return ok
	}
	p := pending{}
	for i := range rows {
		for j := i + 1; j < len(rows); j++ {
			_, st := compareKeys(part.Keys[rows[i]][k], part.Keys[rows[j]][k])
			p.add(st)
		}
	}
	if p.st != ok {
		return p.st
	}
	for len(rows) > 0 {
		same, rest := []int{}, []int{}
		for _, r := range rows {
			if c, _ := compareKeys(part.Keys[rows[0]][k], part.Keys[r][k]); c == 0 {
				same = append(same, r)
			} else {
				rest = append(rest, r)
			}
		}
		p.add(comparable(part, same, k+1))
		rows = rest
	}
	return p.st
}

func sortPart(part *Part) status {
	// Keys of different types are errors, if rows that have them must be
	// compared: rows that have the same keys before. Whatever the sort does,
	// it cannot know the order of these rows from comparisons with others
	n := len(part.Keys)
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	if st := comparable(part, all, 0); st == bad && part.Limit >= 0 && (n > 2 || part.Limit == 0) {
		// not all rows have to be sorted
		return unspec
	} else if st != ok {
		return st
	}
	index := make([]int, n)
	for i := range index {
		index[i] = i
	}
	sort.SliceStable(index, func(i, j int) bool {
		for k, desc := range part.Desc {
			c, _ := compareKeys(part.Keys[index[i]][k], part.Keys[index[j]][k])
			if c != 0 {
				return (c < 0) != desc
			}
		}
		return false
	})
	rows, keys := make([]map[string]V, n), make([][]V, n)
	for i, x := range index {
		rows[i], keys[i] = part.Full[x], part.Keys[x]
	}
	part.Full, part.Keys = rows, keys
	return ok
}

// ---------------------------------------------------------------- updates

func (x *Exec) update(u Upd, rows []map[string]V) []map[string]V {
	switch u.K {
	case "create":
		out := []map[string]V{}
		for _, row := range rows {
			vars := merged(row, nil)
			for _, p := range u.Pats {
				x.createPath(p, vars)
			}
			out = append(out, vars)
		}
		return out
	case "set":
		x.setClause(u.Items, rows)
	case "remove":
		for _, row := range rows {
			x.removeItems(u.Items, x.env(row))
		}
	case "delete":
		x.deleteClause(u, rows)
	case "merge":
		return x.mergeClause(u, rows)
	}
	return rows
}

func (x *Exec) mustEval(e *E, env *Env) V {
	r := e.eval(env)
	if r.st != ok {
		x.fail(r.st)
	}
	return r.v
}

// storable returns false for values whose use as a property is not specified
func storable(v V) bool {
	switch y := v.(type) {
	case NodeV, PathV, Alien, Map:
		return false
	case List:
		for _, e := range y {
			if !storable(e) {
				return false
			}
		}
	}
	return true
}

func (x *Exec) newProps(e *E, env *Env) Map {
	if e == nil {
		return nil
	}
	m, isMap := x.mustEval(e, env).(Map)
	if !isMap {
		x.fail(bad)
	}
	out := Map{}
	for k, v := range m {
		if !storable(v) {
			x.fail(unspec)
		}
		if v != nil {
			out[k] = x.filter(k, v)
		}
	}
	return out
}

func (x *Exec) filter(k string, v V) V {
	if x.Filter != nil {
		return x.Filter(k, v)
	}
	return v
}

func (x *Exec) createNode(p NodePat, vars map[string]V) int {
	env := x.env(vars)
	if p.Var != "" {
		if v, bound := env.Vars[p.Var]; bound {
			if len(p.Labels) > 0 || p.Props != nil {
				x.fail(bad)
			}
			n, isNode := v.(NodeV)
			if !isNode {
				x.fail(bad)
			}
			return n.ID
		}
	}
	n := x.G.addNode(p.Labels, x.newProps(p.Props, env))
	x.CreatedNodes[n.ID] = true
	if p.Var != "" {
		vars[p.Var] = NodeV{n.ID}
	}
	return n.ID
}

func (x *Exec) createPath(p Path, vars map[string]V) {
	x.noteBase(p)
	at := x.createNode(p.Nodes[0], vars)
	edges := []int{}
	for i, r := range p.Rels {
		to := x.createNode(p.Nodes[i+1], vars)
		if r.Range || len(r.Types) > 1 {
			x.fail(bad)
		}
		env := x.env(vars)
		if r.Var != "" {
			if _, bound := env.Vars[r.Var]; bound {
				x.fail(bad)
			}
		}
		label := ""
		if len(r.Types) == 1 {
			label = r.Types[0]
		}
		if x.G.Nodes[at] == nil || x.G.Nodes[to] == nil {
			x.fail(unspec)
		}
		props := x.newProps(r.Props, env)
		from, dest := at, to
		if r.Dir == dirLeft {
			from, dest = to, at
		}
		e := x.G.addEdge(from, dest, label, props)
		x.CreatedEdges[e.ID] = true
		edges = append(edges, e.ID)
		if r.Var != "" {
			vars[r.Var] = mkPath(e.ID)
		}
		at = to
	}
	if p.Var != "" {
		if len(edges) == 0 {
			vars[p.Var] = NodeV{at}
		} else {
			vars[p.Var] = mkPath(edges...)
		}
	}
}

// selfOnly tells if the items read and write only one variable, so that
// the order of the rows does not matter
func selfOnly(items []SetItem) bool {
	target := ""
	only := true
	for _, it := range items {
		if target == "" {
			target = it.Var
		}
		only = only && it.Var == target
		if it.E != nil {
			it.E.walk(func(e *E) {
				if e.K == "var" && e.S != target {
					only = false
				}
			})
		}
	}
	return only
}

func (x *Exec) setClause(items []SetItem, rows []map[string]V) {
	if len(rows) > 1 && !selfOnly(items) {
		// The result must not depend on the order of the rows
		x.written = map[string]write{}
		x.Base.OnRead = func(n int, key string) {
			if w, exists := x.written[fmt.Sprintf("%d.%s", n, key)]; exists && w.other(x.curRow) {
				x.fail(unspec)
			}
		}
		defer func() { x.written, x.Base.OnRead = nil, nil }()
	}
	// A later row may read what an earlier row will have written, so the
	// reads are checked again when everything is written
	for i, row := range rows {
		x.curRow = i
		x.setItems(items, row)
	}
	if x.written != nil {
		for i, row := range rows {
			x.curRow = i
			for _, it := range items {
				if it.E != nil {
					if n, isNode := it.E.eval(x.env(row)).v.(NodeV); isNode {
						for k, w := range x.written {
							if strings.HasPrefix(k, fmt.Sprintf("%d.", n.ID)) && w.other(x.curRow) {
								x.fail(unspec)
							}
						}
					}
				}
			}
		}
	}
}

func (x *Exec) store(id int, key string, v V, conflict bool) {
	// values can grow with each row
	big := false
	switch y := v.(type) {
	case string:
		big = len(y) > 5000
	case List:
		big = len(y) > 500
	}
	if big {
		x.huge = true
		x.fail(unspec)
	}
	if x.written != nil && conflict {
		k := fmt.Sprintf("%d.%s", id, key)
		if w, exists := x.written[k]; exists && w.other(x.curRow) && !same(w.v, v) {
			x.fail(unspec)
		}
		w, exists := x.written[k]
		x.written[k] = write{row: x.curRow, shared: exists && w.other(x.curRow), v: v}
	}
	n := x.G.Nodes[id]
	if v == nil {
		delete(n.Props, key)
	} else {
		n.Props[key] = v
	}
}

func (x *Exec) setItems(items []SetItem, row map[string]V) {
	env := x.env(row)
	for _, it := range items {
		var v V
		if it.E != nil {
			v = x.mustEval(it.E, env)
		}
		target, exists := env.Vars[it.Var]
		if !exists {
			x.fail(bad)
		}
		n, isNode := target.(NodeV)
		if !isNode {
			if target == nil {
				// ignored
				_, fromMap := v.(Map)
				_, fromNode := v.(NodeV)
				if (it.K == "assign" || it.K == "add") && !fromMap && !fromNode {
					x.fail(unspec)
				}
				continue
			}
			if _, isMap := target.(Map); isMap {
				x.fail(unspec)
			}
			x.fail(bad)
		}
		node := x.G.Nodes[n.ID]
		if node == nil {
			x.fail(unspec)
		}
		switch it.K {
		case "prop":
			if !storable(v) {
				x.fail(unspec)
			}
			if v != nil {
				v = x.filter(it.Key, v)
			}
			x.store(n.ID, it.Key, v, true)
		case "labels":
			for _, l := range it.Labels {
				node.Labels[l] = true
			}
		default:
			var src Map
			switch y := v.(type) {
			case Map:
				src = y
			case NodeV:
				from := x.G.Nodes[y.ID]
				if from == nil {
					x.fail(unspec)
				}
				src = Map(cloneMap(from.Props))
				for k := range src {
					if env.OnRead != nil {
						env.OnRead(y.ID, k)
					}
				}
				if x.written != nil {
					// keys that are removed later are read as well
					for k, w := range x.written {
						if strings.HasPrefix(k, fmt.Sprintf("%d.", y.ID)) && w.other(x.curRow) {
							x.fail(unspec)
						}
					}
				}
			default:
				x.fail(bad)
			}
			for _, e := range src {
				if !storable(e) {
					x.fail(unspec)
				}
			}
			if it.K == "assign" {
				if x.written != nil {
					// replaces everything: conflicts with any other write
					for k, w := range x.written {
						if strings.HasPrefix(k, fmt.Sprintf("%d.", n.ID)) && w.other(x.curRow) {
							x.fail(unspec)
						}
					}
				}
				for k := range cloneMap(node.Props) {
					if _, kept := src[k]; !kept {
						x.store(n.ID, k, nil, true)
					}
				}
			}
			for k, e := range src {
				if e == nil {
					if it.K == "add" || node.Props[k] != nil {
						x.store(n.ID, k, nil, true)
					}
					continue
				}
				x.store(n.ID, k, x.filter(k, e), true)
			}
		}
	}
}

func (x *Exec) removeItems(items []SetItem, env *Env) {
	for _, it := range items {
		target, exists := env.Vars[it.Var]
		if !exists {
			x.fail(bad)
		}
		n, isNode := target.(NodeV)
		if !isNode {
			if _, isMap := target.(Map); isMap {
				x.fail(unspec)
			}
			if target == nil {
				continue
			}
			x.fail(bad)
		}
		node := x.G.Nodes[n.ID]
		if node == nil {
			x.fail(unspec)
		}
		if it.K == "prop" {
			delete(node.Props, it.Key)
			continue
		}
		for _, l := range it.Labels {
			delete(node.Labels, l)
		}
	}
}

func (x *Exec) deleteClause(u Upd, rows []map[string]V) {
	// A refused deletion deletes nothing
	x.Exact = true
	nodes, edges := map[int]bool{}, map[int]bool{}
	for _, row := range rows {
		env := x.env(row)
		for _, e := range u.Exprs {
			switch v := x.mustEval(e, env).(type) {
			case nil:
			case NodeV:
				if x.G.Nodes[v.ID] == nil {
					if x.goneNodes[v.ID] {
						continue
					}
					x.fail(unspec)
				}
				nodes[v.ID] = true
			case PathV:
				for _, id := range v.list() {
					if x.G.Edges[id] == nil {
						if x.goneEdges[id] {
							continue
						}
						x.fail(unspec)
					}
					edges[id] = true
				}
			default:
				x.fail(unspec)
			}
		}
	}
	for id, e := range x.G.Edges {
		if (nodes[e.From] || nodes[e.To]) && !edges[id] {
			if !u.Detach {
				x.fail(bad)
			}
			edges[id] = true
		}
	}
	x.Exact = false
	if x.goneNodes == nil {
		x.goneNodes, x.goneEdges = map[int]bool{}, map[int]bool{}
	}
	for id := range edges {
		x.goneEdges[id] = true
		delete(x.G.Edges, id)
	}
	for id := range nodes {
		x.goneNodes[id] = true
		delete(x.G.Nodes, id)
	}
}

func (x *Exec) mergeClause(u Upd, rows []map[string]V) []map[string]V {
	pat := u.Pats[0]
	x.noteBase(pat)
	type creation struct {
		key          string
		nodes, edges map[int]bool
	}
	var created []creation
	owner := func(id int, node bool) (string, bool) {
		for _, c := range created {
			if (node && c.nodes[id]) || (!node && c.edges[id]) {
				return c.key, true
			}
		}
		return "", false
	}
	find := func(row map[string]V) ([]map[string]V, string) {
		env := x.env(row)
		np, rp, st := pathProps(pat, env, true)
		if st != ok {
			x.fail(st)
		}
		key := ""
		for _, v := range pat.vars() {
			if b, bound := env.Vars[v]; bound {
				key += v + "=" + show(b) + " "
			}
		}
		for _, m := range append(append([]Map{}, np...), rp...) {
			key += show(m)
		}
		found := []map[string]V{}
		// give the elements of the match names, to see what they are
		named := pat
		named.Nodes = append([]NodePat{}, pat.Nodes...)
		named.Rels = append([]RelPat{}, pat.Rels...)
		for i := range named.Nodes {
			if named.Nodes[i].Var == "" {
				named.Nodes[i].Var = fmt.Sprintf("\x00n%d", i)
			}
		}
		for i := range named.Rels {
			if named.Rels[i].Var == "" {
				named.Rels[i].Var = fmt.Sprintf("\x00r%d", i)
			}
		}
		mt := newMatcher(x.G)
		st = mt.match(named, np, rp, func(name string) (V, bool) {
			v, bound := env.Vars[name]
			return v, bound
		}, func(m map[string]V) {
			found = append(found, m)
		})
		if mt.tooMany {
			x.huge = true
		}
		if st != ok {
			x.fail(st)
		}
		for _, m := range found {
			for _, v := range m {
				switch y := v.(type) {
				case NodeV:
					if k, isNew := owner(y.ID, true); isNew && k != key {
						x.fail(unspec)
					}
				case PathV:
					for _, id := range y.list() {
						if k, isNew := owner(id, false); isNew && k != key {
							x.fail(unspec)
						}
					}
				}
			}
		}
		return found, key
	}
	type actionRow struct {
		row      map[string]V
		onCreate bool
	}
	var actions []actionRow
	out := []map[string]V{}
	for _, row := range rows {
		found, key := find(row)
		if len(out)+len(found) > maxRows/10 {
			x.huge = true
			x.fail(unspec)
		}
		if len(found) == 0 {
			nodes, edges := map[int]bool{}, map[int]bool{}
			for id := range x.G.Nodes {
				nodes[id] = true
			}
			for id := range x.G.Edges {
				edges[id] = true
			}
			vars := merged(row, nil)
			x.createPath(pat, vars)
			c := creation{key, map[int]bool{}, map[int]bool{}}
			for id := range x.G.Nodes {
				if !nodes[id] {
					c.nodes[id] = true
				}
			}
			for id := range x.G.Edges {
				if !edges[id] {
					c.edges[id] = true
				}
			}
			created = append(created, c)
			actions = append(actions, actionRow{vars, true})
			out = append(out, vars)
			continue
		}
		x.Matched += len(found)
		for _, m := range found {
			r := merged(row, nil)
			for k, v := range m {
				if !strings.HasPrefix(k, "\x00") {
					r[k] = v
				}
			}
			actions = append(actions, actionRow{r, false})
			out = append(out, r)
		}
	}
	if len(rows) > 1 && len(created) > 0 {
		// In another order, other rows could have come first
		count := map[string]int{}
		for _, row := range rows {
			found, key := find(row)
			count[key]++
			for _, c := range created {
				if c.key == key && count[key] > 1 && len(found) != 1 {
					// one of these rows creates the elements, and the
					// others have several matches
					x.fail(unspec)
				}
			}
		}
	}
	if len(u.On) == 0 {
		return out
	}
	// The actions run between the rows, so that they must not change what
	// is matched, nor depend on which row creates something
	if len(rows) > 1 {
		keys := map[string]bool{}
		for i := range pat.Nodes {
			if e := pat.Nodes[i].Props; e != nil && e.K == "map" {
				for _, k := range e.Ops {
					keys[k] = true
				}
			} else if e != nil {
				x.fail(unspec)
			}
		}
		for _, a := range u.On {
			for _, it := range a.Items {
				if it.K == "assign" || it.K == "add" || keys[it.Key] || (it.K == "labels" && len(it.Labels) > 0) {
					x.fail(unspec)
				}
				// only constants: several rows may carry out the same action
				if it.E != nil {
					it.E.walk(func(e *E) {
						if e.K == "var" {
							x.fail(unspec)
						}
					})
				}
			}
		}
		// the same key must not be set by both kinds of actions
		seen := map[string]bool{}
		for _, a := range u.On {
			for _, it := range a.Items {
				k := fmt.Sprint(it.Key)
				if prev, exists := seen[k]; exists && prev != a.OnCreate {
					x.fail(unspec)
				}
				seen[k] = a.OnCreate
			}
		}
	}
	if len(actions) > 1 {
		// Nor does it matter if actions are carried out for all rows
		// before the next one
		for _, create := range []bool{true, false} {
			items := []SetItem{}
			for _, a := range u.On {
				if a.OnCreate == create {
					items = append(items, a.Items...)
				}
			}
			target := map[string]string{}
			for _, it := range items {
				if v, exists := target[it.Key]; exists && it.K == "prop" && v != it.Var {
					x.fail(unspec)
				}
				target[it.Key] = it.Var
			}
			if len(rows) == 1 && !selfOnly(items) {
				x.fail(unspec)
			}
			reads, times := false, 0
			for _, it := range items {
				if it.E != nil {
					it.E.walk(func(e *E) { reads = reads || e.K == "var" })
				}
			}
			for _, a := range u.On {
				if a.OnCreate == create {
					times++
				}
			}
			if reads && times > 1 {
				// of the same node, each row sees what the others wrote
				seen := map[V]bool{}
				for _, ar := range actions {
					if n, isNode := ar.row[items[0].Var].(NodeV); isNode && ar.onCreate == create {
						if seen[n] {
							x.fail(unspec)
						}
						seen[n] = true
					}
				}
			}
		}
	}
	for _, ar := range actions {
		for _, a := range u.On {
			if a.OnCreate == ar.onCreate {
				x.setItems(a.Items, ar.row)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- comparison

// diffResult compares what the library returned to the result of the
// reference interpreter
func diffResult(out Outcome, res Result, cg, cw Colours) string {
	if !res.Parts[0].HasRet && len(res.Parts) == 1 {
		if len(out.Rows) != 0 {
			return fmt.Sprintf("a query without RETURN gives %d rows", len(out.Rows))
		}
		return ""
	}
	if len(out.RS.Cols) != len(res.Parts[0].Cols) || strings.Join(out.RS.Cols, "\x00") != strings.Join(res.Parts[0].Cols, "\x00") {
		return fmt.Sprintf("the columns are %q, expected %q", out.RS.Cols, res.Parts[0].Cols)
	}
	if len(res.Parts) == 1 {
		return diffPart(out.Rows, res.Parts[0], cg, cw)
	}
	var rows []map[string]V
	for i, p := range res.Parts {
		if p.Skip >= 0 || p.Limit >= 0 {
			return "" // which rows are taken is decided elsewhere
		}
		rows = append(rows, p.Full...)
		if i > 0 && !res.All[i-1] {
			unique := []map[string]V{}
			seen := map[string]bool{}
			for _, r := range rows {
				for _, v := range r {
					if oddIdentity(v) {
						return ""
					}
				}
				k := distinctRowKey(r)
				if !seen[k] {
					seen[k] = true
					unique = append(unique, r)
				}
			}
			rows = unique
		}
	}
	return diffRows(out.Rows, rows, cg, cw, false)
}

func diffPart(got []map[string]V, p Part, cg, cw Colours) string {
	n := len(p.Full)
	from := 0
	if p.Skip > 0 {
		from = p.Skip
	}
	if from > n {
		from = n
	}
	to := n
	if p.Limit >= 0 && p.Limit < n-from {
		to = from + p.Limit
	}
	if len(got) != to-from {
		return fmt.Sprintf("%d rows, expected %d\ngot:  %s\nwant: %s", len(got), to-from, showRows(got), showRows(p.Full[from:to]))
	}
	if !p.Ordered {
		if from == 0 && to == n {
			return diffRows(got, p.Full, cg, cw, false)
		}
		count := map[string]int{}
		for _, r := range p.Full {
			count[rowKey(r, cw)]++
		}
		for _, r := range got {
			k := rowKey(r, cg)
			if count[k]--; count[k] < 0 {
				return "the row " + showRow(r) + " is not in the full result, or too often"
			}
		}
		return ""
	}
	// Rows with equal keys can come in any order
	class := make([]int, n)
	for i := 1; i < n; i++ {
		class[i] = class[i-1]
		for k := range p.Desc {
			if c, _ := compareKeys(p.Keys[i-1][k], p.Keys[i][k]); c != 0 {
				class[i]++
				break
			}
		}
	}
	count := map[string]int{}
	for i, r := range p.Full {
		count[fmt.Sprint(class[i], " ", rowKey(r, cw))]++
	}
	for i, r := range got {
		k := fmt.Sprint(class[from+i], " ", rowKey(r, cg))
		if count[k]--; count[k] < 0 {
			return fmt.Sprintf("row %d is %s\ngot:  %s\nwant: %s", i, showRow(r), showRows(got), showRows(p.Full[from:to]))
		}
	}
	return ""
}
