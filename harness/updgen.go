package main

import "fmt"

// Generators of updating clauses

// storedValue makes the value of a property
func (q *QGen) storedValue(t string, pNull int) *E {
	switch {
	case q.Pct(pNull):
		return lit(nil)
	case q.Pct(25):
		if e := q.propLeaf(t); e != nil {
			return e
		}
	case q.Pct(20):
		return q.gen.expr(t, 2)
	case q.Pct(25):
		return q.paramFor(smallValue(q.Src, t))
	}
	return lit(smallValue(q.Src, t))
}

func (q *QGen) storedMap(types map[string]string, n, pNull int) *E {
	e := &E{K: "map"}
	keys := sortedKeys(types)
	for _, k := range keys {
		if len(e.A) < n && q.Pct(40) {
			e.Ops = append(e.Ops, k)
			e.A = append(e.A, q.storedValue(types[k], pNull))
		}
	}
	if q.Pct(18) {
		m := Map{}
		if q.Pct(40) {
			pNull = 50
		}
		for _, k := range keys {
			if q.Pct(40) {
				m[k] = smallValue(q.Src, types[k])
				if q.Pct(pNull) {
					m[k] = nil
				}
			}
		}
		return q.paramFor(m)
	}
	return e
}

func (q *QGen) newLabels() []string {
	out := []string{}
	for i, n := 0, q.Weighted(30, 50, 20, 5, 3); i < n; i++ {
		out = append(out, pick(q.Src, "A", "B", "C", "D"))
	}
	return out
}

// createPat makes a pattern of CREATE, in which the variables of nodes
// in bound stand for these
func (q *QGen) createPat(bound []string, pErr int) Path {
	p := Path{}
	steps := q.Weighted(40, 40, 20, 8, 2, 1)
	used := false
	node := func() NodePat {
		if len(bound) > 0 && q.Pct(50) && !(steps == 0) {
			used = true
			n := NodePat{Var: pickFrom(q.Src, bound)}
			if q.Pct(pErr) {
				n.Labels = []string{"A"}
			}
			return n
		}
		n := NodePat{Labels: q.newLabels()}
		if q.Pct(65) {
			n.Props = q.storedMap(nodeKeys, 3, 12)
			if n.Props.K == "map" && len(n.Props.A) == 0 && q.Pct(80) {
				n.Props = nil
			}
		}
		if q.Pct(60) {
			n.Var = q.fresh("c")
			q.nodes = append(q.nodes, n.Var)
			if q.Pct(35) {
				bound = append(bound, n.Var)
			}
		}
		return n
	}
	p.Nodes = append(p.Nodes, node())
	for i := 0; i < steps; i++ {
		r := RelPat{Types: []string{pickFrom(q.Src, typePool)}, Dir: q.Weighted(5, 5, 1, 1)}
		if q.Pct(4) {
			r.Types = nil
		}
		if q.Pct(45) {
			r.Props = q.storedMap(edgeKeys, 2, 12)
			if r.Props.K == "map" && len(r.Props.A) == 0 {
				r.Props = nil
			}
		}
		if q.Pct(pErr) {
			switch q.N(2) {
			case 0:
				r.Types = []string{"R", "S"}
			case 1:
				r.Range, r.Min, r.Max = true, 1, 2
			}
		}
		if q.Pct(40) {
			r.Var = q.fresh("e")
			q.rels = append(q.rels, r.Var)
		}
		p.Rels = append(p.Rels, r)
		p.Nodes = append(p.Nodes, node())
	}
	if q.Pct(8) {
		p.Var = q.fresh("p")
		if steps > 0 {
			q.paths = append(q.paths, p.Var)
		} else {
			q.nodes = append(q.nodes, p.Var)
		}
	}
	_ = used
	return p
}

func (q *QGen) createClause(pErr int) Upd {
	u := Upd{K: "create"}
	bound := append([]string{}, q.nodes...)
	before := append([]string{}, q.nodes...)
	if !q.Pct(10) {
		q.leafNodes = &before
		defer func() { q.leafNodes = nil }()
	}
	for i, n := 0, 1+q.Weighted(60, 30, 10, 3, 1); i < n; i++ {
		u.Pats = append(u.Pats, q.createPat(bound, pErr))
		if q.Pct(60) {
			bound = append([]string{}, q.nodes...)
		}
	}
	return u
}

func has(list []string, x string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

// notANode is a variable that cannot be changed
func (q *QGen) notANode() string {
	if len(q.rels) > 0 && q.Pct(35) {
		return pickFrom(q.Src, q.rels)
	}
	n := fmt.Sprintf("v%d", len(q.gen.vars))
	q.gen.vars[n] = pick(q.Src, "int", "str", "list", "bool", "float", "map")
	return n
}

// setItems makes the items of SET
func (q *QGen) setItems(constant bool) []SetItem {
	items := []SetItem{}
	if len(q.nodes) == 0 {
		return nil
	}
	target := pickFrom(q.Src, q.nodes)
	for i, n := 0, 1+q.Weighted(50, 40, 20, 10, 3, 2); i < n; i++ {
		if q.Pct(15) {
			target = pickFrom(q.Src, q.nodes)
		}
		own := []string{target}
		switch {
		case constant:
			own = []string{}
		case q.Pct(8):
			own = q.nodes
		}
		q.leafNodes = &own
		it := SetItem{Var: target}
		if !constant && q.Pct(2) {
			it.Var = q.notANode()
		}
		switch q.Weighted(10, 2, 3, 3) {
		case 0:
			it.K = "prop"
			it.Key = pickFrom(q.Src, sortedKeys(nodeKeys))
			it.E = q.storedValue(nodeKeys[it.Key], 15)
			if has(q.rels, it.Var) {
				it.Key = pick(q.Src, "w", "t")
			}
		case 1, 2:
			it.K = "assign"
			if q.Pct(60) {
				it.K = "add"
			}
			it.E = q.storedMap(nodeKeys, 4, 20)
			if len(q.nodes) > 1 && q.Pct(20) && !constant {
				it.E = variable(pickFrom(q.Src, q.nodes))
			}
		case 3:
			it.K = "labels"
			it.Labels = []string{pick(q.Src, "A", "B", "C", "D")}
			for q.Pct(25) && len(it.Labels) < 4 {
				it.Labels = append(it.Labels, pick(q.Src, "A", "C", "D"))
			}
		}
		q.leafNodes = nil
		items = append(items, it)
	}
	return items
}

func (q *QGen) setClause() Upd { return Upd{K: "set", Items: q.setItems(false)} }

func (q *QGen) removeClause() Upd {
	u := Upd{K: "remove"}
	for i, n := 0, 1+q.Weighted(5, 3, 1); i < n; i++ {
		it := SetItem{Var: pickFrom(q.Src, q.nodes), K: "prop", Key: pickFrom(q.Src, sortedKeys(nodeKeys))}
		if q.Pct(4) {
			it.Var = q.notANode()
			if has(q.rels, it.Var) {
				it.Key = pick(q.Src, "w", "t")
			}
		}
		if q.Pct(45) {
			it.K = "labels"
			it.Labels = []string{pick(q.Src, "A", "B", "C", "D")}
			for q.Pct(25) && len(it.Labels) < 4 {
				it.Labels = append(it.Labels, pick(q.Src, "A", "B", "C"))
			}
		}
		u.Items = append(u.Items, it)
	}
	return u
}

func (q *QGen) deleteClause(detach int) Upd {
	u := Upd{K: "delete", Detach: q.Pct(detach)}
	vars := append(append(append([]string{}, q.nodes...), q.rels...), q.paths...)
	for i, n := 0, 1+q.Weighted(50, 30, 10, 3, 1); i < n; i++ {
		v := pickFrom(q.Src, vars)
		if len(q.rels) > 0 && q.Pct(35) {
			v = pickFrom(q.Src, q.rels)
		}
		e := variable(v)
		if q.Pct(6) {
			e = lit(nil)
		}
		u.Exprs = append(u.Exprs, e)
	}
	return u
}

// mergeClause makes a MERGE clause
func (q *QGen) mergeClause(bound []string) Upd {
	u := Upd{K: "merge"}
	p := Path{}
	steps := q.Weighted(5, 4, 1)
	if len(bound) > 0 {
		steps = q.Weighted(3, 6, 2)
	}
	earlier := append([]string{}, q.nodes...)
	value := func(key, t string) *E {
		if len(earlier) > 0 && q.Pct(20) {
			return prop(variable(pickFrom(q.Src, earlier)), key)
		}
		v := smallValue(q.Src, t)
		if q.Pct(25) {
			return q.paramFor(v)
		}
		return lit(v)
	}
	node := func(fresh bool) NodePat {
		if len(bound) > 0 && steps > 0 && q.Pct(60) && !fresh {
			return NodePat{Var: pickFrom(q.Src, bound)}
		}
		n := NodePat{}
		if q.Pct(85) {
			n.Labels = []string{pick(q.Src, "A", "B", "C", "D")}
			for q.Pct(12) && len(n.Labels) < 3 {
				n.Labels = append(n.Labels, pick(q.Src, "A", "B", "C", "D"))
			}
		}
		if q.Pct(70) {
			e := &E{K: "map"}
			for _, k := range []string{"k", "s"} {
				if q.Pct(60) {
					e.Ops = append(e.Ops, k)
					e.A = append(e.A, value(k, nodeKeys[k]))
				}
			}
			if len(e.A) > 0 {
				n.Props = e
			}
		}
		if q.Pct(75) {
			n.Var = q.fresh("m")
			q.nodes = append(q.nodes, n.Var)
		}
		return n
	}
	p.Nodes = append(p.Nodes, node(false))
	for i := 0; i < steps; i++ {
		r := RelPat{Types: []string{pickFrom(q.Src, typePool)}, Dir: q.Weighted(5, 4, 1, 0)}
		if q.Pct(20) {
			r.Props = &E{K: "map", Ops: []string{"w"}, A: []*E{value("w", "int")}}
			if r.Props.A[0].K == "prop" {
				r.Props.A[0] = lit(1)
			}
		}
		if q.Pct(35) {
			r.Var = q.fresh("x")
			q.rels = append(q.rels, r.Var)
		}
		p.Rels = append(p.Rels, r)
		p.Nodes = append(p.Nodes, node(false))
	}
	u.Pats = []Path{p}
	mine := []string{}
	for _, n := range p.Nodes {
		if n.Var != "" {
			mine = append(mine, n.Var)
		}
	}
	if len(mine) > 0 {
		for i, n := 0, q.Weighted(4, 4, 3); i < n; i++ {
			saved := q.nodes
			q.nodes = mine
			items := q.setItems(q.Pct(80))
			q.nodes = saved
			u.On = append(u.On, Action{OnCreate: q.Bool(), Items: items})
		}
	}
	return u
}

// afterUpdate makes the RETURN clause of an updating query
func (q *QGen) afterUpdate(deleted bool) *Ret {
	if q.Pct(30) {
		return nil
	}
	if deleted {
		return &Ret{Items: []Item{{E: lit(1), Alias: "one"}}}
	}
	if q.Pct(50) {
		return &Ret{Items: q.retItems(4)}
	}
	return q.returnAll()
}
