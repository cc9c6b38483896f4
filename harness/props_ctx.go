package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// readQuery makes a query without updating clauses
func (q *QGen) readQuery() *Query {
	var reads []Match
	switch q.Weighted(5, 4, 2, 1) {
	case 0:
		reads = q.simpleReads()
	case 1:
		q.pReuse = 35
		reads = q.reads(1+q.N(2), 2, 2, 40)
	case 2:
		p := q.pathPat(1)
		q.rangeAt(&p, 0)
		reads = []Match{{Pats: []Path{p}}}
	}
	if len(reads) > 0 && q.Pct(35) {
		m := &reads[len(reads)-1]
		if m.Where == nil {
			m.Where = q.condition(1 + q.N(3))
		}
	}
	ret := &Ret{Items: q.retItems(4)}
	if q.Pct(30) {
		ret = q.returnAll()
	}
	ret.Distinct = q.Pct(15)
	if q.Pct(25) && !ret.Star {
		q.orderBy(ret)
	}
	if q.Pct(20) {
		q.window(ret, 8)
	}
	return one(Single{Reads: reads, Ret: ret})
}

// updateQuery makes a query with updating clauses
func (q *QGen) updateQuery() *Query {
	s := Single{}
	if q.Pct(75) {
		s.Reads = q.updateReads()
		if len(q.nodes) == 0 {
			s.Reads = nil
		}
	}
	deleted := false
	for i, n := 0, 1+q.Weighted(6, 3, 1); i < n && !deleted; i++ {
		k := q.Weighted(4, 3, 3, 1, 2)
		if len(q.nodes) == 0 {
			k = k % 2
		} else if len(s.Reads) == 0 && i == 0 && k > 1 {
			k = 0
		}
		switch k {
		case 0:
			s.Updates = append(s.Updates, q.createClause(q.Weighted(9, 1)*10))
		case 1:
			var bound []string
			if q.Pct(70) {
				bound = append([]string{}, q.nodes...)
			}
			s.Updates = append(s.Updates, q.mergeClause(bound))
		case 2:
			s.Updates = append(s.Updates, q.setClause())
		case 3:
			s.Updates = append(s.Updates, q.removeClause())
		case 4:
			if i > 0 {
				// Nothing that this query has created
				continue
			}
			s.Updates = append(s.Updates, q.deleteClause(50))
			deleted = true
		}
	}
	s.Ret = q.afterUpdate(deleted)
	return one(s)
}

// snapshot describes everything in a graph
func snapshot(r *Real) string {
	return strings.Join(r.abstract().show(), "\n")
}

// spareIntact tells if nothing was written after the end of the stored
// lists
func (r *Real) spareIntact() bool {
	fine := true
	check := func(_ string, v interface{}) bool {
		fine = fine && spareIntact(v)
		return fine
	}
	for it := r.g.GetNodes(); it.Next(); {
		it.Node().ForEachProperty(check)
	}
	for it := r.g.GetEdges(); it.Next(); {
		it.Edge().ForEachProperty(check)
	}
	return fine
}

// paramTexts describes the values of the parameters
func paramTexts(values map[string]interface{}, gr *Real) string {
	parts := []string{}
	for _, k := range sortedKeys(values) {
		parts = append(parts, k+"="+fmt.Sprintf("%T ", values[k])+show(fromNative(values[k], gr)))
	}
	return strings.Join(parts, " ")
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "random reading queries (MATCH, OPTIONAL MATCH, variable length, WHERE, ORDER BY, DISTINCT, SKIP, LIMIT, UNION, all functions and operators) with failing operands, and parameters and variables holding lists, maps, string sets, nodes and relationships, evaluated twice; and updating queries broken so that they do not parse: the graph and every parameter value must be as before; non-trivial: rows are returned, or the query fails",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 7, MaxEdges: 9, Density: 60}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			if t.Pct(15) {
				return brokenUpdate(t, q, g)
			}
			q.gen.errs = t.Pct(35)
			q.gen.pWrong = 3
			query := q.readQuery()
			// what a mistaken implementation could change
			hold := map[string]V{}
			if t.Pct(50) {
				s := &query.Parts[0]
				for i, n := 0, 1+t.N(2); i < n; i++ {
					var e *E
					switch t.N(9) {
					case 7:
						p := q.paramFor(List{1, List{2}})
						e = listOf(bin("+", p, listOf(lit(4))), bin("+", p, lit(5)), bin("+", p, p))
					case 8:
						p := bin("+", bin("+", q.paramFor(List{}), listOf(lit(1))), lit(2))
						e = bin("+", p, q.paramFor(List{List{1}}))
					case 0:
						p := q.paramFor(List{1, 2, 3})
						e = bin("+", p, listOf(lit(4)))
					case 1:
						p := q.paramFor(List{List{1}, List{}})
						e = &E{K: "slice", F: true, A: []*E{p, lit(1), nil}}
					case 2:
						e = &E{K: "setlabels", S: "$sset", Ops: []string{"X", "Y"}}
					case 3:
						e = fn("size", q.paramFor(List{"a", "b"}))
					case 4:
						e = bin("+", lit(0), bin("+", q.paramFor(List{1}), q.paramFor(List{2})))
					case 5:
						if len(q.nodes) > 0 {
							e = fn("labels", variable(pickFrom(t.Src, q.nodes)))
							e = bin("+", e, listOf(lit("X")))
						}
					case 6:
						e = &E{K: "map", Ops: []string{"a"}, A: []*E{q.paramFor(Map{"x": 1})}}
					}
					if e != nil && !s.Ret.Star {
						s.Ret.Items = append(s.Ret.Items, Item{E: e, Alias: fmt.Sprintf("h%d", i)})
					}
				}
				_ = hold
			}
			if sites := query.patternProps(); len(sites) > 0 && t.Pct(20) {
				// values of all types, nested ones included
				m := Map{}
				for i, n := 0, 1+t.N(4); i < n; i++ {
					m[pick(t.Src, "k", "s", "l", "b", "x", "y")] = pick[V](t.Src, 1, "x", nil, Map{}, Map{"k": Map{}}, List{}, List{Map{"a": 1}, List{}}, List{1, nil}, true, 1.5, Map{"k": 1, "s": nil})
				}
				for i, n := 0, 1+t.N(2); i < n; i++ {
					*pickFrom(t.Src, sites) = q.paramFor(m)
				}
			}
			text := query.text()
			if t.Pct(15) && query.Parts[0].Ret != nil && len(query.Parts[0].Ret.Order) == 0 {
				text = text + " UNION ALL " + text
			}
			ev, err := mustParse(t, text)
			if err != nil {
				return err
			}
			for i := 0; i < 6; i++ {
				gi := g
				if i > 0 {
					gi = mutate(t.Src, g)
				}
				env := withGraph(q.bindEnv(), gi)
				_, want := predict(stripSets(query), gi, env, nil)
				if want.tooLarge(query) {
					continue
				}
				logGraph(t, "graph", gi)
				t.Logf("  with %s", showEnv(env))
				gr := build(gi, buildOpts(t.Src, gi))
				ctx := oc.NewEvalContext(gr.g)
				values := map[string]interface{}{"$sset": lpg.NewStringSet("a", "b")}
				for k, v := range env.Params {
					values[k] = native(v, gr)
				}
				for k, v := range values {
					ctx.SetParameter(k, oc.RValue{Value: v})
				}
				for k, v := range env.Vars {
					ctx.SetVar(k, toValue(v, gr))
				}
				before, params := snapshot(gr), paramTexts(values, gr)
				for j := 0; j < 2; j++ {
					out, fail := evaluate(ev, ctx, gr)
					if fail != nil {
						return fail
					}
					t.Logf("  result: %s", clip(out.String(), 400))
					if after := snapshot(gr); after != before {
						return failf("the query changes the graph to\n%s", after)
					}
					if after := paramTexts(values, gr); after != params {
						return failf("the query changes the parameters from %s to %s", params, after)
					}
					for _, k := range sortedKeys(values) {
						if !spareIntact(values[k]) {
							return failf("the query writes after the end of the list of the caller in the parameter %s", k)
						}
					}
					if !gr.spareIntact() {
						return failf("the query writes after the end of a list stored in the graph")
					}
					t.Eval(out.Err != nil || len(out.Rows) > 0, text, graphKey(gi, env), j)
					// another evaluation starts from other variables
					ctx = oc.NewEvalContext(gr.g)
					for k, v := range values {
						ctx.SetParameter(k, oc.RValue{Value: v})
					}
					for k, v := range env.Vars {
						ctx.SetVar(k, toValue(v, gr))
					}
				}
			}
			return nil
		},
	})
}

// stripSets replaces what the reference interpreter does not know
func stripSets(q *Query) *Query {
	c := *q
	c.Parts = append([]Single{}, q.Parts...)
	for i := range c.Parts {
		if c.Parts[i].Ret == nil {
			continue
		}
		r := *c.Parts[i].Ret
		r.Items = append([]Item{}, r.Items...)
		for j := range r.Items {
			if r.Items[j].E.K == "setlabels" {
				r.Items[j].E = lit(1)
			}
		}
		c.Parts[i].Ret = &r
	}
	return &c
}

// brokenUpdate checks that an updating query that is rejected changes
// nothing
func brokenUpdate(t *T, q *QGen, g *MGraph) error {
	query := q.updateQuery()
	words := strings.Fields(query.text())
	switch t.N(3) {
	case 0:
		at := t.N(len(words) + 1)
		bad := pick(t.Src, ")", "]", "RETURN", "MATCH", "'", ",", "==", "}", "|", "WHERE")
		words = append(words[:at:at], append([]string{bad}, words[at:]...)...)
	case 1:
		at := t.N(len(words))
		words = append(words[:at:at], words[at+1:]...)
	case 2:
		words = append(words, pick(t.Src, "RETURN", "SET", "CREATE", "(", "UNION", "MATCH (", "99999999999999999999"))
	}
	text := strings.Join(words, " ")
	t.Logf("query: %s", text)
	env := withGraph(q.bindEnv(), g)
	gr := build(g, BuildOpts{})
	ctx := newContext(gr, env)
	before := snapshot(gr)
	_, perr, fail := parse(text)
	if fail != nil {
		return fail
	}
	if perr == nil {
		return errDiscard
	}
	_, err := oc.ParseAndEvaluate(text, ctx)
	if err == nil {
		return failf("Parse rejects the query, ParseAndEvaluate does not")
	}
	if after := snapshot(gr); after != before {
		return failf("the rejected query changes the graph to\n%s", after)
	}
	t.Eval(true, text)
	return nil
}

// ---------------------------------------------------------------- C25

// input is what one evaluation gets
type input struct {
	g    *MGraph
	env  *Env
	opts BuildOpts
}

// observe evaluates a query and describes the outcome in full
func observe(ev oc.Evaluatable, in input, constant, windowed bool) (string, Outcome, *Real, error) {
	gr := build(in.g, in.opts)
	ctx := oc.NewEvalContext(gr.g)
	wrap := func(v V) oc.Value {
		x := toValue(v, gr)
		if rv, isR := x.(oc.RValue); isR && constant {
			rv.Const = true
			return rv
		}
		return x
	}
	params := map[string]interface{}{}
	for k, v := range in.env.Params {
		p := wrap(v)
		ctx.SetParameter(k, p)
		params[k] = p.Get()
	}
	for k, v := range in.env.Vars {
		ctx.SetVar(k, wrap(v))
	}
	given := paramTexts(params, gr)
	out, fail := evaluate(ev, ctx, gr)
	if fail != nil {
		return "", out, gr, fail
	}
	if now := paramTexts(params, gr); now != given {
		return "", out, gr, failf("the evaluation changes the parameters from %s to %s", given, now)
	}
	after := gr.abstract()
	c := colours(after, in.g.nextNode, in.g.nextEdge)
	lines := []string{}
	if out.Err != nil {
		lines = append(lines, "error")
	}
	lines = append(lines, fmt.Sprintf("columns %q", out.RS.Cols))
	rows := []string{}
	for _, r := range out.Rows {
		if windowed {
			// which of the rows depends on the order of the matches
			rows = append(rows, "row")
			continue
		}
		rows = append(rows, rowKey(r, c))
	}
	sort.Strings(rows)
	lines = append(lines, rows...)
	elems := []string{}
	for _, id := range after.nodeIDs() {
		elems = append(elems, "n"+c.node[id])
	}
	for _, id := range after.edgeIDs() {
		elems = append(elems, "e"+c.edge[id])
	}
	sort.Strings(elems)
	lines = append(lines, elems...)
	return strings.Join(lines, "\n"), out, gr, nil
}

// spoil changes a result, as a caller may do
func spoil(out Outcome) {
	for i, r := range out.RS.Rows {
		for k, v := range r {
			switch x := v.Get().(type) {
			case []oc.Value:
				for j := range x {
					x[j] = oc.RValue{Value: "spoiled"}
				}
			case map[string]oc.Value:
				for k := range x {
					x[k] = oc.RValue{Value: "spoiled"}
				}
			}
			r[k] = oc.RValue{Value: "spoiled"}
		}
		r["spoiled"] = oc.RValue{}
		if i%2 == 0 {
			out.RS.Rows[i] = nil
		}
	}
	for i := range out.RS.Cols {
		out.RS.Cols[i] = "spoiled"
	}
}

// nullCase is a CASE expression with a condition on a value that can be
// null
func (q *QGen) nullCase(v *E) *E {
	var cond *E
	switch q.N(6) {
	case 0, 1:
		cond = unary("isnull", v)
	case 2, 3:
		cond = unary("notnull", v)
	case 4:
		cond = cmp("=", v, q.paramOf("int"))
	case 5:
		cond = &E{K: "in", A: []*E{v, listOf(lit(1), lit("x"), q.paramOf("int"))}}
	}
	if q.Bool() {
		return E{K: "case", A: []*E{cond, lit("then"), lit("else")}, G: true}.caseParts()
	}
	return listOf(cond, E{K: "case", A: []*E{cond, v}}.caseParts())
}

// stable tells if the rows of a query do not depend on the order in which
// matches are found
func (q *Query) stable() bool {
	for _, p := range q.Parts {
		if len(p.Reads) > 0 && p.Ret != nil && (p.Ret.Skip != nil || p.Ret.Limit != nil) {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "one parsed query (reading or updating, with functions of constant and varying arguments, lists, maps) evaluated on 8 inputs, each a graph with parameters and variables of other values and types, among them inputs that fail and an input repeated, with results and values changed by the caller in between; each outcome compared to that of a freshly parsed copy on an identical graph; non-trivial: the outcome differs from that of the previous input",
		Run: func(t *T) error {
			o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 60}
			g := genGraph(t.Src, o)
			q := newQGen(t.Src, g)
			q.gen.pWrong = 5
			q.gen.errs = t.Pct(20)
			var query *Query
			mode := t.Weighted(4, 4, 3)
			switch mode {
			case 0:
				query = q.readQuery()
			case 1:
				query = q.updateQuery()
			case 2:
				// expressions only
				q.gen = newGen(t.Src, "arith", "cmp", "bool", "list", "str", "null", "func", "case", "temporal")
				q.gen.noProps = true
				q.gen.pWrong = 5
				ret := &Ret{}
				for i, n := 0, 1+t.N(3); i < n; i++ {
					e := q.gen.expr(pick(t.Src, "int", "str", "bool", "list", "float", "map"), 1+t.N(3))
					if t.Pct(40) {
						// a list or map of constants keeps its value
						e = pick(t.Src, listOf(e), &E{K: "map", Ops: []string{"a"}, A: []*E{e}}, fn("size", listOf(e, e)), listOf(listOf(e)))
					}
					ret.Items = append(ret.Items, Item{E: e})
				}
				if t.Pct(40) {
					// one operation on varying operands
					p, p2 := q.paramOf("bool"), q.paramOf("bool")
					n, n2 := q.paramOf("int"), q.paramOf("int")
					ret.Items = append(ret.Items, Item{E: listOf(pick(t.Src, unary("not", p), &E{K: pick(t.Src, "and", "or", "xor"), A: []*E{p, p2}},
						unary("neg", n), bin(pick(t.Src, "+", "-", "*", "/", "%", "^"), n, n2), cmp(pick(t.Src, "=", "<"), n, n2), &E{K: "isnull", A: []*E{n}},
						E{K: "case", A: []*E{p, n, n2}, G: true}.caseParts(), q.nullCase(q.paramOf("int")), &E{K: "in", A: []*E{n, listOf(n2)}}, &E{K: "index", A: []*E{listOf(lit(1), n), lit(1)}}))})
				}
				if t.Bool() {
					// functions of constants
					ret.Items = append(ret.Items, Item{E: fn("size", fn("split", q.gen.expr("str", 1), lit(",")))},
						Item{E: fn("range", lit(1), lit(4))})
				}
				if t.Pct(40) {
					// lists and maps made by each evaluation
					a, b := q.paramFor(t.Range(0, 3)), q.paramOf("int")
					for i, n := 0, 1+t.N(3); i < n; i++ {
						ret.Items = append(ret.Items, Item{E: pick(t.Src,
							fn("range", a, lit(t.Range(3, 8))),
							fn("range", lit(9), a, lit(-t.Range(1, 3))), fn("range", lit(0), E{K: "case", A: []*E{cmp("<", b, lit(20)), b, lit(4)}, G: true}.caseParts()),
							fn("split", q.paramOf("str"), lit("a")), listOf(a, b), bin("+", listOf(a), b),
							&E{K: "map", Ops: []string{"a", "b"}, A: []*E{a, b}},
							&E{K: "slice", F: true, A: []*E{listOf(b, a, b, a), a, lit(4)}},
						)})
					}
				}
				query = one(Single{Ret: ret})
			}
			if r := query.Parts[0].Ret; mode != 2 && r != nil && !r.Star && t.Pct(30) {
				// conditions whose value varies from row to row
				for i, n := 0, 1+t.N(2); i < n; i++ {
					if leaf := q.propLeaf(pick(t.Src, "int", "str", "bool", "float")); leaf != nil {
						r.Items = append(r.Items, Item{E: q.nullCase(leaf)})
					}
				}
			}
			if r := query.Parts[0].Ret; r != nil && t.Pct(20) {
				// SKIP and LIMIT that vary
				r.Skip, r.Limit = nil, nil
				if t.Pct(40) {
					r.Skip = parens(bin("%", q.paramOf("count"), lit(3)))
				}
				if r.Skip == nil || t.Bool() {
					r.Limit = q.paramOf("count")
				}
			}
			text := query.text()
			windowed := !query.stable()
			ev, err := mustParse(t, text)
			if err != nil {
				return err
			}
			inputs := []input{}
			// results that the caller keeps
			type keptResult struct {
				out  Outcome
				gr   *Real
				text string
			}
			kept := []keptResult{}
			last := ""
			for i := 0; i < 8; i++ {
				var in input
				switch {
				case len(inputs) > 0 && t.Pct(25):
					in = pickFrom(t.Src, inputs)
				default:
					gi := g
					if i > 0 {
						gi = mutate(t.Src, g)
					}
					in = input{gi, withGraph(q.bindEnv(), gi), buildOpts(t.Src, gi)}
					if t.Pct(10) && len(in.env.Params) > 0 {
						// an unknown parameter
						ps := cloneMap(in.env.Params)
						delete(ps, pickFrom(t.Src, sortedKeys(ps)))
						in.env.Params = ps
					}
				}
				x, want := predict(query, in.g, in.env, nil)
				if want.tooLarge(query) || x.huge {
					continue
				}
				if windowed && want.st != ok {
					continue
				}
				if query.updates() && want.st != ok {
					// what is done before an error, or is not specified,
					// can depend on the order of the rows
					if want.st == unspec || x.Dirty {
						continue
					}
				}
				if want.st == ok {
					for _, p := range want.Parts {
						for _, r := range p.Full {
							for _, v := range r {
								if oddIdentity(v) && query.Parts[0].Ret.Distinct {
									return errDiscard
								}
							}
						}
					}
				}
				inputs = append(inputs, in)
				logGraph(t, fmt.Sprintf("graph %d", i), in.g)
				t.Logf("  with %s", showEnv(in.env))
				constant := t.Bool()
				got, out, gr, fail := observe(ev, in, constant, windowed)
				if fail != nil {
					return fail
				}
				if out.Err == nil && t.Bool() {
					kept = append(kept, keptResult{out, gr, showRows(out.Rows)})
				}
				spoils := t.Bool()
				if spoils && len(kept) > 0 && kept[len(kept)-1].gr == gr {
					kept = kept[:len(kept)-1]
				}
				t.Logf("  result: %s", clip(out.String(), 300))
				if i < 7 && t.Pct(65) {
					// only to have an effect on those that follow
					last = got
					if spoils {
						spoil(out)
					}
					continue
				}
				fresh, perr, fail := parse(text)
				if fail != nil || perr != nil {
					return failf("the query is rejected the second time: %v %v", perr, fail)
				}
				wantText, _, _, fail := observe(fresh, in, constant, windowed)
				if fail != nil {
					return fail
				}
				if got != wantText {
					return failf("the outcome is\n%s\nbut that of a fresh copy is\n%s", got, wantText)
				}
				t.Eval(got != last, text, i, got)
				last = got
				if spoils {
					spoil(out)
				}
			}
			for _, k := range kept {
				if now := showRows(rowsOf(k.out.RS, k.gr)); now != k.text {
					return failf("a result that was\n%s\nis after other evaluations\n%s", k.text, now)
				}
			}
			return nil
		},
	})
}
