package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	oc "github.com/cloudprivacylabs/opencypher"
)

// job is what one goroutine does: it parses a text of its own, and
// evaluates it on its own graphs, or it reads a graph that others read
// too
type job struct {
	kind   string
	text   string
	inputs []input
	// for shared graphs
	texts  []string
	shared *Real
	env    *Env
	node   int
}

// jobResult is what a job observed
type jobResult struct {
	lines []string
	fail  error
	// results from shared graphs, described once all are done
	raw []rawResult
}

type rawResult struct {
	v   oc.Value
	err error
}

func (j *job) run() (res jobResult) {
	defer func() {
		if r := recover(); r != nil {
			res.fail = failf("panic: %v\n%s", r, string(debug.Stack()))
		}
	}()
	if j.kind == "pattern" {
		part, err := oc.ParsePatternExpr(j.text)
		if err != nil {
			res.lines = append(res.lines, "error: "+err.Error())
			return
		}
		found, err := part.FindRelative(j.shared.node[j.node])
		if err != nil {
			res.lines = append(res.lines, "error: "+err.Error())
			return
		}
		ids := []string{}
		for _, n := range found {
			ids = append(ids, fmt.Sprint(n.GetID()))
		}
		sort.Strings(ids)
		res.lines = append(res.lines, strings.Join(ids, " "))
		return
	}
	if j.kind == "burst" {
		for _, text := range j.texts {
			ev, perr, fail := parse(text)
			if fail != nil {
				res.fail = fail
				return
			}
			if perr != nil {
				res.lines = append(res.lines, "error: "+perr.Error())
				continue
			}
			for i := 0; i < 2; i++ {
				gr := newReal()
				out, fail := evaluate(ev, newContext(gr, nil), gr)
				if fail != nil {
					res.fail = fail
					return
				}
				res.lines = append(res.lines, out.String())
			}
		}
		return
	}
	ev, perr, fail := parse(j.text)
	if fail != nil {
		res.fail = fail
		return
	}
	if perr != nil {
		res.lines = append(res.lines, "error: "+perr.Error())
		return
	}
	if j.kind == "shared" {
		ctx := oc.NewEvalContext(j.shared.g)
		for k, v := range j.env.Params {
			ctx.SetParameter(k, toValue(v, j.shared))
		}
		for k, v := range j.env.Vars {
			ctx.SetVar(k, toValue(v, j.shared))
		}
		for i := 0; i < 2; i++ {
			v, err := ev.Evaluate(ctx)
			res.raw = append(res.raw, rawResult{v, err})
			// the variables of a query stay in the context
			ctx = oc.NewEvalContext(j.shared.g)
			for k, v := range j.env.Params {
				ctx.SetParameter(k, toValue(v, j.shared))
			}
			for k, v := range j.env.Vars {
				ctx.SetVar(k, toValue(v, j.shared))
			}
		}
		return
	}
	for _, in := range j.inputs {
		text, _, _, fail := observe(ev, in, false, false)
		if fail != nil && fail != errDiscard {
			res.fail = fail
			return
		}
		if fail == errDiscard {
			text = "not used"
		}
		res.lines = append(res.lines, text)
	}
	return
}

// describe completes the description of a result
func (j *job) describe(res *jobResult) string {
	lines := append([]string{}, res.lines...)
	for _, r := range res.raw {
		if r.err != nil {
			lines = append(lines, "error: "+r.err.Error())
			continue
		}
		rs, isRS := r.v.Get().(oc.ResultSet)
		if !isRS {
			lines = append(lines, fmt.Sprintf("%T", r.v.Get()))
			continue
		}
		rows := []string{}
		for _, row := range rowsOf(rs, j.shared) {
			// The path held by a variable can have either orientation
			rows = append(rows, rowKey(row, colours(j.shared.abstract(), 1<<30, 1<<30)))
		}
		sort.Strings(rows)
		lines = append(lines, fmt.Sprintf("columns %q", rs.Cols))
		lines = append(lines, rows...)
	}
	return strings.Join(lines, "\n")
}

func init() {
	register(&Prop{
		ID:      "C31",
		Rule:    "2 to 16 goroutines started together under the race detector, each parsing a text of its own (reading queries, updating queries, expressions with all functions, texts with syntax errors, patterns; some of them the same text) and evaluating it in contexts of its own on its own graphs, or only reading a graph that other goroutines read; or bursts of short queries of one form; every outcome (rows, columns, error, graph afterwards) is compared to that of the same work done alone afterwards; non-trivial: each evaluation that ran while others did",
		Workers: 4,
		Race:    true,
		Run: func(t *T) error {
			n := 2 + t.N(7)
			if t.Pct(10) {
				n = 16
			}
			jobs := []*job{}
			if t.Pct(45) {
				return runBurst(t, n)
			}
			// often all use the same function
			focus := -1
			if t.Pct(35) {
				focus = t.N(10)
			}
			var shared *Real
			var sharedGraph *MGraph
			for tries := 0; len(jobs) < n && tries < 40; tries++ {
				if len(jobs) > 0 && t.Pct(25) {
					// the same work
					c := *pickFrom(t.Src, jobs)
					jobs = append(jobs, &c)
					continue
				}
				o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 60}
				g := genGraph(t.Src, o)
				kind := pick(t.Src, "read", "update", "expr", "expr", "broken", "shared", "shared", "pattern")
				if focus >= 0 && t.Pct(60) {
					kind = "expr"
				}
				if kind == "shared" || kind == "pattern" {
					if shared == nil {
						sharedGraph = g
						shared = build(g, BuildOpts{})
						shared.scan()
					}
					g = sharedGraph
				}
				q := newQGen(t.Src, g)
				q.gen.pWrong = 5
				q.gen.errs = t.Pct(20)
				j := &job{kind: kind}
				var query *Query
				switch kind {
				case "read", "shared":
					query = q.readQuery()
				case "update":
					query = q.updateQuery()
				case "broken":
					query = q.anyQuery()
					j.text, _ = corrupt(t.Src, query.marked())
					if costly(j.text) {
						continue
					}
					jobs = append(jobs, j)
					continue
				case "pattern":
					if len(shared.node) == 0 {
						continue
					}
					ids := sharedGraph.nodeIDs()
					j.shared, j.node = shared, pickFrom(t.Src, ids)
					j.text = pick(t.Src, "(this)-[]->(target)", "(this)<-[:T]-(target)", "(this)-[*1..2]-(target)", "(this)-[]->()<-[]-(target:A)", "(target)-[:T|U]->(this)", "(this {k: 1})-[]-(target)", "(this)-[")
					jobs = append(jobs, j)
					continue
				case "expr":
					q.gen = newGen(t.Src, "arith", "cmp", "bool", "list", "str", "null", "func", "case", "temporal")
					q.gen.noProps = true
					q.gen.pWrong = 5
					ret := &Ret{}
					for i, n := 0, 1+t.N(3); i < n; i++ {
						ret.Items = append(ret.Items, Item{E: q.gen.expr(pick(t.Src, "int", "str", "bool", "list", "float", "map"), 2+t.N(2))})
					}
					extra := t.Weighted(2, 1, 1)
					if focus >= 0 {
						extra = 1 + t.N(3)
					}
					for i := 0; i < extra; i++ {
						// the same functions with other arguments
						k := focus
						if k < 0 {
							k = t.N(10)
						}
						ret.Items = append(ret.Items, Item{E: builtinCall(t.Src, k)})
					}
					query = one(Single{Ret: ret})
				}
				if !query.stable() {
					continue
				}
				j.text = query.text()
				if kind == "shared" {
					j.shared, j.env = shared, withGraph(q.bindEnv(), g)
					x, want := predict(query, g, j.env, nil)
					if want.tooLarge(query) || x.huge || want.st == unspec {
						continue
					}
					jobs = append(jobs, j)
					continue
				}
				for i := 0; i < 3; i++ {
					gi := g
					if i > 0 {
						gi = mutate(t.Src, g)
					}
					in := input{gi, withGraph(q.bindEnv(), gi), buildOpts(t.Src, gi)}
					x, want := predict(query, in.g, in.env, nil)
					if want.tooLarge(query) || x.huge || (want.st != ok && x.Dirty) || want.st == unspec {
						continue
					}
					odd := false
					for _, p := range want.Parts {
						for _, r := range p.Full {
							for _, v := range r {
								odd = odd || oddIdentity(v)
							}
						}
					}
					if odd {
						continue
					}
					j.inputs = append(j.inputs, in)
				}
				jobs = append(jobs, j)
			}
			if len(jobs) < 2 {
				return errDiscard
			}
			for i, j := range jobs {
				t.Logf("%d: %s: %q", i, j.kind, j.text)
			}
			before := ""
			if shared != nil {
				before = snapshot(shared)
			}
			results := make([]jobResult, len(jobs))
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range jobs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					results[i] = jobs[i].run()
				}(i)
			}
			close(start)
			wg.Wait()
			for i, j := range jobs {
				if results[i].fail != nil {
					return failf("goroutine %d, %q: %v", i, j.text, results[i].fail)
				}
				alone := j.run()
				if alone.fail != nil {
					return failf("%q, run alone: %v", j.text, alone.fail)
				}
				got, want := j.describe(&results[i]), j.describe(&alone)
				if got != want {
					return failf("%q gives, run concurrently,\n%s\nand alone\n%s", j.text, got, want)
				}
				t.Logf("%d: %s", i, clip(got, 200))
				t.Eval(true, len(jobs), i, j.text, got)
			}
			if shared != nil {
				if after := snapshot(shared); after != before {
					return failf("the graph that is only read changes to\n%s", after)
				}
			}
			return nil
		},
	})
}

// builtinCall makes a call of one of the built-in functions
func builtinCall(s *Src, kind int) *E {
	switch kind {
	case 0:
		return fn("range", lit(s.N(4)), lit(s.Range(0, 30)), lit(s.Range(1, 5)))
	case 1:
		return fn("range", lit(s.Range(5, 30)), lit(s.N(9)), lit(-s.Range(1, 5)))
	case 2:
		return fn("substring", lit("abcdefghij"), lit(s.N(5)), lit(s.N(6)))
	case 3:
		return fn("split", lit(pick(s, "a,b,c", "d;e,f", "g")), lit(pick(s, ",", ";")))
	case 4:
		return fn("left", lit("abcdefghij"), lit(s.N(11)))
	case 5:
		return fn("right", lit("abcdefghij"), lit(s.N(11)))
	case 6:
		return fn("date", lit(pick(s, "2020-02-03", "1999-12-31", "2024-2-29", "2020-05", "2021-11", "202103", "2021", "1987")))
	case 7:
		return fn("toFloat", lit(pick(s, "1.5", "2e3", "-7")))
	case 8:
		return fn(pick(s, "trim", "ltrim", "rtrim"), lit(pick(s, " a ", "  b", "c  d ")))
	}
	return fn(pick(s, "toInteger", "toIntegerOrNull"), lit(pick(s, "15", "-3", "700")))
}

// runBurst has several goroutines parse and evaluate short queries of the
// same form
func runBurst(t *T, n int) error {
	form := t.N(20)
	jobs := []*job{}
	for i := 0; i < n; i++ {
		j := &job{kind: "burst"}
		for k := 0; k < 2; k++ {
			j.texts = append(j.texts, burstText(t.Src, form))
		}
		jobs = append(jobs, j)
		t.Logf("%d: %q", i, j.texts)
	}
	results := make([]jobResult, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			results[i] = jobs[i].run()
		}(i)
	}
	close(start)
	wg.Wait()
	for i, j := range jobs {
		if results[i].fail != nil {
			return failf("goroutine %d, %q: %v", i, j.texts, results[i].fail)
		}
		alone := j.run()
		if alone.fail != nil {
			return failf("%q, run alone: %v", j.texts, alone.fail)
		}
		got, want := j.describe(&results[i]), j.describe(&alone)
		if got != want {
			return failf("%q gives, run concurrently,\n%s\nand alone\n%s", j.texts, got, want)
		}
		t.Eval(true, n, i, j.texts, got)
	}
	return nil
}

func burstText(s *Src, form int) string {
	if form < 10 {
		return "RETURN " + plain(builtinCall(s, form).text(0))
	}
	num := func() string { return pick(s, "1", "2.5", "-7", "0", "100", "0x1F", "1e3") }
	str := func() string { return pick(s, "'a'", "\"b\"", "'ab\\n'", "''", "'it\\'s'") }
	switch form {
	case 10:
		return "RETURN " + num() + pick(s, " + ", " - ", " * ", " ^ ") + num()
	case 11:
		return "RETURN " + num() + pick(s, " < ", " = ", " >= ", " <> ") + num() + pick(s, "", " AND true", " OR false", " XOR true")
	case 12:
		return "RETURN " + str() + pick(s, " STARTS WITH ", " CONTAINS ", " + ", " = ", " ENDS WITH ") + str()
	case 13:
		return "RETURN [" + num() + "," + num() + "," + str() + "][" + pick(s, "0", "1", "-1", "0..2", "1..") + "]"
	case 14:
		return "RETURN " + num() + " IN [" + num() + "," + num() + "], {a: " + str() + ", b: " + num() + "}"
	case 15:
		return "RETURN CASE " + num() + " WHEN " + num() + " THEN " + str() + " WHEN 1 THEN null ELSE " + num() + " END"
	case 16:
		return "CREATE (n:" + pick(s, "A", "B", "A:B") + " {k: " + num() + ", s: " + str() + "}) RETURN n.k AS k, n.s"
	case 17:
		return "CREATE (n:A {k: " + num() + "})-[r:" + pick(s, "R", "S") + " {w: " + str() + "}]->(m) SET n:C, m.k = " + num() + " RETURN n.k, m.k, r.w ORDER BY n.k LIMIT 5"
	case 18:
		return "MERGE (n:" + pick(s, "A", "B") + " {k: " + num() + "}) ON CREATE SET n.s = " + str() + " RETURN n.s AS s UNION RETURN " + str() + " AS s"
	}
	return "RETURN date('2020-0" + pick(s, "1", "5") + "-1" + pick(s, "0", "7") + "') " + pick(s, "<", "=", ">") + " date({year: 20" + pick(s, "20", "19") + "}) AS " + pick(s, "a", "`b c`", "`ab`")
}
