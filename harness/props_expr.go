package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
)

var parsed = map[string]oc.Evaluatable{}

// cached parses a query once in the process
func cached(q string) (oc.Evaluatable, error) {
	if ev, ok := parsed[q]; ok {
		return ev, nil
	}
	ev, perr, fail := parse(q)
	if fail != nil {
		return nil, fail
	}
	if perr != nil {
		return nil, failf("%s does not parse: %v", q, perr)
	}
	if len(parsed) > 5000 {
		parsed = map[string]oc.Evaluatable{}
	}
	parsed[q] = ev
	return ev, nil
}

func interesting(e *E, r R) bool {
	if r.st == bad {
		return true
	}
	return r.st == ok && e.size() >= 3
}

// checkExpr parses RETURN e once, and evaluates it for several
// environments
func checkExpr(t *T, g *Gen, e *E, nEnv int) error {
	if e.K != "list" && e.K != "map" && t.Pct(12) {
		// Lists and maps keep the values of constants
		switch t.N(3) {
		case 0:
			e = listOf(e)
		case 1:
			e = &E{K: "map", Ops: []string{"a"}, A: []*E{e}}
		case 2:
			e = listOf(lit(1), e)
		}
	}
	q := anyText(t.Src, kw("RETURN")+mSP+e.text(0))
	t.Logf("query: %s", q)
	ev, perr, fail := parse(q)
	if fail != nil {
		return fail
	}
	if perr != nil {
		return failf("the query is rejected: %v", perr)
	}
	if len(g.params)+len(g.vars)+len(g.props) == 0 {
		nEnv = 2
	}
	for i := 0; i < nEnv; i++ {
		env := g.bindEnv()
		if err := evalExpr(t, ev, q, e, env); err != nil {
			return err
		}
	}
	return nil
}

func evalExpr(t *T, ev oc.Evaluatable, q string, e *E, env *Env) error {
	want := e.eval(env)
	gr := build(env.G, BuildOpts{})
	out, fail := evaluate(ev, newContext(gr, env), gr)
	if fail != nil {
		return fail
	}
	se := showEnv(env)
	if env.G != nil && len(env.G.Nodes) > 0 {
		se += " " + strings.Join(env.G.show(), "; ")
	}
	t.Logf("  with %s: %s (expected %s)", se, out, showR(want))
	t.Eval(want.st != unspec && interesting(e, want), q, se)
	return checkSingle(out, want, "1")
}

func showR(r R) string {
	switch r.st {
	case bad:
		return "an error"
	case unspec:
		return "anything"
	}
	return show(r.v)
}

// checkCached evaluates RETURN e, whose leaves are parameters
func checkCached(t *T, e *E, env *Env) error {
	q := plain(kw("RETURN") + mSP + e.text(0))
	ev, err := cached(q)
	if err != nil {
		return err
	}
	t.Logf("query: %s", q)
	return evalExpr(t, ev, q, e, env)
}

func paramEnv(kv ...interface{}) *Env {
	env := &Env{Params: map[string]V{}, Vars: map[string]V{}, G: newMGraph()}
	for i := 0; i < len(kv); i += 2 {
		env.Params["$"+kv[i].(string)] = kv[i+1]
	}
	return env
}

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "arithmetic expression trees of depth up to 5 over literals, parameters, variables and properties, each evaluated with several values of its leaves; non-trivial: at least one operator, and the reference interpreter specifies a value or an error",
		Run: func(t *T) error {
			if t.Pct(50) {
				// one or two operators on parameters, many values
				ops := []string{"+", "-", "*", "/", "%", "^"}
				a, b, c := param("a"), param("b"), param("c")
				var e *E
				switch t.N(5) {
				case 0:
					e = bin(pickFrom(t.Src, ops), a, b)
				case 1:
					e = bin(pickFrom(t.Src, ops), bin(pickFrom(t.Src, ops), a, b), c)
				case 2:
					e = bin(pickFrom(t.Src, ops), a, bin(pickFrom(t.Src, ops), b, c))
				case 3:
					e = unary("neg", bin(pickFrom(t.Src, ops), a, b))
				case 4:
					e = bin(pickFrom(t.Src, ops), unary(pick(t.Src, "neg", "pos"), a), unary(pick(t.Src, "neg", "pos"), b))
				}
				g := newGen(t.Src)
				g.big = true
				for i := 0; i < 12; i++ {
					if err := checkCached(t, e, paramEnv("a", g.envValue("num"), "b", g.envValue("num"), "c", g.envValue("num"))); err != nil {
						return err
					}
				}
				return nil
			}
			g := newGen(t.Src, "arith")
			g.big = true
			g.errs = t.Pct(20)
			if t.Bool() {
				g.pNull, g.pWrong = 2, 1
			}
			return checkExpr(t, g, g.expr(pick(t.Src, "int", "num", "float", "num"), t.Range(1, 5)), 8)
		},
		Regress: regress(
			reg{"2 ^ 3 ^ 2", 64.0}, reg{"-2 ^ 2", 4.0}, reg{"2 - 3 - 4", -5}, reg{"2 - 3 + 4", 3}, reg{"1 - 2 * 3", -5},
			reg{"7 / 2", 3}, reg{"-7 / 2", -3}, reg{"-7 % 3", -1}, reg{"7.0 / 2", 3.5}, reg{"1 / 0", errExpected}, reg{"1 % 0", errExpected},
			reg{"1.0 / 0", errExpected}, reg{"null + 1", nil}, reg{"1 * null", nil}, reg{"null ^ 2", nil}, reg{"'a' - 1", errExpected},
			reg{"true + 1", errExpected}, reg{"1 / 0 * 2", errExpected}, reg{"2 * 3 ^ 2", 18.0}, reg{"(1 + 2) * 3", 9}, reg{"10 - 4 - 3 + 2", 5},
			reg{"24 / 4 / 3", 2}, reg{"24 / (4 / 2)", 12}, reg{"1 + 2.5", 3.5}, reg{"5 % 3 * 2", 4}, reg{"- - 3", 3}, reg{"-(3 + 4)", -7},
			reg{"9223372036854775807 + 1", math.MinInt64}, reg{"-'a'", errExpected}, reg{"2 + '3'", errExpected},
		),
	})
	register(&Prop{
		ID:   "C06",
		Rule: "every comparison operator and chain on pairs and triples of values of one type (equal, adjacent, special) and of different types; non-trivial: the reference order specifies the result",
		Run:  runC06,
		Regress: regress(
			reg{"1 < 2 < 3", true}, reg{"1 < 3 < 2", false}, reg{"3 > 2 >= 2", true}, reg{"2 >= 2", true}, reg{"1 = 1.0", true}, reg{"'a' < 'b'", true},
			reg{"null = null", nil}, reg{"1 = 'a'", errExpected}, reg{"true > false", true}, reg{"1 <> null", nil}, reg{"1 < 2 = true", errExpected},
			reg{"'abc' < 'abd'", true}, reg{"'Z' < 'a'", true}, reg{"1 <= 0", false}, reg{"-1 < 1", true}, reg{"1 > 2 > 'a'", false},
		),
	})
	register(&Prop{
		ID:   "C07",
		Rule: "expressions of AND, OR, XOR, NOT over up to 5 operands, evaluated for all assignments of true, false and null to up to 4 of them, and for operands that are not boolean or fail; non-trivial: at least one operator and a specified result",
		Run:  runC07,
		Regress: regress(
			reg{"true XOR null", nil}, reg{"false AND null", false}, reg{"null AND false", false}, reg{"null OR true", true}, reg{"true AND null", nil},
			reg{"NOT null", nil}, reg{"NOT NOT true", true}, reg{"true OR true AND false", true}, reg{"true XOR true OR true", true}, reg{"NOT false AND false", false},
			reg{"1 AND true", errExpected}, reg{"false AND 1", false}, reg{"NOT 1", errExpected}, reg{"true XOR true XOR true", true}, reg{"false OR null OR false", nil},
			reg{"true OR false XOR true", true}, reg{"true AND true XOR true", false},
		),
	})
	register(&Prop{
		ID:   "C08",
		Rule: "list and string operators on random lists, strings, indexes and bounds (in and out of range), nulls and wrong types, also nested in larger expressions; non-trivial: at least one operator and a specified result",
		Run:  runC08,
		Regress: regress(
			reg{"[1,2,3][0]", 1}, reg{"[1,2,3][-1]", 3}, reg{"[1,2,3][3]", nil}, reg{"[1,2,3][-4]", nil}, reg{"[1,2,3][1..2]", List{2}}, reg{"[1,2,3][..2]", List{1, 2}},
			reg{"[1,2,3][1..]", List{2, 3}}, reg{"[1,2,3][0..3]", List{1, 2, 3}}, reg{"[1,2,3][0..10]", List{1, 2, 3}}, reg{"[1,2] + [3]", List{1, 2, 3}}, reg{"[] + []", List{}},
			reg{"2 IN [1,2]", true}, reg{"3 IN [1,2]", false}, reg{"3 IN [1,null]", nil}, reg{"1 IN [1,null]", true}, reg{"null IN [1]", nil}, reg{"null IN []", false},
			reg{"'abc' STARTS WITH 'ab'", true}, reg{"'abc' ENDS WITH 'bc'", true}, reg{"'abc' CONTAINS 'd'", false}, reg{"null STARTS WITH 'a'", nil}, reg{"1 STARTS WITH 'a'", errExpected},
			reg{"null IS NULL", true}, reg{"1 IS NOT NULL", true}, reg{"'a' + 'b' + 'c'", "abc"}, reg{"[1,2,3][null]", nil}, reg{"[1,2]['a']", errExpected}, reg{"1[0]", errExpected},
			reg{"1 IN 2", errExpected}, reg{"[[1,2],[3]][0][1]", 2}, reg{"[1,2] + 3", errExpected}, reg{"'' CONTAINS ''", true}, reg{"[1,2,3][2..1]", List{}}, reg{"[1,2,3][..]", List{1, 2, 3}},
		),
	})
	register(&Prop{
		ID:   "C09",
		Rule: "CASE expressions with and without test value, 1 to 5 alternatives, with null, equal, nested and failing parts, over several environments; non-trivial: the selected branch is specified",
		Run:  runC09,
		Regress: regress(
			reg{"CASE 1 WHEN 1 THEN 'a' WHEN 1 THEN 'b' END", "a"}, reg{"CASE 3 WHEN 1 THEN 'a' ELSE 'c' END", "c"}, reg{"CASE 3 WHEN 1 THEN 'a' END", nil},
			reg{"CASE WHEN null THEN 1 ELSE 2 END", 2}, reg{"CASE WHEN false THEN 1 WHEN true THEN 2 WHEN true THEN 3 ELSE 4 END", 2}, reg{"CASE WHEN true THEN 1 ELSE 1/0 END", 1},
			reg{"CASE WHEN false THEN 1/0 ELSE 3 END", 3}, reg{"CASE WHEN 1 THEN 1 END", errExpected}, reg{"CASE null WHEN 1 THEN 2 ELSE 3 END", 3}, reg{"CASE 1 WHEN null THEN 2 WHEN 1 THEN 4 END", 4},
			reg{"CASE 1.0 WHEN 1 THEN 'same' ELSE 'other' END", "same"},
		),
	})
	register(&Prop{
		ID:   "C10",
		Rule: "every built-in string, number and list function on random arguments (multi-byte characters, bounds around the length, numbers as text, wrong types, null, wrong number of arguments), also nested; non-trivial: the definition of the function specifies the result",
		Run:  runC10,
		Regress: regress(
			reg{"range(0,3)", List{0, 1, 2}}, reg{"range(3,0,-1)", List{3, 2, 1}}, reg{"range(0,10,3)", List{0, 3, 6, 9}}, reg{"range(0,3,0)", List{}}, reg{"range(3,0)", List{}},
			reg{"size('日本')", 2}, reg{"size([1,2,3])", 3}, reg{"size('')", 0}, reg{"left('日本語', 2)", "日本"}, reg{"right('日本語', 2)", "本語"}, reg{"substring('日本語', 1)", "本語"},
			reg{"substring('hello', 1, 3)", "ell"}, reg{"substring('hello', 3, 10)", "lo"}, reg{"split('a,b,c', ',')", List{"a", "b", "c"}}, reg{"split('', ',')", List{""}}, reg{"split('abc', '')", List{"a", "b", "c"}},
			reg{"trim('  a ')", "a"}, reg{"ltrim('  a ')", "a "}, reg{"rtrim('  a ')", "  a"}, reg{"toInteger('42')", 42}, reg{"toInteger('x')", errExpected}, reg{"toIntegerOrNull('x')", nil},
			reg{"toInteger(2.9)", 2}, reg{"toInteger(-2.9)", -2}, reg{"toInteger(true)", 1}, reg{"toFloat('1.5')", 1.5}, reg{"toFloat(2)", 2.0}, reg{"toFloat('x')", errExpected}, reg{"toFloatOrNull('x')", nil},
			reg{"toFloat(true)", errExpected}, reg{"toFloatOrNull(true)", nil}, reg{"toIntegerOrNull([1])", nil}, reg{"toInteger([1])", errExpected}, reg{"left('a')", errExpected}, reg{"left('abc', null)", nil},
			reg{"range(1)", errExpected}, reg{"range(1,'a')", errExpected}, reg{"labels(1)", errExpected}, reg{"type(1)", errExpected}, reg{"trim(1)", errExpected}, reg{"trim(null)", nil}, reg{"size(null)", nil},
			reg{"left('abc', 10)", "abc"}, reg{"right('abc', 0)", ""}, reg{"toInteger('-7')", -7}, reg{"toInteger(null)", nil}, reg{"range(9223372036854775805, 9223372036854775807)", List{math.MaxInt64 - 2, math.MaxInt64 - 1}},
		),
	})
	register(&Prop{
		ID:   "C11",
		Rule: "dates from components and text in every local time zone; arithmetic on dates, times, date-times and durations against a civil calendar computed independently; undoing additions; undefined combinations; non-trivial: the calendar specifies the result",
		Run:  runC11,
		Regress: regress(
			reg{"date('2021-02-03')", DateV{daysFromCivil(2021, 2, 3)}}, reg{"date({year: 2021, month: 12, day: 31})", DateV{daysFromCivil(2021, 12, 31)}}, reg{"date({year: 2021})", DateV{daysFromCivil(2021, 1, 1)}},
			reg{"date('2021-02')", DateV{daysFromCivil(2021, 2, 1)}}, reg{"date('2021-13-01')", errExpected}, reg{"date(null)", nil}, reg{"date('x')", errExpected}, reg{"date(1)", errExpected},
			reg{"date('2021-02-03') < date('2021-02-04')", true}, reg{"date('2021-02-03') = date({year:2021, month:2, day:3})", true}, reg{"date('2021-02-03') + 1", errExpected},
			reg{"date('2021-02-03') - date('2021-02-03')", errExpected},
		),
		Assume: []string{"local date-times that the local time zone skips are not looked at"},
	})
}

type expectError struct{}

var errExpected = expectError{}

type reg struct {
	text string
	want V
}

// regress checks fixed expressions
func regress(cases ...reg) func(t *T) error {
	return func(t *T) error {
		for _, c := range cases {
			want := val(c.want)
			if c.want == errExpected {
				want = rErr
			}
			q := "RETURN " + c.text
			t.Logf("query: %s", q)
			ev, perr, fail := parse(q)
			if fail != nil {
				return fail
			}
			if perr != nil {
				if want.st == bad {
					continue
				}
				return failf("the query is rejected: %v", perr)
			}
			for i := 0; i < 2; i++ {
				gr := newReal()
				out, fail := evaluate(ev, newContext(gr, nil), gr)
				if fail != nil {
					return fail
				}
				t.Eval(true, q)
				if err := checkSingle(out, want, "1"); err != nil {
					return failf("%s (evaluation %d): %v", q, i+1, err)
				}
			}
		}
		return nil
	}
}

// near makes a value of the same type that is equal or close to v
func (g *Gen) near(v V, t string) V {
	if v == nil || g.Pct(35) {
		return g.value(t)
	}
	if g.Pct(35) {
		return v
	}
	delta := pick(g.Src, 1, -1)
	switch x := v.(type) {
	case int:
		if t == "num" && g.Bool() {
			return float64(x) + pick(g.Src, 0, 0.5, -0.5)
		}
		return x + delta
	case float64:
		if t == "num" && g.Bool() && fits(x) {
			return int(x)
		}
		return math.Nextafter(x, math.Inf(delta))
	case string:
		switch g.N(5) {
		case 0:
			return x + "a"
		case 1:
			if len(x) > 0 {
				r := []rune(x)
				return string(r[:len(r)-1])
			}
		case 2:
			if len(x) > 0 {
				r := []rune(x)
				r[len(r)-1] += rune(delta)
				return string(r)
			}
		case 3:
			return strings.ToUpper(x)
		}
		return strings.ToLower(x)
	case bool:
		return !x
	case DateV:
		return DateV{x.Day + int64(pick(g.Src, 1, -1, 30, 365, -365))}
	case TimeV:
		n := x.Nanos + int64(pick(g.Src, 1, -1, 1000000000, -1000000000, 60000000000))
		if n >= 0 && n < dayNanos {
			return TimeV{n}
		}
	case DateTimeV:
		switch g.N(3) {
		case 0:
			return DateTimeV{x.Day + int64(delta), x.Nanos}
		case 1:
			n := x.Nanos + int64(delta)
			if n >= 0 && n < dayNanos {
				return DateTimeV{x.Day, n}
			}
		}
		return DateTimeV{x.Day + int64(delta), g.timeVal().Nanos}
	case Dur:
		d := x
		switch g.N(5) {
		case 0:
			d.Months += int64(delta)
		case 1:
			d.Days += int64(delta)
		case 2:
			d.Seconds += int64(delta)
		case 3:
			d.Nanos += int64(delta)
		case 4:
			d.Months += int64(delta)
			d.Days -= int64(delta * 5)
			d.Nanos -= int64(delta * 3)
		}
		return d
	}
	return v
}

var cmpOps = []string{"=", "<>", "<", "<=", ">", ">="}
var cmpTypes = []string{"int", "num", "float", "str", "bool", "date", "time", "dt", "dur"}

func runC06(t *T) error {
	g := newGen(t.Src)
	g.big = true
	if t.Pct(8) {
		// in larger expressions
		g = newGen(t.Src, "cmp", "arith", "temporal", "str", "null")
		e := g.expr("bool", t.Range(1, 3))
		return checkExpr(t, g, e, 8)
	}
	ty := pickFrom(t.Src, cmpTypes)
	vals := []V{g.value(ty)}
	for len(vals) < 4 {
		vals = append(vals, g.near(pickFrom(t.Src, vals), ty))
	}
	other := func(v V) V {
		switch {
		case t.Pct(3):
			return nil
		case t.Pct(3):
			return g.value(pick(t.Src, "int", "str", "bool", "float", "date", "time", "dt", "dur", "list", "map"))
		}
		return v
	}
	for i := range vals {
		vals[i] = other(vals[i])
	}
	// all operators on all pairs agree with the order
	for i, a := range vals {
		for j, b := range vals {
			if (i+j)%2 == 1 && t.Bool() {
				continue
			}
			results := map[string]R{}
			for _, op := range cmpOps {
				e := cmp(op, param("a"), param("b"))
				env := paramEnv("a", a, "b", b)
				if err := checkCached(t, e, env); err != nil {
					return err
				}
				results[op] = e.eval(env)
			}
		}
	}
	// chains
	for i := 0; i < 4; i++ {
		e := &E{K: "cmp", A: []*E{param("a"), param("b"), param("c")}, Ops: []string{pickFrom(t.Src, cmpOps), pickFrom(t.Src, cmpOps)}}
		if t.Pct(30) {
			e.A = append(e.A, param("d"))
			e.Ops = append(e.Ops, pickFrom(t.Src, cmpOps))
		}
		env := paramEnv("a", pickFrom(t.Src, vals), "b", pickFrom(t.Src, vals), "c", pickFrom(t.Src, vals), "d", pickFrom(t.Src, vals))
		if err := checkCached(t, e, env); err != nil {
			return err
		}
	}
	// the same comparison written with literals
	if t.Pct(5) && hasLiteral(vals[0]) && hasLiteral(vals[1]) {
		e := cmp(pickFrom(t.Src, cmpOps), lit(vals[0]), lit(vals[1]))
		return checkExpr(t, g, e, 2)
	}
	return nil
}

func runC07(t *T) error {
	n := t.Range(1, 4)
	names := []string{"a", "b", "c", "d"}[:n]
	mixed := t.Pct(40)
	var tree func(d int) *E
	tree = func(d int) *E {
		if d == 0 || t.Pct(15) {
			if mixed && t.Pct(12) {
				switch t.N(4) {
				case 0:
					return lit(t.Bool())
				case 1:
					return lit(nil)
				case 2:
					return lit(pick[V](t.Src, 1, "true", 0.5))
				case 3:
					return bin("/", lit(1), lit(0))
				}
			}
			return param(pickFrom(t.Src, names))
		}
		if t.Pct(25) {
			e := not(tree(d - 1))
			for n := t.Weighted(90, 3, 2, 2, 2, 1, 1); n > 0; n-- {
				e = not(e)
			}
			return e
		}
		k := pick(t.Src, "and", "or", "xor")
		e := &E{K: k}
		for i, m := 0, t.Range(2, 4); i < m; i++ {
			e.A = append(e.A, tree(d-1))
		}
		if t.Pct(8) {
			return parens(e)
		}
		return e
	}
	e := tree(t.Range(1, 3))
	q := anyText(t.Src, kw("RETURN")+mSP+e.text(0))
	t.Logf("query: %s", q)
	ev, perr, fail := parse(q)
	if fail != nil {
		return fail
	}
	if perr != nil {
		return failf("the query is rejected: %v", perr)
	}
	total := 1
	for range names {
		total *= 3
	}
	for i := 0; i < total; i++ {
		env := paramEnv()
		x := i
		for _, k := range names {
			env.Params["$"+k] = []V{true, false, nil}[x%3]
			x /= 3
		}
		if mixed && t.Pct(10) {
			env.Params["$"+pickFrom(t.Src, names)] = pick[V](t.Src, 1, "x", List{}, 0.0)
		}
		if err := evalExpr(t, ev, q, e, env); err != nil {
			return err
		}
	}
	return nil
}

func runC08(t *T) error {
	if t.Pct(35) {
		g := newGen(t.Src, "list", "str", "null", "func")
		g.pNull, g.pWrong = 5, 2
		e := g.expr(pick(t.Src, "list", "bool", "str", "list:str", "int"), t.Range(1, 4))
		return checkExpr(t, g, e, 8)
	}
	g := newGen(t.Src)
	g.pNull = 10
	g.pWrong = 5
	a, b, c := param("a"), param("b"), param("c")
	for i := 0; i < 10; i++ {
		var e *E
		var va, vb, vc V
		switch t.N(12) {
		case 0, 1:
			e = &E{K: "index", A: []*E{a, b}}
			va, vb = g.envValue("list"), g.envValue("index")
		case 2, 3:
			e = &E{K: "slice", A: []*E{a, b, c}, F: true, G: true}
			va, vb, vc = g.envValue("list"), g.envValue("count"), g.envValue("count")
			if t.Pct(10) {
				vb = pick[V](t.Src, math.MaxInt64, 1000, math.MaxInt64-1)
			}
			if t.Pct(10) {
				vc = pick[V](t.Src, math.MaxInt64, 1000, math.MaxInt64-1)
			}
		case 4:
			if t.Bool() {
				e = &E{K: "slice", A: []*E{a, b, nil}, F: true}
			} else {
				e = &E{K: "slice", A: []*E{a, nil, b}, G: true}
			}
			va, vb = g.envValue("list"), g.envValue("count")
		case 5, 6:
			e = &E{K: "in", A: []*E{a, b}}
			el := pick(t.Src, "int", "str", "num", "bool", "date", "dur", "time", "dt")
			va = g.envValue(el)
			l := List{}
			for i, n := 0, t.N(5); i < n; i++ {
				switch {
				case t.Pct(12):
					l = append(l, nil)
				case t.Pct(3):
					l = append(l, g.value(pickFrom(t.Src, allTypes)))
				default:
					l = append(l, g.near(va, el))
				}
			}
			vb = l
			if t.Pct(10) {
				vb = g.envValue("list")
			}
		case 7, 8:
			e = &E{K: pick(t.Src, "starts", "ends", "contains"), A: []*E{a, b}}
			va = g.envValue("str")
			vb = g.envValue("str")
			if s, isStr := va.(string); isStr && t.Pct(60) {
				x, y := t.N(len(s)+1), t.N(len(s)+1)
				if x > y {
					x, y = y, x
				}
				switch t.N(3) {
				case 0:
					x = 0
				case 1:
					y = len(s)
				}
				vb = strings.ToValidUTF8(s[x:y], "")
			}
		case 9:
			e = bin("+", a, b)
			ty := pick(t.Src, "str", "list")
			va, vb = g.envValue(ty), g.envValue(ty)
		case 10:
			e = bin("+", bin("+", a, b), c)
			ty := pick(t.Src, "str", "list")
			va, vb, vc = g.envValue(ty), g.envValue(ty), g.envValue(ty)
		case 11:
			e = unary(pick(t.Src, "isnull", "notnull"), a)
			va = g.envValue(pickFrom(t.Src, allTypes))
			if t.Bool() {
				va = nil
			}
		}
		if err := checkCached(t, e, paramEnv("a", va, "b", vb, "c", vc)); err != nil {
			return err
		}
	}
	return nil
}

func runC09(t *T) error {
	g := newGen(t.Src, "arith", "cmp", "bool", "null", "str")
	g.errs = t.Pct(40)
	g.pWrong = 2
	e := &E{K: "case", F: t.Bool(), G: t.Pct(60)}
	wt := "bool"
	d := t.N(3)
	if e.F {
		wt = pick(t.Src, "count", "str", "num", "bool", "date", "dur")
		e.A = append(e.A, g.expr(wt, t.N(2)))
	} else if t.Bool() {
		g.pNull = 20
	}
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		then := lit(i + 1)
		if t.Pct(25) {
			then = g.expr(pick(t.Src, "int", "str"), d)
		} else if t.Pct(10) {
			then = g.caseExpr("int", 1)
		}
		e.A = append(e.A, g.expr(wt, t.N(2)), then)
	}
	if e.G {
		e.A = append(e.A, g.expr(pick(t.Src, "int", "str"), d))
	}
	x := e
	switch t.N(6) {
	case 0:
		x = unary("isnull", e)
	case 1:
		x = &E{K: "list", A: []*E{e, lit(7)}}
	}
	return checkExpr(t, g, x, 10)
}

func runC10(t *T) error {
	if t.Pct(25) {
		g := newGen(t.Src, "func", "list", "str", "arith")
		g.pNull, g.pWrong = 4, 2
		return checkExpr(t, g, g.expr(pick(t.Src, "str", "int", "list", "list:str", "float"), t.Range(1, 4)), 8)
	}
	if t.Pct(15) {
		return runC10Graph(t)
	}
	g := newGen(t.Src)
	g.pNull, g.pWrong = 8, 5
	g.big = true
	for i := 0; i < 10; i++ {
		name := pick(t.Src, "range", "size", "left", "right", "substring", "split", "trim", "ltrim", "rtrim", "toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull")
		var args []V
		sparse := false
		count := func() V {
			if t.Pct(5) {
				return pick[V](t.Src, math.MaxInt64, 1<<40, 1000)
			}
			return g.envValue("count")
		}
		switch name {
		case "range":
			args = []V{g.Range(-5, 8), g.Range(-5, 8)}
			if t.Bool() {
				args = append(args, g.Range(-4, 4))
			}
			if t.Pct(8) {
				base := pick(t.Src, math.MaxInt64-6, math.MinInt64+2, math.MaxInt64-1)
				args = []V{base, base + g.Range(-2, 1), pick(t.Src, 1, -1, 2, 7, math.MaxInt64, -5)}
			}
			if t.Pct(8) {
				// few elements that are far apart
				at := pick(t.Src, 0, 1, -7, math.MaxInt64, -math.MaxInt64)
				step := pick(t.Src, math.MaxInt64, 1<<62, 1<<53, 1<<60+1)
				end := pick(t.Src, math.MaxInt64, math.MaxInt64-1, 1<<62, 0, 1<<53+1)
				if t.Bool() {
					end = -end
				}
				if t.Bool() {
					step = -step
				}
				args, sparse = []V{at, end, step}, true
			} else if t.Pct(10) {
				step := pick(t.Src, 1<<31, 1<<32+5, 5000000000, 65536, 1000)
				at := g.Range(-3, 3)
				end := at + step*t.N(4) + g.Range(-1, 1)
				if t.Bool() {
					at, end, step = -at, -end, -step
				}
				args, sparse = []V{at, end, step}, true
			}
			if t.Pct(15) {
				k := t.N(len(args))
				args[k] = g.envValue("any")
				for i := range args {
					if n, isInt := args[i].(int); isInt {
						args[i] = n % 10
					}
				}
			}
		case "size":
			args = []V{g.envValue(pick(t.Src, "str", "list"))}
		case "left", "right":
			args = []V{g.envValue("str"), count()}
		case "substring":
			args = []V{g.envValue("str"), count()}
			if t.Bool() {
				args = append(args, count())
			}
		case "split":
			s := g.envValue("str")
			args = []V{s, g.envValue("str")}
			if t.Bool() {
				args[1] = pick[V](t.Src, "a", "b", "", " ", "ab", "é")
			}
		case "trim", "ltrim", "rtrim":
			ws := func() string {
				s := ""
				for i, n := 0, t.N(4); i < n; i++ {
					s += pick(t.Src, " ", "\t", "\n", "\u00a0", "\u3000", "\r", "\u200b", "\u0085")
				}
				return s
			}
			if t.Pct(85) {
				args = []V{ws() + g.strVal() + ws()}
			} else {
				args = []V{g.envValue("str")}
			}
		default:
			switch t.N(6) {
			case 4, 5:
				args = []V{numberLike(t.Src)}
			case 0:
				args = []V{g.envValue("num")}
			case 1:
				args = []V{strconv.Itoa(g.intVal())}
			case 2:
				args = []V{pick[V](t.Src, "1.5", "-1.5", "1e3", "", " 1", "1 ", "+5", "0x10", "0b1", "1_0", "--1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "007", ".5", "5.", "abc", "1e400", "-", "+", "1a", "٣")}
			case 3:
				args = []V{g.envValue(pick(t.Src, "bool", "str", "list", "date", "map"))}
			}
		}
		e := &E{K: "func", S: name}
		env := paramEnv()
		for i, a := range args {
			n := fmt.Sprintf("a%d", i)
			env.Params["$"+n] = a
			e.A = append(e.A, param(n))
		}
		// A wrong number of arguments, except where the list would be too long
		if t.Pct(5) && !sparse {
			if t.Bool() && len(e.A) > 0 {
				e.A = e.A[:len(e.A)-1]
			} else {
				for len(e.A) < 4 {
					e.A = append(e.A, lit(1))
				}
			}
		}
		if err := checkCached(t, e, env); err != nil {
			return err
		}
	}
	return nil
}

// numberLike makes the text of a number, often with a mistake
func numberLike(s *Src) string {
	digits := func(min int) string {
		d := ""
		for i, n := 0, min+s.Weighted(4, 3, 2, 1, 1); i < n; i++ {
			d += string(rune('0' + s.N(10)))
		}
		return d
	}
	x := pick(s, "", "", "", "-", "+") + digits(1)
	if s.Pct(50) {
		x += "." + digits(0)
	}
	if s.Pct(30) {
		x += pick(s, "e", "E") + pick(s, "", "-", "+") + digits(0)
	}
	for n := s.Weighted(4, 4, 1); n > 0; n-- {
		at := s.N(len(x) + 1)
		if s.Pct(40) {
			at = len(x)
		}
		y := pick(s, "f", "F", "d", "D", "L", "l", "n", "x", "_", "e", "E", "+", "-", " ", ".", ",", "%", "$", "K", "m", "i", "0x", "0b", "0o", "inf", "nan", "'", "\t", "\x00", "u")
		cut := at
		if s.Pct(25) && at < len(x) {
			cut++
		}
		if s.Pct(15) {
			y = ""
		}
		x = x[:at] + y + x[cut:]
	}
	return x
}

// runC10Graph checks labels and type
func runC10Graph(t *T) error {
	env := &Env{Params: map[string]V{}, Vars: map[string]V{}, G: newMGraph()}
	labels := []string{}
	for i, n := 0, t.N(5); i < n; i++ {
		labels = append(labels, pick(t.Src, "A", "B", "C", "Zz", "é", "a b", "a", "AB"))
	}
	n := env.G.addNode(labels, nil)
	m := env.G.addNode(nil, nil)
	ed := env.G.addEdge(n.ID, m.ID, pick(t.Src, "R", "S", "KNOWS", "r", "x y"), nil)
	env.Vars["n"], env.Vars["m"], env.Vars["r"] = NodeV{n.ID}, NodeV{m.ID}, mkPath(ed.ID)
	env.Vars["z"] = nil
	back := env.G.addEdge(m.ID, n.ID, pick(t.Src, "R", "S", "Other"), nil)
	env.Vars["p"] = mkPath(ed.ID, back.ID)
	e := pick(t.Src, fn("type", variable("z")), fn("type", variable("p")), fn("labels", variable("p")),
		listOf(fn("type", variable("z")), fn("type", variable("r"))),
		fn("labels", variable("n")), fn("type", variable("r")), fn("labels", variable("m")), fn("labels", variable("z")), fn("size", fn("labels", variable("n"))),
		&E{K: "in", A: []*E{lit("A"), fn("labels", variable("n"))}}, bin("+", fn("type", variable("r")), lit("x")), fn("type", variable("n")), fn("labels", variable("r")),
		&E{K: "index", A: []*E{fn("labels", variable("n")), lit(0)}}, cmp("=", fn("type", variable("r")), lit("R")))
	return checkCached(t, e, env)
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 9*3600), time.FixedZone("west", -8*3600), time.FixedZone("half", 5*3600+1800), time.FixedZone("far east", 14*3600), time.FixedZone("far west", -12*3600),
	zone("America/Sao_Paulo"), zone("America/Havana"), zone("Asia/Beirut"), zone("America/New_York"), zone("Europe/Berlin"), zone("Australia/Lord_Howe"), zone("Pacific/Apia"), zone("Africa/Cairo")}

func zone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

// shifts are days on which a zone changes its clocks, most of them at
// midnight
func shifts(loc *time.Location) []int64 {
	if days, exists := shiftDays[loc]; exists {
		return days
	}
	days := []int64{}
	for day := daysFromCivil(1950, 1, 1); day < daysFromCivil(2030, 1, 1); day++ {
		y, m, d := civilFromDays(day)
		_, a := time.Date(int(y), time.Month(m), int(d), -12, 0, 0, 0, loc).Zone()
		_, b := time.Date(int(y), time.Month(m), int(d), 12, 0, 0, 0, loc).Zone()
		if a != b {
			days = append(days, day)
		}
	}
	shiftDays[loc] = days
	return days
}

var shiftDays = map[*time.Location][]int64{}

// runToday compares the current date, here and in other time zones. Somewhere
// it is another day now
func runToday(t *T) error {
	for i := 0; i < 4; i++ {
		loc := time.Local
		e := fn("date")
		if t.Pct(85) {
			n := pick(t.Src, "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Tokyo", "America/Anchorage", "UTC", "America/Sao_Paulo", "Europe/Berlin")
			loc = zone(n)
			e = fn("date", param("a"))
			if t.Bool() {
				e = fn("date", lit(Map{"timezone": n}))
			}
			env := paramEnv("a", Map{"timezone": n})
			if err := isToday(t, e, env, loc); err != nil {
				return err
			}
			continue
		}
		if err := isToday(t, e, nil, loc); err != nil {
			return err
		}
	}
	return nil
}

func isToday(t *T, e *E, env *Env, loc *time.Location) error {
	text := "RETURN " + plain(e.text(0))
	t.Logf("query: %s in %v, today in %v", text, time.Local, loc)
	ev, perr, fail := parse(text)
	if fail != nil {
		return fail
	}
	if perr != nil {
		return failf("the query is rejected: %v", perr)
	}
	for i := 0; i < 2; i++ {
		day := func() DateV {
			y, m, d := time.Now().In(loc).Date()
			return DateV{daysFromCivil(int64(y), int64(m), int64(d))}
		}
		gr := newReal()
		before := day()
		out, fail := evaluate(ev, newContext(gr, env), gr)
		if fail != nil {
			return fail
		}
		t.Eval(true, text, loc)
		if after := day(); before != after {
			return errDiscard
		}
		if err := checkSingle(out, val(before), "1"); err != nil {
			return err
		}
	}
	return nil
}

func runC11(t *T) error {
	time.Local = pickFrom(t.Src, zones)
	t.Logf("time zone: %v", time.Local)
	g := newGen(t.Src)
	g.days = shifts(time.Local)
	g.pNull, g.pWrong = 6, 4
	a, b, c := param("a"), param("b"), param("c")
	types := []string{"date", "time", "dt"}
	switch t.N(10) {
	case 9: // text
		if t.Pct(20) {
			return runToday(t)
		}
		return runTexts(t, g)
	case 0: // components
		for i := 0; i < 6; i++ {
			d := g.dateVal()
			y, m, dd := civilFromDays(d.Day)
			comp := Map{"year": int(y), "month": int(m), "day": int(dd)}
			switch t.N(8) {
			case 0:
				delete(comp, "day")
			case 1:
				delete(comp, "day")
				delete(comp, "month")
			case 2:
				comp[pick(t.Src, "year", "month", "day")] = g.envValue(pick(t.Src, "str", "float", "int"))
			case 3:
				delete(comp, "year")
			case 4:
				delete(comp, "month")
			}
			if err := checkCached(t, fn("date", a), paramEnv("a", comp)); err != nil {
				return err
			}
			if err := checkCached(t, cmp("=", fn("date", a), b), paramEnv("a", comp, "b", d)); err != nil {
				return err
			}
			if t.Pct(10) && hasLiteral(comp) {
				if err := checkExpr(t, g, fn("date", lit(comp)), 2); err != nil {
					return err
				}
			}
		}
	case 1: // text
		for i := 0; i < 6; i++ {
			y, m, dd := civilFromDays(g.dateVal().Day)
			var s string
			switch t.N(9) {
			case 7:
				s = fmt.Sprintf("%04d%02d%02d", y, m, dd)
			case 8:
				s = fmt.Sprintf("%04d%02d", y, m)
			case 0, 1:
				s = fmt.Sprintf("%04d-%02d-%02d", y, m, dd)
			case 2:
				s = fmt.Sprintf("%04d-%d-%d", y, m, dd)
			case 3:
				s = fmt.Sprintf("%04d-%02d", y, m)
			case 4:
				s = fmt.Sprintf("%04d", y)
			case 5:
				s = fmt.Sprintf("%04d-%02d-%02d", y, g.Range(0, 14), g.Range(0, 33))
			case 6:
				s = g.strVal()
			}
			if err := checkCached(t, fn("date", a), paramEnv("a", s)); err != nil {
				return err
			}
			if t.Pct(10) {
				if err := checkExpr(t, g, fn("date", lit(s)), 2); err != nil {
					return err
				}
			}
		}
	case 2: // parseDate
		return runParseDate(t, g)
	case 3, 4: // moving
		for i := 0; i < 8; i++ {
			ty := pickFrom(t.Src, types)
			e := bin(pick(t.Src, "+", "-"), a, b)
			env := paramEnv("a", g.envValue(ty), "b", g.envValue("dur"))
			if t.Pct(20) {
				e = bin("+", b, a)
			}
			if err := checkCached(t, e, env); err != nil {
				return err
			}
		}
	case 5: // undoing
		for i := 0; i < 6; i++ {
			ty := pickFrom(t.Src, types)
			v, d := g.value(ty), g.durVal()
			plus, minus := bin("+", a, b), bin("-", a, b)
			env := paramEnv("a", v, "b", d)
			if r := plus.eval(env); r.st == ok {
				if back := bin("-", lit(nil), b); back != nil {
					un := bin("-", plus, b).eval(env)
					if un.st == ok && same(un.v, v) {
						if err := checkCached(t, cmp("=", bin("-", bin("+", a, b), b), a), env); err != nil {
							return err
						}
					}
				}
			}
			if r := minus.eval(env); r.st == ok {
				un := bin("+", minus, b).eval(env)
				if un.st == ok && same(un.v, v) {
					if err := checkCached(t, cmp("=", bin("+", bin("-", a, b), b), a), env); err != nil {
						return err
					}
				}
			}
		}
	case 6: // durations
		for i := 0; i < 8; i++ {
			var e *E
			env := paramEnv("a", g.envValue("dur"), "b", g.envValue("dur"), "c", g.envValue(pick(t.Src, "count", "float", "int")))
			switch t.N(5) {
			case 0:
				e = bin(pick(t.Src, "+", "-"), a, b)
			case 1:
				e = bin(pick(t.Src, "*", "/"), a, c)
			case 2:
				e = bin("*", c, a)
			case 3:
				e = bin("*", bin("-", a, b), c)
			case 4:
				e = bin(pick(t.Src, "%", "^", "/"), pick(t.Src, a, c), pick(t.Src, a, b))
			}
			if err := checkCached(t, e, env); err != nil {
				return err
			}
		}
	case 7: // undefined combinations
		for i := 0; i < 8; i++ {
			ts := []string{"date", "time", "dt", "dur", "int", "str", "float", "list", "bool"}
			e := bin(pick(t.Src, "+", "-", "*", "/", "%", "^"), a, b)
			if err := checkCached(t, e, paramEnv("a", g.value(pickFrom(t.Src, ts)), "b", g.value(pickFrom(t.Src, ts)))); err != nil {
				return err
			}
		}
	case 8: // larger expressions
		g := newGen(t.Src, "temporal", "cmp", "case")
		g.days = shifts(time.Local)
		return checkExpr(t, g, g.expr(pick(t.Src, "date", "time", "dt", "dur", "bool"), t.Range(1, 4)), 6)
	}
	return nil
}

// runTexts checks the texts and the constructors of the types
func runTexts(t *T, g *Gen) error {
	for i := 0; i < 12; i++ {
		switch t.N(4) {
		case 0:
			d := g.durVal()
			if t.Bool() {
				d.Seconds = int64(t.Range(-2, 2))
			}
			if t.Bool() {
				d.Nanos = int64(t.Range(-1999999999, 1999999999))
			}
			s := oc.Duration{Months: d.Months, Days: d.Days, Seconds: d.Seconds, Nanos: int(d.Nanos)}.String()
			t.Logf("text of %s: %s", show(d), s)
			t.Eval(true, "duration", show(d))
			m := regexp.MustCompile(`^P(-?\d+)M(-?\d+)DT(-?)(\d+)(\.(\d+))?S$`).FindStringSubmatch(s)
			if m == nil {
				return failf("the text of a duration is %s", s)
			}
			num := func(x string) int64 { n, _ := strconv.ParseInt(x, 10, 64); return n }
			nanos := num(m[4])*1000000000 + num((m[6] + "000000000")[:9])
			if m[3] == "-" {
				nanos = -nanos
			}
			if num(m[1]) != d.Months || num(m[2]) != d.Days || nanos != d.Seconds*1000000000+d.Nanos || len(m[6]) > 9 {
				return failf("the text of the duration %s is %s", show(d), s)
			}
		case 1:
			// a date is read back from its text
			d := g.dateVal()
			s := native(d, nil).(oc.Date).String()
			if err := checkCached(t, cmp("=", fn("date", param("a")), param("b")), paramEnv("a", s, "b", d)); err != nil {
				return err
			}
			y, m, dd := civilFromDays(d.Day)
			if want := fmt.Sprintf("%04d-%02d-%02d", y, m, dd); s != want {
				return failf("the text of the date %s is %s", want, s)
			}
		case 2:
			// in any zone, the parts of the moment are kept
			zone := pickFrom(t.Src, zones)
			d, c := g.dateVal(), g.timeVal()
			y, m, dd := civilFromDays(d.Day)
			sec := c.Nanos / 1000000000
			at := time.Date(int(y), time.Month(m), int(dd), int(sec/3600), int(sec/60%60), int(sec%60), int(c.Nanos%1000000000), zone)
			if timeOfDay(at) != c.Nanos || at.Day() != int(dd) || !(DateTimeV{d.Day, c.Nanos}).exists() {
				continue
			}
			t.Logf("moment %v", at)
			t.Eval(true, "moment", at.String())
			if got := fromNative(oc.NewDate(at), nil); !same(got, d) {
				return failf("NewDate gives %s", show(got))
			}
			if got := fromNative(oc.NewLocalTime(at), nil); !same(got, c) {
				return failf("NewLocalTime gives %s", show(got))
			}
			if got, want := fromNative(oc.NewLocalDateTime(at), nil), (DateTimeV{d.Day, c.Nanos}); !same(got, want) {
				return failf("NewLocalDateTime gives %s", show(got))
			}
		case 3:
			d, c := g.dateVal(), g.timeVal()
			y, m, dd := civilFromDays(d.Day)
			sec := c.Nanos / 1000000000
			clock := fmt.Sprintf("%02d:%02d:%02d", sec/3600, sec/60%60, sec%60)
			full := fmt.Sprintf("%04d-%02d-%02dT%s", y, m, dd, clock)
			t.Eval(true, "text", full)
			if got := native(c, nil).(oc.LocalTime).String(); !strings.HasPrefix(got, clock) {
				return failf("the text of the time %s is %s", clock, got)
			}
			if !(DateTimeV{d.Day, c.Nanos}).exists() {
				continue
			}
			if got := native(DateTimeV{d.Day, c.Nanos}, nil).(oc.LocalDateTime).String(); !strings.HasPrefix(got, full) {
				return failf("the text of %s is %s", full, got)
			}
		}
	}
	return nil
}

func runParseDate(t *T, g *Gen) error {
	for i := 0; i < 3; i++ {
		y, m, d := civilFromDays(g.dateVal().Day)
		if y < 1900 || y > 2099 {
			y = 2001
			if d > monthDays(y, m) {
				d = 28
			}
		}
		var s, f string
		switch t.N(5) {
		case 0:
			s, f = fmt.Sprintf("%04d-%02d-%02d", y, m, d), "YYYY-MM-DD"
		case 1:
			s, f = fmt.Sprintf("%02d/%02d/%04d", m, d, y), "MM/DD/YYYY"
		case 2:
			s, f = fmt.Sprintf("%02d.%02d.%04d", d, m, y), "DD.MM.YYYY"
		case 3:
			s, f = fmt.Sprintf("%04d/%02d/%02d", y, m, d), "YYYY/MM/DD"
		case 4:
			s, f = fmt.Sprintf("%d-%d-%04d", m, d, y), "M-D-YYYY"
		}
		e := fn("parseDate", param("a"), param("b"))
		env := paramEnv("a", s, "b", f)
		day := DateV{daysFromCivil(y, m, d)}
		if !(DateTimeV{Day: day.Day}).exists() {
			// known finding: the day before if there is no midnight
			continue
		}
		want := val(day)
		switch t.N(8) {
		case 1:
			env.Params["$a"] = nil
			want = val(nil)
		case 2:
			env.Params["$a"] = 12
			want = rErr
		}
		q := plain(kw("RETURN") + mSP + e.text(0))
		ev, err := cached(q)
		if err != nil {
			return err
		}
		gr := newReal()
		out, fail := evaluate(ev, newContext(gr, env), gr)
		if fail != nil {
			return fail
		}
		t.Logf("query: %s with %s: %s (expected %s)", q, showEnv(env), out, showR(want))
		t.Eval(true, q, showEnv(env))
		if err := checkSingle(out, want, "1"); err != nil {
			return err
		}
	}
	return nil
}
