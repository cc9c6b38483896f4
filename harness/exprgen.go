package main

import (
	"fmt"
	"math"
	"strings"
)

// Gen generates expressions together with the parameters, variables and
// properties they refer to
type Gen struct {
	*Src
	// groups of operators in use
	on map[string]bool
	// leaves that get values from the environment: name -> type
	params map[string]string
	vars   map[string]string
	props  map[string]string // property of the node variable n
	// percentages for leaves
	pNull, pWrong int
	noEnv         bool // literals only
	errs          bool // include operations that always fail
	big           bool // include numbers near the limits
	// hook may provide a leaf of a type, or nil
	hook func(t string) *E
	// noProps: no properties of the node variable n
	noProps bool
	// fixed are parameters whose value is part of the query
	fixed map[string]V
	// days to prefer for dates
	days []int64
}

func newGen(s *Src, groups ...string) *Gen {
	g := &Gen{Src: s, on: map[string]bool{}, params: map[string]string{}, vars: map[string]string{}, props: map[string]string{}, pNull: 7, pWrong: 3}
	for _, x := range groups {
		g.on[x] = true
	}
	return g
}

var smallInts = []int{0, 1, 2, 3, -1, 5, 7, 10, -2, -3, 4, 6, 8, 9, 12, 100, -7, 17, 1000, -100}
var bigInts = []int{math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64, 1 << 62, 1 << 53, 1<<53 - 1, -(1 << 53), 1 << 32, 1 << 31, -(1 << 31), 4294967295, 3037000500, 1000000007}
var floatPool = []float64{0.5, 1.5, 2.0, 0.0, -1.5, 0.1, 3.25, -2.0, 10.0, 1e10, 1e-7, 123456.789, -0.25, 7.0, 1e300, 1e-300, 2.5, 100.0, 0.333, -1e15}

func (g *Gen) intVal() int {
	switch {
	case g.big && g.Pct(12):
		return pickFrom(g.Src, bigInts)
	case g.Pct(10):
		return int(int64(g.U(0))) >> uint(g.Range(8, 60))
	}
	return pickFrom(g.Src, smallInts)
}

func (g *Gen) floatVal(special bool) float64 {
	switch {
	case special && g.Pct(5):
		return pick(g.Src, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64)
	case g.Pct(10):
		return float64(int64(g.U(0))>>uint(g.Range(20, 60))) / float64(g.Range(1, 1000))
	}
	return pickFrom(g.Src, floatPool)
}

var alphabet = []string{"a", "b", "c", "A", "ab", " ", "é", "日", "😀", "ß", "'", "\"", "\\", "\n", "\t", "-", "0", "1", ".", "ǆ", "$", "`", "x", "\u00a0", "\u0301", "/*", "//", "%s", "\r", "_", ",", "]", "z"}

// extra is a number up to max in a few cases, and otherwise 0
func (g *Gen) extra(pct, max int) int {
	if g.Pct(pct) {
		return g.N(max + 1)
	}
	return 0
}

func (g *Gen) strVal() string {
	n := g.Weighted(1, 3, 4, 3, 2, 1, 1) + g.extra(3, 60)
	s := ""
	for i := 0; i < n; i++ {
		if g.Pct(70) {
			s += pick(g.Src, "a", "b", "c", "ab")
		} else {
			s += pickFrom(g.Src, alphabet)
		}
	}
	return s
}

func (g *Gen) dateVal() DateV {
	y, m, d := int64(2000), int64(1), int64(1)
	if len(g.days) > 0 && g.Pct(30) {
		return DateV{pickFrom(g.Src, g.days)}
	}
	switch g.N(6) {
	case 0:
		y, m, d = int64(g.Range(1970, 2030)), int64(g.Range(1, 12)), int64(g.Range(1, 28))
	case 1:
		y = int64(g.Range(1800, 2200))
		m = int64(g.Range(1, 12))
		d = int64(g.Range(1, int(monthDays(y, m))))
	case 2:
		y, m, d = int64(pick(g.Src, 1999, 2000, 2004, 1900, 2100, 2024)), 2, int64(pick(g.Src, 28, 27, 1))
	case 3:
		y, m, d = int64(pick(g.Src, 1999, 2000, 1969, 1970)), int64(pick(g.Src, 12, 1)), int64(pick(g.Src, 31, 1))
	case 4:
		y, m, d = int64(g.Range(1900, 2100)), int64(g.Range(1, 12)), 1
	case 5:
		y = int64(g.Range(1995, 2005))
		m = int64(g.Range(1, 12))
		d = monthDays(y, m)
	}
	return DateV{daysFromCivil(y, m, d)}
}

func (g *Gen) timeVal() TimeV {
	if len(g.days) > 0 && g.Pct(25) {
		return TimeV{int64(g.N(4*3600)) * 1000000000}
	}
	switch g.N(4) {
	case 0:
		return TimeV{int64(g.N(86400)) * 1000000000}
	case 1:
		return TimeV{int64(g.U(uint64(dayNanos)))}
	case 2:
		return TimeV{pick(g.Src, int64(0), dayNanos-1, dayNanos/2, 1, dayNanos-1000000000)}
	}
	return TimeV{int64(g.N(24)) * 3600 * 1000000000}
}

func (g *Gen) durVal() Dur {
	c := func() int64 {
		switch g.N(5) {
		case 0, 1:
			return 0
		case 2:
			return int64(g.Range(-3, 3))
		case 3:
			return int64(g.Range(-40, 40))
		}
		return int64(g.Range(-100000, 100000))
	}
	d := Dur{Days: c(), Seconds: c()}
	d.Months = int64(g.Range(-30, 30))
	if g.Bool() {
		d.Months = 0
	}
	switch {
	case len(g.days) > 0 && g.Pct(15): // whole days in seconds, counted from 1970
		d.Seconds = pickFrom(g.Src, g.days) * 86400
	case g.Pct(12): // whole days in seconds
		d.Seconds = int64(g.Range(-400, 400)) * 86400
	case g.Pct(6): // about a century
		d.Seconds = int64(g.Range(-3200000000, 3200000000))
	}
	switch g.N(8) {
	case 6:
		d.Nanos = int64(g.Range(-100000, 100000)) * 1000000000
	case 0, 1:
		d.Nanos = int64(g.Range(-999999999, 999999999))
	case 2, 3:
		d.Nanos = int64(pick(g.Src, 1, -1, 999999999, 1500000000, -2000000000))
	}
	return d
}

// value makes a value of a type
func (g *Gen) value(t string) V {
	switch {
	case strings.HasPrefix(t, "list"):
		el := strings.TrimPrefix(strings.TrimPrefix(t, "list"), ":")
		n := g.Weighted(2, 3, 4, 4, 3, 2, 1) + g.extra(4, 40)
		l := List{}
		if el == "" {
			el = pick(g.Src, "int", "str", "any", "int")
		}
		for i := 0; i < n; i++ {
			if g.Pct(6) {
				l = append(l, nil)
			} else {
				l = append(l, g.value(el))
			}
		}
		return l
	}
	switch t {
	case "int":
		return g.intVal()
	case "index":
		return g.Range(-4, 7)
	case "count":
		return g.Range(0, 7)
	case "float":
		return g.floatVal(true)
	case "num":
		if g.Bool() {
			return g.floatVal(true)
		}
		return g.intVal()
	case "str":
		return g.strVal()
	case "bool":
		return g.Bool()
	case "date":
		return g.dateVal()
	case "time":
		return g.timeVal()
	case "dt":
		d := g.dateVal()
		v := DateTimeV{d.Day, g.timeVal().Nanos}
		for !v.exists() {
			v.Day++
		}
		return v
	case "dur":
		return g.durVal()
	case "map":
		m := Map{}
		for i, n := 0, g.N(3)+g.extra(5, 12); i < n; i++ {
			m[pick(g.Src, "a", "b", "c", "a", "b", "c", "d", "e", "f", "g", "aa", "ab")] = g.value(pick(g.Src, "int", "str"))
		}
		return m
	case "any":
		return g.value(pick(g.Src, "int", "str", "bool", "float", "list:int"))
	}
	panic("value of " + t)
}

var allTypes = []string{"int", "str", "bool", "float", "list", "date", "dur", "map"}

// envValue is the value of a leaf: mostly of its type
func (g *Gen) envValue(t string) V {
	switch {
	case g.Pct(g.pNull):
		return nil
	case g.Pct(g.pWrong):
		return g.value(pickFrom(g.Src, allTypes))
	}
	return g.value(t)
}

func hasLiteral(v V) bool {
	switch x := v.(type) {
	case Dur, DateV, TimeV, DateTimeV, NodeV, PathV:
		return false
	case float64:
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	case int:
		return x != math.MinInt64
	case List:
		for _, e := range x {
			if !hasLiteral(e) {
				return false
			}
		}
	case Map:
		for _, e := range x {
			if !hasLiteral(e) {
				return false
			}
		}
	}
	return true
}

func isTemporal(t string) bool { return t == "date" || t == "time" || t == "dt" || t == "dur" }

// leaf makes a leaf of type t
func (g *Gen) leaf(t string) *E {
	if g.hook != nil && g.Pct(65) {
		if e := g.hook(t); e != nil {
			return e
		}
	}
	if g.noEnv || (!isTemporal(t) && g.Pct(45)) {
		var v V
		switch {
		case g.Pct(g.pNull):
			v = nil
		case g.Pct(g.pWrong):
			v = g.value(pick(g.Src, "int", "str", "bool", "float", "list"))
		default:
			v = g.value(t)
		}
		if hasLiteral(v) {
			return lit(v)
		}
		return lit(1.5)
	}
	reuse := func(m map[string]string) string {
		names := []string{}
		for _, k := range sortedKeys(m) {
			if m[k] == t {
				names = append(names, k)
			}
		}
		if len(names) > 0 && g.Pct(40) {
			return pickFrom(g.Src, names)
		}
		return ""
	}
	third := 2
	if g.noProps {
		third = 0
	}
	switch g.Weighted(5, 3, third) {
	case 0:
		if n := reuse(g.params); n != "" {
			return &E{K: "param", S: n}
		}
		n := fmt.Sprintf("$p%d", len(g.params))
		g.params[n] = t
		return &E{K: "param", S: n}
	case 1:
		if n := reuse(g.vars); n != "" {
			return variable(n)
		}
		n := fmt.Sprintf("v%d", len(g.vars))
		g.vars[n] = t
		return variable(n)
	}
	if g.noProps {
		return lit(nil)
	}
	if n := reuse(g.props); n != "" {
		return prop(variable("n"), n)
	}
	n := fmt.Sprintf("q%d", len(g.props))
	g.props[n] = t
	return prop(variable("n"), n)
}

// bindEnv makes values for all the leaves
func (g *Gen) bindEnv() *Env {
	env := &Env{Params: map[string]V{}, Vars: map[string]V{}, G: newMGraph()}
	for _, k := range sortedKeys(g.params) {
		if v, isFixed := g.fixed[k]; isFixed {
			env.Params[k] = v
			continue
		}
		env.Params[k] = g.envValue(g.params[k])
	}
	for _, k := range sortedKeys(g.vars) {
		env.Vars[k] = g.envValue(g.vars[k])
	}
	if len(g.props) > 0 {
		n := env.G.addNode([]string{"N"}, nil)
		for _, k := range sortedKeys(g.props) {
			if v := g.envValue(g.props[k]); v != nil {
				n.Props[k] = v
			}
		}
		env.Vars["n"] = NodeV{n.ID}
	}
	return env
}

type production struct {
	weight int
	f      func() *E
}

// expr makes an expression of type t
func (g *Gen) expr(t string, d int) *E {
	if d <= 0 {
		return g.leaf(t)
	}
	if g.errs && g.Pct(3) {
		return g.failing(t, d-1)
	}
	var ps []production
	add := func(group string, weight int, f func() *E) {
		if group == "" || g.on[group] {
			ps = append(ps, production{weight, f})
		}
	}
	add("", 2, func() *E { return g.leaf(t) })
	x := func(t string) *E { return g.expr(t, d-1) }
	add("case", 1, func() *E { return g.caseExpr(t, d-1) })
	el := strings.TrimPrefix(t, "list:")
	switch {
	case t == "int" || t == "count" || t == "index":
		if t == "int" {
			add("arith", 6, func() *E { return bin(pick(g.Src, "+", "-", "*", "/", "%"), x("int"), x("int")) })
			add("arith", 2, func() *E { return unary(pick(g.Src, "neg", "pos"), x("int")) })
		}
		add("list", 1, func() *E { return &E{K: "index", A: []*E{x("list:int"), x("index")}} })
		add("func", 2, func() *E { return fn("size", x(pick(g.Src, "list", "str"))) })
		add("func", 1, func() *E { return fn("toInteger", x(pick(g.Src, "float", "int", "bool"))) })
	case t == "float":
		add("arith", 4, func() *E { return bin(pick(g.Src, "+", "-", "*", "/", "%"), x("float"), x("num")) })
		add("arith", 2, func() *E { return bin(pick(g.Src, "+", "-", "*", "/", "%"), x("int"), x("float")) })
		add("arith", 2, func() *E { return bin("^", x("num"), x("num")) })
		add("arith", 1, func() *E { return unary(pick(g.Src, "neg", "pos"), x("float")) })
		add("func", 1, func() *E { return fn("toFloat", x("num")) })
	case t == "num":
		return g.expr(pick(g.Src, "int", "float"), d)
	case t == "str":
		add("str", 4, func() *E { return bin("+", x("str"), x("str")) })
		add("func", 2, func() *E { return fn(pick(g.Src, "left", "right"), x("str"), x("count")) })
		add("func", 2, func() *E {
			if g.Bool() {
				return fn("substring", x("str"), x("count"))
			}
			return fn("substring", x("str"), x("count"), x("count"))
		})
		add("func", 2, func() *E { return fn(pick(g.Src, "trim", "ltrim", "rtrim"), x("str")) })
		add("list", 1, func() *E { return &E{K: "index", A: []*E{x("list:str"), x("index")}} })
	case t == "bool":
		add("cmp", 5, func() *E {
			ot := pick(g.Src, "int", "num", "str", "bool", "num")
			if g.on["temporal"] && g.Pct(20) {
				ot = pick(g.Src, "date", "dur", "time", "dt")
			}
			n := 1 + g.Weighted(8, 2, 1) + g.extra(2, 4)
			e := &E{K: "cmp", A: []*E{x(ot)}}
			for i := 0; i < n; i++ {
				e.Ops = append(e.Ops, pick(g.Src, "=", "<>", "<", "<=", ">", ">="))
				e.A = append(e.A, x(ot))
			}
			return e
		})
		add("bool", 5, func() *E {
			n := 2 + g.Weighted(6, 2, 1) + g.extra(3, 6)
			e := &E{K: pick(g.Src, "and", "or", "xor")}
			for i := 0; i < n; i++ {
				e.A = append(e.A, x("bool"))
			}
			return e
		})
		add("bool", 2, func() *E {
			e := not(x("bool"))
			for n := g.extra(10, 7); n > 0; n-- {
				e = not(e)
			}
			return e
		})
		add("list", 2, func() *E {
			ot := pick(g.Src, "int", "str")
			return &E{K: "in", A: []*E{x(ot), x("list:" + ot)}}
		})
		add("str", 3, func() *E { return &E{K: pick(g.Src, "starts", "ends", "contains"), A: []*E{x("str"), x("str")}} })
		add("null", 2, func() *E {
			return unary(pick(g.Src, "isnull", "notnull"), x(pick(g.Src, "int", "str", "bool", "list")))
		})
	case strings.HasPrefix(t, "list"):
		if el == "list" || el == "any" {
			el = "int"
			if t == "list:any" || g.Pct(30) {
				el = pick(g.Src, "str", "any", "int")
			}
		}
		if el == "any" {
			el = "str"
		}
		add("list", 3, func() *E {
			e := &E{K: "list"}
			for i, n := 0, g.N(4)+g.extra(3, 12); i < n; i++ {
				if i > 4 {
					e.A = append(e.A, g.leaf(el))
					continue
				}
				e.A = append(e.A, x(el))
			}
			return e
		})
		add("list", 3, func() *E { return bin("+", x(t), x(t)) })
		add("list", 3, func() *E {
			e := &E{K: "slice", A: []*E{x(t), nil, nil}, F: g.Pct(75), G: g.Pct(75)}
			if e.F {
				e.A[1] = x("count")
			}
			if e.G {
				e.A[2] = x("count")
			}
			return e
		})
		if el == "int" {
			// The bounds are small: a list with more elements than fit in memory tests nothing
			bound := func() *E {
				if g.Bool() {
					return lit(g.Range(-2, 6))
				}
				return parens(bin("%", x("count"), lit(pick(g.Src, 5, 12))))
			}
			add("func", 1, func() *E { return fn("range", bound(), bound()) })
		}
		if el == "str" {
			add("func", 1, func() *E { return fn("split", x("str"), x("str")) })
		}
	case t == "date" || t == "time" || t == "dt":
		add("temporal", 5, func() *E { return bin(pick(g.Src, "+", "-"), x(t), x("dur")) })
		add("temporal", 1, func() *E { return bin("+", x("dur"), x(t)) })
	case t == "dur":
		add("temporal", 3, func() *E { return bin(pick(g.Src, "+", "-"), x("dur"), x("dur")) })
		add("temporal", 2, func() *E { return bin(pick(g.Src, "*", "/"), x("dur"), g.leaf(pick(g.Src, "count", "float"))) })
		add("temporal", 1, func() *E { return bin("*", g.leaf(pick(g.Src, "count", "float")), x("dur")) })
	case t == "map":
		add("", 3, func() *E {
			e := &E{K: "map"}
			for i, n := 0, g.N(3)+g.extra(3, 9); i < n; i++ {
				e.Ops = append(e.Ops, string(rune('a'+i)))
				e.A = append(e.A, x(pick(g.Src, "int", "str", "bool")))
			}
			return e
		})
	case t == "any":
		return g.expr(pick(g.Src, "int", "str", "bool", "float", "list"), d)
	}
	weights := make([]int, len(ps))
	for i, p := range ps {
		weights[i] = p.weight
	}
	e := ps[g.Weighted(weights...)].f()
	for n := g.extra(2, 9); n > 0; n-- {
		// a long chain of operators
		switch {
		case t == "int" && g.on["arith"]:
			e = bin(pick(g.Src, "+", "-", "*", "/", "%"), e, g.leaf("int"))
		case t == "float" && g.on["arith"]:
			e = bin(pick(g.Src, "+", "-", "*", "/"), e, g.leaf("num"))
		case t == "str" && g.on["str"]:
			e = bin("+", e, g.leaf("str"))
		case strings.HasPrefix(t, "list") && t != "list" && t != "list:any" && g.on["list"]:
			e = bin("+", e, g.leaf(t))
		}
	}
	if g.Pct(6) && level(e) < lAtom {
		return parens(e)
	}
	return e
}

func (g *Gen) caseExpr(t string, d int) *E {
	e := &E{K: "case", F: g.Bool(), G: g.Pct(60)}
	x := func(t string) *E { return g.expr(t, d-1) }
	wt := "bool"
	if e.F {
		wt = pick(g.Src, "int", "str", "int")
		e.A = append(e.A, x(wt))
	}
	for i, n := 0, g.Range(1, 3)+g.extra(3, 6); i < n; i++ {
		e.A = append(e.A, x(wt), x(t))
	}
	if e.G {
		e.A = append(e.A, x(t))
	}
	return e
}

// failing makes an expression that is an error
func (g *Gen) failing(t string, d int) *E {
	switch g.N(7) {
	case 0:
		return bin("/", g.expr("int", d), lit(0))
	case 1:
		return bin("%", g.expr("int", d), lit(0))
	case 2:
		return &E{K: "param", S: "$unknown"}
	case 3:
		return variable("unknownVariable")
	case 4:
		return fn("noSuchFunction", g.expr("int", d))
	case 5:
		return bin("-", lit("text"), lit(1))
	}
	return fn("toInteger", lit("text"))
}
