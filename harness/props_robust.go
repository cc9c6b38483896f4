package main

import (
	"fmt"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C01

// soup are the tokens of random texts
var soup = strings.Fields("ALL ASC BY CREATE DELETE DESC DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CASE WHEN THEN ELSE END CALL YIELD COUNT ANY NONE SINGLE FILTER EXTRACT ( ) [ ] { } , : ; . .. | + - * / % ^ = <> < > <= >= += -- --> <-- $p $1 $ n m r x a A B k n.k :A 0 1 2 17 017 0x1F 1.5 .5 1e3 'a' \"b\" ' \" ` `a b` \\ # @ ! ~ & // /* */ null date( size( labels( type( toInteger( range(1,3) split( () (n) (m) (:A) [r] [*] [*1..2] -[]-> -[r:X]-> <-[]- -[*]- {k:1} [1,2] [1..2] n=m é 日本 \u00a0 \u2013 \x00")

// words splits a text into tokens, roughly
var words = regexp.MustCompile("(?s)`[^`]*`|'(?:[^'\\\\]|\\\\.)*'|\"(?:[^\"\\\\]|\\\\.)*\"|[A-Za-z_$][A-Za-z0-9_]*|[0-9]+|\\s+|<>|<=|>=|\\+=|\\.\\.|.")

// mutateText changes a text
func mutateText(s *Src, text, other string) string {
	a, b := words.FindAllString(text, -1), words.FindAllString(other, -1)
	for i, n := 0, 1+s.Weighted(6, 3, 2, 1); i < n; i++ {
		if len(a) == 0 {
			a = []string{pickFrom(s, soup)}
		}
		at := s.N(len(a))
		to := at + 1 + s.Weighted(6, 2, 1, 1, 1)
		if to > len(a) {
			to = len(a)
		}
		piece := append([]string{}, a[at:to]...)
		switch s.N(9) {
		case 0:
			a = append(a[:at:at], a[to:]...)
		case 1:
			a = append(append(a[:to:to], piece...), a[to:]...)
		case 2:
			a = append(append(a[:at:at], pickFrom(s, soup)), a[to:]...)
		case 3:
			a = append(append(a[:at:at], " "+pickFrom(s, soup)+" "), a[at:]...)
		case 4:
			if len(b) > 0 {
				f := s.N(len(b))
				t := f + 1 + s.N(8)
				if t > len(b) {
					t = len(b)
				}
				a = append(append(a[:at:at], b[f:t]...), a[to:]...)
			}
		case 5:
			if len(b) > 0 {
				a = append(a[:at:at], b[s.N(len(b)):]...)
			}
		case 6:
			j := s.N(len(a))
			a[at], a[j] = a[j], a[at]
		case 7:
			r := []rune(strings.Join(a, ""))
			p := s.N(len(r))
			switch s.N(4) {
			case 0:
				r = append(r[:p:p], r[p+1:]...)
			case 1:
				r = append(append(r[:p:p], oneRune(s)), r[p:]...)
			case 2:
				r[p] = oneRune(s)
			case 3:
				r = r[:p]
			}
			a = words.FindAllString(string(r), -1)
		case 8:
			// another value in the place of a value
			a[at] = pick(s, "null", "n", "r", "$p", "$q", "1", "-1", "'a'", "true", "[]", "[n]", "{}", "{a:n}", "1.5", "date('2020-01-01')", "labels(n)", "(1)", "x", "p", "*")
		}
	}
	return strings.Join(a, "")
}

// tooDeep tells if a text is nested more than ordinary texts. The parser
// takes time exponential in that
func tooDeep(text string, limit int) bool {
	depth := 0
	for _, c := range text {
		switch c {
		case '(', '[', '{':
			depth++
			if depth > limit {
				return true
			}
		case ')', ']', '}':
			if depth > 0 {
				depth--
			}
		}
	}
	return false
}

var rangeWord = regexp.MustCompile(`(?i)range`)
var starred = regexp.MustCompile(`\*`)
var longNumber = regexp.MustCompile(`[0-9a-fA-F]{4}|timestamp|[eE][0-9]|\*`)

// costly tells if the evaluation can take long because that is what the
// text asks for
func costly(text string) bool {
	if rangeWord.MatchString(text) && longNumber.MatchString(text) {
		return true
	}
	return strings.Count(text, "(") > 9 || len(starred.FindAllString(text, -1)) > 4
}

// oddValue is any value for a variable or parameter
func oddValue(s *Src, gr *Real, small bool) (oc.Value, string) {
	nodes, edges := sortedInts(gr.node), sortedInts(gr.edge)
	rv := func(v V) (oc.Value, string) { return toValue(v, gr), show(v) }
	switch s.N(17) {
	case 0:
		return rv(nil)
	case 1:
		return rv(s.Range(-2, 5))
	case 2:
		if small {
			return rv(2)
		}
		return rv(pick(s, 1<<62, -1<<63, 1<<63-1, 1000000))
	case 3:
		return rv(pick(s, 0.5, -1.5, 2.0, 1e300))
	case 4:
		return rv(pick(s, "", "a", "k", "x,y", "2020-01-01", "1"))
	case 5:
		return rv(s.Bool())
	case 6:
		return rv(pick(s, List{}, List{1, 2}, List{nil, "a", List{1}}, List{Map{"a": 1}}))
	case 7:
		return rv(pick(s, Map{}, Map{"k": 1}, Map{"s": "a", "w": nil}, Map{"a": List{1}}))
	case 8, 9, 10:
		if len(nodes) > 0 {
			return rv(NodeV{pickFrom(s, nodes)})
		}
	case 11, 12:
		if len(edges) > 0 {
			return rv(mkPath(pickFrom(s, edges)))
		}
	case 13:
		return oc.RValue{Value: lpg.NewStringSet("A", "k")}, "string set A, k"
	case 14:
		switch s.N(4) {
		case 0:
			return oc.RValue{Value: oc.NewDate(time.Date(2020, 1, 31, 23, 5, 6, 7, time.UTC))}, "date"
		case 1:
			return oc.RValue{Value: oc.NewLocalDateTime(time.Date(2020, 1, 31, 23, 5, 6, 7, time.UTC))}, "local date and time"
		case 2:
			return oc.RValue{Value: oc.NewLocalTime(time.Date(2020, 1, 31, 23, 5, 6, 7, time.UTC))}, "local time"
		}
		return oc.RValue{Value: oc.Duration{Months: 1, Days: -2, Seconds: 3, Nanos: 4}}, "duration"
	case 15:
		rs := oc.ResultSet{Cols: []string{"1"}, Rows: []map[string]oc.Value{{"1": oc.RValue{Value: 1}}}}
		return oc.RValue{Value: rs}, "result set"
	case 16:
		if s.Bool() {
			list := []*lpg.Edge{}
			for i, n := 0, s.N(3); i < n && len(edges) > 0; i++ {
				list = append(list, gr.edge[pickFrom(s, edges)])
			}
			return oc.ValueOf(list), fmt.Sprintf("%d relationships", len(list))
		}
		if len(nodes) > 0 && s.Bool() {
			return oc.ValueOf(lpg.PathFromNode(gr.node[pickFrom(s, nodes)])), "path of a node"
		}
		if len(edges) > 0 {
			return oc.ValueOf(lpg.PathElement{Edge: gr.edge[pickFrom(s, edges)]}), "path element"
		}
	}
	return rv(nil)
}

func sortedInts[X any](m map[int]X) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// usable checks that a value can be inspected
func usable(v oc.Value) error {
	if v == nil {
		return failf("there is a value missing")
	}
	x := v.Get()
	_ = fmt.Sprint(x)
	v.IsConst()
	switch y := x.(type) {
	case []oc.Value:
		for _, e := range y {
			if err := usable(e); err != nil {
				return err
			}
		}
	case map[string]oc.Value:
		for _, e := range y {
			if err := usable(e); err != nil {
				return err
			}
		}
	case oc.ResultSet:
		for _, r := range y.Rows {
			if r == nil {
				return failf("there is a row missing")
			}
			for _, e := range r {
				if err := usable(e); err != nil {
					return err
				}
			}
		}
		_ = y.String()
	case nil, int, float64, string, bool, oc.Date, oc.LocalTime, oc.LocalDateTime, oc.Duration, lpg.StringSet, *lpg.Node, *lpg.Path, []*lpg.Edge, *lpg.Edge, lpg.PathElement:
	default:
		return failf("there is a value of type %T", x)
	}
	return nil
}

// knownPanic tells if a panic is a known finding
func knownPanic(text, msg, stack string) bool {
	// lpg cannot assemble the path if it walks a variable length step
	// from its end (finding var-length-backward)
	return msg == "Appended edge is disconnected from path" && strings.Contains(stack, "lpg/v2.MatchPlan.GetCurrentPath")
}

// robustly calls f, and describes its panic
func robustly(text string, f func() error) (err error, known bool) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if knownPanic(text, fmt.Sprint(r), stack) {
				known = true
				return
			}
			err = failf("panic: %v\n%s", r, trimStack(stack))
		}
	}()
	return f(), false
}

var allFuncs = strings.Fields("date labels left ltrim parseDate print range right rtrim size split substring timestamp toFloat toFloatOrNull toInteger toIntegerOrNull trim type nope a.b exists")

// scrambler puts expressions and variables of any type into a query
type scrambler struct {
	*Src
	names  []string
	params []string
	pct    int
}

func (s *scrambler) name() string { return pickFrom(s.Src, s.names) }

// any is any expression
func (s *scrambler) any(d int) *E {
	k := s.N(16)
	if d <= 0 {
		k %= 8
	}
	switch k {
	case 0, 1, 2:
		return variable(s.name())
	case 3:
		return &E{K: "param", S: pickFrom(s.Src, s.params)}
	case 4:
		return lit(pick[V](s.Src, nil, 0, 1, -1, 2, "", "a", "k", "2020-01-01", true, false, 0.5, List{}, Map{}, List{1, nil, "a"}))
	case 5, 6:
		return &E{K: "prop", S: pickFrom(s.Src, namePool), A: []*E{variable(s.name())}}
	case 7:
		return &E{K: "setlabels", S: name(s.name()), Ops: []string{pickFrom(s.Src, namePool)}}
	case 8:
		f := fn(pickFrom(s.Src, allFuncs))
		for n := s.Weighted(1, 6, 4, 2, 1); n > 0; n-- {
			f.A = append(f.A, s.any(d-1))
		}
		return f
	case 9:
		return bin(pick(s.Src, "+", "-", "*", "/", "%", "^"), s.any(d-1), s.any(d-1))
	case 10:
		return &E{K: "cmp", Ops: []string{pick(s.Src, "=", "<>", "<", ">", "<=", ">=")}, A: []*E{s.any(d - 1), s.any(d - 1)}}
	case 11:
		return nary(pick(s.Src, "and", "or", "xor", "in", "starts", "ends", "contains"), s.any(d-1), s.any(d-1))
	case 12:
		return unary(pick(s.Src, "not", "neg", "pos", "isnull", "notnull"), s.any(d-1))
	case 13:
		if s.Bool() {
			return &E{K: "index", A: []*E{s.any(d - 1), s.any(d - 1)}}
		}
		return &E{K: "slice", F: true, G: true, A: []*E{s.any(d - 1), s.any(d - 1), s.any(d - 1)}}
	case 14:
		return listOf(s.any(d-1), s.any(d-1))
	}
	if s.Bool() {
		return &E{K: "map", Ops: []string{pickFrom(s.Src, namePool)}, A: []*E{s.any(d - 1)}}
	}
	return &E{K: "case", F: s.Bool(), A: []*E{s.any(d - 1), s.any(d - 1), s.any(d - 1)}, G: false}
}

func (s *scrambler) expr(e *E) *E {
	if e == nil {
		return nil
	}
	if e.K != "map" && e.K != "param" && s.Pct(s.pct) {
		return s.any(2)
	}
	return s.inner(e)
}

func (s *scrambler) inner(e *E) *E {
	c := *e
	c.A = nil
	for _, a := range e.A {
		if a == nil {
			c.A = append(c.A, nil)
			continue
		}
		if s.Pct(s.pct) {
			c.A = append(c.A, s.any(2))
		} else {
			c.A = append(c.A, s.inner(a))
		}
	}
	return &c
}

func (s *scrambler) query(q *Query) *Query {
	c := q.mapExprs(s.expr)
	some := func() bool { return s.Pct(s.pct) }
	pats := func(ps []Path) {
		for i := range ps {
			if some() && some() {
				ps[i].Var = s.name()
			}
			for j := range ps[i].Nodes {
				n := &ps[i].Nodes[j]
				if some() {
					n.Var = pick(s.Src, s.name(), s.name(), "")
				}
				if some() {
					n.Labels = []string{pickFrom(s.Src, namePool)}
				}
				if some() {
					n.Props = &E{K: "map", Ops: []string{pickFrom(s.Src, namePool)}, A: []*E{s.any(1)}}
					if s.Bool() {
						n.Props = &E{K: "param", S: pickFrom(s.Src, s.params)}
					}
				}
			}
			for j := range ps[i].Rels {
				r := &ps[i].Rels[j]
				if some() {
					r.Var = pick(s.Src, s.name(), s.name(), "")
				}
				if some() {
					r.Dir = s.N(4)
				}
				if some() {
					r.Types = pick(s.Src, nil, []string{"X"}, []string{"X", "Y"})
				}
				if some() && s.Bool() {
					r.Range, r.Min, r.Max = true, s.Range(-1, 2), s.Range(-1, 3)
					r.Exact = r.Min >= 0 && s.Bool()
				}
				if some() {
					r.Props = &E{K: "map", Ops: []string{pickFrom(s.Src, namePool)}, A: []*E{s.any(1)}}
				}
			}
		}
	}
	items := func(is []SetItem) {
		for i := range is {
			if some() {
				is[i].Var = s.name()
			}
		}
	}
	for i := range c.Parts {
		p := &c.Parts[i]
		for _, m := range p.Reads {
			pats(m.Pats)
		}
		for j := range p.Updates {
			u := &p.Updates[j]
			pats(u.Pats)
			items(u.Items)
			for _, a := range u.On {
				items(a.Items)
			}
			if u.K == "delete" && s.Pct(30) {
				u.Exprs = append(u.Exprs, s.any(1))
			}
		}
		if n := len(p.Updates); n > 0 && s.Pct(40) {
			// the same again, after the others
			u := p.Updates[s.N(n)]
			at := s.N(n + 1)
			p.Updates = append(append(p.Updates[:at:at], u), p.Updates[at:]...)
		}
		if len(p.Reads) > 0 && some() {
			p.Reads[0].Optional = true
		}
		if p.Ret != nil && some() {
			if s.Bool() {
				p.Ret.Skip = s.any(1)
			} else {
				p.Ret.Limit = s.any(1)
			}
		}
		if p.Ret == nil && len(p.Updates) > 0 && s.Bool() {
			p.Ret = &Ret{Items: []Item{{E: s.any(1)}}}
		}
	}
	return c
}

var variableWord = regexp.MustCompile("^[a-z][0-9]+$|^[nrmp]$")

// namesOf are the variables and parameters of a query
func namesOf(text string) (vars, params []string) {
	for _, w := range words.FindAllString(text, -1) {
		switch {
		case w[0] == '$' && len(w) > 1:
			params = append(params, w)
		case variableWord.MatchString(w):
			vars = append(vars, w)
		}
	}
	return append(vars, "n", "x", "this"), append(params, "$p", "$q")
}

func robustCase(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 5, Density: 60})
	q := newQGen(t.Src, g)
	q.gen.errs = true
	q.gen.pWrong = 10
	if t.Pct(12) {
		return robustPattern(t, q, g)
	}
	text, kind := "", ""
	must := false // it must be an error
	valid := func() string {
		query := newQGen(t.Src, g).anyQuery()
		if t.Pct(20) {
			return layout(t.Src, query.marked())
		}
		return query.text()
	}
	more, moreVars := []string{}, []string{}
	env := &Env{}
	switch t.Weighted(25, 18, 4, 2, 6, 45) {
	case 0:
		kind = "derived"
		rule := "oC_Cypher"
		prefix := ""
		switch t.N(6) {
		case 0:
			prefix, rule = "RETURN ", "oC_Expression"
		case 1:
			prefix, rule = "MATCH (n) ", "oC_SinglePartQuery"
		case 2, 3:
			prefix, rule = "MATCH (n)-[r]->(m) ", "oC_UpdatingClause"
		case 4:
			prefix, rule = "RETURN ", "oC_Atom"
		}
		text, _ = derive(t.Src, rule, pick(t.Src, 60, 100, 200))
		text = prefix + text
	case 5:
		kind = "scrambled"
		q2 := newQGen(t.Src, g)
		q2.gen.errs = true
		q2.gen.pWrong = 20
		query := q2.anyQuery()
		s := &scrambler{Src: t.Src, pct: pick(t.Src, 5, 12, 25, 40)}
		s.names, s.params = namesOf(query.text())
		text = s.query(query).text()
		env = q2.bindEnv()
	case 1:
		kind = "mutated"
		if t.Bool() {
			text, _ = derive(t.Src, "oC_Cypher", 80)
		} else {
			text = valid()
		}
		text = mutateText(t.Src, text, valid())
	case 2:
		kind = "tokens"
		for i, n := 0, 1+t.N(14); i < n; i++ {
			text += pickFrom(t.Src, soup) + pick(t.Src, " ", " ", "")
		}
	case 3:
		kind = "characters"
		for i, n := 0, t.N(40); i < n; i++ {
			text += string(oneRune(t.Src))
		}
		if t.Pct(30) {
			b := []byte(text)
			for i := range b {
				b[i] ^= byte(t.N(256))
			}
			text = string(b)
		}
	case 4:
		kind = "unsupported"
		text = unsupported(t.Src, q)
		must = true
	}
	if len(text) > 600 || tooDeep(text, 6) {
		return errDiscard
	}
	t.Logf("%s text: %q", kind, text)
	if kind == "scrambled" || kind == "mutated" {
		moreVars, more = namesOf(text)
		moreVars, more = unique(moreVars), unique(more)
	}
	var ev oc.Evaluatable
	var perr error
	fail, _ := robustly(text, func() (fail error) {
		ev, perr, fail = parse(text)
		return fail
	})
	if fail != nil {
		return fail
	}
	if perr != nil {
		if perr.Error() == "" {
			return failf("the error has no text")
		}
		t.Eval(true, text)
		return nil
	}
	if costly(text) {
		return nil
	}
	n := 3
	if len(g.Nodes) == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		gr := build(g, BuildOpts{})
		ctx := oc.NewEvalContext(gr.g)
		ctx.PropertyValueFromNativeFilter = acyclic
		desc := []string{}
		for i, id := range g.nodeIDs() {
			// Values that the library does not know
			if t.Pct(8) {
				key := pickFrom(t.Src, namePool)
				v := pick[interface{}](t.Src, []string{"a"}, uint64(1), struct{}{}, []interface{}{1}, map[string]int{"a": 1}, uint(7), []byte("a"))
				gr.node[id].SetProperty(key, v)
				desc = append(desc, fmt.Sprintf("node %d.%s=%T", i, key, v))
			}
		}
		for _, p := range paramPool {
			v, s := oddValue(t.Src, gr, rangeWord.MatchString(text))
			if t.Pct(85) {
				ctx.SetParameter("$"+p, v)
				desc = append(desc, "$"+p+"="+s)
			}
		}
		for _, p := range varPool {
			v, s := oddValue(t.Src, gr, rangeWord.MatchString(text))
			if kind != "scrambled" && i > 0 && t.Pct(40) {
				ctx.SetVar(p, v)
				desc = append(desc, p+"="+s)
			}
		}
		for _, p := range more {
			if v, s := oddValue(t.Src, gr, rangeWord.MatchString(text)); t.Pct(10) {
				ctx.SetParameter(p, v)
				desc = append(desc, p+"="+s)
			} else if v, exists := env.Params[p]; exists {
				ctx.SetParameter(p, toValue(v, gr))
				desc = append(desc, p+"="+show(v))
			}
		}
		for _, p := range moreVars {
			if v, s := oddValue(t.Src, gr, rangeWord.MatchString(text)); i == 2 && t.Pct(5) {
				ctx.SetVar(p, v)
				desc = append(desc, p+"="+s)
			} else if v, exists := env.Vars[p]; exists {
				ctx.SetVar(p, toValue(v, gr))
				desc = append(desc, p+"="+show(v))
			}
		}
		t.Logf("  with %s", strings.Join(desc, " "))
		failed, result := false, ""
		fail, known := robustly(text, func() error {
			for j := 0; j < 2; j++ {
				v, err := ev.Evaluate(ctx)
				switch {
				case err == nil && v == nil:
					return failf("evaluation returns neither a value nor an error")
				case err != nil:
					if v != nil && v.Get() != nil {
						return failf("evaluation returns both a value and an error: %v, %v", v.Get(), err)
					}
					result, failed = err.Error(), true
				default:
					rs, isRS := v.Get().(oc.ResultSet)
					if !isRS {
						return failf("evaluation returns %T instead of a result set", v.Get())
					}
					if err := usable(v); err != nil {
						return err
					}
					result = strconv.Itoa(len(rs.Rows)) + " rows"
					failed = false
				}
				if j == 0 && i == 0 && len(text) < 200 {
					// the state of the graph can be read
					for it := gr.g.GetNodes(); it.Next(); {
						_ = it.Node().String()
					}
					for it := gr.g.GetEdges(); it.Next(); {
						_ = it.Edge().String()
					}
				}
			}
			return nil
		})
		if known {
			return errDiscard
		}
		if fail != nil {
			return fail
		}
		t.Logf("    %s", clip(result, 200))
		if must && !failed && (!strings.Contains(text, "MATCH") || i == 0 && len(g.Nodes) > 0) {
			return failf("%q contains what is not implemented, and is not an error: %s", text, result)
		}
		t.Eval(true, text, strings.Join(desc, " "))
	}
	return nil
}

// unsupported is a query with a construct that is not implemented, and
// must be evaluated
func unsupported(s *Src, q *QGen) string {
	e := func() string {
		x, _ := derive(s, "oC_Atom", 20)
		for tooDeep(x, 2) {
			x = "1"
		}
		return x
	}
	clause := func() string {
		return pick(s, "UNWIND [1,2] AS x RETURN x", "UNWIND $p AS x RETURN 1", "UNWIND [] AS x CREATE (:A)", "WITH 1 AS x RETURN x", "WITH * RETURN 1", "MATCH (n) WITH n RETURN n", "MATCH (n) WITH n WHERE n.k=1 RETURN n", "CREATE (n) WITH n RETURN n", "MATCH (a) WITH DISTINCT a ORDER BY a.k LIMIT 1 MATCH (a)-->(b) RETURN b",
			"CALL db.labels()", "CALL db.labels() YIELD x", "CALL f", "CALL a.b.c(1,'x') YIELD x AS y, z RETURN y", "MATCH (n) CALL f(n) YIELD x RETURN x", "CALL f() YIELD x WHERE x > 1 RETURN x", "MATCH (n) UNWIND [1] AS x RETURN x", "UNWIND ["+e()+"] AS x RETURN x", "CALL db.labels() YIELD *")
	}
	expr := func() string {
		return pick(s, "[x IN [1,2] | x]", "[x IN [1] WHERE x > 1]", "[x IN [1] WHERE x > 1 | x+1]", "[(a)-->(b) | b.k]", "[p=(a)-[:X]->(b) WHERE a.k=1 | p]", "COUNT(*)", "count( * )", "ALL(x IN [1] WHERE x=1)", "any(x IN [] WHERE x=1)", "NONE(x IN $p WHERE true)", "single(x IN [1] WHERE x=1)", "(n)-->(m)", "(n)-[:X]-()", "(:A)<--(:B)--()", "all(x IN [1])")
	}
	if s.Bool() {
		return clause()
	}
	x := expr()
	switch s.N(8) {
	case 0:
		return "RETURN " + x
	case 1:
		return "RETURN 1 + 1, " + x + " AS y"
	case 2:
		return "RETURN [" + x + "]"
	case 3:
		return "CREATE (z) SET z.k = " + x
	case 4:
		return "RETURN size(" + x + ")"
	case 5:
		return "RETURN {a: " + x + "}"
	case 6:
		return "CREATE (z {k: " + x + "}) RETURN z"
	}
	return "RETURN NOT " + x
}

func robustPattern(t *T, q *QGen, g *MGraph) error {
	text := ""
	switch t.N(3) {
	case 0:
		text, _ = derive(t.Src, "oC_PatternPart", 60)
	case 1:
		a, _ := derive(t.Src, "oC_PatternPart", 40)
		text = mutateText(t.Src, a, q.pathPat(t.N(3)).text())
		text = plain(text)
	case 2:
		text = pick(t.Src, "(this)", "(target)", "()", "(:A)") + pick(t.Src, "-->", "<--", "--", "-[:X]->", "-[*]->", "<-[r]-", "-[*1..2]-") + pick(t.Src, "(this)", "(target)", "()", "(target:A)", "(n {k:$p})", "(x {k:n.k})", "(target {k:this.k})", "(target $p)")
		if t.Bool() {
			text = mutateText(t.Src, text, "(target)-[:X]-(this)")
		}
	}
	if len(text) > 300 || tooDeep(text, 6) {
		return errDiscard
	}
	t.Logf("pattern: %q", text)
	var part oc.PatternPart
	var perr error
	if fail, _ := robustly(text, func() error { part, perr = oc.ParsePatternExpr(text); return nil }); fail != nil {
		return fail
	}
	if perr != nil {
		t.Eval(true, "pattern", text)
		return nil
	}
	if costly(text) {
		return nil
	}
	gr := build(g, BuildOpts{})
	for _, id := range g.nodeIDs() {
		t.Logf("  from node %d", id)
		fail, known := robustly(text, func() error {
			found, err := part.FindRelative(gr.node[id])
			if err != nil && len(found) > 0 {
				return failf("FindRelative returns both nodes and an error")
			}
			for _, n := range found {
				if n == nil {
					return failf("FindRelative returns a nil node")
				}
			}
			return nil
		})
		if known {
			return errDiscard
		}
		if fail != nil {
			return fail
		}
		t.Eval(true, "pattern", text, id)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:        "C01",
		Rule:      "texts derived from the grammar (all constructs), mutations and splices of valid queries and derived texts, sequences of random tokens, random characters and bytes, and constructs that are not implemented, up to 600 bytes and 6 nested brackets; parsed, and evaluated twice in each of 3 contexts whose variables and parameters hold values of all types, on graphs of up to 4 nodes; path patterns likewise, from every node; non-trivial: every text that is rejected or evaluated counts, once for each context",
		Run:       robustCase,
		CaseLimit: 60e9,
	})
}

func unique(in []string) []string {
	seen, out := map[string]bool{}, []string{}
	for _, x := range in {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// acyclic keeps elements of the graph out of properties: a node that is
// (in) its own property cannot be printed
func acyclic(_ string, v interface{}) interface{} {
	if hasElement(v) {
		return "element"
	}
	return v
}

func hasElement(v interface{}) bool {
	switch x := v.(type) {
	case *lpg.Node, *lpg.Path, *lpg.Edge, []*lpg.Edge, lpg.PathElement, oc.ResultSet:
		return true
	case oc.Value:
		return hasElement(x.Get())
	case []oc.Value:
		for _, y := range x {
			if y != nil && hasElement(y) {
				return true
			}
		}
	case map[string]oc.Value:
		for _, y := range x {
			if y != nil && hasElement(y) {
				return true
			}
		}
	}
	return false
}
