package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C29

// wrapped is a stored property with a native value
type wrapped struct {
	v    V
	kind int
	real *Real
}

func (w *wrapped) GetNativeValue() interface{} {
	switch x := w.v.(type) {
	case int:
		switch {
		case w.kind == 1:
			return int64(x)
		case w.kind == 2 && x == int(int32(x)):
			return int32(x)
		case w.kind == 3 && x == int(int8(x)):
			return int8(x)
		case w.kind == 4 && x == int(uint8(x)):
			return uint8(x)
		}
	case float64:
		if w.kind >= 3 && x == float64(float32(x)) {
			return float32(x)
		}
	}
	return native(w.v, w.real)
}

// nilNative: a stored property whose native value is nil, which is read
// like one that does not exist
func nilNative(v interface{}) bool {
	w, isWrapped := v.(*wrapped)
	return isWrapped && w.v == nil
}

// wrapAll replaces the properties of a graph by wrapped ones. If nils is
// set, it also adds properties whose native values are nil
func wrapAll(s *Src, r *Real, nils bool) {
	wrap := func(keys map[string]string, get func(func(string, interface{}) bool) bool, set func(string, interface{})) {
		props := map[string]interface{}{}
		get(func(k string, v interface{}) bool {
			props[k] = v
			return true
		})
		for _, k := range sortedKeys(props) {
			set(k, &wrapped{v: fromNative(props[k], r), kind: s.N(5), real: r})
		}
		for _, k := range sortedKeys(keys) {
			if _, exists := props[k]; nils && !exists && s.Pct(30) {
				set(k, &wrapped{real: r})
			}
		}
	}
	for _, id := range sortedIDs(r.node) {
		n := r.node[id]
		wrap(nodeKeys, n.ForEachProperty, n.SetProperty)
	}
	for _, id := range sortedIDs(r.edge) {
		e := r.edge[id]
		wrap(edgeKeys, e.ForEachProperty, e.SetProperty)
	}
}

func sortedIDs[T any](m map[int]T) []int {
	ids := []int{}
	for k := range m {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	return ids
}

// transforms are filters for the written properties, which keep their types
var transforms = []func(string, V) V{
	func(k string, v V) V { return v },
	func(k string, v V) V {
		switch x := v.(type) {
		case int:
			if x > 1000 || x < -1000 {
				return 0
			}
			return x*3 + len(k)
		case string:
			if len(x) > 20 {
				return "long"
			}
			return x + "/" + k
		case bool:
			return !x
		case float64:
			return x / 2
		case List:
			if len(x) > 10 {
				return List{}
			}
			return append(append(List{}, x...), len(x))
		}
		return v
	},
	func(k string, v V) V {
		// by the key only
		if _, isInt := v.(int); isInt && k == "k" {
			return 1
		}
		if _, isString := v.(string); isString {
			return "x"
		}
		return v
	},
}

func filterCase(t *T) error {
	o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 60}
	g := genGraph(t.Src, o)
	q := newQGen(t.Src, g)
	q.gen.pNull = 8
	// the graph library does not find wrapped values by a pattern
	wrap := t.Pct(35)
	mode := t.N(len(transforms))
	var query *Query
	if wrap {
		mode = 0
		q.noProps = true
		if t.Pct(40) {
			query = q.readQuery()
		} else {
			s := Single{Reads: q.updateReads()}
			for i, n := 0, 1+t.N(2); i < n; i++ {
				if len(q.nodes) > 0 && t.Pct(70) {
					s.Updates = append(s.Updates, q.setClause())
				} else {
					s.Updates = append(s.Updates, q.createClause(0))
				}
			}
			if len(q.nodes) == 0 {
				return errDiscard
			}
			s.Ret = q.showState()
			query = one(s)
		}
		found := false
		query.mapExprs(func(e *E) *E { return e })
		for _, p := range query.Parts {
			for _, m := range p.Reads {
				for _, x := range m.Pats {
					for _, n := range x.Nodes {
						found = found || n.Props != nil
					}
					for _, r := range x.Rels {
						found = found || r.Props != nil
					}
				}
			}
		}
		if found {
			return errDiscard
		}
	} else if t.Pct(15) {
		query = q.readQuery()
	} else {
		query = q.updateQuery()
	}
	text := anyText(t.Src, query.marked())
	ev, err := mustParse(t, text)
	if err != nil {
		return err
	}
	for i := 0; i < 5; i++ {
		gi := g
		if i > 0 {
			gi = mutate(t.Src, g)
		}
		env := withGraph(q.bindEnv(), gi)
		logGraph(t, fmt.Sprintf("graph %d", i), gi)
		t.Logf("filter %d, wrapped: %v, with %s", mode, wrap, showEnv(env))
		var wantCalls, gotCalls []string
		x, want := predict(query, gi, env, func(k string, v V) V {
			wantCalls = append(wantCalls, k+"="+show(v))
			return transforms[mode](k, v)
		})
		if want.tooLarge(query) {
			continue
		}
		gr := build(gi, buildOpts(t.Src, gi))
		if gr.indexed && wrap {
			gr = build(gi, BuildOpts{})
		}
		if wrap {
			wrapAll(t.Src, gr, !query.updates() && t.Bool())
		}
		kind := t.N(5)
		filter := func(k string, in interface{}) interface{} {
			v := fromNative(in, gr)
			gotCalls = append(gotCalls, k+"="+show(v))
			w := transforms[mode](k, v)
			if wrap {
				return &wrapped{v: w, kind: kind, real: gr}
			}
			return native(w, gr)
		}
		ctx := oc.NewEvalContext(gr.g)
		ctx.PropertyValueFromNativeFilter = filter
		for n := t.Weighted(3, 1, 1); n > 0; n-- {
			ctx = ctx.SubContext()
		}
		setEnv(ctx, gr, env)
		r := &Run{Want: want, Exec: x, Real: gr, Model: x.G, Ctx: ctx}
		out, fail := evaluate(ev, ctx, gr)
		if fail != nil {
			return fail
		}
		r.Out = out
		if err := r.check(t, query, gi); err != nil {
			return err
		}
		if !query.updates() && len(gotCalls) > 0 {
			return failf("a query that only reads calls the filter: %s", strings.Join(gotCalls, ", "))
		}
		if !r.Skipped && want.st == ok {
			sort.Strings(wantCalls)
			sort.Strings(gotCalls)
			if a, b := strings.Join(gotCalls, ", "), strings.Join(wantCalls, ", "); a != b {
				return failf("the filter is called with %s, expected %s", a, b)
			}
			if wrap {
				if err := allWrapped(gr); err != nil {
					return err
				}
			}
		}
		t.Eval(!r.Skipped && (len(wantCalls) > 0 || (wrap && hasRows(r))), text, mode, graphKey(gi, env))
	}
	return nil
}

func allWrapped(gr *Real) error {
	var err error
	check := func(k string, v interface{}) bool {
		if _, isWrapped := v.(*wrapped); !isWrapped && err == nil {
			err = failf("the property %s is stored as %T %v instead of what the filter returns", k, v, v)
		}
		return true
	}
	for _, id := range sortedIDs(gr.node) {
		gr.node[id].ForEachProperty(check)
	}
	for _, id := range sortedIDs(gr.edge) {
		gr.edge[id].ForEachProperty(check)
	}
	return err
}

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "updating and reading queries on random graphs, in contexts and subcontexts with a filter that records its calls and keeps, transforms, or wraps the values (wrapped properties provide native values of several Go types, or nil, and the graph has such properties from the start); results, new states and the calls of the filter compared to the reference interpreter, which applies the same filter; non-trivial: properties are written, or rows with wrapped properties are returned",
		Run:  filterCase,
	})
}

// ---------------------------------------------------------------- C30

// regFunc is a function registered by a case
type regFunc struct {
	name     string // as registered
	text     string // as written in queries
	min, max int
	kind     int // what it does
	byValue  bool
	calls    []string
}

var errRegistered = errors.New("the registered function fails")

// result is what the function returns
func (f *regFunc) result(args []V, get func(name string) (V, bool)) R {
	switch f.kind {
	case 0: // the list of arguments
		return val(append(List{}, args...))
	case 1: // the number of arguments
		return val(len(args))
	case 2: // the last argument, or null
		if len(args) == 0 {
			return val(nil)
		}
		return val(args[len(args)-1])
	case 3: // fails if the first argument is null, an odd number, or missing
		if len(args) == 0 || args[0] == nil {
			return R{st: bad}
		}
		if n, isInt := args[0].(int); isInt && n%2 != 0 {
			return R{st: bad}
		}
		return val(args[0])
	case 4: // reads a parameter of the context
		v, known := get("$ctx")
		if !known {
			return val("unknown")
		}
		return val(List{v, len(args)})
	}
	return val("done")
}

func (f *regFunc) register(gr func() *Real) {
	fun := oc.Function{Name: f.name, MinArgs: f.min, MaxArgs: f.max}
	run := func(ctx *oc.EvalContext, args []V) (oc.Value, error) {
		f.calls = append(f.calls, show(List(args)))
		r := f.result(args, func(name string) (V, bool) {
			v, err := ctx.GetParameter(name)
			if err != nil {
				return nil, false
			}
			return fromOC(v, gr()), true
		})
		if r.st == bad {
			return nil, errRegistered
		}
		return toValue(r.v, gr()), nil
	}
	if f.byValue {
		fun.ValueFunc = func(ctx *oc.EvalContext, args []oc.Value) (oc.Value, error) {
			vs := []V{}
			for _, a := range args {
				vs = append(vs, fromOC(a, gr()))
			}
			return run(ctx, vs)
		}
	} else {
		fun.Func = func(ctx *oc.EvalContext, args []oc.Evaluatable) (oc.Value, error) {
			vs := []V{}
			for _, a := range args {
				v, err := a.Evaluate(ctx)
				if err != nil {
					return nil, err
				}
				vs = append(vs, fromOC(v, gr()))
			}
			return run(ctx, vs)
		}
	}
	oc.RegisterGlobalFunc(fun)
}

var funcNames = []string{"f", "fun1", "myFunc", "my_func", "ns.f", "a.b.c", "x.f", "été", "`odd name`", "`a``b`", "ns.`q r`", "count2", "F", "Fun1", "any", "none", "filter", "single", "extract"}

func registeredCase(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 4, Density: 70})
	q := newQGen(t.Src, g)
	gen := q.gen
	for _, k := range []string{"arith", "list", "str"} {
		gen.on[k] = true
	}
	gen.noProps = true
	var gr *Real
	fs := []*regFunc{}
	used := map[string]bool{}
	for i, n := 0, 1+t.N(3); i < n; i++ {
		f := &regFunc{text: pickFrom(t.Src, funcNames), kind: t.Weighted(4, 2, 2, 1, 1), byValue: t.Bool()}
		switch f.text {
		case "any", "none", "filter", "single", "extract":
			// words of the language: a function only in a name space
			f.text = "my." + f.text
		}
		f.name = strings.NewReplacer("``", "`", "`", "").Replace(f.text)
		if f.text == "`a``b`" {
			f.name = "a`b"
		}
		if used[f.name] {
			continue
		}
		used[f.name] = true
		f.min = t.Weighted(3, 4, 3, 1)
		f.max = f.min + t.N(4)
		if t.Pct(25) {
			f.max = -1
		}
		t.Logf("function %q with %d to %d arguments, kind %d, values: %v", f.name, f.min, f.max, f.kind, f.byValue)
		f.register(func() *Real { return gr })
		fs = append(fs, f)
	}
	perRow := t.Pct(60) && len(g.Nodes) > 0
	wrong, unknown := false, false
	var call func(d int) *E
	arg := func(d int) *E {
		switch {
		case d > 0 && t.Pct(25):
			return call(d - 1)
		case perRow && t.Pct(30):
			return prop(variable("n"), pick(t.Src, "k", "s", "j"))
		case perRow && t.Pct(10):
			return variable("n")
		case t.Pct(40):
			return lit(gen.value(pick(t.Src, "int", "str", "bool", "list:int")))
		case t.Pct(15):
			return lit(nil)
		}
		return gen.expr(pick(t.Src, "int", "str", "list:int"), t.N(2))
	}
	pWrong := 0
	switch t.Weighted(6, 2, 1) {
	case 1:
		pWrong = 40
	case 2:
		unknown = true
	}
	call = func(d int) *E {
		f := pickFrom(t.Src, fs)
		n := f.min
		if f.max == -1 {
			n += t.N(4)
		} else {
			n += t.N(f.max - f.min + 1)
		}
		if t.Pct(pWrong) {
			switch {
			case f.min > 0 && t.Bool():
				n = t.N(f.min)
			case f.max >= 0:
				n = f.max + 1 + t.N(2)
			}
		}
		if n < f.min || (f.max >= 0 && n > f.max) {
			wrong = true
		}
		text := f.text
		if unknown && t.Pct(50) {
			text = pick(t.Src, "noSuchFunc", "no.such.func", f.text+"x", "zz."+f.text)
			if strings.Contains(text, "`x") {
				text = "noSuchFunc"
			}
		}
		c := fn(text)
		for i := 0; i < n; i++ {
			c.A = append(c.A, arg(d))
		}
		return c
	}
	_ = wrong
	items := []Item{}
	for i, n := 0, 1+t.N(2); i < n; i++ {
		e := call(2)
		switch t.Weighted(5, 2, 1, 1) {
		case 1:
			e = listOf(lit(1), e, call(1))
		case 2:
			e = &E{K: "map", Ops: []string{"a", "b"}, A: []*E{e, lit(2)}}
		case 3:
			e = unary(pick(t.Src, "isnull", "notnull"), e)
		}
		items = append(items, Item{E: e, Alias: fmt.Sprintf("c%d", i)})
	}
	s := Single{Ret: &Ret{Items: items}}
	if perRow {
		s.Reads = []Match{{Pats: []Path{{Nodes: []NodePat{{Var: "n"}}}}}}
	}
	query := one(s)
	text := anyText(t.Src, query.marked())
	ev, err := mustParse(t, text)
	if err != nil {
		return err
	}
	for i := 0; i < 4; i++ {
		gi := g
		if i > 0 && t.Pct(60) {
			gi = mutate(t.Src, g)
		}
		env := withGraph(q.bindEnv(), gi)
		if t.Pct(60) {
			env.Params["$ctx"] = t.Range(0, 9)
		}
		logGraph(t, fmt.Sprintf("graph %d", i), gi)
		t.Logf("with %s", showEnv(env))
		wantCalls := map[string][]string{}
		unspecified := false
		env.OnUnspec = func() { unspecified = true }
		env.Funcs = map[string]func([]V) R{}
		for _, f := range fs {
			f := f
			f.calls = nil
			env.Funcs[f.text] = func(args []V) R {
				if len(args) < f.min || (f.max >= 0 && len(args) > f.max) {
					return R{st: bad}
				}
				wantCalls[f.name] = append(wantCalls[f.name], show(List(args)))
				return f.result(args, func(name string) (V, bool) {
					v, known := env.Params[name]
					return v, known
				})
			}
		}
		x, want := predict(query, gi, env, nil)
		if want.tooLarge(query) {
			continue
		}
		gr = build(gi, BuildOpts{})
		r := &Run{Want: want, Exec: x, Real: gr, Model: x.G, Ctx: newContext(gr, env)}
		out, fail := evaluate(ev, r.Ctx, gr)
		if fail != nil {
			return fail
		}
		r.Out = out
		if err := r.check(t, query, gi); err != nil {
			return err
		}
		n := 0
		for _, f := range fs {
			n += len(f.calls)
			if want.st == unspec {
				continue
			}
			exact := want.st == ok
			got, expect := append([]string{}, f.calls...), wantCalls[f.name]
			sort.Strings(got)
			sort.Strings(expect)
			if exact && strings.Join(got, "\n") != strings.Join(expect, "\n") {
				return failf("%s is called with %s, expected %s", f.name, strings.Join(got, " "), strings.Join(expect, " "))
			}
			for _, c := range got {
				// also when the query fails: never with a wrong number of arguments
				found := false
				for _, e := range expect {
					found = found || e == c
				}
				if !found && (exact || !perRow && !unspecified) {
					return failf("%s is called with %s, expected %s", f.name, c, strings.Join(expect, " "))
				}
			}
		}
		t.Eval(want.st == bad || (want.st == ok && n > 0), text, graphKey(gi, env))
	}
	// the same name again
	if t.Pct(30) {
		f := pickFrom(t.Src, fs)
		n := &regFunc{name: f.name, text: f.text, min: 1, max: 1, kind: 5, byValue: !f.byValue}
		n.register(func() *Real { return gr })
		text := "RETURN " + f.text + "(1)"
		t.Logf("%q is registered again: %s", f.name, text)
		ev, err := mustParse(t, text)
		if err != nil {
			return err
		}
		out, fail := evaluate(ev, oc.NewEvalContext(lpg.NewGraph()), nil)
		if fail != nil {
			return fail
		}
		if err := checkSingle(out, val("done"), "1"); err != nil {
			return err
		}
		t.Eval(true, text, "again")
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C30",
		Rule: "one to three functions with plain, dotted, quoted and non-ASCII names and all bounds on their arguments, registered in either form, called with constant and varying arguments, nested, by queries with and without MATCH, sometimes with a wrong number of arguments or an unknown name; the arguments of every call, and results, compared to the reference interpreter; non-trivial: a function is called, or the call must be an error",
		Run:  registeredCase,
	})
}

// ---------------------------------------------------------------- C33

const boom = "verifboom"

var boomAt int

// boomErr is how the function fails
var boomErr error

// possibleErrors are values of error that mean something to the library,
// or to no one
var possibleErrors = []error{
	errRegistered, errRegistered, oc.ErrDivideByZero, oc.ErrInvalidUnaryOperation, oc.ErrInvalidPowerOperation, oc.ErrInvalidMultiplicativeOperation,
	oc.ErrInvalidDurationOperation, oc.ErrOperationWithNull, oc.ErrInvalidStringOperation, oc.ErrInvalidDateOperation, oc.ErrInvalidAdditiveOperation,
	oc.ErrInvalidComparison, oc.ErrInvalidListIndex, oc.ErrNotAList, oc.ErrNotABooleanExpression, oc.ErrMapKeyNotString, oc.ErrInvalidMapKey,
	oc.ErrNotAStringSet, oc.ErrIntValueRequired, oc.ErrStringValueRequired, oc.ErrExpectingResultSet, oc.ErrPropertiesParameterExpected,
	oc.ErrPropertiesExpected, oc.ErrNotAnLValue, oc.ErrRowsHaveDifferentSizes, oc.ErrIncompatibleCells,
	oc.ErrUnknownVariable{Name: "x"}, oc.ErrUnknownFunction{Name: "x"}, oc.ErrUnknownParameter{Key: "$x"}, oc.ErrUnsupported("x"), oc.ErrInvalidAssignment("x"),
	oc.ErrSyntax("x"), io.EOF,
}

func init() {
	oc.RegisterGlobalFunc(oc.Function{Name: boom, MinArgs: 2, MaxArgs: 2, ValueFunc: func(_ *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		if args[0].Get() == boomAt {
			return nil, boomErr
		}
		return oc.RValue{Value: args[1].Get()}, nil
	}})
}

// mine wraps subexpressions in calls that can be made to fail
type miner struct {
	*Src
	n   int
	max int
	p   int
}

func (m *miner) wrap(e *E) *E {
	if m.n >= m.max || !m.Pct(m.p) {
		return e
	}
	m.n++
	return fn(boom, lit(m.n), e)
}

// mine wraps parts of an expression
func (m *miner) mine(e *E) *E {
	if e == nil || e.K == "setlabels" {
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, m.mine(a))
	}
	return m.wrap(&c)
}

// inner wraps parts of an expression, but not all of it
func (m *miner) inner(e *E) *E {
	if e == nil || e.K == "param" {
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, m.mine(a))
	}
	return &c
}

func (q *Query) mined(m *miner) *Query {
	c := q.mapExprs(func(e *E) *E {
		if e == nil || e.K == "map" || e.K == "param" || e.K == "setlabels" {
			return m.inner(e)
		}
		return m.mine(e)
	})
	return c
}

func errorCase(t *T) error {
	o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 65}
	g := genGraph(t.Src, o)
	q := newQGen(t.Src, g)
	q.gen.pNull = 6
	for _, k := range []string{"arith", "list", "str", "cmp", "bool", "null", "func", "case"} {
		q.gen.on[k] = true
	}
	var query *Query
	switch t.Weighted(8, 6, 6, 1) {
	case 0:
		// one expression
		e := q.gen.expr(pick(t.Src, "int", "bool", "str", "list:int", "map", "num"), t.Range(1, 3))
		if len(q.gen.props) > 0 || strings.Contains(plain(e.text(0)), "n.") {
			e = e.clearProps()
		}
		query = one(Single{Ret: &Ret{Items: []Item{{E: e, Alias: "r"}}}})
		if t.Pct(40) {
			return failingOperation(t, q, e)
		}
	case 1:
		query = q.readQuery()
	case 2:
		query = q.updateQuery()
	case 3:
		// sort keys that cannot be compared, after some that are equal
		query = one(Single{Reads: q.simpleReads(), Ret: &Ret{Items: q.retItems(2)}})
		r := query.Parts[0].Ret
		if t.Bool() {
			q.orderBy(r)
			r.Order = r.Order[:1]
		} else if t.Pct(70) {
			r.Order = append(r.Order, OrderItem{E: lit(1)})
		}
		c := q.propLeaf(pick(t.Src, "int", "str"))
		if c == nil {
			return errDiscard
		}
		r.Order = append(r.Order, OrderItem{E: &E{K: "case", G: true, A: []*E{unary("isnull", c), lit(smallValue(t.Src, "int")), lit(smallValue(t.Src, "str"))}}})
		if t.Pct(30) {
			q.orderBy(r)
		}
	}
	if t.Pct(12) {
		q.notAMap(query)
	}
	m := &miner{Src: t.Src, max: 14, p: 45}
	mined := query.mined(m)
	if m.n == 0 {
		return errDiscard
	}
	text := mined.text()
	ev, err := mustParse(t, text)
	if err != nil {
		return err
	}
	graphs := 2
	for gi := 0; gi < graphs; gi++ {
		g1 := g
		if gi > 0 {
			g1 = mutate(t.Src, g)
		}
		env := withGraph(q.bindEnv(), g1)
		opts := buildOpts(t.Src, g1)
		logGraph(t, fmt.Sprintf("graph %d", gi), g1)
		for i := 0; i <= m.n; i++ {
			boomAt, boomErr = i, pickFrom(t.Src, possibleErrors)
			env.Funcs = map[string]func([]V) R{boom: func(args []V) R {
				if args[0] == i {
					return R{st: bad}
				}
				return val(args[1])
			}}
			t.Logf("  failing: %d (%T %v)", i, boomErr, boomErr)
			r, err := runQuery(t, ev, mined, g1, env, opts)
			if err != nil {
				return err
			}
			if r.Skipped {
				t.Eval(false, text, i, graphKey(g1, env))
				continue
			}
			t.Eval(i > 0 && r.Want.st == bad, text, i, graphKey(g1, env))
		}
	}
	return nil
}

// patternProps lists the places for the properties of patterns
func (query *Query) patternProps() []**E {
	sites := []**E{}
	for i := range query.Parts {
		s := &query.Parts[i]
		pats := []Path{}
		for _, m := range s.Reads {
			pats = append(pats, m.Pats...)
		}
		for _, u := range s.Updates {
			pats = append(pats, u.Pats...)
		}
		for _, p := range pats {
			for j := range p.Nodes {
				if len(p.Nodes[j].Labels) > 0 || p.Nodes[j].Props != nil {
					sites = append(sites, &p.Nodes[j].Props)
				}
			}
			for j := range p.Rels {
				sites = append(sites, &p.Rels[j].Props)
			}
		}
	}
	return sites
}

// notAMap gives a pattern a parameter that does not hold properties
func (q *QGen) notAMap(query *Query) {
	if sites := query.patternProps(); len(sites) > 0 {
		*pickFrom(q.Src, sites) = q.paramFor(pick[V](q.Src, nil, nil, 1, "x", List{}, List{Map{"k": 1}}, true, 2.5))
	}
}

// failing makes an operation that fails
func (q *QGen) failing() *E {
	arg := func(vs ...V) *E {
		v := pickFrom(q.Src, vs)
		if !hasLiteral(v) || q.Pct(60) {
			return q.paramFor(v)
		}
		return lit(v)
	}
	num, str := arg(1, -7, 2.5), arg("a", "", "xyz")
	list := arg(List{1, 2}, List{"a"}, List{})
	other := arg(List{1}, Map{"a": 1}, DateV{18000})
	switch q.N(22) {
	case 0:
		return bin(pick(q.Src, "/", "%"), arg(1, 0, 100), lit(0))
	case 1:
		return bin(pick(q.Src, "-", "*", "/", "%", "^"), num, str)
	case 2:
		return bin(pick(q.Src, "-", "*", "/", "%", "^"), other, num)
	case 3:
		return cmp(pick(q.Src, "=", "<>", "<", ">", "<=", ">="), num, str)
	case 4:
		return cmp(pick(q.Src, "=", "<", ">="), arg(true, false), num)
	case 5:
		return &E{K: "in", A: []*E{num, listOf(arg("b", "c"))}}
	case 6:
		return &E{K: "in", A: []*E{num, listOf(lit(nil), arg("b"), lit(nil))}}
	case 7:
		return &E{K: "in", A: []*E{num, arg("a", 4, Map{})}}
	case 8:
		return &E{K: pick(q.Src, "starts", "ends", "contains"), A: []*E{num, str}}
	case 9:
		return &E{K: pick(q.Src, "starts", "ends", "contains"), A: []*E{str, num}}
	case 10:
		return &E{K: "index", A: []*E{list, str}}
	case 11:
		return &E{K: "index", A: []*E{num, lit(0)}}
	case 12:
		return unary("not", arg(1, "a", List{}))
	case 13:
		return unary("neg", arg("a", true, List{1}))
	case 14:
		return &E{K: pick(q.Src, "and", "xor"), A: []*E{arg(true), arg(1, "a")}}
	case 15:
		return &E{K: "or", A: []*E{arg(false), arg(1, "a")}}
	case 16:
		return fn(pick(q.Src, "toInteger", "toFloat"), arg("x", "", List{}))
	case 17:
		return fn(pick(q.Src, "trim", "ltrim", "rtrim"), num)
	case 18:
		return fn(pick(q.Src, "left", "right", "substring"), str, arg(-1, "a"))
	case 19:
		return fn("range", num, str)
	case 20:
		return fn(pick(q.Src, "date", "labels", "type", "nosuchfunction"), arg("x", 3))
	}
	return param("missing")
}

// replaceAt replaces one part of an expression
func (e *E) replaceAt(n *int, with *E) *E {
	if e == nil {
		return nil
	}
	*n--
	if *n == -1 {
		return with
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, a.replaceAt(n, with))
	}
	return &c
}

// failingOperation checks an expression of which one operand is an
// operation that fails
func failingOperation(t *T, q *QGen, e *E) error {
	bad := q.failing()
	n := t.N(e.size())
	e = e.replaceAt(&n, bad)
	if t.Pct(10) {
		e = bad
	}
	text := anyText(t.Src, kw("RETURN")+mSP+e.text(0))
	t.Logf("query: %s", text)
	ev, perr, fail := parse(text)
	if fail != nil {
		return fail
	}
	if perr != nil {
		return failf("the query is rejected: %v", perr)
	}
	for i := 0; i < 3; i++ {
		env := q.bindEnv()
		if env.G == nil {
			env.G = newMGraph()
		}
		want := e.eval(env)
		gr := build(env.G, BuildOpts{})
		out, fail := evaluate(ev, newContext(gr, env), gr)
		if fail != nil {
			return fail
		}
		t.Logf("  with %s: %s (expected %s)", showEnv(env), out, showR(want))
		t.Eval(want.st == rErr.st, text, showEnv(env))
		if err := checkSingle(out, want, "1"); err != nil {
			return err
		}
	}
	return nil
}

// clearProps replaces the properties of n, which is not bound
func (e *E) clearProps() *E {
	if e == nil {
		return nil
	}
	if e.K == "prop" {
		return lit(nil)
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, a.clearProps())
	}
	return &c
}

func init() {
	register(&Prop{
		ID:   "C33",
		Rule: "expressions, reading and updating queries whose subexpressions are wrapped, at up to 14 positions of any depth and in any clause, in calls of a function that fails for one position at a time; outcome and state for each failing position compared to the reference interpreter; non-trivial: the failing position must be evaluated, so that the query must fail",
		Run:  errorCase,
	})
}
