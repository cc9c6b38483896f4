package main

import (
	"fmt"
	"strings"

	oc "github.com/cloudprivacylabs/opencypher"
)

// Outcome is what the library returned
type Outcome struct {
	Err  error
	RS   oc.ResultSet
	Rows []map[string]V
}

// parse parses a query and checks that it returns either a value or an
// error
func parse(q string) (oc.Evaluatable, error, error) {
	ev, err := oc.Parse(q)
	if err == nil && ev == nil {
		return nil, nil, failf("Parse returns neither a query nor an error for %q", q)
	}
	if err != nil && ev != nil {
		return nil, nil, failf("Parse returns both a query and an error for %q: %v", q, err)
	}
	return ev, err, nil
}

// evaluate evaluates a parsed query
func evaluate(ev oc.Evaluatable, ctx *oc.EvalContext, gr *Real) (Outcome, error) {
	v, err, fail := evaluateIndexed(ev, ctx, gr)
	if fail != nil {
		return Outcome{}, fail
	}
	if err != nil {
		if v != nil && v.Get() != nil {
			return Outcome{}, failf("evaluation returns both a value and an error: %v, %v", v.Get(), err)
		}
		return Outcome{Err: err}, nil
	}
	if v == nil {
		return Outcome{}, failf("evaluation returns neither a value nor an error")
	}
	rs, isRS := v.Get().(oc.ResultSet)
	if !isRS {
		return Outcome{}, failf("evaluation returns %T instead of a result set", v.Get())
	}
	for i, r := range rs.Rows {
		for k, c := range r {
			if c == nil {
				return Outcome{}, failf("row %d has no value in column %s", i, k)
			}
		}
	}
	out := Outcome{RS: rs}
	if gr != nil {
		gr.scan()
	}
	out.Rows = rowsOf(rs, gr)
	return out, nil
}

// evaluateIndexed evaluates a query. An index of the graph library cannot
// look up a value whose type differs from those it contains (known finding):
// such a case is not used
func evaluateIndexed(ev oc.Evaluatable, ctx *oc.EvalContext, gr *Real) (v oc.Value, err, fail error) {
	if gr != nil && gr.indexed {
		defer func() {
			if r := recover(); r != nil {
				if s, isString := r.(string); isString && strings.HasPrefix(s, "Incomparable values: ") && !strings.Contains(s, "<nil>") {
					fail = errDiscard
					return
				}
				panic(r)
			}
		}()
	}
	v, err = ev.Evaluate(ctx)
	return v, err, nil
}

// runText parses and evaluates a query
func runText(q string, ctx *oc.EvalContext, gr *Real) (Outcome, error) {
	ev, perr, fail := parse(q)
	if fail != nil {
		return Outcome{}, fail
	}
	if perr != nil {
		return Outcome{Err: perr}, nil
	}
	return evaluate(ev, ctx, gr)
}

func (o Outcome) String() string {
	if o.Err != nil {
		return "error: " + strings.Split(o.Err.Error(), ", input:")[0]
	}
	return showRows(o.Rows)
}

// newContext makes a context with parameters and variables
func newContext(gr *Real, env *Env) *oc.EvalContext {
	ctx := oc.NewEvalContext(gr.g)
	if env != nil {
		setEnv(ctx, gr, env)
	}
	return ctx
}

func setEnv(ctx *oc.EvalContext, gr *Real, env *Env) {
	for k, v := range env.Params {
		ctx.SetParameter(k, toValue(v, gr))
	}
	for k, v := range env.Vars {
		ctx.SetVar(k, toValue(v, gr))
	}
}

// checkSingle compares the outcome of `RETURN e` with what is expected
func checkSingle(out Outcome, want R, col string) error {
	switch want.st {
	case unspec:
		return nil
	case bad:
		if out.Err == nil {
			return failf("got %s, expected an error", out)
		}
		return nil
	}
	if out.Err != nil {
		return failf("got %s, expected %s", out, show(want.v))
	}
	if len(out.Rows) != 1 {
		return failf("got %d rows, expected one", len(out.Rows))
	}
	got, exists := out.Rows[0][col]
	if !exists || len(out.Rows[0]) != 1 {
		return failf("got %s, expected the single column %s", out, col)
	}
	if !same(got, want.v) {
		return failf("got %s, expected %s", show(got), show(want.v))
	}
	return nil
}

func showEnv(env *Env) string {
	parts := []string{}
	for _, k := range sortedKeys(env.Params) {
		parts = append(parts, k+"="+show(env.Params[k]))
	}
	for _, k := range sortedKeys(env.Vars) {
		parts = append(parts, k+"="+show(env.Vars[k]))
	}
	return strings.Join(parts, " ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}
