package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C32

// identical is the specification of the identity of values
func identical(a, b V) bool {
	num := func(v V) bool { return isNum(v) }
	if num(a) && num(b) {
		x, xi := a.(int)
		y, yi := b.(int)
		if xi && yi {
			return x == y
		}
		return asFloat(a) == asFloat(b)
	}
	switch x := a.(type) {
	case List:
		y, isList := b.(List)
		if !isList || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case Map:
		y, isMap := b.(Map)
		if !isMap || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, exists := y[k]
			if !exists || !identical(x[k], z) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case List, Map:
		return false
	}
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) && show(a) == show(b)
}

// LabelsV is a set of strings
type LabelsV struct{ Labels string }

// apiValue makes a value of any documented type
func apiValue(t *T, gen *Gen, g *MGraph, d int) V {
	k := t.Weighted(3, 6, 4, 3, 5, 2, 2, 2, 2, 3, 3, 2, 4, 4)
	if d <= 0 && k >= 12 {
		k = t.N(9)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return gen.intVal()
	case 2:
		f := gen.floatVal(t.Pct(20))
		if math.IsNaN(f) {
			return 1.0
		}
		return f
	case 3:
		return t.Bool()
	case 4:
		return gen.strVal()
	case 5:
		return gen.dateVal()
	case 6:
		return gen.timeVal()
	case 7:
		return gen.value("dt")
	case 8:
		return gen.durVal()
	case 9:
		if len(g.Nodes) > 0 {
			return NodeV{pickFrom(t.Src, g.nodeIDs())}
		}
		return nil
	case 10:
		if ids := g.edgeIDs(); len(ids) > 0 {
			p := []int{pickFrom(t.Src, ids)}
			// further edges that continue it
			for i := t.N(3); i > 0; i-- {
				for _, e := range ids {
					if g.Edges[e].From == g.Edges[p[len(p)-1]].To && t.Bool() {
						p = append(p, e)
						break
					}
				}
			}
			return mkPath(p...)
		}
		return true
	case 11:
		ls := []string{}
		for _, l := range labelPool {
			if t.Bool() {
				ls = append(ls, l)
			}
		}
		return LabelsV{strings.Join(ls, ",")}
	case 12:
		l := List{}
		for i, n := 0, t.N(4); i < n; i++ {
			l = append(l, apiValue(t, gen, g, d-1))
		}
		return l
	}
	m := Map{}
	for i, n := 0, t.N(4); i < n; i++ {
		m[pick(t.Src, "a", "b", "c", "")] = apiValue(t, gen, g, d-1)
	}
	return m
}

// variant changes one thing in a value, or nothing
func variant(t *T, gen *Gen, g *MGraph, v V) V {
	switch x := v.(type) {
	case int:
		switch t.N(4) {
		case 0:
			return float64(x)
		case 1:
			return x + 1
		case 2:
			return strconv.Itoa(x)
		}
	case float64:
		switch t.N(4) {
		case 0:
			if fits(x) && x == math.Trunc(x) {
				return int(x)
			}
		case 1:
			return math.Nextafter(x, 0)
		case 2:
			return -x
		}
	case string:
		switch t.N(4) {
		case 0:
			return x + "a"
		case 1:
			return strings.ToUpper(x)
		case 2:
			return List{x}
		}
	case LabelsV:
		if t.Pct(30) {
			return LabelsV{"A"}
		}
		if t.Pct(30) {
			l := List{}
			for _, s := range strings.Split(x.Labels, ",") {
				l = append(l, s)
			}
			return l
		}
	case Dur:
		switch t.N(7) {
		case 4:
			// as long, but not the same
			x.Months++
			x.Days -= 30
		case 5:
			k := pick[int64](t.Src, -1, 1)
			x.Days += k
			x.Seconds -= k * 86400
		case 6:
			x.Seconds++
			x.Nanos -= 1000000000
		case 0:
			x.Months++
		case 1:
			x.Days--
		case 2:
			x.Seconds++
		case 3:
			x.Nanos++
		}
		return x
	case PathV:
		l := append([]int{}, x.list()...)
		if len(l) > 1 && t.Bool() {
			return mkPath(l[:len(l)-1]...)
		}
		if len(l) > 1 && t.Bool() {
			return mkPath(l[1:]...)
		}
	case List:
		y := append(List{}, x...)
		if len(y) == 0 {
			break
		}
		i := t.N(len(y))
		switch t.N(5) {
		case 0:
			y[i] = variant(t, gen, g, y[i])
		case 1:
			y = append(y[:i], y[i+1:]...)
		case 2:
			y = append(y, y[i])
		case 3:
			j := t.N(len(y))
			y[i], y[j] = y[j], y[i]
		}
		return y
	case Map:
		y := Map{}
		for k, e := range x {
			y[k] = e
		}
		ks := sortedKeys(y)
		if len(ks) == 0 {
			break
		}
		k := pickFrom(t.Src, ks)
		switch t.N(4) {
		case 0:
			y[k] = variant(t, gen, g, y[k])
		case 1:
			delete(y, k)
		case 2:
			e := y[k]
			delete(y, k)
			y[k+"x"] = e
		}
		return y
	}
	if t.Pct(25) {
		return apiValue(t, gen, g, 1)
	}
	return v
}

func apiNative(v V, gr *Real) oc.Value {
	switch x := v.(type) {
	case LabelsV:
		s := lpg.NewStringSet()
		if x.Labels != "" {
			s = lpg.NewStringSet(strings.Split(x.Labels, ",")...)
		}
		return oc.RValue{Value: s}
	case List:
		arr := make([]oc.Value, 0, len(x))
		for _, e := range x {
			arr = append(arr, apiNative(e, gr))
		}
		return oc.RValue{Value: arr}
	case Map:
		m := make(map[string]oc.Value)
		for k, e := range x {
			m[k] = apiNative(e, gr)
		}
		return oc.RValue{Value: m}
	}
	return toValue(v, gr)
}

func apiShow(v V) string {
	switch x := v.(type) {
	case LabelsV:
		return "labels(" + x.Labels + ")"
	case List:
		s := []string{}
		for _, e := range x {
			s = append(s, apiShow(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case Map:
		s := []string{}
		for _, k := range sortedKeys(x) {
			s = append(s, k+": "+apiShow(x[k]))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return show(v)
}

func identityCase(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 6, Density: 20})
	gr := build(g, BuildOpts{})
	gen := newGen(t.Src)
	gen.big = true
	var vs []V
	for i, n := 0, 2+t.N(5); i < n; i++ {
		if len(vs) > 0 && t.Pct(60) {
			vs = append(vs, variant(t, gen, g, pickFrom(t.Src, vs)))
		} else {
			vs = append(vs, apiValue(t, gen, g, 3))
		}
	}
	for _, v := range vs {
		t.Logf("value: %s", apiShow(v))
	}
	for i, a := range vs {
		for j, b := range vs {
			va, vb := apiNative(a, gr), apiNative(b, gr)
			if t.Pct(10) {
				va = oc.NewLValue(va)
			}
			if da, isDur := va.Get().(oc.Duration); isDur {
				if db, isDur := vb.Get().(oc.Duration); isDur && da.Equal(db) != identical(a, b) {
					return failf("%s and %s are equal: %v", apiShow(a), apiShow(b), da.Equal(db))
				}
			}
			got, want := oc.IsValueSame(va, vb), identical(a, b)
			if got != want {
				return failf("IsValueSame(%s, %s) is %v, expected %v", apiShow(a), apiShow(b), got, want)
			}
			t.Eval(i != j && (want || fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)), "same", apiShow(a), apiShow(b))
		}
		// conversion of Go values
		if err := conversions(t, a, gr); err != nil {
			return err
		}
	}
	return nil
}

// conversions checks ValueOf and the ValueAs functions
func conversions(t *T, v V, gr *Real) error {
	var ins []interface{}
	n := apiNative(v, gr)
	ins = append(ins, n.Get(), n)
	if x, isInt := v.(int); isInt {
		if x == int(int8(x)) {
			ins = append(ins, int8(x))
		}
		if x == int(int16(x)) {
			ins = append(ins, int16(x))
		}
		if x == int(int32(x)) {
			ins = append(ins, int32(x))
		}
		ins = append(ins, int64(x))
		if x == int(uint8(x)) {
			ins = append(ins, uint8(x))
		}
		if x == int(uint16(x)) {
			ins = append(ins, uint16(x))
		}
		if x == int(uint32(x)) {
			ins = append(ins, uint32(x))
		}
	}
	if x, isFloat := v.(float64); isFloat && x == float64(float32(x)) {
		ins = append(ins, float32(x))
	}
	for _, in := range ins {
		got := oc.ValueOf(in)
		if got == nil {
			return failf("ValueOf(%T %v) is nil", in, in)
		}
		if !oc.IsValueSame(got, n) || fmt.Sprintf("%T", got.Get()) != fmt.Sprintf("%T", n.Get()) {
			return failf("ValueOf(%T %v) is %v", in, in, got)
		}
	}
	i, err := oc.ValueAsInt(n)
	x, isInt := v.(int)
	if (err == nil) != isInt || i != x {
		return failf("ValueAsInt(%s) is %d, %v", apiShow(v), i, err)
	}
	s, err := oc.ValueAsString(n)
	y, isString := v.(string)
	if (err == nil) != isString || s != y {
		return failf("ValueAsString(%s) is %q, %v", apiShow(v), s, err)
	}
	// an error in the second argument is returned, unless it is nil
	i, err = oc.ValueAsInt(n, nil)
	if (err == nil) != isInt || i != x {
		return failf("ValueAsInt(%s, nil) is %d, %v", apiShow(v), i, err)
	}
	s, err = oc.ValueAsString(n, nil)
	if (err == nil) != isString || s != y {
		return failf("ValueAsString(%s, nil) is %q, %v", apiShow(v), s, err)
	}
	cause := errors.New("cause")
	if _, err = oc.ValueAsInt(n, cause); err != cause {
		return failf("ValueAsInt(%s, error) returns the error %v", apiShow(v), err)
	}
	if _, err = oc.ValueAsString(n, cause); err != cause {
		return failf("ValueAsString(%s, error) returns the error %v", apiShow(v), err)
	}
	b, valid := oc.ValueAsBool(n)
	z, isBool := v.(bool)
	if valid != isBool || b != z {
		return failf("ValueAsBool(%s) is %v, %v", apiShow(v), b, valid)
	}
	primitive := false
	switch v.(type) {
	case int, float64, bool, string, Dur, DateV, TimeV, DateTimeV:
		primitive = true
	}
	if oc.IsValuePrimitive(n) != primitive {
		return failf("IsValuePrimitive(%s) is not %v", apiShow(v), primitive)
	}
	if oc.ValueOf(nil).Get() != nil {
		return failf("ValueOf(nil) is not null")
	}
	l := oc.NewLValue(n)
	if !oc.IsValueSame(l, n) {
		return failf("NewLValue(%s) is %v", apiShow(v), l.Get())
	}
	l.Set("changed")
	if l.Get() != "changed" || !oc.IsValueSame(oc.ValueOf(n), n) {
		return failf("setting an LValue does not work, or changes its source")
	}
	return nil
}

// table is the model of a result set
type table struct {
	cols []string
	rows []map[string]V
}

func genTable(t *T, cols []string, maxRows int, value func() V) table {
	tb := table{cols: cols}
	for i, n := 0, t.N(maxRows+1); i < n; i++ {
		r := map[string]V{}
		for _, c := range cols {
			r[c] = value()
		}
		tb.rows = append(tb.rows, r)
	}
	return tb
}

func (tb table) real(gr *Real) (*oc.ResultSet, []map[string]oc.Value, error) {
	rs := oc.NewResultSet()
	var rows []map[string]oc.Value
	for _, r := range tb.rows {
		row := map[string]oc.Value{}
		for k, v := range r {
			row[k] = apiNative(v, gr)
		}
		if err := rs.Append(row); err != nil {
			return nil, nil, failf("Append: %v", err)
		}
		rows = append(rows, row)
	}
	return rs, rows, nil
}

func showTable(rows []map[string]V) string {
	s := []string{}
	for _, r := range rows {
		s = append(s, apiShow(Map(r)))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func showReal(rows []map[string]oc.Value, gr *Real) string {
	s := []string{}
	for _, r := range rows {
		m := Map{}
		for k, v := range r {
			m[k] = backNative(v, gr)
		}
		s = append(s, apiShow(m))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// backNative is the reverse of apiNative
func backNative(v oc.Value, gr *Real) V {
	if v == nil {
		return Alien{"no value"}
	}
	switch x := v.Get().(type) {
	case lpg.StringSet:
		return LabelsV{strings.Join(x.SortedSlice(), ",")}
	case []oc.Value:
		l := List{}
		for _, e := range x {
			l = append(l, backNative(e, gr))
		}
		return l
	case map[string]oc.Value:
		m := Map{}
		for k, e := range x {
			m[k] = backNative(e, gr)
		}
		return m
	}
	return fromOC(v, gr)
}

func identicalRow(a, b map[string]V) bool { return identical(Map(a), Map(b)) }

func uniqueRows(rows ...map[string]V) []map[string]V {
	var out []map[string]V
	for _, r := range rows {
		dup := false
		for _, o := range out {
			dup = dup || identicalRow(r, o)
		}
		if !dup {
			out = append(out, r)
		}
	}
	return out
}

// members checks the nodes and edges of a result set
func members(rs *oc.ResultSet, gr *Real, nodes, edges map[int]bool) error {
	got := []string{}
	for it := rs.Nodes.Iterator(); it.Next(); {
		got = append(got, fmt.Sprint(gr.nodeID[it.Node()]))
	}
	want := []string{}
	for id := range nodes {
		want = append(want, fmt.Sprint(id))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return failf("the nodes of the result set are %v, expected %v", got, want)
	}
	got, want = []string{}, []string{}
	for it := rs.Edges.Iterator(); it.Next(); {
		got = append(got, fmt.Sprint(gr.edgeID[it.Edge()]))
	}
	for id := range edges {
		want = append(want, fmt.Sprint(id))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return failf("the edges of the result set are %v, expected %v", got, want)
	}
	return nil
}

func tableNodes(tbs ...table) map[int]bool {
	nodes := map[int]bool{}
	for _, tb := range tbs {
		for _, r := range tb.rows {
			for _, v := range r {
				if n, isNode := v.(NodeV); isNode {
					nodes[n.ID] = true
				}
			}
		}
	}
	return nodes
}

func tableCase(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 5, Density: 20})
	gr := build(g, BuildOpts{})
	gen := newGen(t.Src)
	// few values, so that there are equal rows
	var pool []V
	for i, n := 0, 1+t.N(4); i < n; i++ {
		if len(pool) > 0 && t.Pct(50) {
			pool = append(pool, variant(t, gen, g, pickFrom(t.Src, pool)))
		} else {
			pool = append(pool, apiValue(t, gen, g, 2))
		}
	}
	value := func() V { return pickFrom(t.Src, pool) }
	columns := func(prefix string, max int) []string {
		cols := []string{}
		for i, n := 0, t.N(max+1); i < n; i++ {
			cols = append(cols, fmt.Sprintf("%s%d", prefix, i))
		}
		return cols
	}
	cols := columns("c", 3)
	a, b := genTable(t, cols, 6, value), genTable(t, cols, 6, value)
	if t.Pct(20) && len(cols) > 0 {
		b = genTable(t, cols[:len(cols)-1], 4, value)
	}
	t.Logf("a = %s", showTable(a.rows))
	t.Logf("b = %s", showTable(b.rows))
	ra, rowsA, err := a.real(gr)
	if err != nil {
		return err
	}
	rb, _, err := b.real(gr)
	if err != nil {
		return err
	}
	check := func(what string, got []map[string]oc.Value, want []map[string]V) error {
		if x, y := showReal(got, gr), showTable(want); x != y {
			return failf("%s is %s, expected %s", what, x, y)
		}
		return nil
	}
	if err := check("the result of Append", ra.Rows, a.rows); err != nil {
		return err
	}
	if err := members(ra, gr, tableNodes(a), nil); err != nil {
		return err
	}
	nontrivial := len(a.rows) > 0 && len(cols) > 0
	t.Eval(nontrivial, "append", showTable(a.rows))
	// columns
	for _, c := range append([]string{"nope"}, cols...) {
		got := ra.Column(c)
		want := List{}
		for _, r := range a.rows {
			if v, exists := r[c]; exists {
				want = append(want, v)
			}
		}
		if x := apiShow(backNative(oc.RValue{Value: got}, gr)); x != apiShow(want) {
			return failf("column %s is %s, expected %s", c, x, apiShow(want))
		}
	}
	_ = ra.String()
	// Add
	sum, _, _ := a.real(gr)
	sum.Add(*rb)
	if err := check("Add", sum.Rows, append(append([]map[string]V{}, a.rows...), b.rows...)); err != nil {
		return err
	}
	if err := members(sum, gr, tableNodes(a, b), nil); err != nil {
		return err
	}
	if err := check("the source of Add", rb.Rows, b.rows); err != nil {
		return err
	}
	// Add of the nodes and edges of paths
	if ids := g.edgeIDs(); len(ids) > 0 {
		addPaths := func(withPath *oc.ResultSet, nodes, edges map[int]bool) {
			for i, n := 0, t.N(3); i < n; i++ {
				var start *lpg.Node
				if t.Bool() {
					id := pickFrom(t.Src, g.nodeIDs())
					start, nodes[id] = gr.node[id], true
				}
				var path []*lpg.Edge
				for j, m := 0, t.N(4); j < m; j++ {
					id := pickFrom(t.Src, ids)
					path = append(path, gr.edge[id])
					edges[id] = true
				}
				withPath.AddPath(start, path)
			}
		}
		pa, _, _ := a.real(gr)
		pb, _, _ := b.real(gr)
		na, ea, nb, eb := tableNodes(a), map[int]bool{}, tableNodes(b), map[int]bool{}
		addPaths(pa, na, ea)
		addPaths(pb, nb, eb)
		if err := members(pa, gr, na, ea); err != nil {
			return err
		}
		pa.Add(*pb)
		for id := range nb {
			na[id] = true
		}
		for id := range eb {
			ea[id] = true
		}
		if err := members(pa, gr, na, ea); err != nil {
			return err
		}
		if err := members(pb, gr, nb, eb); err != nil {
			return err
		}
		t.Eval(len(eb) > 0, "paths", fmt.Sprint(nb, eb, na, ea))
	}
	// Union
	all := t.Bool()
	un, _, _ := a.real(gr)
	if err := un.Union(*rb, all); err != nil {
		return failf("Union: %v", err)
	}
	want := append(append([]map[string]V{}, a.rows...), b.rows...)
	if !all {
		want = uniqueRows(want...)
	}
	if err := check(fmt.Sprintf("Union (all: %v)", all), un.Rows, want); err != nil {
		return err
	}
	if err := members(un, gr, tableNodes(a, b), nil); err != nil {
		return err
	}
	if !all {
		if err := un.Union(*rb, false); err != nil {
			return failf("Union: %v", err)
		}
		if err := check("a repeated Union", un.Rows, want); err != nil {
			return err
		}
	}
	if err := check("the source of Union", rb.Rows, b.rows); err != nil {
		return err
	}
	t.Eval(nontrivial && len(b.rows) > 0, "union", all, showTable(a.rows), showTable(b.rows))
	// the product of the columns of one table
	if len(a.rows) > 0 {
		n := 1
		for range cols {
			n *= len(a.rows)
		}
		stop := n + 1
		if t.Pct(25) {
			stop = 1 + t.N(n)
		}
		seen := map[string]int{}
		calls := 0
		done := ra.CartesianProduct(func(row map[string]oc.Value) bool {
			calls++
			seen[showReal([]map[string]oc.Value{row}, gr)]++
			return calls < stop && calls <= n
		})
		if calls > n {
			return failf("CartesianProduct calls its function more than %d times", n)
		}
		if stop <= n {
			if calls != stop || done {
				return failf("CartesianProduct returns %v after %d calls, expected false after %d", done, calls, stop)
			}
		} else {
			if calls != n || !done {
				return failf("CartesianProduct returns %v after %d calls, expected true after %d", done, calls, n)
			}
			wanted := map[string]int{}
			at := make([]int, len(cols))
			for k := 0; k < n; k++ {
				r := map[string]V{}
				x := k
				for i, c := range cols {
					at[i] = x % len(a.rows)
					x /= len(a.rows)
					r[c] = a.rows[at[i]][c]
				}
				wanted[showTable([]map[string]V{r})]++
			}
			if fmt.Sprint(seen) != fmt.Sprint(wanted) {
				return failf("CartesianProduct enumerates %v, expected %v", seen, wanted)
			}
		}
		t.Eval(n > 1, "columns", stop, showTable(a.rows))
	} else if !ra.CartesianProduct(func(map[string]oc.Value) bool { return false }) {
		return failf("CartesianProduct of no rows is stopped")
	}
	// the product of several tables
	var tbs []table
	var rss []oc.ResultSet
	for i, n := 0, t.N(4); i < n; i++ {
		tb := genTable(t, columns(string(rune('x'+i)), 2), 3, value)
		rs, _, _ := tb.real(gr)
		tbs = append(tbs, tb)
		rss = append(rss, *rs)
		t.Logf("table %d = %s", i, showTable(tb.rows))
	}
	outer := t.Bool()
	rows := []map[string]V{{}}
	for _, tb := range tbs {
		var next []map[string]V
		for _, r := range rows {
			for _, x := range tb.rows {
				m := map[string]V{}
				for k, v := range r {
					m[k] = v
				}
				for k, v := range x {
					m[k] = v
				}
				next = append(next, m)
			}
			if len(tb.rows) == 0 && outer {
				next = append(next, r)
			}
		}
		rows = next
	}
	drop := ""
	if len(rows) > 0 && t.Pct(30) {
		drop = showTable([]map[string]V{pickFrom(t.Src, rows)})
	}
	calls := 0
	prod := oc.CartesianProduct(rss, outer, func(row map[string]oc.Value) bool {
		calls++
		if calls > len(rows)+1 {
			panic("CartesianProduct does not end")
		}
		return showReal([]map[string]oc.Value{row}, gr) != drop
	})
	got, wantRows := []string{}, []string{}
	for _, r := range prod.Rows {
		got = append(got, showReal([]map[string]oc.Value{r}, gr))
	}
	for _, r := range rows {
		if s := showTable([]map[string]V{r}); s != drop {
			wantRows = append(wantRows, s)
		}
	}
	sort.Strings(got)
	sort.Strings(wantRows)
	if strings.Join(got, "\n") != strings.Join(wantRows, "\n") {
		return failf("the product (all: %v) is %s, expected %s", outer, strings.Join(got, " "), strings.Join(wantRows, " "))
	}
	t.Eval(len(rows) > 1, "tables", outer, drop, fmt.Sprint(wantRows))
	// what has been appended is not changed
	if x := showReal(rowsA, gr); x != showTable(a.rows) {
		return failf("the appended rows are now %s, they were %s", x, showTable(a.rows))
	}
	return nil
}

func init() {
	register(&Prop{
		ID:       "C32",
		Rule:     "pairs of values of all documented types (not NaN) nested to depth 3, half of them small variants of each other, compared by IsValueSame and by structural identity, with conversions from all Go types; and result sets of up to 6 rows and 3 columns from few values, on which Append, Add, Column, Union, and both cartesian products are compared to sequences of rows; non-trivial: the values are the same or of the same type, the result sets are not empty",
		MinCases: 1000,
		Run: func(t *T) error {
			if t.Bool() {
				return identityCase(t)
			}
			return tableCase(t)
		},
	})
}
