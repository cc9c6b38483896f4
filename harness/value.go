package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// V is a value of the reference interpreter: nil, bool, int, float64,
// string, List, Map, Dur, DateV, TimeV, DateTimeV, NodeV, PathV
type V interface{}

type List []V
type Map map[string]V

// Dur is a duration
type Dur struct {
	Months, Days, Seconds int64
	Nanos                 int64
}

// DateV is a calendar day, counted from 1970-01-01
type DateV struct{ Day int64 }

// TimeV is a time of the day in nanoseconds
type TimeV struct{ Nanos int64 }

// DateTimeV is a calendar day and the time of the day in nanoseconds
type DateTimeV struct {
	Day   int64
	Nanos int64
}

// NodeV is a node of the abstract graph
type NodeV struct{ ID int }

// PathV is a path of the abstract graph, as the list of its edges
type PathV struct{ Edges string }

func mkPath(edges ...int) PathV {
	parts := make([]string, 0, len(edges))
	for _, e := range edges {
		parts = append(parts, strconv.Itoa(e))
	}
	return PathV{strings.Join(parts, ",")}
}

func (p PathV) list() []int {
	if p.Edges == "" {
		return nil
	}
	ret := []int{}
	for _, x := range strings.Split(p.Edges, ",") {
		n, _ := strconv.Atoi(x)
		ret = append(ret, n)
	}
	return ret
}

// daysFromCivil is the number of days since 1970-01-01 in the proleptic
// Gregorian calendar
func daysFromCivil(y, m, d int64) int64 {
	// normalise the month
	m--
	y += floorDiv(m, 12)
	m = m - floorDiv(m, 12)*12
	m++
	if m <= 2 {
		y--
	}
	era := floorDiv(y, 400)
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func civilFromDays(z int64) (y, m, d int64) {
	z += 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

const dayNanos = int64(24 * time.Hour)

func (d DateV) goTime() time.Time {
	y, m, dd := civilFromDays(d.Day)
	return time.Date(int(y), time.Month(m), int(dd), 0, 0, 0, 0, time.UTC)
}

func (t TimeV) goTime() time.Time {
	return time.Date(2001, 3, 4, int(t.Nanos/int64(time.Hour)), int(t.Nanos/int64(time.Minute)%60), int(t.Nanos/int64(time.Second)%60), int(t.Nanos%int64(time.Second)), time.UTC)
}

func (t DateTimeV) goTime() time.Time {
	y, m, d := civilFromDays(t.Day)
	return time.Date(int(y), time.Month(m), int(d), int(t.Nanos/int64(time.Hour)), int(t.Nanos/int64(time.Minute)%60), int(t.Nanos/int64(time.Second)%60), int(t.Nanos%int64(time.Second)), time.UTC)
}

// exists is false for the wall clock times that are skipped in the local
// time zone, which a LocalDateTime cannot hold
func (t DateTimeV) exists() bool {
	at := t.goTime()
	l := time.Date(at.Year(), at.Month(), at.Day(), at.Hour(), at.Minute(), at.Second(), at.Nanosecond(), time.Local)
	return l.Day() == at.Day() && timeOfDay(l) == timeOfDay(at)
}

func timeOfDay(t time.Time) int64 {
	return int64(t.Hour())*int64(time.Hour) + int64(t.Minute())*int64(time.Minute) + int64(t.Second())*int64(time.Second) + int64(t.Nanosecond())
}

// native is the Go value the library uses for v. Nodes and paths are
// looked up in gr
const spareRoom = 3

var spare = oc.RValue{Value: "not part of the list"}

// spareIntact tells if nothing was written after the end of the lists that
// native has made
func spareIntact(v interface{}) bool {
	switch x := v.(type) {
	case oc.Value:
		return x == nil || spareIntact(x.Get())
	case []oc.Value:
		all := x[:cap(x)]
		for i, e := range all {
			if i < len(x) {
				if !spareIntact(e) {
					return false
				}
			} else if s, isR := e.(oc.RValue); !isR || s != spare {
				return false
			}
		}
	case map[string]oc.Value:
		for _, e := range x {
			if !spareIntact(e) {
				return false
			}
		}
	}
	return true
}

func native(v V, gr *Real) interface{} {
	switch x := v.(type) {
	case nil, bool, int, float64, string:
		return x
	case List:
		// There is room after the last element, which an implementation
		// that appends in place would use
		arr := make([]oc.Value, 0, len(x)+spareRoom)
		for _, e := range x {
			arr = append(arr, toValue(e, gr))
		}
		for i := len(arr); i < cap(arr); i++ {
			arr[:cap(arr)][i] = spare
		}
		return arr
	case Map:
		m := make(map[string]oc.Value)
		for k, e := range x {
			m[k] = toValue(e, gr)
		}
		return m
	case Dur:
		return oc.Duration{Months: x.Months, Days: x.Days, Seconds: x.Seconds, Nanos: int(x.Nanos)}
	case DateV:
		return oc.NewDate(x.goTime())
	case TimeV:
		return oc.NewLocalTime(x.goTime())
	case DateTimeV:
		return oc.NewLocalDateTime(x.goTime())
	case NodeV:
		return gr.node[x.ID]
	case PathV:
		p := &lpg.Path{}
		for _, e := range x.list() {
			p.Append(lpg.PathElement{Edge: gr.edge[e]})
		}
		return p
	}
	panic(fmt.Sprintf("no native value for %T", v))
}

func toValue(v V, gr *Real) oc.Value {
	n := native(v, gr)
	if n == nil {
		return oc.RValue{}
	}
	return oc.RValue{Value: n}
}

// Alien is a value of the library the reference interpreter has no
// counterpart for
type Alien struct{ Text string }

// fromNative converts a value of the library
func fromNative(in interface{}, gr *Real) V {
	switch x := in.(type) {
	case nil:
		return nil
	case bool, int, float64, string:
		return x
	case oc.Value:
		return fromNative(x.Get(), gr)
	case *wrapped:
		return x.v
	case []oc.Value:
		l := make(List, 0, len(x))
		for _, e := range x {
			l = append(l, fromOC(e, gr))
		}
		return l
	case map[string]oc.Value:
		m := Map{}
		for k, e := range x {
			m[k] = fromOC(e, gr)
		}
		return m
	case oc.Duration:
		return Dur{x.Months, x.Days, x.Seconds, int64(x.Nanos)}
	case oc.Date:
		t := x.Time()
		if timeOfDay(t) != 0 {
			return Alien{fmt.Sprint("date with a time: ", t)}
		}
		return DateV{daysFromCivil(int64(t.Year()), int64(t.Month()), int64(t.Day()))}
	case oc.LocalTime:
		return TimeV{timeOfDay(x.Time())}
	case oc.LocalDateTime:
		t := x.Time()
		return DateTimeV{daysFromCivil(int64(t.Year()), int64(t.Month()), int64(t.Day())), timeOfDay(t)}
	case lpg.StringSet:
		return Alien{fmt.Sprintf("set %q", x.SortedSlice())}
	case *lpg.Node:
		if gr != nil {
			if id, ok := gr.nodeID[x]; ok {
				return NodeV{id}
			}
		}
		return Alien{"unknown node"}
	case *lpg.Path:
		if gr == nil {
			return Alien{"path"}
		}
		ids := []int{}
		for i := 0; i < x.NumEdges(); i++ {
			id, ok := gr.edgeID[x.GetEdge(i)]
			if !ok {
				return Alien{"unknown edge"}
			}
			ids = append(ids, id)
		}
		return mkPath(ids...)
	}
	return Alien{fmt.Sprintf("%T %v", in, in)}
}

func fromOC(v oc.Value, gr *Real) V {
	if v == nil {
		return Alien{"no value"}
	}
	return fromNative(v.Get(), gr)
}

// same is identity of values: the same type and content. NaN is the same
// as NaN, 0.0 is not the same as -0.0
func same(a, b V) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		if !ok {
			return false
		}
		if math.IsNaN(x) || math.IsNaN(y) {
			return math.IsNaN(x) && math.IsNaN(y)
		}
		return math.Float64bits(x) == math.Float64bits(y)
	case List:
		y, ok := b.(List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Map:
		y, ok := b.(Map)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			e, ok := y[k]
			if !ok || !same(x[k], e) {
				return false
			}
		}
		return true
	case Alien:
		return false
	}
	return a == b
}

// show is a readable text of a value, the same for the same values
func show(v V) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case float64:
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if strings.IndexAny(s, ".eIN") == -1 {
			s += ".0"
		}
		return s
	case string:
		return strconv.Quote(x)
	case List:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, show(e))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case Map:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		parts := []string{}
		for _, k := range keys {
			parts = append(parts, strconv.Quote(k)+": "+show(x[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case Dur:
		return fmt.Sprintf("duration(%dM %dD %dS %dns)", x.Months, x.Days, x.Seconds, x.Nanos)
	case DateV:
		y, m, d := civilFromDays(x.Day)
		return fmt.Sprintf("date(%d-%d-%d)", y, m, d)
	case TimeV:
		return "time(" + x.goTime().Format("15:04:05.999999999") + ")"
	case DateTimeV:
		return "datetime(" + x.goTime().Format("2006-01-02T15:04:05.999999999") + ")"
	case NodeV:
		return fmt.Sprintf("node#%d", x.ID)
	case PathV:
		return fmt.Sprintf("path#%s", x.Edges)
	case Alien:
		return "?" + x.Text + "?"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func typeName(v V) string {
	switch v.(type) {
	case nil:
		return "null"
	case List:
		return "list"
	case Map:
		return "map"
	}
	return strings.ToLower(strings.TrimPrefix(fmt.Sprintf("%T", v), "main."))
}

func cloneMap(m map[string]V) map[string]V {
	r := make(map[string]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func sortedKeys[X any](m map[string]X) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// showRow is a readable text of a row
func showRow(r map[string]V) string {
	parts := []string{}
	for _, k := range sortedKeys(r) {
		parts = append(parts, k+"="+show(r[k]))
	}
	return strings.Join(parts, " ")
}
