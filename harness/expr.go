package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// E is an expression
type E struct {
	K   string   // kind
	S   string   // name, operator, or spelling of a literal
	A   []*E     // operands
	Ops []string // operators of a comparison, keys of a map
	V   V        // value of a literal
	F   bool     // flag: CASE has a test, slice has a lower bound
	G   bool     // flag: CASE has ELSE, slice has an upper bound
}

func lit(v V) *E                      { return &E{K: "lit", V: v} }
func spelled(v V, text string) *E     { return &E{K: "lit", V: v, S: text} }
func param(name string) *E            { return &E{K: "param", S: "$" + name} }
func variable(name string) *E         { return &E{K: "var", S: name} }
func prop(base *E, key string) *E     { return &E{K: "prop", S: key, A: []*E{base}} }
func bin(op string, a, b *E) *E       { return &E{K: "bin", S: op, A: []*E{a, b}} }
func cmp(op string, a, b *E) *E       { return &E{K: "cmp", Ops: []string{op}, A: []*E{a, b}} }
func not(a *E) *E                     { return &E{K: "not", A: []*E{a}} }
func fn(name string, args ...*E) *E   { return &E{K: "func", S: name, A: args} }
func nary(kind string, args ...*E) *E { return &E{K: kind, A: args} }
func unary(kind string, a *E) *E      { return &E{K: kind, A: []*E{a}} }
func listOf(args ...*E) *E            { return &E{K: "list", A: args} }
func parens(a *E) *E                  { return &E{K: "paren", A: []*E{a}} }

// ---------------------------------------------------------------- text

// The text of a query is rendered with marks where the layout can vary
const (
	mSP  = "\x01" // white space required
	mOpt = "\x02" // white space allowed
	mKw  = "\x03" // begin of a keyword
	mKwE = "\x04" // end of a keyword
	mPad = "\x05" // white space usual

	mDash  = "\x06" // one of the dashes
	mLeft  = "\x0e" // one of the left arrowheads
	mRight = "\x0f" // one of the right arrowheads
)

func kw(s string) string {
	words := strings.Fields(s)
	return mKw + strings.Join(words, mKwE+mSP+mKw) + mKwE
}

// plain lays out marked text in the usual way
func plain(s string) string {
	return strings.NewReplacer(mSP, " ", mOpt, "", mKw, "", mKwE, "", mPad, " ", mDash, "-", mLeft, "<", mRight, ">").Replace(s)
}

const (
	lOr = iota
	lXor
	lAnd
	lNot
	lCmp
	lAdd
	lMul
	lPow
	lUnary
	lList
	lProp
	lAtom
)

func level(e *E) int {
	switch e.K {
	case "or":
		return lOr
	case "xor":
		return lXor
	case "and":
		return lAnd
	case "not":
		return lNot
	case "cmp":
		return lCmp
	case "bin":
		switch e.S {
		case "+", "-":
			return lAdd
		case "^":
			return lPow
		}
		return lMul
	case "neg", "pos":
		return lUnary
	case "index", "slice", "in", "starts", "ends", "contains", "isnull", "notnull":
		return lList
	case "prop":
		return lProp
	case "lit":
		if e.S == "" {
			switch v := e.V.(type) {
			case int:
				if v < 0 {
					return lUnary
				}
			case float64:
				if v < 0 || math.Signbit(v) {
					return lUnary
				}
			}
		}
	}
	return lAtom
}

func isReservedForVariable(s string) bool {
	switch strings.ToUpper(s) {
	case "ALL", "ASC", "ASCENDING", "BY", "CREATE", "DELETE", "DESC", "DESCENDING", "DETACH", "EXISTS", "LIMIT", "MATCH",
		"MERGE", "ON", "OPTIONAL", "ORDER", "REMOVE", "RETURN", "SET", "SKIP", "WHERE", "WITH", "UNION", "UNWIND", "AND", "AS",
		"CONTAINS", "DISTINCT", "ENDS", "IN", "IS", "NOT", "OR", "STARTS", "XOR", "FALSE", "TRUE", "NULL", "CONSTRAINT", "DO", "FOR",
		"REQUIRE", "UNIQUE", "CASE", "WHEN", "THEN", "ELSE", "END", "MANDATORY", "SCALAR", "OF", "ADD", "DROP", "CALL", "YIELD":
		return true
	}
	return false
}

func isPlainName(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if c == '_' || (c < 128 && unicode.IsLetter(c)) || (i > 0 && c >= '0' && c <= '9') {
			continue
		}
		return false
	}
	return true
}

// name renders a label, type, property key or variable
func name(s string) string {
	if isPlainName(s) && !isReservedForVariable(s) {
		return s
	}
	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
}

func quoteString(s string) string {
	b := strings.Builder{}
	b.WriteByte('\'')
	for _, c := range s {
		switch {
		case c == '\'' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\t':
			b.WriteString("\\t")
		case c == '\r':
			b.WriteString("\\r")
		case c < 32:
			h := "000" + strconv.FormatInt(int64(c), 16)
			b.WriteString("\\u" + h[len(h)-4:])
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('\'')
	return b.String()
}

func floatText(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	s = strings.ReplaceAll(s, "+", "")
	if strings.IndexAny(s, ".eIN") == -1 {
		s += ".0"
	}
	return s
}

func litText(v V) string {
	switch x := v.(type) {
	case nil:
		return kw("null")
	case bool:
		if x {
			return kw("true")
		}
		return kw("false")
	case int:
		return strconv.Itoa(x)
	case float64:
		return floatText(x)
	case string:
		return quoteString(x)
	case List:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, litText(e))
		}
		return "[" + mOpt + strings.Join(parts, mOpt+","+mOpt) + mOpt + "]"
	case Map:
		parts := []string{}
		for _, k := range sortedKeys(x) {
			parts = append(parts, name(k)+mOpt+":"+mOpt+litText(x[k]))
		}
		return "{" + mOpt + strings.Join(parts, mOpt+","+mOpt) + mOpt + "}"
	}
	panic("no literal for " + show(v))
}

// text renders e, in parentheses if it binds less than min
func (e *E) text(min int) string {
	l := level(e)
	s := e.raw()
	if l < min {
		return "(" + mOpt + s + mOpt + ")"
	}
	return s
}

func (e *E) raw() string {
	l := level(e)
	switch e.K {
	case "lit":
		if e.S != "" {
			return e.S
		}
		return litText(e.V)
	case "param":
		return e.S
	case "setlabels":
		return e.S + labelList(e.Ops)
	case "var":
		return name(e.S)
	case "paren":
		return "(" + mOpt + e.A[0].text(0) + mOpt + ")"
	case "prop":
		return e.A[0].text(lProp) + mOpt + "." + mOpt + name(e.S)
	case "list":
		parts := []string{}
		for i, a := range e.A {
			if i == 0 && a.K == "in" && a.A[0].K == "var" {
				// [x IN list] is a list comprehension
				a = parens(a)
			}
			parts = append(parts, a.text(0))
		}
		return "[" + mOpt + strings.Join(parts, mOpt+","+mOpt) + mOpt + "]"
	case "map":
		parts := []string{}
		for i, a := range e.A {
			parts = append(parts, name(e.Ops[i])+mOpt+":"+mOpt+a.text(0))
		}
		return "{" + mOpt + strings.Join(parts, mOpt+","+mOpt) + mOpt + "}"
	case "neg", "pos":
		op := "-"
		if e.K == "pos" {
			op = "+"
		}
		s := e.A[0].text(lUnary)
		if s[0] == '-' || s[0] == '+' {
			return op + mSP + s
		}
		return op + mOpt + s
	case "bin":
		return e.A[0].text(l) + mPad + e.S + mPad + e.A[1].text(l+1)
	case "cmp":
		s := e.A[0].text(lAdd)
		for i, op := range e.Ops {
			s += mPad + op + mPad + e.A[i+1].text(lAdd)
		}
		return s
	case "not":
		return kw("NOT") + mSP + e.A[0].text(lNot)
	case "and", "or", "xor":
		parts := []string{}
		for _, a := range e.A {
			parts = append(parts, a.text(l+1))
		}
		return strings.Join(parts, mSP+kw(strings.ToUpper(e.K))+mSP)
	case "index":
		return e.A[0].text(lList) + "[" + e.A[1].text(0) + "]"
	case "slice":
		s := e.A[0].text(lList) + "["
		if e.F {
			s += e.A[1].text(0)
		}
		s += ".."
		if e.G {
			s += e.A[2].text(0)
		}
		return s + "]"
	case "in":
		return e.A[0].text(lList) + mSP + kw("IN") + mSP + e.A[1].text(lProp)
	case "starts":
		return e.A[0].text(lList) + mSP + kw("STARTS") + mSP + kw("WITH") + mSP + e.A[1].text(lProp)
	case "ends":
		return e.A[0].text(lList) + mSP + kw("ENDS") + mSP + kw("WITH") + mSP + e.A[1].text(lProp)
	case "contains":
		return e.A[0].text(lList) + mSP + kw("CONTAINS") + mSP + e.A[1].text(lProp)
	case "isnull":
		return e.A[0].text(lList) + mSP + kw("IS") + mSP + kw("NULL")
	case "notnull":
		return e.A[0].text(lList) + mSP + kw("IS") + mSP + kw("NOT") + mSP + kw("NULL")
	case "func":
		parts := []string{}
		for _, a := range e.A {
			parts = append(parts, a.text(0))
		}
		return e.S + mOpt + "(" + mOpt + strings.Join(parts, mOpt+","+mOpt) + mOpt + ")"
	case "case":
		s := kw("CASE")
		a := e.A
		if e.F {
			s += mSP + a[0].text(0)
			a = a[1:]
		}
		for len(a) >= 2 {
			s += mSP + kw("WHEN") + mSP + a[0].text(0) + mSP + kw("THEN") + mSP + a[1].text(0)
			a = a[2:]
		}
		if e.G {
			s += mSP + kw("ELSE") + mSP + a[0].text(0)
		}
		return s + mSP + kw("END")
	}
	panic("text of " + e.K)
}

// ---------------------------------------------------------------- evaluation

type status int

const (
	ok status = iota
	bad
	unspec
)

// R is the result of the reference interpreter: a value, an error, or
// nothing that is specified
type R struct {
	v  V
	st status
}

func val(v V) R { return R{v: v} }

var rErr = R{st: bad}
var rUnspec = R{st: unspec}

// Env is what an expression is evaluated with
type Env struct {
	Vars   map[string]V
	Params map[string]V
	G      *MGraph
	// Funcs are functions registered by the check
	Funcs map[string]func([]V) R
	// OnRead is told which properties of nodes are read
	OnRead func(node int, key string)
	// OnUnspec is told that the value of a part is not specified
	OnUnspec func()
}

// operands evaluates all operands that are needed. If some fail and
// others are null, it is not specified which of them decides
func strict(rs ...R) (R, bool) {
	anyNull, anyBad := false, false
	for _, r := range rs {
		switch r.st {
		case unspec:
			return rUnspec, false
		case bad:
			anyBad = true
		default:
			anyNull = anyNull || r.v == nil
		}
	}
	if anyBad {
		if anyNull {
			return rUnspec, false
		}
		return rErr, false
	}
	if anyNull {
		return val(nil), false
	}
	return R{}, true
}

// errFirst is like strict, but without nulls
func errFirst(rs ...R) (R, bool) {
	anyBad := false
	for _, r := range rs {
		if r.st == unspec {
			return rUnspec, false
		}
		anyBad = anyBad || r.st == bad
	}
	if anyBad {
		return rErr, false
	}
	return R{}, true
}

func isNum(v V) bool {
	switch v.(type) {
	case int, float64:
		return true
	}
	return false
}

func asFloat(v V) float64 {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v.(float64)
}

func (e *E) eval(env *Env) R {
	r := e.evaluate(env)
	if r.st == unspec && env.OnUnspec != nil {
		env.OnUnspec()
	}
	return r
}

func (e *E) evaluate(env *Env) R {
	switch e.K {
	case "lit":
		return val(e.V)
	case "param":
		v, ok := env.Params[e.S]
		if !ok {
			return rErr
		}
		return val(v)
	case "var":
		v, ok := env.Vars[e.S]
		if !ok {
			return rErr
		}
		return val(v)
	case "paren":
		return e.A[0].eval(env)
	case "prop":
		return evalProp(e.A[0].eval(env), e.S, env)
	case "list":
		l := List{}
		anyBad := false
		for _, a := range e.A {
			r := a.eval(env)
			if r.st == unspec {
				return rUnspec
			}
			anyBad = anyBad || r.st == bad
			l = append(l, r.v)
		}
		if anyBad {
			return rErr
		}
		return val(l)
	case "map":
		m := Map{}
		anyBad := false
		for i, a := range e.A {
			r := a.eval(env)
			if r.st == unspec {
				return rUnspec
			}
			anyBad = anyBad || r.st == bad
			m[e.Ops[i]] = r.v
		}
		if anyBad {
			return rErr
		}
		return val(m)
	case "neg":
		base, n, minus := e.A[0], 1, true
		for base.K == "neg" || base.K == "pos" {
			minus = minus != (base.K == "neg")
			base, n = base.A[0], n+1
		}
		r := base.eval(env)
		if r.st != ok || r.v == nil {
			return r
		}
		switch x := r.v.(type) {
		case int:
			if minus {
				x = -x
			}
			return val(x)
		case float64:
			if minus {
				x = -x
			}
			return val(x)
		}
		if n > 1 {
			// two signs may cancel out before the operand is looked at
			return rUnspec
		}
		return rErr
	case "pos":
		return e.A[0].eval(env)
	case "bin":
		return evalBin(e.S, e.A[0].eval(env), e.A[1].eval(env))
	case "cmp":
		rs := make([]R, len(e.A))
		for i, a := range e.A {
			rs[i] = a.eval(env)
			if rs[i].st == unspec {
				return rUnspec
			}
		}
		pairs := make([]R, len(e.Ops))
		for i, op := range e.Ops {
			pairs[i] = compare(op, rs[i], rs[i+1])
		}
		return kleene(pairs, false)
	case "not":
		base, n := e.A[0], 1
		for base.K == "not" {
			base, n = base.A[0], n+1
		}
		r := base.eval(env)
		if r.st != ok || r.v == nil {
			return r
		}
		b, isBool := r.v.(bool)
		if !isBool {
			if n > 1 {
				// NOT NOT may cancel out before the operand is looked at
				return rUnspec
			}
			return rErr
		}
		return val(b != (n%2 == 1))
	case "and", "or":
		rs := make([]R, len(e.A))
		for i, a := range e.A {
			rs[i] = a.eval(env)
		}
		return kleene(rs, e.K == "or")
	case "xor":
		result := false
		rs := make([]R, len(e.A))
		for i, a := range e.A {
			rs[i] = a.eval(env)
			if rs[i].st == ok && rs[i].v != nil {
				if b, isBool := rs[i].v.(bool); isBool {
					result = result != b
				} else {
					rs[i] = rErr
				}
			}
		}
		if r, ok := strict(rs...); !ok {
			return r
		}
		return val(result)
	case "index":
		l, ix := e.A[0].eval(env), e.A[1].eval(env)
		if l.st == ok && l.v != nil {
			if _, isList := l.v.(List); !isList {
				l = rErr
			}
		}
		if ix.st == ok && ix.v != nil {
			if _, isInt := ix.v.(int); !isInt {
				ix = rErr
			}
		}
		if r, ok := strict(l, ix); !ok {
			return r
		}
		lst, i := l.v.(List), ix.v.(int)
		if i < 0 {
			i += len(lst)
		}
		if i < 0 || i >= len(lst) {
			return val(nil)
		}
		return val(lst[i])
	case "slice":
		l := e.A[0].eval(env)
		if l.st == ok && l.v != nil {
			if _, isList := l.v.(List); !isList {
				l = rErr
			}
		}
		rs := []R{l}
		bound := func(have bool, at int) (int, bool) {
			if !have {
				return 0, true
			}
			r := e.A[at].eval(env)
			if r.st == ok && r.v != nil {
				i, isInt := r.v.(int)
				if !isInt {
					rs = append(rs, rErr)
					return 0, true
				}
				rs = append(rs, r)
				return i, i >= 0
			}
			rs = append(rs, r)
			return 0, true
		}
		from, ok1 := bound(e.F, 1)
		to, ok2 := bound(e.G, 2)
		if !ok1 || !ok2 {
			return rUnspec
		}
		if r, ok := strict(rs...); !ok {
			return r
		}
		lst := l.v.(List)
		if !e.G || to > len(lst) {
			to = len(lst)
		}
		out := List{}
		for i := from; i < to; i++ {
			out = append(out, lst[i])
		}
		return val(out)
	case "in":
		x, l := e.A[0].eval(env), e.A[1].eval(env)
		if r, ok := errFirst(x, l); !ok {
			if r.st == bad && ((x.st == ok2 && x.v == nil) || (l.st == ok2 && l.v == nil)) {
				return rUnspec
			}
			return r
		}
		if l.v == nil {
			return val(nil)
		}
		lst, isList := l.v.(List)
		if !isList {
			if x.v == nil {
				return rUnspec
			}
			return rErr
		}
		if x.v == nil {
			if len(lst) == 0 {
				return val(false)
			}
			return val(nil)
		}
		found, hasNull, fails := false, false, false
		for _, el := range lst {
			if el == nil {
				hasNull = true
				continue
			}
			r := compare("=", x, val(el))
			if r.st == bad {
				fails = true
				continue
			}
			if r.st != ok {
				return rUnspec
			}
			found = found || r.v == true
		}
		switch {
		case fails && found:
			// depends on the order of the elements
			return rUnspec
		case fails:
			return rErr
		}
		if found {
			return val(true)
		}
		if hasNull {
			return val(nil)
		}
		return val(false)
	case "starts", "ends", "contains":
		a, b := e.A[0].eval(env), e.A[1].eval(env)
		for _, r := range []*R{&a, &b} {
			if r.st == ok && r.v != nil {
				if _, isStr := r.v.(string); !isStr {
					*r = rErr
				}
			}
		}
		if r, ok := strict(a, b); !ok {
			return r
		}
		x, y := a.v.(string), b.v.(string)
		switch e.K {
		case "starts":
			return val(len(x) >= len(y) && x[:len(y)] == y)
		case "ends":
			return val(len(x) >= len(y) && x[len(x)-len(y):] == y)
		}
		for i := 0; i+len(y) <= len(x); i++ {
			if x[i:i+len(y)] == y {
				return val(true)
			}
		}
		return val(false)
	case "isnull", "notnull":
		r := e.A[0].eval(env)
		if r.st != ok {
			return r
		}
		return val((r.v == nil) == (e.K == "isnull"))
	case "case":
		a := e.A
		var test R
		if e.F {
			test = a[0].eval(env)
			if test.st != ok {
				return test
			}
			a = a[1:]
		}
		for len(a) >= 2 {
			w := a[0].eval(env)
			if w.st != ok {
				return w
			}
			match := false
			if e.F {
				if test.v == nil && w.v == nil {
					return rUnspec
				}
				r := compare("=", test, w)
				if r.st != ok {
					return r
				}
				match = r.v == true
			} else if w.v != nil {
				b, isBool := w.v.(bool)
				if !isBool {
					return rErr
				}
				match = b
			}
			if match {
				return a[1].eval(env)
			}
			a = a[2:]
		}
		if e.G {
			return a[0].eval(env)
		}
		return val(nil)
	case "func":
		rs := make([]R, len(e.A))
		for i, a := range e.A {
			rs[i] = a.eval(env)
		}
		if r, ok := errFirst(rs...); !ok {
			return r
		}
		vs := make([]V, len(rs))
		for i := range rs {
			vs[i] = rs[i].v
		}
		if env.Funcs != nil {
			if f, ok := env.Funcs[e.S]; ok {
				return f(vs)
			}
		}
		return evalFunc(e.S, vs, env)
	}
	panic("eval of " + e.K)
}

const ok2 = ok

// kleene is AND, or OR. An operand that fails is an error unless an
// operand before it decides the result
func kleene(rs []R, decides bool) R {
	hasNull, hasBad := false, false
	for _, r := range rs {
		if r.st == unspec {
			return rUnspec
		}
		if r.st == ok && r.v != nil {
			b, isBool := r.v.(bool)
			if !isBool {
				r = rErr
			} else if b == decides {
				if hasBad {
					return rUnspec
				}
				return val(decides)
			}
		}
		if r.st == bad {
			hasBad = true
		} else if r.v == nil {
			hasNull = true
		}
	}
	if hasBad {
		return rErr
	}
	if hasNull {
		return val(nil)
	}
	return val(!decides)
}

func evalProp(base R, key string, env *Env) R {
	if base.st != ok || base.v == nil {
		return base
	}
	switch x := base.v.(type) {
	case NodeV:
		n := env.G.node(x.ID)
		if n == nil {
			return rUnspec
		}
		if env.OnRead != nil {
			env.OnRead(x.ID, key)
		}
		return val(n.Props[key])
	case PathV:
		l := x.list()
		if len(l) != 1 {
			// several relationships have no properties
			return rErr
		}
		ed := env.G.edge(l[0])
		if ed == nil {
			return rUnspec
		}
		return val(ed.Props[key])
	case Map:
		return rUnspec
	}
	return rErr
}

const exactFloat = 1 << 53

// order compares values of the same type: -1, 0, 1, or 2 if unordered
func order(a, b V) (int, status) {
	sign := func(less, eq bool) (int, status) {
		switch {
		case less:
			return -1, ok
		case eq:
			return 0, ok
		}
		return 1, ok
	}
	if isNum(a) && isNum(b) {
		x, xi := a.(int)
		y, yi := b.(int)
		if xi && yi {
			return sign(x < y, x == y)
		}
		for _, v := range []V{a, b} {
			if i, isInt := v.(int); isInt && (i > exactFloat || i < -exactFloat) {
				return 0, unspec
			}
		}
		f, g := asFloat(a), asFloat(b)
		if math.IsNaN(f) || math.IsNaN(g) {
			return 2, ok
		}
		return sign(f < g, f == g)
	}
	switch x := a.(type) {
	case bool:
		if y, same := b.(bool); same {
			return sign(!x && y, x == y)
		}
	case string:
		if y, same := b.(string); same {
			return sign(x < y, x == y)
		}
	case DateV:
		if y, same := b.(DateV); same {
			return sign(x.Day < y.Day, x == y)
		}
	case TimeV:
		if y, same := b.(TimeV); same {
			return sign(x.Nanos < y.Nanos, x == y)
		}
	case DateTimeV:
		if y, same := b.(DateTimeV); same {
			return sign(x.Day < y.Day || (x.Day == y.Day && x.Nanos < y.Nanos), x == y)
		}
	case Dur:
		if y, same := b.(Dur); same {
			p, q := []int64{x.Months, x.Days, x.Seconds, x.Nanos}, []int64{y.Months, y.Days, y.Seconds, y.Nanos}
			for i := range p {
				if p[i] != q[i] {
					return sign(p[i] < q[i], false)
				}
			}
			return 0, ok
		}
	case List, Map, NodeV, PathV:
		if typeName(a) == typeName(b) {
			return 0, unspec
		}
	}
	return 0, bad
}

func compare(op string, a, b R) R {
	if r, ok := strict(a, b); !ok {
		return r
	}
	o, st := order(a.v, b.v)
	if st != ok {
		return R{st: st}
	}
	switch op {
	case "=":
		return val(o == 0)
	case "<>":
		return val(o != 0)
	case "<":
		return val(o == -1)
	case "<=":
		return val(o == -1 || o == 0)
	case ">":
		return val(o == 1)
	case ">=":
		return val(o == 1 || o == 0)
	}
	panic(op)
}

func fits(f float64) bool { return f > -9e18 && f < 9e18 }

func evalBin(op string, a, b R) R {
	// Find the operands of unsuitable type first, to tell an error from null
	if r, ok := strict(a, b); !ok {
		if a.st == ok2 && b.st == ok2 && !(arithmetic(op, a.v) && arithmetic(op, b.v)) {
			// one is null, the other can never be an operand
			return rUnspec
		}
		return r
	}
	x, y := a.v, b.v
	if isNum(x) && isNum(y) {
		return arith(op, x, y)
	}
	switch op {
	case "+":
		switch l := x.(type) {
		case string:
			if r, same := y.(string); same {
				return val(l + r)
			}
		case List:
			if r, same := y.(List); same {
				return val(append(append(List{}, l...), r...))
			}
		}
	}
	return temporal(op, x, y)
}

// arithmetic tells if v can be an operand of op at all
func arithmetic(op string, v V) bool {
	switch v.(type) {
	case nil, int, float64:
		return true
	case Dur:
		return op != "^" && op != "%"
	case string, List:
		return op == "+"
	case DateV, TimeV, DateTimeV:
		return op == "+" || op == "-"
	}
	return false
}

func arith(op string, x, y V) R {
	i, xi := x.(int)
	j, yi := y.(int)
	if op == "^" {
		return val(math.Pow(asFloat(x), asFloat(y)))
	}
	if xi && yi {
		switch op {
		case "+":
			return val(i + j)
		case "-":
			return val(i - j)
		case "*":
			return val(i * j)
		case "/", "%":
			if j == 0 {
				return rErr
			}
			if op == "/" {
				return val(i / j)
			}
			return val(i % j)
		}
	}
	f, g := asFloat(x), asFloat(y)
	switch op {
	case "+":
		return val(f + g)
	case "-":
		return val(f - g)
	case "*":
		return val(f * g)
	case "/":
		if g == 0 {
			return rErr
		}
		return val(f / g)
	case "%":
		if g == 0 {
			return rErr
		}
		return val(math.Mod(f, g))
	}
	panic(op)
}

const maxDur = int64(1) << 40

func small(d Dur) bool {
	for _, c := range []int64{d.Months, d.Days, d.Seconds, d.Nanos} {
		if c > maxDur || c < -maxDur {
			return false
		}
	}
	return true
}

// move adds a duration to a point in time. What happens to a day that
// does not exist in the target month is not specified
func move(day, nanos int64, d Dur) (int64, int64, status) {
	if d.Months > 60000 || d.Months < -60000 || d.Days > 4000000 || d.Days < -4000000 || !small(d) {
		return 0, 0, unspec
	}
	if d.Months != 0 {
		y, m, dd := civilFromDays(day)
		if dd > 28 {
			return 0, 0, unspec
		}
		day = daysFromCivil(y, m+d.Months, dd)
	}
	day += d.Days
	secs := d.Seconds
	day += floorDiv(secs, 86400)
	secs -= floorDiv(secs, 86400) * 86400
	day += floorDiv(d.Nanos, dayNanos)
	n := d.Nanos - floorDiv(d.Nanos, dayNanos)*dayNanos
	nanos += secs*1000000000 + n
	day += floorDiv(nanos, dayNanos)
	nanos -= floorDiv(nanos, dayNanos) * dayNanos
	y, _, _ := civilFromDays(day)
	if y < 1 || y > 9999 {
		return 0, 0, unspec
	}
	return day, nanos, ok
}

func temporal(op string, x, y V) R {
	neg := func(d Dur) Dur { return Dur{-d.Months, -d.Days, -d.Seconds, -d.Nanos} }
	if d, isDur := y.(Dur); isDur && (op == "+" || op == "-") {
		if op == "-" {
			d = neg(d)
		}
		switch t := x.(type) {
		case Dur:
			return val(Dur{t.Months + d.Months, t.Days + d.Days, t.Seconds + d.Seconds, t.Nanos + d.Nanos})
		case DateV:
			day, _, st := move(t.Day, 0, Dur{Months: d.Months, Days: d.Days})
			return R{DateV{day}, st}
		case TimeV:
			_, n, st := move(0, t.Nanos, Dur{Seconds: d.Seconds, Nanos: d.Nanos})
			if st == unspec && small(d) && d.Seconds < 86400*3650000 && d.Seconds > -86400*3650000 {
				// the day does not matter
				total := (t.Nanos + d.Nanos + (d.Seconds%86400)*1000000000) % dayNanos
				return val(TimeV{(total + dayNanos) % dayNanos})
			}
			return R{TimeV{n}, st}
		case DateTimeV:
			day, n, st := move(t.Day, t.Nanos, d)
			if st == ok && !(DateTimeV{day, n}).exists() {
				return rUnspec
			}
			return R{DateTimeV{day, n}, st}
		}
		return rErr
	}
	if d, isDur := x.(Dur); isDur {
		switch op {
		case "+":
			switch y.(type) {
			case DateV, TimeV, DateTimeV:
				return temporal("+", y, x)
			}
			return rErr
		case "*", "/":
			if !small(d) {
				return rUnspec
			}
			switch n := y.(type) {
			case int:
				if n > 1<<20 || n < -(1<<20) {
					return rUnspec
				}
				if op == "*" {
					k := int64(n)
					return val(Dur{d.Months * k, d.Days * k, d.Seconds * k, d.Nanos * k})
				}
				if n == 0 {
					return rErr
				}
				k := int64(n)
				return val(Dur{d.Months / k, d.Days / k, d.Seconds / k, d.Nanos / k})
			case float64:
				if op == "/" && n == 0 {
					return rErr
				}
				scale := func(c int64) float64 {
					if op == "*" {
						return float64(c) * n
					}
					return float64(c) / n
				}
				for _, c := range []int64{d.Months, d.Days, d.Seconds, d.Nanos} {
					if !fits(scale(c)) {
						return rUnspec
					}
				}
				return val(Dur{int64(scale(d.Months)), int64(scale(d.Days)), int64(scale(d.Seconds)), int64(scale(d.Nanos))})
			}
		}
		return rErr
	}
	if d, isDur := y.(Dur); isDur && op == "*" && isNum(x) {
		return temporal("*", d, x)
	}
	return rErr
}

func evalFunc(name string, a []V, env *Env) R {
	argc := func(lo, hi int) bool { return len(a) >= lo && len(a) <= hi }
	str := func(i int) (string, bool) { s, ok := a[i].(string); return s, ok }
	integer := func(i int) (int, bool) { n, ok := a[i].(int); return n, ok }
	switch name {
	case "range":
		if !argc(2, 3) {
			return rErr
		}
		from, ok1 := integer(0)
		to, ok2 := integer(1)
		step, ok3 := 1, true
		if len(a) == 3 {
			step, ok3 = integer(2)
		}
		if !ok1 || !ok2 || !ok3 {
			return rErr
		}
		l := List{}
		if step == 0 {
			return val(l)
		}
		for x := from; (step > 0 && x < to) || (step < 0 && x > to); {
			l = append(l, x)
			if len(l) > 5000 {
				return rUnspec
			}
			next := x + step
			if (step > 0) != (next > x) {
				break
			}
			x = next
		}
		return val(l)
	case "size":
		if !argc(1, 1) {
			return rErr
		}
		switch x := a[0].(type) {
		case string:
			return val(len([]rune(x)))
		case List:
			return val(len(x))
		case nil:
			return val(nil)
		}
		return rUnspec
	case "left", "right", "substring":
		if !(argc(2, 2) || name == "substring" && argc(3, 3)) {
			return rErr
		}
		s, isStr := str(0)
		hasNull, hasBad := a[0] == nil, a[0] != nil && !isStr
		nums := []int{}
		for i := 1; i < len(a); i++ {
			n, isInt := integer(i)
			nums = append(nums, n)
			hasNull = hasNull || a[i] == nil
			hasBad = hasBad || (a[i] != nil && !isInt)
		}
		if hasNull {
			if hasBad {
				return rUnspec
			}
			return val(nil)
		}
		if hasBad {
			return rErr
		}
		r := []rune(s)
		for _, n := range nums {
			if n < 0 {
				return rUnspec
			}
		}
		min := func(x, y int) int {
			if x < y {
				return x
			}
			return y
		}
		switch name {
		case "left":
			return val(string(r[:min(nums[0], len(r))]))
		case "right":
			return val(string(r[len(r)-min(nums[0], len(r)):]))
		}
		from := min(nums[0], len(r))
		to := len(r)
		if len(nums) == 2 {
			to = from + min(nums[1], len(r)-from)
		}
		return val(string(r[from:to]))
	case "split":
		if !argc(2, 2) {
			return rErr
		}
		s, ok1 := str(0)
		d, ok2 := str(1)
		bad1, bad2 := a[0] != nil && !ok1, a[1] != nil && !ok2
		if a[0] == nil || a[1] == nil {
			if bad1 || bad2 {
				return rUnspec
			}
			return val(nil)
		}
		if bad1 || bad2 {
			return rErr
		}
		l := List{}
		if d == "" {
			for _, c := range s {
				l = append(l, string(c))
			}
			return val(l)
		}
		start := 0
		for i := 0; i+len(d) <= len(s); {
			if s[i:i+len(d)] == d {
				l = append(l, s[start:i])
				i += len(d)
				start = i
			} else {
				i++
			}
		}
		return val(append(l, s[start:]))
	case "trim", "ltrim", "rtrim":
		if !argc(1, 1) {
			return rErr
		}
		if a[0] == nil {
			return val(nil)
		}
		s, isStr := str(0)
		if !isStr {
			return rErr
		}
		r := []rune(s)
		if name != "rtrim" {
			for len(r) > 0 && unicode.IsSpace(r[0]) {
				r = r[1:]
			}
		}
		if name != "ltrim" {
			for len(r) > 0 && unicode.IsSpace(r[len(r)-1]) {
				r = r[:len(r)-1]
			}
		}
		return val(string(r))
	case "toInteger", "toIntegerOrNull":
		if !argc(1, 1) {
			return rErr
		}
		invalid := rErr
		if name == "toIntegerOrNull" {
			invalid = val(nil)
		}
		switch x := a[0].(type) {
		case nil, int:
			return val(x)
		case bool:
			if x {
				return val(1)
			}
			return val(0)
		case float64:
			if !fits(x) {
				return rUnspec
			}
			return val(int(x))
		case string:
			n, valid := decimalInt(x)
			if !valid {
				return invalid
			}
			return val(n)
		}
		return invalid
	case "toFloat", "toFloatOrNull":
		if !argc(1, 1) {
			return rErr
		}
		invalid := rErr
		if name == "toFloatOrNull" {
			invalid = val(nil)
		}
		switch x := a[0].(type) {
		case nil, float64:
			return val(x)
		case int:
			return val(float64(x))
		case string:
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return invalid
			}
			return val(f)
		}
		return invalid
	case "labels":
		if !argc(1, 1) {
			return rErr
		}
		switch x := a[0].(type) {
		case nil:
			return val(nil)
		case NodeV:
			n := env.G.node(x.ID)
			if n == nil {
				return rUnspec
			}
			l := List{}
			for _, k := range sortedKeys(n.Labels) {
				l = append(l, k)
			}
			return val(l)
		}
		return rErr
	case "type":
		if !argc(1, 1) {
			return rErr
		}
		switch x := a[0].(type) {
		case nil:
			return val(nil)
		case PathV:
			l := x.list()
			if len(l) == 0 {
				return rUnspec
			}
			if len(l) > 1 {
				return rErr
			}
			ed := env.G.edge(l[0])
			if ed == nil {
				return rUnspec
			}
			return val(ed.Label)
		}
		return rErr
	case "date":
		return evalDate(a)
	}
	return rErr
}

func decimalInt(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	digits := s
	if s[0] == '-' || s[0] == '+' {
		digits = s[1:]
	}
	if digits == "" {
		return 0, false
	}
	n := uint64(0)
	limit := uint64(math.MaxInt64)
	if s[0] == '-' {
		limit++
	}
	for _, c := range []byte(digits) {
		if c < '0' || c > '9' {
			return 0, false
		}
		d := uint64(c - '0')
		if n > (limit-d)/10 {
			return 0, false
		}
		n = n*10 + d
	}
	if s[0] == '-' {
		return int(-n), true
	}
	return int(n), true
}

func isLeap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int64) int64 {
	switch m {
	case 2:
		if isLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func evalDate(a []V) R {
	if len(a) != 1 {
		return rUnspec
	}
	switch x := a[0].(type) {
	case nil:
		return val(nil)
	case Map:
		for _, k := range sortedKeys(x) {
			switch k {
			case "year", "month", "day":
			default:
				return rUnspec
			}
		}
		if _, have := x["year"]; !have {
			return rErr
		}
		parts := map[string]int64{"month": 1, "day": 1}
		hasNull, hasBad := false, false
		for k, v := range x {
			n, isInt := v.(int)
			if v == nil {
				hasNull = true
			} else if !isInt {
				hasBad = true
			}
			parts[k] = int64(n)
		}
		if hasNull && hasBad {
			return rUnspec
		}
		if hasNull {
			return val(nil)
		}
		if hasBad {
			return rErr
		}
		y, m, d := parts["year"], parts["month"], parts["day"]
		if y < 1 || y > 9999 || m < 1 || m > 12 || d < 1 || d > monthDays(y, m) {
			return rUnspec
		}
		return val(DateV{daysFromCivil(y, m, d)})
	case string:
		parts := strings.Split(x, "-")
		if len(x) == 8 || len(x) == 6 {
			// without hyphens
			if _, isNum := decimalInt(x); isNum && x[0] >= '0' {
				parts = []string{x[:4], x[4:6]}
				if len(x) == 8 {
					parts = append(parts, x[6:])
				}
			}
		}
		if len(parts) < 1 || len(parts) > 3 {
			return rUnspec
		}
		nums := []int64{}
		for i, p := range parts {
			if len(p) == 0 || (i == 0 && len(p) != 4) || (i > 0 && len(p) > 2) {
				return rUnspec
			}
			n, err := strconv.Atoi(p)
			if err != nil || p[0] == '+' {
				return rUnspec
			}
			nums = append(nums, int64(n))
		}
		y, m, d := nums[0], int64(1), int64(1)
		if len(nums) > 1 {
			m = nums[1]
		}
		if len(nums) > 2 {
			d = nums[2]
		}
		if y < 1 {
			return rUnspec
		}
		if m < 1 || m > 12 || d < 1 || d > monthDays(y, m) {
			return rErr
		}
		return val(DateV{daysFromCivil(y, m, d)})
	}
	return rErr
}

// walk visits all expressions of the tree
func (e *E) walk(f func(*E)) {
	f(e)
	for _, a := range e.A {
		if a != nil {
			a.walk(f)
		}
	}
}

func (e *E) size() int {
	n := 0
	e.walk(func(*E) { n++ })
	return n
}

// kinds are the kinds of operators in the tree
func (e *E) kinds() []string {
	set := map[string]bool{}
	e.walk(func(x *E) {
		switch x.K {
		case "lit", "param", "var", "paren", "list", "map":
		case "bin":
			set[x.S] = true
		case "func":
			set[x.S] = true
		default:
			set[x.K] = true
		}
	})
	ks := []string{}
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
