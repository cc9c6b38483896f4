package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"unicode"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C03

func digits(s *Src, n int, set string) string {
	b := strings.Builder{}
	for i := 0; i < n; i++ {
		b.WriteByte(set[s.N(len(set))])
	}
	return b.String()
}

// intLiteral writes an integer. It is bad if it does not fit
func intLiteral(s *Src) (string, V, bool) {
	text, base := "", 10
	switch s.Weighted(5, 3, 3, 2, 1) {
	case 0:
		n := s.Range(1, 19)
		text = digits(s, n, "0123456789")
		text = strings.TrimLeft(text, "0")
		if text == "" {
			text = "0"
		}
	case 1:
		base = 16
		text = digits(s, s.Range(1, 17), "0123456789abcdefABCDEF")
	case 2:
		base = 8
		text = digits(s, s.Range(1, 23), "01234567")
	case 3:
		// near the limits
		x := new(big.Int).Lsh(big.NewInt(1), uint(pick(s, 31, 32, 53, 62, 63, 64)))
		x.Add(x, big.NewInt(int64(s.Range(-2, 2))))
		switch s.N(3) {
		case 0:
			text = x.String()
		case 1:
			base = 16
			text = x.Text(16)
		case 2:
			base = 8
			text = x.Text(8)
		}
	case 4:
		text = digits(s, 1, "123456789") + digits(s, s.Range(18, 40), "0123456789")
	}
	x, _ := new(big.Int).SetString(text, base)
	switch base {
	case 16:
		text = "0x" + text
	case 8:
		text = "0" + text
	}
	if !x.IsInt64() {
		return text, nil, false
	}
	return text, int(x.Int64()), true
}

// floatLiteral writes a float. It is bad if it is too large
func floatLiteral(s *Src) (string, V, bool) {
	text := ""
	frac := func() string {
		n := s.Range(1, 6)
		if s.Pct(15) {
			n = s.Range(7, 30)
		}
		return digits(s, n, "0123456789")
	}
	switch s.Weighted(4, 2) {
	case 0:
		text = digits(s, s.N(7), "0123456789") + "." + frac()
	case 1:
		switch s.N(3) {
		case 0:
			text = digits(s, s.Range(1, 6), "0123456789")
		case 1:
			text = digits(s, s.Range(1, 6), "0123456789") + "." + frac()
		case 2:
			text = "." + frac()
		}
		text += pick(s, "e", "E")
		if s.Bool() {
			text += "-"
		}
		switch s.Weighted(6, 2, 1) {
		case 0:
			text += digits(s, s.Range(1, 2), "0123456789")
		case 1:
			text += fmt.Sprint(s.Range(280, 330))
		case 2:
			text += fmt.Sprint(s.Range(300, 2000))
		}
	}
	t := text
	if t[0] == '.' {
		t = "0" + t
	}
	r, valid := new(big.Rat).SetString(t)
	if !valid {
		panic("bad float " + text)
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return text, nil, false
	}
	return text, f, true
}

var wide = []rune{0, 1, 7, 0x7f, 0x80, 0xa0, 0xad, 0xff, 0x100, 0x301, 0x200b, 0x200e, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff}

// oneRune is any character
func oneRune(s *Src) rune {
	switch s.Weighted(8, 2, 2, 2) {
	case 0:
		return rune(s.Range(32, 126))
	case 1:
		return pickFrom(s, wide)
	case 2:
		return rune(s.Range(0, 0x24f))
	}
	r := rune(s.N(0x110000 - 0x800))
	if r >= 0xd800 {
		r += 0x800
	}
	return r
}

// stringLiteral writes a string, with escape sequences
func stringLiteral(s *Src) (string, string) {
	quote := pick(s, '"', '\'')
	text, value := strings.Builder{}, strings.Builder{}
	text.WriteRune(quote)
	for i, n := 0, s.Weighted(1, 3, 4, 4, 3, 3, 2, 2, 1, 1); i < n; i++ {
		switch s.Weighted(6, 4, 2, 2) {
		case 0:
			r := oneRune(s)
			if r == quote || r == '\\' {
				text.WriteByte('\\')
			}
			text.WriteRune(r)
			value.WriteRune(r)
		case 1:
			c := pick(s, '\\', '\'', '"', 'b', 'f', 'n', 'r', 't', 'B', 'F', 'N', 'R', 'T')
			text.WriteByte('\\')
			text.WriteRune(c)
			switch unicode.ToLower(c) {
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			}
			value.WriteRune(c)
		case 2:
			r := oneRune(s)
			if r > 0xffff {
				r = 'A'
			}
			h := fmt.Sprintf("%04x", r)
			if s.Bool() {
				h = strings.ToUpper(h)
			}
			text.WriteString("\\u" + h)
			value.WriteRune(r)
		case 3:
			r := oneRune(s)
			h := fmt.Sprintf("%08x", r)
			if s.Bool() {
				h = strings.ToUpper(h)
			}
			text.WriteString("\\U" + h)
			value.WriteRune(r)
		}
	}
	text.WriteRune(quote)
	return text.String(), value.String()
}

func anyCase(s *Src, w string) string {
	switch s.N(3) {
	case 0:
		return w
	case 1:
		return strings.ToUpper(w)
	}
	b := []byte(w)
	for i := range b {
		if s.Bool() {
			b[i] = byte(unicode.ToUpper(rune(b[i])))
		}
	}
	return string(b)
}

func blank(s *Src) string { return pick(s, "", "", "", " ", "  ", "\n", "\t") }

// literal writes a literal of any type. Only numbers can be bad
func literal(s *Src, d int, allowBad bool) (string, V, bool) {
	k := s.Weighted(5, 5, 6, 1, 1, 2, 2)
	if d <= 0 {
		k %= 5
	}
	switch k {
	case 0:
		t, v, fine := intLiteral(s)
		if !fine && !allowBad {
			return "7", 7, true
		}
		return t, v, fine
	case 1:
		t, v, fine := floatLiteral(s)
		if !fine && !allowBad {
			return "7.5", 7.5, true
		}
		return t, v, fine
	case 2:
		t, v := stringLiteral(s)
		return t, v, true
	case 3:
		b := s.Bool()
		return anyCase(s, fmt.Sprint(b)), b, true
	case 4:
		return anyCase(s, "null"), nil, true
	case 5:
		text, fine := "["+blank(s), true
		l := List{}
		for i, n := 0, s.N(5); i < n; i++ {
			if i > 0 {
				text += "," + blank(s)
			}
			t, v, f := literal(s, d-1, allowBad)
			text += t + blank(s)
			l = append(l, v)
			fine = fine && f
		}
		return text + "]", l, fine
	}
	text, fine := "{"+blank(s), true
	m := Map{}
	for i, n := 0, s.N(4); i < n; i++ {
		if i > 0 {
			text += "," + blank(s)
		}
		k, key := nameText(s)
		if _, dup := m[key]; dup {
			k, key = fmt.Sprintf("key%d", i), fmt.Sprintf("key%d", i)
		}
		t, v, f := literal(s, d-1, allowBad)
		text += k + blank(s) + ":" + blank(s) + t + blank(s)
		m[key] = v
		fine = fine && f
	}
	return text + "}", m, fine
}

// badLiterals are not literals of the language
var badLiterals = []string{"08", "019", "0x", "0xg", "1e", "1e+", "1.5e", "'abc", "\"abc", "'a\\q'", "'\\u12'", "'\\u12g4'", "'\\", "1..2", "1.2.3", "[1,,2]", "[,1]", "[1,]", "[1", "{a:1", "{a 1}", "{:1}", "{a:}", "{1:2}", "{a:1,}", "{'a':1}", "--", "'a''b'", "1_000", "0b11", "$", "$ a", "`a", "tru", "nulll"}

// hasMap finds maps, which cannot be stored
func hasMap(v V) bool {
	switch x := v.(type) {
	case Map:
		return true
	case List:
		for _, e := range x {
			if hasMap(e) {
				return true
			}
		}
	}
	return false
}

func literalCase(t *T) error {
	if t.Pct(12) {
		// not a literal, or a number that is too large
		text := pickFrom(t.Src, badLiterals)
		if t.Bool() {
			var fine bool
			text, _, fine = literal(t.Src, 3, true)
			for i := 0; i < 20 && fine; i++ {
				text, _, fine = literal(t.Src, 3, true)
			}
			if fine {
				text = "99999999999999999999"
			}
		}
		q := "RETURN " + text
		t.Logf("query: %s", q)
		out, fail := runText(q, oc.NewEvalContext(lpg.NewGraph()), nil)
		if fail != nil {
			return fail
		}
		if out.Err == nil {
			return failf("got %s, expected an error", out)
		}
		t.Eval(true, q)
		return nil
	}
	// several literals in one query
	var texts []string
	var values []V
	for i, n := 0, t.Range(1, 12); i < n; i++ {
		text, v, _ := literal(t.Src, 3, false)
		texts = append(texts, text)
		values = append(values, v)
	}
	items := func(prefix string) string {
		s := []string{}
		for i, text := range texts {
			s = append(s, fmt.Sprintf(prefix, text, i))
		}
		return strings.Join(s, ",")
	}
	q, column := "RETURN "+items("%s AS c%d"), "c%d"
	stored := false
	switch t.Weighted(6, 2, 1) {
	case 1:
		for i, v := range values {
			if hasMap(v) {
				texts[i], values[i] = "1", 1
			}
		}
		stored = true
		s := []string{}
		for i, text := range texts {
			s = append(s, fmt.Sprintf("p%d:%s", i, text))
		}
		q = "CREATE (n{" + strings.Join(s, ",") + "}) RETURN n"
	case 2:
		q, column = "RETURN ["+strings.Join(texts, ",")+"] AS c", ""
	}
	t.Logf("query: %q", q)
	ev, perr, fail := parse(q)
	if fail != nil {
		return fail
	}
	if perr != nil {
		return failf("rejected: %v", perr)
	}
	for k := 0; k < 2; k++ {
		gr := newReal()
		out, fail := evaluate(ev, oc.NewEvalContext(gr.g), gr)
		if fail != nil {
			return fail
		}
		if out.Err != nil || len(out.Rows) != 1 {
			return failf("got %s, expected one row", out)
		}
		for i, v := range values {
			var got V
			exists := true
			switch {
			case stored:
				props := gr.abstract().Nodes
				got = nil
				for _, n := range props {
					got = n.Props[fmt.Sprintf("p%d", i)]
				}
			case column == "":
				l, isList := out.Rows[0]["c"].(List)
				if !isList || len(l) != len(values) {
					return failf("got %s, expected a list of %d values", out, len(values))
				}
				got = l[i]
			default:
				got, exists = out.Rows[0][fmt.Sprintf(column, i)]
			}
			if !exists || !same(got, v) {
				return failf("%q evaluates to %s, expected %s", texts[i], show(got), show(v))
			}
			t.Eval(len(texts[i]) > 1, texts[i], k, stored)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: "literals of all types, with their values known by construction (numbers by exact arithmetic): decimal, hexadecimal and octal integers of up to 40 digits, floats with exponents to beyond the range, strings of any characters and all escape sequences in either quote, nested lists and maps; returned, or stored by CREATE; and malformed and unrepresentable literals, which must be errors; non-trivial: the text of the literal is longer than one character",
		Run:  literalCase,
	})
}

// ---------------------------------------------------------------- C04

var reservedWords = strings.Fields("ALL ASC ASCENDING BY CREATE DELETE DESC DESCENDING DETACH EXISTS LIMIT MATCH MERGE ON OPTIONAL ORDER REMOVE RETURN SET SKIP WHERE WITH UNION UNWIND AND AS CONTAINS DISTINCT ENDS IN IS NOT OR STARTS XOR FALSE TRUE NULL CONSTRAINT DO FOR REQUIRE UNIQUE CASE WHEN THEN ELSE END MANDATORY SCALAR OF ADD DROP")
var softWords = []string{"count", "filter", "extract", "any", "none", "single", "COUNT", "Filter", "call", "yield", "a", "F", "e", "_", "__x", "id", "e1", "x1f", "_0"}

// plainName is a name that needs no quotes
func plainName(s *Src) string {
	switch s.Weighted(4, 2, 3) {
	case 0:
		return pickFrom(s, softWords)
	case 1:
		return pick(s, "é", "été", "Ünï", "日本", "имя", "ñ", "ǆ", "ß", "ﬁ", "a€b", "x$", "k1$", "a\u0301", "Ω", "ª", "x‿y", "a_b")
	}
	n := digits(s, 1, "abcdefgnxyzABCNXYZ_") + digits(s, s.N(6), "abcdexyzABCXYZ0123456789_$")
	for _, w := range reservedWords {
		if strings.EqualFold(n, w) {
			return n + "_"
		}
	}
	if strings.EqualFold(n, "call") || strings.EqualFold(n, "yield") {
		return n + "_"
	}
	return n
}

// anyString is any string
func anyString(s *Src, allowEmpty bool) string {
	b := strings.Builder{}
	n := s.Weighted(1, 3, 4, 3, 2, 1, 1)
	if n == 0 && !allowEmpty {
		n = 1
	}
	for i := 0; i < n; i++ {
		switch s.Weighted(4, 2, 3, 1) {
		case 0:
			b.WriteRune(oneRune(s))
		case 1:
			b.WriteString(pick(s, "`", "``", "\\", "\"", "'", "\\n", "\\u0041", "$", "{", "}", ")", "\n", "//", "/*", ";", " "))
		case 2:
			b.WriteString(pick(s, "a", "b", "Name", "x y"))
		case 3:
			b.WriteString(pickFrom(s, reservedWords))
		}
	}
	return b.String()
}

func backquoted(n string) string { return "`" + strings.ReplaceAll(n, "`", "``") + "`" }

// nameText is a name as it is written, and what it means. It is valid for
// labels, types and property keys
func nameText(s *Src) (string, string) {
	switch s.Weighted(5, 2, 3) {
	case 0:
		n := plainName(s)
		if strings.EqualFold(n, "call") || strings.EqualFold(n, "yield") {
			return "`" + n + "`", n
		}
		return n, n
	case 1:
		n := anyCase(s, strings.ToLower(pickFrom(s, reservedWords)))
		return n, n
	}
	n := anyString(s, false)
	if s.Pct(10) {
		n = pick(s, "1", "2", "1a", "0", "007", "9 x", "1.5", "-1", "٣") + pick(s, "", "", n)
	}
	return backquoted(n), n
}

// varText is valid for variables, aliases and parameters
func varText(s *Src) (string, string) {
	text, n := nameText(s)
	if text == n {
		for _, w := range reservedWords {
			if strings.EqualFold(n, w) {
				return "`" + n + "`", n
			}
		}
	}
	return text, n
}

// near is a name that is like another one
func near(s *Src, n string) string {
	r := []rune(n)
	switch s.N(8) {
	case 0:
		if u := strings.ToUpper(n); u != n {
			return u
		}
		return strings.ToLower(n)
	case 1:
		if l := strings.ToLower(n); l != n {
			return l
		}
	case 2:
		return "`" + n + "`"
	case 3:
		return n + " "
	case 4:
		return strings.ReplaceAll(n, "`", "``")
	case 5:
		if len(r) > 1 {
			return string(r[:len(r)-1])
		}
	case 6:
		return strings.Title(n)
	}
	return n + "x"
}

func nameCase(t *T) error {
	labelText, label := nameText(t.Src)
	typeText, typ := nameText(t.Src)
	keyText, key := nameText(t.Src)
	varT, varN := varText(t.Src)
	otherT, otherN := varText(t.Src)
	paramT, paramN := varText(t.Src)
	str := anyString(t.Src, true)
	if t.Pct(40) {
		// the functions of the library
		labelText, keyText = oc.EscapeLabelLiteral(label), oc.EscapePropertyKeyLiteral(key)
		typeText = oc.EscapeLabelLiteral(typ)
	}
	strText := oc.EscapeStringLiteral(str)
	if varN == otherN {
		otherT, otherN = "`other one`", "other one"
	}
	if strings.HasPrefix(paramN, "$") {
		paramT, paramN = "p", "p"
	}
	t.Logf("label %+q, type %+q, key %+q, variables %+q %+q, parameter %+q, string %+q", labelText, typeText, keyText, varT, otherT, paramT, strText)
	gr := newReal()
	g := gr.g
	// what is like the names, but is not the same
	type decoyNode struct {
		label, key string
	}
	decoys := []decoyNode{}
	for i, n := 0, t.N(4); i < n; i++ {
		d := decoyNode{label, key}
		switch t.N(3) {
		case 0:
			d.label = near(t.Src, label)
		case 1:
			d.key = near(t.Src, key)
		case 2:
			d.label, d.key = near(t.Src, label), near(t.Src, key)
		}
		if d.label == label && d.key == key {
			continue
		}
		g.NewNode([]string{d.label}, map[string]interface{}{d.key: str})
		decoys = append(decoys, d)
	}
	dn := []*lpg.Node{}
	for it := g.GetNodes(); it.Next(); {
		dn = append(dn, it.Node())
	}
	if len(dn) > 1 {
		g.NewEdge(dn[0], dn[1], near(t.Src, typ), map[string]interface{}{near(t.Src, key): str})
	}
	for _, d := range decoys {
		t.Logf("also a node with label %q and key %q", d.label, d.key)
	}
	ctx := oc.NewEvalContext(g)
	ctx.SetParameter("$"+paramN, oc.RValue{Value: "param!"})
	before := len(dn)
	run := func(q string) (Outcome, error) {
		t.Logf("query: %s", q)
		out, fail := runText(q, ctx, gr)
		if fail == nil && out.Err != nil {
			fail = failf("failed: %v", out.Err)
		}
		if fail == nil {
			t.Logf("  result: %s", clip(out.String(), 400))
		}
		return out, fail
	}
	// create
	q := "CREATE (" + varT + ":" + labelText + "{" + keyText + ":" + strText + "})-[:" + typeText + "{" + keyText + ":" + strText + "}]->(:End) RETURN " + varT + "," + varT + "." + keyText + " AS " + otherT + ",$" + paramT + " AS x"
	if otherN == "x" || otherN == "1" || otherN == "2" || otherN == "3" {
		return errDiscard
	}
	out, fail := run(q)
	if fail != nil {
		return fail
	}
	if len(out.Rows) != 1 {
		return failf("expected one row")
	}
	row := out.Rows[0]
	node, isNode := row["1"].(NodeV)
	if !isNode || !same(row[otherN], str) || !same(row["x"], "param!") || len(row) != 3 {
		return failf("expected the columns 1 with a node, %q with %q, and x with the parameter", otherN, str)
	}
	n := gr.node[node.ID]
	if ls := n.GetLabels().SortedSlice(); len(ls) != 1 || ls[0] != label {
		return failf("the labels are %q, expected %q", ls, label)
	}
	keys := []string{}
	n.ForEachProperty(func(k string, v interface{}) bool { keys = append(keys, k); return true })
	if len(keys) != 1 || keys[0] != key {
		return failf("the keys are %q, expected %q", keys, key)
	}
	if v, _ := n.GetProperty(key); v != interface{}(str) {
		return failf("the property is %#v, expected %q", v, str)
	}
	edges := 0
	for it := n.GetEdges(lpg.OutgoingEdge); it.Next(); {
		e := it.Edge()
		edges++
		if e.GetLabel() != typ {
			return failf("the type is %q, expected %q", e.GetLabel(), typ)
		}
		if v, _ := e.GetProperty(key); v != interface{}(str) {
			return failf("the property %q of the relationship is %#v, expected %q", key, v, str)
		}
	}
	if edges != 1 {
		return failf("the node has %d relationships", edges)
	}
	v, err := ctx.GetVar(varN)
	if err != nil || v.Get() != interface{}(n) {
		return failf("the variable %q is %v (%v)", varN, v, err)
	}
	t.Eval(true, "create", labelText, typeText, keyText, varT, strText)
	// find
	ctx = oc.NewEvalContext(g)
	q = "MATCH (" + varT + ":" + labelText + "{" + keyText + ":" + strText + "})-[" + otherT + ":" + typeText + "]->() RETURN " + varT + " AS " + otherT + "," + "{" + keyText + ":" + strText + "} AS `the map`," + "type(" + otherT + ") AS `a type`,labels(" + varT + ") AS `l`"
	if otherN == "the map" || otherN == "a type" || otherN == "l" {
		return errDiscard
	}
	out, fail = run(q)
	if fail != nil {
		return fail
	}
	want := map[string]V{otherN: node, "the map": Map{key: str}, "a type": typ, "l": List{label}}
	if len(out.Rows) != 1 || !same(Map(out.Rows[0]), Map(want)) {
		return failf("expected the row %s", show(Map(want)))
	}
	t.Eval(len(decoys) > 0, "find", labelText, typeText, keyText, varT, otherT, strText, fmt.Sprint(decoys))
	// the names in later clauses
	if t.Pct(50) {
		ctx = oc.NewEvalContext(g)
		ctx.SetParameter("$"+paramN, oc.RValue{Value: "param!"})
		q = "MATCH (" + varT + ":" + labelText + ") WHERE " + varT + "." + keyText + "=" + strText + " MATCH (" + varT + ")-[" + otherT + ":" + typeText + "]->() RETURN " + varT + " AS " + otherT + ",$" + paramT + " AS " + varT + " ORDER BY " + otherT + "." + keyText + "," + varT
		out, fail = run(q)
		if fail != nil {
			return fail
		}
		want = map[string]V{otherN: node, varN: "param!"}
		if len(out.Rows) != 1 || !same(Map(out.Rows[0]), Map(want)) {
			return failf("expected the row %s", show(Map(want)))
		}
		t.Eval(true, "later", labelText, typeText, keyText, varT, otherT, strText)
	}
	// a pattern expression
	if t.Pct(30) {
		part, err := oc.ParsePatternExpr("(target:" + labelText + ")-[:" + typeText + "]->(this)")
		if err != nil {
			return failf("the pattern is rejected: %v", err)
		}
		it := n.GetEdges(lpg.OutgoingEdge)
		it.Next()
		found, err := part.FindRelative(it.Edge().GetTo())
		if err != nil || len(found) != 1 || found[0] != n {
			return failf("FindRelative returns %v, %v", found, err)
		}
	}
	// change
	ctx = oc.NewEvalContext(g)
	labelText2, label2 := nameText(t.Src)
	keyText2, key2 := nameText(t.Src)
	if label2 == label || key2 == key {
		return nil
	}
	q = "MATCH (" + varT + ":" + labelText + "{" + keyText + ":" + strText + "})-[]->() SET " + varT + "." + keyText2 + "=" + varT + "." + keyText + "," + varT + ":" + labelText2 + " REMOVE " + varT + "." + keyText + "," + varT + ":" + labelText
	if _, fail = run(q); fail != nil {
		return fail
	}
	if ls := n.GetLabels().SortedSlice(); len(ls) != 1 || ls[0] != label2 {
		return failf("the labels are %q, expected %q", ls, label2)
	}
	keys = nil
	n.ForEachProperty(func(k string, v interface{}) bool { keys = append(keys, k); return true })
	if v, _ := n.GetProperty(key2); len(keys) != 1 || keys[0] != key2 || v != interface{}(str) {
		return failf("the keys are %q, expected %q, and the value is %#v, expected %q", keys, key2, v, str)
	}
	t.Eval(true, "change", labelText2, keyText2, varT)
	// the others are as before
	for i, d := range decoys {
		ks := []string{}
		dn[i].ForEachProperty(func(k string, v interface{}) bool { ks = append(ks, k); return true })
		sort.Strings(ks)
		if ls := dn[i].GetLabels().SortedSlice(); len(ls) != 1 || ls[0] != d.label || len(ks) != 1 || ks[0] != d.key {
			return failf("the node with label %q and key %q has now the labels %q and the keys %q", d.label, d.key, ls, ks)
		}
	}
	if g.NumNodes() != before+2 {
		return failf("there are %d nodes, expected %d", g.NumNodes(), before+2)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "labels, types, property keys, variables, aliases and parameters with plain, reserved (in any case), non-ASCII and quoted names, and strings of any characters, written by hand or by the escaping functions, used in CREATE, MATCH, SET, REMOVE, RETURN and path patterns, on a graph with other elements whose names differ slightly; the names and values in the graph, the result and the context must be exactly those written; non-trivial: the query ran, for MATCH with similar elements in the graph",
		Run:  nameCase,
	})
}
