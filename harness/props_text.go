package main

import (
	"strings"
	"unicode"

	oc "github.com/cloudprivacylabs/opencypher"
)

// ---------------------------------------------------------------- C02

var spaces = []string{" ", "\t", "\n", "\v", "\f", "\r", "\x1c", "\x1d", "\x1e", "\x1f", "\u1680", "\u180e", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u205f", "\u3000", "\u00a0", "\u2007", "\u202f", "\r\n", "   "}

var dashes = []string{"\u00ad", "\u2010", "\u2011", "\u2012", "\u2013", "\u2014", "\u2015", "\u2212", "\ufe58", "\ufe63", "\uff0d"}
var lefts = []string{"\u27e8", "\u3008", "\ufe64", "\uff1c"}
var rights = []string{"\u27e9", "\u3009", "\ufe65", "\uff1e"}

var commentWords = []string{"", "x", "RETURN 1", "'", "\"", "`", "(", "}", ";", "/", "//", "* ", "\\", "é", "日本", "$a", " ", "-->", "*x", "/* "}

// comment is white space
func comment(s *Src, last bool) string {
	text := ""
	for i, n := 0, s.N(4); i < n; i++ {
		text += pickFrom(s, commentWords)
	}
	if s.Bool() {
		text = strings.ReplaceAll(text, "* ", "*")
		return "//" + text + pick(s, "\n", "\r\n")
	}
	if strings.HasSuffix(text, "*") {
		text += " "
	}
	if s.Pct(30) {
		text += "\n" + text
	}
	return "/*" + text + "*/"
}

// space is one or more white space characters or comments
func space(s *Src, afterSlash bool) string {
	text := ""
	if afterSlash {
		text = pickFrom(s, spaces)
	}
	for i, n := 0, 1+s.Weighted(6, 2, 1); i < n; i++ {
		switch s.Weighted(3, 4, 2) {
		case 0:
			text += " "
		case 1:
			text += pickFrom(s, spaces)
		case 2:
			text += comment(s, false)
		}
	}
	return text
}

func letterCase(s *Src, w string) string {
	switch s.N(4) {
	case 0:
		return w
	case 1:
		if l := strings.ToLower(w); l != w {
			return l
		}
		return strings.ToUpper(w)
	case 2:
		return w[:1] + strings.ToLower(w[1:])
	}
	b := []byte(w)
	for i := range b {
		if s.Bool() {
			b[i] = byte(unicode.ToLower(rune(b[i])))
		} else {
			b[i] = byte(unicode.ToUpper(rune(b[i])))
		}
	}
	return string(b)
}

// keywordCase writes marked text with random letter case of its keywords
func keywordCase(s *Src, marked string) string {
	b := strings.Builder{}
	for i := 0; i < len(marked); i++ {
		if marked[i:i+1] == mKw {
			if e := strings.Index(marked[i:], mKwE); e > 1 {
				b.WriteString(letterCase(s, marked[i+1:i+e]))
				i += e
				continue
			}
		}
		b.WriteByte(marked[i])
	}
	return plain(b.String())
}

// layout writes marked text with random white space, comments and
// letter case
func layout(s *Src, marked string) string {
	noise := pick(s, 5, 20, 60)
	exotic := s.Pct(30)
	b := strings.Builder{}
	afterSlash := func() bool { return strings.HasSuffix(b.String(), "/") }
	if s.Pct(noise) {
		b.WriteString(space(s, false))
	}
	oneOf := func(usual string, others []string) {
		if exotic && s.Bool() {
			b.WriteString(pickFrom(s, others))
		} else {
			b.WriteString(usual)
		}
	}
	for i := 0; i < len(marked); i++ {
		switch marked[i : i+1] {
		case mSP:
			if s.Pct(noise) {
				b.WriteString(space(s, afterSlash()))
			} else {
				b.WriteString(" ")
			}
		case mPad:
			switch s.N(3) {
			case 0:
				b.WriteString(" ")
			case 1:
				if s.Pct(noise) {
					b.WriteString(space(s, afterSlash()))
				}
			}
		case mOpt:
			if s.Pct(noise / 2) {
				b.WriteString(space(s, afterSlash()))
			}
		case mKw:
			e := strings.Index(marked[i:], mKwE)
			b.WriteString(letterCase(s, marked[i+1:i+e]))
			i += e
		case mDash:
			oneOf("-", dashes)
		case mLeft:
			oneOf("<", lefts)
		case mRight:
			oneOf(">", rights)
		default:
			b.WriteByte(marked[i])
		}
	}
	switch s.Weighted(4, 2, 1, 2) {
	case 1:
		b.WriteString(";")
	case 2:
		b.WriteString(space(s, afterSlash()) + ";" + space(s, false))
	case 3:
		b.WriteString(space(s, false))
		if s.Bool() {
			b.WriteString("//" + pick(s, "", "the end"))
		}
	}
	return b.String()
}

// place is a position between two tokens
type place struct{ at, end int }

// places returns the positions of marked text where tokens can be inserted
func places(marked string) []place {
	var out []place
	for i := 0; i < len(marked); i++ {
		switch marked[i : i+1] {
		case mSP, mOpt, mPad:
			out = append(out, place{i, i + 1})
		}
	}
	return append(out, place{0, 0}, place{len(marked), len(marked)})
}

// bracketsOf returns the positions of the brackets of a text which are not
// quoted
func unquoted(text, set string) []int {
	var out []int
	quote := byte(0)
	for i := 0; i < len(text); i++ {
		c := text[i]
		switch {
		case quote == 0 && (c == '\'' || c == '"' || c == '`'):
			quote = c
		case quote != 0 && c == '\\' && quote != '`':
			i++
		case quote != 0 && c == quote:
			quote = 0
		case quote == 0 && strings.IndexByte(set, c) >= 0:
			out = append(out, i)
		}
	}
	return out
}

// notTruncatable are the keywords which can end a query
var canEnd = map[string]bool{"NULL": true, "TRUE": true, "FALSE": true, "END": true, "ASC": true, "DESC": true, "ASCENDING": true, "DESCENDING": true}

// notFunctions are the keywords that cannot be replaced by a name
func keepsMeaning(w string) bool {
	switch strings.ToUpper(w) {
	case "NOT", "DISTINCT", "NULL", "TRUE", "FALSE":
		return true
	}
	return false
}

// corrupt makes a text which is not a query of a marked query
func corrupt(s *Src, marked string) (string, string) {
	ps := places(marked)
	insert := func(p place, what string) string {
		return plain(marked[:p.at]) + what + plain(marked[p.end:])
	}
	var kws []place
	for i := 0; i < len(marked); i++ {
		if marked[i:i+1] == mKw {
			kws = append(kws, place{i, i + strings.Index(marked[i:], mKwE)})
		}
	}
	text := plain(marked)
	switch s.N(15) {
	case 0, 1:
		what := pick(s, "#", "@", "?", "!", "~", "&", "\\", "%%", "^^", "..;", "\u200b", "\x00")
		if s.Bool() {
			what = " " + what + " "
		}
		return insert(pickFrom(s, ps), what), "an illegal character is inserted"
	case 2:
		what := pick(s, "(", ")", "[", "]", "{", "}")
		if s.Bool() {
			what = " " + what + " "
		}
		return insert(pickFrom(s, ps), what), "a bracket is inserted"
	case 3:
		at := unquoted(text, "()[]{}")
		if len(at) == 0 {
			return "", ""
		}
		i := pickFrom(s, at)
		return text[:i] + text[i+1:], "a bracket is removed"
	case 4:
		if strings.ContainsAny(text, "'\"`") {
			return "", ""
		}
		return insert(pickFrom(s, ps), pick(s, "'", "\"", "`")), "a quote is inserted"
	case 5:
		var cut []place
		for _, k := range kws {
			if !canEnd[strings.ToUpper(marked[k.at+1:k.end])] {
				cut = append(cut, k)
			}
		}
		if len(cut) == 0 {
			return "", ""
		}
		return plain(marked[:pickFrom(s, cut).end]) + pick(s, "", " ", ";"), "the query ends after a keyword"
	case 6:
		// within brackets
		p := pickFrom(s, ps)
		cut := plain(marked[:p.at])
		depth := len(unquoted(cut, "([{")) - len(unquoted(cut, ")]}"))
		if depth == 0 {
			return "", ""
		}
		return cut, "the query ends within brackets"
	case 7:
		at := unquoted(text, ",")
		if len(at) == 0 {
			return "", ""
		}
		i := pickFrom(s, at)
		return text[:i] + pick(s, ",,", ", ,", ",,,") + text[i+1:], "a comma is doubled"
	case 8:
		return insert(pickFrom(s, ps), " "+letterCase(s, pick(s, "THEN", "OF", "SCALAR", "DO", "FOR", "REQUIRE", "MANDATORY", "CONSTRAINT", "DROP", "ADD", "UNIQUE"))+" "), "a reserved word is inserted"
	case 9, 10:
		junk := pick(s, " foo", " foo bar", ";;", "; RETURN 1", "; ;", ";x", ",", ", ", " AS", " 1 2", " 'x' 'y'", " RETURN", " WHERE true AND", " UNION", " UNION ALL", " =", " ==1", " ON", " LIMIT", "/* open", "/*/", "\n'", " ORDER BY", " $")
		return text + junk, "text is appended"
	case 11, 12:
		var ks []place
		for _, k := range kws {
			if !keepsMeaning(marked[k.at+1 : k.end]) {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return "", ""
		}
		k := pickFrom(s, ks)
		w := marked[k.at+1 : k.end]
		switch s.N(3) {
		case 0:
			return plain(marked[:k.end] + "X" + marked[k.end:]), "the keyword " + w + " is misspelt"
		case 1:
			if w == "ON" || w == "OR" || w == "AS" || w == "BY" || w == "IN" || w == "IS" {
				return "", ""
			}
			return plain(marked[:k.at+1] + "X" + marked[k.at+1:]), "the keyword " + w + " is misspelt"
		}
		if w == "RETURN" || w == "MATCH" || w == "CREATE" || w == "MERGE" {
			return plain(marked[:k.end]) + plain(mSP+mKw+w+mKwE) + plain(marked[k.end:]), "the keyword " + w + " is repeated"
		}
	case 13:
		// without the first word
		i := strings.Index(marked, mKwE)
		if i < 0 || marked[1:i] == "OPTIONAL" || marked[1:i] == "DETACH" {
			return "", ""
		}
		return plain(marked[i:]), "the first keyword is removed"
	case 14:
		return pick(s, "", " ", ";", "\n", "// RETURN 1", "/* RETURN 1 */", "()", "RETURN", "RETURN *,", "MATCH", "CREATE", "MATCH (n)", "MATCH (n) WHERE true", "OPTIONAL MATCH (n)", "UNION RETURN 1", "RETURN 1 UNION", "MATCH (n) MATCH (m)", "DELETE", "SET n.a", "WHERE true RETURN 1", "LIMIT 1", "ORDER BY n", "RETURN 1 MATCH (n)", "CREATE (a) MATCH (b) RETURN b", "RETURN 1 LIMIT 1 SKIP 1", "RETURN 1 SKIP 1 ORDER BY 1", "(a)-->(b)", "MATCH (a)-[]- RETURN a", "MATCH (a) -> (b) RETURN a", "MATCH (a)--->(b) RETURN a", "MATCH (a)-[r]>(b) RETURN a", "MATCH a RETURN a", "MATCH (a b) RETURN a", "MATCH (a:) RETURN a", "MATCH (a)-[*1..2..3]->(b) RETURN a", "MATCH (a)-[*x]->(b) RETURN a", "MATCH (a), RETURN a", "MATCH (a) (b) RETURN a", "CREATE (a {b}) RETURN a", "CREATE (a {b:}) RETURN a", "RETURN 1 AS 2", "RETURN 1 AS 'x'", "RETURN 1 AS a.b", "RETURN a b", "RETURN 1 +", "RETURN * 2", "RETURN 1 2", "RETURN NOT", "RETURN 1 = = 2", "RETURN 1 IN", "RETURN x IS", "RETURN x IS NOT", "RETURN CASE END", "RETURN CASE WHEN true END", "RETURN CASE WHEN true THEN 1 ELSE END", "RETURN CASE x WHEN 1 THEN 2", "RETURN a.", "RETURN .a", "RETURN f(", "RETURN f(,)", "RETURN f(1,)", "RETURN [1", "RETURN {a}", "RETURN (1", "RETURN 1)", "RETURN ()", "RETURN -", "RETURN !a", "RETURN a != b", "RETURN a && b", "RETURN a || b", "RETURN a == b", "MERGE (a),(b)", "MERGE (a) ON DELETE SET a.x = 1", "SET 1 = 2", "REMOVE 1", "MATCH (n) REMOVE n", "MATCH (n) SET n", "MATCH (n) SET n += ", "MATCH (n) DETACH n", "MATCH (n) DELETE n,", "RETURN DISTINCT", "RETURN 1, DISTINCT 2", "UNION", "RETURN 1 UNION ALL ALL RETURN 2"), "not a query"
	}
	return "", ""
}

func corruptCase(t *T, q *QGen, query *Query, g *MGraph) error {
	marked := query.marked()
	// Nothing in the query ends with a name that continues it
	for i := 0; i < 3; i++ {
		text, how := corrupt(t.Src, marked)
		if how == "" {
			continue
		}
		t.Logf("%s: %q", how, text)
		ev, perr, fail := parse(text)
		if fail != nil {
			return fail
		}
		if perr == nil && ev != nil {
			return failf("%s: %q is not rejected", how, text)
		}
		gr := build(g, BuildOpts{})
		before := snapshot(gr)
		v, err := oc.ParseAndEvaluate(text, newContext(gr, q.bindEnv()))
		if err == nil || v != nil {
			return failf("%s: ParseAndEvaluate returns %v, %v for %q, which Parse rejects", how, v, err, text)
		}
		if after := snapshot(gr); after != before {
			return failf("the rejected query %q changes the graph to\n%s", text, after)
		}
		t.Eval(true, text)
	}
	return nil
}

func (q *QGen) anyQuery() *Query {
	if q.Pct(45) {
		return q.updateQuery()
	}
	return q.readQuery()
}

func textCase(t *T) error {
	o := GraphOpts{MaxNodes: 5, MaxEdges: 6, Density: 50}
	g := genGraph(t.Src, o)
	q := newQGen(t.Src, g)
	if t.Pct(8) {
		return patternText(t)
	}
	if t.Pct(25) {
		return operatorText(t)
	}
	query := q.anyQuery()
	if query.Parts[0].Ret != nil && t.Pct(15) && !query.updates() {
		part := query.Parts[0]
		part.Ret = &Ret{Items: part.Ret.Items, Distinct: part.Ret.Distinct}
		if len(part.Ret.Items) > 0 {
			query = &Query{Parts: []Single{part, part}, All: []bool{t.Bool()}}
		}
	}
	if t.Pct(45) {
		t.Logf("query: %s", query.text())
		return corruptCase(t, q, query, g)
	}
	for i := 0; i < 2; i++ {
		text := layout(t.Src, query.marked())
		t.Logf("layout: %q", text)
		ev, err := mustParse(t, text)
		if err != nil {
			return err
		}
		for j := 0; j < 2; j++ {
			gj := g
			if j > 0 {
				gj = mutate(t.Src, g)
			}
			logGraph(t, "graph", gj)
			r, err := runQuery(t, ev, query, gj, withGraph(q.bindEnv(), gj), buildOpts(t.Src, gj))
			if err != nil {
				return err
			}
			if r.Skipped {
				continue
			}
			t.Eval(text != query.text(), text, graphKey(gj, r.Exec.Base))
		}
	}
	return nil
}

// operatorText checks the layout and letter case of operators
func operatorText(t *T) error {
	gen := newGen(t.Src, "cmp", "bool", "list", "str", "null", "case", "func")
	gen.pNull = 5
	var op func(d int) *E
	op = func(d int) *E {
		truth := func() *E {
			if d > 0 && t.Pct(60) {
				return op(d - 1)
			}
			return lit(pick[V](t.Src, true, false, nil))
		}
		str := func() *E { return lit(pick(t.Src, "", "a", "ab", "abc", "b", "bc", "A")) }
		switch t.N(11) {
		case 0, 1, 2:
			return &E{K: pick(t.Src, "starts", "ends", "contains"), A: []*E{str(), str()}}
		case 3:
			return &E{K: "in", A: []*E{lit(t.N(4)), listOf(lit(1), lit(t.N(4)), lit(2))}}
		case 4:
			return &E{K: pick(t.Src, "isnull", "notnull"), A: []*E{truth()}}
		case 5:
			return &E{K: pick(t.Src, "and", "or", "xor"), A: []*E{truth(), truth()}}
		case 6:
			return unary("not", truth())
		case 7:
			return E{K: "case", A: []*E{truth(), truth(), truth(), truth()}, G: t.Bool()}.caseParts()
		case 8:
			return cmp(pick(t.Src, "=", "<>", "<", "<=", ">", ">="), lit(t.N(3)), lit(t.N(3)))
		}
		return gen.expr("bool", 2)
	}
	e := op(2)
	for i := 0; i < 4; i++ {
		text := layout(t.Src, kw("RETURN")+mSP+e.text(0))
		if i%2 == 0 {
			text = keywordCase(t.Src, kw("RETURN")+mSP+e.text(0))
		}
		t.Logf("query: %q", text)
		ev, err := mustParse(t, text)
		if err != nil {
			return err
		}
		env := gen.bindEnv()
		if env.G == nil {
			env.G = newMGraph()
		}
		want := e.eval(env)
		gr := build(env.G, BuildOpts{})
		out, fail := evaluate(ev, newContext(gr, env), gr)
		if fail != nil {
			return fail
		}
		t.Logf("  with %s: %s (expected %s)", showEnv(env), out, showR(want))
		if err := checkSingle(out, want, "1"); err != nil {
			return err
		}
		t.Eval(want.st == ok, text, showEnv(env))
	}
	return nil
}

// caseParts leaves out the last part of a CASE without ELSE
func (e E) caseParts() *E {
	n := len(e.A)
	if e.G == (n%2 == 0) {
		n--
	}
	e.A = e.A[:n]
	return &e
}

// patternText checks texts that are not path patterns
func patternText(t *T) error {
	g := genGraph(t.Src, GraphOpts{MaxNodes: 4, MaxEdges: 4, Density: 50})
	q := newQGen(t.Src, g)
	p := q.pathPat(t.Range(0, 2))
	marked := p.text()
	text, how := "", ""
	ps := places(marked)
	at := pickFrom(t.Src, ps)
	insert := func(what string) string { return plain(marked[:at.at]) + what + plain(marked[at.end:]) }
	switch t.N(5) {
	case 0:
		text, how = plain(marked)+pick(t.Src, " foo", ")", "(", ";", ",", ",(b)", " RETURN 1", "--", "-->", "-[", " WHERE true", "'", "#", " MATCH (n) RETURN n"), "text is appended"
	case 1:
		text, how = insert(pick(t.Src, "(", ")", "[", "]", "{", "}")), "a bracket is inserted"
	case 2:
		text, how = insert(pick(t.Src, "#", "@", "?", "!", "~", "&", "\\", ";")), "a character is inserted"
	case 3:
		s := plain(marked)
		b := pickFrom(t.Src, unquoted(s, "()[]{}"))
		text, how = s[:b]+s[b+1:], "a bracket is removed"
	case 4:
		text, how = pick(t.Src, "", " ", "this", "-->", "(this)-->", "-->(target)", "(this)-(target)", "MATCH (this)-->(target)", "(this)<[a]-(target)", "(this),(target)", "[this]->(target)"), "not a pattern"
	}
	t.Logf("%s: %q", how, text)
	part, err := oc.ParsePatternExpr(text)
	if err == nil {
		return failf("%s: the pattern %q is not rejected: %v", how, text, part)
	}
	t.Eval(true, text)
	return nil
}

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "random queries (reading and updating) written with random white space of every kind, comments, other dashes and arrowheads, keywords in any letter case, and trailing white space and semicolon, whose results and effects are compared to the reference interpreter; and queries and patterns made invalid by construction (inserted, removed, doubled or misspelt tokens, brackets, quotes, truncation, appended text, fixed invalid texts), which must be rejected by Parse, ParseAndEvaluate and ParsePatternExpr without an effect; non-trivial: the text differs from the usual layout, or is invalid",
		Run:  textCase,
	})
}
