package main

import (
	_ "embed"
	"fmt"
	"strings"
)

// The grammar of the language, from which texts are derived. It is a copy,
// so that the texts do not change with the code

//go:embed grammar.g4
var grammarText string

type gnode struct {
	kind string // alt, seq, lit, ref, any, not
	text string // lit, ref, any, not
	op   byte   // 0, ?, *, +
	sub  []*gnode
}

type grammar struct {
	rules  map[string]*gnode
	height map[string]int
}

type gtoken struct{ kind, text string }

func gtokens(text string) []gtoken {
	var out []gtoken
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c <= ' ':
			i++
		case strings.HasPrefix(text[i:], "/*"):
			i += strings.Index(text[i:], "*/") + 2
		case strings.HasPrefix(text[i:], "//"):
			i += strings.Index(text[i:], "\n")
		case c == '\'':
			j := i + 1
			for text[j] != '\'' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, gtoken{"lit", text[i+1 : j]})
			i = j + 1
		case c == '[':
			j := i + 1
			for text[j] != ']' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, gtoken{"class", text[i+1 : j]})
			i = j + 1
		case strings.IndexByte(":;|()?*+~", c) >= 0:
			out = append(out, gtoken{"op", string(c)})
			i++
		default:
			j := i
			for j < len(text) && (text[j] == '_' || text[j] >= '0' && text[j] <= '9' || text[j] >= 'A' && text[j] <= 'Z' || text[j] >= 'a' && text[j] <= 'z') {
				j++
			}
			if j == i {
				panic(fmt.Sprintf("grammar: %q", text[i:i+10]))
			}
			out = append(out, gtoken{"id", text[i:j]})
			i = j
		}
	}
	return out
}

func parseGrammar(text string) *grammar {
	ts := gtokens(text)
	g := &grammar{rules: map[string]*gnode{}, height: map[string]int{}}
	i := 0
	is := func(op string) bool { return i < len(ts) && ts[i].kind == "op" && ts[i].text == op }
	var alts func() *gnode
	item := func() *gnode {
		t := ts[i]
		i++
		var n *gnode
		switch {
		case t.kind == "lit":
			s := t.text
			switch {
			case strings.HasPrefix(s, "\\u"):
				var r rune
				fmt.Sscanf(s[2:], "%x", &r)
				s = string(r)
			default:
				s = strings.ReplaceAll(strings.ReplaceAll(s, "\\'", "'"), "\\\\", "\\")
			}
			n = &gnode{kind: "lit", text: s}
		case t.kind == "class":
			n = &gnode{kind: "any", text: t.text}
		case t.kind == "id":
			n = &gnode{kind: "ref", text: t.text}
		case t.text == "~":
			n = &gnode{kind: "not", text: ts[i].text}
			i++
		case t.text == "(":
			n = alts()
			i++
		default:
			panic("grammar: " + t.text)
		}
		for is("?") || is("*") || is("+") {
			n = &gnode{kind: "seq", sub: []*gnode{n}, op: ts[i].text[0]}
			i++
		}
		return n
	}
	alts = func() *gnode {
		a := &gnode{kind: "alt"}
		seq := &gnode{kind: "seq"}
		for !is(")") && !is(";") {
			if is("|") {
				i++
				a.sub = append(a.sub, seq)
				seq = &gnode{kind: "seq"}
				continue
			}
			seq.sub = append(seq.sub, item())
		}
		a.sub = append(a.sub, seq)
		return a
	}
	for i < len(ts) {
		if ts[i].text == "grammar" {
			i += 3
			continue
		}
		if ts[i].text == "fragment" {
			i++
		}
		name := ts[i].text
		i += 2
		g.rules[name] = alts()
		i++
	}
	// heights
	for name := range g.rules {
		g.height[name] = 1000
	}
	for changed := true; changed; {
		changed = false
		for name, n := range g.rules {
			if h := g.nodeHeight(n) + 1; h < g.height[name] {
				g.height[name] = h
				changed = true
			}
		}
	}
	return g
}

func (g *grammar) nodeHeight(n *gnode) int {
	if n.op == '?' || n.op == '*' {
		return 0
	}
	switch n.kind {
	case "ref":
		if n.text == "EOF" {
			return 0
		}
		return g.height[n.text]
	case "alt":
		best := 1000
		for _, a := range n.sub {
			if h := g.nodeHeight(a); h < best {
				best = h
			}
		}
		return best
	case "seq":
		most := 0
		for _, a := range n.sub {
			if h := g.nodeHeight(a); h > most {
				most = h
			}
		}
		return most
	}
	return 0
}

var cypher = parseGrammar(grammarText)

// deriver derives a text from the grammar
type deriver struct {
	*Src
	fuel int
	b    strings.Builder
	used map[string]bool
}

var varPool = []string{"n", "m", "r", "x", "p", "v", "this"}
var namePool = []string{"A", "B", "X", "Y", "k", "s", "w", "b", "this"}
var paramPool = []string{"p", "q", "x", "1", "n", "0"}

func (d *deriver) rule(name string) {
	d.fuel--
	d.used[name] = true
	switch name {
	case "EOF":
		return
	case "SP":
		switch d.Weighted(20, 1, 1) {
		case 0:
			d.b.WriteString(" ")
		case 1:
			d.b.WriteString(pickFrom(d.Src, spaces))
		case 2:
			d.b.WriteString(" " + comment(d.Src, false))
		}
		return
	case "oC_Variable":
		if d.Pct(95) {
			d.b.WriteString(pickFrom(d.Src, varPool))
			return
		}
	case "oC_SchemaName":
		if d.Pct(90) {
			d.b.WriteString(pickFrom(d.Src, namePool))
			return
		}
	case "oC_FunctionName":
		if d.Pct(95) {
			d.b.WriteString(pick(d.Src, "date", "labels", "left", "ltrim", "parseDate", "print", "range", "right", "rtrim", "size", "split", "substring", "timestamp", "toFloat", "toFloatOrNull", "toInteger", "toIntegerOrNull", "trim", "type"))
			return
		}
	case "oC_Parameter":
		if d.Pct(95) {
			d.b.WriteString("$" + pickFrom(d.Src, paramPool))
			return
		}
	case "oC_IntegerLiteral":
		switch d.Weighted(8, 1, 1) {
		case 0:
			d.b.WriteString(fmt.Sprint(d.N(5)))
		case 1:
			t, _, _ := intLiteral(d.Src)
			d.b.WriteString(t)
		case 2:
			d.b.WriteString(fmt.Sprint(d.N(100)))
		}
		return
	case "oC_DoubleLiteral":
		if d.Bool() {
			d.b.WriteString(pick(d.Src, "0.5", "1.0", ".25", "1e3", "2.5E-1"))
		} else {
			t, _, _ := floatLiteral(d.Src)
			d.b.WriteString(t)
		}
		return
	case "StringLiteral":
		if d.Bool() {
			d.b.WriteString(pick(d.Src, "'a'", "\"\"", "'k'", "'1'", "'2020-01-02'", "'x,y'"))
		} else {
			t, _ := stringLiteral(d.Src)
			d.b.WriteString(t)
		}
		return
	case "oC_SymbolicName", "UnescapedSymbolicName", "EscapedSymbolicName":
		t, _ := varText(d.Src)
		d.b.WriteString(t)
		return
	}
	usual := func(pct int, alternatives ...int) bool {
		if !d.Pct(pct) {
			return false
		}
		d.node(cypher.rules[name].sub[pickFrom(d.Src, alternatives)])
		return true
	}
	switch name {
	case "oC_Query", "oC_ReadingClause":
		if usual(95, 0) {
			return
		}
	case "oC_SingleQuery":
		if usual(93, 0) {
			return
		}
	case "oC_Atom":
		// literal, parameter, CASE, parentheses, function, variable
		if d.fuel > 0 && usual(88, 0, 0, 1, 2, 11, 12, 12, 13, 13, 13) {
			return
		}
	case "oC_Literal":
		// a list or a map is longer
		if usual(60, 0, 1, 2, 3) {
			return
		}
	}
	n := cypher.rules[name]
	if n == nil {
		panic("no rule " + name)
	}
	d.node(n)
}

func (d *deriver) node(n *gnode) {
	times := 1
	switch n.op {
	case '?':
		times = 0
		if len(n.sub) == 1 && n.sub[0].kind == "ref" && n.sub[0].text == "SP" {
			if d.Pct(80) {
				times = 1
			}
		} else if d.fuel > 0 && d.Pct(35) {
			times = 1
		}
	case '*':
		times = 0
		for d.fuel > 0 && times < 3 && d.Pct(14) {
			times++
		}
	case '+':
		for d.fuel > 0 && times < 3 && d.Pct(14) {
			times++
		}
	}
	for ; times > 0; times-- {
		switch n.kind {
		case "lit":
			d.b.WriteString(n.text)
		case "ref":
			if n.text != "EOF" {
				d.rule(n.text)
			}
		case "any", "not":
			d.b.WriteString(pick(d.Src, "a", "x", "1", "_", " "))
		case "seq":
			for _, s := range n.sub {
				d.node(s)
			}
		case "alt":
			if len(n.sub) == 1 {
				d.node(n.sub[0])
				break
			}
			if d.fuel > 0 {
				d.node(pickFrom(d.Src, n.sub))
				break
			}
			best := n.sub[0]
			for _, a := range n.sub {
				if cypher.nodeHeight(a) < cypher.nodeHeight(best) {
					best = a
				}
			}
			d.node(best)
		}
	}
}

// derive derives a text from a rule of the grammar
func derive(s *Src, rule string, fuel int) (string, map[string]bool) {
	d := &deriver{Src: s, fuel: fuel, used: map[string]bool{}}
	d.rule(rule)
	return d.b.String(), d.used
}
