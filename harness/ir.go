package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// Term is this framework's own representation of a grammar term, from which
// the terms and grammar texts given to the code under test are made.
type Term struct {
	K     string  `json:"k"`           // s re rule seq alt stack delim quant named ref ext look scope cut
	S     string  `json:"s,omitempty"` // text, regexp, or name
	T     []*Term `json:"t,omitempty"` // children (delim: term, sep)
	Min   int     `json:"min,omitempty"`
	Max   int     `json:"max,omitempty"`
	Assoc int     `json:"assoc,omitempty"`
	Lead  bool    `json:"lead,omitempty"`
	Trail bool    `json:"trail,omitempty"`
	Def   *string `json:"def,omitempty"`
	G     []Rule  `json:"g,omitempty"`

	part bool // of what a delim stands for, rather than of the grammar
}

// Rule is one production.
type Rule struct {
	Name string `json:"n"`
	T    *Term  `json:"t"`
}

// Grammar is an ordered list of productions.
type Grammar []Rule

func (g Grammar) get(name string) *Term {
	for _, r := range g {
		if r.Name == name {
			return r.T
		}
	}
	return nil
}

func (g Grammar) has(name string) bool { return g.get(name) != nil }

func lit(s string) *Term              { return &Term{K: "s", S: s} }
func re(s string) *Term               { return &Term{K: "re", S: s} }
func ruleRef(s string) *Term          { return &Term{K: "rule", S: s} }
func seqOf(t ...*Term) *Term          { return &Term{K: "seq", T: t} }
func altOf(t ...*Term) *Term          { return &Term{K: "alt", T: t} }
func named(n string, t *Term) *Term   { return &Term{K: "named", S: n, T: []*Term{t}} }
func quant(t *Term, lo, hi int) *Term { return &Term{K: "quant", T: []*Term{t}, Min: lo, Max: hi} }
func look(t *Term) *Term              { return &Term{K: "look", T: []*Term{t}} }
func scoped(t *Term, g Grammar) *Term { return &Term{K: "scope", T: []*Term{t}, G: g} }
func cut(t *Term) *Term               { return &Term{K: "cut", T: []*Term{t}} }
func delim(t, sep *Term, assoc int, lead, trail bool) *Term {
	return &Term{K: "delim", T: []*Term{t, sep}, Assoc: assoc, Lead: lead, Trail: trail}
}

// clone copies the term, applying f to every node bottom-up.
func (t *Term) mapTerm(f func(*Term) *Term) *Term {
	c := *t
	c.T = nil
	for _, k := range t.T {
		c.T = append(c.T, k.mapTerm(f))
	}
	c.G = nil
	for _, r := range t.G {
		c.G = append(c.G, Rule{r.Name, r.T.mapTerm(f)})
	}
	return f(&c)
}

func (t *Term) clone() *Term { return t.mapTerm(func(t *Term) *Term { return t }) }

func (g Grammar) mapTerms(f func(*Term) *Term) Grammar {
	out := Grammar{}
	for _, r := range g {
		out = append(out, Rule{r.Name, r.T.mapTerm(f)})
	}
	return out
}

func (g Grammar) clone() Grammar { return g.mapTerms(func(t *Term) *Term { return t }) }

// walk visits the term and its descendants, including nested grammars.
func (t *Term) walk(f func(*Term)) {
	f(t)
	for _, k := range t.T {
		k.walk(f)
	}
	for _, r := range t.G {
		r.T.walk(f)
	}
}

func (g Grammar) walk(f func(*Term)) {
	for _, r := range g {
		r.T.walk(f)
	}
}

// usesKinds returns the kinds of terms that occur in the grammar.
func (g Grammar) kinds() map[string]int {
	m := map[string]int{}
	g.walk(func(t *Term) { m[t.K]++ })
	return m
}

// --- conversion to parser terms ----------------------------------------------

func (t *Term) toParser() parser.Term {
	kid := func(i int) parser.Term { return t.T[i].toParser() }
	switch t.K {
	case "s":
		return parser.S(t.S)
	case "re":
		return parser.RE(t.S)
	case "rule":
		return parser.Rule(t.S)
	case "ext":
		return parser.ExtRef(t.S)
	case "ref":
		r := parser.REF{Ident: t.S}
		if t.Def != nil {
			r.Default = parser.S(*t.Def)
		}
		return r
	case "seq":
		out := parser.Seq{}
		for i := range t.T {
			out = append(out, kid(i))
		}
		return out
	case "alt":
		out := parser.Oneof{}
		for i := range t.T {
			out = append(out, kid(i))
		}
		return out
	case "stack":
		out := parser.Stack{}
		for i := range t.T {
			out = append(out, kid(i))
		}
		return out
	case "delim":
		return parser.Delim{
			Term: kid(0), Sep: kid(1), Assoc: parser.Associativity(t.Assoc),
			CanStartWithSep: t.Lead, CanEndWithSep: t.Trail,
		}
	case "quant":
		return parser.Quant{Term: kid(0), Min: t.Min, Max: t.Max}
	case "named":
		return parser.Eq(t.S, kid(0))
	case "look":
		return parser.LookAhead{Term: kid(0)}
	case "scope":
		return parser.ScopedGrammar{Term: kid(0), Grammar: Grammar(t.G).toParser()}
	case "cut":
		return parser.CutPoint{Term: kid(0)}
	}
	panic("toParser: " + t.K)
}

func (g Grammar) toParser() parser.Grammar {
	out := parser.Grammar{}
	for _, r := range g {
		out[parser.Rule(r.Name)] = r.T.toParser()
	}
	return out
}

// fromParser converts a parser term to the framework's representation, in a
// canonical order of rules.
func fromParser(t parser.Term) *Term {
	kids := func(ts ...parser.Term) []*Term {
		var out []*Term
		for _, t := range ts {
			out = append(out, fromParser(t))
		}
		return out
	}
	switch t := t.(type) {
	case parser.S:
		return lit(string(t))
	case parser.RE:
		return re(string(t))
	case parser.Rule:
		return ruleRef(string(t))
	case parser.ExtRef:
		return &Term{K: "ext", S: string(t)}
	case parser.REF:
		out := &Term{K: "ref", S: t.Ident}
		switch d := t.Default.(type) {
		case nil:
		case parser.S:
			s := string(d)
			out.Def = &s
		default:
			panic(fmt.Sprintf("fromParser: default of type %T", d))
		}
		return out
	case parser.Seq:
		return &Term{K: "seq", T: kids(t...)}
	case parser.Oneof:
		return &Term{K: "alt", T: kids(t...)}
	case parser.Stack:
		return &Term{K: "stack", T: kids(t...)}
	case parser.Delim:
		return &Term{
			K: "delim", T: kids(t.Term, t.Sep), Assoc: int(t.Assoc),
			Lead: t.CanStartWithSep, Trail: t.CanEndWithSep,
		}
	case parser.Quant:
		return &Term{K: "quant", T: kids(t.Term), Min: t.Min, Max: t.Max}
	case parser.Named:
		return &Term{K: "named", S: t.Name, T: kids(t.Term)}
	case parser.LookAhead:
		return &Term{K: "look", T: kids(t.Term)}
	case parser.ScopedGrammar:
		return &Term{K: "scope", T: kids(t.Term), G: fromParserGrammar(t.Grammar)}
	case parser.CutPoint:
		return &Term{K: "cut", T: kids(t.Term)}
	}
	panic(fmt.Sprintf("fromParser: %T", t))
}

func fromParserGrammar(g parser.Grammar) Grammar {
	var out Grammar
	for name, t := range g {
		out = append(out, Rule{string(name), fromParser(t)})
	}
	return out.sorted()
}

// --- a canonical rendering, for comparisons and messages ------------------------

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder) {
	list := func(sep string) {
		sb.WriteString("(")
		for i, k := range t.T {
			if i > 0 {
				sb.WriteString(sep)
			}
			k.write(sb)
		}
		sb.WriteString(")")
	}
	switch t.K {
	case "s":
		fmt.Fprintf(sb, "%q", t.S)
	case "re":
		fmt.Fprintf(sb, "/%q/", t.S)
	case "rule":
		sb.WriteString(t.S)
	case "raw":
		sb.WriteString(t.S)
	case "call":
		sb.WriteString("%!" + t.S)
		list(", ")
	case "ext":
		sb.WriteString("%%" + t.S)
	case "ref":
		sb.WriteString("%" + t.S)
		if t.Def != nil {
			fmt.Fprintf(sb, "=%q", *t.Def)
		}
	case "seq":
		list(" ")
	case "alt":
		list(" | ")
	case "stack":
		list(" > ")
	case "delim":
		t.T[0].write(sb)
		sb.WriteString(map[int]string{-1: "<:", 0: ":", 1: ":>"}[t.Assoc])
		if t.Lead {
			sb.WriteString(",")
		}
		t.T[1].write(sb)
		if t.Trail {
			sb.WriteString(",")
		}
	case "quant":
		t.T[0].write(sb)
		fmt.Fprintf(sb, "{%d,%d}", t.Min, t.Max)
	case "named":
		sb.WriteString(t.S + "=")
		t.T[0].write(sb)
	case "look":
		sb.WriteString("(?=")
		t.T[0].write(sb)
		sb.WriteString(")")
	case "cut":
		sb.WriteString("!")
		t.T[0].write(sb)
	case "scope":
		sb.WriteString("(")
		t.T[0].write(sb)
		sb.WriteString(" {")
		sb.WriteString(Grammar(t.G).sorted().String())
		sb.WriteString("})")
	default:
		panic("write: " + t.K)
	}
}

func (g Grammar) String() string {
	var sb strings.Builder
	for i, r := range g {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(r.Name + " -> ")
		r.T.write(&sb)
		sb.WriteString(";")
	}
	return sb.String()
}

func (g Grammar) sorted() Grammar {
	out := append(Grammar{}, g...)
	for i := range out {
		for j := i; j > 0 && out[j].Name < out[j-1].Name; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// --- stacks and cut points -----------------------------------------------------

// resolved replaces each stack with a rule per level and drops the cut points
// within, as documented for compiled grammars.
func (g Grammar) resolved() Grammar {
	var out Grammar
	for _, r := range g {
		if r.T.K != "stack" {
			out = append(out, r)
			continue
		}
		level := func(i int) string {
			if i == 0 {
				return r.Name
			}
			return fmt.Sprintf("%s@%d", r.Name, i)
		}
		for i, layer := range r.T.T {
			out = append(out, Rule{level(i), substAt(layer, level((i+1)%len(r.T.T)))})
		}
	}
	return out
}

// substAt replaces @, but not in nested grammars, in which it has no meaning of
// the enclosing stack.
func substAt(t *Term, next string) *Term {
	switch t.K {
	case "rule":
		if t.S == "@" {
			return ruleRef(next)
		}
		return t
	case "cut":
		return substAt(t.T[0], next)
	}
	c := *t
	c.T = nil
	for _, k := range t.T {
		c.T = append(c.T, substAt(k, next))
	}
	return &c
}

// literalUses counts the uses of each literal in the grammar, by the published
// rule: every use counts, also those in nested grammars, lookaheads and default
// values. A separator that may also lead counts as used twice.
func (g Grammar) literalUses() map[string]int {
	uses := map[string]int{}
	var count func(t *Term)
	count = func(t *Term) {
		switch t.K {
		case "s":
			uses[t.S]++
		case "ref":
			if t.Def != nil {
				uses[*t.Def]++
			}
		case "delim":
			if t.Lead {
				count(t.T[1])
			}
		}
		for _, k := range t.T {
			count(k)
		}
		for _, r := range t.G {
			count(r.T)
		}
	}
	for _, r := range g {
		count(r.T)
	}
	return uses
}

// withCuts marks every literal that occurs once in the entire grammar as a cut
// point, other than within lookaheads.
func (g Grammar) withCuts() Grammar {
	uses := g.literalUses()
	var mark func(t *Term) *Term
	mark = func(t *Term) *Term {
		switch t.K {
		case "s":
			if uses[t.S] == 1 {
				return cut(t)
			}
			return t
		case "look":
			return t
		}
		c := *t
		c.T, c.G = nil, nil
		for _, k := range t.T {
			c.T = append(c.T, mark(k))
		}
		for _, r := range t.G {
			c.G = append(c.G, Rule{r.Name, mark(r.T)})
		}
		return &c
	}
	var out Grammar
	for _, r := range g {
		out = append(out, Rule{r.Name, mark(r.T)})
	}
	return out
}

func (g Grammar) withoutCuts() Grammar {
	return g.mapTerms(func(t *Term) *Term {
		if t.K == "cut" {
			return t.T[0]
		}
		return t
	})
}
