package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// --- code generation is deterministic (C21) -------------------------------------------

// StableCase is several texts of the same grammar, and another grammar.
type StableCase struct {
	Start string   `json:"start"`
	Texts []string `json:"texts"`
	Other string   `json:"other"`
}

// alikeNames are names of which Go cannot tell some apart.
var alikeNames = []string{"a", "A", "ab", "a_b", "aB", "AB", "A_b", "aNode", "a__b", "node", "x", "X", "_x", "x_", "X1", "x_1", "Delim", "String", "Token"}

func genStable(t *rapid.T) StableCase {
	c := StableCase{Other: genGrammarText(t)}
	if pct(t, 25, "any") {
		c.Texts = []string{genGrammarText(t)}
		if p, err := wbnf.Compile(c.Texts[0], nil); err == nil {
			c.Start = "grammar"
			for r := range p.Grammar() {
				if !strings.HasPrefix(string(r), ".") && (c.Start == "grammar" || string(r) < c.Start) {
					c.Start = string(r)
				}
			}
		}
		return c
	}
	g := genTextGrammar(t, textOpts())
	switch uni(t, 3, "names") {
	case 0:
		g = renamed(t, g, alikeNames)
	case 1:
		g = renamed(t, g, goNames)
	}
	c.Start = g[0].Name
	for i := 0; i < 3; i++ {
		c.Texts = append(c.Texts, renderText(t, g))
		p := append(Grammar{}, g...)
		for i := len(p) - 1; i > 0; i-- {
			j := uni(t, i+1, "order")
			p[i], p[j] = p[j], p[i]
		}
		g = p
	}
	return c
}

// generated is what the generator writes, or how it fails.
func generated(text, start string) (out string, ok bool) {
	p, err := wbnf.Compile(text, nil)
	if err != nil {
		return "", false
	}
	defer func() {
		if r := recover(); r != nil {
			out, ok = fmt.Sprint("panic: ", r), true
		}
	}()
	out, err = generate(p, start, "p")
	if err != nil {
		return "error", true // it tells about the first of many syntax errors, if Go cannot read the code
	}
	return out, true
}

func checkStable(c StableCase, o *Obs) error {
	want, ok := generated(c.Texts[0], c.Start)
	if !ok {
		return errDiscard
	}
	if want == "error" || strings.HasPrefix(want, "panic") {
		o.Label("fails")
	} else if strings.Count(want, "\n") > 60 {
		o.NonTrivial()
	}
	for i := 0; i < 6; i++ {
		text := c.Texts[i%len(c.Texts)]
		got, ok := generated(text, c.Start)
		if !ok {
			return fmt.Errorf("a variant of a grammar doesn't compile:\n%s\nvariant:\n%s", c.Texts[0], text)
		}
		if got != want {
			return fmt.Errorf("generated code differs, the %d. time\n%s\nvariant:\n%s\n%s", i+2, c.Texts[0], text, firstDifference(want, got))
		}
		if i == 2 {
			generated(c.Other, c.Start)
		}
	}
	return nil
}

func firstDifference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			end := i + 5
			return fmt.Sprintf("line %d\nwant:\n%s\ngot:\n%s", i+1, strings.Join(x[i:minInt(end, len(x))], "\n"), strings.Join(y[minInt(i, len(y)):minInt(end, len(y))], "\n"))
		}
	}
	return fmt.Sprintf("want %d lines, got %d", len(x), len(y))
}

// --- the grammar of grammars (C21) ------------------------------------------------------

// SelfCase is a text to parse with the grammar of grammars.
type SelfCase struct {
	Text  Bytes `json:"text"`
	Order []int `json:"order"` // of the rules of the grammar of grammars
}

var selfText string

func selfSetup() error {
	data, err := os.ReadFile(filepath.Join(repoDir(), "examples", "wbnf.wbnf"))
	selfText = string(data)
	return err
}

// selfRules splits the grammar of grammars into its statements.
func selfRules() []string {
	var out []string
	from := 0
	tree, err := wbnf.ParseString(selfText)
	if err != nil {
		return nil
	}
	for _, s := range tree.AllStmt() {
		if sc := s.Scanner(); sc.Offset() > from {
			out = append(out, selfText[from:sc.Offset()])
			from = sc.Offset()
		}
	}
	return append(out, selfText[from:])
}

func genSelf(t *rapid.T) SelfCase {
	text := genGrammarText(t)
	if pct(t, 15, "self") {
		text = selfText
	}
	if pct(t, 40, "damage") {
		text = damaged(t, text)
	}
	c := SelfCase{Text: Bytes(text)}
	if pct(t, 10, "order") {
		for i := 0; i < 40; i++ {
			c.Order = append(c.Order, uni(t, 1000, "order"))
		}
	}
	return c
}

// damaged changes some bytes of a text.
func damaged(t *rapid.T, s string) string {
	for n := rng(t, 1, 3, "changes"); n > 0 && len(s) > 0; n-- {
		i := uni(t, len(s), "at")
		j := i + uni(t, minInt(6, len(s)-i)+1, "len")
		switch uni(t, 3, "change") {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + pick(t, []string{"(", ")", "->", ";", "{", "}", ",", "\"", "'", "`", "/{", "%", "=", "|", ">", "@", " ", "\n", "//", "\\", "é", "\xff", "0", ":"}, "insert") + s[i:]
		default:
			s = s[:j] + s[i:j] + s[j:]
		}
	}
	return s
}

func checkSelf(c SelfCase, o *Obs) error {
	gen := wbnf.Grammar()
	text := selfText
	if len(c.Order) > 0 {
		o.Label("reordered")
		rules := selfRules()
		for i := range rules {
			j := i + c.Order[i%len(c.Order)]%(len(rules)-i)
			rules[i], rules[j] = rules[j], rules[i]
		}
		text = strings.Join(rules, "\n")
	}
	compiled, err := wbnf.Compile(text, nil)
	if err != nil {
		return fmt.Errorf("the grammar of grammars doesn't compile: %v\n%s", err, text)
	}
	for i, g := range []parser.Grammar{compiled.Grammar(), wbnf.Core().Grammar()} {
		if d := diff.Grammars(gen.Grammar(), g); !d.Equal() || g.String() != gen.Grammar().String() {
			return fmt.Errorf("the grammar of grammars (%d) isn't that of the generated parser\nwant: %v\ngot:  %v", i, gen.Grammar(), g)
		}
	}
	type result struct {
		tree, ast string
		err       bool
	}
	run := func(p parser.Parsers) (r result) {
		defer func() {
			if e := recover(); e != nil {
				r = result{tree: fmt.Sprint("panic: ", e)}
			}
		}()
		tree, err := p.Parse("grammar", parser.NewScanner(string(c.Text)))
		if err != nil {
			return result{err: true}
		}
		return result{tree: implTree(tree, string(c.Text)).String(), ast: ast.FromParserNode(p.Grammar(), tree).String()}
	}
	want := run(gen)
	for _, p := range []parser.Parsers{compiled, wbnf.Core()} {
		if got := run(p); got != want {
			return fmt.Errorf("the generated parser differs from the compiled one on\n%s\ngenerated: %+v\ncompiled: %+v", c.Text, want, got)
		}
	}
	if want.err {
		o.Label("rejected")
	} else {
		o.Label("accepted")
	}
	if len(want.ast) > 400 || want.err && len(c.Text) > 40 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	register("C21", "A case is up to three texts of the same grammar, which differ in layout and the order of rules, some with names that Go cannot tell apart, and "+
		"another grammar. Code is generated seven times from them, and once from the other grammar in between, and must have the same bytes each time. "+
		"It is non-trivial if the code has more than 60 lines.",
		opts{part: "repeat", quick: 4000, thorough: 200000}, genStable, checkStable)
	register("C21", "A case is the text of a grammar, possibly damaged. The parser that was generated from the grammar of grammars and those that are compiled from its text, also "+
		"with its rules in another order, must have the same grammar, and parse the text to the same tree and AST. It is non-trivial if the AST is large, or a long text is rejected.",
		opts{part: "self", quick: 5000, thorough: 200000, setup: selfSetup}, genSelf, checkSelf)
}
