package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// TextCase is a grammar and a text of it.
type TextCase struct {
	G    Grammar `json:"grammar"`
	Text string  `json:"text"`
}

// TextParseCase has an input besides.
type TextParseCase struct {
	G     Grammar `json:"grammar"`
	Text  string  `json:"text"`
	Rule  string  `json:"rule"`
	Input string  `json:"input"`
}

var extraREs = []string{
	`a b`, `\s`, `[a-z]{2}`, `a{2,3}`, `\}`, `[}]`, `\/`, `[\]]`, `[[:alpha:]]+`, `(?:a|b )c`, `\\`, `^a$`, `\bx`, `\.`, `a{2}`,
	`[^\\}]`, `\pL+`, `\p{Greek}`, `[ab]{1,3}?`, `\w{2,}`, `^[a-z][0-9]*$`, `\{`, `x  y`, `(?i)if`, `[{]`, `"`, `'`, "`", `//`,
}

var extraLits = []string{
	"`", "``", "'", "\"'", "\\n", "\a\b\f\v", "\t\r\n", "//", "/*", "é世🙂", "%", "{", "}", "->", "\\", "\\\\", "a\\", " a ", "\x00", "\u00a0", "$1",
}

// exotic replaces some tokens with ones that are hard to write.
func exotic(t *rapid.T, g Grammar) Grammar {
	return g.mapTerms(func(x *Term) *Term {
		switch {
		case x.K == "s" && pct(t, 20, "exotic"):
			x.S = pick(t, extraLits, "exoticlit")
		case x.K == "ref" && x.Def != nil && pct(t, 20, "exotic"):
			d := pick(t, extraLits, "exoticdef")
			x.Def = &d
		}
		return x
	})
}

func exoticREs(t *rapid.T, g Grammar) Grammar {
	out := Grammar{}
	for _, r := range g {
		if r.Name == ".wrapRE" {
			out = append(out, r)
			continue
		}
		out = append(out, Rule{r.Name, r.T.mapTerm(func(x *Term) *Term {
			if x.K == "re" && pct(t, 25, "exoticre") {
				x.S = pick(t, extraREs, "re")
			}
			return x
		})})
	}
	return out
}

// expectedGrammar is what the text of a normal grammar compiles to.
func expectedGrammar(g Grammar) Grammar { return g.withCuts().resolved().sorted() }

// canonNested sorts the nested grammars, too. Stacks in them stay.
func canonGrammar(g Grammar) string { return g.sorted().String() }

func genTextCase(t *rapid.T, o gopts) TextCase {
	g := genTextGrammar(t, o)
	if pct(t, 50, "exotics") {
		g = exoticREs(t, exotic(t, g))
	}
	if pct(t, 20, "exts") {
		g = g.mapTerms(func(x *Term) *Term {
			if x.K == "s" && pct(t, 10, "ext") {
				return &Term{K: "ext", S: pick(t, []string{"e", "other_1"}, "extname")}
			}
			return x
		})
		if w := g.get(".wrapRE"); w != nil {
			for i := range g {
				if g[i].Name == ".wrapRE" {
					g[i].T = re(`\s*()`)
				}
			}
		}
	}
	return TextCase{g, renderText(t, g)}
}

func init() {
	register("C10", "A case is a grammar and a rendering of it as text, with random layout, comments, quoting, escapes, "+
		"redundant parentheses and forms of repetition. It is non-trivial if the grammar has at least 6 terms.",
		opts{part: "compile", quick: 25000, thorough: 2000000},
		func(t *rapid.T) TextCase {
			o := textOpts()
			o.bigQuants = pct(t, 30, "bigquants")
			return genTextCase(t, o)
		},
		func(c TextCase, o *Obs) error {
			p, err := wbnf.Compile(c.Text, nil)
			if err != nil {
				return fmt.Errorf("%q\nerror: %s", c.Text, clip(err.Error(), 300))
			}
			got := canonGrammar(fromParserGrammar(p.Grammar()))
			if want := canonGrammar(expectedGrammar(c.G)); got != want {
				return fmt.Errorf("%q\nwant: %v\ngot:  %v", c.Text, want, got)
			}
			for _, r := range c.G.resolved() {
				if !p.HasRule(parser.Rule(r.Name)) {
					return fmt.Errorf("%q\nno rule %s", c.Text, r.Name)
				}
			}
			if p.HasRule("nosuchrule") {
				return fmt.Errorf("a rule that doesn't exist")
			}
			n := 0
			c.G.walk(func(*Term) { n++ })
			if n >= 6 {
				o.NonTrivial()
			}
			labelKinds(c.G, o)
			return nil
		})

	cutOpts := textOpts()
	cutOpts.wrap = 15
	genCut := func(t *rapid.T) TextParseCase {
		o := cutOpts
		o.simpleLits = pct(t, 30, "simple")
		g := genTextGrammar(t, o)
		c := genParseCaseOf(t, g)
		return TextParseCase{c.G, plainText(c.G), c.Rule, c.Input}
	}
	register("C07", "A case is a compiled grammar and an input, whose result is compared with a model in which "+
		"the failure of what follows a literal that occurs once isn't caught by an enclosing choice or repetition. It is non-trivial "+
		"if such a failure cut off an alternative or ended a repetition.",
		opts{part: "model", quick: 25000, thorough: 2000000}, genCut,
		func(c TextParseCase, o *Obs) error {
			p, err := wbnf.Compile(c.Text, nil)
			if err != nil {
				return fmt.Errorf("%s\nerror: %s", c.Text, clip(err.Error(), 300))
			}
			want, err := compareWithModel(p, ParseCase{c.G, c.Rule, c.Input}, c.G.withCuts().resolved(), o)
			if err != nil {
				return err
			}
			labelOutcome(want, o)
			if want.m.fatal > 0 {
				o.NonTrivial()
			}
			return nil
		})
	register("C07", "A case is a compiled grammar and an input. Whatever it accepts, the grammar without cut points must "+
		"accept with the same tree. It is non-trivial if it accepts and the grammar has a cut point.",
		opts{part: "sound", quick: 25000, thorough: 2000000}, genCut,
		func(c TextParseCase, o *Obs) error {
			if _, ok := runModel(c.G, c.Rule, c.Input, nil); !ok {
				return errDiscard
			}
			p, err := wbnf.Compile(c.Text, nil)
			if err != nil {
				return fmt.Errorf("%s\nerror: %s", c.Text, clip(err.Error(), 300))
			}
			with := implOutcome(p, c.Rule, c.Input)
			if with == "no match" {
				o.Label("rejected")
				return nil
			}
			without := implOutcome(c.G.toParser().Compile(nil), c.Rule, c.Input)
			if with != without {
				return fmt.Errorf("%s\ninput %q\nwith cut points: %s\nwithout: %s", c.Text, c.Input, with, without)
			}
			if c.G.withCuts().kinds()["cut"] > 0 {
				o.NonTrivial()
			}
			o.Label("matched")
			return nil
		})
}
