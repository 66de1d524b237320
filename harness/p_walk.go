package main

import (
	"fmt"
	"reflect"

	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
	"verif/drive"
)

// --- walking the trees of grammars (C22) and their accessors (C20) ----------------------

// WalkCase is the text of a grammar, and what the callbacks of a walk over its tree do.
type WalkCase struct {
	Text  string     `json:"text"`
	Start int        `json:"start"` // number of the node to walk from
	Plan  drive.Plan `json:"plan"`
}

// genGrammarText makes the text of a grammar, with any of the language's features.
func genGrammarText(t *rapid.T) string {
	switch {
	case pct(t, 30, "macros"):
		return genMacros(t).Text
	case pct(t, 30, "example"):
		return pick(t, []string{
			`a -> b:c="," d:,e,; b -> (x=y)? "z"{2,} %x; c -> /{\d} | () | (?=y); d -> %%ext; e -> y=(a|b)*; y -> "y";`,
			`.import a/b/../c.d` + "\n" + `.macro M(p, q) { p:q %!N(p, "x") } .macro N(a, b) { a | b };` + "\n" + `r -> %!M(x, y) // c` + "\n;",
			`e -> @:>op=[+\-] > @<:op="^" > "-" @ | @ > "(" @ ")" | n { n -> /{\d+}; m -> a:>b,; };`,
			`x -> /{a{2,3}} a=%b="c" {,2} {3,} <:,"," *; .wrapRE -> /{\s*()\s*};`,
		}, "example")
	}
	return renderText(t, genTextGrammar(t, textOpts()))
}

// genPlan makes a plan for a walk with n callbacks.
func genPlan(t *rapid.T, ops reflect.Type, n int) drive.Plan {
	p := drive.Plan{Skip: map[string]bool{}, Outcomes: map[int]int{}}
	if pct(t, 50, "skip") {
		percent := pick(t, []int{5, 30, 80}, "skipped")
		for i := 0; i < ops.NumField(); i++ {
			if pct(t, percent, "skip") {
				p.Skip[ops.Field(i).Name] = true
			}
		}
	}
	for k := rng(t, 0, 4, "outcomes"); k > 0 && n > 0; k-- {
		p.Outcomes[uni(t, n, "call")] = pick(t, []int{drive.ExitNode, drive.ExitNode, drive.Abort}, "outcome")
	}
	return p
}

func genWalk(t *rapid.T) WalkCase {
	c := WalkCase{Text: genGrammarText(t)}
	root, err := wbnf.ParseString(c.Text)
	if err != nil {
		return c
	}
	n := len(drive.Visits(wbnf.WalkerOps{}, root))
	if pct(t, 30, "inner") {
		c.Start = uni(t, n, "start")
	}
	c.Plan = genPlan(t, reflect.TypeOf(wbnf.WalkerOps{}), n)
	return c
}

func checkWalk(c WalkCase, o *Obs) error {
	root, err := wbnf.ParseString(c.Text)
	if err != nil {
		return errDiscard
	}
	visits := drive.Visits(wbnf.WalkerOps{}, root)
	from := any(root)
	if c.Start > 0 {
		o.Label("inner")
		from = visits[c.Start%len(visits)].Value()
	}
	if err := drive.CheckWalk(wbnf.WalkerOps{}, from, wbnf.NodeExiter, wbnf.Aborter, c.Plan); err != nil {
		return fmt.Errorf("grammar text:\n%s\nfrom %T, plan %+v\n%v", c.Text, from, c.Plan, err)
	}
	for _, outcome := range c.Plan.Outcomes {
		o.Label([]string{"continue", "exit", "abort"}[outcome])
		o.NonTrivial()
	}
	if len(c.Plan.Skip) > 0 {
		o.Label("callbacks-missing")
	}
	return nil
}

func checkGrammarAccessors(c WalkCase, o *Obs) error {
	root, err := wbnf.ParseString(c.Text)
	if err != nil {
		return errDiscard
	}
	n, full, err := drive.CheckAccessors(root, false)
	if err != nil {
		return fmt.Errorf("grammar text:\n%s\n%v", c.Text, err)
	}
	if full > 30 {
		o.NonTrivial()
	}
	_ = n
	return nil
}

func init() {
	register("C22", "A case is the text of a grammar, and a plan of which callbacks there are and what each call of them returns. The calls that a "+
		"walk over the tree of the text makes are compared with those of a traversal of the AST. It is non-trivial if a callback stops or aborts.",
		opts{part: "grammars", quick: 12000, thorough: 800000}, genWalk, checkWalk)
	register("C20", "A case is the text of a grammar. All accessors of the nodes of its tree, whose types are generated from the grammar of "+
		"grammars, are compared with the AST. It is non-trivial if more than 30 accessors return something.",
		opts{part: "grammars", quick: 6000, thorough: 400000}, func(t *rapid.T) WalkCase { return WalkCase{Text: genGrammarText(t)} }, checkGrammarAccessors)
}
