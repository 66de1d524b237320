package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- from an AST back to the parse tree (C15) --------------------------------------

// namesOf lists the names under which the branch of a term holds what it matched.
func namesOf(t *Term, out map[string]int) {
	switch t.K {
	case "s", "re":
		out[""]++
	case "rule":
		out[unlevel(t.S)]++
	case "named", "ext", "ref":
		out[t.S]++
	case "alt":
		out["@choice"]++
		for _, k := range t.T {
			namesOf(k, out)
		}
	default:
		for _, k := range t.T {
			namesOf(k, out)
		}
	}
}

// reversible says whether the AST of every tree determines that tree. An AST
// doesn't hold how often something was repeated, other than by the number of
// children of some name. Hence the children of something that repeats, or that is
// optional, must have names of their own, and an element that repeats must always
// have the same children.
func (t *Term) reversible() bool {
	all := map[string]int{}
	namesOf(t, all)
	var check func(t *Term, repeats bool) bool
	check = func(t *Term, repeats bool) bool {
		switch t.K {
		case "named":
			return t.T[0].reversible()
		case "scope":
			for _, r := range t.G {
				if r.Name != ".wrapRE" && !r.T.reversible() {
					return false
				}
			}
		case "quant", "delim":
			if t.K == "delim" && (t.Assoc != 0 || t.Lead || t.Trail) {
				return false
			}
			if t.K == "delim" || t.Min != t.Max || t.Min == 0 {
				if repeats {
					return false
				}
				own := map[string]int{}
				namesOf(t, own)
				for name, n := range own {
					if all[name] != n {
						return false
					}
				}
			}
			repeats = repeats || t.K == "delim" || t.Max != 1
		case "ref", "ext":
			return false
		case "stack":
			for _, k := range t.T {
				if !k.reversible() {
					return false
				}
			}
			return true
		}
		for _, k := range t.T {
			if !check(k, repeats) {
				return false
			}
		}
		return true
	}
	return check(t, false)
}

// named apart makes names for what isn't reversible, as far as that goes.
func makeReversible(t *rapid.T, g Grammar) Grammar {
	n := 0
	fresh := func(x *Term) *Term {
		n++
		return named(fmt.Sprintf("f%d", n), x)
	}
	return g.mapTerms(func(x *Term) *Term {
		switch x.K {
		case "quant":
			// mapTerms works bottom-up, so that this is the only thing in its branch that varies.
			x.T[0] = fresh(x.T[0])
		case "delim":
			x.Assoc, x.Lead, x.Trail = 0, false, false
			x.T[0] = fresh(x.T[0])
			switch names := map[string]int{}; {
			case pct(t, 6, "emptysep"):
				x.T[1] = seqOf()
			case pct(t, 30, "keepsep"):
				// Without names, the AST doesn't hold the separators, of which there is one between any two elements.
				if namesOf(x.T[1], names); len(names) == 0 {
					break
				}
				fallthrough
			default:
				x.T[1] = fresh(x.T[1])
			}
		case "ref":
			return lit("r")
		}
		return x
	})
}

func (g Grammar) reversible() bool {
	for _, r := range g {
		if r.Name != ".wrapRE" && !r.T.reversible() {
			return false
		}
	}
	return true
}

func genBack(t *rapid.T) ParseCase {
	o := fullOpts()
	o.refs = false
	for i := 0; ; i++ {
		g := genGrammar(t, o).noNestedAliases()
		if pct(t, 70, "reversible") {
			g = makeReversible(t, g)
		}
		if g.reversible() || i == 10 {
			return genAcceptedCase(t, g)
		}
	}
}

func safeBack(g parser.Grammar, b ast.Branch) (te parser.TreeElement, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("ToParserNode panicked: %v", r)
		}
	}()
	return ast.ToParserNode(g, b), nil
}

func checkBack(c ParseCase, o *Obs) error {
	if !c.G.reversible() {
		return errDiscard
	}
	p := c.G.toParser().Compile(nil)
	te, tree := parseAccepted(p, c.G, c.Rule, c.Input)
	if te == nil || tree.Leaf {
		return errDiscard
	}
	b, err := safeAST(p.Grammar(), te)
	if err != nil {
		return errDiscard // the concern of C14
	}
	before := implAST(b).String()
	where := fmt.Sprintf("grammar: %v\nrule %s, input %q\nAST: %s", c.G, c.Rule, c.Input, before)
	back, err := safeBack(p.Grammar(), b)
	if err != nil {
		return fmt.Errorf("%s\ntree: %v\n%v", where, tree, err)
	}
	got := implTree(back, c.Input)
	if got.String() != tree.String() {
		return fmt.Errorf("%s\ntree: %v\nback: %v", where, tree, got)
	}
	if after := implAST(b).String(); after != before {
		return fmt.Errorf("%s\nthe conversion changed the AST to %s", where, after)
	}
	b2, err := safeAST(p.Grammar(), back)
	if err != nil {
		return fmt.Errorf("%s\nconverting again: %v", where, err)
	}
	if again := implAST(b2).String(); again != before {
		return fmt.Errorf("%s\nagain: %s", where, again)
	}
	if !b.ContentEquals(b2) || !b2.ContentEquals(b) {
		return fmt.Errorf("%s\nthe ASTs have different contents", where)
	}
	if tree.size() >= 5 {
		o.NonTrivial()
	}
	labelKinds(c.G, o)
	return nil
}

func init() {
	register("C15", "A case is a grammar whose repeated and optional elements have names of their own in their branch, and which has "+
		"neither back references, nor lists that associate or that may begin or end with a separator, and an input that it accepts. Its parse tree is converted to "+
		"an AST, back, and to an AST again. It is non-trivial if the tree has at least 5 elements.",
		opts{part: "reversible", quick: 60000, thorough: 4000000}, genBack, checkBack)
}
