package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- writing trees (C23) ------------------------------------------------------------

// UnparseCase is a grammar, an input that it likely accepts, and after how many bytes writers fail.
type UnparseCase struct {
	ParseCase
	Limits []int `json:"limits"`
}

// tokens are the texts of all that was consumed.
func (t *Tree) tokens() []string {
	var out []string
	switch {
	case t.Look:
	case t.Leaf:
		out = append(out, t.Text)
	default:
		for _, k := range t.Kids {
			out = append(out, k.tokens()...)
		}
	}
	return out
}

var errFull = errors.New("full")

// limitedWriter takes some bytes, and then fails.
type limitedWriter struct {
	sb      strings.Builder
	left    int
	writes  int
	failed  bool
	further bool // whether anything was written after the failure
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	w.writes++
	w.further = w.further || w.failed
	if len(p) > w.left {
		n := w.left
		w.sb.Write(p[:n])
		w.left = 0
		w.failed = true
		return n, errFull
	}
	w.left -= len(p)
	w.sb.Write(p)
	return len(p), nil
}

// listsOfLists says whether there is an associative list of lists of the same associativity,
// whose nodes cannot be told apart (see the known findings).
func (g Grammar) listsOfLists() bool {
	found := false
	g.walk(func(t *Term) {
		if t.K != "delim" || t.Assoc == 0 {
			return
		}
		k := t.T[0]
		for k.K == "cut" || k.K == "scope" || k.K == "named" {
			k = k.T[0]
		}
		found = found || k.K == "delim" && k.Assoc == t.Assoc || k.K == "ref"
	})
	return found
}

func checkUnparse(c UnparseCase, o *Obs) error {
	if c.G.listsOfLists() {
		return errDiscard
	}
	p := c.G.toParser().Compile(nil)
	te, _ := parseAccepted(p, c.G, c.Rule, c.Input)
	if te == nil {
		return errDiscard
	}
	out, _ := runModel(c.G, c.Rule, c.Input, nil)
	if _, is := te.(parser.Node); is && out.tree.Tag != c.Rule {
		return errDiscard // a rule that stands for one of a nested grammar
	}
	toks := out.tree.tokens()
	want := strings.Join(toks, "")
	before := implTree(te, c.Input).String()
	grammar := p.Grammar().String()
	fail := func(format string, args ...any) error {
		return fmt.Errorf("grammar: %v\nrule %s, input %q\ntree: %v\n%s", c.G, c.Rule, c.Input, before, fmt.Sprintf(format, args...))
	}
	w := &limitedWriter{left: 1 << 40}
	n, err := p.Unparse(te, w)
	switch got := w.sb.String(); {
	case err != nil:
		return fail("error: %v", err)
	case got != want:
		return fail("want %q\ngot  %q", want, got)
	case n != len(want):
		return fail("%d bytes were written, Unparse returned %d", len(want), n)
	}
	for _, limit := range c.Limits {
		if limit %= len(want) + 1; limit == len(want) {
			continue
		}
		o.Label("failing-writer")
		w := &limitedWriter{left: limit}
		n, err := p.Unparse(te, w)
		switch got := w.sb.String(); {
		case err != errFull:
			return fail("the writer failed after %d bytes, but Unparse returned %v", limit, err)
		case w.further:
			return fail("Unparse went on after the writer failed after %d bytes", limit)
		case got != want[:limit]:
			return fail("want %q before the writer failed, got %q", want[:limit], got)
		case n != limit:
			return fail("%d bytes were written before the writer failed, Unparse returned %d", limit, n)
		}
	}
	if implTree(te, c.Input).String() != before || p.Grammar().String() != grammar {
		return fail("Unparse modified the tree or the grammar")
	}
	if want == c.Input {
		o.Label("all")
	}
	if len(toks) > 3 {
		o.NonTrivial()
	}
	labelKinds(c.G, o)
	return nil
}

func init() {
	register("C23", "A case is a grammar, an input that it accepts, and sizes of writers. The parse tree is written out, and the output is compared with the tokens that "+
		"the model consumed, in order. Writers that fail after the given number of bytes must get just the beginning. It is non-trivial if there are more than 3 tokens.",
		opts{part: "tokens", quick: 80000, thorough: 4000000},
		func(t *rapid.T) UnparseCase {
			c := UnparseCase{ParseCase: genAcceptedCase(t, genGrammar(t, fullOpts()))}
			for n := rng(t, 0, 3, "writers"); n > 0; n-- {
				c.Limits = append(c.Limits, uni(t, 60, "limit"))
			}
			return c
		}, checkUnparse)
}
