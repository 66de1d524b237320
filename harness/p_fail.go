package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// --- termination and errors (C26) -----------------------------------------------------

// FailCase is a grammar and any bytes.
type FailCase struct {
	G     Grammar `json:"grammar"`
	Rule  string  `json:"rule"`
	Input Bytes   `json:"input"`
}

// tokens are the failures to match a token, in order.
func (f *failure) tokens() []*failure {
	if f.token != nil || f.why != "" {
		return []*failure{f}
	}
	var out []*failure
	for _, k := range f.kids {
		out = append(out, k.tokens()...)
	}
	return out
}

// bound is how long the text of the error may be, and how many failures it tells of.
func (f *failure) bound(nesting, outer, grammar int) (size, n int) {
	calls := f.depth - outer
	if calls < 0 {
		calls = 0
	}
	// The lines of each failure are indented, and each call that led to it shows a term.
	size = (2*calls + 12) * (2*grammar + 6*(nesting+2) + 200)
	n = 1
	for _, k := range f.kids {
		s, m := k.bound(nesting+1, f.depth, grammar)
		size += s
		n += m
	}
	return size, n
}

var ansiRE = regexp.MustCompile("\033\\[[0-9;]*m")

// bare is a text without spaces, colours and lines.
func bare(s string) string {
	s = ansiRE.ReplaceAllString(s, "")
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || strings.ContainsRune("│├└─", r) {
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, ""))
}

// checkErrorText compares the text of an error with what the model says about the failure.
func checkErrorText(f *failure, text, input string, grammar int) error {
	tokens := f.tokens()
	for _, tok := range tokens {
		if tok.token != nil && !utf8.ValidString(tok.token.S) {
			return errDiscard // a reference to what isn't valid text, of which the error says something similar
		}
	}
	flat := bare(text)
	rest := flat
	for i, tok := range tokens {
		if tok.why != "" {
			at := strings.Index(rest, bare(tok.why))
			if at < 0 {
				return fmt.Errorf("failure %d: the error does not say %q", i, tok.why)
			}
			rest = rest[at+len(bare(tok.why)):]
			continue
		}
		want := tok.token.S
		if tok.token.K == "s" {
			want = strconv.Quote(want)
		}
		at := strings.Index(rest, "expect:")
		if at < 0 {
			return fmt.Errorf("failure %d: the error does not say that %q was expected", i, want)
		}
		rest = rest[at+len("expect:"):]
		expect, after, found := strings.Cut(rest, "actual:")
		if !found || !strings.Contains(expect, bare(want)) {
			return fmt.Errorf("failure %d: the error says that %q was expected, and not %q", i, expect, want)
		}
		rest = after
		actual := strings.TrimSpace(input[tok.at:])
		if len(actual) > 40 {
			actual = actual[:40]
		}
		actual = bare(actual)
		if i := strings.Index(rest, "expect:"); i >= 0 {
			after = rest[:i]
		}
		// A position comes before the text.
		if at := strings.Index(after, actual); at < 0 || at > 12 {
			return fmt.Errorf("failure %d: the error says that %.80q was found, and not %q", i, after, actual)
		}
		rest = rest[len(actual):]
	}
	if n := strings.Count(rest, "expect:"); n > 0 {
		return fmt.Errorf("the error has %d more expectations than failures: %q", n, rest)
	}
	if max, n := f.bound(1, 0, grammar); len(text) > max+2000 {
		return fmt.Errorf("the error is %d bytes long, for %d failures (at most %d are to be expected)", len(text), n, max)
	}
	return nil
}

func checkFail(c FailCase, o *Obs) error {
	input := string(c.Input)
	want, ok := runModel(c.G, c.Rule, input, nil)
	if !ok {
		return errDiscard
	}
	fail := func(format string, args ...any) error {
		return fmt.Errorf("grammar: %v\nrule %s, input %q\n%s", c.G, c.Rule, input, fmt.Sprintf(format, args...))
	}
	p := c.G.toParser().Compile(nil)
	te, err := p.Parse(parser.Rule(c.Rule), parser.NewScanner(input))
	labelKinds(c.G, o)
	switch {
	case err == nil && te == nil:
		return fail("neither a tree nor an error")
	case err != nil && te != nil:
		return fail("both the tree %v and the error %v", te, err)
	case err == nil:
		o.Label("accepted")
		return nil
	}
	if want.accepted() {
		return errDiscard // see C01
	}
	// The text that a reference refers to is part of the terms that are shown.
	terms := len(p.Grammar().String())
	if want.m.refs > 0 {
		terms += 40 * len(input)
	}
	if want.tree == nil {
		if max, _ := want.f.bound(1, 0, terms); max > 20_000_000 {
			return errDiscard // takes too long
		}
	}
	text := err.Error()
	again := err.Error()
	if addressRE.ReplaceAllString(text, "") != addressRE.ReplaceAllString(again, "") {
		return fail("the error is\n%s\nand then\n%s", text, again)
	}
	if want.tree != nil {
		o.Label("residue")
		if _, is := err.(parser.UnconsumedInputError); !is {
			return errDiscard // see C01
		}
		line := fmt.Sprintf(":%d:", 1+strings.Count(input[:want.end], "\n"))
		for _, s := range []string{"unconsumed input", line, input[want.end:]} {
			if !strings.Contains(text, s) {
				return fail("the error does not mention %q:\n%q", s, text)
			}
		}
		if len(text) > 2*len(input)+200 {
			return fail("the error is %d bytes long:\n%.2000s", len(text), text)
		}
		return nil
	}
	if _, is := err.(parser.UnconsumedInputError); is {
		return errDiscard // see C01
	}
	if err := checkErrorText(want.f, text, input, terms); err == errDiscard {
		return err
	} else if err != nil {
		if len(text) > 20_000 {
			text = text[:20_000] + "..."
		}
		return fail("%v\n%s", err, text)
	}
	if n := len(want.f.tokens()); n >= 2 {
		o.NonTrivial()
	} else if n == 0 {
		o.Label("no-token")
	}
	return nil
}

// genBytes makes bytes that need not be valid text.
func genBytes(t *rapid.T, base string) Bytes {
	b := []byte(base)
	for n := rng(t, 0, 3, "edits"); n > 0; n-- {
		at := rng(t, 0, len(b), "at")
		add := pick(t, []string{"\xff", "\x00", "\xc3", "\xe2\x80", "\r", "\n", "\t", "é", "世", "\u2028", "\ufeff", "%d", "\\", " ", strings.Repeat("é", 25), strings.Repeat("x", 60)}, "bytes")
		b = append(b[:at:at], append([]byte(add), b[at:]...)...)
	}
	return Bytes(b)
}

func genFail(t *rapid.T) FailCase {
	o := fullOpts()
	o.bigQuants = pct(t, 20, "quants")
	g := genGrammar(t, o)
	rule := g[0].Name
	if r := pick(t, g, "rule").Name; r != ".wrapRE" {
		rule = r
	}
	return FailCase{g, rule, genBytes(t, genInput(t, g, rule))}
}

// --- deep inputs -------------------------------------------------------------------------

// DeepCase is an input of deeply nested parts.
type DeepCase struct {
	Family int `json:"family"`
	Depth  int `json:"depth"`
	Miss   int `json:"miss"` // closing parts that are missing (or that are too many if negative)
}

var deepFamilies = []struct{ grammar, open, mid, close string }{
	{`r -> "(" r ")" | "a";`, "(", "a", ")"},
	{`r -> @:"+" > @:>"*" > "(" @ ")" | "a";`, "(", "a", ")"},
	{`r -> "[" r:",",? "]" | "a";`, "[", "a", "]"},
	{`r -> "(" (x=r)* ")" | "a";`, "(", "a", ")"},
	{`r -> "x" s?; s -> "y" r?; `, "", "xyx", "yx"},
	{`r -> "a"+ "b"*;`, "a", "a", "b"},
	{`r -> "a":"," ;`, "a,", "a", ",a"},
	{`r -> "a":>"-" ;`, "a-", "a", "-a"},
	{`r -> "a"<:"-" ;`, "a-", "a", "-a"},
	{`r -> (?= /{[(a)\s]*$}) "(" r ")" | "a" ; .wrapRE -> /{\s*()\s*};`, "( ", "a ", ")"},
	{`r -> open="<" r %open | "a";`, "<", "a", "<"},
	{`r -> (("(" | "[") r (")" | "]") {t -> "x";}) | "a";`, "(", "a", "]"},
}

func checkDeep(c DeepCase, o *Obs) error {
	f := deepFamilies[c.Family%len(deepFamilies)]
	p, err := wbnf.Compile(f.grammar, nil)
	if err != nil {
		return fmt.Errorf("grammar: %s: %v", f.grammar, err)
	}
	lists := strings.Contains("xy a, a- a", f.open) // what is missing leaves a sentence too
	closing := c.Depth - c.Miss
	if closing < 0 {
		closing = 0
	}
	input := strings.Repeat(f.open, c.Depth) + f.mid + strings.Repeat(f.close, closing)
	want := lists || closing == c.Depth
	te, err := p.Parse("r", parser.NewScanner(input))
	if (err == nil) != want {
		return fmt.Errorf("grammar: %s\ninput: %q * %d, %q, %q * %d\naccepted: %v, want %v", f.grammar, f.open, c.Depth, f.mid, f.close, closing, err == nil, want)
	}
	if err == nil && te == nil {
		return fmt.Errorf("grammar: %s\ninput: %q * %d, ...: no tree", f.grammar, f.open, c.Depth)
	}
	if err != nil && c.Depth <= 30 {
		o.Label("printed")
		if n := len(err.Error()); n == 0 || n > 4_000_000 {
			return fmt.Errorf("grammar: %s\ninput: %q * %d, %q, %q * %d\nthe error is %d bytes long", f.grammar, f.open, c.Depth, f.mid, f.close, closing, n)
		}
	}
	if c.Depth >= 100 {
		o.NonTrivial()
	}
	if want {
		o.Label("accepted")
	}
	return nil
}

// --- texts of grammars ---------------------------------------------------------------------

// TextFailCase is what may be the text of a grammar.
type TextFailCase struct {
	Text Bytes `json:"text"`
}

var badVerbRE = regexp.MustCompile(`%!(\w|%|.)?\(\w+[=)]|%!\(EXTRA`)

func checkTextFail(c TextFailCase, o *Obs) error {
	text := string(c.Text)
	p, err := wbnf.Compile(text, nil)
	if err == nil {
		o.Label("compiled")
		if p.Node() == nil || p.Grammar() == nil {
			return fmt.Errorf("text:\n%q\nneither a grammar nor an error", text)
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		msg := err.Error()
		if strings.TrimSpace(msg) == "" {
			return fmt.Errorf("text:\n%q\nthe error says nothing: %T", text, err)
		}
		// A message must not be used as a format.
		if s := badVerbRE.FindString(msg); s != "" && !strings.Contains(text, "%!") {
			return fmt.Errorf("text:\n%q\nthe error is not well formatted: %q\n%s", text, s, msg)
		}
		if len(msg) > 200_000+2000*len(text) {
			return fmt.Errorf("text:\n%q\nthe error is %d bytes long", text, len(msg))
		}
	}
	o.NonTrivial()
	return nil
}

func init() {
	register("C26", "A case is a grammar and an input of any bytes, often close to a sentence. Parsing must end, and the text of an error has to tell of the failures of the model: "+
		"each token that was expected and what was found instead, in order and no more, or the rest that was not consumed. It must be stable and not longer than the failures explain. "+
		"It is non-trivial if at least 2 tokens were expected.",
		opts{part: "parse", quick: 80000, thorough: 6000000}, genFail, checkFail)
	register("C26", "A case is an input of parts that are nested, or repeated, up to 3000 times; closing parts may be missing or too many. "+
		"It is non-trivial from a depth of 100.",
		opts{part: "deep", quick: 3000, thorough: 60000},
		func(t *rapid.T) DeepCase {
			c := DeepCase{Family: uni(t, len(deepFamilies), "family"), Depth: rng(t, 1, pick(t, []int{5, 30, 300, 3000}, "max"), "depth")}
			if pct(t, 60, "unbalanced") {
				c.Miss = pick(t, []int{1, -1, 2, -3, c.Depth, c.Depth / 2}, "miss")
			}
			return c
		}, checkDeep)
	register("C26", "A case is the text of a grammar, with random edits by tokens of the language and any bytes. Compiling it has to give a grammar, or an error that can be printed. "+
		"It is non-trivial if there is an error.",
		opts{part: "text", quick: 50000, thorough: 4000000},
		func(t *rapid.T) TextFailCase {
			text := genGrammarText(t)
			if pct(t, 60, "damaged") {
				text = damaged(t, text)
			}
			if pct(t, 50, "bytes") {
				return TextFailCase{genBytes(t, text)}
			}
			return TextFailCase{Bytes(text)}
		}, checkTextFail)
}
