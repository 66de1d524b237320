package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// ParseCase is a grammar, a rule of it and an input.
type ParseCase struct {
	G     Grammar `json:"grammar"`
	Rule  string  `json:"rule"`
	Input string  `json:"input"`
}

func (c ParseCase) String() string {
	return fmt.Sprintf("grammar: %v\nrule %s, input %q", c.G, c.Rule, c.Input)
}

// implParse runs the code under test. err is nil iff it accepts.
func implParse(p parser.Parsers, rule, input string) (*Tree, error) {
	te, err := p.Parse(parser.Rule(rule), parser.NewScanner(input))
	return implTree(te, input), err
}

// implOutcome describes the result of a parse in the terms of outcome.String.
func implOutcome(p parser.Parsers, rule, input string) string {
	tree, err := implParse(p, rule, input)
	return describeParse(tree, err, input)
}

func describeParse(tree *Tree, err error, input string) string {
	switch e := err.(type) {
	case nil:
		return tree.String()
	case parser.UnconsumedInputError:
		return fmt.Sprintf("matched %d of %d bytes: %v",
			e.Residue().Offset(), len(input), implTree(e.Result(), input))
	}
	return "no match"
}

func compareWithModel(p parser.Parsers, c ParseCase, g Grammar, o *Obs) (outcome, error) {
	want, ok := runModel(g, c.Rule, c.Input, nil)
	if !ok {
		return want, errDiscard
	}
	if got := implOutcome(p, c.Rule, c.Input); got != want.String() {
		return want, fmt.Errorf("grammar: %v\nrule %s, input %q\nwant: %v\ngot:  %v", g, c.Rule, c.Input, want, got)
	}
	return want, nil
}

func labelOutcome(want outcome, o *Obs) {
	switch {
	case want.accepted():
		o.Label("accepted")
	case want.tree != nil:
		o.Label("partial")
	default:
		o.Label("rejected")
	}
}

func labelKinds(g Grammar, o *Obs) {
	for k := range g.kinds() {
		o.Label("has-%s", k)
	}
	if g.has(".wrapRE") {
		o.Label("has-wrapRE")
	}
}

// genAccepted tries to find an input that the grammar accepts.
func genAccepted(t *rapid.T, g Grammar, rule string, tries int) string {
	in := ""
	for i := 0; i < tries; i++ {
		in = genSentence(t, g, rule)
		if out, ok := runModel(g, rule, in, nil); ok && out.accepted() {
			return in
		}
	}
	return in
}

func genParseCaseOf(t *rapid.T, g Grammar) ParseCase {
	rule := g[0].Name
	if len(g) > 1 && g[1].Name != ".wrapRE" && pct(t, 10, "start") {
		rule = g[1].Name
	}
	if pct(t, 3, "big") {
		if c, ok := enlarge(t, g, rule, 400); ok {
			if pct(t, 20, "edited") {
				c.Input = mutate(t, c.G, c.Input)
			}
			return c
		}
	}
	if pct(t, 55, "valid") {
		return ParseCase{g, rule, genAccepted(t, g, rule, 4)}
	}
	return ParseCase{g, rule, genInput(t, g, rule)}
}

func genParseCase(o gopts) func(t *rapid.T) ParseCase {
	return func(t *rapid.T) ParseCase { return genParseCaseOf(t, genGrammar(t, o)) }
}

func init() {
	register("C01", "A case is a generated grammar and an input, whose result is compared with that of an independent "+
		"interpreter of the grammar. It is non-trivial if the derivation has at least 4 nodes, "+
		"or an alternative was abandoned after it consumed input.",
		opts{part: "model", quick: 250000, thorough: 20000000}, genParseCase(fullOpts()),
		func(c ParseCase, o *Obs) error {
			want, err := compareWithModel(c.G.toParser().Compile(nil), c, c.G, o)
			if err != nil {
				return err
			}
			if want.tree.size() >= 4 || want.m.backtrack > 0 {
				o.NonTrivial()
			}
			labelOutcome(want, o)
			labelKinds(c.G, o)
			return nil
		})

	register("C02", "A case is a generated grammar and an input that is a part of a larger text. It is non-trivial if "+
		"the tree has at least 2 leaves and the part doesn't start at the start of the text.",
		opts{part: "positions", quick: 120000, thorough: 8000000},
		func(t *rapid.T) SourceCase {
			o := fullOpts()
			o.refs = pct(t, 50, "refs")
			c := genParseCaseOf(t, genGrammar(t, o))
			return SourceCase{c, pick(t, affixes, "before"), pick(t, affixes, "after"), pick(t, []string{"", "dir/f.txt"}, "file")}
		}, checkPositions)

	register("C08", "A case is a generated grammar and an input. It is non-trivial if the start rule matches a proper, "+
		"non-empty prefix of the input.",
		opts{part: "residue", quick: 120000, thorough: 8000000},
		func(t *rapid.T) ParseCase {
			c := genParseCase(fullOpts())(t)
			if pct(t, 60, "extra") {
				c.Input += pick(t, []string{"\n", "zz", " ", ")", "a", "\x00", "é", ";b"}, "suffix")
			}
			return c
		}, checkResidue)

	o := fullOpts()
	o.wrap = 100
	register("C05", "A case is a grammar with a .wrapRE and an input, compared with the model. It is non-trivial if the "+
		"input has whitespace that is part of no leaf of the tree.",
		opts{part: "model", quick: 120000, thorough: 8000000},
		func(t *rapid.T) ParseCase {
			g := genGrammar(t, o)
			if pct(t, 40, "nestedwrap") {
				g = addNestedWrap(t, g)
			}
			return genParseCaseOf(t, g)
		},
		func(c ParseCase, o *Obs) error {
			want, err := compareWithModel(c.G.toParser().Compile(nil), c, c.G, o)
			if err != nil {
				return err
			}
			labelOutcome(want, o)
			labelKinds(c.G, o)
			covered := 0
			for _, l := range want.tree.leaves() {
				covered += l.Hi - l.Lo
			}
			if want.tree != nil && covered < want.end {
				o.NonTrivial()
			}
			return nil
		})

	register("C05", "A case is a grammar in which all tokens may be padded, and a sequence of tokens with two paddings. "+
		"It is non-trivial if it is accepted and the paddings differ.",
		opts{part: "padding", quick: 60000, thorough: 4000000}, genPadCase, checkPadding)

	r := fullOpts()
	r.scopes, r.wrap = false, 10
	register("C06", "A case is a generated grammar with back references and an input, compared with the model. It is "+
		"non-trivial if a back reference was reached.",
		opts{part: "model", quick: 150000, thorough: 10000000},
		func(t *rapid.T) ParseCase { return genParseCaseOf(t, genRefGrammar(t, r)) },
		func(c ParseCase, o *Obs) error {
			want, err := compareWithModel(c.G.toParser().Compile(nil), c, c.G, o)
			if err != nil {
				return err
			}
			labelOutcome(want, o)
			if want.m.refs > 0 {
				o.NonTrivial()
			}
			return nil
		})
	register("C06", "A case is a generated grammar with back references to any characters, and an input with bytes that aren't valid "+
		"UTF-8 and replacement characters, compared with the model. It is non-trivial if a back reference was reached.",
		opts{part: "bytes", quick: 30000, thorough: 2000000},
		func(t *rapid.T) BytesCase { return genBytesCase(t, genRefGrammar(t, r)) },
		func(b BytesCase, o *Obs) error {
			c := ParseCase{b.G, b.Rule, string(b.Input)}
			want, err := compareWithModel(c.G.toParser().Compile(nil), c, c.G, o)
			if err != nil {
				return err
			}
			labelOutcome(want, o)
			if want.m.refs > 0 {
				o.NonTrivial()
			}
			return nil
		})
	register("C06", "A case is a tree of elements with matching tags, of which one closing tag may have been changed. "+
		"It is non-trivial if there are at least 3 elements.",
		opts{part: "tags", quick: 40000, thorough: 2000000}, genTags, checkTags)

	n := fullOpts()
	n.wrap = 30
	register("C09", "A case is a grammar with nested grammars, which may shadow outer rules, and an input. It is "+
		"compared with the grammar in which the nested rules are top-level rules of unique names. It is non-trivial "+
		"if the tree has a node of a nested rule.",
		opts{part: "hoist", quick: 150000, thorough: 10000000},
		func(t *rapid.T) ParseCase {
			return genParseCaseOf(t, genScopedGrammar(t, n))
		}, checkHoist)
	register("C09", "As C09.hoist, compared with the model.",
		opts{part: "model", quick: 100000, thorough: 8000000},
		func(t *rapid.T) ParseCase {
			return genParseCaseOf(t, genScopedGrammar(t, n))
		},
		func(c ParseCase, o *Obs) error {
			want, err := compareWithModel(c.G.toParser().Compile(nil), c, c.G, o)
			if err != nil {
				return err
			}
			labelOutcome(want, o)
			labelKinds(c.G, o)
			if nodeOfRules(want.tree, nestedRulePool) || nodeOfRules(want.tree, shadowedNames(c.G)) {
				o.NonTrivial()
			}
			return nil
		})
}

// --- positions ------------------------------------------------------------------

var affixes = []string{"", "a", "\n", "é\n\nx", "line 1\nline 2 ", "((", " ", "\r\n", "世界"}

// SourceCase is a part of a text to parse.
type SourceCase struct {
	ParseCase
	Before string `json:"before"`
	After  string `json:"after"`
	File   string `json:"file"`
}

func checkPositions(c SourceCase, o *Obs) error {
	model, ok := runModel(c.G, c.Rule, c.Input, nil)
	if !ok {
		return errDiscard
	}
	p := c.G.toParser().Compile(nil)
	text := c.Before + c.Input + c.After
	lo := len(c.Before)
	alone, errAlone := p.Parse(parser.Rule(c.Rule), parser.NewScanner(c.Input))
	in := parser.NewScannerWithFilename(text, c.File).Slice(lo, lo+len(c.Input))
	te, err := p.Parse(parser.Rule(c.Rule), in)
	if u, ok := err.(parser.UnconsumedInputError); ok {
		te = u.Result()
		ua, ok := errAlone.(parser.UnconsumedInputError)
		if !ok {
			return fmt.Errorf("%v\nwithin %q: %v, alone: %v", c.ParseCase, text, err, errAlone)
		}
		alone = ua.Result()
	} else if (err == nil) != (errAlone == nil) {
		return fmt.Errorf("%v\nwithin %q: %v, alone: %v", c.ParseCase, text, err, errAlone)
	}
	if te == nil {
		o.Label("rejected")
		return nil
	}
	// The tree is that of the part alone, moved.
	moved := implTree(alone, c.Input).mapTree(func(t *Tree) *Tree {
		if t.Leaf {
			t.Lo += lo
			t.Hi += lo
		}
		return t
	})
	got := implTree(te, text)
	if got.String() != moved.String() {
		return fmt.Errorf("%v\nwithin %q:\n%v, alone, moved:\n%v", c.ParseCase, text, got, moved)
	}
	// Its tokens are the pieces of the input that the terms match, without what they discard.
	spans := func(ls []*Tree, lo int) string {
		var out []string
		for _, l := range ls {
			out = append(out, fmt.Sprintf("%d-%d %q", l.Lo-lo, l.Hi-lo, l.Text))
		}
		return strings.Join(out, ", ")
	}
	if got, want := spans(got.leaves(), lo), spans(model.tree.leaves(), 0); got != want {
		return fmt.Errorf("%v\ntokens: %s\nwant:   %s", c.ParseCase, got, want)
	}
	leaves := 0
	var bad error
	last := lo
	var visit func(te parser.TreeElement, ahead bool)
	visit = func(te parser.TreeElement, ahead bool) {
		switch te := te.(type) {
		case parser.Scanner:
			leaves++
			s := te.String()
			off := te.Offset()
			if bad != nil {
				return
			}
			if off < lo || off+len(s) > lo+len(c.Input) || text[off:off+len(s)] != s {
				bad = fmt.Errorf("the leaf %q at %d isn't part of the input %q at %d", s, off, c.Input, lo)
				return
			}
			if !ahead {
				if off < last {
					bad = fmt.Errorf("the leaf %q at %d overlaps one that ends at %d", s, off, last)
					return
				}
				last = off + len(s)
			}
			line, col := te.Position()
			wantLine, wantCol := position(text, off)
			if line != wantLine || col != wantCol {
				bad = fmt.Errorf("the position of the leaf %q at %d of %q is %d:%d, want %d:%d", s, off, text, line, col, wantLine, wantCol)
			}
			if te.Filename() != c.File {
				bad = fmt.Errorf("the file of a leaf is %q, want %q", te.Filename(), c.File)
			}
		case parser.Node:
			for _, k := range te.Children {
				visit(k, ahead || te.Tag == "?=")
			}
		}
	}
	named := false
	c.G.walk(func(t *Term) { named = named || t.K == "look" })
	// A lookahead's node may have any tag.
	visit(te, named)
	if bad != nil {
		return fmt.Errorf("%v\nwithin %q: %v\n%v", c.ParseCase, text, bad, got)
	}
	// Without padding, groups and lookaheads, the leaves make up what was consumed.
	plain := !c.G.has(".wrapRE")
	c.G.walk(func(t *Term) {
		plain = plain && t.K != "look" && !(t.K == "re" && strings.Contains(strings.ReplaceAll(t.S, "(?", ""), "(")) &&
			!Grammar(t.G).has(".wrapRE")
	})
	if plain {
		o.Label("plain")
		var sb strings.Builder
		for _, l := range got.leaves() {
			sb.WriteString(l.Text)
		}
		end := lo + len(c.Input)
		if u, ok := err.(parser.UnconsumedInputError); ok {
			end = u.Residue().Offset()
		}
		if sb.String() != text[lo:end] {
			return fmt.Errorf("%v\nthe leaves make up %q, but %q was consumed\n%v", c.ParseCase, sb.String(), text[lo:end], got)
		}
	}
	if leaves >= 2 && lo > 0 {
		o.NonTrivial()
	}
	return nil
}

// position computes the 1-based line and column, in bytes.
func position(text string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; i++ {
		if text[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return
}

// --- residue -------------------------------------------------------------------------

func checkResidue(c ParseCase, o *Obs) error {
	if _, ok := runModel(c.G, c.Rule, c.Input, nil); !ok {
		return errDiscard
	}
	p := c.G.toParser().Compile(nil)
	in := parser.NewScanner(c.Input)
	te, err := p.Parse(parser.Rule(c.Rule), in)

	// A rule that takes whatever is left must match exactly if the rule matches.
	g2 := append(Grammar{{"all", seqOf(ruleRef(c.Rule), re(`(?s:.*)`))}}, c.G...)
	g2 = g2.clone()
	for i := range g2 {
		if g2[i].Name == ".wrapRE" {
			if g2[i].T.K == "alt" {
				g2[i].T.T = append([]*Term{re(`(?s:.*)`)}, g2[i].T.T...)
			} else {
				g2[i].T = altOf(re(`(?s:.*)`), g2[i].T)
			}
		}
	}
	te2, err2 := g2.toParser().Compile(nil).Parse("all", parser.NewScanner(c.Input))
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%v\nerr: %T; with the rest: %T\n%s", c, err, err2, fmt.Sprintf(format, args...))
	}
	switch e := err.(type) {
	case nil:
		if in.String() != "" {
			return fail("accepted, but %q is left", in)
		}
		if err2 != nil {
			return fail("accepted, but not with a rest")
		}
		n := te2.(parser.Node)
		if got, want := implTree(n.Children[0], c.Input).String(), implTree(te, c.Input).String(); got != want {
			return fail("tree %v\nwith the rest: %v", want, got)
		}
		if rest := n.GetString(1); rest != "" {
			return fail("accepted, but with a rest of %q", rest)
		}
		o.Label("accepted")
	case parser.UnconsumedInputError:
		if te != nil {
			return fail("a tree is returned besides the error")
		}
		res := e.Residue()
		if res.String() == "" || res.Offset() != len(c.Input)-len(res.String()) || !strings.HasSuffix(c.Input, res.String()) {
			return fail("residue %q at %d", res, res.Offset())
		}
		if err2 != nil {
			return fail("partly matched, but not with a rest")
		}
		n := te2.(parser.Node)
		if rest := n.GetString(1); rest != res.String() {
			return fail("residue %q, but the rest is %q", res, rest)
		}
		if got, want := implTree(n.Children[0], c.Input).String(), implTree(e.Result(), c.Input).String(); got != want {
			return fail("partial tree %v\nwith the rest: %v", want, got)
		}
		o.Label("partial")
		if res.Offset() > 0 {
			o.NonTrivial()
		}
	default:
		if te != nil {
			return fail("a tree is returned besides the error")
		}
		if err2 == nil {
			return fail("no match, but a match with a rest")
		}
		if _, ok := err2.(parser.UnconsumedInputError); ok {
			return fail("with a rest, the input isn't consumed")
		}
		o.Label("rejected")
	}
	return nil
}

// --- padding ---------------------------------------------------------------------------

func addNestedWrap(t *rapid.T, g Grammar) Grammar {
	return g.mapTerms(func(x *Term) *Term {
		if x.K == "scope" && !Grammar(x.G).has(".wrapRE") {
			x.G = append(append([]Rule{}, x.G...), Rule{".wrapRE", re(pick(t, wrapPool, "nestedwrap"))})
		}
		return x
	})
}

// PadCase has a sequence of tokens and the paddings around them.
type PadCase struct {
	G    Grammar  `json:"grammar"`
	Rule string   `json:"rule"`
	Toks []string `json:"tokens"`
	A    []string `json:"paddingA"` // one more than tokens
	B    []string `json:"paddingB"`
}

func genPadCase(t *rapid.T) PadCase {
	o := fullOpts()
	o.wrap, o.noNullRE, o.scopes = 0, true, pct(t, 30, "scopes")
	o.refs = false // a back reference admits no padding
	g := genGrammar(t, o)
	// Tokens that may match whitespace, or admit it within, would change with it.
	g = g.mapTerms(func(x *Term) *Term {
		switch {
		case x.K == "s" && strings.TrimSpace(x.S) != x.S:
			x.S = "_"
		case x.K == "re" && (x.S == "." || x.S == `[^,;]` || x.S == `<([^>]*)>`):
			x.S = `\d+`
		}
		return x
	})
	rule := g[0].Name
	// Sample with a marker at both sides of each token.
	marked := append(g.clone(), Rule{".wrapRE", re(`()`)})
	s := &padSampler{sampler{t: t, vars: map[string]string{}}}
	toks := s.tokens(marked, rule)
	g = append(g, Rule{".wrapRE", re(`\s*()\s*`)})
	pads := func(label string) []string {
		var out []string
		for i := 0; i <= len(toks); i++ {
			if i == 0 || i == len(toks) {
				out = append(out, pick(t, []string{"", " ", "\n", "\t "}, label))
			} else {
				out = append(out, pick(t, []string{" ", "\n", "  ", "\t\r\n "}, label))
			}
		}
		return out
	}
	return PadCase{g, rule, toks, pads("a"), pads("b")}
}

type padSampler struct{ sampler }

// tokens makes a sentence and splits it in tokens, for which it joins them with a
// character that no token contains.
func (s *padSampler) tokens(g Grammar, rule string) []string {
	sep := "\x01"
	m := g.mapTerms(func(x *Term) *Term { return x })
	var mark func(t *Term) *Term
	mark = func(t *Term) *Term {
		return t.mapTerm(func(x *Term) *Term {
			if x.K == "s" {
				x.S += sep
			}
			return x
		})
	}
	for i := range m {
		if m[i].Name != ".wrapRE" {
			m[i].T = mark(m[i].T)
		}
	}
	full, _ := (&markSampler{sampler: s.sampler, sep: sep}).sampleAll(m, rule)
	var out []string
	for _, tok := range strings.Split(full, sep) {
		if tok != "" {
			out = append(out, tok)
		}
		if len(out) == 40 {
			break
		}
	}
	return out
}

type markSampler struct {
	sampler
	sep string
}

func (s *markSampler) sampleAll(g Grammar, rule string) (string, string) {
	for i := range g {
		// A regexp is followed by the separator.
		if g[i].Name != ".wrapRE" {
			g[i].T = g[i].T.mapTerm(func(x *Term) *Term {
				if x.K == "re" {
					return seqOf(x, lit(s.sep))
				}
				return x
			})
		}
	}
	ls := newLexScope(g, nil)
	return s.sample(ls, ruleRef(rule), rng(s.t, 1, 4, "depth"))
}

func checkPadding(c PadCase, o *Obs) error {
	render := func(pads []string) string {
		var sb strings.Builder
		for i, tok := range c.Toks {
			sb.WriteString(pads[i])
			sb.WriteString(tok)
		}
		sb.WriteString(pads[len(c.Toks)])
		return sb.String()
	}
	p := c.G.toParser().Compile(nil)
	a, b := render(c.A), render(c.B)
	if len(c.Toks) == 0 {
		return errDiscard // an empty match takes no padding
	}
	if _, ok := runModel(c.G, c.Rule, a, nil); !ok {
		return errDiscard
	}
	ta, errA := implParse(p, c.Rule, a)
	tb, errB := implParse(p, c.Rule, b)
	if (errA == nil) != (errB == nil) || ta.shape() != tb.shape() {
		return fmt.Errorf("grammar: %v\n%q: %v %T\n%q: %v %T", c.G, a, ta, errA, b, tb, errB)
	}
	if errA == nil {
		o.Label("accepted")
		for _, l := range ta.leaves() {
			if strings.TrimSpace(l.Text) != l.Text {
				return fmt.Errorf("grammar: %v\n%q: the leaf %q has padding", c.G, a, l.Text)
			}
		}
		if a != b && len(c.Toks) > 0 {
			o.NonTrivial()
		}
	} else {
		o.Label("rejected")
	}
	return nil
}

// --- back references -----------------------------------------------------------------

// genRefGrammar makes a grammar in which names are bound and referred to often.
func genRefGrammar(t *rapid.T, o gopts) Grammar {
	for i := 0; ; i++ {
		g := genGrammar(t, o)
		has := false
		g.walk(func(x *Term) { has = has || x.K == "ref" })
		if has || i == 3 {
			return g
		}
	}
}

// BytesCase is a grammar and an input that need not be valid text.
type BytesCase struct {
	G     Grammar `json:"grammar"`
	Rule  string  `json:"rule"`
	Input Bytes   `json:"input"`
}

func genBytesCase(t *rapid.T, g Grammar) BytesCase {
	lits := ""
	g = g.mapTerms(func(x *Term) *Term {
		switch x.K {
		case "re":
			if !strings.Contains(x.S, "()") && pct(t, 75, "any") {
				return re(pick(t, []string{".", "[^,;]"}, "anychar"))
			}
		case "s":
			lits += x.S
		}
		return x
	})
	c := genParseCaseOf(t, g)
	odd := []string{"\xff", "\ufffd", "\xc3", "\xe2\x80", "\xef\xbf"}
	to := map[rune]string{}
	var out []byte
	for _, r := range c.Input {
		if _, has := to[r]; !has {
			to[r] = string(r)
			if !strings.ContainsRune(lits, r) && r != ' ' && pct(t, 70, "odd") {
				to[r] = pick(t, odd, "bytes")
			}
		}
		s := to[r]
		if s != string(r) && pct(t, 15, "another") {
			s = pick(t, odd, "otherbytes")
		}
		out = append(out, s...)
	}
	return BytesCase{c.G, c.Rule, Bytes(out)}
}

// Element is a node of a document of matching tags.
type Element struct {
	Name string     `json:"name"`
	Kids []*Element `json:"kids,omitempty"`
}

// TagCase is a document, of which the closing tag of one element may be changed.
type TagCase struct {
	Root   *Element `json:"root"`
	Change int      `json:"change"` // index of an element in preorder, or -1
	To     string   `json:"to"`
	Wrap   bool     `json:"wrap"`
	Nested bool     `json:"nested"` // the name is bound to a compound
}

var tagNames = []string{"a", "b", "ab", "ba", "aa"}

func genTags(t *rapid.T) TagCase {
	n := 0
	var gen func(depth int) *Element
	gen = func(depth int) *Element {
		n++
		e := &Element{Name: pick(t, tagNames, "tag")}
		if depth > 0 {
			for i := rng(t, 0, 3, "kids"); i > 0 && n < 12; i-- {
				e.Kids = append(e.Kids, gen(depth-1))
			}
		}
		return e
	}
	c := TagCase{Root: gen(3), Change: -1, Wrap: pct(t, 30, "wrap"), Nested: pct(t, 40, "nested")}
	if pct(t, 50, "change") {
		c.Change = rng(t, 0, n-1, "which")
		c.To = pick(t, tagNames, "to")
	}
	return c
}

func checkTags(c TagCase, o *Obs) error {
	name := named("name", re(`[a-z]+`))
	if c.Nested {
		name = named("name", seqOf(re(`[a-z]`), quant(re(`[a-z]`), 0, 0)))
	}
	g := Grammar{{"e", seqOf(lit("<"), name, lit(">"), quant(ruleRef("e"), 0, 0), lit("</"), &Term{K: "ref", S: "name"}, lit(">"))}}
	if c.Wrap {
		g = append(g, Rule{".wrapRE", re(`\s*()\s*`)})
	}
	n := 0
	changed := false
	var render func(e *Element) string
	render = func(e *Element) string {
		i := n
		n++
		s := "<" + e.Name + ">"
		for _, k := range e.Kids {
			s += render(k)
		}
		closing := e.Name
		if i == c.Change {
			changed = closing != c.To
			closing = c.To
		}
		return s + "</" + closing + ">"
	}
	in := render(c.Root)
	p := g.toParser().Compile(nil)
	te, err := p.Parse("e", parser.NewScanner(in))
	if (err == nil) == changed {
		return fmt.Errorf("%q (changed: %v): %v", in, changed, err)
	}
	if err == nil {
		var back func(n parser.Node) *Element
		text := func(te parser.TreeElement) string {
			s := ""
			for _, l := range implTree(te, in).leaves() {
				s += l.Text
			}
			return s
		}
		back = func(n parser.Node) *Element {
			e := &Element{Name: text(n.Children[1])}
			if closing := text(n.Children[5]); closing != e.Name {
				e.Name = "mismatch " + closing
			}
			for _, k := range n.GetNode(3).Children {
				e.Kids = append(e.Kids, back(k.(parser.Node)))
			}
			return e
		}
		var show func(e *Element) string
		show = func(e *Element) string {
			s := e.Name + "("
			for _, k := range e.Kids {
				s += show(k)
			}
			return s + ")"
		}
		if got, want := show(back(te.(parser.Node))), show(c.Root); got != want {
			return fmt.Errorf("%q: got %s, want %s", in, got, want)
		}
	}
	if n >= 3 {
		o.NonTrivial()
	}
	o.Label("changed=%v", changed)
	return nil
}

// --- scoped grammars ----------------------------------------------------------------------

// genScopedGrammar makes a grammar that has a nested grammar. Some nested rules
// are then renamed to shadow outer ones.
func genScopedGrammar(t *rapid.T, o gopts) Grammar {
	var g Grammar
	for i := 0; i < 5; i++ {
		g = genGrammar(t, o)
		if g.kinds()["scope"] > 0 {
			break
		}
	}
	if pct(t, 50, "shadow") {
		var outer []string
		for _, r := range g {
			if r.Name != ".wrapRE" {
				outer = append(outer, r.Name)
			}
		}
		target := pick(t, outer, "shadowed")
		g = g.mapTerms(func(x *Term) *Term {
			if x.K != "scope" || !Grammar(x.G).has("n1") {
				return x
			}
			uses := false
			x.walk(func(y *Term) { uses = uses || y.K == "rule" && y.S == target })
			if uses || Grammar(x.G).has(target) {
				return x
			}
			y := renameRules(x, map[string]string{"n1": target})
			return y
		})
	}
	return g
}

// renameRules renames the rules of the term's nested grammars and the references to them.
func renameRules(t *Term, m map[string]string) *Term {
	return t.mapTerm(func(x *Term) *Term {
		if to, ok := m[x.S]; ok && x.K == "rule" {
			x.S = to
		}
		for i := range x.G {
			if to, ok := m[x.G[i].Name]; ok {
				x.G[i].Name = to
			}
		}
		return x
	})
}

func shadowedNames(g Grammar) []string {
	var out []string
	g.walk(func(t *Term) {
		for _, r := range t.G {
			out = append(out, r.Name)
		}
	})
	return out
}

func nodeOfRules(t *Tree, names []string) bool {
	found := false
	t.walk(func(t *Tree) { found = found || contains(names, strings.SplitN(t.Tag, "@", 2)[0]) })
	return found
}

// hoist makes nested rules top-level rules of unique names. names maps those back.
func hoist(g Grammar) (out Grammar, names map[string]string) {
	names = map[string]string{}
	n := 0
	var conv func(t *Term, env map[string]string) *Term
	conv = func(t *Term, env map[string]string) *Term {
		if t.K == "rule" {
			if to, ok := env[t.S]; ok {
				return ruleRef(to)
			}
			return t
		}
		if t.K == "scope" {
			inner := map[string]string{}
			for k, v := range env {
				inner[k] = v
			}
			for _, r := range t.G {
				n++
				u := fmt.Sprintf("h%d", n)
				names[u] = r.Name
				inner[r.Name] = u
			}
			for _, r := range t.G {
				out = append(out, Rule{inner[r.Name], conv(r.T, inner)})
			}
			return conv(t.T[0], inner)
		}
		c := *t
		c.T = nil
		for _, k := range t.T {
			c.T = append(c.T, conv(k, env))
		}
		return &c
	}
	var tops Grammar
	for _, r := range g {
		tops = append(tops, Rule{r.Name, conv(r.T, map[string]string{})})
	}
	return append(tops, out...), names
}

func checkHoist(c ParseCase, o *Obs) error {
	// A scoped term binds no name, whereas the rule that replaces it does.
	c.G = c.G.mapTerms(func(t *Term) *Term {
		switch {
		case t.K == "ref":
			return lit("b")
		case t.K == "scope" && t.T[0].K == "rule":
			// A named group that is merely a nested rule is known by its name, but a named rule isn't.
			t.T[0] = seqOf(t.T[0])
		}
		return t
	})
	if _, ok := runModel(c.G, c.Rule, c.Input, nil); !ok {
		return errDiscard
	}
	flat, names := hoist(c.G)
	var wrapped Grammar
	for _, r := range flat {
		wrapped = append(wrapped, r)
	}
	a, errA := implParse(c.G.toParser().Compile(nil), c.Rule, c.Input)
	b, errB := implParse(wrapped.toParser().Compile(nil), c.Rule, c.Input)
	back := func(t *Tree) *Tree {
		return t.mapTree(func(t *Tree) *Tree {
			base, level, _ := strings.Cut(t.Tag, "@")
			if to, ok := names[base]; ok {
				t.Tag = to
				if level != "" {
					t.Tag += "@" + level
				}
			}
			return t
		})
	}
	da := describeParse(a, errA, c.Input)
	db := describeParse(back(b), errB, c.Input)
	if u, ok := errB.(parser.UnconsumedInputError); ok {
		db = fmt.Sprintf("matched %d of %d bytes: %v", u.Residue().Offset(), len(c.Input), back(implTree(u.Result(), c.Input)))
		a = implTree(errAResult(errA), c.Input)
	}
	if da != db {
		return fmt.Errorf("%v\nhoisted: %v\nwant: %v\ngot:  %v", c, wrapped, db, da)
	}
	if a != nil {
		o.Label("matched")
	}
	if nodeOfRules(a, shadowedNames(c.G)) {
		o.NonTrivial()
	}
	return nil
}

func errAResult(err error) parser.TreeElement {
	if u, ok := err.(parser.UnconsumedInputError); ok {
		return u.Result()
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = utf8.RuneLen
