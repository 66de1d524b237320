package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- external references and escapes (C18) ------------------------------------------------

// ExtDef is a function of the caller that parses a part of the input.
type ExtDef struct {
	Name string
	Kind string // eat, lit, node, parse, fail, stray, stop
	N    int
	S    string
	G    Grammar
	AST  bool // the result of parse is given as an AST
}

type ExtCase struct {
	G           Grammar
	Rule, Input string
	Exts        []ExtDef
	Open, Close string // of the escapes, if any
	Escape      *ExtDef
}

func (c ExtCase) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "grammar: %v\nrule %s, input %q\n", c.G, c.Rule, c.Input)
	for _, e := range c.Exts {
		fmt.Fprintf(&sb, "external %v\n", e)
	}
	if c.Escape != nil {
		fmt.Fprintf(&sb, "escape %q %q %v\n", c.Open, c.Close, *c.Escape)
	}
	return sb.String()
}

func (e ExtDef) String() string {
	return fmt.Sprintf("%s: %s %d %q %v AST=%v", e.Name, e.Kind, e.N, e.S, e.G, e.AST)
}

type stopError struct{ msg string }

func (e *stopError) Error() string { return e.msg }
func (e *stopError) IsStopError()  {}

// call runs the function. The grammar of a parse has been compiled to p.
func (e ExtDef) call(p parser.Parsers, in *parser.Scanner, escape bool) (parser.TreeElement, error) {
	text := in.String()
	switch e.Kind {
	case "eat":
		if len(text) < e.N {
			return nil, fmt.Errorf("external %s: too short", e.Name)
		}
		var eaten parser.Scanner
		in.Eat(e.N, &eaten)
		return eaten, nil
	case "lit":
		var eaten parser.Scanner
		if !in.EatString(e.S, &eaten) {
			return nil, fmt.Errorf("external %s: no %s", e.Name, e.S)
		}
		return eaten, nil
	case "node":
		n := parser.Node{Tag: "external"}
		for i := 0; i < len(text) && text[i] >= 'a' && text[i] <= 'z'; i++ {
			var eaten parser.Scanner
			in.Eat(1, &eaten)
			n.Children = append(n.Children, eaten)
		}
		if len(n.Children) == 0 {
			return nil, fmt.Errorf("external %s: no letters", e.Name)
		}
		return n, nil
	case "stray":
		if text != "" {
			var eaten parser.Scanner
			in.Eat(1, &eaten)
		}
		return nil, fmt.Errorf("external %s: strayed", e.Name)
	case "stop":
		return nil, &stopError{"external " + e.Name + ": stop"}
	case "parse":
		before := in.Offset()
		te, err := p.Parse(parser.Rule(e.G[0].Name), in)
		residue := in.Offset()
		var u parser.UnconsumedInputError
		if errors.As(err, &u) {
			te, residue = u.Result(), u.Residue().Offset()
			if !escape {
				*in, err = *u.Residue(), nil
			}
		}
		if te != nil && residue == before {
			return nil, fmt.Errorf("external %s: nothing parsed", e.Name)
		}
		if te == nil {
			return nil, fmt.Errorf("external %s: not parsed", e.Name)
		}
		if e.AST && err == nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						panic(budgetExceeded{}) // the AST of an inner tree is the concern of C14
					}
				}()
				te = ast.NewExtRefTreeElement(p.Grammar(), te)
			}()
		}
		return te, err
	}
	return nil, fmt.Errorf("external %s: fails", e.Name)
}

func genExtDef(t *rapid.T, name string) (e ExtDef, sample string) {
	e.Name = name
	e.Kind = pick(t, []string{"eat", "lit", "node", "parse", "parse", "parse", "fail", "stray", "stop"}, "kind")
	switch e.Kind {
	case "eat":
		e.N = rng(t, 1, 3, "n")
		sample = "xyz"[:e.N]
	case "lit":
		e.S = pick(t, []string{"a", "ab", "b;", ":", "ext"}, "literal")
		sample = e.S
	case "node":
		sample = pick(t, []string{"a", "ab", "xyz"}, "letters")
	case "parse":
		o := fullOpts()
		o.rules, o.depth, o.wrap, o.scopes = 2, 2, 15, false
		e.G = genGrammar(t, o)
		e.AST = pct(t, 60, "as AST")
		sample = genSentence(t, e.G, e.G[0].Name)
	default:
		sample = "a"
	}
	return e, sample
}

var escapeMarks = [][3]string{{`\{:`, `:\}`, "{:%s:}"}, {`\$\{`, `\}`, "${%s}"}, {`<<\s*`, `\s*>>`, "<< %s >>"}, {`a`, `b`, "a%sb"}, {`\s*@`, `$`, " @%s\n"},
	{`#|\$\(`, `#|\)`, "$(%s)"}, {`\$\{|#`, `\}|#`, "#%s#"}}

func genExt(t *rapid.T) ExtCase {
	var c ExtCase
	o := fullOpts()
	o.rules = 3
	g := genGrammar(t, o)
	var names []string
	samples := map[string]string{}
	for i := rng(t, 0, 3, "externals"); i > 0; i-- {
		name := fmt.Sprintf("e%d", i)
		names = append(names, name)
		if pct(t, 4, "undefined") {
			continue
		}
		e, sample := genExtDef(t, name)
		c.Exts = append(c.Exts, e)
		samples[name] = sample
	}
	escaped := ""
	if len(names) == 0 || pct(t, 40, "escape") {
		e, sample := genExtDef(t, "escape")
		if e.Kind == "parse" && e.AST {
			e.AST = pct(t, 20, "escape as AST")
		}
		marks := pick(t, escapeMarks, "marks")
		c.Open, c.Close, c.Escape = marks[0], marks[1], &e
		escaped = fmt.Sprintf(marks[2], sample)
	}
	if len(names) > 0 {
		g = g.mapTerms(func(x *Term) *Term {
			if (x.K == "s" || x.K == "re" || x.K == "ref") && pct(t, 25, "external") {
				return &Term{K: "ext", S: pick(t, names, "name")}
			}
			return x
		})
		for i, r := range g {
			if r.Name == ".wrapRE" {
				g[i].T = re(`\s*()\s*`)
			}
		}
	}
	if pct(t, 30, "cuts") {
		g = g.withCuts()
	}
	c.G, c.Rule = g, g[0].Name
	s := &sampler{t: t, vars: map[string]string{}, exts: samples, escaped: escaped}
	full, _ := s.sample(newLexScope(g, nil), ruleRef(c.Rule), rng(t, 1, 5, "depth"))
	if len(full) > 200 {
		full = strings.ToValidUTF8(full[:200], "")
	}
	c.Input = full
	if pct(t, 30, "mutate") {
		c.Input = mutate(t, g, c.Input)
	}
	return c
}

func checkExt(c ExtCase, o *Obs) error {
	all := append([]ExtDef{}, c.Exts...)
	if c.Escape != nil {
		all = append(all, *c.Escape)
	}
	compiled := map[string]parser.Parsers{}
	for _, e := range all {
		if e.Kind == "parse" {
			compiled[e.Name] = e.G.toParser().Compile(nil)
		}
	}

	// what should happen
	m := newModel(c.Input)
	m.external = map[string]extFunc{}
	wantCalls := map[string]bool{}
	certain := "" // what the error must mention
	asts := false
	costs := map[string]int{}
	modelOf := func(e ExtDef, escape bool) extFunc {
		return func(input string, pos int) (*Tree, int, *failure) {
			wantCalls[fmt.Sprintf("%s at %d", e.Name, pos)] = true
			if e.Kind == "parse" {
				key := fmt.Sprintf("%s at %d", e.Name, pos)
				if _, has := costs[key]; !has {
					inner, ok := runModel(e.G, e.G[0].Name, input[pos:], nil)
					if !ok {
						panic(budgetExceeded{})
					}
					costs[key] = inner.m.steps
				}
				m.steps += costs[key]
				m.step()
			}
			in := parser.NewScannerAt(input, pos, len(input)-pos)
			te, err := e.call(compiled[e.Name], in, escape)
			var u parser.UnconsumedInputError
			if escape && errors.As(err, &u) {
				te, in, err = u.Result(), u.Residue(), nil
			}
			if err != nil {
				f := &failure{at: pos}
				if e.Kind == "stop" {
					f.cut = -1
				}
				if m.catchers == 0 {
					certain = err.Error()
				}
				return nil, pos, f
			}
			asts = asts || e.AST
			return implTree(te, input), in.Offset(), nil
		}
	}
	for _, e := range c.Exts {
		m.external[e.Name] = modelOf(e, false)
	}
	if c.Escape != nil {
		m.escape = &mEscape{
			open:  regexp.MustCompile(`(?m)\A(?:` + c.Open + `)`),
			close: regexp.MustCompile(`(?m)\A(?:` + c.Close + `)`),
			fn:    modelOf(*c.Escape, true),
			missing: func() {
				if m.catchers == 0 {
					certain = "terminator"
				}
			},
		}
	}
	var want outcome
	ok := true
	want, ok = m.run(c.G, c.Rule)
	if !ok {
		return errDiscard
	}

	// what happens
	calls := map[string]bool{}
	exts := parser.ExternalRefs{}
	var bad error
	var stop error
	implOf := func(e ExtDef, escape bool) parser.ExternalRef {
		return func(scope parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
			pos := in.Offset()
			calls[fmt.Sprintf("%s at %d", e.Name, pos)] = true
			if pos < 0 || pos > len(c.Input) || in.String() != c.Input[pos:] {
				bad = fmt.Errorf("the external %s was given %q at %d", e.Name, in.String(), pos)
			}
			te, err := e.call(compiled[e.Name], in, escape)
			if e.Kind == "stop" {
				stop = err
			}
			return te, err
		}
	}
	for _, e := range c.Exts {
		exts[e.Name] = implOf(e, false)
	}
	if c.Escape != nil {
		exts["*"+c.Open+"()"+c.Close] = implOf(*c.Escape, true)
	}
	p := c.G.toParser().Compile(nil)
	te, err := p.ParseWithExternals(parser.Rule(c.Rule), parser.NewScanner(c.Input), exts)
	if bad != nil {
		return fmt.Errorf("%v%v", c, bad)
	}
	got := describeParse(implTree(te, c.Input), err, c.Input)
	if got != want.String() {
		return fmt.Errorf("%vwant: %v\ngot:  %v", c, want, got)
	}
	if a, b := sortedKeys(wantCalls), sortedKeys(calls); fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Errorf("%vwant the calls %q\ngot %q", c, a, b)
	}
	if stop != nil && want.tree == nil && err != stop {
		return fmt.Errorf("%vreturned %v instead of the error that stops", c, err)
	}
	if err != nil && certain != "" && want.tree == nil && m.steps < 100 {
		o.Label("error reported")
		if msg := err.Error(); true {
			if !strings.Contains(msg, certain) {
				return fmt.Errorf("%vthe error doesn't mention %q: %s", c, certain, msg)
			}
		}
	}
	if err == nil && asts && c.Escape == nil {
		if err := checkExtAST(p.Grammar(), te, o); err != nil {
			return fmt.Errorf("%v%v", c, err)
		}
	}
	if len(calls) > 0 {
		o.NonTrivial()
	}
	if c.Escape != nil && want.tree != nil {
		for k := range calls {
			if strings.HasPrefix(k, "escape") {
				o.Label("escape in a match")
				break
			}
		}
	}
	labelOutcome(want, o)
	return nil
}

// checkExtAST checks that the AST has what externals returned as ASTs, under their names.
func checkExtAST(g parser.Grammar, te parser.TreeElement, o *Obs) error {
	var want, got []string
	var walk func(te parser.TreeElement)
	walk = func(te parser.TreeElement) {
		n, ok := te.(parser.Node)
		if !ok {
			return
		}
		if b, is := n.Extra.(ast.Branch); is {
			want = append(want, implAST(b).String())
		}
		for _, k := range n.Children {
			walk(k)
		}
	}
	walk(te)
	if _, ok := te.(parser.Node); !ok || parser.NodeRule(te.(parser.Node)) == "extref" {
		return nil // the start rule is merely an external
	}
	b, err := safeAST(g, te)
	if err != nil {
		return nil // the concern of C14
	}
	implAST(b).walk(func(n *ANode) {
		for name, k := range n.Kids {
			if regexp.MustCompile(`^e\d$`).MatchString(name) {
				for _, c := range k.Nodes {
					got = append(got, c.String())
				}
			}
		}
	})
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Errorf("externals returned the ASTs %q\nthe AST has %q", want, got)
	}
	o.Label("AST")
	return nil
}

func init() {
	register("C18", "A case is a grammar in which some tokens were replaced by external references, functions for these (which match, parse "+
		"with another grammar, fail, fail after they moved, or stop), possibly an escape, and an input. It is non-trivial if a function was called.",
		opts{part: "externals", quick: 100000, thorough: 6000000}, genExt, checkExt)
}
