package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// --- sharing (C19) -----------------------------------------------------------------

// ShareOp is something that one does with shared objects.
type ShareOp struct {
	Op string `json:"op"`
	I  int    `json:"i"` // index of an input
	J  int    `json:"j,omitempty"`
}

// ShareCase is a history of operations, then several of them at once.
type ShareCase struct {
	G      Grammar     `json:"grammar"`
	Text   bool        `json:"text,omitempty"` // compile the grammar's text
	Rule   string      `json:"rule"`
	Inputs []string    `json:"inputs"`
	Before []ShareOp   `json:"before,omitempty"`
	Par    [][]ShareOp `json:"parallel,omitempty"`
	After  []ShareOp   `json:"after,omitempty"`
}

// result of parsing an input, with what was derived from it.
type parsed struct {
	sc   *parser.Scanner
	te   parser.TreeElement
	err  error
	b    ast.Branch
	berr error
}

// world is what the operations share.
type world struct {
	c      ShareCase
	g      parser.Grammar
	p      parser.Parsers
	parsed []*parsed
	meta   parser.Parsers
}

var addressRE = regexp.MustCompile(`0x[0-9a-f]+`)

func normalised(s string) string {
	s = addressRE.ReplaceAllString(s, "0x")
	if len(s) > 20000 {
		s = s[:20000]
	}
	return s
}

func newWorld(c ShareCase) *world {
	w := &world{c: c, g: c.G.toParser(), parsed: make([]*parsed, len(c.Inputs))}
	if c.Text {
		p, err := wbnf.Compile(plainText(c.G), nil)
		if err != nil {
			panic(errDiscard)
		}
		w.p = p
	} else {
		w.p = w.g.Compile(nil)
	}
	w.meta = wbnf.Core()
	return w
}

func (w *world) parse(i int) *parsed {
	r := &parsed{sc: parser.NewScanner(w.c.Inputs[i])}
	r.te, r.err = w.p.Parse(parser.Rule(w.c.Rule), r.sc)
	return r
}

// get returns what input i yielded in the first place.
func (w *world) get(i int) *parsed {
	if w.parsed[i] == nil {
		r := w.parse(i)
		if r.err == nil {
			r.b, r.berr = safeAST(w.p.Grammar(), r.te)
		}
		w.parsed[i] = r
	}
	return w.parsed[i]
}

func (w *world) describe(r *parsed, i int) string {
	if r.err != nil {
		return "error: " + normalised(r.err.Error())
	}
	return implTree(r.te, w.c.Inputs[i]).String()
}

// do carries out an operation, and describes its result.
func (w *world) do(op ShareOp) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if r == errDiscard {
				panic(r)
			}
			res = "panic: " + normalised(fmt.Sprint(r))
		}
	}()
	switch op.Op {
	case "parse":
		return w.describe(w.parse(op.I), op.I)
	case "move-on":
		// Whoever parsed uses the scanner for something else.
		r := w.parse(op.I)
		was := w.describe(r, op.I)
		*r.sc = *parser.NewScanner("\x00" + w.c.Inputs[op.I] + "?")
		if is := w.describe(r, op.I); is != was {
			a, b := differing(was, is)
			return fmt.Sprintf("moved on: was %s, is %s", a, b)
		}
		return was
	case "compile":
		p := w.g.Compile(nil)
		te, err := p.Parse(parser.Rule(w.c.Rule), parser.NewScanner(w.c.Inputs[op.I]))
		return w.describe(&parsed{te: te, err: err}, op.I)
	case "compile-again":
		// The grammar of a parser, which was compiled already.
		p := w.p.Grammar().Compile(nil)
		te, err := p.Parse(parser.Rule(w.c.Rule), parser.NewScanner(w.c.Inputs[op.I]))
		return w.describe(&parsed{te: te, err: err}, op.I)
	case "compile-text":
		p, err := wbnf.Compile(plainText(w.c.G), nil)
		if err != nil {
			return "error: " + normalised(err.Error())
		}
		return p.Grammar().String()
	case "grammar":
		return w.g.String() + "\n" + w.p.Grammar().String()
	case "diff":
		return fmt.Sprint(diff.Grammars(w.g, w.p.Grammar()).Equal())
	case "node":
		n := w.p.Node().(ast.Node)
		return fmt.Sprint(n, "\n", wbnf.NewFromAst(n))
	case "go":
		return codegen.MakeGrammarString(w.p.Grammar()).String()
	}
	r := w.get(op.I)
	if op.Op == "error" {
		if r.err == nil {
			return "none"
		}
		return normalised(r.err.Error())
	}
	if r.err != nil {
		return "not parsed"
	}
	switch op.Op {
	case "ast":
		b, err := safeAST(w.p.Grammar(), r.te)
		if err != nil {
			return err.Error()
		}
		return implAST(b).String()
	case "print-tree":
		return fmt.Sprintf("%v\n%q\n%s", r.te, r.te, implTree(r.te, w.c.Inputs[op.I]))
	case "unparse":
		var sb strings.Builder
		n, err := w.p.Unparse(r.te, &sb)
		return fmt.Sprintf("%d %v %s", n, err, sb.String())
	case "diff-trees":
		o := w.get(op.J)
		a, aok := r.te.(parser.Node)
		b, bok := o.te.(parser.Node)
		if !aok || !bok {
			return "none"
		}
		d := diff.NewNodeDiff(&a, &b)
		return fmt.Sprint(d.Equal(), " ", normalised(d.String()))
	}
	if r.berr != nil {
		return r.berr.Error()
	}
	switch op.Op {
	case "print-ast":
		return r.b.String() + "\n" + implAST(r.b).String()
	case "view":
		return ast.BuildTreeView("root", r.b, true) + ast.BuildTreeView("root", r.b, false)
	case "scanner":
		return r.b.Scanner().String()
	case "back":
		te, err := safeBack(w.p.Grammar(), r.b)
		if err != nil {
			return "panic"
		}
		return fmt.Sprintf("%v", te)
	case "equals":
		o := w.get(op.J)
		if o.err != nil || o.berr != nil {
			return "none"
		}
		return fmt.Sprint(r.b.ContentEquals(o.b))
	}
	panic("unknown operation " + op.Op)
}

// state describes everything that operations share, in depth.
func (w *world) state() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%#v\n%#v\n", w.g, w.p.Grammar())
	for i, r := range w.parsed {
		if r != nil {
			fmt.Fprintf(&sb, "input %d: %#v %#v\n", i, r.te, r.b)
		}
	}
	return sb.String()
}

var shareOps = []string{"parse", "parse", "parse", "move-on", "compile", "compile-again", "grammar", "diff", "go",
	"error", "ast", "ast", "print-tree", "unparse", "diff-trees", "print-ast", "view", "scanner", "back", "equals"}

func genShareOp(t *rapid.T, c ShareCase) ShareOp {
	ops := shareOps
	if c.Text {
		ops = append([]string{"compile-text", "node"}, ops...)
	}
	op := ShareOp{Op: pick(t, ops, "op"), I: uni(t, len(c.Inputs), "i")}
	if op.Op == "diff-trees" || op.Op == "equals" {
		op.J = uni(t, len(c.Inputs), "j")
	}
	return op
}

func genShareOps(t *rapid.T, c ShareCase, lo, hi int) []ShareOp {
	var ops []ShareOp
	for n := rng(t, lo, hi, "ops"); len(ops) < n; {
		ops = append(ops, genShareOp(t, c))
	}
	return ops
}

func genShared(t *rapid.T) ShareCase {
	var c ShareCase
	if c.Text = pct(t, 40, "text"); c.Text {
		c.G = genTextGrammar(t, textOpts())
	} else {
		c.G = genGrammar(t, fullOpts())
	}
	c.Rule = c.G[0].Name
	for n := rng(t, 1, 3, "inputs"); len(c.Inputs) < n; {
		if pct(t, 70, "accepted") {
			c.Inputs = append(c.Inputs, genAccepted(t, c.G, c.Rule, 4))
		} else {
			c.Inputs = append(c.Inputs, genInput(t, c.G, c.Rule))
		}
	}
	return c
}

func genHistory(t *rapid.T) ShareCase {
	c := genShared(t)
	c.Before = genShareOps(t, c, 2, 12)
	return c
}

func genParallel(t *rapid.T) ShareCase {
	c := genShared(t)
	c.Before = genShareOps(t, c, 0, 2)
	for n := rng(t, 2, 8, "goroutines"); len(c.Par) < n; {
		c.Par = append(c.Par, genShareOps(t, c, 1, 5))
	}
	c.After = genShareOps(t, c, 1, 2)
	return c
}

func checkShared(c ShareCase, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if r != errDiscard {
				panic(r)
			}
			err = errDiscard
		}
	}()
	accepted, rejected := 0, 0
	for _, in := range c.Inputs {
		m := newModel(in)
		m.maxSteps = 800
		out, ok := m.run(c.G, c.Rule)
		if !ok || m.errorCost > 30_000 {
			return errDiscard
		}
		if out.accepted() {
			accepted++
		} else {
			rejected++
		}
	}
	memo := map[ShareOp]string{}
	first := func(op ShareOp) string {
		if _, ok := memo[op]; !ok {
			memo[op] = newWorld(c).do(op)
		}
		return memo[op]
	}
	w := newWorld(c)
	for i := range c.Inputs {
		w.get(i)
	}
	state := w.state()
	seen := map[string]int{}
	sequential := func(ops []ShareOp) error {
		for i, op := range ops {
			seen[op.Op]++
			want := first(op)
			if strings.HasPrefix(want, "moved on: ") {
				return fmt.Errorf("%v\nthe result depends on the scanner, after the parse: %s", c, want)
			}
			if got := w.do(op); got != want {
				return fmt.Errorf("%v\nafter %v, %v differs from its first use\nwant: %s\ngot:  %s", c, ops[:i], op, want, got)
			}
			if got := w.state(); got != state {
				a, b := differing(state, got)
				return fmt.Errorf("%v\nafter %v, %v modified what it used\nwas: %s\nis:  %s", c, ops[:i], op, a, b)
			}
		}
		return nil
	}
	if err := sequential(c.Before); err != nil {
		return err
	}
	if len(c.Par) > 0 {
		for _, ops := range c.Par {
			for _, op := range ops {
				seen[op.Op]++
				first(op)
			}
		}
		races := raceErrors()
		for rep := 0; rep < 3; rep++ {
			// Apart from the first time, the objects have only been made.
			u := w
			if rep > 0 {
				u = newWorld(c)
				for i := range c.Inputs {
					u.get(i)
				}
			}
			errs := make([]error, len(c.Par))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i, ops := range c.Par {
				wg.Add(1)
				go func(i int, ops []ShareOp) {
					defer wg.Done()
					<-start
					for _, op := range ops {
						if got := u.do(op); got != memo[op] && errs[i] == nil {
							errs[i] = fmt.Errorf("%v\n%v differs among concurrent operations\nwant: %s\ngot:  %s", c, op, memo[op], got)
						}
					}
				}(i, ops)
			}
			close(start)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
		}
		if n := raceErrors() - races; n > 0 {
			return fmt.Errorf("%v\n%d data races", c, n)
		}
		if got := w.state(); got != state {
			a, b := differing(state, got)
			return fmt.Errorf("%v\nthe concurrent operations modified what they used\nwas: %s\nis:  %s", c, a, b)
		}
		if err := sequential(c.After); err != nil {
			return err
		}
	}
	if len(seen) >= 3 && accepted > 0 {
		o.NonTrivial()
	}
	for op := range seen {
		o.Label("op:%s", op)
	}
	if rejected > 0 {
		o.Label("rejected-input")
	}
	return nil
}

// differing returns the places where two texts differ.
func differing(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := maxInt(0, i-60), minInt(len(s), i+100)
		return s[lo:hi]
	}
	return cut(a), cut(b)
}

func (c ShareCase) String() string {
	return fmt.Sprintf("grammar: %v\nrule %s, inputs %q, text %v, goroutines %v", c.G, c.Rule, c.Inputs, c.Text, c.Par)
}

func init() {
	rule := "A case is a grammar, up to 3 inputs, and a history of operations (parse, compile, convert, print, unparse, diff) on the shared " +
		"grammar, parser, trees and ASTs. Each result is compared with that of the operation's first use of fresh objects, and deep dumps of the " +
		"shared objects from before and after it. "
	register("C19", rule+"It is non-trivial if an input was accepted, and there are at least 3 kinds of operations.",
		opts{part: "history", quick: 2500, thorough: 150000}, genHistory, checkShared)
	register("C19", rule+"Here, 2 to 8 goroutines carry out operations at once, three times, under the race detector.",
		opts{part: "parallel", quick: 1200, thorough: 80000, needRace: true}, genParallel, checkShared)
}
