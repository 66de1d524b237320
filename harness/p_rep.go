package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// --- repetitions (C03) ------------------------------------------------------------

// RepLevel is a repetition of letters and of bracketed repetitions of the next level.
type RepLevel struct {
	Delim bool   `json:"delim"`
	Min   int    `json:"min"`
	Max   int    `json:"max"`
	Assoc int    `json:"assoc"`
	Lead  bool   `json:"lead"`
	Trail bool   `json:"trail"`
	Sep   string `json:"sep"`
	Named bool   `json:"named"`
}

// RepVal is what a level is to match.
type RepVal struct {
	Letter string    `json:"letter,omitempty"` // of a leaf
	Items  []*RepVal `json:"items,omitempty"`
	Lead   bool      `json:"lead,omitempty"`
	Trail  bool      `json:"trail,omitempty"`
}

// RepCase is a grammar of nested repetitions and what to parse with it.
type RepCase struct {
	Levels []RepLevel `json:"levels"`
	Val    *RepVal    `json:"val"`
	Wrong  string     `json:"wrong"` // what is wrong at the top level
	At     int        `json:"at"`
	Text   string     `json:"text"`
}

var repSeps = []string{",", ";", "::"}
var repLetters = []string{"a", "b", "é"}

func (c RepCase) grammar() Grammar {
	var level func(i int) *Term
	level = func(i int) *Term {
		l := c.Levels[i]
		elem := altOf(lit("a"), lit("b"), lit("é"))
		if i+1 < len(c.Levels) {
			elem.T = append(elem.T, seqOf(lit("["), level(i+1), lit("]")))
		}
		if !l.Delim {
			return quant(elem, l.Min, l.Max)
		}
		sep := lit(l.Sep)
		if l.Named {
			sep = named("sep", sep)
		}
		return delim(elem, sep, l.Assoc, l.Lead, l.Trail)
	}
	// The other rule makes all literals occur several times, so there are no cut points.
	all := []*Term{}
	for i := 0; i < 2; i++ {
		for _, s := range append([]string{"[", "]"}, append(repSeps, repLetters...)...) {
			all = append(all, lit(s))
		}
	}
	return Grammar{{"r", level(0)}, {"other", seqOf(all...)}}
}

func genRepVal(t *rapid.T, levels []RepLevel, top bool) *RepVal {
	l := levels[0]
	v := &RepVal{}
	lo, hi := l.Min, l.Min+pick(t, []int{0, 1, 2, 3, 6}, "more")
	if l.Delim {
		lo, hi = 1, pick(t, []int{1, 2, 3, 4, 5, 9}, "count")
	}
	if top && pct(t, 3, "big") { // only the outermost
		lo = maxInt(lo, pick(t, []int{10, 16, 31, 63, 64, 99, 127, 255, 256, 500, 1000}, "atleast"))
		hi = lo + 3
	}
	if l.Max > 0 {
		lo, hi = minInt(lo, l.Max), minInt(hi, l.Max)
	}
	n := rng(t, lo, hi, "n")
	for i := 0; i < n; i++ {
		if len(levels) > 1 && pct(t, 40, "nest") {
			v.Items = append(v.Items, genRepVal(t, levels[1:], false))
		} else {
			v.Items = append(v.Items, &RepVal{Letter: pick(t, repLetters, "letter")})
		}
	}
	v.Lead = l.Delim && l.Lead && pct(t, 50, "lead")
	v.Trail = l.Delim && l.Trail && pct(t, 50, "trail")
	return v
}

func genRep(t *rapid.T) RepCase {
	var c RepCase
	for i, n := 0, rng(t, 1, 3, "levels"); i < n; i++ {
		l := RepLevel{Sep: repSeps[i]}
		if l.Delim = pct(t, 60, "delim"); l.Delim {
			l.Assoc = rng(t, -1, 1, "assoc")
			l.Lead, l.Trail, l.Named = pct(t, 40, "maylead"), pct(t, 40, "maytrail"), pct(t, 30, "named")
		} else {
			l.Min = rng(t, 0, 4, "min")
			if i == 0 && pct(t, 3, "bigmin") {
				l.Min = pick(t, []int{5, 7, 9, 10, 11, 16, 33, 64, 100, 128, 256}, "min")
			}
			if pct(t, 60, "bounded") {
				l.Max = maxInt(1, l.Min+rng(t, 0, 3, "range"))
			}
		}
		c.Levels = append(c.Levels, l)
	}
	c.Val = genRepVal(t, c.Levels, true)
	if pct(t, 45, "wrong") {
		top, v := c.Levels[0], c.Val
		c.At = uni(t, len(v.Items)+1, "at")
		if top.Delim {
			c.Wrong = pick(t, []string{"lead", "trail", "lead2", "trail2", "double", "missing", "other", "none"}, "what")
		} else {
			c.Wrong = pick(t, []string{"few", "many", "sep"}, "what")
		}
		letter := func() *RepVal { return &RepVal{Letter: pick(t, repLetters, "letter")} }
		switch c.Wrong {
		case "few":
			if top.Min == 0 {
				c.Wrong = ""
				break
			}
			v.Items = v.Items[:uni(t, top.Min, "few")]
		case "many":
			if top.Max == 0 {
				c.Wrong = ""
				break
			}
			for n := top.Max + rng(t, 1, 2, "many"); len(v.Items) < n; {
				v.Items = append(v.Items, letter())
			}
		case "double", "missing", "other":
			for len(v.Items) < 2 {
				v.Items = append(v.Items, letter())
			}
			c.At = 1 + c.At%(len(v.Items)-1) // before the element
		}
	}
	c.Text = renderText(t, c.grammar())
	return c
}

// input renders the value, with what is wrong, and computes the expected outcome:
// the tree of how much of it.
func (c RepCase) input() (input, want string) {
	var sb strings.Builder
	leaf := func(s string) *Tree {
		lo := sb.Len()
		sb.WriteString(s)
		return leafTree(sb.String(), lo, sb.Len())
	}
	end := -1 // of the match
	var level func(i int, v *RepVal) *Tree
	level = func(i int, v *RepVal) *Tree {
		l := c.Levels[i]
		wrong := ""
		if i == 0 {
			wrong = c.Wrong
		}
		stop := func() {
			if end == -1 {
				end = sb.Len()
			}
		}
		var items []*Tree
		add := func(t *Tree) {
			if end < 0 {
				items = append(items, t)
			}
		}
		switch {
		case wrong == "few" || wrong == "none":
			end = -2
		case wrong == "lead" && !l.Lead, wrong == "lead2":
			end = -2
			leaf(l.Sep)
			if wrong == "lead2" {
				leaf(l.Sep)
			}
		}
		if wrong == "none" {
			return nil
		}
		if v.Lead || wrong == "lead" && l.Lead {
			add(emptyTree())
			add(leaf(l.Sep))
		}
		for n, item := range v.Items {
			if l.Max > 0 && n == l.Max {
				stop()
			}
			if n > 0 && l.Delim {
				switch {
				case wrong == "missing" && n == c.At:
					stop()
				case wrong == "other" && n == c.At:
					stop()
					leaf("]")
				case wrong == "double" && n == c.At:
					if !l.Trail {
						stop()
					}
					add(leaf(l.Sep))
					if l.Trail {
						add(emptyTree())
					}
					stop()
					leaf(l.Sep)
				default:
					add(leaf(l.Sep))
				}
			}
			if wrong == "sep" && n == c.At {
				if n < l.Min {
					end = -2
				}
				stop()
				leaf(l.Sep)
			}
			if item.Letter != "" {
				for k, s := range repLetters {
					if s == item.Letter {
						add(nodeTree("|", fmt.Sprintf("choice %d", k), leaf(s)))
					}
				}
				continue
			}
			open := leaf("[")
			inner := level(i+1, item)
			add(nodeTree("|", "choice 3", nodeTree("_", "", open, inner, leaf("]"))))
		}
		if wrong == "sep" && c.At >= len(v.Items) {
			if len(v.Items) < l.Min {
				end = -2
			}
			stop()
			leaf(l.Sep)
		}
		if v.Trail || wrong == "trail" || wrong == "trail2" {
			if !l.Trail {
				stop()
			}
			add(leaf(l.Sep))
			add(emptyTree())
			if wrong == "trail2" {
				stop()
				leaf(l.Sep)
			}
		}
		tag := "?"
		if l.Delim {
			tag = ":"
		}
		if i == 0 {
			tag = "r"
		}
		if !l.Delim {
			return nodeTree(tag, "", items...)
		}
		if len(items) == 1 || l.Assoc == 0 || len(items) == 0 {
			return nodeTree(tag, "assoc 0", items...)
		}
		extra := fmt.Sprintf("assoc %d", l.Assoc)
		if l.Assoc > 0 {
			t := items[0]
			for k := 1; k+1 < len(items); k += 2 {
				t = nodeTree(tag, extra, t, items[k], items[k+1])
			}
			return t
		}
		t := items[len(items)-1]
		for k := len(items) - 2; k > 0; k -= 2 {
			t = nodeTree(tag, extra, items[k-1], items[k], t)
		}
		return t
	}
	tree := level(0, c.Val)
	input = sb.String()
	switch {
	case end == -2:
		want = "no match"
	case end < 0 || end == len(input):
		want = tree.String()
	default:
		want = fmt.Sprintf("matched %d of %d bytes: %v", end, len(input), tree)
	}
	return input, want
}

func checkRep(c RepCase, o *Obs) error {
	input, want := c.input()
	g := c.grammar()
	if got := implOutcome(g.toParser().Compile(nil), "r", input); got != want {
		return fmt.Errorf("grammar: %v\ninput %q (%s)\nwant: %s\ngot:  %s", g, input, c.Wrong, want, got)
	}
	p, err := wbnf.Compile(c.Text, nil)
	if err != nil {
		return fmt.Errorf("%s\nerror: %s", c.Text, clip(err.Error(), 300))
	}
	if got := implOutcome(p, "r", input); got != want {
		return fmt.Errorf("grammar: %s\ninput %q (%s)\nwant: %s\ngot:  %s", c.Text, input, c.Wrong, want, got)
	}
	if len(c.Val.Items) >= 2 || c.Wrong != "" {
		o.NonTrivial()
	}
	o.Label("wrong=%s", c.Wrong)
	if c.Levels[0].Delim {
		o.Label("assoc=%d", c.Levels[0].Assoc)
	}
	return nil
}

// --- precedence stacks (C04) --------------------------------------------------------

// StackLayer is a layer of operators of the same precedence.
type StackLayer struct {
	Kind  string   `json:"kind"` // infix, prefix, prefix?, postfix, postfix?, cond
	Assoc int      `json:"assoc"`
	Ops   []string `json:"ops"`
	Named bool     `json:"named"`
	Regex bool     `json:"regex"`
}

// Expr is an expression.
type Expr struct {
	Layer int      `json:"l"` // len(layers): atom
	Ops   []string `json:"o,omitempty"`
	Args  []*Expr  `json:"a,omitempty"`
	Atom  string   `json:"atom,omitempty"`
}

func (e *Expr) String() string {
	if e == nil {
		return "nil"
	}
	if e.Args == nil {
		return e.Atom
	}
	var args []string
	for _, a := range e.Args {
		args = append(args, a.String())
	}
	return fmt.Sprintf("{%d %q %s}", e.Layer, e.Ops, strings.Join(args, " "))
}

// StackCase is a stack and an expression, printed in some way.
type StackCase struct {
	Layers []StackLayer `json:"layers"`
	Second bool         `json:"second"` // atoms may be in brackets, containing an expression of a second stack
	Wrap   bool         `json:"wrap"`
	Expr   *Expr        `json:"expr"`
	Text   string       `json:"text"`
	Plain  string       `json:"plain"` // with as few parentheses as possible
	Extra  string       `json:"extra"` // with more
}

// No operator is the prefix of another.
var stackOps = []string{"+", "-", "*", "/", "^", "and", "or", "<", "~", "!", "==", "%", ".", "#", "@@", "if", "?"}

func (c StackCase) opTerm(l StackLayer) *Term {
	if l.Regex {
		var quoted []string
		for _, op := range l.Ops {
			quoted = append(quoted, reQuote(op))
		}
		return re("(?:" + strings.Join(quoted, "|") + ")")
	}
	if len(l.Ops) == 1 {
		return lit(l.Ops[0])
	}
	alt := &Term{K: "alt"}
	for _, op := range l.Ops {
		alt.T = append(alt.T, lit(op))
	}
	return alt
}

func reQuote(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`+-*/^~!.#?=<%@`, r) {
			sb.WriteString(`\`)
			if r == '-' || r == '/' || r == '~' || r == '!' || r == '#' || r == '=' || r == '<' || r == '%' || r == '@' {
				sb.Reset()
				return "[" + s + "]{" + fmt.Sprint(len(s)) + "}"
			}
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func (c StackCase) grammar() Grammar {
	at := ruleRef("@")
	st := &Term{K: "stack"}
	for _, l := range c.Layers {
		op := c.opTerm(l)
		if l.Named {
			op = named("op", op)
		}
		switch l.Kind {
		case "infix":
			st.T = append(st.T, delim(at, op, l.Assoc, false, false))
		case "prefix":
			st.T = append(st.T, seqOf(quant(op, 0, 0), at))
		case "prefix?":
			st.T = append(st.T, seqOf(quant(op, 0, 1), at))
		case "postfix":
			st.T = append(st.T, seqOf(at, quant(op, 0, 0)))
		case "postfix?":
			st.T = append(st.T, seqOf(at, quant(op, 0, 1)))
		case "chain":
			st.T = append(st.T, seqOf(at, quant(seqOf(op, at), 0, 0)))
		}
	}
	last := altOf(re(`\d+`), seqOf(lit("("), at, lit(")")))
	st.T = append(st.T, last)
	g := Grammar{{"e", st}}
	if c.Second {
		last.T = append(last.T, ruleRef("list"))
		g = append(g, Rule{"list", seqOf(lit("["), delim(ruleRef("e"), lit(","), 0, false, false), lit("]"))})
	}
	if c.Wrap {
		g = append(g, Rule{".wrapRE", re(`\s*()\s*`)})
	}
	return g
}

func genStack(t *rapid.T) StackCase {
	c := StackCase{Wrap: pct(t, 40, "wrap"), Second: pct(t, 40, "second")}
	ops := rapid.Permutation(stackOps).Draw(t, "ops")
	n := rng(t, 1, 5, "layers")
	for i := 0; i < n; i++ {
		l := StackLayer{Kind: pick(t, []string{"infix", "infix", "infix", "chain", "prefix", "prefix?", "postfix", "postfix?"}, "kind")}
		l.Assoc = rng(t, -1, 1, "assoc")
		k := rng(t, 1, 2, "nops")
		l.Ops = append([]string{}, ops[:k]...)
		ops = ops[k:]
		l.Named = pct(t, 40, "named")
		l.Regex = pct(t, 25, "regex")
		c.Layers = append(c.Layers, l)
	}
	size := rng(t, 1, 12, "size")
	c.Expr = c.genExpr(t, &size, 6)
	c.Text = renderText(t, c.grammar())
	c.Plain = c.print(t, c.Expr, 0, 0)
	c.Extra = c.print(t, c.Expr, 0, 30)
	return c
}

func (c StackCase) genExpr(t *rapid.T, size *int, depth int) *Expr {
	if *size <= 0 || depth == 0 || pct(t, 15, "atom") {
		return &Expr{Layer: len(c.Layers), Atom: fmt.Sprint(uni(t, 100, "number"))}
	}
	*size--
	if c.Second && pct(t, 15, "list") {
		e := &Expr{Layer: len(c.Layers), Ops: []string{"list"}}
		for i := rng(t, 1, 3, "elems"); i > 0; i-- {
			e.Args = append(e.Args, c.genExpr(t, size, depth-1))
		}
		return e
	}
	i := uni(t, len(c.Layers), "layer")
	l := c.Layers[i]
	e := &Expr{Layer: i}
	op := func() { e.Ops = append(e.Ops, pick(t, l.Ops, "op")) }
	arg := func() { e.Args = append(e.Args, c.genExpr(t, size, depth-1)) }
	switch l.Kind {
	case "infix", "chain":
		n := 2
		if l.Assoc == 0 || l.Kind == "chain" {
			n = rng(t, 2, 4, "args")
		}
		arg()
		for ; n > 1; n-- {
			op()
			arg()
		}
	case "prefix", "postfix":
		for n := rng(t, 1, 3, "ops"); n > 0; n-- {
			op()
		}
		arg()
	default:
		op()
		arg()
	}
	return e
}

// print renders the expression where an expression of at least the given layer is
// allowed. With a probability of extra %, there are more parentheses than needed.
func (c StackCase) print(t *rapid.T, e *Expr, layer, extra int) string {
	sp := func() string {
		if c.Wrap {
			return pick(t, []string{"", " ", "\n", "  "}, "space")
		}
		return ""
	}
	if e.Layer < layer || extra > 0 && pct(t, extra, "paren") {
		return "(" + sp() + c.print(t, e, 0, extra/2) + sp() + ")"
	}
	if e.Layer == len(c.Layers) {
		if e.Args == nil {
			return e.Atom
		}
		var parts []string
		for _, a := range e.Args {
			parts = append(parts, sp()+c.print(t, a, 0, extra)+sp())
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	var sb strings.Builder
	l := c.Layers[e.Layer]
	switch l.Kind {
	case "infix", "chain":
		for i, a := range e.Args {
			inner := e.Layer + 1
			if l.Kind == "infix" && (l.Assoc > 0 && i == 0 || l.Assoc < 0 && i == 1) {
				inner = e.Layer
			}
			if i > 0 {
				sb.WriteString(sp() + e.Ops[i-1] + sp())
			}
			sb.WriteString(c.print(t, a, inner, extra))
		}
	case "prefix", "prefix?":
		for _, op := range e.Ops {
			sb.WriteString(op + sp())
		}
		sb.WriteString(c.print(t, e.Args[0], e.Layer+1, extra))
	default:
		sb.WriteString(c.print(t, e.Args[0], e.Layer+1, extra))
		for _, op := range e.Ops {
			sb.WriteString(sp() + op)
		}
	}
	return sb.String()
}

// read converts a parse tree to an expression, without the parentheses.
func (c StackCase) read(n *Tree, layer int) *Expr {
	tag := "e"
	if layer > 0 {
		tag = fmt.Sprintf("e@%d", layer)
	}
	if n.Tag != tag {
		panic(fmt.Sprintf("the node of layer %d is %s", layer, n.Tag))
	}
	if layer == len(c.Layers) {
		switch n.Extra {
		case "choice 0":
			return &Expr{Layer: layer, Atom: n.Kids[0].Text}
		case "choice 1":
			return c.read(n.Kids[0].Kids[1], 0)
		}
		e := &Expr{Layer: layer, Ops: []string{"list"}}
		for i, k := range n.Kids[0].Kids[1].Kids {
			if i%2 == 0 {
				e.Args = append(e.Args, c.read(k, 0))
			}
		}
		return e
	}
	op := func(t *Tree) string {
		for !t.Leaf {
			t = t.Kids[0]
		}
		return t.Text
	}
	l := c.Layers[layer]
	e := &Expr{Layer: layer}
	switch l.Kind {
	case "infix":
		if len(n.Kids) == 1 {
			return c.read(n.Kids[0], layer+1)
		}
		if want := fmt.Sprintf("assoc %d", l.Assoc); n.Extra != want {
			panic(fmt.Sprintf("the associativity is %s, want %s", n.Extra, want))
		}
		for i, k := range n.Kids {
			switch {
			case i%2 == 1:
				e.Ops = append(e.Ops, op(k))
			case k.Tag == n.Tag && (l.Assoc > 0 && i == 0 || l.Assoc < 0 && i == 2) && len(k.Kids) == 3:
				e.Args = append(e.Args, c.read(k, layer))
			default:
				e.Args = append(e.Args, c.read(k, layer+1))
			}
		}
		return e
	case "chain":
		e.Args = append(e.Args, c.read(n.Kids[0], layer+1))
		for _, k := range n.Kids[1].Kids {
			e.Ops = append(e.Ops, op(k.Kids[0]))
			e.Args = append(e.Args, c.read(k.Kids[1], layer+1))
		}
		if len(e.Ops) == 0 {
			return e.Args[0]
		}
		return e
	}
	ops, arg := n.Kids[0], n.Kids[1]
	if strings.HasPrefix(l.Kind, "postfix") {
		ops, arg = arg, ops
	}
	for _, k := range ops.Kids {
		e.Ops = append(e.Ops, op(k))
	}
	e.Args = []*Expr{c.read(arg, layer+1)}
	if len(e.Ops) == 0 {
		return e.Args[0]
	}
	return e
}

func checkStack(c StackCase, o *Obs) error {
	p, err := wbnf.Compile(c.Text, nil)
	if err != nil {
		return fmt.Errorf("%s\nerror: %s", c.Text, clip(err.Error(), 300))
	}
	want := c.Expr.String()
	for _, in := range []string{c.Plain, c.Extra} {
		for _, p := range []parser.Parsers{p, c.grammar().toParser().Compile(nil)} {
			tree, err := implParse(p, "e", in)
			if err != nil {
				return fmt.Errorf("%s\ninput %q\nwant: %s\nerror: %s", c.Text, in, want, clip(err.Error(), 300))
			}
			if got := c.read(tree, 0).String(); got != want {
				return fmt.Errorf("%s\ninput %q\nwant: %s\ngot:  %s\ntree: %v", c.Text, in, want, got, tree)
			}
		}
	}
	layers := map[int]bool{}
	var visit func(e *Expr)
	visit = func(e *Expr) {
		if len(e.Args) > 0 && e.Layer < len(c.Layers) {
			layers[e.Layer] = true
			l := c.Layers[e.Layer]
			o.Label("%s%d", l.Kind, l.Assoc)
		}
		for _, a := range e.Args {
			visit(a)
		}
	}
	visit(c.Expr)
	if len(layers) >= 2 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	register("C03", "A case is up to 3 nested levels of repetitions of all kinds, and a sequence of elements and "+
		"separators for them, of which the outermost may have too few or many elements or wrong separators. The expected "+
		"tree is computed from these. It is non-trivial if there are at least 2 elements or something is wrong.",
		opts{part: "counts", quick: 60000, thorough: 4000000}, genRep, checkRep)
	register("C04", "A case is a stack of up to 5 layers of operators and an expression, printed with as few parentheses "+
		"as possible and with more. It is non-trivial if the expression has operators of at least 2 layers.",
		opts{part: "expressions", quick: 30000, thorough: 2000000}, genStack, checkStack)
	register("C04", "A case is a grammar whose first rule is a stack of layers of any form, and an input, whose result is "+
		"compared with that of an independent interpreter, both for the grammar as such and compiled from its text. It is "+
		"non-trivial if at least 2 layers below the first match something in the tree.",
		opts{part: "layers", quick: 40000, thorough: 4000000}, genLayers, checkLayers)
}

func genLayers(t *rapid.T) TextParseCase {
	o := textOpts()
	o.stackFirst, o.rules, o.simpleLits = true, 3, pct(t, 50, "simple")
	g := genTextGrammar(t, o)
	pc := genParseCaseOf(t, g)
	return TextParseCase{G: pc.G, Text: renderText(t, pc.G), Rule: pc.Rule, Input: pc.Input}
}

func checkLayers(c TextParseCase, o *Obs) error {
	pc := ParseCase{c.G, c.Rule, c.Input}
	want, err := compareWithModel(c.G.toParser().Compile(nil), pc, c.G, o)
	if err != nil {
		return err
	}
	p, err := wbnf.Compile(c.Text, nil)
	if err != nil {
		return fmt.Errorf("%s\nerror: %s", c.Text, clip(err.Error(), 300))
	}
	if _, err := compareWithModel(p, pc, c.G.withCuts(), o); err != nil {
		return fmt.Errorf("%s\n%w", c.Text, err)
	}
	labelOutcome(want, o)
	layers := map[string]bool{}
	var visit func(n *Tree)
	visit = func(n *Tree) {
		if name, _, ok := strings.Cut(n.Tag, "@"); ok && name == c.G[0].Name {
			layers[n.Tag] = true
		}
		for _, k := range n.Kids {
			visit(k)
		}
	}
	if want.tree != nil {
		visit(want.tree)
	}
	if len(layers) >= 2 {
		o.NonTrivial()
	}
	return nil
}
