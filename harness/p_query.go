package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- queries on the AST (C16) --------------------------------------------------------

// A made-up AST over a source text: leaves are pieces of the source.
type QueryCase struct {
	Source string
	AST    *ANode
	Parsed *ParseCase // if not nil, the AST is that of this parse
	Names  []string
	Change int // which place to change, and how
	How    int
}

func (c QueryCase) String() string {
	if c.Parsed != nil {
		return fmt.Sprintf("the AST of %v", *c.Parsed)
	}
	return fmt.Sprintf("source %q, AST %v", c.Source, c.AST)
}

var queryNames = []string{"", "a", "b", "c", "@rule", "@choice", "@empty"}

type astGen struct {
	t      *rapid.T
	source string
	extras bool // extras may occur anywhere
	budget int
}

func (g *astGen) leaf() *ANode {
	lo := uni(g.t, len(g.source)+1, "lo")
	hi := minInt(len(g.source), lo+uni(g.t, 4, "length"))
	return &ANode{Leaf: true, Lo: lo, Text: g.source[lo:hi]}
}

func (g *astGen) extra() *ANode {
	if pct(g.t, 70, "choice") {
		return extraNode("choice %d", uni(g.t, 3, "choice no"))
	}
	return extraNode("%s", pick(g.t, []string{"expr", "stmt", "@prefix", "@suffix"}, "extra"))
}

func (g *astGen) node(depth int) *ANode {
	g.budget--
	if depth == 0 || g.budget < 0 || pct(g.t, 30, "leaf") {
		return g.leaf()
	}
	return g.branch(depth - 1)
}

func (g *astGen) branch(depth int) *ANode {
	n := &ANode{Kids: map[string]*AKids{}}
	for i := uni(g.t, 6, "children"); i > 0; i-- {
		name := pick(g.t, queryNames, "name")
		if n.Kids[name] != nil {
			continue
		}
		k := &AKids{Many: pct(g.t, 50, "many")}
		count := 1
		if k.Many {
			count = uni(g.t, 4, "count")
		}
		for j := 0; j < count; j++ {
			if strings.HasPrefix(name, "@") {
				k.Nodes = append(k.Nodes, g.extra())
			} else {
				k.Nodes = append(k.Nodes, g.node(depth))
			}
		}
		if name == "@choice" {
			for _, c := range k.Nodes {
				c.Text = fmt.Sprintf("choice %d", uni(g.t, 3, "choice no"))
			}
		}
		n.Kids[name] = k
	}
	return n
}

func genSource(t *rapid.T) string {
	var sb strings.Builder
	for i := uni(t, 12, "source length"); i >= 0; i-- {
		sb.WriteString(pick(t, []string{"a", "b", "ab", "\n", " ", "é", "1"}, "piece"))
	}
	return sb.String()
}

func genQuery(t *rapid.T) QueryCase {
	var c QueryCase
	if pct(t, 25, "parsed") {
		o := fullOpts()
		pc := genAcceptedCase(t, genGrammar(t, o).noNestedAliases())
		c.Parsed = &pc
	} else {
		c.Source = genSource(t)
		g := &astGen{t: t, source: c.Source, budget: 30}
		c.AST = g.branch(rng(t, 1, 4, "depth"))
	}
	for i := rng(t, 1, 3, "names"); i > 0; i-- {
		c.Names = append(c.Names, pick(t, append([]string{"zz", "n1", "x", "v", "expr"}, queryNames...), "query"))
	}
	c.Change, c.How = uni(t, 1000, "change"), uni(t, 6, "how")
	return c
}

// build makes an AST of the code under test.
func (n *ANode) build(src *parser.Scanner) ast.Node {
	switch {
	case n.Leaf:
		return ast.Leaf(*src.Slice(n.Lo, n.Lo+len(n.Text)))
	case n.Extra:
		var i int
		if k, _ := fmt.Sscanf(n.Text, "choice %d", &i); k == 1 {
			return ast.Extra{Data: parser.Choice(i)}
		}
		if strings.HasPrefix(n.Text, "@") {
			return ast.Extra{Data: n.Text}
		}
		return ast.Extra{Data: parser.Rule(n.Text)}
	}
	b := ast.Branch{}
	for name, k := range n.Kids {
		if !k.Many {
			b[name] = ast.One{Node: k.Nodes[0].build(src)}
			continue
		}
		many := ast.Many{}
		for _, c := range k.Nodes {
			many = append(many, c.build(src))
		}
		b[name] = many
	}
	return b
}

// hull is the range from the first to the last token outside of @ children.
func (n *ANode) hull() (lo, hi int, ok bool) {
	if n.Leaf {
		return n.Lo, n.Lo + len(n.Text), true
	}
	for name, k := range n.Kids {
		if strings.HasPrefix(name, "@") {
			continue
		}
		for _, c := range k.Nodes {
			l, h, has := c.hull()
			if !has {
				continue
			}
			if !ok || l < lo {
				lo = l
			}
			if !ok || h > hi {
				hi = h
			}
			ok = true
		}
	}
	return lo, hi, ok
}

// kids returns the children of a name.
func (n *ANode) kids(name string) (nodes []*ANode, many bool) {
	if k := n.Kids[name]; k != nil {
		return k.Nodes, k.Many
	}
	return nil, false
}

func checkQueries(c QueryCase, o *Obs) error {
	var root ast.Node
	source := c.Source
	if c.Parsed != nil {
		pc := *c.Parsed
		p := pc.G.toParser().Compile(nil)
		te, _ := parseAccepted(p, pc.G, pc.Rule, pc.Input)
		if te == nil {
			return errDiscard
		}
		b, err := safeAST(p.Grammar(), te)
		if err != nil {
			return errDiscard // the concern of C14
		}
		root, source = b, pc.Input
		o.Label("parsed")
	} else {
		root = c.AST.build(parser.NewScanner(source))
	}
	model := implAST(root)
	before := model.String()
	if c.AST != nil && before != c.AST.String() {
		return fmt.Errorf("harness: %s", before)
	}
	if err := checkNode(root, model, source, c); err != nil {
		return fmt.Errorf("%v\n%w", c, err)
	}
	if err := checkEquality(root, model, source, c, o); err != nil {
		return fmt.Errorf("%v\n%w", c, err)
	}
	if after := implAST(root).String(); after != before {
		return fmt.Errorf("%v\nthe queries changed the AST to %s", c, after)
	}
	size := 0
	model.walk(func(*ANode) { size++ })
	if size >= 5 {
		o.NonTrivial()
	}
	return nil
}

func nodeString(n ast.Node) string {
	if n == nil {
		return "nil"
	}
	return implAST(n).String()
}

func nodesString(ns []ast.Node) string {
	var out []string
	for _, n := range ns {
		out = append(out, nodeString(n))
	}
	return fmt.Sprintf("%q", out)
}

// checkNode compares the queries on a node, and on those below it, with the model.
func checkNode(n ast.Node, m *ANode, source string, c QueryCase) error {
	for _, name := range append(append([]string{}, c.Names...), m.names()...) {
		kids, many := m.kids(name)
		one, first, all, manys := "nil", "nil", []string(nil), []string(nil)
		for _, k := range kids {
			all = append(all, k.String())
		}
		if len(all) > 0 {
			first = all[0]
		}
		if many {
			manys = all
		} else if len(all) > 0 {
			one = all[0]
		}
		if got := nodeString(n.One(name)); got != one {
			return fmt.Errorf("One(%q) of %v is %s, not %s", name, m, got, one)
		}
		if got := nodesString(n.Many(name)); got != fmt.Sprintf("%q", manys) {
			return fmt.Errorf("Many(%q) of %v is %s, not %q", name, m, got, manys)
		}
		if got := nodeString(ast.First(n, name)); got != first {
			return fmt.Errorf("First(%q) of %v is %s, not %s", name, m, got, first)
		}
		if got := nodesString(ast.All(n, name)); got != fmt.Sprintf("%q", all) {
			return fmt.Errorf("All(%q) of %v is %s, not %q", name, m, got, all)
		}
	}
	choice := -1
	if kids, _ := m.kids("@choice"); len(kids) > 0 {
		fmt.Sscanf(kids[0].Text, "choice %d", &choice)
	}
	if got := ast.Choice(n); got != choice {
		return fmt.Errorf("Choice of %v is %d, not %d", m, got, choice)
	}
	if b, ok := n.(ast.Branch); ok {
		want := ""
		var kids *AKids
		for _, name := range c.Names {
			if m.Kids[name] != nil {
				want, kids = name, m.Kids[name]
				break
			}
		}
		got, children := ast.Which(b, c.Names...)
		if got != want || (children == nil) != (kids == nil) {
			return fmt.Errorf("Which%q of %v is %q, %v", c.Names, m, got, children)
		}
		if kids != nil {
			if w := (&ANode{Kids: map[string]*AKids{want: kids}}).String(); implAST(ast.Branch{want: children}).String() != w {
				return fmt.Errorf("Which%q of %v returns %v", c.Names, m, children)
			}
		}
	}
	if !m.Extra {
		if err := checkHull(fmt.Sprint(m), n.Scanner(), source, m); err != nil {
			return err
		}
	}
	b, _ := n.(ast.Branch)
	for _, name := range m.names() {
		k := m.Kids[name]
		if !strings.HasPrefix(name, "@") {
			under := &ANode{Kids: map[string]*AKids{name: k}}
			if err := checkHull("the children "+under.String(), b[name].Scanner(), source, under); err != nil {
				return err
			}
		}
		switch children := b[name].(type) {
		case ast.One:
			if err := checkNode(children.Node, k.Nodes[0], source, c); err != nil {
				return err
			}
		case ast.Many:
			for i, child := range children {
				if err := checkNode(child, k.Nodes[i], source, c); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func checkHull(what string, s parser.Scanner, source string, m *ANode) error {
	lo, hi, ok := m.hull()
	switch {
	case s.IsNil() == ok:
		return fmt.Errorf("the scanner of %s: nil=%v", what, s.IsNil())
	case ok && (s.Offset() != lo || s.String() != source[lo:hi]):
		return fmt.Errorf("the scanner of %s has %q at %d, not %q at %d", what, s.String(), s.Offset(), source[lo:hi], lo)
	}
	return nil
}

func (n *ANode) clone() *ANode {
	out := *n
	if n.Kids != nil {
		out.Kids = map[string]*AKids{}
		for name, k := range n.Kids {
			k2 := &AKids{Many: k.Many}
			for _, c := range k.Nodes {
				k2.Nodes = append(k2.Nodes, c.clone())
			}
			out.Kids[name] = k2
		}
	}
	return &out
}

// elsewhere moves the leaves to a source in which they have other positions.
func (n *ANode) elsewhere() (*ANode, string) {
	var src strings.Builder
	src.WriteString("#")
	out := n.clone()
	out.walk(func(n *ANode) {
		if n.Leaf {
			n.Lo = src.Len()
			src.WriteString(n.Text)
		}
	})
	return out, src.String()
}

// content is the AST without positions.
func (n *ANode) content() string {
	out := n.clone()
	out.walk(func(n *ANode) { n.Lo = 0 })
	return out.String()
}

// change changes one place, and says what it did.
func (n *ANode) change(place, how int) string {
	var nodes []*ANode
	n.walk(func(n *ANode) { nodes = append(nodes, n) })
	x := nodes[place%len(nodes)]
	switch {
	case x.Leaf && how < 2:
		x.Text += "b"
		return "leaf longer"
	case x.Leaf && how == 2 && x.Text != "":
		x.Text = x.Text[:len(x.Text)-1]
		return "leaf shorter"
	case x.Leaf:
		*x = ANode{Kids: map[string]*AKids{"": {Nodes: []*ANode{{Leaf: true, Text: x.Text}}}}}
		return "leaf to branch"
	case x.Extra:
		if strings.HasPrefix(x.Text, "choice ") {
			x.Text = "choice 7"
		} else if how < 3 {
			x.Text += "x"
		} else {
			*x = ANode{Leaf: true, Text: x.Text}
			return "extra to leaf"
		}
		return "other extra"
	}
	names := x.names()
	if len(names) == 0 {
		x.Kids["new"] = &AKids{Nodes: []*ANode{{Leaf: true, Text: "b"}}}
		return "child added"
	}
	name := names[place%len(names)]
	k := x.Kids[name]
	switch how {
	case 0:
		delete(x.Kids, name)
		return "name removed"
	case 1:
		delete(x.Kids, name)
		x.Kids[name+"z"] = k
		return "name changed"
	case 2:
		if k.Many {
			k.Nodes = append(k.Nodes, extraNode("choice 9"))
			return "element added"
		}
		k.Many = true
		return "one to many"
	case 3:
		if len(k.Nodes) == 0 {
			*k = AKids{Nodes: []*ANode{{Leaf: true, Text: "b"}}}
			return "none to one"
		}
		if k.Many && len(k.Nodes) == 1 {
			k.Many = false
			return "many to one"
		}
		if k.Many && len(k.Nodes) > 1 {
			k.Nodes = k.Nodes[:len(k.Nodes)-1]
			return "element removed"
		}
	case 4:
		if i := len(k.Nodes) - 1; i > 0 {
			k.Nodes[0], k.Nodes[i] = k.Nodes[i], k.Nodes[0]
			return "elements swapped"
		}
	}
	x.Kids["new"] = &AKids{Many: how == 5, Nodes: []*ANode{{Leaf: true, Text: "b"}}}
	return "name added"
}

func checkEquality(root ast.Node, m *ANode, source string, c QueryCase, o *Obs) error {
	moved, src := m.elsewhere()
	same := moved.build(parser.NewScanner(src))
	if !root.ContentEquals(same) || !same.ContentEquals(root) || !root.ContentEquals(root) {
		return fmt.Errorf("not equal in content to itself with other positions (%v)", moved)
	}
	other := m.clone()
	o.Label("change: %s", other.change(c.Change, c.How))
	changed, src := other.elsewhere()
	x := changed.build(parser.NewScanner(src))
	want := m.content() == other.content()
	if got := root.ContentEquals(x); got != want {
		return fmt.Errorf("the content compared with %v: %v", changed, got)
	}
	if got := x.ContentEquals(root); got != want {
		return fmt.Errorf("the content of %v compared with it: %v", changed, got)
	}
	return nil
}

func init() {
	register("C16", "A case is a made-up AST (75 %) or that of a parse, a list of names to look up, and a change at one place. All queries "+
		"are made on all nodes. It is non-trivial if the AST has at least 5 nodes.",
		opts{part: "queries", quick: 60000, thorough: 4000000}, genQuery, checkQueries)
}
