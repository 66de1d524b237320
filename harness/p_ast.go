package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// ANode is this framework's own representation of an AST node: a leaf, an extra,
// or a branch of children by name.
type ANode struct {
	Leaf  bool
	Lo    int
	Text  string // of a leaf or an extra
	Extra bool
	Kids  map[string]*AKids
}

// AKids are the children of one name.
type AKids struct {
	Many  bool
	Nodes []*ANode
}

func (n *ANode) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *ANode) names() []string {
	var names []string
	for name := range n.Kids {
		names = append(names, name)
	}
	sort.Strings(names)
	return names
}

func (n *ANode) write(sb *strings.Builder) {
	switch {
	case n == nil:
		sb.WriteString("nil")
	case n.Leaf:
		fmt.Fprintf(sb, "%d:%q", n.Lo, n.Text)
	case n.Extra:
		sb.WriteString(n.Text)
	default:
		sb.WriteString("{")
		for i, name := range n.names() {
			if i > 0 {
				sb.WriteString(" ")
			}
			k := n.Kids[name]
			if name == "" {
				name = "''"
			}
			if !k.Many {
				sb.WriteString(name + "=")
				k.Nodes[0].write(sb)
				continue
			}
			sb.WriteString(name + "=[")
			for i, c := range k.Nodes {
				if i > 0 {
					sb.WriteString(" ")
				}
				c.write(sb)
			}
			sb.WriteString("]")
		}
		sb.WriteString("}")
	}
}

func (n *ANode) walk(f func(*ANode)) {
	f(n)
	for _, name := range n.names() {
		for _, k := range n.Kids[name].Nodes {
			k.walk(f)
		}
	}
}

// implAST converts what the code under test returned.
func implAST(n ast.Node) *ANode {
	switch n := n.(type) {
	case ast.Leaf:
		s := parser.Scanner(n)
		return &ANode{Leaf: true, Lo: s.Offset(), Text: s.String()}
	case ast.Extra:
		if c, ok := n.Data.(parser.Choice); ok {
			return &ANode{Extra: true, Text: fmt.Sprintf("choice %d", int(c))}
		}
		return &ANode{Extra: true, Text: fmt.Sprint(n.Data)}
	case ast.Branch:
		out := &ANode{Kids: map[string]*AKids{}}
		for name, kids := range n {
			switch kids := kids.(type) {
			case ast.One:
				out.Kids[name] = &AKids{Nodes: []*ANode{implAST(kids.Node)}}
			case ast.Many:
				k := &AKids{Many: true}
				for _, c := range kids {
					k.Nodes = append(k.Nodes, implAST(c))
				}
				out.Kids[name] = k
			}
		}
		return out
	}
	return &ANode{Extra: true, Text: fmt.Sprintf("?%T", n)}
}

// --- the AST of a parse tree (C14) ------------------------------------------------

var levelRE = regexp.MustCompile(`^(\w+)@\d+$`)

// unlevel strips the level from the name of a layer of a stack.
func unlevel(name string) string {
	if m := levelRE.FindStringSubmatch(name); m != nil {
		return m[1]
	}
	return name
}

// occurs says how often each name can occur in the branch of a term. Two means
// any number above one.
func occurs(t *Term) map[string]int {
	out := map[string]int{}
	addOccurs(t, 1, out)
	return out
}

func addOccurs(t *Term, times int, out map[string]int) {
	add := func(name string, n int) { out[name] = minInt(2, out[name]+n) }
	switch t.K {
	case "s", "re":
		add("", times)
	case "rule":
		add(unlevel(t.S), times)
	case "named", "ext":
		add(t.S, times)
	case "ref":
		// A back reference may match a tree, all of whose nodes go by its name.
		add(t.S, 2)
	case "seq", "look", "cut":
		for _, k := range t.T {
			addOccurs(k, times, out)
		}
	case "scope", "delim":
		for _, k := range t.T {
			addOccurs(k, 2, out)
		}
	case "quant":
		n := times
		if t.Max != 1 {
			n = 2
		}
		addOccurs(t.T[0], n, out)
	case "alt":
		most := map[string]int{}
		for _, k := range t.T {
			for name, n := range occurs(k) {
				most[name] = maxInt(most[name], n)
			}
		}
		for name, n := range most {
			add(name, n*times)
		}
	default:
		panic("occurs: " + t.K)
	}
}

// astBuilder makes the AST that a parse tree should be converted to.
type astBuilder struct{}

// ambiguousAST is why a conversion isn't defined, or known not to work.
type ambiguousAST string

type abranch struct {
	*ANode
	occ map[string]int
}

func newBranch(occ map[string]int) abranch {
	return abranch{&ANode{Kids: map[string]*AKids{}}, occ}
}

// add adds a child under a name that is known to the counts of the branch.
func (b abranch) add(name string, n *ANode) {
	if b.occ[name] == 0 {
		panic("ast model: unexpected name " + name)
	}
	b.put(name, b.occ[name] > 1, n)
}

func (b abranch) put(name string, many bool, n *ANode) {
	k := b.Kids[name]
	if k == nil {
		k = &AKids{Many: many}
		b.Kids[name] = k
	}
	k.Nodes = append(k.Nodes, n)
}

func extraNode(format string, args ...any) *ANode {
	return &ANode{Extra: true, Text: fmt.Sprintf(format, args...)}
}

func (ab *astBuilder) leaf(t *Tree) *ANode { return &ANode{Leaf: true, Lo: t.Lo, Text: t.Text} }

// modelAST gives nil if the conversion is ambiguous.
func modelAST(g Grammar, t *Tree, o *Obs) (n *ANode) {
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(ambiguousAST)
			if !ok {
				panic(r)
			}
			o.Label("%s", string(a))
		}
	}()
	return (&astBuilder{}).root(g, t)
}

func (ab *astBuilder) root(g Grammar, t *Tree) *ANode {
	if t.Leaf {
		b := newBranch(map[string]int{"": 1})
		b.add("", ab.leaf(t))
		return b.ANode
	}
	ls := newLexScope(g, nil)
	term := ls.g.get(t.Tag)
	b := newBranch(occurs(term))
	b.put("@rule", false, extraNode("%s", t.Tag))
	ab.build(ls, term, t, b)
	return b.ANode
}

func (ab *astBuilder) build(ls *lexScope, t *Term, e *Tree, b abranch) {
	switch t.K {
	case "s", "re":
		b.add("", ab.leaf(e))
	case "rule":
		def := ls.find(t.S)
		body := def.g.get(t.S)
		sub := newBranch(occurs(body))
		ab.build(def, body, e, sub)
		b.add(unlevel(t.S), sub.ANode)
	case "named":
		sub := newBranch(occurs(t.T[0]))
		ab.build(ls, t.T[0], e, sub)
		b.add(t.S, sub.ANode)
	case "scope":
		ab.build(newLexScope(t.G, ls), t.T[0], e, b)
	case "cut":
		ab.build(ls, t.T[0], e, b)
	case "look", "quant":
		for _, k := range e.Kids {
			ab.build(ls, t.T[0], k, b)
		}
	case "seq":
		for i, k := range e.Kids {
			ab.build(ls, t.T[i], k, b)
		}
	case "alt":
		i := 0
		fmt.Sscanf(e.Extra, "choice %d", &i)
		b.put("@choice", true, extraNode("choice %d", i))
		ab.build(ls, t.T[i], e.Kids[0], b)
	case "delim":
		ab.delim(ls, t, e, b, true)
	case "ref":
		ab.ref(t, e, b)
	default:
		panic("ast model: " + t.K)
	}
}

func (ab *astBuilder) ref(t *Term, e *Tree, b abranch) {
	switch {
	case e.Leaf:
		b.add(t.S, ab.leaf(e))
	case !e.Empty:
		sub := newBranch(map[string]int{t.S: 2})
		for _, k := range e.Kids {
			ab.ref(t, k, sub)
		}
		b.add(t.S, sub.ANode)
	}
}

// delim converts a list. One that associates is a branch per element, of which
// the outermost is that of the term which the list is in.
func (ab *astBuilder) delim(ls *lexScope, t *Term, e *Tree, b abranch, outermost bool) {
	side := -1
	switch e.Extra {
	case "assoc 1":
		side = 0
	case "assoc -1":
		side = 2
	}
	if side >= 0 {
		k := e.Kids[side]
		if k.Leaf || k.Empty || k.Tag != e.Tag || k.Extra != e.Extra {
			side = -1
		} else if outermost && looksNested(ls, t.T[0], e, t.Assoc, map[string]bool{}) {
			panic(ambiguousAST("nested lists of the same associativity and name"))
		}
	}
	for i, k := range e.Kids {
		switch {
		case k.Empty && i == 0:
			b.put("@empty", true, extraNode("@prefix"))
		case k.Empty:
			b.put("@empty", true, extraNode("@suffix"))
		case i == side:
			occ := map[string]int{}
			for name := range occurs(t) {
				occ[name] = 2
			}
			sub := newBranch(occ)
			ab.delim(ls, t, k, sub, false)
			switch {
			case b.occ[e.Tag] > 0:
				b.add(e.Tag, sub.ANode)
			case b.Kids[e.Tag] != nil:
				panic(ambiguousAST("several unnamed lists that associate"))
			default:
				b.put(e.Tag, false, sub.ANode)
			}
		case i%2 == 0:
			ab.build(ls, t.T[0], k, b)
		default:
			ab.build(ls, t.T[1], k, b)
		}
	}
}

// looksNested says whether the term can give a node like that of the list that it
// is an element of.
func looksNested(ls *lexScope, t *Term, e *Tree, assoc int, seen map[string]bool) bool {
	tag := ":"
	for {
		switch t.K {
		case "cut":
			t = t.T[0]
		case "scope":
			ls, t = newLexScope(t.G, ls), t.T[0]
		case "named":
			if tag == ":" {
				tag = t.S
			}
			t = t.T[0]
		case "rule":
			if seen[t.S] {
				return false
			}
			seen[t.S] = true
			def := ls.find(t.S)
			// An alias of a rule may go by either name.
			if t.S == e.Tag {
				return true
			}
			tag = t.S
			ls, t = def, def.g.get(t.S)
		case "delim":
			return t.Assoc == assoc && tag == e.Tag
		default:
			return false
		}
	}
}

func safeAST(g parser.Grammar, te parser.TreeElement) (b ast.Branch, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("FromParserNode panicked: %v", r)
		}
	}()
	return ast.FromParserNode(g, te), nil
}

// parseAccepted parses an input that the model accepts, and gives nil if it doesn't or
// if the implementation's tree is another one, which is the concern of C01.
func parseAccepted(p parser.Parsers, g Grammar, rule, input string) (parser.TreeElement, *Tree) {
	want, ok := runModel(g, rule, input, nil)
	if !ok || !want.accepted() {
		return nil, nil
	}
	te, err := p.Parse(parser.Rule(rule), parser.NewScanner(input))
	if err != nil {
		return nil, nil
	}
	tree := implTree(te, input)
	if tree.String() != want.tree.String() {
		return nil, nil
	}
	return te, tree
}

func checkAST(c ParseCase, o *Obs) error {
	p := c.G.toParser().Compile(nil)
	te, tree := parseAccepted(p, c.G, c.Rule, c.Input)
	if te == nil {
		return errDiscard
	}
	want := modelAST(c.G, tree, o)
	if want == nil {
		return errDiscard
	}
	b, err := safeAST(p.Grammar(), te)
	if err != nil {
		return fmt.Errorf("grammar: %v\nrule %s, input %q\ntree: %v\n%v", c.G, c.Rule, c.Input, tree, err)
	}
	got := implAST(b)
	if got.String() != want.String() {
		return fmt.Errorf("grammar: %v\nrule %s, input %q\ntree: %v\nwant: %v\ngot:  %v", c.G, c.Rule, c.Input, tree, want, got)
	}
	// This is implied, unless the model makes the same mistake.
	if a, b := leafBag(got), tokenBag(tree); a != b {
		return fmt.Errorf("grammar: %v\nrule %s, input %q\ntree: %v\ntokens %s\nleaves %s", c.G, c.Rule, c.Input, tree, b, a)
	}
	if implTree(te, c.Input).String() != tree.String() {
		return fmt.Errorf("the conversion modified the tree")
	}
	depth := 0
	got.walk(func(n *ANode) {
		if n.Kids != nil {
			depth++
		}
	})
	if depth >= 3 {
		o.NonTrivial()
	}
	labelKinds(c.G, o)
	return nil
}

func leafBag(n *ANode) string {
	var out []string
	n.walk(func(n *ANode) {
		if n.Leaf {
			out = append(out, n.String())
		}
	})
	sort.Strings(out)
	return strings.Join(out, " ")
}

func tokenBag(t *Tree) string {
	var out []string
	for _, l := range t.leaves() {
		out = append(out, l.String())
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// genAcceptedCase makes a grammar and an input that it likely accepts.
func genAcceptedCase(t *rapid.T, g Grammar) ParseCase { return genAcceptedCaseUpTo(t, g, 400) }

// genAcceptedCaseUpTo makes lists of at most so many elements.
func genAcceptedCaseUpTo(t *rapid.T, g Grammar, most int) ParseCase {
	rule := g[0].Name
	if len(g) > 1 && g[1].Name != ".wrapRE" && pct(t, 15, "start") {
		rule = g[1].Name
	}
	for i := 3; i > 0 && (i < 3 || pct(t, 3, "big")); i-- {
		if c, ok := enlarge(t, g, rule, most); ok {
			if out, ok := runModel(c.G, c.Rule, c.Input, nil); ok && out.accepted() {
				return c
			}
		}
	}
	return ParseCase{g, rule, genAccepted(t, g, rule, 6)}
}

func init() {
	register("C14", "A case is a grammar and an input that it accepts. The AST of its parse tree is compared with that which an "+
		"independent conversion of the tree gives, and its leaves with the tokens. It is non-trivial if the AST has at least 3 branches.",
		opts{part: "model", quick: 60000, thorough: 4000000},
		func(t *rapid.T) ParseCase { return genAcceptedCase(t, genGrammar(t, fullOpts())) }, checkAST)
}
