package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/parser"
	"pgregory.net/rapid"
)

// --- printing trees (C25) -----------------------------------------------------------

// PTree is a tree of texts.
type PTree struct {
	Text string  `json:"text"`
	Kids []PTree `json:"kids,omitempty"`
}

func (p PTree) size() int {
	n := 1
	for _, k := range p.Kids {
		n += k.size()
	}
	return n
}

func (p PTree) lines() bool {
	for _, k := range p.Kids {
		if k.lines() {
			return true
		}
	}
	return strings.Contains(p.Text, "\n")
}

// build builds the tree with the code under test, by either of its ways to add.
func (p PTree) build() gotree.Tree {
	t := gotree.New(p.Text)
	for i, k := range p.Kids {
		if len(k.Kids) == 0 && i%2 == 0 {
			t.Add(k.Text)
		} else {
			t.AddTree(k.build())
		}
	}
	return t
}

// fromGotree reads a tree of the code under test.
func fromGotree(t gotree.Tree) PTree {
	p := PTree{Text: t.Text()}
	for _, k := range t.Items() {
		p.Kids = append(p.Kids, fromGotree(k))
	}
	return p
}

// print is the expected output.
func (p PTree) print() string {
	var out []string
	var walk func(p PTree, first, rest string)
	walk = func(p PTree, first, rest string) {
		for i, line := range strings.Split(p.Text, "\n") {
			if i > 0 {
				first = rest
			}
			out = append(out, first+line)
		}
		for i, k := range p.Kids {
			if i == len(p.Kids)-1 {
				walk(k, rest+"└── ", rest+"    ")
			} else {
				walk(k, rest+"├── ", rest+"│   ")
			}
		}
	}
	walk(p, "", "")
	return strings.Join(out, "\n") + "\n"
}

// confusable says whether a text, or one of its lines, looks like the lines that a printer draws.
func confusable(s string) bool {
	for _, line := range strings.Split(s, "\n") {
		for _, c := range []string{"├── ", "└── ", "│   ", "    "} {
			if strings.HasPrefix(line, c) {
				return true
			}
		}
	}
	return false
}

func (p PTree) confusable() bool {
	for _, k := range p.Kids {
		if k.confusable() {
			return true
		}
	}
	return confusable(p.Text)
}

// readPrinted reads the tree back from what was printed, without the original.
func readPrinted(s string) (root PTree, err error) {
	type item struct {
		text  string
		depth int
		last  bool
	}
	if !strings.HasSuffix(s, "\n") {
		return root, fmt.Errorf("the last line is not ended")
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	items := []item{{text: lines[0]}}
	for no, line := range lines[1:] {
		depth, bars := 0, []bool{}
		for {
			if strings.HasPrefix(line, "│   ") {
				bars, line = append(bars, true), strings.TrimPrefix(line, "│   ")
			} else if strings.HasPrefix(line, "    ") {
				bars, line = append(bars, false), line[4:]
			} else {
				break
			}
			depth++
		}
		starts, last := false, false
		switch {
		case strings.HasPrefix(line, "├── "):
			starts, line = true, strings.TrimPrefix(line, "├── ")
		case strings.HasPrefix(line, "└── "):
			starts, last, line = true, true, strings.TrimPrefix(line, "└── ")
		}
		// The bars have to agree with which of the enclosing items are the last ones.
		var enclosing []bool
		at := depth + 1
		for i := len(items) - 1; i >= 0 && at > 1; i-- {
			if items[i].depth < at && items[i].depth > 0 {
				at = items[i].depth
				enclosing = append([]bool{!items[i].last}, enclosing...)
			}
		}
		if fmt.Sprint(enclosing) != fmt.Sprint(bars) {
			return root, fmt.Errorf("line %d: bars %v, want %v", no+2, bars, enclosing)
		}
		if starts {
			if depth > items[len(items)-1].depth {
				return root, fmt.Errorf("line %d: too deep", no+2)
			}
			items = append(items, item{line, depth + 1, last})
			continue
		}
		top := &items[len(items)-1]
		if top.depth != depth {
			return root, fmt.Errorf("line %d continues an item of depth %d at depth %d", no+2, top.depth, depth)
		}
		top.text += "\n" + line
	}
	pos := 1
	var build func(it item) (PTree, error)
	build = func(it item) (PTree, error) {
		p := PTree{Text: it.text}
		last := false
		for pos < len(items) && items[pos].depth == it.depth+1 {
			if last {
				return p, fmt.Errorf("item %d comes after the last one", pos)
			}
			k := items[pos]
			pos++
			last = k.last
			kid, err := build(k)
			if err != nil {
				return p, err
			}
			p.Kids = append(p.Kids, kid)
		}
		if len(p.Kids) > 0 && !last {
			return p, fmt.Errorf("no last item in %q", it.text)
		}
		return p, nil
	}
	root, err = build(items[0])
	if err == nil && pos != len(items) {
		err = fmt.Errorf("item %d is at a wrong depth", pos)
	}
	return root, err
}

// rank is what items are sorted by.
func (p PTree) rank() int {
	digits := len(p.Text) - len(strings.TrimLeft(p.Text, "0123456789"))
	if digits > 0 && p.Text[0] != '0' {
		n, err := strconv.Atoi(p.Text[:digits])
		if err != nil {
			return math.MaxInt
		}
		return n
	}
	if len(p.Kids) == 0 {
		return -1
	}
	least := math.MaxInt
	for _, k := range p.Kids {
		if r := k.rank(); r < least {
			least = r
		}
	}
	return least
}

// sortKids sorts the items.
func (p *PTree) sortKids() {
	sort.SliceStable(p.Kids, func(i, j int) bool { return p.Kids[i].rank() < p.Kids[j].rank() })
}

// genPTree makes a random tree of texts.
func genPTree(t *rapid.T, depth int, pool []string) PTree {
	p := PTree{Text: pick(t, pool, "text")}
	if depth > 0 {
		for n := rng(t, 0, 4, "kids"); n > 0; n-- {
			p.Kids = append(p.Kids, genPTree(t, depth-1, pool))
		}
	}
	return p
}

func genTexts(t *rapid.T) []string {
	all := []string{"a", "b", "", "12‣x", "0‣", "7", "100", "two\nlines", "9\nx", "\n", "é", "a b ", "%d", "\ta", "007", "99999999999999999999", "9223372036854775807"}
	if pct(t, 30, "confusing") {
		all = append(all, "├── x", "a\n└── b", "│   ", "x\n    y", "a\n│")
	}
	var pool []string
	for n := rng(t, 1, 6, "texts"); n > 0; n-- {
		s := pick(t, all, "text")
		if pct(t, 25, "joined") {
			s += pick(t, []string{"", " ", "\n"}, "with") + pick(t, all, "text")
		}
		pool = append(pool, s)
	}
	return pool
}

func checkPrint(p PTree, o *Obs) error {
	fail := func(format string, args ...any) error {
		return fmt.Errorf("tree: %+v\n%s", p, fmt.Sprintf(format, args...))
	}
	t := p.build()
	if got := fromGotree(t); fmt.Sprint(got) != fmt.Sprint(p) {
		return fail("the tree that was built: %+v", got)
	}
	printed := t.Print()
	if want := p.print(); printed != want {
		return fail("want:\n%s\ngot:\n%s", want, printed)
	}
	if !p.confusable() {
		o.Label("read")
		back, err := readPrinted(printed)
		if err != nil || fmt.Sprint(back) != fmt.Sprint(p) {
			return fail("the tree that is read back: %+v, error %v\nfrom:\n%s", back, err, printed)
		}
	}
	if r := t.Rank(); r != p.rank() {
		return fail("rank %d, want %d", r, p.rank())
	}
	want := p
	want.Kids = append([]PTree(nil), p.Kids...)
	want.sortKids()
	t.SortItems()
	if got := fromGotree(t); fmt.Sprint(got) != fmt.Sprint(want) {
		return fail("sorted: %+v\nwant: %+v", got, want)
	}
	if t.Print() != want.print() {
		return fail("sorted: want:\n%s\ngot:\n%s", want.print(), t.Print())
	}
	if p.size() >= 6 {
		o.NonTrivial()
	}
	if p.lines() {
		o.Label("lines")
	}
	return nil
}

// --- printing ASTs and parse trees ------------------------------------------------------

// ViewCase is a tree that is printed: that of a parse, or a made one.
type ViewCase struct {
	ParseCase
	Made *ANode `json:"made,omitempty"`
	Root string `json:"root"`
}

// place sets the offsets of the leaves of a made tree, and returns the source that they are in.
func (n *ANode) place() *parser.Scanner {
	var sb strings.Builder
	n.walk(func(n *ANode) {
		if n.Leaf {
			n.Lo = sb.Len()
			sb.WriteString(n.Text + "#")
		}
	})
	return parser.NewScanner(sb.String())
}

func genANode(t *rapid.T, depth int) *ANode {
	if depth == 0 || pct(t, 30, "leaf") {
		if pct(t, 15, "extra") {
			return &ANode{Extra: true, Text: pick(t, []string{"1", "x", "-1"}, "extra")}
		}
		return &ANode{Leaf: true, Text: pick(t, []string{"a", "b", "", "1", `"`, "`", "\n", "a, b", "(", "]", "'", "é", `"\`, `\`, "{\"", " ", "a: b", ":", "‣", " ‣ ", "\xff", "%s", "\x00"}, "text")}
	}
	n := &ANode{Kids: map[string]*AKids{}}
	names := []string{"a", "b", "", "@rule", "@choice", "...", "a-b", "B2"}
	for k := pick(t, []int{1, 1, 1, 2, 3, 0}, "names"); k > 0; k-- {
		name := pick(t, names, "name")
		kids := &AKids{Many: pct(t, 40, "many")}
		many := 1
		if kids.Many {
			many = rng(t, 0, 3, "children")
		}
		for ; many > 0; many-- {
			kids.Nodes = append(kids.Nodes, genANode(t, depth-1))
		}
		n.Kids[name] = kids
	}
	return n
}

// view is what the view of a tree is to be.
func view(name string, n *ANode, skip bool) PTree {
	p := PTree{Text: name}
	switch {
	case n.Leaf:
		return PTree{Text: leafString(n)}
	case n.Extra:
		p.Kids = []PTree{{Text: n.Text}}
		return p
	}
	for _, kid := range n.names() {
		if skip && strings.HasPrefix(kid, "@") {
			continue
		}
		for _, c := range n.Kids[kid].Nodes {
			p.Kids = append(p.Kids, view(kid, c, skip))
		}
	}
	if len(p.Kids) == 1 && len(p.Kids[0].Kids) == 1 {
		// A chain is written as the names of its ends: what is between is left out.
		parts := strings.Split(p.Kids[0].Text, " ‣ ")
		for i, part := range parts {
			if part == "..." || part == name {
				continue
			}
			text := name
			if i > 0 {
				text += " ‣ ..."
			}
			p.Text = text + " ‣ " + strings.Join(parts[i:], " ‣ ")
			break
		}
		p.Kids = p.Kids[0].Kids
		return p
	}
	p.sortKids()
	return p
}

// leafString is how a token is written.
func leafString(n *ANode) string {
	quoted := false
	for _, r := range n.Text {
		quoted = quoted || r < 32 || r == 127 || strings.ContainsRune(":,'`(){}[]", r)
	}
	switch {
	case quoted:
		return fmt.Sprintf("%d‣%q", n.Lo, n.Text)
	case strings.Contains(n.Text, `"`):
		return fmt.Sprintf("%d‣`%s`", n.Lo, n.Text)
	}
	return fmt.Sprintf("%d‣%s", n.Lo, n.Text)
}

// anodeReader reads the text of an AST.
type anodeReader struct{ s string }

func (r *anodeReader) space() { r.s = strings.TrimLeft(r.s, " \n") }

func (r *anodeReader) eat(s string) bool {
	if strings.HasPrefix(r.s, s) {
		r.s = r.s[len(s):]
		return true
	}
	return false
}

// upTo reads up to one of the given characters.
func (r *anodeReader) upTo(chars string) string {
	i := strings.IndexAny(r.s, chars)
	if i < 0 {
		i = len(r.s)
	}
	s := r.s[:i]
	r.s = r.s[i:]
	return s
}

func (r *anodeReader) node() (*ANode, error) {
	if r.eat("(") {
		n := &ANode{Kids: map[string]*AKids{}}
		for {
			r.space()
			if r.eat(")") {
				return n, nil
			}
			name, rest, found := strings.Cut(r.s, ": ")
			if !found {
				return nil, fmt.Errorf("no child at %q", r.s)
			}
			if r.s = rest; name == "''" {
				name = ""
			}
			if _, is := n.Kids[name]; is {
				return nil, fmt.Errorf("the name %q occurs twice", name)
			}
			kids, err := r.kids()
			if err != nil {
				return nil, err
			}
			n.Kids[name] = kids
			r.space()
			if !r.eat(",") && !strings.HasPrefix(r.s, ")") {
				return nil, fmt.Errorf("no comma at %q", r.s)
			}
		}
	}
	digits := len(r.s) - len(strings.TrimLeft(r.s, "0123456789"))
	if digits == 0 || !strings.HasPrefix(r.s[digits:], "‣") {
		return &ANode{Extra: true, Text: r.upTo(",)]\n")}, nil
	}
	n := &ANode{Leaf: true}
	n.Lo, _ = strconv.Atoi(r.s[:digits])
	r.s = strings.TrimPrefix(r.s[digits:], "‣")
	switch {
	case r.eat("`"):
		n.Text = r.upTo("`")
		if !r.eat("`") {
			return nil, fmt.Errorf("no end of a quoted text")
		}
	case strings.HasPrefix(r.s, `"`):
		q, err := strconv.QuotedPrefix(r.s)
		if err != nil {
			return nil, fmt.Errorf("at %q: %v", r.s, err)
		}
		r.s = r.s[len(q):]
		n.Text, _ = strconv.Unquote(q)
	default:
		n.Text = r.upTo(",)]\n")
	}
	return n, nil
}

func (r *anodeReader) kids() (*AKids, error) {
	if !r.eat("[") {
		n, err := r.node()
		return &AKids{Nodes: []*ANode{n}}, err
	}
	k := &AKids{Many: true}
	for {
		if strings.HasPrefix(r.s, "\n") {
			r.space()
		}
		if r.eat("]") {
			return k, nil
		}
		n, err := r.node()
		if err != nil {
			return nil, err
		}
		k.Nodes = append(k.Nodes, n)
		if r.eat(", ") || r.eat(",") {
			r.space()
			continue
		}
		if !strings.HasPrefix(r.s, "]") {
			return nil, fmt.Errorf("no comma at %q", r.s)
		}
	}
}

// nodeText is how a parse tree is written.
func nodeText(te parser.TreeElement, verb string) string {
	switch te := te.(type) {
	case parser.Node:
		var kids []string
		for _, k := range te.Children {
			kids = append(kids, nodeText(k, verb))
		}
		extra := ""
		if te.Extra != nil {
			extra = fmt.Sprintf("║"+verb, te.Extra)
		}
		return te.Tag + extra + "[" + strings.Join(kids, ", ") + "]"
	case parser.Scanner:
		if verb == "%q" {
			return strconv.Quote(te.String())
		}
		return te.String()
	}
	return fmt.Sprintf(verb, te)
}

func checkView(c ViewCase, o *Obs) error {
	var node ast.Node
	what := ""
	if c.Made != nil {
		o.Label("made")
		src := c.Made.place()
		node = c.Made.build(src)
		what = "made tree: "
	} else {
		p := c.G.toParser().Compile(nil)
		te, _ := parseAccepted(p, c.G, c.Rule, c.Input)
		if te == nil {
			return errDiscard
		}
		what = fmt.Sprintf("grammar: %v\nrule %s, input %q\ntree: ", c.G, c.Rule, c.Input)
		for _, verb := range []string{"%s", "%v", "%q"} {
			if got, want := fmt.Sprintf(verb, te), nodeText(te, verb); got != want {
				return fmt.Errorf("%s\nthe parse tree, by %s: %s\nwant %s", what, verb, got, want)
			}
		}
		if n, is := te.(parser.Node); is && n.String() != nodeText(te, "%s") {
			return fmt.Errorf("%s\nthe parse tree: %s\nwant %s", what, n.String(), nodeText(te, "%s"))
		}
		if _, is := te.(parser.Node); is {
			b, err := safeAST(p.Grammar(), te)
			if err != nil {
				return errDiscard
			}
			node = b
		} else {
			return errDiscard
		}
	}
	n := implAST(node)
	fail := func(format string, args ...any) error {
		return fmt.Errorf("%s%v\n%s", what, n, fmt.Sprintf(format, args...))
	}
	plain := plainAST(node)
	text := node.String()
	for i := 0; i < 3; i++ {
		if again := node.String(); again != text {
			return fail("printed as\n%s\nand then as\n%s", text, again)
		}
	}
	r := &anodeReader{text}
	back, err := r.node()
	if err != nil || r.s != "" || back.String() != plain.String() {
		return fail("the tree that is read back: %v, error %v, rest %q\nfrom:\n%s", back, err, r.s, text)
	}
	for _, skip := range []bool{true, false} {
		want := view(c.Root, plain, skip).print()
		for i := 0; i < 2; i++ {
			if got := ast.BuildTreeView(c.Root, node, skip); got != want {
				return fail("view (skip %v):\n%s\nwant:\n%s", skip, got, want)
			}
		}
	}
	if implAST(node).String() != n.String() {
		return fail("printing changed the tree to %v", implAST(node))
	}
	size, chain := 0, 0
	n.walk(func(n *ANode) {
		if !n.Extra {
			size++
		}
		if len(n.Kids) == 1 {
			chain++
		}
	})
	if size >= 4 {
		o.NonTrivial()
	}
	if chain > 1 {
		o.Label("chain")
	}
	return nil
}

// plainAST is implAST with extras as they are printed.
func plainAST(n ast.Node) *ANode {
	switch n := n.(type) {
	case ast.Extra:
		return &ANode{Extra: true, Text: fmt.Sprint(n.Data)}
	case ast.Branch:
		out := &ANode{Kids: map[string]*AKids{}}
		for name, kids := range n {
			k := &AKids{}
			switch kids := kids.(type) {
			case ast.One:
				k.Nodes = []*ANode{plainAST(kids.Node)}
			case ast.Many:
				k.Many = true
				for _, c := range kids {
					k.Nodes = append(k.Nodes, plainAST(c))
				}
			}
			out.Kids[name] = k
		}
		return out
	}
	return implAST(n)
}

func init() {
	register("C25", "A case is a tree of texts of one or several lines. What is printed is compared with an own printer, and read back by an own reader "+
		"unless a text looks like the lines that are drawn; the order after sorting is compared too. It is non-trivial if the tree has at least 6 nodes.",
		opts{part: "trees", quick: 150000, thorough: 10000000},
		func(t *rapid.T) PTree { return genPTree(t, rng(t, 0, 4, "depth"), genTexts(t)) }, checkPrint)
	register("C25", "A case is a grammar and an input that it accepts, or a made AST. The AST as text is read back by an own reader, and must be the same "+
		"with all tokens and offsets; the view of the tree and the text of the parse tree are compared with own printers. It is non-trivial if the AST has at least 4 nodes.",
		opts{part: "views", quick: 60000, thorough: 5000000},
		func(t *rapid.T) ViewCase {
			root := pick(t, []string{"root", "a", "", "x ‣ y", "..."}, "root")
			if pct(t, 50, "made") {
				return ViewCase{Made: genANode(t, rng(t, 1, 5, "depth")), Root: root}
			}
			g := genGrammar(t, fullOpts())
			if pct(t, 10, "wbnf") {
				g = genTextGrammar(t, textOpts())
			}
			return ViewCase{ParseCase: genAcceptedCaseUpTo(t, g, 40), Root: root}
		}, checkView)
}
