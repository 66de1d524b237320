package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"pgregory.net/rapid"
)

// --- differences (C24) ----------------------------------------------------------------

// GrammarPair is two grammars that are the same or differ somewhere.
type GrammarPair struct {
	A Grammar `json:"a"`
	B Grammar `json:"b"`
}

func genGrammarPair(t *rapid.T) GrammarPair {
	o := fullOpts()
	a := genGrammar(t, o)
	if pct(t, 40, "cuts") {
		a = a.withCuts()
	}
	if pct(t, 30, "externals") {
		a = a.mapTerms(func(t *Term) *Term {
			if t.K == "s" && len(t.S)%2 == 0 {
				return &Term{K: "ext", S: "e" + t.S}
			}
			return t
		})
	}
	b := a.clone()
	for n := pick(t, []int{0, 1, 1, 1, 1, 2, 3}, "mutations"); n > 0; n-- {
		b = mutatedGrammar(t, b)
	}
	return GrammarPair{a, b}
}

func mutatedGrammar(t *rapid.T, g Grammar) Grammar {
	if len(g) == 0 || pct(t, 15, "rules") {
		change := uni(t, 3, "change")
		switch {
		case change == 0 || len(g) == 0:
			return append(g, Rule{"added", lit("x")})
		case change == 1:
			i := uni(t, len(g), "rule")
			return append(append(Grammar{}, g[:i]...), g[i+1:]...)
		default:
			i := uni(t, len(g), "rule")
			g = append(Grammar{}, g...)
			g[i].Name += "_"
			return g
		}
	}
	n := 0
	g.walk(func(*Term) { n++ })
	if n == 0 {
		return g
	}
	at := uni(t, n, "place")
	i := 0
	return g.mapTerms(func(x *Term) *Term {
		if i++; i-1 == at {
			return mutatedTerm(t, x)
		}
		return x
	})
}

func mutatedTerm(t *rapid.T, x *Term) *Term {
	other := func(s string) string {
		return pick(t, []string{s + "x", "x" + s, strings.ToUpper(s), "", s + " "}, "text")
	}
	generic := func() *Term {
		return pick(t, []func() *Term{
			func() *Term { return cut(x) },
			func() *Term { return look(x) },
			func() *Term { return quant(x, 0, 1) },
			func() *Term { return named("nn", x) },
			func() *Term { return seqOf(x) },
			func() *Term { return scoped(x, Grammar{{"zz", lit("z")}}) },
			func() *Term { return lit("zz") },
			func() *Term { return ruleRef("zz") },
		}, "wrap")()
	}
	if pct(t, 25, "generic") {
		return generic()
	}
	switch x.K {
	case "s", "re", "rule", "named", "ext":
		if x.K != "named" && pct(t, 25, "kind") {
			x.K = pick(t, []string{"s", "re", "rule", "ext"}, "kind")
		}
		x.S = other(x.S)
	case "ref":
		switch {
		case x.Def == nil:
			d := pick(t, []string{"", "d"}, "default")
			x.Def = &d
		case pct(t, 40, "default"):
			d := other(*x.Def)
			x.Def = &d
		case pct(t, 50, "default"):
			x.Def = nil
		default:
			x.S = other(x.S)
		}
	case "seq", "alt", "stack":
		n := len(x.T)
		switch uni(t, 4, "list") {
		case 0:
			x.K = map[string]string{"seq": "alt", "alt": "stack", "stack": "seq"}[x.K]
		case 1:
			x.T = append(x.T, lit("added"))
		case 2:
			if n > 0 {
				i := uni(t, n, "kid")
				x.T = append(append([]*Term{}, x.T[:i]...), x.T[i+1:]...)
			}
		default:
			if n > 1 {
				i := uni(t, n-1, "kid")
				x.T[i], x.T[i+1] = x.T[i+1], x.T[i]
			}
		}
	case "quant":
		if pct(t, 50, "min") {
			x.Min += pick(t, []int{1, 2, 100}, "more")
		} else {
			x.Max = pick(t, []int{0, 1, 2, 3, 100}, "max")
		}
	case "delim":
		switch uni(t, 4, "delim") {
		case 0:
			x.Lead = !x.Lead
		case 1:
			x.Trail = !x.Trail
		case 2:
			x.Assoc = pick(t, []int{-1, 0, 1}, "assoc")
		default:
			x.T[0], x.T[1] = x.T[1], x.T[0]
		}
	case "scope":
		x.G = mutatedGrammar(t, x.G)
	default:
		return generic()
	}
	return x
}

// same reports whether two terms are equal. Their rules are unordered.
func (t *Term) same(u *Term) bool {
	if (t == nil) != (u == nil) {
		return false
	} else if t == nil {
		return true
	}
	if t.K != u.K || t.S != u.S || t.Min != u.Min || t.Max != u.Max || t.Assoc != u.Assoc || t.Lead != u.Lead || t.Trail != u.Trail ||
		(t.Def == nil) != (u.Def == nil) || t.Def != nil && *t.Def != *u.Def || len(t.T) != len(u.T) || len(t.G) != len(u.G) {
		return false
	}
	for i, k := range t.T {
		if !k.same(u.T[i]) {
			return false
		}
	}
	for _, r := range t.G {
		if !r.T.same(Grammar(u.G).get(r.Name)) {
			return false
		}
	}
	return true
}

func ruleNames(rs []parser.Rule) string {
	var out []string
	for _, r := range rs {
		out = append(out, string(r))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func checkGrammarDiff(c GrammarPair, o *Obs) error {
	for i, g := range []Grammar{c.A, c.B} {
		seen := map[string]bool{}
		for _, r := range g {
			if seen[r.Name] {
				return errDiscard
			}
			seen[r.Name] = true
		}
		_ = i
	}
	for _, pair := range []GrammarPair{c, {c.B, c.A}, {c.A, c.A}} {
		a, b := pair.A.toParser(), pair.B.toParser()
		var onlyA, onlyB, differ []parser.Rule
		for _, r := range pair.A {
			u := pair.B.get(r.Name)
			switch {
			case u == nil:
				onlyA = append(onlyA, parser.Rule(r.Name))
			case !r.T.same(u):
				differ = append(differ, parser.Rule(r.Name))
			}
			if u != nil {
				x, y := a[parser.Rule(r.Name)], b[parser.Rule(r.Name)]
				if got := diff.Terms(x, y).Equal(); got != r.T.same(u) {
					return fmt.Errorf("want %v of whether these terms are equal, got %v\n%v\n%v", r.T.same(u), got, x, y)
				}
			}
		}
		for _, r := range pair.B {
			if !pair.A.has(r.Name) {
				onlyB = append(onlyB, parser.Rule(r.Name))
			}
		}
		d := diff.Grammars(a, b)
		var prods []parser.Rule
		for r, d := range d.Prods {
			prods = append(prods, r)
			if d.Equal() {
				return fmt.Errorf("rule %v is listed, though it is equal\n%v\n%v", r, a, b)
			}
		}
		for i, x := range [][2][]parser.Rule{{onlyA, d.OnlyInA}, {onlyB, d.OnlyInB}, {differ, prods}} {
			if ruleNames(x[0]) != ruleNames(x[1]) {
				return fmt.Errorf("want the rules %q %s, got %q\na: %v\nb: %v", ruleNames(x[0]),
					[]string{"only in a", "only in b", "to differ"}[i], ruleNames(x[1]), a, b)
			}
		}
		if equal := len(onlyA)+len(onlyB)+len(differ) == 0; d.Equal() != equal {
			return fmt.Errorf("want %v of whether these grammars are equal, got %v\na: %v\nb: %v", equal, d.Equal(), a, b)
		} else if !equal {
			o.NonTrivial()
			o.Label("differ")
		}
	}
	return nil
}

// NodeSpec is a parse tree.
type NodeSpec struct {
	Tag   string     `json:"tag"`
	Kind  string     `json:"kind"`            // node (default), leaf, empty
	Extra string     `json:"extra,omitempty"` // "", choice, assoc, ast
	N     int        `json:"n,omitempty"`
	Kids  []NodeSpec `json:"kids,omitempty"`
}

type nodePair struct {
	A    NodeSpec `json:"a"`
	B    NodeSpec `json:"b"`
	Only string   `json:"only,omitempty"` // the only thing that differs, as text of the report
}

func (n NodeSpec) element() parser.TreeElement {
	switch n.Kind {
	case "leaf":
		return *parser.NewScanner(n.Tag)
	case "empty":
		return parser.Empty{}
	}
	return n.node()
}

func (n NodeSpec) node() parser.Node {
	out := parser.Node{Tag: n.Tag}
	switch n.Extra {
	case "choice":
		out.Extra = parser.Choice(n.N)
	case "assoc":
		out.Extra = parser.Associativity(n.N%3 - 1)
	case "ast":
		out.Extra = ast.Branch{fmt.Sprint("x", n.N): ast.One{Node: ast.Leaf(*parser.NewScanner("t"))}}
	}
	for _, k := range n.Kids {
		out.Children = append(out.Children, k.element())
	}
	return out
}

// same ignores what the texts of leaves are.
func (n NodeSpec) same(m NodeSpec) bool {
	if n.Kind != m.Kind {
		return false
	}
	if n.Kind != "" {
		return true
	}
	x, y := n.node(), m.node()
	if n.Tag != m.Tag || !reflect.DeepEqual(fmt.Sprintf("%T %v", x.Extra, x.Extra), fmt.Sprintf("%T %v", y.Extra, y.Extra)) || len(n.Kids) != len(m.Kids) {
		return false
	}
	for i := range n.Kids {
		if !n.Kids[i].same(m.Kids[i]) {
			return false
		}
	}
	return true
}

func genNodeSpec(t *rapid.T, depth int, root bool) NodeSpec {
	n := NodeSpec{Tag: pick(t, []string{"a", "b", "_", "?", "", "é"}, "tag")}
	if !root && (depth == 0 || pct(t, 30, "leaf")) {
		n.Kind = pick(t, []string{"leaf", "leaf", "empty"}, "kind")
		return n
	}
	n.Extra = pick(t, []string{"", "", "choice", "choice", "assoc", "ast"}, "extra")
	if n.Extra != "" {
		n.N = uni(t, 3, "n")
	}
	for k := rng(t, 0, 4, "kids"); k > 0; k-- {
		n.Kids = append(n.Kids, genNodeSpec(t, depth-1, false))
	}
	return n
}

// count returns the number of nodes with tags.
func (n NodeSpec) nodes() int {
	out := 0
	if n.Kind == "" {
		out = 1
	}
	for _, k := range n.Kids {
		out += k.nodes()
	}
	return out
}

// mutateNode changes the node with number *at.
func mutateNode(t *rapid.T, n *NodeSpec, at *int, path string, only *string) {
	if n.Kind != "" {
		return
	}
	prefix := ""
	if path != "" {
		prefix = "[" + path + "] "
	}
	if *at--; *at == -1 {
		switch uni(t, 5, "mutation") {
		case 0:
			tag := n.Tag + "'"
			*only = fmt.Sprintf("%sTag: %v != %v", prefix, n.Tag, tag)
			n.Tag = tag
		case 1:
			was := n.node().Extra
			if n.Extra == "choice" || n.Extra == "assoc" || n.Extra == "ast" {
				n.N++
			} else {
				n.Extra = "choice"
			}
			*only = fmt.Sprintf("%sExtra: %v != %v", prefix, was, n.node().Extra)
		case 2:
			l := len(n.Kids)
			n.Kids = append(append([]NodeSpec{}, n.Kids...), NodeSpec{Kind: "leaf"})
			*only = fmt.Sprintf("%slen(Children): %v != %v", prefix, l, l+1)
		case 3:
			if l := len(n.Kids); l > 0 {
				n.Kids = append([]NodeSpec{}, n.Kids[:l-1]...)
				*only = fmt.Sprintf("%slen(Children): %v != %v", prefix, l, l-1)
			}
		default:
			if l := len(n.Kids); l > 0 {
				i := uni(t, l, "kid")
				n.Kids = append([]NodeSpec{}, n.Kids...)
				was := n.Kids[i].element()
				kind := map[string]string{"": "leaf", "leaf": "empty", "empty": ""}[n.Kids[i].Kind]
				n.Kids[i] = NodeSpec{Kind: kind}
				*only = fmt.Sprintf("%sChildren[%d].Type: %T != %T", prefix, i, was, n.Kids[i].element())
			}
		}
		return
	}
	n.Kids = append([]NodeSpec{}, n.Kids...)
	for i := range n.Kids {
		sub := fmt.Sprintf("%s[%d]", n.Tag, i)
		if path != "" {
			sub = path + "." + sub
		}
		mutateNode(t, &n.Kids[i], at, sub, only)
	}
}

func genNodePair(t *rapid.T) nodePair {
	c := nodePair{A: genNodeSpec(t, 4, true)}
	c.B = c.A
	n := pick(t, []int{0, 1, 1, 1, 2, 3}, "mutations")
	for i := 0; i < n; i++ {
		at := uni(t, c.B.nodes(), "node")
		mutateNode(t, &c.B, &at, "", &c.Only)
	}
	if n != 1 {
		c.Only = ""
	}
	return c
}

func checkNodeDiff(c nodePair, o *Obs) error {
	describe := func() string {
		data, _ := json.Marshal(c)
		return string(data)
	}
	for i, pair := range [][2]NodeSpec{{c.A, c.B}, {c.B, c.A}, {c.A, c.A}} {
		a, b := pair[0].node(), pair[1].node()
		want := pair[0].same(pair[1])
		d := diff.NewNodeDiff(&a, &b)
		report := d.String()
		switch {
		case d.Equal() != want:
			return fmt.Errorf("want %v of whether these trees are equal, got %v: %s", want, d.Equal(), describe())
		case (report == "") != want:
			return fmt.Errorf("want %v of whether the trees are equal, but the report is %q: %s", want, report, describe())
		case i == 0 && c.Only != "" && report != c.Only:
			return fmt.Errorf("want the report %q, got %q: %s", c.Only, report, describe())
		case d.String() != report:
			return fmt.Errorf("the second report differs: %q, %q: %s", report, d.String(), describe())
		}
		if !want {
			o.NonTrivial()
		}
	}
	if c.Only != "" {
		o.Label(strings.Split(strings.TrimLeft(c.Only[strings.LastIndex(c.Only, "] ")+1:], " "), ":")[0])
	}
	return nil
}

func init() {
	register("C24", "A case is two grammars, of which the second is the first with up to three changes of any kind. The reported differences, in either direction and from the first to itself, are "+
		"compared with those that an own comparison finds. It is non-trivial if the grammars differ.",
		opts{part: "grammars", quick: 80000, thorough: 4000000}, genGrammarPair, checkGrammarDiff)
	register("C24", "A case is two parse trees, of which the second is the first with up to three changes of any kind. Whether they are equal, and the report if there is a single change, are compared "+
		"with what is expected. It is non-trivial if the trees differ.",
		opts{part: "nodes", quick: 80000, thorough: 4000000}, genNodePair, checkNodeDiff)
}
