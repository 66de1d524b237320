package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// reInfo is a regexp of the pool with samples of what it matches.
type reInfo struct {
	src      string
	samples  []string
	nullable bool
}

var rePool = []reInfo{
	{`[a-c]+`, []string{"a", "abc", "bb"}, false},
	{`\d+`, []string{"0", "12", "345"}, false},
	{`[a-z]`, []string{"a", "z", "b"}, false},
	{`a*`, []string{"", "a", "aa"}, true},
	{`a|ab`, []string{"a"}, false},
	{`x(y)?`, []string{"x", "xy"}, false},
	{`<([^>]*)>`, []string{"<>", "<a>", "<b,c>"}, false},
	{`[^,;]`, []string{"a", "é", "\n", "("}, false},
	{`\w+`, []string{"if", "a1", "foo"}, false},
	{`(?i:ab)`, []string{"ab", "AB", "aB"}, false},
	{`(?:b|c)(d)`, []string{"bd", "cd"}, false},
	{`.`, []string{"a", "+", "é"}, false},
	{`[+\-]`, []string{"+", "-"}, false},
	{`é+`, []string{"é", "éé"}, false},
	{`b?`, []string{"", "b"}, true},
	{`(a)?(b)`, []string{"b", "ab"}, false},
}

func findRE(src string) *reInfo {
	for i := range rePool {
		if rePool[i].src == src {
			return &rePool[i]
		}
	}
	return nil
}

var litPool = []string{
	"a", "b", "ab", "(", ")", "+", "-", ",", ";", "if", "1", "é", "\n", "x", "aa", "*", ".", "[", "==", " ", "\\", "\"",
}

var rulePool = []string{"r", "expr", "stmt_2", "T", "q", "u", "k"}
var wideRulePool = func() []string {
	out := append([]string{"r1", "exp", "stmt", "t", "R"}, rulePool...)
	for i := 0; i < 12; i++ {
		out = append(out, fmt.Sprintf("w%d", i))
	}
	return out
}()
var nestedRulePool = []string{"n1", "n2", "n3", "n4"}
var namePool = []string{"x", "lhs", "op", "y", "rhs_", "N", "v"}

// gopts says what a generated grammar may contain.
type gopts struct {
	rules       int  // at most
	depth       int  // of terms
	stacks      bool // rules may be stacks
	refs        bool
	looks       bool
	scopes      bool
	delims      bool
	wrap        int // probability in % of a .wrapRE
	recursion   bool
	named       bool
	simpleLits  bool // letters only
	emptySeq    bool
	noNullRE    bool
	uniqueNames bool // names are not used twice in a rule
	noAnonDelim bool
	plainDelims bool // neither leading nor trailing separators, nor associativity
	bigQuants   bool
	stackFirst  bool // the first rule is a stack
	strictGuard bool // only a literal or regexp right before, not a group, guards recursion
	noWide      bool // never many parts
}

func fullOpts() gopts {
	return gopts{
		rules: 4, depth: 3, stacks: true, refs: true, looks: true, scopes: true, delims: true,
		wrap: 25, recursion: true, named: true, emptySeq: true,
	}
}

type grammarGen struct {
	t     *rapid.T
	o     gopts
	rules []string // of the scope chain that may be referred to from anywhere
	fresh []string // only after something was consumed
	names map[string]bool
	scope int
	wide  bool // many parts
}

var bitGen = rapid.Bool()

// uni draws from [0, n) almost uniformly, which rapid's ranges don't.
func uni(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	v, size := 0, 1
	for size < 4*n {
		v *= 2
		if bitGen.Draw(t, label) {
			v++
		}
		size *= 2
	}
	return v * n / size
}

func rng(t *rapid.T, lo, hi int, label string) int { return lo + uni(t, hi-lo+1, label) }

// pct is true with a probability of p %. It shrinks to false.
func pct(t *rapid.T, p int, label string) bool { return uni(t, 100, label) >= 100-p }

func (g *grammarGen) pct(p int, label string) bool { return pct(g.t, p, label) }

func (g *grammarGen) n(lo, hi int, label string) int { return rng(g.t, lo, hi, label) }

func pick[T any](t *rapid.T, xs []T, label string) T { return xs[uni(t, len(xs), label)] }

func (g *grammarGen) literal() *Term {
	if g.o.simpleLits {
		return lit(pick(g.t, []string{"a", "b", "c", "ab", "d", "e", "x"}, "lit"))
	}
	return lit(pick(g.t, litPool, "lit"))
}

func (g *grammarGen) regex() *Term {
	for {
		r := rePool[g.n(0, len(rePool)-1, "re")]
		if !r.nullable || !g.o.noNullRE {
			return re(r.src)
		}
	}
}

// tctx is where a term occurs.
type tctx struct {
	depth   int
	guarded bool     // some input has been consumed within the rule
	bound   []string // names that back references may use
	at      int      // whether @ may be used
}

const (
	noAt      = iota
	guardedAt // after some input has been consumed
	anyAt
)

func (g *grammarGen) leaf(c tctx) *Term {
	var targets []string
	targets = append(targets, g.rules...)
	if c.guarded && g.o.recursion {
		targets = append(targets, g.fresh...)
	}
	at := c.at == anyAt || c.at == guardedAt && c.guarded
	if at && g.pct(50, "at") {
		return ruleRef("@")
	}
	for {
		switch k := g.n(0, 9, "leaf"); {
		case k < 4:
			return g.literal()
		case k < 6:
			return g.regex()
		case k < 9 && len(targets) > 0:
			return ruleRef(pick(g.t, targets, "target"))
		case k < 9 && at:
			return ruleRef("@")
		case k == 9 && g.o.refs && (len(c.bound) > 0 || g.pct(20, "unbound")):
			r := &Term{K: "ref"}
			if len(c.bound) > 0 && !g.pct(10, "otherref") {
				r.S = pick(g.t, c.bound, "bound")
			} else {
				r.S = pick(g.t, namePool, "refname")
			}
			if g.pct(40, "refdef") {
				def := g.literal().S
				r.Def = &def
			}
			return r
		case k == 9:
			return g.literal()
		}
	}
}

// consumes says whether a match of the term certainly consumes input.
func consumes(t *Term) bool {
	switch t.K {
	case "s":
		return t.S != ""
	case "re":
		r := findRE(t.S)
		return r != nil && !r.nullable
	case "named", "cut":
		return consumes(t.T[0])
	case "seq":
		for _, k := range t.T {
			if consumes(k) {
				return true
			}
		}
	}
	return false
}

func (g *grammarGen) name(used map[string]bool) string {
	for i := 0; i < 4; i++ {
		n := pick(g.t, namePool, "name")
		if !used[n] && !(g.o.uniqueNames && g.names[n]) {
			used[n] = true
			g.names[n] = true
			return n
		}
	}
	return ""
}

func (g *grammarGen) term(c tctx) *Term {
	if c.depth <= 0 || g.pct(25, "stop") {
		return g.leaf(c)
	}
	c.depth--
	for {
		switch k := g.n(0, 13, "kind"); {
		case k < 4:
			return g.seq(c, 2, g.many(4))
		case k < 6:
			n := g.n(2, g.many(3), "alts")
			t := &Term{K: "alt"}
			for i := 0; i < n; i++ {
				t.T = append(t.T, g.term(c))
			}
			return t
		case k < 9:
			return g.quant(c)
		case k < 11 && g.o.delims:
			t := g.term(c)
			// A separator is reached at the start of the delim if it may lead.
			sep := g.term(tctx{depth: minInt(c.depth, 1), guarded: c.guarded, bound: c.bound, at: c.at})
			if g.pct(75, "simplesep") {
				sep = g.literal()
				if g.pct(20, "namedsep") && g.o.named {
					if n := g.name(map[string]bool{}); n != "" {
						sep = named(n, sep)
					}
				}
			}
			d := delim(t, sep, 0, false, false)
			if !g.o.plainDelims {
				d.Assoc = g.n(-1, 1, "assoc")
				d.Lead, d.Trail = g.pct(25, "lead"), g.pct(25, "trail")
			}
			return d
		case k == 11 && g.o.looks:
			return look(g.term(c))
		case k == 12 && g.o.scopes && g.scope < 1 && c.depth > 0:
			return g.scoped(c)
		case k == 13 && g.o.emptySeq && g.pct(30, "empty"):
			return seqOf()
		}
	}
}

// many is how many parts something may have that usually has up to n.
func (g *grammarGen) many(n int) int {
	if g.wide && g.pct(30, "many") {
		return 14
	}
	return n
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (g *grammarGen) quant(c tctx) *Term {
	t := g.term(c)
	if g.o.bigQuants && g.pct(40, "big") {
		lo := pick(g.t, []int{0, 1, 2, 5, 7, 9, 10, 11, 12, 16, 32, 63, 99, 100, 127, 255, 256, 1000, 65535}, "bigmin")
		switch g.n(0, 2, "bigkind") {
		case 0:
			return quant(t, lo, 0)
		case 1:
			return quant(t, maxInt(1, lo), maxInt(1, lo))
		}
		return quant(t, lo, lo+pick(g.t, []int{1, 2, 3, 10, 89, 900, 100000}, "bigmore"))
	}
	switch g.n(0, 7, "quant") {
	case 0, 1:
		return quant(t, 0, 1)
	case 2, 3:
		return quant(t, 0, 0)
	case 4, 5:
		return quant(t, 1, 0)
	case 6:
		lo := g.n(0, 3, "min")
		return quant(t, lo, 0)
	default:
		lo := g.n(0, 2, "min")
		return quant(t, lo, maxInt(1, lo+g.n(0, 2, "more")))
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (g *grammarGen) seq(c tctx, lo, hi int) *Term {
	n := g.n(lo, hi, "seqlen")
	used := map[string]bool{}
	t := &Term{K: "seq"}
	for i := 0; i < n; i++ {
		item := g.term(c)
		if g.o.named && item.K != "rule" && g.pct(35, "named") {
			if n := g.name(used); n != "" {
				item = named(n, item)
			}
		}
		if b := boundName(item); b != "" {
			c.bound = append(append([]string{}, c.bound...), b)
		}
		plain := item
		if plain.K == "named" {
			plain = plain.T[0]
		}
		if consumes(item) && (!g.o.strictGuard || plain.K == "s" || plain.K == "re") {
			c.guarded = true
		}
		t.T = append(t.T, item)
	}
	return t
}

// scoped makes a term with a nested grammar, which may refer to the rules that
// surround it.
func (g *grammarGen) scoped(c tctx) *Term {
	g.scope++
	defer func() { g.scope-- }()
	outerRules, outerFresh := g.rules, g.fresh
	defer func() { g.rules, g.fresh = outerRules, outerFresh }()
	n := g.n(1, 2, "nested")
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, nestedRulePool[i])
	}
	nested := Grammar{}
	for i, name := range names {
		g.rules = append(append([]string{}, names[i+1:]...), outerRules...)
		g.fresh = append(append([]string{}, names[:i+1]...), outerFresh...)
		body := g.term(tctx{depth: minInt(c.depth, 2), guarded: false})
		if target := body; target.K == "rule" && !contains(names, target.S) {
			body = seqOf(body) // not merely a rule of the outer grammar
		} else if target.K == "named" && target.T[0].K == "rule" {
			body = seqOf(body)
		}
		nested = append(nested, Rule{name, body})
	}
	g.rules = append(append([]string{}, names...), outerRules...)
	g.fresh = append(append([]string{}, names...), outerFresh...)
	t := g.seq(tctx{depth: minInt(c.depth, 1), guarded: c.guarded, bound: c.bound, at: c.at}, 1, 3)
	if len(t.T) == 1 && g.pct(50, "bare") && t.T[0].K != "named" {
		t = t.T[0]
	}
	return scoped(t, nested)
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

var wrapPool = []string{`\s*()\s*`, `\s*()`, `()[ \t]*`, `[ \n]*()`, `()`, ` ?()`}

func (g *grammarGen) wrapRule(g0 Grammar) *Term {
	w := re(pick(g.t, wrapPool, "wrap"))
	if !g.pct(40, "wrapexcept") {
		return w
	}
	var toks []*Term
	g0.walk(func(t *Term) {
		if t.K == "s" || t.K == "re" {
			toks = append(toks, t)
		}
	})
	alt := &Term{K: "alt"}
	for i := g.n(1, 2, "excepts"); i > 0 && len(toks) > 0; i-- {
		tok := pick(g.t, toks, "except")
		alt.T = append(alt.T, &Term{K: tok.K, S: tok.S})
	}
	alt.T = append(alt.T, w)
	if len(alt.T) == 1 {
		return w
	}
	return alt
}

// genGrammar makes a grammar in which no rule can reach itself without consuming
// input. The first rule is the start rule, unless said otherwise.
func genGrammar(t *rapid.T, o gopts) Grammar {
	g := &grammarGen{t: t, o: o, names: map[string]bool{}}
	n := rng(t, 1, o.rules, "rules")
	rulenames := rulePool
	if g.wide = !o.noWide && pct(t, 4, "wide"); g.wide {
		rulenames = wideRulePool
		if o.rules > 1 && pct(t, 50, "manyrules") {
			n = rng(t, 1, len(rulenames), "rules")
		}
	}
	names := rapid.Permutation(rulenames).Draw(t, "rulenames")[:n]
	var out Grammar
	for i, name := range names {
		g.rules, g.fresh = names[i+1:], names[:i+1]
		var body *Term
		d := o.depth
		if i > 0 {
			d = maxInt(1, o.depth-1)
		}
		switch {
		case o.stackFirst && i == 0, o.stacks && g.pct(20, "stack"):
			body = g.stack(d)
		case g.pct(60, "topseq"):
			body = g.seq(tctx{depth: d}, 1, g.many(4))
			if len(body.T) == 1 {
				body = body.T[0]
			}
		default:
			body = g.term(tctx{depth: d})
		}
		out = append(out, Rule{name, body})
	}
	if o.wrap > 0 && g.pct(o.wrap, "wrapped") {
		out = append(out, Rule{".wrapRE", g.wrapRule(out)})
	}
	return out
}

// stack makes a precedence stack whose layers use the next tighter layer, and
// whose last one uses the whole after consuming something.
func (g *grammarGen) stack(depth int) *Term {
	n := g.n(2, g.many(4), "layers")
	t := &Term{K: "stack"}
	at := ruleRef("@")
	for i := 0; i < n-1; i++ {
		var layer *Term
		op := g.literal()
		switch g.n(0, 7, "layer") {
		case 6, 7:
			layer = g.layer(depth, anyAt)
		case 0, 1, 2:
			if g.o.delims {
				layer = delim(at, op, 0, false, false)
				if !g.o.plainDelims {
					layer.Assoc = g.n(-1, 1, "assoc")
				}
				if g.o.named && g.pct(30, "namedop") {
					layer.T[1] = named("op", op)
				}
				break
			}
			fallthrough
		case 3:
			layer = seqOf(quant(op, 0, 1), at)
		case 4:
			layer = seqOf(at, quant(op, 0, 0))
		default:
			layer = altOf(seqOf(op, at), at)
		}
		t.T = append(t.T, layer)
	}
	last := g.layer(minInt(depth, 1), guardedAt)
	if g.pct(60, "paren") {
		open, closing := "(", ")"
		if g.o.simpleLits {
			open, closing = "a", "b"
		}
		last = altOf(seqOf(lit(open), at, lit(closing)), last)
	}
	if last.K == "stack" || last.K == "rule" {
		last = seqOf(last)
	}
	t.T = append(t.T, last)
	return t
}

// layer makes a layer of any form. What comes after @ isn't taken to be guarded.
func (g *grammarGen) layer(depth, at int) *Term {
	t := g.term(tctx{depth: minInt(depth, 2), at: at})
	for t.K == "named" {
		t = t.T[0]
	}
	if t.K == "stack" || t.K == "rule" {
		t = seqOf(t)
	}
	return t
}

// --- sentences --------------------------------------------------------------------

type sampler struct {
	exts    map[string]string // what external references match
	escaped string            // an escape, if there are any
	t       *rapid.T
	vars    map[string]string
	hs      heights
	steps   int
}

const inf = 1 << 20

// heights computes how deep the shallowest derivation of each term is.
type heights struct {
	h       map[heightKey]int
	scopes  map[*Term]*lexScope
	changed bool
}

type heightKey struct {
	ls   *lexScope
	rule string
}

func (s *sampler) scope(ls *lexScope, t *Term) *lexScope {
	if s.hs.scopes[t] == nil {
		s.hs.scopes[t] = newLexScope(t.G, ls)
	}
	return s.hs.scopes[t]
}

// minHeight is that of the term's shallowest derivation.
func (s *sampler) minHeight(ls *lexScope, t *Term) int {
	for {
		s.hs.changed = false
		h := s.minHeights(ls, t, map[heightKey]bool{})
		if !s.hs.changed {
			return h
		}
	}
}

func (s *sampler) minHeights(ls *lexScope, t *Term, seen map[heightKey]bool) int {
	switch t.K {
	case "rule":
		def := ls.find(t.S)
		if def == nil {
			return inf
		}
		key := heightKey{def, t.S}
		old, has := s.hs.h[key]
		if !has {
			old = inf
		}
		if seen[key] {
			return old
		}
		seen[key] = true
		h := minInt(inf, s.minHeights(def, def.g.get(t.S), seen)+1)
		if h < old {
			s.hs.h[key] = h
			s.hs.changed = true
		}
		return minInt(h, old)
	case "seq":
		h := 0
		for _, k := range t.T {
			h = maxInt(h, s.minHeights(ls, k, seen))
		}
		return minInt(inf, h+1)
	case "alt":
		h := inf
		for _, k := range t.T {
			h = minInt(h, s.minHeights(ls, k, seen))
		}
		return minInt(inf, h+1)
	case "quant":
		if t.Min == 0 {
			return 1
		}
		return minInt(inf, s.minHeights(ls, t.T[0], seen)+1)
	case "delim", "named", "cut", "look":
		return minInt(inf, s.minHeights(ls, t.T[0], seen)+1)
	case "scope":
		return minInt(inf, s.minHeights(s.scope(ls, t), t.T[0], seen)+1)
	}
	return 1
}

func (s *sampler) n(lo, hi int, label string) int {
	return rng(s.t, lo, hi, label)
}

func (s *sampler) pad(ls *lexScope, t *Term, text string) string {
	if ls == nil || !ls.wraps || ls.except[t.S] {
		return text
	}
	switch s.n(0, 7, "pad") {
	case 0:
		text = " " + text
	case 1:
		text += " "
	case 2:
		text = "\n" + text
	case 3:
		text += "\t "
	}
	return text
}

// sample makes a sentence, and the part of it that a back reference would match.
func (s *sampler) sample(ls *lexScope, t *Term, depth int) (full, leaf string) {
	if s.steps++; s.steps > 400 {
		return "", ""
	}
	if s.hs.h == nil {
		s.hs = heights{h: map[heightKey]int{}, scopes: map[*Term]*lexScope{}}
	}
	if s.escaped != "" && t.K != "rule" && t.K != "named" && s.n(0, 9, "escape") == 0 {
		return s.escaped, ""
	}
	switch t.K {
	case "s":
		return s.pad(ls, t, t.S), t.S
	case "re":
		text := "a"
		if r := findRE(t.S); r != nil {
			text = pick(s.t, r.samples, "resample")
		}
		leaf := text
		if loc := compileRE(`\A(?:` + t.S + ")").FindStringSubmatchIndex(text); len(loc) > 2 && loc[2] >= 0 {
			leaf = text[loc[2]:loc[3]]
		}
		return s.pad(ls, t, text), leaf
	case "rule":
		def := ls.find(t.S)
		if def == nil || depth <= -6 {
			return "", ""
		}
		return s.sample(def, def.g.get(t.S), depth-1)
	case "named", "cut":
		return s.sample(ls, t.T[0], depth)
	case "look":
		return "", ""
	case "scope":
		return s.sample(s.scope(ls, t), t.T[0], depth)
	case "ref":
		if v, ok := s.vars[t.S]; ok {
			return v, v
		}
		if t.Def != nil {
			return *t.Def, *t.Def
		}
		return "", ""
	case "seq":
		saved := s.vars
		s.vars = map[string]string{}
		for k, v := range saved {
			s.vars[k] = v
		}
		for _, k := range t.T {
			f, l := s.sample(ls, k, depth)
			full += f
			leaf += l
			if b := boundName(k); b != "" {
				if len(l) > 40 {
					l = "" // references to references would grow exponentially
				}
				s.vars[b] = l
			}
		}
		s.vars = saved
		return full, leaf
	case "alt":
		i := s.n(0, len(t.T)-1, "alt")
		if depth <= 0 {
			best := inf
			for j, k := range t.T {
				if h := s.minHeight(ls, k); h < best {
					best, i = h, j
				}
			}
		}
		return s.sample(ls, t.T[i], depth)
	case "quant":
		hi := t.Min + 2
		if t.Max > 0 && t.Max < hi {
			hi = t.Max
		}
		n := t.Min
		if depth > 0 && hi > t.Min {
			n = s.n(t.Min, hi, "reps")
		}
		for i := 0; i < n; i++ {
			f, l := s.sample(ls, t.T[0], depth)
			full += f
			leaf += l
		}
		return full, leaf
	case "delim":
		n := 1
		if depth > 0 {
			n = s.n(1, 4, "items")
		}
		add := func(k *Term) {
			f, l := s.sample(ls, k, depth)
			full += f
			leaf += l
		}
		if t.Lead && s.n(0, 1, "leading") == 1 {
			add(t.T[1])
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				add(t.T[1])
			}
			add(t.T[0])
		}
		if t.Trail && s.n(0, 1, "trailing") == 1 {
			add(t.T[1])
		}
		return full, leaf
	case "ext":
		return s.exts[t.S], s.exts[t.S]
	}
	panic("sample: " + t.K)
}

func genSentence(t *rapid.T, g Grammar, rule string) string {
	s := &sampler{t: t, vars: map[string]string{}}
	ls := newLexScope(g, nil)
	full, _ := s.sample(ls, ruleRef(rule), rng(t, 1, 5, "depth"))
	if len(full) > 200 {
		full = strings.ToValidUTF8(full[:200], "")
	}
	return full
}

// genInput makes a sentence, often, or one that is mutated, or noise.
func genInput(t *rapid.T, g Grammar, rule string) string {
	in := genSentence(t, g, rule)
	switch k := rng(t, 0, 9, "mutate"); {
	case k < 5:
		return in
	case k < 9:
		for i := rng(t, 1, 2, "edits"); i > 0; i-- {
			in = mutate(t, g, in)
		}
		return in
	default:
		toks := tokensOf(g)
		var sb strings.Builder
		for i := rng(t, 0, 6, "noise"); i > 0; i-- {
			sb.WriteString(pick(t, toks, "tok"))
		}
		return sb.String()
	}
}

// tokensOf are pieces of text that mean something to the grammar.
func tokensOf(g Grammar) []string {
	out := []string{"a", " ", "b"}
	g.walk(func(t *Term) {
		switch t.K {
		case "s":
			out = append(out, t.S)
		case "re":
			if r := findRE(t.S); r != nil {
				out = append(out, r.samples...)
			}
		}
	})
	return out
}

func mutate(t *rapid.T, g Grammar, in string) string {
	rs := []rune(in)
	i := rng(t, 0, len(rs), "where")
	switch rng(t, 0, 4, "edit") {
	case 0: // delete
		if i < len(rs) {
			return string(rs[:i]) + string(rs[i+1:])
		}
		return in
	case 1: // truncate
		return string(rs[:i])
	case 2: // insert
		return string(rs[:i]) + pick(t, tokensOf(g), "tok") + string(rs[i:])
	case 3: // replace
		if i < len(rs) {
			return string(rs[:i]) + pick(t, tokensOf(g), "tok") + string(rs[i+1:])
		}
		return in + pick(t, tokensOf(g), "tok")
	default: // duplicate a part
		j := rng(t, i, len(rs), "to")
		return string(rs[:j]) + string(rs[i:j]) + string(rs[j:])
	}
}

var identRE = regexp.MustCompile(`^[A-Za-z_]\w*$`)

// enlarge makes a grammar whose start rule repeats, lists or nests that of another,
// and a long sentence of it.
func enlarge(t *rapid.T, g Grammar, rule string, most int) (ParseCase, bool) {
	in := genSentence(t, g, rule)
	if len(in) > 60 {
		return ParseCase{}, false
	}
	r := ruleRef(rule)
	n := pick(t, []int{5, 9, 10, 11, 16, 33, 64, 100, 129, 257, 400}, "size")
	n = minInt(minInt(n, most), 2+4000/(1+len(in)))
	var big *Term
	var text string
	list := strings.Repeat(in+";", n)
	switch rng(t, 0, 7, "bigform") {
	case 0:
		big, text = quant(seqOf(r, lit(";")), 0, 0), list
	case 1:
		big, text = quant(seqOf(r, lit(";")), maxInt(1, n-rng(t, 0, 2, "fewer")), n+rng(t, 0, 2, "more")), list
	case 2:
		big, text = delim(r, lit(";"), g3(t), pct(t, 30, "lead"), true), list
	case 3:
		big, text = delim(r, lit(";"), g3(t), pct(t, 30, "lead"), false), list[:len(list)-1]
	case 4: // nested
		big = altOf(seqOf(lit("("), ruleRef("big"), lit(")")), seqOf(r, lit(";")))
		text = strings.Repeat("(", n) + in + ";" + strings.Repeat(")", n)
	case 5: // nested to the right
		big, text = seqOf(r, lit(";"), quant(ruleRef("big"), 0, 1)), list
	case 6: // the same, in a stack
		big = &Term{K: "stack", T: []*Term{
			delim(ruleRef("@"), lit(";"), g3(t), false, false),
			altOf(seqOf(lit("["), ruleRef("@"), lit("]")), seqOf(r, quant(lit("!"), 0, 1))),
		}}
		n = minInt(n, 60)
		text = strings.Repeat("["+in+";", n) + in + strings.Repeat("]", n)
	default: // of several kinds
		big = quant(altOf(seqOf(named("lhs", r), lit(";")), named("op", lit("!")), seqOf(lit("?"), r)), 0, 0)
		for len(text) < n {
			text += pick(t, []string{in + ";", "!", "?" + in}, "item")
		}
	}
	return ParseCase{append(Grammar{{"big", big}}, g...), "big", text}, true
}

func g3(t *rapid.T) int { return rng(t, -1, 1, "assoc") }
