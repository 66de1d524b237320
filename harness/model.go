package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"
)

// The reference model is a direct interpreter of the IR, written from the
// documented semantics of grammars: ordered choice, greedy repetition without
// backtracking, lookahead without consumption, separators, dynamically scoped
// back references, lexically scoped grammars, token padding and cut points.

// lexScope is a grammar and the scopes that surround it.
type lexScope struct {
	g      Grammar
	outer  *lexScope
	before string // of .wrapRE
	after  string
	except map[string]bool
	wraps  bool
}

func newLexScope(g Grammar, outer *lexScope) *lexScope {
	ls := &lexScope{g: g.resolved(), outer: outer}
	w := g.get(".wrapRE")
	if w == nil {
		if outer != nil {
			ls.before, ls.after, ls.except, ls.wraps = outer.before, outer.after, outer.except, outer.wraps
		}
		return ls
	}
	ls.except = map[string]bool{}
	if w.K == "alt" {
		for _, t := range w.T[:len(w.T)-1] {
			if t.K == "s" || t.K == "re" {
				ls.except[t.S] = true
			}
		}
		w = w.T[len(w.T)-1]
	}
	ls.wraps = true
	ls.before, ls.after, _ = strings.Cut(w.S, "()")
	return ls
}

// find returns the innermost scope that defines the rule.
func (ls *lexScope) find(name string) *lexScope {
	for ; ls != nil; ls = ls.outer {
		if ls.g.has(name) {
			return ls
		}
	}
	return nil
}

// dynScope is what parsing has established so far.
type dynScope struct {
	vars *binding
	cut  int // 0: none
}

type binding struct {
	name string
	val  *Tree
	next *binding
}

func (d dynScope) lookup(name string) (*Tree, bool) {
	for b := d.vars; b != nil; b = b.next {
		if b.name == name {
			return b.val, true
		}
	}
	return nil, false
}

func (d dynScope) bind(name string, val *Tree) dynScope {
	if name != "" {
		d.vars = &binding{name, val, d.vars}
	}
	return d
}

// failure is nil or a failed parse. If cut is not 0, it may only be caught by the
// choice or repetition that minted it.
type failure struct {
	cut int
	at  int
	// What the error is to say: the token that was expected, or why else it failed, and the
	// errors that led to it.
	token *Term
	why   string
	kids  []*failure
	depth int
}

type budgetExceeded struct{}

type extFunc func(input string, pos int) (t *Tree, end int, err *failure)

type model struct {
	input    string
	steps    int
	maxSteps int
	nextCut  int
	furthest int
	external map[string]extFunc
	escape   *mEscape
	catchers int // alternatives and repetitions that would catch a failure here
	// statistics
	fatal     int // failures that cut off an alternative or repetition that would have caught them
	backtrack int // alternatives that failed after some input was consumed
	looks     int
	refs      int
	ruleDepth int
	depth     int // of terms
	maxDepth  int
	failures  int
	errorCost int // sum of the squares of the depths of failures
}

func newModel(input string) *model { return &model{input: input, maxSteps: 60_000} }

var reCache = map[string]*regexp.Regexp{}

func compileRE(s string) *regexp.Regexp {
	re := reCache[s]
	if re == nil {
		re = regexp.MustCompile(s)
		if len(reCache) > 20_000 {
			reCache = map[string]*regexp.Regexp{}
		}
		reCache[s] = re
	}
	return re
}

// token matches a literal or regexp. The leaf is the first capturing group of a
// regexp, if it took part, and otherwise the entire term, without the padding.
func (m *model) token(ls *lexScope, t *Term, pos int) (*Tree, int, *failure) {
	src := t.S
	if t.K == "s" {
		src = regexp.QuoteMeta(src)
	}
	pattern := "(?P<vwhole>" + src + ")"
	if ls != nil && ls.wraps && !ls.except[t.S] {
		pattern = ls.before + "(?:" + pattern + ")" + ls.after
	}
	re := compileRE(`\A(?m:` + pattern + ")")
	loc := re.FindStringSubmatchIndex(m.input[pos:])
	if loc == nil {
		return nil, pos, &failure{at: pos}
	}
	g := re.SubexpIndex("vwhole")
	lo, hi := loc[2*g], loc[2*g+1]
	// A group that opens within the term is the next group.
	if t.K == "re" && compileRE(`(?m:`+src+`)`).NumSubexp() > 0 {
		if a, b := loc[2*g+2], loc[2*g+3]; a >= 0 {
			lo, hi = a, b
		}
	}
	return leafTree(m.input, pos+lo, pos+hi), pos + loc[1], nil
}

func orTag(tag, alt string) string {
	if tag != "" {
		return tag
	}
	return alt
}

// isCut says whether the term is a cut point, perhaps by another name.
func (m *model) isCut(ls *lexScope, t *Term) bool {
	for n := 0; n < 1000; n++ {
		switch t.K {
		case "cut":
			return true
		case "named":
			t = t.T[0]
		case "scope":
			ls, t = newLexScope(t.G, ls), t.T[0]
		case "rule":
			def := ls.find(t.S)
			if def == nil {
				return false
			}
			ls, t = def, def.g.get(t.S)
		default:
			return false
		}
	}
	return false
}

// boundName is the name that a term of a sequence binds for back references.
func boundName(t *Term) string {
	switch t.K {
	case "named", "rule":
		return t.S
	case "quant":
		return boundName(t.T[0])
	}
	return ""
}

func (m *model) rule(ls *lexScope, name, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	def := ls.find(name)
	if def == nil {
		panic("model: undefined rule " + name)
	}
	return m.body(def, orTag(tag, name), def.g.get(name), pos, d)
}

// body parses the term of a rule, which if it merely stands for another rule is
// parsed as that rule, but known by the name of the former.
func (m *model) body(ls *lexScope, tag string, t *Term, pos int, d dynScope) (*Tree, int, *failure) {
	for {
		name, ok := aliasOf(ls, t)
		if !ok {
			return m.parse(ls, t, tag, pos, d)
		}
		def := ls.find(name)
		if def == nil {
			panic("model: undefined rule " + name)
		}
		m.step()
		ls, t = def, def.g.get(name)
	}
}

// aliasOf returns the rule of the scope that the term merely stands for.
func aliasOf(ls *lexScope, t *Term) (string, bool) {
	if t.K == "named" {
		t = t.T[0]
	}
	switch t.K {
	case "rule":
		return t.S, true
	case "scope":
		inner := newLexScope(t.G, ls)
		for t = t.T[0]; ; {
			name, ok := aliasOf(inner, t)
			if !ok || !inner.g.has(name) {
				return name, ok
			}
			t = inner.g.get(name)
		}
	}
	return "", false
}

func (m *model) step() {
	if m.steps++; m.steps > m.maxSteps {
		panic(budgetExceeded{})
	}
}

func (m *model) fail(d dynScope, pos int, token *Term) *failure {
	if pos > m.furthest {
		m.furthest = pos
	}
	return &failure{cut: d.cut, at: pos, token: token, depth: m.depth}
}

func (m *model) mint() int { m.nextCut++; return m.nextCut }

// mEscape replaces any term where its opening mark occurs.
type mEscape struct {
	open, close *regexp.Regexp
	fn          extFunc
	missing     func() // called if there is no closing mark
}

// escaped parses an escape, if there is one.
func (m *model) escaped(t *Term, pos int) (ok bool, tree *Tree, end int, f *failure) {
	switch {
	case m.escape == nil || t.part:
		return
	case t.K == "rule" || t.K == "named" || t.K == "cut" || t.K == "scope":
		return // left to the term that these stand for
	}
	loc := m.escape.open.FindStringIndex(m.input[pos:])
	if loc == nil {
		return
	}
	tree, end, f = m.escape.fn(m.input, pos+loc[1])
	if f != nil {
		return true, nil, pos, f
	}
	loc = m.escape.close.FindStringIndex(m.input[end:])
	if loc == nil {
		m.escape.missing()
		return true, nil, pos, &failure{at: end}
	}
	return true, tree, end + loc[1], nil
}

func (m *model) parse(ls *lexScope, t *Term, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	m.depth++
	m.maxDepth = maxInt(m.maxDepth, m.depth)
	tree, end, f := m.parseTerm(ls, t, tag, pos, d)
	if f != nil {
		m.failures++
		m.errorCost += m.depth * m.depth
	}
	m.depth--
	return tree, end, f
}

func (m *model) parseTerm(ls *lexScope, t *Term, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	m.step()
	if ok, tree, end, f := m.escaped(t, pos); ok {
		return tree, end, f
	}
	switch t.K {
	case "s", "re":
		tree, end, f := m.token(ls, t, pos)
		if f != nil {
			return nil, pos, m.fail(d, pos, t)
		}
		return tree, end, nil
	case "rule":
		m.ruleDepth++
		defer func() { m.ruleDepth-- }()
		if m.ruleDepth > 400 {
			panic(budgetExceeded{})
		}
		return m.rule(ls, t.S, "", pos, d)
	case "named":
		return m.parse(ls, t.T[0], orTag(tag, t.S), pos, d)
	case "cut":
		return m.parse(ls, t.T[0], tag, pos, d)
	case "scope":
		return m.scoped(ls, t, tag, pos, d)
	case "seq":
		var kids []*Tree
		at := pos
		for _, item := range t.T {
			kid, end, f := m.parse(ls, item, "", at, d)
			if f != nil {
				if f.cut == 0 {
					f = &failure{cut: d.cut, at: f.at, kids: []*failure{f}, depth: m.depth}
				}
				return nil, pos, f
			}
			if m.isCut(ls, item) {
				d.cut = m.mint()
			}
			d = d.bind(boundName(item), kid)
			kids = append(kids, kid)
			at = end
		}
		return nodeTree(orTag(tag, "_"), "", kids...), at, nil
	case "alt":
		prev, inner := d.cut, d
		if d.cut != 0 {
			inner.cut = m.mint()
		}
		var failures []*failure
		for i, alt := range t.T {
			m.catchers++
			kid, end, f := m.parse(ls, alt, "", pos, inner)
			m.catchers--
			if f == nil {
				return nodeTree(orTag(tag, "|"), fmt.Sprintf("choice %d", i), kid), end, nil
			}
			if f.cut != 0 && f.cut != inner.cut {
				if i+1 < len(t.T) {
					m.fatal++
				}
				return nil, pos, f
			}
			if f.at > pos {
				m.backtrack++
			}
			failures = append(failures, f)
		}
		return nil, pos, &failure{cut: prev, at: pos, kids: failures, depth: m.depth}
	case "quant":
		prev, inner := d.cut, d
		if d.cut != 0 {
			inner.cut = m.mint()
		}
		var kids []*Tree
		var last *failure
		at := pos
		for t.Max == 0 || len(kids) < t.Max {
			m.catchers++
			kid, end, f := m.parse(ls, t.T[0], "", at, inner)
			m.catchers--
			if f != nil {
				if f.cut != 0 && f.cut != inner.cut {
					m.fatal++
					return nil, pos, f
				}
				last = f
				break
			}
			// Without a limit, an empty match would repeat forever.
			if t.Max == 0 && len(kids) >= t.Min && end == at {
				break
			}
			kids = append(kids, kid)
			at = end
			m.step()
		}
		if len(kids) < t.Min {
			return nil, pos, &failure{cut: prev, at: at, kids: []*failure{last}, depth: m.depth}
		}
		return nodeTree(orTag(tag, "?"), "", kids...), at, nil
	case "look":
		m.looks++
		kid, _, f := m.parse(ls, t.T[0], "", pos, d)
		if f != nil {
			return nil, pos, f
		}
		tree := nodeTree(orTag(tag, "?="), "", kid)
		tree.Look = true
		return tree, pos, nil
	case "delim":
		return m.delim(ls, t, tag, pos, d)
	case "ref":
		m.refs++
		val, ok := d.lookup(t.S)
		switch {
		case ok:
			return m.backref(val, t.S, pos, d)
		case t.Def != nil:
			return m.parse(nil, lit(*t.Def), "", pos, d)
		}
		return nil, pos, &failure{at: pos, why: "Backref not found", depth: m.depth}
	case "ext":
		fn := m.external[t.S]
		if fn == nil {
			return nil, pos, &failure{cut: -1, at: pos, why: "External handler not found", depth: m.depth}
		}
		return fn(m.input, pos)
	}
	panic("model: " + t.K)
}

// scoped parses the term of a scoped grammar, which may be merely a rule.
func (m *model) scoped(ls *lexScope, t *Term, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	if name, ok := aliasOf(ls, t); ok {
		return m.parse(ls, ruleRef(name), tag, pos, d)
	}
	inner := newLexScope(t.G, ls)
	for t = t.T[0]; ; {
		name, ok := aliasOf(inner, t)
		if !ok {
			return m.parse(inner, t, tag, pos, d)
		}
		m.step()
		tag = orTag(tag, name)
		t = inner.g.get(name)
	}
}

// delim parses term (sep term)*, with an optional leading and trailing sep. Each
// part is parsed, and binds names, as if the delim had been written that way.
func (m *model) delim(ls *lexScope, t *Term, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	term, sep := t.T[0], t.T[1]
	part := func(t *Term) *Term { t.part = true; return t }
	parts := part(&Term{K: "seq"})
	if t.Lead {
		parts.T = append(parts.T, part(quant(sep, 0, 1)))
	}
	parts.T = append(parts.T, part(seqOf(term, part(quant(part(seqOf(sep, term)), 0, 0)))))
	if t.Trail {
		parts.T = append(parts.T, part(quant(sep, 0, 1)))
	}
	tree, end, f := m.parse(ls, parts, "", pos, d)
	if f != nil {
		return nil, pos, f
	}
	var items []*Tree
	kids := tree.Kids
	if t.Lead {
		if lead := kids[0].Kids; len(lead) > 0 {
			items = append(items, emptyTree(), lead[0])
		}
		kids = kids[1:]
	}
	items = append(items, kids[0].Kids[0])
	for _, pair := range kids[0].Kids[1].Kids {
		items = append(items, pair.Kids...)
	}
	if t.Trail {
		if trail := kids[1].Kids; len(trail) > 0 {
			items = append(items, trail[0], emptyTree())
		}
	}
	tag = orTag(tag, ":")
	if t.Assoc == 0 || len(items) == 1 {
		return nodeTree(tag, "assoc 0", items...), end, nil
	}
	return assocTree(tag, t.Assoc, items), end, nil
}

func assocTree(tag string, assoc int, items []*Tree) *Tree {
	n := len(items)
	if n == 1 {
		return items[0]
	}
	extra := fmt.Sprintf("assoc %d", assoc)
	if assoc > 0 {
		return nodeTree(tag, extra, assocTree(tag, assoc, items[:n-2]), items[n-2], items[n-1])
	}
	return nodeTree(tag, extra, items[0], items[1], assocTree(tag, assoc, items[2:]))
}

// backref matches the leaves of an earlier part of the input again.
func (m *model) backref(val *Tree, tag string, pos int, d dynScope) (*Tree, int, *failure) {
	if m.escape != nil && m.escape.open.MatchString(m.input[pos:]) {
		panic(budgetExceeded{}) // not specified
	}
	m.step()
	if val.Leaf {
		if !strings.HasPrefix(m.input[pos:], val.Text) {
			return nil, pos, m.fail(d, pos, lit(val.Text))
		}
		end := pos + len(val.Text)
		for at := pos; at != end; {
			if at > end {
				panic(budgetExceeded{}) // not specified: part of a character
			}
			_, n := utf8.DecodeRuneInString(m.input[at:])
			at += n
		}
		return leafTree(m.input, pos, end), end, nil
	}
	at := pos
	var kids []*Tree
	for _, k := range val.Kids {
		if k.Empty {
			continue
		}
		kid, end, f := m.backref(k, "", at, d)
		if f != nil {
			return nil, pos, f
		}
		kids = append(kids, kid)
		at = end
	}
	return nodeTree(orTag(tag, "_"), "", kids...), at, nil
}

// outcome is the result of parsing an entire input.
type outcome struct {
	tree *Tree // nil if the rule didn't match
	end  int
	f    *failure // if it didn't
	m    *model
}

func (o outcome) accepted() bool { return o.tree != nil && o.end == len(o.m.input) }

func (o outcome) String() string {
	switch {
	case o.tree == nil:
		return "no match"
	case !o.accepted():
		return fmt.Sprintf("matched %d of %d bytes: %v", o.end, len(o.m.input), o.tree)
	}
	return o.tree.String()
}

// runModel parses the input. It returns ok = false if that takes too long.
func runModel(g Grammar, rule, input string, exts map[string]extFunc) (out outcome, ok bool) {
	m := newModel(input)
	m.external = exts
	return m.run(g, rule)
}

func (m *model) run(g Grammar, rule string) (out outcome, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(budgetExceeded); !is {
				panic(r)
			}
			ok = false
		}
	}()
	ls := newLexScope(g, nil)
	tree, end, f := m.body(ls, rule, ls.g.get(rule), 0, dynScope{})
	if f != nil {
		return outcome{m: m, f: f}, true
	}
	return outcome{tree: tree, end: end, m: m}, true
}
