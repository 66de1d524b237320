package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// normal returns the term in the form that a text can express: a sequence, choice
// or stack of one is that one.
func (t *Term) normal() *Term {
	return t.mapTerm(func(t *Term) *Term {
		switch t.K {
		case "seq", "alt", "stack":
			if len(t.T) == 1 {
				return t.T[0]
			}
		}
		return t
	})
}

func (g Grammar) normal() Grammar {
	var out Grammar
	for _, r := range g {
		out = append(out, Rule{r.Name, r.T.normal()})
	}
	return out
}

// textNames says whether no sequence uses a name twice, which is invalid.
func (g Grammar) textNames() bool {
	ok := true
	outer := func(t *Term) string {
		for t.K == "quant" || t.K == "delim" {
			t = t.T[0]
		}
		if t.K == "named" {
			return t.S
		}
		return ""
	}
	g.walk(func(t *Term) {
		if t.K != "seq" {
			return
		}
		seen := map[string]bool{}
		for _, k := range t.T {
			if n := outer(k); n != "" {
				if seen[n] {
					ok = false
				}
				seen[n] = true
			}
		}
	})
	return ok
}

// printer renders a normal grammar as text, in one of many equivalent ways.
type printer struct {
	t    *rapid.T // nil: always the plainest way
	toks []string
}

func (p *printer) pct(n int, label string) bool { return p.t != nil && pct(p.t, n, label) }

func (p *printer) choose(n int, label string) int {
	if p.t == nil {
		return 0
	}
	return uni(p.t, n, label)
}

func (p *printer) emit(toks ...string) { p.toks = append(p.toks, toks...) }

const (
	levelStack = iota
	levelAlt
	levelSeq
	levelQuant
	levelAtom
)

func levelOf(t *Term) int {
	switch t.K {
	case "stack":
		return levelStack
	case "alt":
		return levelAlt
	case "seq":
		if len(t.T) == 0 {
			return levelAtom
		}
		return levelSeq
	case "quant", "delim":
		return levelQuant
	case "named":
		return levelQuant
	case "scope":
		return -1
	}
	return levelAtom
}

func (p *printer) grammar(g Grammar) {
	for _, r := range g {
		p.comments()
		p.emit(r.Name, "->")
		p.body(r.T)
		p.emit(";")
	}
	p.comments()
}

// body renders the entire term of a rule.
func (p *printer) body(t *Term) {
	if t.K == "scope" && t.T[0].K != "scope" {
		p.scope(t)
		return
	}
	p.term(t, levelStack)
}

func (p *printer) scope(t *Term) {
	p.term(t.T[0], levelAlt)
	p.emit("{")
	p.grammar(t.G)
	p.emit("}")
}

func (p *printer) comments() {
	for p.pct(8, "comment") {
		switch p.choose(4, "commentkind") {
		case 0:
			p.emit("// a -> b; \" ' /{\n")
		case 1:
			p.emit("//\n")
		case 2:
			p.emit("/*x*/")
		default:
			p.emit("/* */")
		}
	}
}

func (p *printer) paren(t *Term) {
	p.emit("(")
	if t.K == "scope" {
		p.scope(t)
	} else if t.K == "stack" {
		p.term(t, levelStack)
	} else {
		p.term(t, levelAlt)
	}
	p.emit(")")
}

// term renders the term where one of the given level is allowed.
func (p *printer) term(t *Term, level int) {
	if levelOf(t) < level || levelOf(t) == -1 {
		p.paren(t)
		return
	}
	if level > levelStack && t.K != "stack" && p.pct(7, "redundant") {
		p.paren(t)
		return
	}
	switch t.K {
	case "stack":
		for i, k := range t.T {
			if i > 0 {
				p.emit(">")
			}
			// The grammar of a layer may follow it.
			if k.K == "scope" && k.T[0].K != "scope" && p.pct(60, "layerscope") {
				p.scope(k)
				continue
			}
			p.term(k, levelAlt)
		}
	case "alt":
		for i, k := range t.T {
			if i > 0 {
				p.emit("|")
			}
			p.term(k, levelSeq)
		}
	case "seq":
		if len(t.T) == 0 {
			p.emit("(", ")")
			return
		}
		for _, k := range t.T {
			p.term(k, levelQuant)
		}
	case "quant", "delim":
		// The leftmost suffix is the outermost.
		var suffixes []*Term
		base := t
		for base.K == "quant" || base.K == "delim" {
			suffixes = append(suffixes, base)
			base = base.T[0]
			if p.pct(25, "group") {
				break
			}
		}
		if base.K == "named" {
			p.named(base)
		} else {
			p.term(base, levelAtom)
		}
		for _, s := range suffixes {
			p.suffix(s)
		}
	case "named":
		p.named(t)
	default:
		p.atom(t)
	}
}

func (p *printer) named(t *Term) {
	p.emit(t.S, "=")
	p.term(t.T[0], levelAtom)
}

func (p *printer) suffix(t *Term) {
	if t.K == "delim" {
		p.emit(map[int]string{-1: "<:", 0: ":", 1: ":>"}[t.Assoc])
		if t.Lead {
			p.emit(",")
		}
		if t.T[1].K == "named" {
			p.named(t.T[1])
		} else {
			p.term(t.T[1], levelAtom)
		}
		if t.Trail {
			p.emit(",")
		}
		return
	}
	switch {
	case t.Min == 0 && t.Max == 0 && !p.pct(15, "longhand"):
		p.emit("*")
	case t.Min == 1 && t.Max == 0 && !p.pct(15, "longhand"):
		p.emit("+")
	case t.Min == 0 && t.Max == 1 && !p.pct(15, "longhand"):
		p.emit("?")
	default:
		lo, hi := fmt.Sprint(t.Min), fmt.Sprint(t.Max)
		if t.Min == 0 && !p.pct(50, "zero") {
			lo = ""
		}
		if t.Max == 0 {
			hi = ""
		}
		toks := []string{"{", lo, ",", hi, "}"}
		if p.pct(50, "tight") || p.t == nil {
			p.emit(strings.Join(toks, ""))
			return
		}
		for _, tok := range toks {
			if tok != "" {
				p.emit(tok)
			}
		}
	}
}

func (p *printer) atom(t *Term) {
	switch t.K {
	case "s":
		p.emit(p.str(t.S))
	case "re":
		p.emit(p.re(t.S))
	case "rule":
		p.emit(t.S)
	case "call":
		p.call(t)
	case "raw":
		p.emit(t.S)
	case "ext":
		p.emit("%%", t.S)
	case "ref":
		p.emit("%", t.S)
		if t.Def != nil {
			p.emit("=", p.str(*t.Def))
		}
	case "look":
		p.emit("(?=")
		if k := t.T[0]; k.K == "scope" && k.T[0].K != "scope" {
			p.scope(k)
		} else {
			p.term(k, levelAlt)
		}
		p.emit(")")
	default:
		panic("atom: " + t.K)
	}
}

// str renders a literal.
func (p *printer) str(s string) string {
	quote := []string{`"`, `'`, "`"}[p.choose(3, "quote")]
	if quote == "`" {
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	}
	var sb strings.Builder
	sb.WriteString(quote)
	named := map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\'': `\'`, '\\': `\\`}
	for _, r := range s {
		style := 0
		if p.pct(20, "escape") {
			style = 1 + p.choose(5, "style")
		}
		bytes := func(format string) {
			for _, b := range []byte(string(r)) {
				fmt.Fprintf(&sb, format, b)
			}
		}
		switch {
		case style == 1:
			bytes(`\x%02x`)
		case style == 2:
			bytes(`\%03o`)
		case style == 3 && r < 0x10000:
			fmt.Fprintf(&sb, `\u%04X`, r)
		case style == 4:
			fmt.Fprintf(&sb, `\U%08x`, r)
		case style == 5 && named[r] != "":
			sb.WriteString(named[r])
		case string(r) == quote || r == '\\':
			sb.WriteString(`\` + string(r))
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteString(quote)
	return sb.String()
}

// simpleREs may omit the braces.
var simpleREs = map[string]bool{
	`[a-c]+`: true, `\d+`: true, `[a-z]`: true, `[^,;]`: true, `\w+`: true, `.`: true, `[+\-]`: true,
	`[0-9]+`: true, `[a-z]+`: true, `^[a-z][0-9]*$`: true, `[a-z]{2}`: true, `\w{2,}`: true, `[ab]{1,3}?`: true, `\s`: true,
	`\p{Greek}`: true,
}

// re renders a regexp.
func (p *printer) re(s string) string {
	// Within braces, the syntax has no \p{...}.
	if simpleREs[s] && (strings.HasPrefix(s, `\p{`) || !p.pct(30, "braces")) {
		return s
	}
	s = strings.ReplaceAll(s, " ", `\_`)
	if p.t == nil {
		return "/{" + s + "}"
	}
	// Whitespace is ignored, if not within an escape or counted repetition.
	var sb strings.Builder
	sb.WriteString("/{")
	esc, braces := false, false
	for _, r := range s {
		if !esc && !braces && p.pct(10, "respace") {
			sb.WriteString(pick(p.t, []string{" ", "\n", "\t", "\n  "}, "ws"))
		}
		sb.WriteRune(r)
		switch {
		case esc:
			esc = false
		case r == '\\':
			esc = true
		case r == '{':
			braces = true
		case r == '}':
			braces = false
		}
	}
	if p.pct(10, "respace") {
		sb.WriteString(" ")
	}
	return sb.String() + "}"
}

// text joins the tokens.
func (p *printer) text() string {
	var sb strings.Builder
	for i, tok := range p.toks {
		if i > 0 {
			sb.WriteString(p.space(p.toks[i-1], tok))
		}
		sb.WriteString(tok)
	}
	if p.pct(50, "final") {
		sb.WriteString("\n")
	}
	return sb.String()
}

func (p *printer) space(a, b string) string {
	if p.t == nil {
		return " "
	}
	if strings.HasSuffix(a, "\n") {
		return ""
	}
	tight := a == "(" || a == "|" || a == ";" || b == ")" || b == ";" || b == "|" || b == "=" || a == "=" || a == "%" || a == "%%" || a == "%!"
	if a == "%" || a == "%%" {
		tight = true
	}
	if tight && pct(p.t, 70, "tight") {
		return ""
	}
	return pick(p.t, []string{" ", " ", " ", "\n", "\t", "  ", "\r\n  "}, "space")
}

// renderText renders the grammar, which must be normal, in a random way.
func renderText(t *rapid.T, g Grammar) string {
	p := &printer{t: t}
	p.grammar(g)
	return p.text()
}

// plainText renders the grammar, which must be normal, in the plainest way.
func plainText(g Grammar) string {
	p := &printer{}
	p.grammar(g)
	return p.text()
}

func textOpts() gopts {
	o := fullOpts()
	o.strictGuard = true
	return o
}

// noNestedAliases replaces the rules of nested grammars that are merely a rule of
// an enclosing grammar, which go by the latter's name.
func (g Grammar) noNestedAliases() Grammar {
	return g.mapTerms(func(t *Term) *Term {
		for i, r := range t.G {
			b := r.T
			for b.K == "named" || b.K == "scope" {
				b = b.T[0]
			}
			if b.K == "rule" {
				t.G[i].T = seqOf(r.T, seqOf())
			}
		}
		return t
	})
}

// genTextGrammar makes a normal grammar that a text can express.
func genTextGrammar(t *rapid.T, o gopts) Grammar {
	o.strictGuard = true
	for i := 0; i < 10; i++ {
		if g := genGrammar(t, o).normal().noNestedAliases(); g.textNames() {
			return g
		}
	}
	return Grammar{{"r", lit("a")}}
}
