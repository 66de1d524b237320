package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// Bytes is a text of any bytes. It is written so that JSON keeps them.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	s, err := strconv.Unquote(s)
	*b = Bytes(s)
	return err
}

// FuzzCase is a text that may or may not be a grammar, and inputs for its rules.
type FuzzCase struct {
	Text   Bytes   `json:"text"`
	Inputs []Bytes `json:"inputs"`
}

var wbnfTokens = []string{
	"a", "b", "r", "x", "expr", "@", ".wrapRE", "->", "->", ";", ";", "(", ")", "(", ")", "{", "}", "|", "|", ">", ":", ":>", "<:", ",", "*", "+", "?",
	"=", "%", "%%", "%!", "M", ".macro", ".import", "(?=", `"x"`, `'y'`, "`z`", `""`, `"\n"`, `"\x41"`, `"\q"`, `"\u0041"`, `"\777"`, "/{", "}", "/{a*}",
	"/{()}", "/{(}", "[a-z]", "[", "]", `\d`, `\s*()\s*`, ".", "{1,2}", "{2,1}", "{,}", "{3,}", "{,0}", "{99999999999999999999,}", "{1,1}", "//c\n", "/**/", "/*",
	" ", "\n", "a.wbnf", "/", "é", "\x00", "\xff", `\`, `"`, "'", "`", "_", "1", "<",
}

func genFuzzText(t *rapid.T) string {
	valid := func() string {
		if pct(t, 50, "macros") {
			return genMacros(t).Text
		}
		return renderText(t, genTextGrammar(t, textOpts()))
	}
	switch uni(t, 8, "kind") {
	case 0: // noise
		var sb strings.Builder
		for i := rng(t, 0, 25, "n"); i > 0; i-- {
			sb.WriteString(pick(t, wbnfTokens, "tok"))
			if pct(t, 40, "space") {
				sb.WriteString(" ")
			}
		}
		return sb.String()
	case 1: // noise in a rule
		var sb strings.Builder
		sb.WriteString("a -> ")
		for i := rng(t, 1, 8, "n"); i > 0; i-- {
			sb.WriteString(pick(t, wbnfTokens, "tok"))
			if pct(t, 40, "space") {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(";")
		return sb.String()
	case 2: // any bytes
		return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
	case 3: // a splice of two
		a, b := valid(), valid()
		i, j := uni(t, len(a)+1, "i"), uni(t, len(b)+1, "j")
		return a[:i] + b[j:]
	default: // a mutation
		s := valid()
		for n := rng(t, 1, 4, "edits"); n > 0; n-- {
			i := uni(t, len(s)+1, "i")
			j := minInt(len(s), i+uni(t, 6, "len"))
			switch uni(t, 5, "edit") {
			case 0:
				s = s[:i] + s[j:]
			case 1:
				s = s[:i] + pick(t, wbnfTokens, "tok") + s[j:]
			case 2:
				s = s[:i] + pick(t, wbnfTokens, "tok") + s[i:]
			case 3:
				s = s[:j] + s[i:j] + s[j:]
			case 4: // move a part
				k := uni(t, len(s)+1, "k")
				part := s[i:j]
				rest := s[:i] + s[j:]
				k = minInt(k, len(rest))
				s = rest[:k] + part + rest[k:]
			}
		}
		return s
	}
}

func genFuzzCase(t *rapid.T) FuzzCase {
	c := FuzzCase{Text: Bytes(genFuzzText(t))}
	if pct(t, 4, "oddwrap") {
		o := textOpts()
		o.wrap = 0
		w := pick(t, []string{`\s*()|b`, `()|\s`, `a|()`, `(?:\s*())?`, `()?`, `()*`, `^()`, `()$`, `(?i:())`}, "wrap")
		c.Text = Bytes(renderText(t, genTextGrammar(t, o)) + " .wrapRE -> /{" + w + "};")
	}
	for i := 0; i < 3; i++ {
		var sb strings.Builder
		for n := rng(t, 0, 8, "n"); n > 0; n-- {
			sb.WriteString(pick(t, []string{"a", "b", "c", "x", "(", ")", "+", ",", "1", " ", "\n", "é", "\xff", "if", "aa"}, "in"))
		}
		c.Inputs = append(c.Inputs, Bytes(sb.String()))
	}
	return c
}

// strayAt says whether @ occurs other than in the layers of a stack. That such a
// grammar compiles is a known finding.
func strayAt(g Grammar) bool {
	found := false
	g.resolved().walk(func(t *Term) { found = found || t.K == "rule" && t.S == "@" })
	return found
}

func checkFuzz(c FuzzCase, o *Obs) error {
	p, err := wbnf.Compile(string(c.Text), nil)
	if err != nil {
		o.Label("rejected")
		kind := "other"
		switch err.(type) {
		case parser.UnconsumedInputError:
			kind = "unconsumed"
		case parser.ParseError, parser.FatalError:
			kind = "syntax"
		}
		if kind == "other" {
			o.NonTrivial()
			if err.Error() == "" {
				return fmt.Errorf("empty error for %q", c.Text)
			}
		}
		o.Label("%s", kind)
		return nil
	}
	o.NonTrivial()
	o.Label("compiled")
	g := fromParserGrammar(p.Grammar())
	exts := false
	g.walk(func(t *Term) { exts = exts || t.K == "ext" })
	if exts || strayAt(g) {
		o.Label("not-parsed")
		return nil
	}
	for _, r := range g {
		if strings.HasPrefix(r.Name, ".") {
			continue
		}
		for _, in := range c.Inputs {
			if implBig(g, len(in)) {
				continue
			}
			if err := parseOnce(p, r.Name, string(in)); err != nil {
				return err
			}
		}
	}
	return nil
}

// implBig says whether parsing could take too long, or need too much memory.
func implBig(g Grammar, n int) bool {
	big := false
	g.walk(func(t *Term) { big = big || t.K == "quant" && t.Min > 1000 })
	return big
}

// parseOnce parses, and turns only internal errors into failures.
func parseOnce(p parser.Parsers, rule, input string) error {
	_, err := p.Parse(parser.Rule(rule), parser.NewScanner(input))
	var internal interface{ RuntimeError() }
	if errors.As(err, &internal) {
		return fmt.Errorf("internal error: %v", err)
	}
	return nil
}

// --- planted mistakes -------------------------------------------------------------

// MistakeCase is a text with one mistake.
type MistakeCase struct {
	Kind     string `json:"kind"`
	Mention  string `json:"mention"` // what the error must mention
	Text     string `json:"text"`
	Replaced bool   `json:"replaced,omitempty"` // whether the mistake is in place of a term
}

// mistakeCtx is a grammar with macros, as a list of bodies.
type mistakeCtx struct {
	t  *rapid.T
	ms []Macro
	g  Grammar

	replaced bool // whether something was planted in place of a term
}

// plant puts x somewhere: in place of a term, or in a sequence with it. With
// outside, this isn't in a term with a nested grammar.
func (m *mistakeCtx) plant(x *Term, outside bool) bool {
	type site struct {
		body int
		t    *Term
	}
	var sites []site
	var visit func(b int, t *Term, root bool)
	visit = func(b int, t *Term, root bool) {
		if t.K == "scope" && outside {
			return
		}
		if t.K != "stack" && !(t.K == "rule" && t.S == "@") && t.S != "unused" {
			sites = append(sites, site{b, t})
		}
		for _, k := range t.T {
			visit(b, k, false)
		}
		for _, r := range t.G {
			visit(b, r.T, true)
		}
	}
	for i := range m.ms {
		visit(i, m.ms[i].Body, true)
	}
	for i, r := range m.g {
		if r.Name != ".wrapRE" {
			visit(len(m.ms)+i, r.T, true)
		}
	}
	if len(sites) == 0 {
		return false
	}
	s := pick(m.t, sites, "site")
	old := *s.t
	switch uni(m.t, 6, "how") {
	case 0:
		m.replaced = true
		*s.t = *x
	case 1:
		*s.t = *seqOf(x, &old)
	case 2:
		*s.t = *altOf(&old, seqOf(&old, x))
	case 3:
		*s.t = *delim(&old, x, 0, pct(m.t, 30, "lead"), false)
	case 4:
		*s.t = *seqOf(&old, look(x))
	default:
		*s.t = *seqOf(&old, quant(x, 0, 1))
	}
	// A sequence within a sequence needs no care: the printer adds parentheses.
	return true
}

var badREs = []string{`(a`, `a)`, `[z-a]`, `a**`, `(?P<n`, `*a`, `\y`, `a{3,2}`, `\Qa`, `(?<!a)b`, `a{1001}`}
var badStrs = []string{`"\q"`, `'\xZZ'`, `"\x4"`, `"\uD800"`, `"\u12"`, `"\U00110000"`, `"\400"`, `'\08'`, `"\xff"`, `"\"\xc3"`, `'a\` + "`" + `b'`}

var mistakeKinds = []string{
	"undefined", "undefined", "duprule", "dupnested", "clash", "samename", "minmax", "badre", "badstr", "baddefault", "unknownmacro", "argcount",
	"selfmacro", "leftrec", "leftrec", "leftrec", "leftrec", "misplacedstack", "wrap", "argclash", "none", "dupmacro", "hugecount",
}

func genMistake(t *rapid.T) MistakeCase {
	for i := 0; ; i++ {
		if c, ok := tryMistake(t); ok {
			return c
		}
		if i == 20 {
			return MistakeCase{Kind: "none", Text: `a -> "a";`}
		}
	}
}

// raw is a token that is printed as it is.
func raw(s string) *Term { return &Term{K: "raw", S: s} }

func tryMistake(t *rapid.T) (MistakeCase, bool) {
	c := MistakeCase{Kind: pick(t, mistakeKinds, "mistake")}
	o := textOpts()
	o.bigQuants = pct(t, 40, "bigquants")
	g := genTextGrammar(t, o)
	m := &mistakeCtx{t: t, g: g.clone()}
	// What isn't expanded cannot be misplaced.
	if c.Kind != "misplacedstack" && pct(t, 50, "macros") {
		for i := rng(t, 1, 2, "n"); i > 0; i-- {
			m.ms, m.g = extractMacro(t, m.ms, m.g)
		}
	}
	some := func() *Rule { // a rule of the main grammar
		for {
			r := &m.g[uni(t, len(m.g), "rule")]
			if r.Name != ".wrapRE" {
				return r
			}
		}
	}
	calls := func() (out []*Term) {
		for i := range m.ms {
			m.ms[i].Body.walk(func(t *Term) {
				if t.K == "call" {
					out = append(out, t)
				}
			})
		}
		m.g.walk(func(t *Term) {
			if t.K == "call" {
				out = append(out, t)
			}
		})
		return out
	}
	ok := true
	switch c.Kind {
	case "none":
	case "undefined":
		c.Mention = "no_such_rule"
		ok = m.plant(ruleRef(c.Mention), false)
		c.Replaced = m.replaced
	case "duprule":
		r := some()
		c.Mention = r.Name
		dup := Rule{r.Name, r.T}
		if pct(t, 50, "other") {
			dup.T = lit("other")
		}
		m.g = append(m.g, dup)
	case "dupmacro":
		if len(m.ms) == 0 {
			return c, false
		}
		d := pick(t, m.ms, "macro")
		c.Mention = d.Name
		if pct(t, 50, "asrule") {
			m.g = append(m.g, Rule{d.Name, lit("other")})
		} else {
			m.ms = append(m.ms, d)
		}
	case "dupnested":
		var scopes []*Term
		visit := func(t *Term) {
			if t.K == "scope" {
				scopes = append(scopes, t)
			}
		}
		m.g.walk(visit)
		for _, d := range m.ms {
			d.Body.walk(visit)
		}
		if len(scopes) == 0 {
			return c, false
		}
		s := pick(t, scopes, "scope")
		r := s.G[uni(t, len(s.G), "nested")]
		c.Mention = r.Name
		s.G = append(s.G, Rule{r.Name, lit("other")})
	case "clash":
		r := some()
		c.Mention = r.Name
		ok = m.plant(seqOf(named(r.Name, lit("clash")), lit("t")), true)
	case "samename":
		c.Mention = "dup_1"
		// In parentheses, the names would not be of the same sequence.
		between := pick(t, []string{" ", "* ", "? \"t\" ", " \"t\" ", " (y=\"t\" | a=\"b\")+ "}, "between")
		second := pick(t, []string{`"p"`, `[a-z]`, `()`, `("p" | "q")+`, `(?= "p")`}, "second")
		ok = m.plant(raw(`(dup_1="p"`+between+`dup_1=`+second+`)`), true)
	case "minmax":
		hi := rng(t, 1, 12, "max")
		lo := hi + rng(t, 1, 10, "over")
		c.Mention = fmt.Sprint(lo)
		ok = m.plant(quant(lit("q"), lo, hi), false)
	case "hugecount":
		c.Mention = "99999999999999999999"
		ok = m.plant(raw(pick(t, []string{`("q"{99999999999999999999,})`, `("q"{,99999999999999999999})`, `("q"{1,99999999999999999999})`}, "huge")), false)
	case "badre":
		r := pick(t, badREs, "badre")
		c.Mention = r
		ok = m.plant(raw("/{"+r+"}"), false)
	case "badstr":
		s := pick(t, badStrs, "badstr")
		c.Mention = "not valid"
		ok = m.plant(raw(s), false)
	case "baddefault":
		s := pick(t, badStrs, "badstr")
		c.Mention = "not valid"
		ok = m.plant(raw("(x=\"a\" %x="+s+")"), false)
	case "unknownmacro":
		c.Mention = "NoSuchMacro"
		name := "NoSuchMacro"
		if pct(t, 30, "rulecall") {
			name = some().Name
			c.Mention = name
		}
		call := &Term{K: "call", S: name}
		if pct(t, 50, "arg") {
			call.T = append(call.T, lit("x"))
		}
		ok = m.plant(call, false)
	case "argcount":
		cs := calls()
		if len(cs) == 0 {
			return c, false
		}
		call := pick(t, cs, "call")
		c.Mention = call.S
		if n := len(call.T); n > 0 && pct(t, 50, "fewer") {
			call.T = call.T[:n-1]
		} else {
			call.T = append(call.T, lit("extra"))
		}
	case "argclash":
		r := some()
		c.Mention = r.Name
		m.ms = append(m.ms, Macro{Name: "Clashing", Params: []string{r.Name}, Body: lit("x")})
	case "selfmacro":
		n := rng(t, 1, 3, "cycle")
		for i := 0; i < n; i++ {
			call := &Term{K: "call", S: fmt.Sprintf("Self%d", (i+1)%n)}
			body := seqOf(lit("x"), call)
			switch uni(t, 5, "wrap") {
			case 0:
				body = seqOf(lit("x"), quant(call, 0, 1))
			case 1:
				body = altOf(lit("x"), look(call))
			case 2:
				body = scoped(ruleRef("n1"), Grammar{{"n1", altOf(lit("x"), call)}})
			case 3:
				body = delim(lit("x"), call, 0, false, false)
			}
			m.ms = append(m.ms, Macro{Name: fmt.Sprintf("Self%d", i), Body: body})
		}
		c.Mention = "Self"
		if pct(t, 50, "used") {
			ok = m.plant(&Term{K: "call", S: "Self0"}, false)
		}
	case "misplacedstack":
		c.Mention = "stack"
		st := &Term{K: "stack", T: []*Term{delim(ruleRef("@"), lit("+"), 0, false, false), lit("n")}}
		ok = m.plant(st, false)
		// It may have become the whole of a rule, which is fine.
		for _, r := range m.g {
			if r.T.K == "stack" && r.T.String() == st.String() {
				return c, false
			}
		}
		fine := false
		m.g.walk(func(t *Term) {
			for _, r := range t.G {
				fine = fine || r.T.String() == st.String()
			}
		})
		for _, d := range m.ms {
			fine = fine || d.Body.String() == st.String()
			d.Body.walk(func(t *Term) {
				for _, r := range t.G {
					fine = fine || r.T.String() == st.String()
				}
			})
		}
		if fine {
			return c, false
		}
	case "wrap":
		c.Mention = "wrap"
		var out Grammar
		for _, r := range m.g {
			if r.Name != ".wrapRE" {
				out = append(out, r)
			}
		}
		bad := pick(t, []*Term{lit(" "), seqOf(re(`\s*()`), lit("x")), altOf(re(`\s*()`), lit("x")), quant(re(`\s*()`), 0, 1), seqOf(),
			re(`\s*`), altOf(lit("x"), re(`\s+`)), re(`(\s*)()`), re(`[()]`)}, "badwrap")
		w := Rule{".wrapRE", bad}
		m.g = append(out, w)
	case "leftrec":
		c.Mention = "Possible cycle"
		plantLeftRecursion(m)
	}
	if !ok {
		return c, false
	}
	c.Text = renderMacros(t, m.ms, m.g)
	return c, true
}

// plantLeftRecursion adds rules of which each can begin with the next, around a cycle.
func plantLeftRecursion(m *mistakeCtx) {
	t := m.t
	prefix := func() *Term { // something that may match nothing
		switch uni(t, 9, "prefix") {
		case 0:
			return quant(lit("p"), 0, 1)
		case 1:
			return quant(re("[a-z]"), 0, 0)
		case 2:
			return re(`a*`)
		case 3:
			return look(lit("p"))
		case 4:
			return seqOf()
		case 5:
			return ruleRef("lr_nul")
		case 6:
			return altOf(lit("p"), seqOf())
		case 7:
			return delim(quant(lit("p"), 0, 1), lit(","), 0, pct(t, 50, "lead"), false)
		default:
			return seqOf(quant(lit("p"), 0, 1), re(`b?`))
		}
	}
	usesNul := false
	n := rng(t, 1, 3, "cycle")
	name := func(i int) string { return fmt.Sprintf("lr_%d", i%n) }
	var rules Grammar
	for i := 0; i < n; i++ {
		x := ruleRef(name(i + 1))
		for k := uni(t, 3, "wraps"); k > 0; k-- {
			switch uni(t, 9, "wrap") {
			case 0:
				x = altOf(lit("s"), x)
			case 1:
				x = quant(x, rng(t, 0, 1, "min"), 0)
			case 2:
				x = delim(x, lit(","), rng(t, -1, 1, "assoc"), false, pct(t, 50, "trail"))
			case 3:
				x = delim(lit("s"), x, 0, true, false) // a leading separator
			case 4:
				x = delim(quant(lit("s"), 0, 1), x, 0, false, false)
			case 5:
				x = seqOf(named("y", x), lit("z"))
			case 6:
				x = scoped(x, Grammar{{"n1", lit("n")}})
			case 7:
				x = seqOf(look(seqOf(x)), lit("s"))
			case 8:
				x = scoped(ruleRef("n1"), Grammar{{"n1", seqOf(quant(lit("n"), 0, 1), x)}})
			}
		}
		body := seqOf(x, lit("t"))
		if pct(t, 50, "prefixed") {
			p := prefix()
			body = seqOf(p, x, lit("t"))
			usesNul = usesNul || p.K == "rule"
		}
		if pct(t, 40, "orelse") {
			body = altOf(body, lit("e"))
		}
		rules = append(rules, Rule{name(i), body})
	}
	switch uni(t, 5, "place") {
	case 0: // in a nested grammar
		m.g = append(m.g, Rule{"lr_top", scoped(seqOf(lit("t"), quant(ruleRef("lr_0"), 0, 1)), rules)})
	case 1: // through a macro
		m.ms = append(m.ms, Macro{Name: "LR", Params: []string{"lr_p"}, Body: seqOf(ruleRef("lr_p"), lit("m"))})
		rules[0].T = &Term{K: "call", S: "LR", T: []*Term{rules[0].T}}
		m.g = append(m.g, rules...)
	case 2: // through the last layer of a stack
		last := altOf(seqOf(prefixOf(pct(t, 50, "at")), ruleRef("@"), lit("!")), lit("v"))
		m.g = append(m.g, Rule{"lr_s", &Term{K: "stack", T: []*Term{delim(ruleRef("@"), lit("+"), rng(t, -1, 1, "assoc"), false, false), last}}})
		return
	default:
		m.g = append(m.g, rules...)
	}
	if usesNul {
		m.g = append(m.g, Rule{"lr_nul", quant(lit("q"), 0, 1)})
	}
}

func prefixOf(opt bool) *Term {
	if opt {
		return quant(lit("-"), 0, 1)
	}
	return seqOf()
}

func checkMistake(c MistakeCase, o *Obs) error {
	p, err := wbnf.Compile(c.Text, nil)
	o.Label("%s", c.Kind)
	if c.Kind == "none" {
		if err != nil {
			if strings.Contains(err.Error(), "Possible cycle") {
				return errDiscard // the check is conservative
			}
			return fmt.Errorf("%s\na valid grammar was rejected: %s", c.Text, clip(err.Error(), 400))
		}
		return nil
	}
	o.NonTrivial()
	if err == nil {
		return fmt.Errorf("%s\nthe mistake (%s, %s) went unnoticed: %v", c.Text, c.Kind, c.Mention, p.Grammar())
	}
	switch err.(type) {
	case parser.ParseError, parser.FatalError, parser.UnconsumedInputError:
		return fmt.Errorf("%s\na syntax error in place of a validation error (%s): %s", c.Text, c.Kind, clip(err.Error(), 300))
	}
	if c.Kind == "undefined" && c.Replaced && strings.Contains(err.Error(), "cycle") {
		return nil // what it replaced was all that kept a rule from being left-recursive
	}
	if !strings.Contains(err.Error(), c.Mention) {
		return fmt.Errorf("%s\nthe error doesn't mention %q: %s", c.Text, c.Mention, clip(err.Error(), 400))
	}
	return nil
}

func init() {
	register("C11", "A case is a text made of tokens of the notation, of random bytes, or of a mutated or spliced valid grammar, "+
		"and three short inputs, with which each rule of a text that compiles is tried. It is non-trivial if the text compiles or has no syntax error.",
		opts{part: "fuzz", quick: 60000, thorough: 3000000}, genFuzzCase, checkFuzz)
	register("C11", "A case is a grammar text with one planted mistake of a known kind in a random place (also in macros, nested grammars, "+
		"lookaheads and separators), whose error must be a validation error that mentions the culprit; or none, which must compile. It is non-trivial if there is a mistake.",
		opts{part: "mistakes", quick: 16000, thorough: 1000000}, genMistake, checkMistake)
}
