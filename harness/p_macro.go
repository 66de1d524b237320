package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// Macro is a macro definition. Its parameters occur as rules in the body.
type Macro struct {
	Name   string   `json:"name"`
	Params []string `json:"params,omitempty"`
	Body   *Term    `json:"body"`
}

func (p *printer) macro(m Macro) {
	p.emit(".macro", m.Name, "(")
	for i, a := range m.Params {
		if i > 0 {
			p.emit(",")
		}
		p.emit(a)
	}
	p.emit(")", "{")
	p.term(m.Body, levelStack)
	p.emit("}")
	if p.pct(30, "semicolon") {
		p.emit(";")
	}
}

func (p *printer) call(t *Term) {
	p.emit("%!", t.S, "(")
	for i, a := range t.T {
		if i > 0 {
			p.emit(",")
		}
		// A separator must not be taken for the comma after a separated list.
		plain := true
		a.walk(func(t *Term) { plain = plain && t.K != "delim" })
		if plain {
			p.term(a, levelStack)
		} else {
			p.term(a, levelAtom)
		}
	}
	p.emit(")")
}

// renderMacros renders macros and a grammar that uses them.
func renderMacros(t *rapid.T, ms []Macro, g Grammar) string {
	p := &printer{t: t}
	ms = append([]Macro{}, ms...)
	for _, r := range g {
		for len(ms) > 0 && p.pct(50, "macrohere") {
			p.macro(ms[0])
			ms = ms[1:]
		}
		p.grammar(Grammar{r})
	}
	for _, m := range ms {
		p.macro(m)
	}
	return p.text()
}

// freeNames are the nested rules that a term refers to but doesn't define.
func freeNames(t *Term, bound map[string]bool, out map[string]bool) {
	if t.K == "rule" && !bound[t.S] && contains(nestedRulePool, t.S) {
		out[t.S] = true
	}
	if t.K == "scope" {
		b := map[string]bool{}
		for k := range bound {
			b[k] = true
		}
		for _, r := range t.G {
			b[r.Name] = true
		}
		bound = b
	}
	for _, k := range t.T {
		freeNames(k, bound, out)
	}
	for _, r := range t.G {
		freeNames(r.T, bound, out)
	}
}

// extractMacro replaces a part of the grammar or of a macro with a call of a new macro.
func extractMacro(t *rapid.T, ms []Macro, g Grammar) ([]Macro, Grammar) {
	// The bodies of all macros and rules, in a single list.
	var all Grammar
	for _, m := range ms {
		all = append(all, Rule{"macro", m.Body})
	}
	for _, r := range g {
		if r.Name != ".wrapRE" {
			all = append(all, r)
		}
	}
	n := 0
	all.walk(func(*Term) { n++ })
	params := map[string]bool{}
	for _, m := range ms {
		for _, p := range m.Params {
			params[p] = true
		}
	}
	hasParam := func(t *Term) bool {
		has := false
		t.walk(func(t *Term) { has = has || t.K == "rule" && params[t.S] })
		return has
	}
	target := uni(t, n, "target")
	name := fmt.Sprintf("M%d", len(ms)+1)
	var made *Macro
	i := -1
	// mapTerm visits bottom-up.
	replaced := all.mapTerms(func(x *Term) *Term {
		if i++; i != target {
			return x
		}
		m := Macro{Name: name, Body: x.clone()}
		call := &Term{K: "call", S: name}
		addParam := func(arg *Term) {
			p := fmt.Sprintf("%s%d", strings.ToLower(name), len(m.Params)+1)
			m.Params = append(m.Params, p)
			params[p] = true
			call.T = append(call.T, arg)
			want := arg.String()
			m.Body = m.Body.mapTerm(func(y *Term) *Term {
				if y.String() == want {
					return ruleRef(p)
				}
				return y
			})
		}
		for k := uni(t, 4, "params"); k > 0; k-- {
			var subs []*Term
			m.Body.walk(func(y *Term) {
				free := map[string]bool{}
				freeNames(y, nil, free)
				if y != m.Body && !hasParam(y) && y.K != "stack" && len(free) == 0 {
					subs = append(subs, y)
				}
			})
			if len(subs) == 0 {
				break
			}
			addParam(pick(t, subs, "arg").clone())
		}
		// What the body needs of nested grammars around the call must be an argument.
		free := map[string]bool{}
		freeNames(m.Body, nil, free)
		var names []string
		for f := range free {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			// A nested grammar within may define the same name, so this is only
			// done where it doesn't.
			defines := false
			m.Body.walk(func(y *Term) {
				for _, r := range y.G {
					defines = defines || r.Name == f
				}
			})
			if defines {
				return x
			}
			addParam(ruleRef(f))
		}
		if hasOuterParam(m.Body, m.Params, params) {
			return x
		}
		if pct(t, 15, "unused") {
			p := strings.ToLower(name) + "unused"
			m.Params = append(m.Params, p)
			call.T = append(call.T, lit("unused"))
		}
		made = &m
		return call
	})
	if made == nil {
		return ms, g
	}
	var outM []Macro
	for j, m := range ms {
		m.Body = replaced[j].T
		outM = append(outM, m)
	}
	k := len(ms)
	var outG Grammar
	for _, r := range g {
		if r.Name != ".wrapRE" {
			r.T = replaced[k].T
			k++
		}
		outG = append(outG, r)
	}
	return append(outM, *made), outG
}

// hasOuterParam says whether the body uses the parameter of another macro, from
// whose body it was taken.
func hasOuterParam(body *Term, own []string, params map[string]bool) bool {
	has := false
	body.walk(func(t *Term) { has = has || t.K == "rule" && params[t.S] && !contains(own, t.S) })
	return has
}

// mayRecur says whether some rule refers to itself, perhaps through others, if
// scopes are disregarded.
func mayRecur(g Grammar, ms []Macro) bool {
	refs := map[string]map[string]bool{}
	var add func(g Grammar)
	add = func(g Grammar) {
		for _, r := range g {
			if refs[r.Name] == nil {
				refs[r.Name] = map[string]bool{}
			}
			r.T.walk(func(t *Term) {
				if t.K == "rule" {
					refs[r.Name][t.S] = true
				}
				if t.K == "scope" {
					add(t.G)
				}
			})
		}
	}
	add(g)
	for _, m := range ms {
		add(Grammar{{m.Name + "()", m.Body}})
	}
	var reaches func(from, to string, seen map[string]bool) bool
	reaches = func(from, to string, seen map[string]bool) bool {
		for k := range refs[from] {
			if k == to {
				return true
			}
			if !seen[k] {
				seen[k] = true
				if reaches(k, to, seen) {
					return true
				}
			}
		}
		return false
	}
	for r := range refs {
		if reaches(r, r, map[string]bool{}) {
			return true
		}
	}
	return false
}

// MacroCase is a grammar, and a text of it that uses macros.
type MacroCase struct {
	G      Grammar `json:"grammar"`
	Macros []Macro `json:"macros"`
	Calls  Grammar `json:"calls"`
	Text   string  `json:"text"`
}

func genMacros(t *rapid.T) MacroCase {
	o := textOpts()
	o.simpleLits = pct(t, 30, "simple")
	g := genTextGrammar(t, o)
	c := MacroCase{G: g, Calls: g}
	for i := rng(t, 1, 4, "macros"); i > 0; i-- {
		c.Macros, c.Calls = extractMacro(t, c.Macros, c.Calls)
	}
	if pct(t, 70, "rename") {
		c.Macros = renameParams(t, c.Macros, c.G)
	}
	c.Text = renderMacros(t, c.Macros, c.Calls)
	return c
}

// paramPool has names that differ from those of rules in their case only.
var paramPool = []string{"P", "p", "arg", "R", "EXPR", "Stmt_2", "t", "Q", "U", "K", "N1", "N2", "r1", "rr"}

// renameParams gives the parameters of macros names that other macros use, too.
func renameParams(t *rapid.T, ms []Macro, g Grammar) []Macro {
	var pool []string
	size := rng(t, 5, len(paramPool), "pool")
	for _, name := range rapid.Permutation(paramPool).Draw(t, "params") {
		used := false
		for _, r := range g {
			used = used || r.Name == name
		}
		if !used && len(pool) < size {
			pool = append(pool, name)
		}
	}
	var out []Macro
	for _, m := range ms {
		names := rapid.Permutation(pool).Draw(t, "names")
		if len(m.Params) > len(names) {
			return ms
		}
		names = names[:len(m.Params)]
		to := map[string]string{}
		for i, p := range m.Params {
			to[p] = names[i]
		}
		m.Params = names
		m.Body = m.Body.mapTerm(func(x *Term) *Term {
			if name, has := to[x.S]; has && x.K == "rule" {
				return ruleRef(name)
			}
			return x
		})
		out = append(out, m)
	}
	return out
}

func checkMacros(c MacroCase, o *Obs) error {
	p, err := wbnf.Compile(c.Text, nil)
	if err != nil && strings.Contains(err.Error(), "Possible cycle") && mayRecur(c.Calls, c.Macros) {
		// The check for left recursion is conservative: it takes the parameters of
		// macros, and rules that come first, for terms that may be empty.
		return errDiscard
	}
	if err != nil {
		return fmt.Errorf("%s\nof: %v\nerror: %s", c.Text, c.G, clip(err.Error(), 400))
	}
	got := canonGrammar(fromParserGrammar(p.Grammar()))
	if want := canonGrammar(expectedGrammar(c.G)); got != want {
		return fmt.Errorf("%s\nwant: %v\ngot:  %v", c.Text, want, got)
	}
	nested, calls := false, 0
	for _, m := range c.Macros {
		m.Body.walk(func(t *Term) { nested = nested || t.K == "call" })
		if len(m.Params) > 0 {
			o.NonTrivial()
		}
		o.Label("params=%d", len(m.Params))
	}
	c.Calls.walk(func(t *Term) {
		if t.K == "call" {
			calls++
		}
		if t.K == "scope" || t.K == "look" {
			t.walk(func(x *Term) {
				if x.K == "call" {
					o.Label("in-%s", t.K)
				}
			})
		}
	})
	if nested {
		o.Label("nested")
	}
	return nil
}

// --- imports (C13) ---------------------------------------------------------------------

// ImportFile is a file of a grammar that consists of several.
type ImportFile struct {
	Dir     string   `json:"dir"`
	Name    string   `json:"name"`
	Rules   Grammar  `json:"rules"`
	Imports []string `json:"imports"` // paths as they are written
	Text    string   `json:"text"`
}

func (f ImportFile) path() string { return filepath.Join(f.Dir, f.Name) }

// ImportCase is a grammar and its distribution over files, of which the first is
// the root.
type ImportCase struct {
	G     Grammar      `json:"grammar"`
	Files []ImportFile `json:"files"`
	Fault string       `json:"fault"`
	At    int          `json:"at"`  // the file with the fault
	Cwd   bool         `json:"cwd"` // paths are relative to the working directory, not to the file
	Dots  bool         `json:"dots"`
}

var importDirs = []string{".", "sub", "sub/deep", "lib.d"}
var importNames = []string{"a.wbnf", "b", "C3.wbnf", "d.e.wbnf", "x9", "common.wbnf"}

func genImports(t *rapid.T) ImportCase { return genImportsIn(t, pct(t, 25, "cwd")) }

func genImportsIn(t *rapid.T, cwd bool) ImportCase {
	o := textOpts()
	o.rules, o.depth = 6, 2
	c := ImportCase{G: genTextGrammar(t, o), Cwd: cwd, Dots: !cwd && pct(t, 25, "dots")}
	n := rng(t, 2, 6, "files")
	for i := 0; i < n; i++ {
		dir := pick(t, importDirs, "dir")
		if i == 0 {
			dir = "."
		}
		name := importNames[i]
		if i > 0 && pct(t, 40, "samename") {
			// A file in another directory may have the same name.
			other := pick(t, c.Files, "other").Name
			taken := false
			for _, f := range c.Files {
				taken = taken || f.Dir == dir && f.Name == other
			}
			if !taken {
				name = other
			}
		}
		c.Files = append(c.Files, ImportFile{Dir: dir, Name: name})
	}
	for _, r := range c.G {
		f := &c.Files[uni(t, n, "file")]
		f.Rules = append(f.Rules, r)
	}
	ref := func(from, to int) string {
		if c.Cwd {
			return c.Files[to].path()
		}
		rel, err := filepath.Rel(c.Files[from].Dir, c.Files[to].path())
		if err != nil {
			panic(err)
		}
		if pct(t, 20, "dot") {
			rel = "./" + rel
		}
		return rel
	}
	parents := make([]int, n)
	for i := 1; i < n; i++ {
		parents[i] = uni(t, i, "parent")
		f := &c.Files[parents[i]]
		f.Imports = append(f.Imports, ref(parents[i], i))
	}
	// An empty file is not a grammar.
	for i := range c.Files {
		if f := &c.Files[i]; len(f.Rules)+len(f.Imports) == 0 {
			r := Rule{fmt.Sprintf("extra%d", i), lit("extra")}
			f.Rules = append(f.Rules, r)
			c.G = append(c.G, r)
		}
	}
	if pct(t, 55, "faulty") {
		c.Fault = pick(t, []string{"cycle", "cycle", "missing", "syntax", "twice", "directory", "undefined"}, "fault")
		c.At = 1 + uni(t, n-1, "at")
		switch f := &c.Files[c.At]; c.Fault {
		case "cycle":
			// It imports a file that is being imported, possibly itself.
			up := c.At
			for parents[up] != 0 && pct(t, 60, "up") {
				up = parents[up]
			}
			f.Imports = append(f.Imports, ref(c.At, up))
		case "twice":
			if len(f.Rules) == 0 {
				r := Rule{"twice", lit("twice")}
				f.Rules = append(f.Rules, r)
				c.G = append(c.G, r)
			}
			c.Files[0].Imports = append(c.Files[0].Imports, ref(0, c.At))
		case "undefined":
			f.Rules = append(f.Rules, Rule{"bad", seqOf(lit("bad"), ruleRef("nosuchrule"))})
		}
	}
	for i := range c.Files {
		f := &c.Files[i]
		p := &printer{t: t}
		imports := f.Imports
		emit := func() {
			p.emit(".import", imports[0])
			if p.pct(30, "semicolon") {
				p.emit(";")
			}
			imports = imports[1:]
		}
		for _, r := range f.Rules {
			for len(imports) > 0 && p.pct(60, "here") {
				emit()
			}
			p.grammar(Grammar{r})
		}
		for len(imports) > 0 {
			emit()
		}
		f.Text = p.text()
		if c.Fault == "syntax" && i == c.At {
			f.Text += pick(t, []string{"\nx -> ", "\n)", "\nx;", "\n-> y;"}, "garbage")
		}
	}
	return c
}

type testResolver struct {
	base  string
	dots  bool // whether the paths have superfluous parts
	calls []string
}

func (r *testResolver) Resolve(from, path string) string {
	r.calls = append(r.calls, from+" "+path)
	dir := r.base
	if from != "" {
		dir = filepath.Dir(from)
	}
	if r.dots {
		return dir + "/.//" + path
	}
	return filepath.Join(dir, path)
}

func checkImports(c ImportCase, o *Obs) error {
	scratch := scratchDir()
	if scratch == "" {
		scratch = os.TempDir()
	}
	dir, err := os.MkdirTemp(scratch, "import-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i, f := range c.Files {
		file := filepath.Join(dir, f.path())
		if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
			panic(err)
		}
		switch {
		case i == 0, c.Fault == "missing" && i == c.At:
			continue
		case c.Fault == "directory" && i == c.At:
			if err := os.MkdirAll(file, 0o755); err != nil {
				panic(err)
			}
			continue
		}
		if err := os.WriteFile(file, []byte(f.Text), 0o644); err != nil {
			panic(err)
		}
	}
	var resolver wbnf.ImportResolver
	tr := &testResolver{base: dir, dots: c.Dots}
	if c.Cwd {
		old, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(old) }()
	} else {
		resolver = tr
	}
	describe := func() string {
		var sb strings.Builder
		for _, f := range c.Files {
			fmt.Fprintf(&sb, "--- %s\n%s\n", f.path(), f.Text)
		}
		return sb.String()
	}
	p, err := wbnf.Compile(c.Files[0].Text, resolver)
	o.Label("fault=%s", c.Fault)
	if len(c.Files) > 2 || c.Fault != "" {
		o.NonTrivial()
	}
	switch c.Fault {
	case "", "cycle":
	default:
		if err == nil {
			return fmt.Errorf("%sno error (%s in %s)", describe(), c.Fault, c.Files[c.At].path())
		}
		want := map[string]string{
			"missing": c.Files[c.At].Name, "directory": c.Files[c.At].Name, "undefined": "nosuchrule",
		}[c.Fault]
		if c.Fault == "twice" {
			want = c.Files[c.At].Rules[0].Name
		}
		if !strings.Contains(err.Error(), want) {
			return fmt.Errorf("%sthe error (%s in %s) doesn't mention %s: %s", describe(), c.Fault, c.Files[c.At].path(), want, clip(err.Error(), 300))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%serror: %s", describe(), clip(err.Error(), 300))
	}
	got := canonGrammar(fromParserGrammar(p.Grammar()))
	if want := canonGrammar(expectedGrammar(c.G)); got != want {
		return fmt.Errorf("%swant: %v\ngot:  %v", describe(), want, got)
	}
	if !c.Cwd {
		// Each import is resolved once, relative to the file that it is in.
		var want []string
		for i, f := range c.Files {
			from := ""
			if i > 0 {
				from = filepath.Join(dir, f.path())
			}
			for _, imp := range f.Imports {
				want = append(want, from+" "+filepath.Clean(imp))
			}
		}
		got := []string{}
		for _, call := range tr.calls {
			from, path, _ := strings.Cut(call, " ")
			got = append(got, from+" "+filepath.Clean(path))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("%sresolved imports: %q\nwant: %q", describe(), got, want)
		}
	}
	return nil
}

func init() {
	register("C12", "A case is a grammar, in which up to 4 parts (also parts of macros and of arguments) were replaced by "+
		"macro calls. It is non-trivial if a macro has parameters.",
		opts{part: "expand", quick: 25000, thorough: 2000000}, genMacros, checkMacros)
	register("C13", "A case is a grammar, distributed over up to 6 files in several directories that import each other, "+
		"possibly in a cycle, or with a missing, invalid, or doubly imported file. It is non-trivial if there are at least "+
		"3 files or a fault.",
		opts{part: "files", quick: 12000, thorough: 800000}, genImports, checkImports)
}
