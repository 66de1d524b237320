package main

import (
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
	"verif/drive"
)

// --- generated code (C20, C22) -----------------------------------------------------

//go:embed drive/*.go go.mod go.sum
var driveFiles embed.FS

// generate is what the command line tool does.
func generate(p parser.Parsers, start, pkg string) (string, error) {
	tree, ok := p.Node().(wbnf.GrammarNode)
	if !ok {
		return "", fmt.Errorf("no tree: %T", p.Node())
	}
	types := codegen.MakeTypes(tree)
	var buf bytes.Buffer
	if err := codegen.Write(&buf, codegen.TemplateData{
		CommandLine:       "gen",
		PackageName:       pkg,
		StartRule:         codegen.IdentName(start),
		StartRuleTypeName: codegen.GoTypeName(start),
		Grammar:           codegen.MakeGrammarString(p.Grammar()),
		MiddleSection:     append(types.Get(), codegen.GetVisitorWriter(types.Types(), start)),
	}); err != nil {
		return "", err
	}
	out, err := format.Source(buf.Bytes())
	if err != nil {
		return "", fmt.Errorf("not Go: %w", err)
	}
	return string(out), nil
}

// CodeCase is a batch of grammars, which are compiled into one program.
type CodeCase struct {
	Items []drive.Item `json:"items"`
}

// goNames are names whose Go names are different from each other, also when they are joined.
var goNames = []string{"alpha", "beta_x", "GAMMA", "deltaQ", "eps1", "_zeta", "Eta", "theta_", "type", "func", "KA", "lambda_2", "nu__1"}

// renamed gives everything names that Go can tell apart. Rules are told apart from
// other names, and those of nested grammars from those of the enclosing ones.
func renamed(t *rapid.T, g Grammar, pool []string) Grammar {
	avail := append([]string{}, pool...)
	for i := len(avail) - 1; i > 0; i-- {
		j := uni(t, i+1, "shuffle")
		avail[i], avail[j] = avail[j], avail[i]
	}
	n := 0
	fresh := func() string {
		n++
		if n <= len(avail) {
			return avail[n-1]
		}
		return fmt.Sprintf("more%s", strings.Repeat("z", n-len(avail)))
	}
	var rename func(t *Term, rules, names map[string]string) *Term
	extend := func(g Grammar, rules map[string]string) map[string]string {
		inner := map[string]string{}
		for k, v := range rules {
			inner[k] = v
		}
		for _, r := range g {
			if r.Name != ".wrapRE" {
				inner[r.Name] = fresh()
			}
		}
		return inner
	}
	grammar := func(g Grammar, rules map[string]string) Grammar {
		var out Grammar
		for _, r := range g {
			if r.Name == ".wrapRE" {
				out = append(out, r)
				continue
			}
			out = append(out, Rule{rules[r.Name], rename(r.T, rules, map[string]string{})})
		}
		return out
	}
	rename = func(t *Term, rules, names map[string]string) *Term {
		c := *t
		if c.K == "scope" {
			rules = extend(t.G, rules)
			c.G = grammar(t.G, rules)
		}
		switch c.K {
		case "named", "ref":
			if v, ok := rules[c.S]; ok && c.K == "ref" && names[c.S] == "" {
				c.S = v // a reference to what a rule matched
				break
			}
			if names[c.S] == "" {
				names[c.S] = fresh()
			}
			c.S = names[c.S]
		case "rule":
			if v, ok := rules[c.S]; ok {
				c.S = v
			}
		}
		c.T = nil
		for _, k := range t.T {
			c.T = append(c.T, rename(k, rules, names))
		}
		return &c
	}
	return grammar(g, extend(g, nil))
}

func genCodeItem(t *rapid.T) drive.Item {
	var it drive.Item
	for i := 0; i < 10; i++ {
		g := genTextGrammar(t, textOpts())
		if pct(t, 90, "not-associative") {
			g = g.mapTerms(func(t *Term) *Term {
				if t.K == "delim" {
					t.Assoc = 0
					if k := t.T[1].K; k != "s" && k != "named" {
						t.T[1] = named("sep", t.T[1])
					}
				}
				return t
			}).normal()
		}
		g = renamed(t, g, goNames)
		if why := codegenLimits(g); why != "" && i < 9 {
			continue
		} else if why != "" {
			g = Grammar{{"alpha", seqOf(lit("a"), named("beta", lit("b")))}}
		}
		it.Start = g[0].Name
		it.Text = plainText(g)
		g.walk(func(t *Term) {
			// The generator ignores such separators.
			it.Tokens = it.Tokens || t.K == "delim" && t.T[1].K == "s"
		})
		for n := rng(t, 1, 3, "inputs"); n > 0; n-- {
			in := genAccepted(t, g, it.Start, 4)
			if _, ok := runModel(g, it.Start, in, nil); !ok {
				continue // it takes too long
			}
			it.Inputs = append(it.Inputs, in)
			p := drive.Plan{Skip: map[string]bool{}, Outcomes: map[int]int{}}
			for k := rng(t, 1, 3, "outcomes"); k > 0; k-- {
				p.Outcomes[uni(t, 40, "call")] = pick(t, []int{drive.ExitNode, drive.ExitNode, drive.Abort}, "outcome")
			}
			it.Plans = append(it.Plans, p)
		}
		return it
	}
	return it
}

// codegenLimits tells which known limitation of the generator a grammar runs into.
func codegenLimits(g Grammar) string {
	why := ""
	// What a name stands for, in each type. All that the name holds should be of one kind.
	kinds := map[string]string{}
	kind := func(path, name, k string) {
		key := path + "/" + name
		if was, ok := kinds[key]; ok && was != k {
			why = "mixed"
		}
		kinds[key] = k
	}
	// The AST of a tree that is a mere token holds it without a name, whatever the grammar calls it.
	bare := func(g Grammar, t *Term) {
		for i := 0; i < 20; i++ {
			switch t.K {
			case "s", "re":
				if i > 0 {
					why = "bare"
				}
				return
			case "ref":
				why = "bare"
				return
			case "named", "cut":
				t = t.T[0]
			case "scope":
				g = append(append(Grammar{}, t.G...), g...)
				t = t.T[0]
			case "rule":
				if t = g.get(t.S); t == nil {
					return
				}
			default:
				return
			}
		}
	}
	var walk func(path string, t *Term, sep bool)
	walk = func(path string, t *Term, sep bool) {
		switch t.K {
		case "rule":
			kind(path, t.S, "rule "+t.S)
			return
		case "ref":
			kind(path, t.S, "token")
			return
		case "named":
			switch k := t.T[0]; k.K {
			case "s", "re", "cut":
				kind(path, t.S, "token")
			case "ref":
				why = "bare"
			case "rule":
				kind(path, t.S, "rule "+k.S)
				if sep {
					why = "sep"
				}
			default:
				kind(path, t.S, "type")
				walk(path+"/"+t.S, k, false)
			}
			return
		case "delim":
			if t.Assoc != 0 {
				why = "associative"
			}
			if !t.T[0].holds() {
				why = "sep"
			}
			walk(path, t.T[0], false)
			switch s := t.T[1]; s.K {
			case "s":
			case "named":
				walk(path, s, true)
			default:
				why = "sep"
			}
			return
		case "scope":
			for _, r := range t.G {
				bare(append(append(Grammar{}, t.G...), g...), r.T)
				walk(path+"/"+r.Name, r.T, false)
			}
		}
		for _, k := range t.T {
			walk(path, k, false)
		}
	}
	for _, r := range g {
		if r.Name != ".wrapRE" {
			bare(g, r.T)
			walk(r.Name, r.T, false)
		}
	}
	return why
}

// holds tells whether an AST can hold anything for a term.
func (t *Term) holds() bool {
	switch t.K {
	case "s", "re", "rule", "ref", "named":
		return true
	}
	for _, k := range t.T {
		if k.holds() {
			return true
		}
	}
	return false
}

func genCode(t *rapid.T) CodeCase {
	var c CodeCase
	for n := rng(t, 6, 14, "grammars"); n > 0; n-- {
		c.Items = append(c.Items, genCodeItem(t))
	}
	return c
}

func writeFile(dir, name, content string) error {
	file := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		return err
	}
	return os.WriteFile(file, []byte(content), 0o644)
}

var packageRE = regexp.MustCompile(`scratch/p(\d+)|(?:^|\s|/)p(\d+)/p\.go`)

// runCode builds the program of a batch, and runs it. A problem is either in an item
// or, with a negative index, in the check itself.
func runCode(c CodeCase) (results []drive.Result, item int, problem error) {
	dir, err := os.MkdirTemp(scratchDir(), "code")
	if err != nil {
		return nil, -1, err
	}
	defer os.RemoveAll(dir)
	var mod strings.Builder
	data, _ := driveFiles.ReadFile("go.mod")
	mod.WriteString(strings.Replace(string(data), "module verif", "module scratch", 1))
	sum, _ := driveFiles.ReadFile("go.sum")
	files := map[string]string{"go.mod": mod.String(), "go.sum": string(sum)}
	for _, name := range []string{"drive.go", "main.go"} {
		data, _ := driveFiles.ReadFile("drive/" + name)
		files["drive/"+name] = string(data)
	}
	var imports, pkgs strings.Builder
	for i, it := range c.Items {
		p, err := wbnf.Compile(it.Text, nil)
		if err != nil {
			return nil, -1, errDiscard
		}
		pkg := fmt.Sprintf("p%d", i)
		src, err := generate(p, it.Start, pkg)
		if err != nil {
			return nil, i, err
		}
		files[pkg+"/p.go"] = src
		fmt.Fprintf(&imports, "\t%q\n", "scratch/"+pkg)
		fmt.Fprintf(&pkgs, "\t\t{%[1]s.Grammar, func(s string) (any, error) { return %[1]s.ParseString(s) }, %[1]s.WalkerOps{}, %[1]s.NodeExiter, %[1]s.Aborter},\n", pkg)
	}
	files["main.go"] = "package main\n\nimport (\n" + imports.String() + "\t\"scratch/drive\"\n)\n\nfunc main() {\n\tdrive.Main([]drive.Package{\n" +
		pkgs.String() + "\t})\n}\n"
	data, _ = json.Marshal(c.Items)
	files["items.json"] = string(data)
	for name, content := range files {
		if err := writeFile(dir, name, content); err != nil {
			return nil, -1, err
		}
	}
	cmd := exec.Command("go", "build", "-o", "prog", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		if m := packageRE.FindStringSubmatch(string(out)); m != nil {
			i, _ := strconv.Atoi(m[1] + m[2])
			return nil, i, fmt.Errorf("the generated code doesn't compile: %s", clip(string(out), 600))
		}
		return nil, -1, fmt.Errorf("go build: %v: %s", err, out)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	run := exec.CommandContext(ctx, "./prog", "items.json")
	run.Dir = dir
	if out, err := run.CombinedOutput(); err != nil {
		return nil, -1, fmt.Errorf("the program failed: %v: %s", err, clip(string(out), 1000))
	}
	data, err = os.ReadFile(filepath.Join(dir, "items.json.out"))
	if err == nil {
		err = json.Unmarshal(data, &results)
	}
	return results, -1, err
}

func checkCode(c CodeCase, o *Obs) error {
	return codeProblem(c, o, func(r drive.Result) string { return r.Err })
}

func checkGeneratedWalk(c CodeCase, o *Obs) error {
	return codeProblem(c, o, func(r drive.Result) string { return r.Walk })
}

func codeProblem(c CodeCase, o *Obs, what func(drive.Result) string) error {
	results, i, err := runCode(c)
	if err == errDiscard {
		return err
	}
	if err != nil {
		if i >= 0 {
			return fmt.Errorf("grammar %d: %s\n%v", i, c.Items[i].Text, err)
		}
		return err
	}
	visits := 0
	for i, r := range results {
		if w := what(r); w != "" {
			return fmt.Errorf("grammar %d: %s\nstart %s\n%s", i, c.Items[i].Text, c.Items[i].Start, w)
		}
		visits += r.Visits
		if r.Full > 10 {
			o.Label("rich-grammar")
			o.NonTrivial()
		}
	}
	o.Label("grammars=%d", len(results))
	return nil
}

func init() {
	register("C20", "A case is a batch of 6 to 14 grammars with accepted inputs. Code is generated for all of them, compiled and run in a scratch module. "+
		"The generated grammars and the ASTs of their parsers are compared with those of the grammars compiled directly, and all accessors with the ASTs. "+
		"It is non-trivial if more than 10 accessors of some grammar return something.",
		opts{part: "generated", quick: 32, thorough: 2400, hangCPU: 60 * time.Second}, genCode, checkCode)
	register("C22", "A case is a batch of 6 to 14 grammars with accepted inputs and plans for walks. Code is generated, compiled and run, and the calls of "+
		"the generated walkers are compared with those of a traversal of the AST. It is non-trivial if some tree has many nodes.",
		opts{part: "generated", quick: 16, thorough: 1600, hangCPU: 60 * time.Second}, genCode, checkGeneratedWalk)
}
