package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"pgregory.net/rapid"
)

// --- the command line tool (C27) -----------------------------------------------------

// CLIFile is a file that the tool may read.
type CLIFile struct {
	Path string `json:"path"`
	Text Bytes  `json:"text"`
	Dir  bool   `json:"dir,omitempty"`
}

// CLICase is a run of the tool. Paths are relative to the scratch directory of the case.
type CLICase struct {
	Cmd     string    `json:"cmd"`
	Files   []CLIFile `json:"files"`
	Grammar string    `json:"grammar"` // a file that may be missing; "" for none
	Start   string    `json:"start"`
	Drop    string    `json:"drop,omitempty"` // a flag that is left out
	Add     string    `json:"add,omitempty"`  // another argument
	Cwd     string    `json:"cwd"`            // where it runs
	Abs     bool      `json:"abs"`            // paths are absolute
	Eq      bool      `json:"eq"`             // flags are written as --flag=value
	Order   []int     `json:"order"`          // of the flags
	Full    bool      `json:"full,omitempty"` // nothing can be written to the standard output

	// test
	Input   Bytes  `json:"input"`
	Via     string `json:"via"` // file, stdin, or -
	Tree    bool   `json:"tree,omitempty"`
	Verbose bool   `json:"verbose,omitempty"`

	// gen
	Pkg string `json:"pkg,omitempty"`
	Out string `json:"out,omitempty"` // a file, or - or "" for the standard output
}

func toolPath() string { return filepath.Join(scratchDir(), "wbnf-tool") }

// buildTool builds the tool from the working tree, once in a run.
func buildTool() error {
	if _, err := os.Stat(toolPath()); err == nil {
		return nil
	}
	tmp := fmt.Sprintf("%s.%d", toolPath(), os.Getpid())
	cmd := exec.Command("go", "build", "-o", tmp, ".")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the tool: %v\n%s", err, out)
	}
	return os.Rename(tmp, toolPath())
}

const (
	existing = "out/existing.go"
	before   = "// What was there before.\n"
)

func (c CLICase) place(path, dir string) string {
	if strings.HasPrefix(path, "/") {
		return path // a device
	}
	abs := filepath.Join(dir, path)
	if c.Abs {
		return abs
	}
	rel, err := filepath.Rel(filepath.Join(dir, c.Cwd), abs)
	if err != nil {
		panic(err)
	}
	return rel
}

func (c CLICase) args(dir string) []string {
	var flags [][]string
	flag := func(name, value string) {
		if c.Drop == name {
			return
		}
		if c.Eq {
			flags = append(flags, []string{"--" + name + "=" + value})
		} else {
			flags = append(flags, []string{"--" + name, value})
		}
	}
	if c.Grammar != "" {
		flag("grammar", c.place(c.Grammar, dir))
	}
	if c.Start != "" {
		flag("start", c.Start)
	}
	if strings.HasPrefix(c.Cmd, "t") {
		switch c.Via {
		case "file":
			flag("input", c.place("input", dir))
		case "-":
			flag("input", "-")
		}
		if c.Tree {
			flags = append(flags, []string{"--tree"})
		}
		if c.Verbose {
			flags = append(flags, []string{"-v"})
		}
	} else {
		flag("pkg", c.Pkg)
		switch c.Out {
		case "":
		case "-":
			flag("output", "-")
		default:
			flag("output", c.place(c.Out, dir))
		}
	}
	if c.Add != "" {
		flags = append(flags, []string{c.Add})
	}
	for i := range flags {
		if len(c.Order) > 0 {
			j := i + c.Order[i%len(c.Order)]%(len(flags)-i)
			flags[i], flags[j] = flags[j], flags[i]
		}
	}
	args := []string{c.Cmd}
	for _, f := range flags {
		args = append(args, f...)
	}
	return args
}

// expected is what a run of the tool should do.
type expected struct {
	ok   bool
	out  string // what is written to the standard output, if it succeeds
	file string // what is written to the output file
	says string // what a failing run has to say
	why  string
}

func failing(why string, says ...string) expected {
	return expected{why: why, says: strings.Join(says, "")}
}

// expect says what the library does.
func (c CLICase) expect(dir string) (e expected, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, err = failing(fmt.Sprint("panic: ", r)), nil
		}
	}()
	if c.Add != "" {
		return failing("unknown flag"), nil
	}
	base := func(path string) wbnf.ImportResolver {
		return &testResolver{base: filepath.Join(dir, filepath.Dir(path))}
	}
	render := func(root string, n ast.Node) string {
		if c.Tree {
			return ast.BuildTreeView(root, n, true) + "\n"
		}
		return n.String() + "\n"
	}
	test := strings.HasPrefix(c.Cmd, "t")
	if test && (c.Grammar == "" || c.Drop == "grammar") {
		at := c.Cwd + "/stdin"
		if c.Via == "file" && c.Drop != "input" {
			at = "input"
		}
		if c.Via == "file" && c.Drop == "input" {
			return expected{}, errDiscard // it reads nothing
		}
		p, err := wbnf.Compile(string(c.Input), base(at))
		if err != nil {
			return failing("the input is not a grammar: " + clip(err.Error(), 200)), nil
		}
		if c.Tree {
			return expected{ok: true, out: render("grammar", p.Node().(wbnf.GrammarNode).Node)}, nil
		}
		return expected{ok: true, out: render("grammar", p.Node().(ast.Node))}, nil
	}
	if c.Drop != "" {
		if test && c.Drop == "input" || c.Drop == "output" {
			return expected{}, errDiscard
		}
		return failing("the flag "+c.Drop+" is missing", c.Drop), nil
	}
	text, err := os.ReadFile(filepath.Join(dir, c.Grammar))
	if err != nil {
		return failing("there is no such grammar", filepath.Base(c.Grammar)), nil
	}
	if c.Start == "" {
		return failing("no start rule", "start"), nil
	}
	p, err := wbnf.Compile(string(text), base(c.Grammar))
	if err != nil {
		return failing("the grammar doesn't compile: " + clip(err.Error(), 200)), nil
	}
	if !p.HasRule(parser.Rule(c.Start)) {
		return failing("no such start rule", c.Start), nil
	}
	if test {
		te, err := p.Parse(parser.Rule(c.Start), parser.NewScanner(string(c.Input)))
		switch err := err.(type) {
		case nil:
			return expected{ok: true, out: render(c.Start, ast.FromParserNode(p.Grammar(), te))}, nil
		case parser.UnconsumedInputError:
			ast.FromParserNode(p.Grammar(), err.Result()) // which may panic, see the known findings of C14
			return failing("unconsumed input", "unconsumed input"), nil
		default:
			return failing("no match: "+clip(err.Error(), 200), "parse failed"), nil
		}
	}
	code, err := generate(p, c.Start, c.Pkg)
	if err != nil {
		return failing(err.Error()), nil
	}
	switch {
	case c.Out == "" || c.Out == "-":
		return expected{ok: true, out: code}, nil
	case strings.HasSuffix(c.Out, ".go"):
		return expected{ok: true, file: code}, nil
	}
	return failing("the output cannot be written", filepath.Base(c.Out)), nil
}

// noCommand removes the comment with the command that generated the code.
func noCommand(code string) string {
	var out []string
	for _, line := range strings.SplitAfter(code, "\n") {
		if !strings.HasPrefix(line, "// $ wbnf ") {
			out = append(out, line)
		}
	}
	return strings.Join(out, "")
}

func checkCLI(c CLICase, o *Obs) error {
	dir, err := os.MkdirTemp(scratchDir(), "cli-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	write := func(path string, text []byte) {
		path = filepath.Join(dir, path)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, text, 0o644); err != nil {
			panic(err)
		}
	}
	for _, d := range []string{c.Cwd, "out/dir"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			panic(err)
		}
	}
	write(existing, []byte(before+strings.Repeat("// More.\n", 9000)))
	for _, f := range c.Files {
		if f.Dir {
			_ = os.MkdirAll(filepath.Join(dir, f.Path), 0o755)
			continue
		}
		write(f.Path, []byte(f.Text))
	}
	if c.Via == "file" {
		write("input", []byte(c.Input))
	}
	want, err := c.expect(dir)
	if err != nil {
		return err
	}
	if c.Full && want.ok && want.out != "" {
		want = failing("the standard output is full")
	}
	snapshot := func() map[string]string {
		out := map[string]string{}
		_ = filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				text, _ := os.ReadFile(path)
				rel, _ := filepath.Rel(dir, path)
				out[rel] = string(text)
			}
			return nil
		})
		return out
	}
	files := snapshot()
	args := c.args(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, toolPath(), args...)
	cmd.Dir = filepath.Join(dir, c.Cwd)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if c.Full {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return errDiscard
		}
		defer full.Close()
		cmd.Stdout = full
	}
	if strings.HasPrefix(c.Cmd, "t") && c.Via != "file" {
		cmd.Stdin = strings.NewReader(string(c.Input))
	}
	runErr := cmd.Run()
	if ctx.Err() != nil {
		return fmt.Errorf("wbnf %q did not end", args)
	}
	fail := func(format string, args2 ...any) error {
		var sb strings.Builder
		for _, f := range c.Files {
			fmt.Fprintf(&sb, "--- %s\n%s\n", f.Path, f.Text)
		}
		return fmt.Errorf("%sin %s: wbnf %q, input %q\n%s\nexit: %v\nstdout: %s\nstderr: %s", sb.String(), c.Cwd, args, c.Input,
			fmt.Sprintf(format, args2...), runErr, clip(stdout.String(), 1500), clip(stderr.String(), 1500))
	}
	after := snapshot()
	if want.ok {
		o.Label("ok")
		switch {
		case runErr != nil:
			return fail("it failed, but should not")
		case noCommand(stdout.String()) != noCommand(want.out):
			return fail("it should have printed %s", clip(want.out, 1500))
		}
		if want.file != "" {
			o.Label("file")
			if noCommand(after[c.Out]) != noCommand(want.file) {
				return fail("it should have written %s\nbut wrote %s", clip(want.file, 1500), clip(after[c.Out], 1500))
			}
			delete(after, c.Out)
			delete(files, c.Out)
		}
		if strings.HasPrefix(c.Cmd, "g") {
			line := "// $ wbnf " + strings.Join(args, " ") + "\n"
			if !strings.Contains(stdout.String()+snapshotFile(dir, c.Out), line) {
				return fail("the code does not tell of the command %q", line)
			}
		}
	} else {
		o.Label("fails")
		text := stdout.String() + stderr.String()
		switch {
		case runErr == nil:
			return fail("it did not fail: %s", want.why)
		case c.Full: // its message may be lost
		case strings.TrimSpace(text) == "":
			return fail("it failed without a message: %s", want.why)
		case !strings.Contains(text, want.says):
			return fail("it failed without mentioning %q: %s", want.says, want.why)
		}
		if strings.HasPrefix(c.Cmd, "g") && strings.Contains(stdout.String(), "package ") {
			return fail("it failed (%s), but printed code", want.why)
		}
	}
	// Nothing else is written.
	for path, text := range after {
		if old, is := files[path]; !is || old != text {
			return fail("it wrote %s: %s", path, clip(text, 500))
		}
	}
	if len(after) != len(files) {
		return fail("it removed files")
	}
	if c.Grammar != "" && (len(c.Files) > 1 || want.ok) {
		o.NonTrivial()
	}
	o.Label("%c", c.Cmd[0])
	return nil
}

func snapshotFile(dir, path string) string {
	text, _ := os.ReadFile(filepath.Join(dir, path))
	return string(text)
}

func genCLI(t *rapid.T) CLICase {
	c := CLICase{
		Cmd: pick(t, []string{"test", "test", "test", "t", "gen", "gen", "g"}, "cmd"), Grammar: "g.wbnf",
		Cwd: pick(t, []string{".", "wd", "sub", "wd/deep"}, "cwd"), Abs: pct(t, 20, "abs"), Eq: pct(t, 30, "eq"),
		Via: pick(t, []string{"file", "file", "stdin", "-"}, "via"), Tree: pct(t, 40, "tree"), Verbose: pct(t, 10, "verbose"),
		Pkg: pick(t, []string{"p", "p", "main", "_x1", "é"}, "pkg"), Out: pick(t, []string{"", "-", "out/new.go", existing, existing}, "out"),
	}
	test := strings.HasPrefix(c.Cmd, "t")
	for i := rng(t, 0, 4, "order"); i > 0; i-- {
		c.Order = append(c.Order, uni(t, 10, "flag"))
	}
	var rules []string
	switch {
	case pct(t, 25, "imports"):
		ic := genImportsIn(t, false)
		dir := pick(t, []string{".", "gr", "sub/x"}, "dir")
		for i, f := range ic.Files {
			switch {
			case ic.Fault == "missing" && i == ic.At:
			default:
				c.Files = append(c.Files, CLIFile{Path: filepath.Join(dir, f.path()), Text: Bytes(f.Text), Dir: ic.Fault == "directory" && i == ic.At})
			}
		}
		c.Grammar = c.Files[0].Path
		for _, r := range ic.G {
			rules = append(rules, r.Name)
		}
		c.Start = pick(t, rules, "start")
		c.Input = Bytes(genInput(t, ic.G, c.Start))
	case pct(t, 30, "text"):
		text := genGrammarText(t)
		c.Files = []CLIFile{{Path: c.Grammar, Text: Bytes(text)}}
		if p, err := wbnf.Compile(text, nil); err == nil {
			for r := range p.Grammar() {
				rules = append(rules, string(r))
			}
			sort.Strings(rules)
		}
		c.Start = pick(t, append(rules, "a"), "start")
		c.Input = Bytes(pick(t, []string{"", "a", "ab", "abc", "(a)"}, "input"))
	default:
		g := genTextGrammar(t, textOpts())
		c.Files = []CLIFile{{Path: c.Grammar, Text: Bytes(renderText(t, g))}}
		c.Start = g[0].Name
		if test {
			c.Input = Bytes(genInput(t, g, c.Start))
			if pct(t, 60, "accepted") {
				c.Input = Bytes(genAccepted(t, g, c.Start, 6))
			}
			if _, ok := runModel(g, c.Start, string(c.Input), nil); !ok {
				c.Input = "" // it takes too long
			}
		}
	}
	if test && pct(t, 12, "bytes") {
		c.Input = genBytes(t, string(c.Input))
	}
	if test && pct(t, 15, "meta") { // the input is a grammar
		c.Grammar = ""
		c.Input = c.Files[0].Text
		if pct(t, 30, "damaged") {
			c.Input = Bytes(damaged(t, string(c.Input)))
		}
		if pct(t, 70, "nostart") {
			c.Start = ""
		}
		return c
	}
	if pct(t, 35, "fault") {
		faults := []string{"start", "nostart", "missing", "damaged", "drop", "flag", "full"}
		if !test {
			faults = append(faults, "pkg", "pkg", "dir", "nodir", "device")
		}
		switch pick(t, faults, "fault") {
		case "start":
			c.Start = pick(t, []string{"nosuch", c.Start + "x", ".wrapRE", "", "a b"}, "start")
		case "nostart":
			c.Drop = "start"
		case "missing":
			c.Grammar = pick(t, []string{"nosuch.wbnf", "no/such", "out/dir"}, "grammar")
		case "damaged":
			c.Files[0].Text = Bytes(damaged(t, string(c.Files[0].Text)))
		case "drop":
			c.Drop = pick(t, []string{"grammar", "start"}, "drop")
			if !test {
				c.Drop = pick(t, []string{"grammar", "start", "pkg"}, "drop")
			}
		case "flag":
			c.Add = pick(t, []string{"--nosuch", "-x", "--gramar=g.wbnf"}, "flag")
		case "full":
			c.Full = true
		case "pkg":
			c.Pkg = pick(t, []string{"1x", "a b", "func", "a-b", ""}, "pkg")
		case "dir":
			c.Out = "out/dir"
		case "nodir":
			c.Out = "nosuch/x"
		case "device":
			c.Out = "/dev/full"
		}
	}
	return c
}

func init() {
	register("C27", "A case is a run of the built tool in a scratch directory, with any of the ways to give it a grammar (of several files, in directories), an input and an output, "+
		"possibly with a mistake. It must succeed exactly if the library does, with exactly the output of the library, and must otherwise have a status that tells of the failure, a message, and no output. "+
		"It is non-trivial if it succeeds, or if the grammar has several files.",
		opts{part: "runs", quick: 4000, thorough: 250000, setup: buildTool}, genCLI, checkCLI)
}
