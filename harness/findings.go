package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
	"verif/drive"
)

// A finding is a line of ../known-findings.txt, either
//
//	known: property=<id> {"id": ..., "what": ..., "grammar": ..., ...}
//	fixed: property=<id> <commit> <what failed>
type finding struct {
	Property string `json:"-"`
	Status   string `json:"-"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Grammar  string `json:"grammar"`
	Rule     string `json:"rule"`
	Input    string `json:"input"`
	Do       string `json:"do"`     // compile, parse (default), ast, back, unparse, code
	Expect   string `json:"expect"` // part of the output of the probe
}

func loadFindings() ([]finding, error) {
	data, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	} else if err != nil {
		return nil, err
	}
	var out []finding
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			return nil, fmt.Errorf("known-findings.txt: bad line: %s", line)
		}
		id, js, _ := strings.Cut(rest, " ")
		f := finding{Property: id, Status: "known"}
		if err := json.Unmarshal([]byte(js), &f); err != nil {
			return nil, fmt.Errorf("known-findings.txt: %v: %s", err, line)
		}
		out = append(out, f)
	}
	return out, nil
}

// replay re-runs the finding in a process of its own. It returns a description
// if it still fails in the recorded way.
func (f finding) replay(scratch string) (string, error) {
	data, _ := json.Marshal(f)
	file := filepath.Join(scratch, "finding.json")
	if err := os.WriteFile(file, data, 0o644); err != nil {
		return "", err
	}
	_, out, timedOut := runLimited(120*time.Second, 10, "probe", file)
	if timedOut {
		return "", fmt.Errorf("timed out")
	}
	if f.Expect == "hang" && !strings.Contains(out, "done:") || f.Expect != "hang" && strings.Contains(out, f.Expect) {
		return fmt.Sprintf("[%s] %s: grammar %q input %q: %s", f.ID, f.What, f.Grammar, f.Input, f.Expect), nil
	}
	return "", nil
}

func runProbe(file string) int {
	var f finding
	data, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(data, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("done: panic:", r)
		}
	}()
	p, err := wbnf.Compile(f.Grammar, nil)
	if err != nil {
		fmt.Println("done: compile error:", err)
		return 0
	}
	if f.Do == "compile" {
		fmt.Println("done: compiled")
		return 0
	}
	if f.Do == "code" {
		it := drive.Item{Text: f.Grammar, Start: f.Rule, Inputs: []string{f.Input}, Plans: make([]drive.Plan, 1), Strict: true}
		results, _, err := runCode(CodeCase{[]drive.Item{it}})
		if err == nil && results[0].Err != "" {
			err = errors.New(results[0].Err)
		}
		if err == nil && results[0].Walk != "" {
			err = errors.New(results[0].Walk)
		}
		fmt.Println("done: code:", err)
		return 0
	}
	tree, err := p.Parse(parser.Rule(f.Rule), parser.NewScanner(f.Input))
	if err != nil {
		fmt.Printf("done: parse error: %T\n", err)
		return 0
	}
	switch f.Do {
	case "ast":
		fmt.Println("done: ast:", ast.FromParserNode(p.Grammar(), tree))
	case "back":
		b := ast.FromParserNode(p.Grammar(), tree)
		back := ast.ToParserNode(p.Grammar(), b)
		if implTree(back, f.Input).String() == implTree(tree, f.Input).String() {
			fmt.Println("done: same")
		} else {
			fmt.Println("done: differs")
		}
	case "unparse":
		var sb strings.Builder
		_, err := p.Unparse(tree, &sb)
		fmt.Printf("done: unparsed %q %v\n", sb.String(), err)
	default:
		fmt.Println("done: parsed:", implTree(tree, f.Input))
	}
	return 0
}
