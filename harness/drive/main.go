package drive

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
)

// Package is what a generated package offers.
type Package struct {
	Grammar         func() parser.Parsers
	ParseString     func(string) (any, error)
	Ops             any
	Exiter, Aborter any
}

// Item is a grammar with inputs for its parser.
type Item struct {
	Text   string   `json:"text"`
	Start  string   `json:"start"`
	Inputs []string `json:"inputs"`
	Strict bool     `json:"strict,omitempty"`
	Tokens bool     `json:"tokens,omitempty"` // there may be tokens that have no accessor
	Plans  []Plan   `json:"plans"`            // for the walk over the tree of each input
}

// Result tells what a package turned out to be like.
type Result struct {
	Err       string `json:"err"`
	Walk      string `json:"walk"` // what is wrong with a walk
	Parsed    int    `json:"parsed"`
	Accessors int    `json:"accessors"`
	Full      int    `json:"full"` // accessors that returned something
	Visits    int    `json:"visits"`
}

// Main checks packages that were generated from items, which it reads from a file.
func Main(pkgs []Package) {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var items []Item
	if err := json.Unmarshal(data, &items); err != nil {
		panic(err)
	}
	results := make([]Result, len(items))
	for i, it := range items {
		check(it, pkgs[i], &results[i])
	}
	data, _ = json.Marshal(results)
	if err := os.WriteFile(os.Args[1]+".out", data, 0o644); err != nil {
		panic(err)
	}
}

func check(it Item, p Package, r *Result) {
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	direct, err := wbnf.Compile(it.Text, nil)
	if err != nil {
		r.Err = "the grammar doesn't compile: " + err.Error()
		return
	}
	gen := p.Grammar()
	a, b := direct.Grammar(), gen.Grammar()
	if a.String() != b.String() {
		r.Err = fmt.Sprintf("the generated grammar differs\nwant: %v\ngot:  %v", a, b)
		return
	}
	if d := diff.Grammars(a, b); !d.Equal() {
		r.Err = fmt.Sprintf("the generated grammar differs: %+v", d)
		return
	}
	for i, in := range it.Inputs {
		te, err := direct.Parse(parser.Rule(it.Start), parser.NewScanner(in))
		root, gerr := p.ParseString(in)
		if (err == nil) != (gerr == nil) {
			r.Err = fmt.Sprintf("input %q: the parser returns %v, the generated one %v", in, err, gerr)
			return
		}
		if err != nil {
			continue
		}
		r.Parsed++
		want := ast.FromParserNode(a, te)
		node := root.(interface{ GetAstNode() ast.Node }).GetAstNode()
		if want.String() != node.String() {
			r.Err = fmt.Sprintf("input %q: the generated parser's AST differs\nwant: %v\ngot:  %v", in, want, node)
			return
		}
		Strict = it.Strict
		n, full, err := CheckAccessors(root, it.Tokens)
		r.Accessors += n
		r.Full += full
		if err != nil {
			r.Err = fmt.Sprintf("input %q: %v", in, err)
			return
		}
		plan := it.Plans[i]
		visits := Visits(p.Ops, root)
		r.Visits += len(visits)
		scaled := Plan{Skip: plan.Skip, Outcomes: map[int]int{}}
		for k, o := range plan.Outcomes {
			if len(visits) > 0 {
				scaled.Outcomes[k%len(visits)] = o
			}
		}
		for _, plan := range []Plan{{}, scaled} {
			if err := CheckWalk(p.Ops, root, p.Exiter, p.Aborter, plan); err != nil && r.Walk == "" {
				r.Walk = fmt.Sprintf("input %q: plan %+v: %v\nAST: %s", in, plan, err, strings.Join(strings.Fields(node.String()), " "))
			}
		}
	}
}
