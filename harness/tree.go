package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// Tree is this framework's own representation of a derivation. A leaf is a slice
// of the input; a node has a tag, an extra and children.
type Tree struct {
	Leaf   bool
	Empty  bool
	Look   bool // what a lookahead matched, in trees of the model
	Tag    string
	Extra  string // "", "choice N", "assoc N"
	Lo, Hi int    // of a leaf, in the input
	Text   string // of a leaf
	Kids   []*Tree
}

func leafTree(input string, lo, hi int) *Tree {
	return &Tree{Leaf: true, Lo: lo, Hi: hi, Text: input[lo:hi]}
}

func nodeTree(tag, extra string, kids ...*Tree) *Tree {
	return &Tree{Tag: tag, Extra: extra, Kids: kids}
}

func emptyTree() *Tree { return &Tree{Empty: true} }

func (t *Tree) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *Tree) write(sb *strings.Builder) {
	switch {
	case t == nil:
		sb.WriteString("nil")
	case t.Leaf:
		fmt.Fprintf(sb, "%d:%q", t.Lo, t.Text)
	case t.Empty:
		sb.WriteString("empty")
	default:
		sb.WriteString(t.Tag)
		if t.Extra != "" {
			sb.WriteString("<" + t.Extra + ">")
		}
		sb.WriteString("[")
		for i, k := range t.Kids {
			if i > 0 {
				sb.WriteString(" ")
			}
			k.write(sb)
		}
		sb.WriteString("]")
	}
}

// shape renders the tree without the positions of its leaves.
func (t *Tree) shape() string {
	c := t.mapTree(func(t *Tree) *Tree { t.Lo, t.Hi = 0, 0; return t })
	return c.String()
}

// mapTree copies the tree, applying f to each node of the copy, bottom-up.
func (t *Tree) mapTree(f func(*Tree) *Tree) *Tree {
	if t == nil {
		return nil
	}
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.mapTree(f))
	}
	return f(&c)
}

func (t *Tree) walk(f func(*Tree)) {
	if t == nil {
		return
	}
	f(t)
	for _, k := range t.Kids {
		k.walk(f)
	}
}

func (t *Tree) leaves() []*Tree {
	var out []*Tree
	t.walk(func(t *Tree) {
		if t.Leaf {
			out = append(out, t)
		}
	})
	return out
}

func (t *Tree) size() int {
	n := 0
	t.walk(func(*Tree) { n++ })
	return n
}

// implTree converts what the code under test returned.
func implTree(te parser.TreeElement, input string) *Tree {
	switch te := te.(type) {
	case nil:
		return nil
	case parser.Scanner:
		lo := te.Offset()
		return &Tree{Leaf: true, Lo: lo, Hi: lo + len(te.String()), Text: te.String()}
	case parser.Empty:
		return emptyTree()
	case parser.Node:
		t := &Tree{Tag: te.Tag}
		switch e := te.Extra.(type) {
		case nil:
		case parser.Choice:
			t.Extra = fmt.Sprintf("choice %d", int(e))
		case parser.Associativity:
			t.Extra = fmt.Sprintf("assoc %d", int(e))
		case ast.Branch:
			t.Extra = "ast " + implAST(e).String()
		default:
			t.Extra = fmt.Sprintf("%T %v", e, e)
		}
		for _, k := range te.Children {
			t.Kids = append(t.Kids, implTree(k, input))
		}
		return t
	}
	return &Tree{Tag: fmt.Sprintf("?%T", te)}
}
