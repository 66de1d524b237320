From ede4cef3a3ffc127886af00c5c36161c5e05d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:23 +0000
Subject: [PATCH 01/74] fix: rendering the error of a failed repetition
 recursed forever

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..8e1a23f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -582,10 +582,12 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	// Don't capture out, which this return statement overwrites with the error that refers to it.
+	cause := out
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, func() error { return cause }, func() error { return stk })
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From 019d1572d444c397af3e307f5ea78d5e3bc6916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:21 +0000
Subject: [PATCH 02/74] fix: decode numeric string escapes, and report invalid
 ones instead of panicking

---
 wbnf/compile.go    | 63 +++++++++++++++++++++++++++++++---------------
 wbnf/validation.go | 18 +++++++++++++
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..30e4af5 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/ast"
 
@@ -20,45 +21,64 @@ func unfakeBackquote(s string) string {
 }
 
 func parseString(s string) string {
+	str, err := unquoteString(s)
+	if err != nil {
+		panic(err)
+	}
+	return str
+}
+
+// unquoteString returns the text denoted by a STR token, or an error if the
+// token contains an invalid \-escape.
+func unquoteString(s string) (string, error) {
 	var sb strings.Builder
 	quote, s := s[0], s[1:len(s)-1]
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("not valid UTF-8: %q", s)
+	}
 	if quote == '`' {
-		return strings.ReplaceAll(s, "``", "`")
+		return strings.ReplaceAll(s, "``", "`"), nil
 	}
 	for i := 0; i < len(s); i++ {
 		c := s[i]
 		switch c {
 		case '\\':
 			i++
+			number := func(start, digits, base, bitSize int) (uint64, error) {
+				end := start + digits
+				if end > len(s) {
+					return 0, fmt.Errorf("truncated \\-escape: %q", s[i-1:])
+				}
+				n, err := strconv.ParseUint(s[start:end], base, bitSize)
+				if err != nil {
+					return 0, fmt.Errorf("invalid \\-escape: %q", s[i-1:end])
+				}
+				i = end - 1
+				return n, nil
+			}
 			switch s[i] {
 			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
+				n, err := number(i+1, 2, 16, 8)
 				if err != nil {
-					panic(err)
+					return "", err
 				}
 				sb.WriteByte(uint8(n))
-				i++
-			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
+			case 'u', 'U':
+				digits := map[byte]int{'u': 4, 'U': 8}[s[i]]
+				n, err := number(i+1, digits, 16, 32)
 				if err != nil {
-					panic(err)
+					return "", err
 				}
-				sb.WriteByte(uint8(n))
-				i += 2
-			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
-				if err != nil {
-					panic(err)
+				if n > utf8.MaxRune || !utf8.ValidRune(rune(n)) {
+					return "", fmt.Errorf("\\-escape is not a valid code point: %#x", n)
 				}
-				sb.WriteByte(uint8(n))
-				i += 4
+				sb.WriteRune(rune(n))
 			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
+				n, err := number(i, 3, 8, 8)
 				if err != nil {
-					panic(err)
+					return "", err
 				}
 				sb.WriteByte(uint8(n))
-				i++
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
@@ -80,13 +100,16 @@ func parseString(s string) string {
 			case quote:
 				sb.WriteByte(quote)
 			default:
-				panic(fmt.Errorf("unrecognized \\-escape: %q", s[i]))
+				return "", fmt.Errorf("unrecognized \\-escape: %q", s[i])
 			}
 		default:
 			sb.WriteByte(c)
 		}
 	}
-	return sb.String()
+	if !utf8.ValidString(sb.String()) {
+		return "", fmt.Errorf("not valid UTF-8: %q", sb.String())
+	}
+	return sb.String(), nil
 }
 
 var whitespaceRE = regexp.MustCompile(`\s`)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..8c6805e 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -75,6 +75,7 @@ const (
 	PossibleCycleDetected
 	NotAMacro
 	IncorrectMacroArgCount
+	InvalidString
 )
 
 type validationError struct {
@@ -169,10 +170,27 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 				args: []any{err},
 			})
 		}
+	} else if x := tree.OneStr(); x != nil {
+		v.validateString(x)
+	} else if x := tree.OneRef(); x != nil {
+		if def := x.OneDefault(); def != nil {
+			v.validateString(def)
+		}
 	}
 	return nil
 }
 
+func (v *validator) validateString(str *StrNode) {
+	if _, err := unquoteString(str.String()); err != nil {
+		v.err = append(v.err, validationError{
+			s:    str.Scanner(),
+			msg:  "string %s is not valid, %s",
+			kind: InvalidString,
+			args: []any{err},
+		})
+	}
+}
+
 func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
-- 
2.43.0


From 433ea7500a35ce5a022c293165715226927d9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 03/74] fix: validate the regular expressions that the parser
 will compile, not their tokens

---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  8 +++++++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 30e4af5..9c0ae36 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -115,6 +115,18 @@ func unquoteString(s string) (string, error) {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// parseRE returns the regular expression denoted by an RE token.
+func parseRE(token string) string {
+	s := whitespaceRE.ReplaceAllString(token, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -153,14 +165,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(parseRE(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 8c6805e..069e1e5 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -162,7 +162,13 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			}
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		// The parser puts the expression in a group, which, say, an unclosed \Q breaks.
+		re := parseRE(x.String())
+		_, err := regexp.Compile(re)
+		if err == nil {
+			_, err = regexp.Compile("(" + re + ")")
+		}
+		if err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From 1d47b27264486c66eb5a918d4b2a609ad1350865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 04/74] fix: panic on a regular expression with several or
 unmatched capturing groups

---
 parser/parser.go  |  4 ++++
 parser/scanner.go | 17 +++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 8e1a23f..3561f90 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -194,8 +194,12 @@ func getErrorStrings(input *Scanner) string {
 }
 
 func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
+	// The first group is the entire term. A second one is the first group of the term's own.
 	var eaten [2]Scanner
 	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
+		if n > 1 && eaten[n-1].IsNil() {
+			n--
+		}
 		*output = eaten[n-1]
 		return true
 	}
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..68cd2bb 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -180,8 +180,9 @@ func (s *Scanner) EatString(str string, eaten *Scanner) bool {
 }
 
 // EatRegexp eats the text matching a regexp, populating match (if != nil) with
-// the whole match and captures (if != nil) with any captured groups. Returns
-// n as the number of captures set and ok iff a match was found.
+// the whole match and captures (if != nil) with any captured groups, which are
+// nil where a group took no part in the match. Returns n as the number of
+// captures set and ok iff a match was found.
 func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanner) (n int, ok bool) {
 	if loc := re.FindStringSubmatchIndex(s.slice()); loc != nil {
 		if loc[0] != 0 {
@@ -193,11 +194,15 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 		skip := loc[1]
 		loc = loc[2:]
 		n = len(loc) / 2
-		if len(captures) > n {
-			captures = captures[:n]
+		if len(captures) < n {
+			n = len(captures)
 		}
-		for i := range captures {
-			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
+		for i := range captures[:n] {
+			if loc[2*i] < 0 {
+				captures[i] = Scanner{}
+			} else {
+				captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
+			}
 		}
 
 		*s = *s.Skip(skip)
-- 
2.43.0


From 21038398870538423e1f977ae393bf86b78a4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:15 +0000
Subject: [PATCH 05/74] fix: unbounded repetition of a term that matches the
 empty string never ended

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3561f90..718ce04 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -578,6 +578,10 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		if p.t.Max == 0 && len(result) >= p.t.Min && start == *input {
+			// An empty match would repeat forever.
+			break
+		}
 		result = append(result, v)
 		*input = start
 	}
-- 
2.43.0


From 461c8be35906d549a77a38e6dd0d98a2d03c94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 06/74] fix: rendering a {1,1} repetition panicked

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..2fdd2a4 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -242,8 +242,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From 2938bb5fa2b259ff20d70f48c224eadeca82f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 07/74] fix: some left-recursive grammars were accepted,
 depending on map order

---
 wbnf/recursion.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..7f8d33c 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -65,7 +65,8 @@ func findPaths(name string, node *gnode, seen frozen.Set[string], current []stri
 	var possibles [][]string
 	for k, next := range node.next {
 		if seen.Has(k) {
-			possibles = append(possibles, append(current[:], k))
+			// Copy current, because sibling paths share its backing array.
+			possibles = append(possibles, append(append([]string{}, current...), k))
 		} else {
 			possibles = append(possibles, findPaths(k, next, seen.With(k), current)...)
 		}
-- 
2.43.0


From fcda8ad473325b9623d8794f3e01e1a3acb43edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:29 +0000
Subject: [PATCH 08/74] fix: a macro that expands itself overflowed the stack

---
 wbnf/validation.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 069e1e5..448b238 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -241,9 +241,31 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 		}
 	}
 	v.walk(node.OneTerm())
+	if v.macroCalls(node, node.OneName().String(), map[string]bool{}) {
+		v.err = append(v.err, validationError{s: node.OneName().Scanner(),
+			msg: "macro '%s' expands itself", kind: PossibleCycleDetected})
+	}
 	return NodeExiter
 }
 
+// macroCalls determines if the expansion of a macro calls the named macro.
+func (v *validator) macroCalls(macro PragmaMacrodefNode, name string, seen map[string]bool) bool {
+	found := false
+	WalkerOps{
+		EnterMacrocallNode: func(node MacrocallNode) Stopper {
+			callee := node.OneName().String()
+			if callee == name {
+				found = true
+			} else if m, has := v.macros[callee]; has && !seen[callee] {
+				seen[callee] = true
+				found = found || v.macroCalls(m, name, seen)
+			}
+			return nil
+		},
+	}.Walk(macro)
+	return found
+}
+
 func (v *validator) validateMacroCall(node MacrocallNode) Stopper {
 	macro, has := v.macros[node.OneName().String()]
 	if !has {
-- 
2.43.0


From 5bb40135722d8267360bcaaf4f2580f5c26326b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:16 +0000
Subject: [PATCH 09/74] fix: undefined rules in scoped grammars and misplaced
 stacks panicked instead of failing validation

---
 wbnf/compile.go    |  6 +++-
 wbnf/validation.go | 69 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 9c0ae36..f715850 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -396,7 +396,11 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validate(node); err != nil {
 		return parser.Parsers{}, err
 	}
-	return NewFromAst(node).Compile(node), nil
+	g := NewFromAst(node)
+	if err := validateTerms(g); err != nil {
+		return parser.Parsers{}, err
+	}
+	return g.Compile(node), nil
 }
 
 func MustCompile(grammar string, resolver ImportResolver) parser.Parsers {
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 448b238..c8f0133 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -3,6 +3,7 @@ package wbnf
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 
 	"github.com/arr-ai/frozen"
@@ -62,6 +63,73 @@ func validate(tree GrammarNode) error {
 	return &v
 }
 
+// validateTerms reports the terms of an expanded grammar that cannot be parsed
+// with. These are beyond the reach of validate, which doesn't see the terms of
+// scoped grammars, nor where a macro is expanded.
+func validateTerms(g parser.Grammar) error {
+	var v validator
+	v.validateGrammar(g, frozen.NewSet[parser.Rule]())
+	if len(v.err) == 0 {
+		return nil
+	}
+	return &v
+}
+
+func (v *validator) validateGrammar(g parser.Grammar, outer frozen.Set[parser.Rule]) {
+	known := outer
+	rules := make([]string, 0, len(g))
+	for rule := range g {
+		known = known.With(rule)
+		rules = append(rules, string(rule))
+	}
+	sort.Strings(rules)
+	for _, rule := range rules {
+		term := g[parser.Rule(rule)]
+		if stack, ok := term.(parser.Stack); ok {
+			term = parser.Seq(stack)
+		}
+		v.validateRefs(term, known)
+	}
+}
+
+func (v *validator) validateRefs(term parser.Term, known frozen.Set[parser.Rule]) {
+	switch t := term.(type) {
+	case parser.Rule:
+		if t != parser.At && !known.Has(t) {
+			v.err = append(v.err, validationError{
+				msg: fmt.Sprintf("identifier '%s' is not a defined rule", t), kind: UnknownRule})
+		}
+	case parser.Stack:
+		v.err = append(v.err, validationError{
+			msg: fmt.Sprintf("stack '%s' is not the whole of a rule", t), kind: MisplacedStack})
+	case parser.Seq:
+		for _, t := range t {
+			v.validateRefs(t, known)
+		}
+	case parser.Oneof:
+		for _, t := range t {
+			v.validateRefs(t, known)
+		}
+	case parser.Delim:
+		v.validateRefs(t.Term, known)
+		v.validateRefs(t.Sep, known)
+	case parser.Quant:
+		v.validateRefs(t.Term, known)
+	case parser.Named:
+		v.validateRefs(t.Term, known)
+	case parser.LookAhead:
+		v.validateRefs(t.Term, known)
+	case parser.CutPoint:
+		v.validateRefs(t.Term, known)
+	case parser.ScopedGrammar:
+		v.validateGrammar(t.Grammar, known)
+		for rule := range t.Grammar {
+			known = known.With(rule)
+		}
+		v.validateRefs(t.Term, known)
+	}
+}
+
 type validationErrorKind int
 
 const (
@@ -76,6 +144,7 @@ const (
 	NotAMacro
 	IncorrectMacroArgCount
 	InvalidString
+	MisplacedStack
 )
 
 type validationError struct {
-- 
2.43.0


From 7b804471b94596f9c65ec232b10ef4902b8a8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:07 +0000
Subject: [PATCH 10/74] fix: macro parameters were not expanded in lookaheads
 and scoped grammars

---
 wbnf/compile.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index f715850..9941c95 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -136,8 +136,15 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var substitute func(t parser.Term) parser.Term
+	substitute = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
+		case parser.LookAhead:
+			t.Term = fixTerm(t.Term, substitute)
+			return t
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, substitute)
+			return t
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
 				if arg.String() == string(t) {
@@ -146,8 +153,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 			}
 		}
 		return t
-	})
-	return newg[parser.Rule(name)]
+	}
+	return rebuildGrammar(g, substitute)[parser.Rule(name)]
 }
 
 func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
-- 
2.43.0


From dcf591de2fccc9f9dcaf5642a5343bc2328eb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:15 +0000
Subject: [PATCH 11/74] fix: a .wrapRE rule that isn't a regex panicked instead
 of failing validation

---
 wbnf/validation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index c8f0133..b2d8714 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -89,6 +89,15 @@ func (v *validator) validateGrammar(g parser.Grammar, outer frozen.Set[parser.Ru
 			term = parser.Seq(stack)
 		}
 		v.validateRefs(term, known)
+		if rule == string(parser.WrapRE) {
+			if oneof, ok := term.(parser.Oneof); ok && len(oneof) > 0 {
+				term = oneof[len(oneof)-1]
+			}
+			if _, ok := term.(parser.RE); !ok {
+				v.err = append(v.err, validationError{
+					msg: fmt.Sprintf("%s does not wrap with a regex: '%s'", rule, term), kind: InvalidRegex})
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 58dcc336386f24ad9862edcb00c27b08da9f8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:42 +0000
Subject: [PATCH 12/74] fix: a scoped grammar within a precedence stack
 panicked

---
 parser/resolve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/resolve.go b/parser/resolve.go
index a96f059..7be87af 100644
--- a/parser/resolve.go
+++ b/parser/resolve.go
@@ -62,7 +62,8 @@ func (t Named) Resolve(oldRule, newRule Rule) Term {
 }
 
 func (t ScopedGrammar) Resolve(oldRule, newRule Rule) Term {
-	panic(errors.Inconceivable)
+	t.Term = t.Term.Resolve(oldRule, newRule)
+	return t
 }
 
 func (t CutPoint) Resolve(oldRule, newRule Rule) Term {
-- 
2.43.0


From 724e6e4e7679de63c0516a3696eeddc685d37388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:44 +0000
Subject: [PATCH 13/74] fix: strings used in nested grammars and lookaheads
 were treated as unique

A string was made a cut point although a nested grammar or a lookahead
uses it too, so that alternatives that could match were never tried.
---
 wbnf/cutpoints.go   | 21 +++++++++++++--------
 wbnf/wbnfgrammar.go |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..c15807d 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -58,6 +58,14 @@ func insertCutPoints(g parser.Grammar) parser.Grammar {
 }
 
 func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
+	return countStrings(g).Where(func(key string, val int) bool {
+		return val == 1
+	}).Keys()
+}
+
+// countStrings counts the uses of each string in a grammar, including those
+// within nested grammars.
+func countStrings(g parser.Grammar) frozen.Map[string, int] {
 	mergeFn := func(_ string, a, b int) int {
 		return a + b
 	}
@@ -95,15 +103,14 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			out = out.Merge(countStrings(t.Grammar), mergeFn)
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-		case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing
+		case parser.LookAhead:
+			out = out.Merge(forTerm(t.Term), mergeFn)
+		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
 		}
@@ -114,9 +121,7 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 	for _, t := range g {
 		strings = strings.Merge(forTerm(t), mergeFn)
 	}
-	return strings.Where(func(key string, val int) bool {
-		return val == 1
-	}).Keys()
+	return strings
 }
 
 func rebuildGrammar(input parser.Grammar, callback func(t parser.Term) parser.Term) parser.Grammar {
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From db5f5e21582fce243d7ed175944a85a47aa671b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:15 +0000
Subject: [PATCH 14/74] fix: converting a parse tree to or from an AST modified
 the grammar

The rules of scoped grammars leaked into the grammar they were nested in,
which also raced with other users of the same grammar.
---
 ast/from_parsernode.go | 17 +++++++++++++----
 ast/to_parsernode.go   |  5 +----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..ce59cd4 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -33,6 +33,18 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 	return result.collapse(0).(Branch)
 }
 
+// withScopedGrammar returns g overlaid with the rules of a scoped grammar.
+func withScopedGrammar(g, scoped parser.Grammar) parser.Grammar {
+	result := make(parser.Grammar, len(g)+len(scoped))
+	for rule, term := range g {
+		result[rule] = term
+	}
+	for rule, term := range scoped {
+		result[rule] = term
+	}
+	return result
+}
+
 func (b Branch) collapse(level int) Node {
 	if false && level > 0 {
 		switch oneChild := b.oneChild().(type) {
@@ -135,10 +147,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
+		gcopy := withScopedGrammar(g, t.Grammar)
 		b.fromParserNode(gcopy, t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..7eb9cfb 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,10 +105,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
+		gcopy := withScopedGrammar(g, t.Grammar)
 		return b.toParserNode(gcopy, t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
-- 
2.43.0


From 5ca4129eb55f27d699e4ba61c28df092bd1c2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:15 +0000
Subject: [PATCH 15/74] fix: compiling a scoped grammar modified the source
 grammar

.wrapRE was added to the nested grammar of the caller's term.
---
 parser/parser.go    | 10 +++-------
 wbnf/wbnfgrammar.go | 17 ++++++++---------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 718ce04..771843f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -751,13 +751,9 @@ func (t ExtRef) AsTerm() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
-	for _, term := range t.Grammar {
-		if _, ok := term.(Stack); ok {
-			t.Grammar = t.Grammar.clone()
-			t.Grammar.resolveStacks()
-			break
-		}
-	}
+	// Don't modify the grammar that this parser is compiled from.
+	t.Grammar = t.Grammar.clone()
+	t.Grammar.resolveStacks()
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
 			t.Grammar[WrapRE] = wrap
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index d9d1f87..3077cc8 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -50,15 +50,14 @@ func Grammar() parser.Parsers {
 			parser.Rule(`atom`)},
 		"pragma": parser.ScopedGrammar{Term: parser.Oneof{parser.Rule(`import`),
 			parser.Rule(`macrodef`)},
-			Grammar: parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-				"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
-					parser.Eq(`path`,
-						parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
-							parser.CutPoint{parser.S(`.`)},
-							parser.RE(`[a-zA-Z0-9.:]+`)},
-							Sep:             parser.S(`/`),
-							CanStartWithSep: true}),
-					parser.Opt(parser.S(`;`))},
+			Grammar: parser.Grammar{"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
+				parser.Eq(`path`,
+					parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
+						parser.CutPoint{parser.S(`.`)},
+						parser.RE(`[a-zA-Z0-9.:]+`)},
+						Sep:             parser.S(`/`),
+						CanStartWithSep: true}),
+				parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
-- 
2.43.0


From 1b42a3438583ec7934fc007ae6244f17f161d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 16/74] fix: the scanner of AST nodes with an empty child
 panicked

A node that matched no input has no source, so it can't be merged.
---
 ast/node_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..56590a7 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,9 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From 25316a2347cf829a1f11b7bb460e55b236bd2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 17/74] fix: the diff of external references and back
 references was wrong

External references were compared with themselves, and comparing
references of which only one has a default panicked.
---
 parser/diff/terms.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..2d9f8de 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -111,7 +111,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -171,7 +171,10 @@ type RefDiff struct {
 
 func (d RefDiff) Equal() bool {
 	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+		if d.A.Default == nil || d.B.Default == nil {
+			return d.A.Default == nil && d.B.Default == nil
+		}
+		return Terms(d.A.Default, d.B.Default).Equal()
 	}
 	return false
 }
-- 
2.43.0


From 7afbb1f48032d8853f8f70a50aeca8414f85116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:46 +0000
Subject: [PATCH 18/74] fix: the diff of nodes compared the type of a node with
 itself

Comparing nodes whose children differ in type panicked.
---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..543074d 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -62,8 +62,8 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(b.Children[i])
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-- 
2.43.0


From c80020e30ae64c4de41611a6d93ec73e62cd72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 19/74] fix: aborting a walk only exited the current node

Aborter also asked to exit the node, which took precedence, so the walk
continued with the parent's remaining children.
---
 cmd/codegen/template.go | 2 +-
 wbnf/wbnfgrammar.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/template.go b/cmd/codegen/template.go
index 1346fb0..2cb78ce 100644
--- a/cmd/codegen/template.go
+++ b/cmd/codegen/template.go
@@ -40,7 +40,7 @@ func (n *nodeExiter) ExitNode() bool {return true }
 func (n *nodeExiter) Abort() bool {return false }
 
 type aborter struct{}
-func (n *aborter) ExitNode() bool {return true }
+func (n *aborter) ExitNode() bool {return false }
 func (n *aborter) Abort() bool {return true }
 var (
 	NodeExiter = &nodeExiter{}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 3077cc8..66ade3a 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -118,7 +118,7 @@ func (n *nodeExiter) Abort() bool    { return false }
 
 type aborter struct{}
 
-func (n *aborter) ExitNode() bool { return true }
+func (n *aborter) ExitNode() bool { return false }
 func (n *aborter) Abort() bool    { return true }
 
 var (
-- 
2.43.0


From 0bd92d7760ce04b440c9fd4f39bd458b7e838cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:40 +0000
Subject: [PATCH 20/74] fix: imports by an imported grammar were resolved
 against a bad path

The command line tool joined the base directory, the importing file and
the imported file, instead of looking next to the importing file.
---
 cmd/test.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..96c34d2 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,8 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	// An importing file has already been resolved.
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From 5f7f1b2a0b41f6c213ab22e2300e7981b31a9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:00 +0000
Subject: [PATCH 21/74] fix: imports that form a cycle overflowed the stack

---
 wbnf/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 9941c95..d5e676e 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -382,6 +382,8 @@ func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 		if err != nil {
 			return GrammarNode{}, err
 		}
+		// Importing a file from within itself adds nothing.
+		c.imports[filename] = GrammarNode{}
 		g, err := c.makeGrammar(filename, string(text))
 		if err != nil {
 			return GrammarNode{}, err
-- 
2.43.0


From e37b43d31b9d61f39ef0ec1ce48011b7ce1c1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:00 +0000
Subject: [PATCH 22/74] fix: generated code did not compile or lost characters
 for some grammars

A {m,n} repetition mixed keyed and unkeyed fields, and characters that
raw strings can't contain, such as carriage returns, were not escaped.
---
 cmd/codegen/grammar.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..51d3d41 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,6 +3,7 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/arr-ai/frozen"
@@ -44,9 +45,12 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
-func safeString(src string) string {
-	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+// goString returns a Go expression for a string, using a raw string if it can.
+func goString(src string) string {
+	if !strconv.CanBackquote(strings.NewReplacer("`", "", "\n", "").Replace(src)) {
+		return strconv.Quote(src)
+	}
+	return "`" + strings.ReplaceAll(src, "`", "`+\"`\"+`") + "`"
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
@@ -82,7 +86,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.children = append(node.children, walkTerm(t))
 		}
 	case parser.S:
-		node.name = fmt.Sprintf("parser.S(`%s`)", safeString(string(t)))
+		node = stringNode("parser.S(%s)", goString(string(t)))
 	case parser.Delim:
 		node.name = "parser.Delim"
 		node.scope = squigglyScope
@@ -116,6 +120,7 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.children = []GoNode{prefixName("Term: ", node.children[0])}
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
@@ -141,7 +146,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(prefixName("Default: ", walkTerm(t.Default)))
 		}
 	case parser.RE:
-		node = stringNode("parser.RE(`%s`)", safeString(string(t)))
+		node = stringNode("parser.RE(%s)", goString(string(t)))
 	case parser.Rule:
 		if strings.Contains(string(t), parser.StackDelim) {
 			node = stringNode("parser.At")
@@ -153,7 +158,7 @@ func walkTerm(term parser.Term) GoNode {
 		node.scope = squigglyScope
 		node.Add(walkTerm(t.Term))
 	case parser.ExtRef:
-		node = stringNode("parser.ExtRef(`%s`)", safeString(string(t)))
+		node = stringNode("parser.ExtRef(%s)", goString(string(t)))
 	case parser.LookAhead:
 		node.name = "parser.LookAhead"
 		node.scope = squigglyScope
-- 
2.43.0


From b472cf82672ebd2fa77bc599837ca4ea13130bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:18 +0000
Subject: [PATCH 23/74] fix: a back reference to a list with a leading or
 trailing separator panicked

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 771843f..8bcf45b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -683,7 +683,9 @@ func termFromRefVal(from TreeElement) Term {
 	case Node:
 		s := Seq{}
 		for _, v := range n.Children {
-			s = append(s, termFromRefVal(v))
+			if term := termFromRefVal(v); term != nil {
+				s = append(s, term)
+			}
 		}
 		term = s
 	case Scanner:
-- 
2.43.0


From 7b9e5f8b4d6b7c051e377a0dec55f01699a61fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:18 +0000
Subject: [PATCH 24/74] fix: the order of items in tree views was not
 deterministic

---
 ast/treeview.go  | 9 ++++++++-
 gotree/gotree.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..424a65a 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,7 +34,13 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			val := n[name]
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..57e0ff4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 88e415d2d405fd60956580b18435ca9f7798d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:26 +0000
Subject: [PATCH 25/74] fix: AST conversion and unparsing of associative delims
 panicked

An operand was taken for a nested node of the delim itself, and comparing
terms panicked if they weren't comparable.
---
 ast/from_parsernode.go | 16 ++++++----------
 parser/parser.go       | 35 +++++++++++++++++++++++++----------
 parser/unparse.go      |  6 +++++-
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index ce59cd4..3a85f44 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -167,16 +167,12 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
 			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
-						childCtrs := newCounters(lrTerm)
-						b2 := Branch{}
-						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(g, lrTerm, childCtrs, child)
-						b.one(tag, b2)
-					} else {
-						b.fromParserNode(g, t.Term, ctrs, child)
-					}
+				if tgen.Nested() {
+					childCtrs := newCounters(lrTerm)
+					b2 := Branch{}
+					childCtrs.termCountChildren(t, ctrs[""])
+					b2.fromParserNode(g, lrTerm, childCtrs, child)
+					b.one(tag, b2)
 				} else {
 					b.fromParserNode(g, lrTerm, ctrs, child)
 				}
diff --git a/parser/parser.go b/parser/parser.go
index 8bcf45b..2cd470e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -484,10 +484,12 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 }
 
 type LRTGen struct {
-	sides   [2]Term
-	sep     Term
-	side    int
-	sepnext bool
+	sides    [2]Term
+	sep      Term
+	side     int
+	sepnext  bool
+	nested   bool // whether one of the sides is a nested node of the same delim
+	nestSide int  // the side that is nested
 }
 
 func (l *LRTGen) Next() Term {
@@ -503,15 +505,28 @@ func (l *LRTGen) Next() Term {
 	return out
 }
 
+// Nested returns true iff the term that was last returned by Next is the
+// associative delim itself, as opposed to its term or separator.
+func (l *LRTGen) Nested() bool {
+	return l.nested && l.sepnext && l.side == l.nestSide+1
+}
+
 func (t Delim) LRTerms(node Node) LRTGen {
-	associativity := node.Extra.(Associativity)
-	switch {
+	l := LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
+	child := 0
+	switch associativity := node.Extra.(Associativity); {
 	case associativity < 0:
-		return LRTGen{sides: [2]Term{t.Term, t}, sep: t.Sep}
-	case associativity > 0:
-		return LRTGen{sides: [2]Term{t, t.Term}, sep: t.Sep}
+		child = 2
+	case associativity == 0:
+		return l
+	}
+	// The innermost node has no nested node.
+	if n, ok := node.Children[child].(Node); ok && n.Tag == node.Tag && n.Extra == node.Extra {
+		l.nested = true
+		l.nestSide = child / 2
+		l.sides[l.nestSide] = t
 	}
-	return LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
+	return l
 }
 
 //-----------------------------------------------------------------------------
diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..4cbabca 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -47,7 +47,11 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 	node := e.(Node)
 	tgen := t.LRTerms(node)
 	for _, child := range node.Children {
-		if err = unparse(g, tgen.Next(), child, w, &n); err != nil {
+		term := tgen.Next()
+		if _, ok := child.(Empty); ok {
+			continue
+		}
+		if err = unparse(g, term, child, w, &n); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From 6d39af073e5319ba04a2548a18ec97a37e93212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:59 +0000
Subject: [PATCH 26/74] fix: the node of a rule that consists of a named group
 wasn't tagged with the rule

Converting such a node to an AST panicked.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2cd470e..e1b29d1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -686,7 +686,7 @@ func (t Stack) Term() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t Named) Parser(rule Rule, c cache) Parser {
-	return t.Term.Parser(Rule(t.Name), c)
+	return t.Term.Parser(ruleOrAlt(rule, Rule(t.Name)), c)
 }
 func (t Named) AsTerm() Term { return t }
 
-- 
2.43.0


From 7280c115d0d54110bd34e8d051292055f8e34650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:57 +0000
Subject: [PATCH 27/74] fix: rules that stand for a named or scoped rule
 panicked

A rule whose body is a named rule (as in 'f -> foo=@ > BAR'), a scoped
grammar applied to a bare rule, and a nested rule that stands for a rule of
the enclosing grammar all compiled to unresolved parsers.
---
 parser/parser.go | 51 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1b29d1..af48e08 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -93,6 +93,29 @@ func (g Grammar) resolveStacks() {
 	}
 }
 
+// resolveAlias follows a chain of rules, which may be named, to the term that
+// the last one stands for. It stops at rules that aren't in the grammar. It also
+// returns the name to parse the term as, which is that of the first rule if name
+// is empty.
+func (g Grammar) resolveAlias(name Rule, term Term) (Rule, Term) {
+	for {
+		target := term
+		if named, ok := term.(Named); ok {
+			target = named.Term
+		}
+		rule, ok := target.(Rule)
+		if !ok {
+			return name, term
+		}
+		next, ok := g[rule]
+		if !ok {
+			return name, target
+		}
+		name = ruleOrAlt(name, rule)
+		term = next
+	}
+}
+
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
@@ -110,14 +133,7 @@ func (g Grammar) Compile(node any) Parsers {
 		rulePtrses: map[Rule][]*Parser{},
 	}
 	for rule, term := range g {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = g[r]
-				continue
-			}
-			break
-		}
+		_, term = g.resolveAlias("", term)
 		c.parsers[rule] = term.Parser(rule, c)
 	}
 
@@ -783,21 +799,20 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		rulePtrses: map[Rule][]*Parser{},
 	}
 	for rule, term := range t.Grammar {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = t.Grammar[r]
-				continue
-			}
-			break
-		}
+		_, term = t.Grammar.resolveAlias("", term)
 		cc.parsers[rule] = term.Parser(rule, cc)
 	}
 
 	// At this point we have the nested grammar cache populated with the grammar rules
 	// We now need to hook up the correct terms from the original grammar
 
-	result := t.Term.Parser(name, cc)
+	name, term := t.Grammar.resolveAlias(name, t.Term)
+	if _, ok := term.(Rule); ok {
+		// The entire term comes from the previous scope.
+		name, term = c.grammar.resolveAlias(name, term)
+		return term.Parser(name, c)
+	}
+	result := term.Parser(name, cc)
 	cc.registerRule(&result)
 	for rule, rulePtrs := range cc.rulePtrses {
 		if _, has := t.Grammar[rule]; has {
@@ -805,6 +820,8 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				// p may be an alias of a rule from the previous scope.
+				c.registerRule(rulePtr)
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From 25db529a3389a3834b4faa51b253f3dda7d434c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 28/74] fix: AST conversion of a precedence stack in a scoped
 grammar panicked

The parser resolved the stack, but the grammar that the AST conversion
uses didn't.
---
 ast/from_parsernode.go |  2 +-
 parser/parser.go       | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 3a85f44..bc55e5a 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -39,7 +39,7 @@ func withScopedGrammar(g, scoped parser.Grammar) parser.Grammar {
 	for rule, term := range g {
 		result[rule] = term
 	}
-	for rule, term := range scoped {
+	for rule, term := range scoped.ResolveStacks() {
 		result[rule] = term
 	}
 	return result
diff --git a/parser/parser.go b/parser/parser.go
index af48e08..cfec9e5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -77,6 +77,19 @@ func (g Grammar) clone() Grammar {
 	return clone
 }
 
+// ResolveStacks returns the grammar with every stack replaced by one rule per
+// level, which is the grammar that a compiled parser's nodes conform to.
+func (g Grammar) ResolveStacks() Grammar {
+	for _, term := range g {
+		if _, ok := term.(Stack); ok {
+			g = g.clone()
+			g.resolveStacks()
+			break
+		}
+	}
+	return g
+}
+
 func (g Grammar) resolveStacks() {
 	for rule, term := range g {
 		if stack, ok := term.(Stack); ok {
@@ -119,13 +132,7 @@ func (g Grammar) resolveAlias(name Rule, term Term) (Rule, Term) {
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
-	for _, term := range g {
-		if _, ok := term.(Stack); ok {
-			g = g.clone()
-			g.resolveStacks()
-			break
-		}
-	}
+	g = g.ResolveStacks()
 
 	c := cache{
 		parsers:    map[Rule]Parser{},
-- 
2.43.0


From 0580e1975c35dd75e074d30e98c04694acce8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:20 +0000
Subject: [PATCH 29/74] fix: resolve rules that stand for scoped rules without
 inlining them

A scoped grammar applied to a bare rule of the enclosing grammar was parsed as
a copy of that rule, which never ended if the rule was recursive.
---
 parser/parser.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index cfec9e5..5c069a9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -106,16 +106,22 @@ func (g Grammar) resolveStacks() {
 	}
 }
 
-// resolveAlias follows a chain of rules, which may be named, to the term that
-// the last one stands for. It stops at rules that aren't in the grammar. It also
-// returns the name to parse the term as, which is that of the first rule if name
-// is empty.
+// resolveAlias follows a chain of rules, which may be named or scoped, to the
+// term that the last one stands for. It stops at rules that aren't in the
+// grammar. It also returns the name to parse the term as, which is that of the
+// first rule if name is empty.
 func (g Grammar) resolveAlias(name Rule, term Term) (Rule, Term) {
 	for {
 		target := term
 		if named, ok := term.(Named); ok {
 			target = named.Term
 		}
+		if scoped, ok := target.(ScopedGrammar); ok {
+			if _, inner := scoped.Grammar.resolveAlias("", scoped.Term); isRule(inner) {
+				// The entire term comes from the previous scope.
+				target = inner
+			}
+		}
 		rule, ok := target.(Rule)
 		if !ok {
 			return name, term
@@ -129,6 +135,11 @@ func (g Grammar) resolveAlias(name Rule, term Term) (Rule, Term) {
 	}
 }
 
+func isRule(term Term) bool {
+	_, ok := term.(Rule)
+	return ok
+}
+
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
@@ -814,9 +825,8 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	// We now need to hook up the correct terms from the original grammar
 
 	name, term := t.Grammar.resolveAlias(name, t.Term)
-	if _, ok := term.(Rule); ok {
+	if isRule(term) {
 		// The entire term comes from the previous scope.
-		name, term = c.grammar.resolveAlias(name, term)
 		return term.Parser(name, c)
 	}
 	result := term.Parser(name, cc)
-- 
2.43.0


From bc4207b18bc4e1d8a64d363548e237f15f853e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:20 +0000
Subject: [PATCH 30/74] fix: the scoped grammar of a precedence stack's layer
 was dropped

---
 wbnf/compile.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d5e676e..882294e 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -251,6 +251,23 @@ func (gb grammarBuilder) buildNamed(n NamedNode) parser.Term {
 	return atom
 }
 
+// scopeLayers applies the grammars of a precedence stack to the layers that they
+// follow.
+func (gb grammarBuilder) scopeLayers(t TermNode, layers []parser.Term) {
+	offset := func(node ast.Node) int {
+		scanner := node.Scanner()
+		return scanner.Offset()
+	}
+	terms := t.AllTerm()
+	for _, g := range t.AllGrammar() {
+		i := len(terms) - 1
+		for i > 0 && offset(g.Node) < offset(terms[i].Node) {
+			i--
+		}
+		layers[i] = parser.ScopedGrammar{Term: layers[i], Grammar: gb.buildGrammar(g.Node)}
+	}
+}
+
 func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 	if len(t.AllTerm()) > 0 {
 		var terms []parser.Term
@@ -261,6 +278,7 @@ func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 		case "|":
 			return append(parser.Oneof{}, terms...)
 		case ">":
+			gb.scopeLayers(t, terms)
 			return append(parser.Stack{}, terms...)
 		}
 		var sg *parser.ScopedGrammar
-- 
2.43.0


From 20777231abcfcb3af86633a80675c63fa04a3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:35 +0000
Subject: [PATCH 31/74] fix: hidden left recursion overflowed the stack instead
 of failing validation

Left recursion through scoped grammars, macros, precedence stacks, separated
lists, repetitions with a minimum, and behind terms that match the empty
string was accepted, and parsing (or compiling) then never ended.
---
 wbnf/compile.go       |   3 +
 wbnf/leftrecursion.go | 237 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 240 insertions(+)
 create mode 100644 wbnf/leftrecursion.go

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 882294e..d94afd8 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -427,6 +427,9 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validateTerms(g); err != nil {
 		return parser.Parsers{}, err
 	}
+	if err := findLeftRecursion(g); err != nil {
+		return parser.Parsers{}, err
+	}
 	return g.Compile(node), nil
 }
 
diff --git a/wbnf/leftrecursion.go b/wbnf/leftrecursion.go
new file mode 100644
index 0000000..c53d090
--- /dev/null
+++ b/wbnf/leftrecursion.go
@@ -0,0 +1,237 @@
+package wbnf
+
+import (
+	"fmt"
+	"regexp"
+	"sort"
+	"strings"
+
+	"github.com/arr-ai/wbnf/parser"
+)
+
+// leftRecursion finds the rules that parsing could enter again without having
+// consumed any input in between, and hence would enter forever. This is beyond
+// the reach of checkForRecursion, which doesn't see scoped grammars, expanded
+// macros and precedence stacks, nor which terms match the empty string.
+type leftRecursion struct {
+	rules    map[parser.Rule]parser.Term // of all scopes, under unique names
+	nullable map[parser.Rule]bool        // rules that can match the empty string
+}
+
+// leftRecursionScope is where the rules of a (scoped) grammar are visible.
+type leftRecursionScope struct {
+	grammar parser.Grammar
+	prefix  string // for unique names of the rules
+	outer   *leftRecursionScope
+	wrapRE  string
+	bare    map[parser.Term]bool // terms that wrapRE doesn't apply to
+}
+
+func findLeftRecursion(g parser.Grammar) error {
+	lr := leftRecursion{
+		rules:    map[parser.Rule]parser.Term{},
+		nullable: map[parser.Rule]bool{},
+	}
+	lr.flatten(g, &leftRecursionScope{wrapRE: "()"})
+	for changed := true; changed; {
+		changed = false
+		for rule, term := range lr.rules {
+			if !lr.nullable[rule] && lr.isNullable(term) {
+				lr.nullable[rule] = true
+				changed = true
+			}
+		}
+	}
+
+	rules := make([]string, 0, len(lr.rules))
+	for rule := range lr.rules {
+		rules = append(rules, string(rule))
+	}
+	sort.Strings(rules)
+	done := map[parser.Rule]bool{}
+	for _, rule := range rules {
+		if cycle := lr.findCycle(parser.Rule(rule), nil, done); cycle != nil {
+			return validationError{
+				msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(cycle, " > ")),
+				kind: PossibleCycleDetected,
+			}
+		}
+	}
+	return nil
+}
+
+// flatten adds the rules of a grammar under unique names, with scoped grammars
+// and precedence stacks resolved.
+func (lr *leftRecursion) flatten(g parser.Grammar, outer *leftRecursionScope) *leftRecursionScope {
+	scope := *outer
+	scope.grammar, scope.outer = g, outer
+	if outer.outer != nil {
+		scope.prefix = fmt.Sprintf("%d:", len(lr.rules))
+	}
+	if wrap, has := g[parser.WrapRE]; has {
+		scope.bare = map[parser.Term]bool{}
+		if oneof, ok := wrap.(parser.Oneof); ok {
+			for _, t := range oneof[:len(oneof)-1] {
+				switch t.(type) {
+				case parser.S, parser.RE:
+					scope.bare[t] = true
+				}
+			}
+			wrap = oneof[len(oneof)-1]
+		}
+		scope.wrapRE = string(wrap.(parser.RE))
+	}
+	// Claim the names before those of scopes within.
+	for rule := range g {
+		lr.rules[parser.Rule(scope.prefix)+rule] = nil
+	}
+	for rule, term := range g {
+		name := parser.Rule(scope.prefix) + rule
+		layers, ok := term.(parser.Stack)
+		if !ok {
+			lr.rules[name] = lr.flattenTerm(term, &scope, parser.At)
+			continue
+		}
+		layer := func(i int) parser.Rule {
+			if i %= len(layers); i > 0 {
+				return parser.Rule(fmt.Sprintf("%s@%d", name, i))
+			}
+			return name
+		}
+		for i, term := range layers {
+			lr.rules[layer(i)] = lr.flattenTerm(term, &scope, layer(i+1))
+		}
+	}
+	return &scope
+}
+
+func (lr *leftRecursion) flattenTerm(term parser.Term, scope *leftRecursionScope, at parser.Rule) parser.Term {
+	token := func(re string) parser.Term {
+		if !scope.bare[term] {
+			re = strings.Replace(scope.wrapRE, "()", "(?:"+re+")", 1)
+		}
+		return parser.RE(re)
+	}
+	switch t := term.(type) {
+	case parser.S:
+		return token(regexp.QuoteMeta(string(t)))
+	case parser.RE:
+		return token("(" + string(t) + ")")
+	case parser.Rule:
+		if t == parser.At {
+			return at
+		}
+		for s := scope; s.outer != nil; s = s.outer {
+			if _, has := s.grammar[t]; has {
+				return parser.Rule(s.prefix) + t
+			}
+		}
+	case parser.ScopedGrammar:
+		return lr.flattenTerm(t.Term, lr.flatten(t.Grammar, scope), at)
+	case parser.Seq:
+		out := parser.Seq{}
+		for _, t := range t {
+			out = append(out, lr.flattenTerm(t, scope, at))
+		}
+		return out
+	case parser.Oneof:
+		out := parser.Oneof{}
+		for _, t := range t {
+			out = append(out, lr.flattenTerm(t, scope, at))
+		}
+		return out
+	case parser.Delim:
+		t.Term = lr.flattenTerm(t.Term, scope, at)
+		t.Sep = lr.flattenTerm(t.Sep, scope, at)
+		return t
+	case parser.Quant:
+		t.Term = lr.flattenTerm(t.Term, scope, at)
+		return t
+	case parser.LookAhead:
+		return parser.LookAhead{Term: lr.flattenTerm(t.Term, scope, at)}
+	case parser.Named:
+		return lr.flattenTerm(t.Term, scope, at)
+	case parser.CutPoint:
+		return lr.flattenTerm(t.Term, scope, at)
+	}
+	return term
+}
+
+func (lr *leftRecursion) isNullable(term parser.Term) bool {
+	switch t := term.(type) {
+	case parser.RE:
+		re, err := regexp.Compile(`(?m)\A` + string(t))
+		return err == nil && re.MatchString("")
+	case parser.Rule:
+		return lr.nullable[t]
+	case parser.Seq:
+		for _, t := range t {
+			if !lr.isNullable(t) {
+				return false
+			}
+		}
+		return true
+	case parser.Oneof:
+		for _, t := range t {
+			if lr.isNullable(t) {
+				return true
+			}
+		}
+	case parser.Delim:
+		return lr.isNullable(t.Term)
+	case parser.Quant:
+		return t.Min == 0 || lr.isNullable(t.Term)
+	case parser.LookAhead:
+		return true
+	}
+	return false
+}
+
+// first calls f for the rules that the term can enter without having consumed
+// any input.
+func (lr *leftRecursion) first(term parser.Term, f func(parser.Rule)) {
+	switch t := term.(type) {
+	case parser.Rule:
+		f(t)
+	case parser.Seq:
+		for _, t := range t {
+			lr.first(t, f)
+			if !lr.isNullable(t) {
+				return
+			}
+		}
+	case parser.Oneof:
+		for _, t := range t {
+			lr.first(t, f)
+		}
+	case parser.Delim:
+		lr.first(t.Term, f)
+		if t.CanStartWithSep || lr.isNullable(t.Term) {
+			lr.first(t.Sep, f)
+		}
+	case parser.Quant:
+		lr.first(t.Term, f)
+	case parser.LookAhead:
+		lr.first(t.Term, f)
+	}
+}
+
+// findCycle returns the names of the rules in a cycle that is reachable from the
+// given rule, which path leads to.
+func (lr *leftRecursion) findCycle(rule parser.Rule, path []string, done map[parser.Rule]bool) (cycle []string) {
+	for i, r := range path {
+		if r == string(rule) {
+			return append(append([]string{}, path[i:]...), r)
+		}
+	}
+	if done[rule] {
+		return nil
+	}
+	lr.first(lr.rules[rule], func(next parser.Rule) {
+		if cycle == nil {
+			cycle = lr.findCycle(next, append(path, string(rule)), done)
+		}
+	})
+	done[rule] = true
+	return cycle
+}
-- 
2.43.0


From 4283f87c418fdc7095ec4adca17803d0d1ee4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:31 +0000
Subject: [PATCH 32/74] fix: terms with scoped grammars were not validated, so
 that compiling them panicked

Invalid strings, regular expressions and macro calls in them, and counts that
are out of range, panicked. Duplicate rules in scoped grammars were dropped.
---
 wbnf/compile.go    | 18 ++++++++-----
 wbnf/validation.go | 65 ++++++++++++++++++++++++++++++----------------
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d94afd8..1cb5791 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -334,16 +334,22 @@ func (gb grammarBuilder) buildGrammar(node ast.Node) parser.Grammar {
 	return g
 }
 
-func NewFromAst(node ast.Node) parser.Grammar {
-	gb := grammarBuilder{
-		macros: map[string]PragmaMacrodefNode{},
-	}
+// findMacros returns the macros that are defined anywhere in a grammar.
+func findMacros(tree GrammarNode) map[string]PragmaMacrodefNode {
+	macros := map[string]PragmaMacrodefNode{}
 	WalkerOps{
 		EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
-			gb.macros[node.OneName().String()] = node
+			macros[node.OneName().String()] = node
 			return nil
 		},
-	}.Walk(NewGrammarNode(node))
+	}.Walk(tree)
+	return macros
+}
+
+func NewFromAst(node ast.Node) parser.Grammar {
+	gb := grammarBuilder{
+		macros: findMacros(NewGrammarNode(node)),
+	}
 	g := gb.buildGrammar(node)
 
 	return insertCutPoints(g)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index b2d8714..b11bf57 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -11,10 +11,9 @@ import (
 	"github.com/arr-ai/wbnf/parser"
 )
 
-func findDefinedRules(tree GrammarNode) (frozen.Set[string], map[string]PragmaMacrodefNode, error) {
+func findDefinedRules(tree GrammarNode) (frozen.Set[string], error) {
 	var dupeRules []string
 	out := frozen.NewSet[string]()
-	macros := map[string]PragmaMacrodefNode{}
 	adder := func(ident string) {
 		if out.Has(ident) {
 			dupeRules = append(dupeRules, ident)
@@ -27,29 +26,27 @@ func findDefinedRules(tree GrammarNode) (frozen.Set[string], map[string]PragmaMa
 			return NodeExiter
 		},
 		EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
-			ident := node.OneName().String()
-			adder(ident)
-			macros[ident] = node
+			adder(node.OneName().String())
 			return NodeExiter
 		},
 	}
 	ops.Walk(tree)
 	if len(dupeRules) == 0 {
-		return out, macros, nil
+		return out, nil
 	}
-	return frozen.Set[string]{}, nil, validationError{
+	return frozen.Set[string]{}, validationError{
 		msg:  fmt.Sprintf("the following rule(s) are defined multiple times: %s", dupeRules),
 		kind: DuplicatedRule}
 }
 
 func validate(tree GrammarNode) error {
-	rules, macros, err := findDefinedRules(tree)
+	rules, err := findDefinedRules(tree)
 	if err != nil {
 		return err
 	}
 	v := validator{
 		knownRules: rules,
-		macros:     macros,
+		macros:     findMacros(tree),
 	}
 	v.walk(tree)
 
@@ -201,7 +198,14 @@ func (v *validator) Error() string {
 
 func (v *validator) validateTerm(tree TermNode) Stopper {
 	if len(tree.AllGrammar()) != 0 {
-		//fixme: This doesnt work for scoped grammars yet, abort!
+		//fixme: Names are not validated in scoped grammars yet, only what cannot be compiled.
+		WalkerOps{
+			EnterAtomNode:           v.validateToken,
+			EnterQuantNode:          v.validateQuant,
+			EnterGrammarNode:        v.validateScopedGrammar,
+			EnterPragmaMacrodefNode: v.validateExpansion,
+			EnterMacrocallNode:      v.validateMacroCall,
+		}.Walk(tree)
 		return NodeExiter
 	}
 	if tree.OneOp() == "" {
@@ -239,7 +243,19 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 					msg: "identifier '%s' is not a defined rule", kind: UnknownRule})
 			}
 		}
-	} else if x := tree.OneRe(); x != nil {
+	}
+	return v.validateToken(tree)
+}
+
+func (v *validator) validateScopedGrammar(tree GrammarNode) Stopper {
+	if _, err := findDefinedRules(tree); err != nil {
+		v.err = append(v.err, err)
+	}
+	return nil
+}
+
+func (v *validator) validateToken(tree AtomNode) Stopper {
+	if x := tree.OneRe(); x != nil {
 		// The parser puts the expression in a group, which, say, an unclosed \Q breaks.
 		re := parseRE(x.String())
 		_, err := regexp.Compile(re)
@@ -275,6 +291,14 @@ func (v *validator) validateString(str *StrNode) {
 	}
 }
 
+func (v *validator) validateInt(s string) int {
+	val, err := strconv.Atoi(s)
+	if err != nil {
+		v.err = append(v.err, validationError{msg: fmt.Sprintf("quant: %s is out of range", s), kind: MinMaxQuantError})
+	}
+	return val
+}
+
 func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
@@ -282,18 +306,10 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 		min := 0
 		max := 0
 		if x := tree.OneMin().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
-			}
-			min = val
+			min = v.validateInt(x)
 		}
 		if x := tree.OneMax().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
-			}
-			max = val
+			max = v.validateInt(x)
 		}
 		if min != 0 && max != 0 {
 			if max < min {
@@ -319,11 +335,16 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 		}
 	}
 	v.walk(node.OneTerm())
+	v.validateExpansion(node)
+	return NodeExiter
+}
+
+func (v *validator) validateExpansion(node PragmaMacrodefNode) Stopper {
 	if v.macroCalls(node, node.OneName().String(), map[string]bool{}) {
 		v.err = append(v.err, validationError{s: node.OneName().Scanner(),
 			msg: "macro '%s' expands itself", kind: PossibleCycleDetected})
 	}
-	return NodeExiter
+	return nil
 }
 
 // macroCalls determines if the expansion of a macro calls the named macro.
-- 
2.43.0


From 15af8cff6b6a2020f0778898553700fe0a3b4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:08 +0000
Subject: [PATCH 33/74] fix: left recursion behind a back reference to the
 empty string overflowed the stack

---
 wbnf/leftrecursion.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/wbnf/leftrecursion.go b/wbnf/leftrecursion.go
index c53d090..d2db946 100644
--- a/wbnf/leftrecursion.go
+++ b/wbnf/leftrecursion.go
@@ -123,7 +123,9 @@ func (lr *leftRecursion) flattenTerm(term parser.Term, scope *leftRecursionScope
 		}
 		for s := scope; s.outer != nil; s = s.outer {
 			if _, has := s.grammar[t]; has {
-				return parser.Rule(s.prefix) + t
+				rule := parser.Rule(s.prefix) + t
+				lr.bind(string(t), rule)
+				return rule
 			}
 		}
 	case parser.ScopedGrammar:
@@ -150,13 +152,28 @@ func (lr *leftRecursion) flattenTerm(term parser.Term, scope *leftRecursionScope
 	case parser.LookAhead:
 		return parser.LookAhead{Term: lr.flattenTerm(t.Term, scope, at)}
 	case parser.Named:
-		return lr.flattenTerm(t.Term, scope, at)
+		term := lr.flattenTerm(t.Term, scope, at)
+		lr.bind(t.Name, term)
+		return term
+	case parser.REF:
+		if t.Default != nil {
+			t.Default = lr.flattenTerm(t.Default, scope, at)
+		}
+		return t
 	case parser.CutPoint:
 		return lr.flattenTerm(t.Term, scope, at)
 	}
 	return term
 }
 
+// boundRule is a rule for all terms that a back reference to the name may repeat.
+func boundRule(name string) parser.Rule { return parser.Rule("%" + name) }
+
+func (lr *leftRecursion) bind(name string, term parser.Term) {
+	terms, _ := lr.rules[boundRule(name)].(parser.Oneof)
+	lr.rules[boundRule(name)] = append(terms, term)
+}
+
 func (lr *leftRecursion) isNullable(term parser.Term) bool {
 	switch t := term.(type) {
 	case parser.RE:
@@ -183,6 +200,8 @@ func (lr *leftRecursion) isNullable(term parser.Term) bool {
 		return t.Min == 0 || lr.isNullable(t.Term)
 	case parser.LookAhead:
 		return true
+	case parser.REF:
+		return lr.nullable[boundRule(t.Ident)] || t.Default != nil && lr.isNullable(t.Default)
 	}
 	return false
 }
-- 
2.43.0


From 347997726d28be10d491400466bc6f0cd3f3f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 34/74] fix: macro bodies were not validated

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index b11bf57..b4758ff 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -334,7 +334,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	v.validateExpansion(node)
 	return NodeExiter
 }
-- 
2.43.0


From 250e0cfc9916f6f74849567fb93c4d212e452556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:27 +0000
Subject: [PATCH 35/74] fix: a back reference to text that is not valid UTF-8
 panicked

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5c069a9..c99b692 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -738,7 +738,8 @@ func termFromRefVal(from TreeElement) Term {
 		}
 		term = s
 	case Scanner:
-		term = S(n.String())
+		// A regexp sees an invalid byte as U+FFFD. nodesEqual will tell them apart.
+		term = S(string([]rune(n.String())))
 	}
 	return term
 }
-- 
2.43.0


From 6931f207a7bd9c705dcdaa19ff2c2129e88336d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 36/74] fix: a .wrapRE regex without a place for the token
 panicked instead of failing validation

---
 wbnf/validation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index b4758ff..eb8de84 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+	"strings"
 
 	"github.com/arr-ai/frozen"
 
@@ -90,7 +91,7 @@ func (v *validator) validateGrammar(g parser.Grammar, outer frozen.Set[parser.Ru
 			if oneof, ok := term.(parser.Oneof); ok && len(oneof) > 0 {
 				term = oneof[len(oneof)-1]
 			}
-			if _, ok := term.(parser.RE); !ok {
+			if re, ok := term.(parser.RE); !ok || !wrapsToken(string(re)) {
 				v.err = append(v.err, validationError{
 					msg: fmt.Sprintf("%s does not wrap with a regex: '%s'", rule, term), kind: InvalidRegex})
 			}
@@ -98,6 +99,12 @@ func (v *validator) validateGrammar(g parser.Grammar, outer frozen.Set[parser.Ru
 	}
 }
 
+// wrapsToken determines if a token can take the place of the () in a .wrapRE regex.
+func wrapsToken(wrapRE string) bool {
+	re, err := regexp.Compile(strings.Replace(wrapRE, "()", "(?P<token>)", 1))
+	return err == nil && re.NumSubexp() > 0 && re.SubexpNames()[1] == "token"
+}
+
 func (v *validator) validateRefs(term parser.Term, known frozen.Set[parser.Rule]) {
 	switch t := term.(type) {
 	case parser.Rule:
-- 
2.43.0


From 98db41a5fe674d9ef648ad2ce3e0db36bf259e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 37/74] fix: AST conversion of associative layers, and of
 several layers in one rule, panicked

---
 ast/counter.go         | 4 +++-
 ast/from_parsernode.go | 8 ++++++--
 ast/to_parsernode.go   | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..3e97f1c 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -99,7 +99,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		// All layers of a stack go by the same name.
+		unleveled, _ := unlevel(string(t), nil)
+		ctrs.count(unleveled, parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index bc55e5a..007535e 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -145,7 +145,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		// 	// TODO: zeroOrOne
 		// }
 		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
 		gcopy := withScopedGrammar(g, t.Grammar)
 		b.fromParserNode(gcopy, t.Term, ctrs, e)
@@ -172,7 +172,11 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 					b2 := Branch{}
 					childCtrs.termCountChildren(t, ctrs[""])
 					b2.fromParserNode(g, lrTerm, childCtrs, child)
-					b.one(tag, b2)
+					if ctr, has := ctrs[tag]; has {
+						b.add(tag, b2, ctr)
+					} else {
+						b.one(tag, b2)
+					}
 				} else {
 					b.fromParserNode(g, lrTerm, ctrs, child)
 				}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 7eb9cfb..43e48e9 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -86,7 +86,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		name := string(t)
 		term := g[t]
 		unleveled, level := unlevel(name, g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
 			}
-- 
2.43.0


From d908e5c538ab33190f915676a139d9dfd8c29189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 38/74] fix: AST conversion resolved the rules of enclosing
 grammars in the nested one

---
 ast/from_parsernode.go | 57 ++++++++++++++++++++++++------------------
 ast/to_parsernode.go   | 29 +++++++++++----------
 2 files changed, 46 insertions(+), 40 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 007535e..9edf7b4 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -29,20 +29,28 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(g, term, ctrs, e)
+	result.fromParserNode(scope{rules: g}, term, ctrs, e)
 	return result.collapse(0).(Branch)
 }
 
-// withScopedGrammar returns g overlaid with the rules of a scoped grammar.
-func withScopedGrammar(g, scoped parser.Grammar) parser.Grammar {
-	result := make(parser.Grammar, len(g)+len(scoped))
-	for rule, term := range g {
-		result[rule] = term
-	}
-	for rule, term := range scoped.ResolveStacks() {
-		result[rule] = term
+// scope holds the rules that the terms of a (scoped) grammar may refer to.
+type scope struct {
+	rules parser.Grammar
+	outer *scope
+}
+
+func (s scope) scoped(g parser.Grammar) scope {
+	return scope{rules: g.ResolveStacks(), outer: &s}
+}
+
+// find returns the term of a rule, and the scope that the rule belongs to.
+func (s scope) find(rule parser.Rule) (parser.Term, scope) {
+	for {
+		if term, has := s.rules[rule]; has || s.outer == nil {
+			return term, s
+		}
+		s = *s.outer
 	}
-	return result
 }
 
 func (b Branch) collapse(level int) Node {
@@ -127,18 +135,18 @@ func (b Branch) many(name string, node Node) {
 	}
 }
 
-func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters, e parser.TreeElement) {
+func (b Branch) fromParserNode(s scope, term parser.Term, ctrs counters, e parser.TreeElement) {
 	var tag string
 	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
 	case parser.Rule:
-		rule := g[t]
+		rule, s := s.find(t)
 		childCtrs := newCounters(rule)
 		b2 := Branch{}
-		unleveled, level := unlevel(string(t), g)
-		b2.fromParserNode(g, rule, childCtrs, e)
+		unleveled, level := unlevel(string(t), s.rules)
+		b2.fromParserNode(s, rule, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -147,17 +155,16 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
-		gcopy := withScopedGrammar(g, t.Grammar)
-		b.fromParserNode(gcopy, t.Term, ctrs, e)
+		b.fromParserNode(s.scoped(t.Grammar), t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
 		for i, child := range node.Children {
-			b.fromParserNode(g, t[i], ctrs, child)
+			b.fromParserNode(s, t[i], ctrs, child)
 		}
 	case parser.Oneof:
 		node := e.(parser.Node)
 		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})
-		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
+		b.fromParserNode(s, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
@@ -171,26 +178,26 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 					childCtrs := newCounters(lrTerm)
 					b2 := Branch{}
 					childCtrs.termCountChildren(t, ctrs[""])
-					b2.fromParserNode(g, lrTerm, childCtrs, child)
+					b2.fromParserNode(s, lrTerm, childCtrs, child)
 					if ctr, has := ctrs[tag]; has {
 						b.add(tag, b2, ctr)
 					} else {
 						b.one(tag, b2)
 					}
 				} else {
-					b.fromParserNode(g, lrTerm, ctrs, child)
+					b.fromParserNode(s, lrTerm, ctrs, child)
 				}
 			}
 		}
 	case parser.Quant:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(s, t.Term, ctrs, child)
 		}
 	case parser.Named:
 		childCtrs := newCounters(t.Term)
 		b2 := Branch{}
-		b2.fromParserNode(g, t.Term, childCtrs, e)
+		b2.fromParserNode(s, t.Term, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -204,12 +211,12 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		case parser.Node:
 			b2 := Branch{}
 			for _, child := range e.Children {
-				b2.fromParserNode(g, term, ctrs, child)
+				b2.fromParserNode(s, term, ctrs, child)
 			}
 			b.add(t.Ident, b2, ctrs[t.Ident])
 		}
 	case parser.CutPoint:
-		b.fromParserNode(g, t.Term, ctrs, e)
+		b.fromParserNode(s, t.Term, ctrs, e)
 	case parser.ExtRef:
 		if node, ok := e.(parser.Node); ok {
 			if b2, ok := node.Extra.(Branch); ok {
@@ -220,7 +227,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 	case parser.LookAhead:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(s, t.Term, ctrs, child)
 		}
 	default:
 		panic(fmt.Errorf("branch.fromParserNode: unexpected term type: %v %[1]T", t))
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 43e48e9..367dee1 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -13,7 +13,7 @@ func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	term := g[rule]
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(g, term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(scope{rules: g}, term, ctrs))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -74,8 +74,8 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
-func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
-	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
+func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
+	// defer enterf("%v.toParserNode(s, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		if node := b.pull("", ctrs[""]); node != nil {
@@ -84,8 +84,8 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return nil
 	case parser.Rule:
 		name := string(t)
-		term := g[t]
-		unleveled, level := unlevel(name, g)
+		term, s := s.find(t)
+		unleveled, level := unlevel(name, s.rules)
 		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
@@ -96,7 +96,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(g, term, childCtrs))
+				return relabelNode(string(t), node.toParserNode(s, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -105,12 +105,11 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := withScopedGrammar(g, t.Grammar)
-		return b.toParserNode(gcopy, t.Term, ctrs)
+		return b.toParserNode(s.scoped(t.Grammar), t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
 		for _, child := range t {
-			if node := b.toParserNode(g, child, ctrs); node != nil {
+			if node := b.toParserNode(s, child, ctrs); node != nil {
 				result.Children = append(result.Children, node)
 			} else {
 				return nil
@@ -123,7 +122,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			return parser.Node{
 				Tag:      oneofTag,
 				Extra:    extra,
-				Children: []parser.TreeElement{b.toParserNode(g, t[extra], ctrs)},
+				Children: []parser.TreeElement{b.toParserNode(s, t[extra], ctrs)},
 			}
 		}
 		return nil
@@ -135,7 +134,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		terms := [2]parser.Term{t.Term, t.Sep}
 		i := 0
 		for ; ; i++ {
-			if child := b.toParserNode(g, terms[i%2], ctrs); child != nil {
+			if child := b.toParserNode(s, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
@@ -148,7 +147,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
 		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
+			if v := b.toParserNode(s, t.Term, ctrs); v != nil {
 				result.Children = append(result.Children, v)
 			} else {
 				break
@@ -166,7 +165,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))
+				return relabelNode(t.Name, node.toParserNode(s, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -175,9 +174,9 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.CutPoint:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(s, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(s, t.Term, ctrs)
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
-- 
2.43.0


From 3b5bff222a7e5c0357e1ad453d9bbfdfebef1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:13 +0000
Subject: [PATCH 39/74] fix: ToParserNode dropped the nodes of lookaheads

---
 ast/node.go          | 2 ++
 ast/to_parsernode.go | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index 46b9c30..79bbef9 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -16,6 +16,8 @@ const (
 	delimTag = ":"
 	quantTag = "?"
 
+	lookaheadTag = "?="
+
 	RuleTag   = "@rule"
 	ChoiceTag = "@choice"
 	SkipTag   = "@skip"
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 367dee1..efd0edf 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -176,7 +176,10 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 	case parser.CutPoint:
 		return b.toParserNode(s, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(s, t.Term, ctrs)
+		if node := b.toParserNode(s, t.Term, ctrs); node != nil {
+			return parser.Node{Tag: lookaheadTag, Children: []parser.TreeElement{node}}
+		}
+		return nil
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
-- 
2.43.0


From ef6e6068c7aa06da124d5ef307f67f64812973a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 40/74] fix: ToParserNode added an element to a repetition at
 its maximum, and repeated empty ones forever

---
 ast/to_parsernode.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index efd0edf..1815f65 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -74,6 +74,19 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
+// count returns the number of children that are left to pull.
+func (b Branch) count() int {
+	n := 0
+	for _, children := range b {
+		if many, ok := children.(Many); ok {
+			n += len(many)
+		} else {
+			n++
+		}
+	}
+	return n
+}
+
 func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(s, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
@@ -146,8 +159,13 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
+		for !t.MaxLessThan(len(result.Children) + 1) {
+			before := b.count()
 			if v := b.toParserNode(s, t.Term, ctrs); v != nil {
+				if t.Max == 0 && len(result.Children) >= t.Min && b.count() == before {
+					// An element that matched nothing would repeat forever.
+					break
+				}
 				result.Children = append(result.Children, v)
 			} else {
 				break
-- 
2.43.0


From ea72262b92289a8f07eed87ff57b1eff55c2ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 41/74] fix: ToParserNode relabelled the node of a rule with
 the name of the term that stands for it

---
 ast/to_parsernode.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 1815f65..06af62d 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -24,6 +24,27 @@ func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
 	return e
 }
 
+// rule returns the rule that term merely stands for, if any.
+func (s scope) rule(term parser.Term) (parser.Rule, bool) {
+	switch t := term.(type) {
+	case parser.Rule:
+		return t, true
+	case parser.Named:
+		return s.rule(t.Term)
+	case parser.ScopedGrammar:
+		inner := s.scoped(t.Grammar)
+		rule, ok := s.rule(t.Term)
+		for ok {
+			body, has := inner.rules[rule]
+			if !has {
+				return rule, true
+			}
+			rule, ok = inner.rule(body)
+		}
+	}
+	return "", false
+}
+
 func expandNode(n Node, name string) Node {
 	return n
 	// switch n := n.(type) {
@@ -183,7 +204,11 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(s, t.Term, childCtrs))
+				child := node.toParserNode(s, t.Term, childCtrs)
+				if _, ok := s.rule(t.Term); ok {
+					return child // The rule's name prevails.
+				}
+				return relabelNode(t.Name, child)
 			case Leaf:
 				return parser.Scanner(node)
 			default:
-- 
2.43.0


From a93c21991d19388955507e59c5bfa2653425fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 42/74] fix: ToParserNode panicked on an optional element that
 must repeat, and on separators without content

---
 ast/to_parsernode.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 06af62d..2664b50 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -166,16 +166,25 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 			Extra: parser.NonAssociative,
 		}
 		terms := [2]parser.Term{t.Term, t.Sep}
-		i := 0
+		i, count := 0, 0
 		for ; ; i++ {
+			before := b.count()
 			if child := b.toParserNode(s, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
 			}
+			count = before - b.count()
+		}
+		if i == 0 {
+			return nil
 		}
 		if i%2 == 0 {
-			panic(errors.Inconceivable)
+			if count > 0 {
+				panic(errors.Inconceivable)
+			}
+			// A separator that has no content of its own comes back even after the last element.
+			v.Children = v.Children[:i-1]
 		}
 		return v
 	case parser.Quant:
@@ -193,7 +202,7 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 			}
 		}
 		if !t.Contains(len(result.Children)) {
-			panic(errors.Inconceivable)
+			return nil
 		}
 		return result
 	case parser.Named:
-- 
2.43.0


From 8900d7dab5ec1faac328afcc21878da82709f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 43/74] fix: an empty list of AST nodes had the same contents
 as any single one

---
 ast/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 79bbef9..98bca79 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -201,8 +201,8 @@ func (b Branch) ContentEquals(other Node) bool {
 					return false
 				}
 			case Many:
-				otherNodes := other.Many(k)
-				if len(v) != len(otherNodes) {
+				otherNodes, ok := other[k].(Many)
+				if !ok || len(v) != len(otherNodes) {
 					return false
 				}
 				for i, n := range v {
-- 
2.43.0


From 07dd3943f203e636c27e254488eca0a75c276980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 44/74] fix: slices and positions of a scanner whose source was
 stripped were wrong or panicked

---
 parser/scanner.go | 62 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/parser/scanner.go b/parser/scanner.go
index 68cd2bb..19b5513 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -17,6 +17,7 @@ type source interface {
 	length() int                // the length of the entire source string
 	slice(i, length int) string // the string of the given slice
 	filename() string           // the name of the file from which the source is derived (or empty if none)
+	position(i int) (line, col int)
 	stripSource(i, length int) source
 }
 
@@ -116,7 +117,7 @@ func (s Scanner) Offset() int {
 
 // The 1-indexed line and column number of the start of the scanner within the original source.
 func (s Scanner) Position() (int, int) {
-	return lineColumn(s.src.slice(0, s.sliceStart), s.sliceStart)
+	return s.src.position(s.sliceStart)
 }
 
 // The slice that is visible to the scanner
@@ -215,8 +216,13 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 // - stringSource
 
 func (s stringSource) stripSource(offset, size int) source {
-	s.origin = s.slice(offset, size)
-	return s
+	line, col := s.position(offset)
+	return strippedSource{
+		stringSource: stringSource{origin: s.slice(offset, size), f: s.f},
+		start:        offset,
+		line:         line,
+		col:          col,
+	}
 }
 
 func (s stringSource) length() int {
@@ -235,6 +241,56 @@ func (s stringSource) filename() string {
 	return s.f
 }
 
+func (s stringSource) position(i int) (line, col int) {
+	return lineColumn(s.slice(0, i), i)
+}
+
+// - strippedSource
+
+// strippedSource is what StripSource leaves of a source.
+type strippedSource struct {
+	stringSource     // the part that is left
+	start        int // the offset of that part in the entire source
+	line, col    int // the position of that part in the entire source
+}
+
+func (s strippedSource) stripSource(offset, size int) source {
+	line, col := s.position(offset)
+	return strippedSource{
+		stringSource: stringSource{origin: s.slice(offset, size), f: s.f},
+		start:        offset,
+		line:         line,
+		col:          col,
+	}
+}
+
+func (s strippedSource) length() int {
+	return s.start + len(s.origin)
+}
+
+// slice returns as much of the given slice as is left.
+func (s strippedSource) slice(i, length int) string {
+	clamp := func(i int) int {
+		switch i -= s.start; {
+		case i < 0:
+			return 0
+		case i > len(s.origin):
+			return len(s.origin)
+		}
+		return i
+	}
+	return s.origin[clamp(i):clamp(i+length)]
+}
+
+func (s strippedSource) position(i int) (line, col int) {
+	prefix := s.slice(s.start, i-s.start)
+	line, col = lineColumn(prefix, len(prefix))
+	if line == 1 {
+		col += s.col - 1
+	}
+	return line + s.line - 1, col
+}
+
 // The 1-indexed line and column number of the given position within the given string.
 func lineColumn(str string, pos int) (line, col int) {
 	prefix := str[:pos]
-- 
2.43.0


From 49171c0dd1c320c8c669b4db674776f4945cd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:36 +0000
Subject: [PATCH 45/74] fix: printing a tree took time quadratic in its size,
 so that the error of a failed parse could take minutes

---
 gotree/gotree.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index 57e0ff4..c9bbb02 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -118,26 +118,27 @@ func (p *printer) Print(t Tree) string {
 }
 
 func (p *printer) printText(text string, spaces []bool, last bool) string {
-	var result string
+	var prefix strings.Builder
 	for _, space := range spaces {
 		if space {
-			result += emptySpace
+			prefix.WriteString(emptySpace)
 		} else {
-			result += continueItem
+			prefix.WriteString(continueItem)
 		}
 	}
+	result := prefix.String()
 
 	indicator := middleItem
 	if last {
 		indicator = lastItem
 	}
 
-	var out string
+	var out strings.Builder
 	lines := strings.Split(text, "\n")
 	for i := range lines {
 		text := lines[i]
 		if i == 0 {
-			out += result + indicator + text + newLine
+			out.WriteString(result + indicator + text + newLine)
 			continue
 		}
 		if last {
@@ -145,21 +146,21 @@ func (p *printer) printText(text string, spaces []bool, last bool) string {
 		} else {
 			indicator = continueItem
 		}
-		out += result + indicator + text + newLine
+		out.WriteString(result + indicator + text + newLine)
 	}
 
-	return out
+	return out.String()
 }
 
 func (p *printer) printItems(t []Tree, spaces []bool) string {
-	var result string
+	var result strings.Builder
 	for i, f := range t {
 		last := i == len(t)-1
-		result += p.printText(f.Text(), spaces, last)
+		result.WriteString(p.printText(f.Text(), spaces, last))
 		if len(f.Items()) > 0 {
 			spacesChild := append(spaces, last)
-			result += p.printItems(f.Items(), spacesChild)
+			result.WriteString(p.printItems(f.Items(), spacesChild))
 		}
 	}
-	return result
+	return result.String()
 }
-- 
2.43.0


From 9d8ef99a6cfc4d8aabcb893076136506f4f35914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 46/74] fix: an escape in place of a part of a list panicked

---
 parser/parser.go | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c99b692..5db7e0b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -326,10 +326,11 @@ func (t RE) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type seqParser struct {
-	rule    Rule
-	t       Seq
-	parsers []Parser
-	put     putter
+	rule     Rule
+	t        Seq
+	parsers  []Parser
+	put      putter
+	noEscape bool
 }
 
 func identFromTerm(term Term) string {
@@ -343,6 +344,8 @@ func identFromTerm(term Term) string {
 		return string(x)
 	case Quant:
 		return identFromTerm(x.Term)
+	case delimPart:
+		return identFromTerm(x.Term)
 	}
 	return ""
 }
@@ -374,8 +377,10 @@ func nodesEqual(a, b any) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.noEscape {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -499,11 +504,11 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 	// a -> x:y,   ===   a -> x (y x)* y?
 	seq := Seq{}
 	if t.CanStartWithSep {
-		seq = append(seq, Opt(t.Sep))
+		seq = append(seq, delimPart{Opt(t.Sep)})
 	}
-	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Term})})
+	seq = append(seq, delimPart{Seq{t.Term, delimPart{Any(delimPart{Seq{t.Sep, t.Term}})}}})
 	if t.CanEndWithSep {
-		seq = append(seq, Opt(t.Sep))
+		seq = append(seq, delimPart{Opt(t.Sep)})
 	}
 
 	p := &delimParser{
@@ -517,6 +522,23 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 	return p
 }
 
+// delimPart is a term that isn't in the grammar, so that an escape can't take
+// its place, but only that of the terms in it.
+type delimPart struct {
+	Term
+}
+
+func (t delimPart) Parser(rule Rule, c cache) Parser {
+	p := t.Term.Parser(rule, c)
+	switch p := p.(type) {
+	case *seqParser:
+		p.noEscape = true
+	case *quantParser:
+		p.noEscape = true
+	}
+	return p
+}
+
 type LRTGen struct {
 	sides    [2]Term
 	sep      Term
@@ -602,16 +624,19 @@ func (t LookAhead) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type quantParser struct {
-	rule Rule
-	t    Quant
-	term Parser
-	put  putter
+	rule     Rule
+	t        Quant
+	term     Parser
+	put      putter
+	noEscape bool
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.noEscape {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, p.t.Min)
 	var v TreeElement
-- 
2.43.0


From b81080323690ea022d090ab1584430f0f80b8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 47/74] fix: report differences between trees in the order of
 the children

The report iterated over maps, so that its order differed from call to call.
---
 parser/diff/nodes.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 543074d..fb2f81e 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -38,11 +38,17 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if len(d.A.Children) != len(d.B.Children) {
 		fmt.Fprintf(w, "%slen(Children): %v != %v", prefix, len(d.A.Children), len(d.B.Children))
 	}
-	for i, t := range d.Types {
+	for i := range d.A.Children {
+		t, differ := d.Types[i]
+		if !differ {
+			continue
+		}
 		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
 	}
-	for i, d := range d.Children {
-		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+	for i := range d.A.Children {
+		if child, differs := d.Children[i]; differs {
+			child.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+		}
 	}
 }
 
-- 
2.43.0


From da9a68710a566a7536dc360254aac930b8011635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:06 +0000
Subject: [PATCH 48/74] fix: print nested parse errors as one tree

Errors are values, not pointers, so that each nested error was rendered as
text of its own, whose lines were repeated with further prefixes and titles
at every level.
---
 parser/error.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/error.go b/parser/error.go
index eb0b6f1..90f5b1d 100644
--- a/parser/error.go
+++ b/parser/error.go
@@ -69,10 +69,12 @@ func (p ParseError) Error() string {
 func (p ParseError) walkErrors(parent gotree.Tree) {
 	x := gotree.New(fmt.Sprintf(`rule(%s) - %s`, p.rule, fmt.Sprintf(p.msgFormat, p.msgArgs...)))
 	for _, errf := range p.children {
-		err := errf()
-		if pe, ok := err.(*ParseError); ok {
-			pe.walkErrors(x)
-		} else {
+		switch err := errf().(type) {
+		case ParseError:
+			err.walkErrors(x)
+		case FatalError:
+			err.walkErrors(x)
+		default:
 			x.Add(err.Error())
 		}
 	}
-- 
2.43.0


From 8d1442d7e9789ca4cf9fdf3b9cf524d43edbd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:13 +0000
Subject: [PATCH 49/74] fix: report a failure at the position where it occurred

The error read the position when it was printed, by which time the caller's
scanner had been set back, or used for something else.
---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5db7e0b..c3c35ba 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -274,9 +274,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
@@ -304,9 +305,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From 90da377f921c4984af63d033bda60283c72b4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:23 +0000
Subject: [PATCH 50/74] fix: generate types for rules and names that match
 nothing

The generator panicked on a rule such as a -> (); and the code that it
generated for x=() referred to types and methods that weren't there.
---
 cmd/codegen/pushtype.go        | 7 +++++++
 cmd/codegen/typebuilder.go     | 2 ++
 cmd/codegen/walkerinterface.go | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 469fb4d..46ba995 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -4,6 +4,13 @@ func (tm *TypeMap) findType(name string) GrammarType {
 	return (*tm)[name]
 }
 
+// ensureType adds a type without children if there is none by that name, as for a term that matches nothing.
+func (tm *TypeMap) ensureType(name string) {
+	if name = GoTypeName(name); tm.findType(name) == nil {
+		(*tm)[name] = rule{name: name}
+	}
+}
+
 func (tm *TypeMap) pushType(name, parent string, child GrammarType) {
 	if name == "" {
 		tm.createOrAddParent(parent, child)
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..f80ac5c 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -44,6 +44,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
 			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
+		tm.ensureType(typeName)
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
 		newT := tm.findType(GoTypeName(typeName))
@@ -188,6 +189,7 @@ func (tm *TypeMap) walkTerm(
 			})
 		default:
 			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.ensureType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index 30c6ec1..fb62224 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -57,7 +57,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 		switch child := child.(type) {
 		case namedRule:
 			if r, ok := w.types[GoTypeName(child.returnType)]; ok {
-				if _, ok := r.(basicRule); ok {
+				if len(r.Children()) == 0 {
 					walker += getWalkerFuncs(funcs, false)
 					continue
 				}
-- 
2.43.0


From e8261ea749ab62b492065f9ff08e046675f8f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:26 +0000
Subject: [PATCH 51/74] fix: generate one accessor for several references to
 the same name

The generated code declared it several times.
---
 cmd/codegen/pushtype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 46ba995..63cc272 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -93,6 +93,10 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			if _, ok := next.(stackBackRef); ok {
 				return children
 			}
+		case backRef:
+			if _, ok := next.(backRef); ok {
+				return children
+			}
 		case choice:
 			if _, ok := next.(choice); ok {
 				return children
-- 
2.43.0


From 3a871b6f362d211907b4de411d96e337daa3917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:37 +0000
Subject: [PATCH 52/74] fix: accessors of a name that is referred to panicked

A reference holds the token itself, without a node around it.
---
 cmd/codegen/types.go | 10 ++++++++--
 wbnf/wbnfgrammar.go  | 25 ++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index d774694..3310b65 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -228,7 +228,10 @@ func (t namedToken) String() string {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{childtype}}() string {
 	if child := ast.First(c.Node, {{name}}); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -239,7 +242,10 @@ func (c {{parent}}) One{{childtype}}() string {
 func (c {{parent}}) All{{childtype}}() []string {
 	var out []string
 	for _, child := range ast.All(c.Node, {{name}}) {
-		out = append(out, ast.First(child, "").Scanner().String())
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		out = append(out, child.Scanner().String())
 	}
 	return out
 }
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 66ade3a..809d525 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -338,7 +338,10 @@ func (c NamedNode) OneIdent() *IdentNode {
 
 func (c NamedNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -516,21 +519,30 @@ func (c QuantNode) OneNamed() *NamedNode {
 
 func (c QuantNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
 
 func (c QuantNode) OneOptLeading() string {
 	if child := ast.First(c.Node, "opt_leading"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
 
 func (c QuantNode) OneOptTrailing() string {
 	if child := ast.First(c.Node, "opt_trailing"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -655,7 +667,10 @@ func (c TermNode) OneNamed() *NamedNode {
 
 func (c TermNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
-- 
2.43.0


From 44752d5fbf651c3a8bb3711a2b7ed957b7157d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:00 +0000
Subject: [PATCH 53/74] fix: generate one accessor for a stack that refers to
 itself by name and by @

The generated code declared it twice.
---
 cmd/codegen/pushtype.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 63cc272..0b7b24d 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -90,7 +90,8 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			c = child
 			appendNext = false
 		case stackBackRef:
-			if _, ok := next.(stackBackRef); ok {
+			switch next.(type) {
+			case stackBackRef, namedRule: // the rule may also refer to itself by name
 				return children
 			}
 		case backRef:
-- 
2.43.0


From 6baa57a27b974b861d27b27abaa42a78e7b26b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 54/74] fix: generate accessors for all of several children of
 the same name

Names in nested sequences were not counted, so that only the first of
the children could be accessed. The levels of a stack are alternatives.
---
 cmd/codegen/typebuilder.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index f80ac5c..c41ea9b 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -137,7 +137,9 @@ func (tm *TypeMap) walkTerm(
 			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
 		}
 	case parser.Stack:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		for _, t := range t {
+			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+		}
 	case parser.Delim:
 		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, termID)
 		switch delim := t.Sep.(type) {
@@ -148,7 +150,7 @@ func (tm *TypeMap) walkTerm(
 				tm.pushType(childName, parentName, namedToken{
 					name:   delim.Name,
 					parent: parentName,
-					count:  quant,
+					count:  quant.pushSingleNode(termID),
 				})
 			default:
 				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, termID)
@@ -163,6 +165,7 @@ func (tm *TypeMap) walkTerm(
 		}
 	case parser.Named:
 		childName := parentName + GoName(t.Name)
+		count := quant.pushSingleNode(termID)
 		switch term := t.Term.(type) {
 		case parser.Rule:
 			var val GrammarType
@@ -177,7 +180,7 @@ func (tm *TypeMap) walkTerm(
 					name:       t.Name,
 					parent:     parentName,
 					returnType: term.String(),
-					count:      quant,
+					count:      count,
 				}
 			}
 			tm.pushType(childName, parentName, val)
@@ -185,7 +188,7 @@ func (tm *TypeMap) walkTerm(
 			tm.pushType(childName, parentName, namedToken{
 				name:   t.Name,
 				parent: parentName,
-				count:  quant,
+				count:  count,
 			})
 		default:
 			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
@@ -194,7 +197,7 @@ func (tm *TypeMap) walkTerm(
 				name:       t.Name,
 				parent:     parentName,
 				returnType: childName,
-				count:      quant,
+				count:      count,
 			})
 		}
 	case parser.Quant:
-- 
2.43.0


From f22b99b010c7cc95b8bfd352d186ac2174f79251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 55/74] fix: generate accessors for all of several children
 around and in choices

Names in a sequence and in a choice in it, or in two choices, were
counted as if only one of them could match.
---
 cmd/codegen/typebuilder.go | 44 ++++++++++++++++++++------------------
 cmd/codegen/types.go       | 35 ++++++++++++++++++++++++------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index c41ea9b..2130c4d 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -43,7 +43,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 	for r, term := range g {
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
-			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
+			pushRuleNameForStack(r.String(), typeName, knownRules), branch{})
 		tm.ensureType(typeName)
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
@@ -71,10 +71,10 @@ func (tm *TypeMap) handleSeq(
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	b branch,
 ) {
 	for _, t := range terms {
-		tm.walkTerm(t, parentName, quant, knownRules, termID)
+		tm.walkTerm(t, parentName, quant, knownRules, b)
 	}
 }
 
@@ -114,11 +114,11 @@ func (tm *TypeMap) walkTerm(
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	b branch,
 ) {
 	switch t := term.(type) {
 	case parser.S, parser.RE, parser.Rule:
-		tm.makeLeafType(term, parentName, quant.pushSingleNode(termID), knownRules)
+		tm.makeLeafType(term, parentName, quant.pushBranch(b), knownRules)
 	case parser.REF:
 		tm.pushType("", parentName, backRef{
 			name:   t.Ident,
@@ -127,21 +127,23 @@ func (tm *TypeMap) walkTerm(
 	case parser.ScopedGrammar:
 		knownRules = mergeGrammarRules(parentName, t.Grammar, knownRules)
 		scoped := tm.walkGrammar(parentName, t.Grammar, knownRules)
-		scoped.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		scoped.walkTerm(t.Term, parentName, quant, knownRules, b)
 		*tm = tm.merge(scoped)
 	case parser.Seq:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		tm.handleSeq(t, parentName, quant, knownRules, b)
 	case parser.Oneof:
 		tm.pushType("", parentName, choice{parent: parentName})
-		for _, t := range t {
-			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+		id := rand.Int() //nolint:gosec
+		for i, t := range t {
+			tm.walkTerm(t, parentName, quant, knownRules, b.push(id, i))
 		}
 	case parser.Stack:
-		for _, t := range t {
-			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+		id := rand.Int() //nolint:gosec
+		for i, t := range t {
+			tm.walkTerm(t, parentName, quant, knownRules, b.push(id, i))
 		}
 	case parser.Delim:
-		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, termID)
+		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, b)
 		switch delim := t.Sep.(type) {
 		case parser.Named:
 			childName := parentName + GoName(delim.Name)
@@ -150,22 +152,22 @@ func (tm *TypeMap) walkTerm(
 				tm.pushType(childName, parentName, namedToken{
 					name:   delim.Name,
 					parent: parentName,
-					count:  quant.pushSingleNode(termID),
+					count:  quant.pushBranch(b),
 				})
 			default:
-				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, termID)
+				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, b)
 			}
 		case parser.Rule:
 			childName := parentName + GoName(delim.String())
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, b)
 		case parser.CutPoint, parser.S: // ignore the delim
 		default:
 			childName := parentName + "Delim"
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, b)
 		}
 	case parser.Named:
 		childName := parentName + GoName(t.Name)
-		count := quant.pushSingleNode(termID)
+		count := quant.pushBranch(b)
 		switch term := t.Term.(type) {
 		case parser.Rule:
 			var val GrammarType
@@ -191,7 +193,7 @@ func (tm *TypeMap) walkTerm(
 				count:  count,
 			})
 		default:
-			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.walkTerm(t.Term, childName, quant, knownRules, b)
 			tm.ensureType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
@@ -204,11 +206,11 @@ func (tm *TypeMap) walkTerm(
 		if t.Max != 1 {
 			quant = setWantAllGetter()
 		}
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, b)
 	case parser.CutPoint:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, b)
 	case parser.LookAhead:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, b)
 	case parser.ExtRef:
 		// nothing yet
 	default:
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 3310b65..29c83c4 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -106,11 +106,29 @@ const (
 //	    a -> x="a"+ | x="b"				one option wants only one, the other wants at least one.
 //	etc.
 //
-// To track this, each countManager keeps a set of identifiers for each branch of a term the ident is used in,
-// If each term is unique, and they all want just One, then the result should only require a One.
+// To track this, each countManager keeps the branches of a term the ident is used in.
+// If they exclude each other, and they all want just One, then the result should only require a One.
 type countManager struct {
 	int
-	nodes []int
+	nodes []branch
+}
+
+// branch leads from a rule's term to one of its parts, through the options of choices.
+type branch []option
+type option struct{ choice, index int }
+
+func (b branch) push(choice, index int) branch {
+	return append(b[:len(b):len(b)], option{choice, index})
+}
+
+// excludes tells whether b and other lead to different options of the same choice.
+func (b branch) excludes(other branch) bool {
+	for i := 0; i < len(b) && i < len(other); i++ {
+		if b[i] != other[i] {
+			return b[i].choice == other[i].choice
+		}
+	}
+	return false
 }
 
 func (c countManager) forceMany() countManager {
@@ -118,13 +136,16 @@ func (c countManager) forceMany() countManager {
 	return c
 }
 func (c countManager) pushSingleNode(id int) countManager {
+	return c.pushBranch(branch{}.push(0, id))
+}
+func (c countManager) pushBranch(b branch) countManager {
 	if !c.wantAll() {
 		for _, x := range c.nodes {
-			if x == id {
+			if !x.excludes(b) {
 				return c.forceMany()
 			}
 		}
-		c.nodes = append(c.nodes, id)
+		c.nodes = append(c.nodes, b)
 	}
 	return c
 }
@@ -133,8 +154,8 @@ func (c countManager) merge(other countManager) countManager {
 	if other.wantAll() {
 		return c.forceMany()
 	}
-	for _, id := range other.nodes {
-		c = c.pushSingleNode(id)
+	for _, b := range other.nodes {
+		c = c.pushBranch(b)
 	}
 	return c
 }
-- 
2.43.0


From 8cea0dc0dfd77014195d833aa2d2949be7f61f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 56/74] fix: generate the same code every time for rules that
 have the same type name

---
 cmd/codegen/typebuilder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 2130c4d..b7709bb 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -2,6 +2,7 @@ package codegen
 
 import (
 	"math/rand"
+	"sort"
 
 	"github.com/arr-ai/frozen"
 	"github.com/arr-ai/wbnf/parser"
@@ -40,7 +41,14 @@ func mergeGrammarRules(prefix string, g parser.Grammar, knownRules frozen.Map[st
 
 func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules frozen.Map[string, any]) TypeMap {
 	result := map[string]GrammarType{}
-	for r, term := range g {
+	rules := make([]string, 0, len(g))
+	for r := range g {
+		rules = append(rules, r.String())
+	}
+	sort.Strings(rules) // for names that have the same type name
+	for _, rule := range rules {
+		r := parser.Rule(rule)
+		term := g[r]
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
 			pushRuleNameForStack(r.String(), typeName, knownRules), branch{})
-- 
2.43.0


From 2c70d5af91fffd057b13a4a7aa57309e6b657e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 57/74] fix: comparing trees with nodes of external parsers
 panicked

---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index fb2f81e..28ca6dd 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -32,7 +32,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if d.A.Tag != d.B.Tag {
 		fmt.Fprintf(w, "%sTag: %v != %v", prefix, d.A.Tag, d.B.Tag)
 	}
-	if d.A.Extra != d.B.Extra {
+	if !reflect.DeepEqual(d.A.Extra, d.B.Extra) {
 		fmt.Fprintf(w, "%sExtra: %v != %v", prefix, d.A.Extra, d.B.Extra)
 	}
 	if len(d.A.Children) != len(d.B.Children) {
@@ -55,7 +55,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 func (d NodeDiff) Equal() bool {
 	return len(d.A.Children) == len(d.B.Children) &&
 		d.A.Tag == d.B.Tag &&
-		d.A.Extra == d.B.Extra &&
+		reflect.DeepEqual(d.A.Extra, d.B.Extra) &&
 		len(d.Children) == 0 &&
 		len(d.Types) == 0
 }
-- 
2.43.0


From 3590fff68078674eb3781a3f7e6a54d671f84e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 58/74] fix: unparsing reported the wrong number of bytes if
 the writer failed

---
 parser/unparse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index 4cbabca..eacf504 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -22,9 +22,7 @@ func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
 	n, err := term.Unparse(g, e, w)
-	if err == nil {
-		*N += n
-	}
+	*N += n
 	return err
 }
 
-- 
2.43.0


From eda7cc62c5aadc2e4d138a13e3dbda8e2a0a738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 59/74] fix: unparsing a back reference wrote a backslash, and
 panicked for lists

---
 parser/unparse.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index eacf504..70a20a6 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -17,7 +17,17 @@ func (t RE) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 	return w.Write([]byte(e.(Scanner).String()))
 }
 func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	return w.Write([]byte("\\" + e.(Scanner).String()))
+	switch e := e.(type) {
+	case Scanner:
+		return w.Write([]byte(e.String()))
+	case Node:
+		for _, child := range e.Children {
+			if err = unparse(g, t, child, w, &n); err != nil {
+				return
+			}
+		}
+	}
+	return
 }
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
-- 
2.43.0


From cfda9cae5a3a4fcb0577c6958e2c72272c20722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 60/74] fix: unparsing wrote what a lookahead matched twice

---
 parser/unparse.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index 70a20a6..d7b8677 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -66,13 +66,9 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 	return
 }
 
+// A lookahead doesn't consume what it matches.
 func (t LookAhead) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	for _, child := range e.(Node).Children {
-		if err = unparse(g, t.Term, child, w, &n); err != nil {
-			return
-		}
-	}
-	return
+	return 0, nil
 }
 
 func (t Quant) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-- 
2.43.0


From 045ecf7e33446e58aa5e6e93ed293369f6a78151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 61/74] fix: unparsing a scoped grammar panicked

---
 parser/unparse.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index d7b8677..1973647 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -102,7 +102,24 @@ func (t Named) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	panic(errors.Inconceivable)
+	scope := make(Grammar, len(g)+len(t.Grammar))
+	for rule, term := range g {
+		scope[rule] = outerTerm{Term: term, g: g}
+	}
+	for rule, term := range t.Grammar.ResolveStacks() {
+		scope[rule] = term
+	}
+	return t.Term.Unparse(scope, e, w)
+}
+
+// outerTerm is the term of a rule of an enclosing grammar.
+type outerTerm struct {
+	Term
+	g Grammar
+}
+
+func (t outerTerm) Unparse(_ Grammar, e TreeElement, w io.Writer) (n int, err error) {
+	return t.Term.Unparse(t.g, e, w)
 }
 
 func (t CutPoint) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-- 
2.43.0


From 566bb7e6646e9a9805b67690cbf6a956cf193394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 62/74] fix: unparsing the tree of a rule that is a token
 panicked

---
 parser/terms.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 2fdd2a4..400fd28 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -19,8 +19,11 @@ type Grammar map[Rule]Term
 // the source it came from. Currently, it doesn't quite do that, and is only
 // being used for quick eyeballing to validate output.
 func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
-	rule := NodeRule(e.(Node))
-	return g[rule].Unparse(g, e, w)
+	node, ok := e.(Node)
+	if !ok { // the rule is just a token
+		return w.Write([]byte(e.(Scanner).String()))
+	}
+	return g[NodeRule(node)].Unparse(g, e, w)
 }
 
 // Parsers holds Parsers generated by Grammar.Compile.
-- 
2.43.0


From aedc693b1c95a8e0ead6048f0d2791a814d174b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 63/74] fix: rank texts that start with a large number

Printing such a tree panicked.
---
 gotree/gotree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index c9bbb02..17a5ecf 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -14,6 +14,8 @@ const (
 	middleItem   = "├── "
 	continueItem = "│   "
 	lastItem     = "└── "
+
+	maxInt = int(^uint(0) >> 1)
 )
 
 type (
@@ -90,15 +92,14 @@ func (t *tree) Rank() int {
 	if num != nil {
 		r, err := strconv.Atoi(string(num))
 		if err != nil {
-			panic(err)
+			return maxInt // the number is too large
 		}
 		return r
 	}
 	if len(t.Items()) == 0 {
 		return -1
 	}
-	// max int
-	r := int(^uint(0) >> 1)
+	r := maxInt
 	for _, i := range t.Items() {
 		iRank := i.Rank()
 		if r > iRank {
-- 
2.43.0


From a5add7938ecca01624bf5405f6bb2b96a8d4f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 64/74] fix: keep the size of parse errors in check

Each level of an error repeated all calls that led to it, so the text grew
cubically with the depth: to 700 MB for an input with 100 nested parentheses
and a grammar of four levels. Tell of each call once.
---
 parser/error.go | 23 ++++++++++++++++++-----
 parser/scope.go |  9 +++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/parser/error.go b/parser/error.go
index 90f5b1d..6565cab 100644
--- a/parser/error.go
+++ b/parser/error.go
@@ -61,19 +61,32 @@ func newParseError(
 
 func (p ParseError) Error() string {
 	tree := gotree.New("parse failed")
-	p.walkErrors(tree)
+	p.walkErrors(tree, nil)
 
 	return "\n" + tree.Print()
 }
 
-func (p ParseError) walkErrors(parent gotree.Tree) {
+// walkErrors adds the error to parent. It leaves out the calls from seen outwards, which were
+// added further up already: otherwise the output would grow cubically with the depth.
+func (p ParseError) walkErrors(parent gotree.Tree, seen *call) {
 	x := gotree.New(fmt.Sprintf(`rule(%s) - %s`, p.rule, fmt.Sprintf(p.msgFormat, p.msgArgs...)))
+	children := make([]error, 0, len(p.children))
+	inner := seen
 	for _, errf := range p.children {
-		switch err := errf().(type) {
+		err := errf()
+		if stk, is := err.(*call); is {
+			inner = stk
+		}
+		children = append(children, err)
+	}
+	for _, err := range children {
+		switch err := err.(type) {
 		case ParseError:
-			err.walkErrors(x)
+			err.walkErrors(x, inner)
 		case FatalError:
-			err.walkErrors(x)
+			err.walkErrors(x, inner)
+		case *call:
+			x.Add(err.upTo(seen))
 		default:
 			x.Add(err.Error())
 		}
diff --git a/parser/scope.go b/parser/scope.go
index dfc9ae0..bf32a4c 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -138,8 +138,17 @@ type call struct {
 }
 
 func (c *call) Error() string {
+	return c.upTo(nil)
+}
+
+// upTo describes the calls up to, but not including, end.
+func (c *call) upTo(end *call) string {
 	var parts []string
 	for ; c != nil; c = c.next {
+		if c == end {
+			parts = append(parts, "...")
+			break
+		}
 		parts = append(parts, fmt.Sprintf("%+v", *c))
 	}
 	return strings.Join(parts, "\n")
-- 
2.43.0


From fac1e0b7f3d5d1c843ae14397b9db400fbc64604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 65/74] fix: don't format messages that contain text of the
 grammar

The message about a .wrapRE that doesn't wrap was mangled if the term
contained a %.
---
 wbnf/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index eb8de84..ecaba33 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -168,9 +168,8 @@ type validationError struct {
 }
 
 func (v validationError) Error() string {
-	var args []any
 	if v.s.String() != "" {
-		args = append(args, v.s.String())
+		args := []any{v.s.String()}
 		if len(v.args) > 0 {
 			args = append(args, v.args...)
 		}
@@ -178,7 +177,8 @@ func (v validationError) Error() string {
 
 		return fmt.Sprintf(v.msg+"@ %d", args...)
 	}
-	return fmt.Sprintf(v.msg, args...)
+	// Without a position, the message isn't a format. It may contain text of the grammar.
+	return v.msg
 }
 
 type validator struct {
-- 
2.43.0


From 2e1f36eb2e3a74c642a2be9ab40145b5c8264de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 66/74] fix: fail if the generated code can't be written

---
 cmd/gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index c43687b..6622809 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -79,10 +79,10 @@ func gen(c *cli.Context) error {
 
 	switch outFile {
 	case "", "-":
-		os.Stdout.Write(out)
+		_, err = os.Stdout.Write(out)
 	default:
-		os.WriteFile(outFile, out, 0644) //nolint:errcheck,gosec
+		err = os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 4addc9ea72728754f00542ef346f86798a860745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 67/74] fix: don't generate code for a start rule that doesn't
 exist

The code didn't compile.
---
 cmd/gen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/gen.go b/cmd/gen.go
index 6622809..5bc5bb2 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -2,12 +2,14 @@ package cmd
 
 import (
 	"bytes"
+	"fmt"
 	"go/format"
 	"os"
 	"strings"
 
 	"github.com/arr-ai/wbnf/cmd/codegen"
 
+	"github.com/arr-ai/wbnf/parser"
 	"github.com/arr-ai/wbnf/wbnf"
 	"github.com/urfave/cli"
 )
@@ -53,6 +55,9 @@ var genCommand = cli.Command{
 
 func gen(c *cli.Context) error {
 	g := loadTestGrammar()
+	if !g.HasRule(parser.Rule(startingRule)) {
+		return fmt.Errorf("starting rule '%s' not in grammar", startingRule)
+	}
 	tree := g.Node().(wbnf.GrammarNode)
 
 	types := codegen.MakeTypes(tree)
-- 
2.43.0


From 922c30d09ab140454379cc092effa149e3803654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 68/74] fix: fail if the tree of a test can't be printed

---
 cmd/test.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/test.go b/cmd/test.go
index 96c34d2..6a610b0 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -97,13 +97,14 @@ func loadTestGrammar() parser.Parsers {
 
 func testWbnfFile(filename, grammar string) error {
 	g := wbnf.MustCompile(grammar, makeResolver(filename))
+	var err error
 	if printTree {
-		fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
+		_, err = fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
 	} else {
-		fmt.Println(g.Node().(ast.Node))
+		_, err = fmt.Println(g.Node().(ast.Node))
 	}
 
-	return nil
+	return err
 }
 
 func test(c *cli.Context) error {
@@ -152,14 +153,15 @@ func test(c *cli.Context) error {
 		}
 	}
 	a := ast.FromParserNode(g.Grammar(), tree)
+	var printErr error
 	if printTree {
-		fmt.Println(ast.BuildTreeView(startingRule, a, true))
+		_, printErr = fmt.Println(ast.BuildTreeView(startingRule, a, true))
 	} else {
-		fmt.Println(a)
+		_, printErr = fmt.Println(a)
 	}
 	if err, ok := err.(parser.UnconsumedInputError); ok {
 		return err
 	}
 
-	return nil
+	return printErr
 }
-- 
2.43.0


From 9995007bb7fbcedc6830cb3543af66fd05e088fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 69/74] fix: validate the layers of a stack that another
 layer's scoped grammar isn't for

---
 wbnf/compile.go    | 20 +++++++++++++-------
 wbnf/validation.go | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 1cb5791..6c0b6bc 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -251,19 +251,25 @@ func (gb grammarBuilder) buildNamed(n NamedNode) parser.Term {
 	return atom
 }
 
-// scopeLayers applies the grammars of a precedence stack to the layers that they
-// follow.
-func (gb grammarBuilder) scopeLayers(t TermNode, layers []parser.Term) {
+// scopedLayer determines which layer of a precedence stack a grammar follows.
+func scopedLayer(t TermNode, g GrammarNode) int {
 	offset := func(node ast.Node) int {
 		scanner := node.Scanner()
 		return scanner.Offset()
 	}
 	terms := t.AllTerm()
+	i := len(terms) - 1
+	for i > 0 && offset(g.Node) < offset(terms[i].Node) {
+		i--
+	}
+	return i
+}
+
+// scopeLayers applies the grammars of a precedence stack to the layers that they
+// follow.
+func (gb grammarBuilder) scopeLayers(t TermNode, layers []parser.Term) {
 	for _, g := range t.AllGrammar() {
-		i := len(terms) - 1
-		for i > 0 && offset(g.Node) < offset(terms[i].Node) {
-			i--
-		}
+		i := scopedLayer(t, g)
 		layers[i] = parser.ScopedGrammar{Term: layers[i], Grammar: gb.buildGrammar(g.Node)}
 	}
 }
diff --git a/wbnf/validation.go b/wbnf/validation.go
index ecaba33..656c30f 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -204,15 +204,24 @@ func (v *validator) Error() string {
 }
 
 func (v *validator) validateTerm(tree TermNode) Stopper {
-	if len(tree.AllGrammar()) != 0 {
-		//fixme: Names are not validated in scoped grammars yet, only what cannot be compiled.
-		WalkerOps{
-			EnterAtomNode:           v.validateToken,
-			EnterQuantNode:          v.validateQuant,
-			EnterGrammarNode:        v.validateScopedGrammar,
-			EnterPragmaMacrodefNode: v.validateExpansion,
-			EnterMacrocallNode:      v.validateMacroCall,
-		}.Walk(tree)
+	if grammars := tree.AllGrammar(); len(grammars) != 0 {
+		if tree.OneOp() != ">" {
+			v.walkScoped(tree)
+			return NodeExiter
+		}
+		// Only the layers that are followed by a grammar are scoped.
+		scoped := map[int]bool{}
+		for _, g := range grammars {
+			scoped[scopedLayer(tree, g)] = true
+			v.walkScoped(g)
+		}
+		for i, layer := range tree.AllTerm() {
+			if scoped[i] {
+				v.walkScoped(layer)
+			} else {
+				v.walk(layer)
+			}
+		}
 		return NodeExiter
 	}
 	if tree.OneOp() == "" {
@@ -232,6 +241,17 @@ func (v *validator) validateTerm(tree TermNode) Stopper {
 	return nil
 }
 
+func (v *validator) walkScoped(node IsWalkableType) {
+	//fixme: Names are not validated in scoped grammars yet, only what cannot be compiled.
+	WalkerOps{
+		EnterAtomNode:           v.validateToken,
+		EnterQuantNode:          v.validateQuant,
+		EnterGrammarNode:        v.validateScopedGrammar,
+		EnterPragmaMacrodefNode: v.validateExpansion,
+		EnterMacrocallNode:      v.validateMacroCall,
+	}.Walk(node)
+}
+
 func (v *validator) validateNamed(tree NamedNode) Stopper {
 	if x := tree.OneIdent(); x != nil {
 		if v.knownRules.Has(x.String()) {
-- 
2.43.0


From d4bbda9d350852ddb7a491852ac9b95192655fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:44 +0000
Subject: [PATCH 70/74] fix: generate the accessor of @ for the term that it is
 in

---
 cmd/codegen/typebuilder.go | 12 +++++++-----
 cmd/codegen/types.go       |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index b7709bb..715d24f 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -67,7 +67,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			}
 		}
 		if needStackAddition {
-			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName})
+			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName, returnType: typeName})
 		}
 	}
 
@@ -98,8 +98,9 @@ func (tm *TypeMap) makeLeafType(
 		if t == parser.At {
 			si := knownRules.MustGet(t.String()).(stackInfo)
 			val = stackBackRef{
-				name:   si.ident,
-				parent: si.parentName,
+				name:       si.ident,
+				parent:     parentName,
+				returnType: si.parentName,
 			}
 		} else {
 			val = namedRule{
@@ -182,8 +183,9 @@ func (tm *TypeMap) walkTerm(
 			if term == parser.At {
 				si := knownRules.MustGet(term.String()).(stackInfo)
 				val = stackBackRef{
-					name:   t.Name,
-					parent: si.parentName,
+					name:       t.Name,
+					parent:     parentName,
+					returnType: si.parentName,
 				}
 			} else {
 				val = namedRule{
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 29c83c4..1a99105 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -66,7 +66,7 @@ type (
 		parent string
 	}
 	stackBackRef struct {
-		name, parent string
+		name, parent, returnType string
 	}
 	backRef struct {
 		name, parent string
@@ -215,7 +215,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 	return namedRule{
 		name:       t.name,
 		parent:     t.parent,
-		returnType: t.parent,
+		returnType: t.returnType,
 		count:      countManager{int: wantAllGetter},
 	}
 }
-- 
2.43.0


From 79be8cd75cab4b04e2542125a986130e727a3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 71/74] fix: anchor all alternatives of the delimiters of an
 escape

---
 parser/scope.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scope.go b/parser/scope.go
index bf32a4c..d4b8975 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -106,8 +106,8 @@ func (s Scope) WithExternals(extRefs ExternalRefs) Scope {
 			}
 			openClose := strings.Split(name[1:], "()")
 			e = &escape{
-				openDelim:  regexp.MustCompile(`(?m)\A` + openClose[0]),
-				closeDelim: regexp.MustCompile(`(?m)\A` + openClose[1]),
+				openDelim:  regexp.MustCompile(`(?m)\A(?:` + openClose[0] + `)`),
+				closeDelim: regexp.MustCompile(`(?m)\A(?:` + openClose[1] + `)`),
 				external:   external,
 			}
 			sb.Put(parseEscapeKey, e)
-- 
2.43.0


From 7157f60c399708db455214f2c70c1c222306956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 72/74] fix: anchor all alternatives of a .wrapRE

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c3c35ba..9454640 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -258,7 +258,7 @@ func applyWrapRE(re string, prepare func(string) string, c cache) string {
 			}
 			wrap = oneof[len(oneof)-1]
 		}
-		return strings.Replace(string(wrap.(RE)), "()", "(?:"+pre+")", 1)
+		return "(?:" + strings.Replace(string(wrap.(RE)), "()", "(?:"+pre+")", 1) + ")"
 	}
 	return pre
 }
-- 
2.43.0


From b08782ab7fe6a48a284f70eaafd20ddb62a6d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:58 +0000
Subject: [PATCH 73/74] fix: generate accessors for all of the children of a
 name that is also referred to

---
 cmd/codegen/pushtype.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 0b7b24d..6c84d24 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -95,8 +95,15 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 				return children
 			}
 		case backRef:
-			if _, ok := next.(backRef); ok {
+			switch n := next.(type) {
+			case backRef:
 				return children
+			case namedToken:
+				n.count = n.count.forceMany() // the reference is a child of that name, too
+				next = n
+			case namedRule:
+				n.count = n.count.forceMany()
+				next = n
 			}
 		case choice:
 			if _, ok := next.(choice); ok {
-- 
2.43.0


From 1c0a001f31d386b2aeb191530f8810fb2db862ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:20 +0000
Subject: [PATCH 74/74] fix: ToParserNode repeated empty elements with empty
 separators forever

---
 ast/to_parsernode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 2664b50..1664017 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -166,15 +166,23 @@ func (b Branch) toParserNode(s scope, term parser.Term, ctrs counters) (out pars
 			Extra: parser.NonAssociative,
 		}
 		terms := [2]parser.Term{t.Term, t.Sep}
-		i, count := 0, 0
+		i, count, pair := 0, 0, 0
 		for ; ; i++ {
 			before := b.count()
+			if i%2 == 1 {
+				pair = before
+			}
 			if child := b.toParserNode(s, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
 			}
 			count = before - b.count()
+			if i > 0 && i%2 == 0 && b.count() == pair {
+				// Separators and elements that matched nothing would repeat forever.
+				v.Children = v.Children[:i-1]
+				return v
+			}
 		}
 		if i == 0 {
 			return nil
-- 
2.43.0

