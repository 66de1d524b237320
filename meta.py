#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after changing the list below."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
PENDING = set()


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))


PBT = "Property-based testing (rapid, custom uniform generators, shrinking to a JSON replay): "

prop("C01", "Parsing agrees with the PEG semantics of the grammar",
     "For every grammar and input, parsing succeeds exactly if the documented semantics (ordered choice, greedy repetition without backtracking into it, sequences, lookahead, rules) match the input. The resulting tree has the shape that these semantics give: the choice that was taken, the repetitions in order, and the text of each token.",
     ["programs", "inputs"],
     "Every grammar of up to 4 (mutually recursive) rules built from all kinds of term, and every input; sampled by a grammar generator and a sentence generator with mutations.",
     "The tests parse some dozens of hand-written inputs with fixed grammars; an interaction of two kinds of term (a lookahead in an optional group in a nested grammar) is not in any of them.",
     ["parser/parser.go", "parser/terms.go", "parser/scanner.go", "wbnf/grammar.go"],
     ["parser/parser.go: the Parse method of each kind of parser", "parser/terms.go: the Parser method of each kind of term"],
     PBT + "differential against an independent reference interpreter of grammars.",
     "Samples small grammars and inputs of up to 200 bytes; both sides use the same regexp engine.")

prop("C02", "Every token is a slice of the input at its own position",
     "Every token in a parse tree is a piece of the input, identified by its offset, and reports the text and line and column that are there. Apart from those of lookaheads, the tokens appear in the order of the input without overlapping, and whatever lies between them is only what the grammar discards (padding, and parts of a regexp outside its capture group).",
     ["programs", "inputs"],
     "Every grammar, with or without whitespace wrapping, and every input it accepts, including multi-line and non-ASCII ones.",
     "Tests check the string value of tokens; offsets are checked in a handful of scanner tests only, and an offset that is off by the padding still has the right text in most inputs.",
     ["parser/scanner.go", "parser/parser.go", "parser/parsernodes.go"],
     ["parser/scanner.go: Slice, Skip, EatString, EatRegexp, Position", "parser/parser.go: eatRegexp"],
     PBT + "invariants over the history of tokens, with an own computation of line and column.",
     "Padding between tokens is verified to match the wrapping expression, not that it is the longest such.")

prop("C03", "Repetition, separators and associativity keep every element",
     "A repetition matches as many elements as it can within its bounds, and fails below its minimum. A separated list matches elements and separators alternately, accepts a leading or trailing separator just if declared so, and yields all elements and separators in order. Its nesting is flat, to the left or to the right, as its associativity says, and no other.",
     ["programs", "inputs"],
     "Every combination of minimum, maximum, associativity, optional outer separators, and number of elements, nested in each other up to two levels.",
     "Tests cover lists of 1 to 3 elements for some of the combinations; the product of bounds, sides, counts and nesting is out of reach for examples.",
     ["parser/parser.go", "parser/terms.go", "wbnf/compile.go"],
     ["parser/parser.go: delimParser, quantParser", "parser/terms.go: Delim.LRTerms", "wbnf/compile.go: buildDelim, buildQuant"],
     PBT + "closed-form oracle: the expected element and separator lists and their nesting are computed from the counts alone.",
     "Elements and separators are single tokens (letters, groups or nested lists).")

prop("C04", "Precedence stacks parse as their layers bind",
     "In a rule of layers, a layer binds less tightly than the following ones, so that printing any expression tree with the fewest necessary parentheses and parsing it gives back the same tree, with the declared associativity of each layer. Adding redundant parentheses does not change the tree.",
     ["programs", "inputs"],
     "Every stack of up to 5 layers of infix, prefix and postfix operators of any associativity, and every expression of them.",
     "Tests parse a few arithmetic expressions with one stack of fixed layers; the interplay of several layers of differing associativity and unary operators is not enumerated.",
     ["parser/resolve.go", "parser/parser.go", "parser/terms.go", "wbnf/compile.go"],
     ["parser/resolve.go: resolveStacks", "parser/terms.go: Delim.LRTerms", "parser/parser.go: delimParser"],
     PBT + "round trip: expression tree, to text with minimal parentheses, to parse tree, to expression tree.",
     "Operators of different layers are distinct tokens.")

prop("C05", "Whitespace wrapping discards padding around tokens and nothing else",
     "With a wrapping expression, padding that it matches may be added or removed around any token without changing the parse tree, apart from positions. The padding is no part of any token, exceptions listed in the wrapping rule are matched bare, and nested grammars inherit the wrapping unless they declare their own.",
     ["programs", "inputs"],
     "Every grammar with a wrapping rule (with exceptions or not), every accepted input, and every repadding of its tokens.",
     "Tests use one or two wrapping expressions and fixed inputs; the equivalence of all paddings is a relation between inputs, which examples only sample at a few points.",
     ["parser/parser.go", "parser/scope.go", "wbnf/compile.go"],
     ["parser/parser.go: wrap handling of sParser and reParser", "parser/scope.go", "parser/terms.go: Grammar.Compile"],
     PBT + "metamorphic (repadding leaves the tree the same) and differential against the reference interpreter.",
     "Paddings are drawn from spaces, tabs and newlines.")

prop("C06", "Back references match the text that their name is bound to",
     "A back reference matches exactly the text that the most recent element of that name matched in the enclosing sequences, including those of callers. It matches its default, if it has one, where the name is not bound, and fails where there is no default either.",
     ["programs", "inputs"],
     "Every grammar with named elements and back references, in nested sequences, repetitions, choices and other rules; matching and mismatching inputs.",
     "Tests use an XML-like grammar with matching tags; scoping over failed alternatives, repetition and rule calls, and elements of several tokens are not sampled.",
     ["parser/parser.go", "parser/scope.go", "parser/terms.go"],
     ["parser/scope.go: the scope of identifiers", "parser/parser.go: refParser, seqParser"],
     PBT + "differential against the reference interpreter, and matched/mismatched open/close tags against a closed-form oracle.",
     "Names are bound dynamically (callers' bindings are visible), as implemented.")

prop("C07", "Cut points commit without changing what is accepted",
     "A literal that occurs once in a grammar commits the parser, so that a failure after it is final rather than tried again another way. Committing never changes the tree of an input that is accepted, and no input is accepted that the grammar without committing would not accept.",
     ["programs", "inputs"],
     "Every compiled grammar with literals that occur once or several times, in all kinds of term, and every input.",
     "Two tests with one grammar each look at the error message; soundness is a statement about all inputs of all grammars.",
     ["wbnf/cutpoints.go", "parser/parser.go", "parser/error.go", "parser/scope.go"],
     ["wbnf/cutpoints.go: insertCutPoints", "parser/parser.go: handling of fatal errors in choices and repetitions"],
     PBT + "differential against the reference interpreter with cut points, and against the same grammar without.",
     "Literals within lookaheads are exempt, as implemented.")

prop("C08", "A match is accepted only if the whole input was consumed",
     "Parsing succeeds only if the start rule and trailing padding consumed the entire input. Otherwise the error tells where the unconsumed input begins, and carries the result so far, which is the same as the result of parsing the consumed part alone if no look past it is involved.",
     ["programs", "inputs"],
     "Every grammar and every input with a remainder, including remainders that consist of padding only.",
     "Tests have one or two cases of trailing input; that the reported remainder is exact for every grammar is not sampled.",
     ["parser/parser.go", "parser/error.go", "parser/terms.go"],
     ["parser/terms.go: Parsers.Parse", "parser/error.go: UnconsumedInput"],
     PBT + "invariants over prefix parses, and comparison with the reference interpreter.",
     "")

prop("C09", "Nested grammars resolve names like an equivalent flat grammar",
     "A rule defined in a nested grammar is visible only within its term and in the nested grammar, and rules of the enclosing grammars remain visible there unless redefined. Moving the nested rules out under fresh names gives a grammar with the same language and the same trees.",
     ["programs", "inputs"],
     "Every grammar with nested grammars up to two levels, shadowing or not, recursive or not, and every input.",
     "Two tests parse two fixed nested grammars; name resolution across levels, recursion and wrapping is not sampled.",
     ["parser/scope.go", "parser/terms.go", "parser/parser.go", "wbnf/compile.go"],
     ["parser/terms.go: ScopedGrammar.Parser, Grammar.Compile", "parser/scope.go"],
     PBT + "metamorphic (hoisting nested rules) and differential against the reference interpreter.",
     "")

prop("C10", "The grammar notation compiles to the grammar that it denotes",
     "Every rendering of a grammar as text, whatever its layout, comments, redundant parentheses, choice of quotes, escapes, or spelling of a repetition, compiles to the same grammar. No rule, alternative, bound, separator option, name, default or regular expression is lost or altered.",
     ["programs"],
     "Every grammar that can be written, and every way to write it; sampled by a randomised printer.",
     "Tests compile some dozens of short grammars; precedence of the notation, escapes and bounds in combination are not sampled.",
     ["wbnf/compile.go", "wbnf/grammar.go", "wbnf/wbnfgrammar.go", "examples/wbnf.wbnf", "parser/resolve.go"],
     ["wbnf/compile.go: buildTerm and its helpers", "wbnf/wbnfgrammar.go: the grammar of grammars", "wbnf/cutpoints.go"],
     PBT + "round trip: random grammar, randomised text, compiled grammar, compared structurally.",
     "Imports, macros and pragmas have properties of their own.")

prop("C11", "Every text is either rejected with an error or compiled to a usable grammar",
     "Compiling any text ends, and gives an error or a grammar, without a crash. Invalid grammars (undefined or duplicate rules, clashing names, impossible bounds, invalid regular expressions, calls of unknown macros, and so on) are rejected with the fitting error, and valid ones never are.",
     ["inputs", "programs"],
     "Every text; sampled as noise, mutations of valid texts, and valid grammars with one planted mistake of each kind.",
     "One test has about 20 invalid grammars; a rule that is only broken inside a nested grammar, lookahead, separator or default is not among them.",
     ["wbnf/validation.go", "wbnf/recursion.go", "wbnf/compile.go"],
     ["wbnf/validation.go: the validator", "wbnf/recursion.go: checkForRecursion", "wbnf/compile.go: Compile"],
     PBT + "structured fuzzing (noise, token and character mutations) with a crash oracle, and planted mistakes with the expected kind of error.",
     "Errors are compared by what they mention, since their kinds are not exported. Names within nested grammars and @ outside stacks are not validated (known). The check for left recursion is conservative: some harmless grammars are rejected by it.")

prop("C12", "Calling a macro is the same as writing out its expansion",
     "A grammar that calls macros, with any terms as arguments, compiles to the same grammar as one in which each call is replaced by the macro's body with the arguments in place of the parameters. This includes macros that call others, parameters used several times or not at all, and calls in nested grammars, separators and lookaheads.",
     ["programs"],
     "Every set of non-recursive macros and every grammar that calls them.",
     "Two tests call a macro or two at the top of a rule; substitution must hold at every position of every kind of term.",
     ["wbnf/compile.go", "wbnf/validation.go"],
     ["wbnf/compile.go: expandMacro and the substitution of parameters", "wbnf/validation.go"],
     PBT + "metamorphic: the generator abstracts subterms of a random grammar into macros, and the compiled grammars must be equal.",
     "")

prop("C13", "Importing files is the same as writing their rules in place",
     "A grammar that imports files, directly or through others and by paths relative to the importing file, compiles to the same grammar as the concatenation of all files. A file that imports one which is just being imported adds nothing by that, so that cycles end. Definitions that occur twice, as when a file is imported twice, and files that are missing or invalid are reported as errors.",
     ["configurations", "fault_sequences"],
     "Every import graph of up to 6 files in nested directories, with cycles and repeated imports, and missing or invalid files.",
     "One test imports one file; graphs, relative paths and faults are not sampled.",
     ["wbnf/compile.go", "cmd/main.go", "cmd/test.go", "cmd/gen.go"],
     ["wbnf/compile.go: the import resolver", "cmd/gen.go and cmd/test.go: reading the grammar file"],
     PBT + "metamorphic: random partitions of a grammar into files in a scratch directory, compared with the whole; missing files injected.",
     "")

prop("C14", "The AST holds exactly the named and matched parts of the parse tree",
     "Converting a parse tree gives a tree in which every child is found under its own name or the name of its rule, in order, and under the empty name if it has none. A child that can occur at most once is single, any other is a list. The choice that was taken and the rule are recorded, and no token is lost, changed or duplicated.",
     ["programs", "inputs"],
     "Every grammar of all kinds of term, and every accepted input.",
     "Tests compare the AST of about ten inputs; whether a name can occur at most once depends on the whole grammar.",
     ["ast/from_parsernode.go", "ast/counter.go", "ast/node.go"],
     ["ast/from_parsernode.go: fromParserNode", "ast/counter.go: newCounters"],
     PBT + "differential against an independent computation of the AST from the grammar and the reference parse tree.",
     "Grammars with two anonymous lists in a sequence are known findings.")

prop("C15", "A parse tree converted to an AST and back is the same parse tree",
     "Where what is repeated or optional has a name of its own in its branch (so that the AST tells how often it occurred), and the grammar has no back references, associative lists or outer separators, converting a parse tree to an AST and back with the same grammar gives the same parse tree, with the same tokens at the same positions. The AST of the result is the same AST again, and the conversion leaves the AST it is given as it is.",
     ["programs", "inputs"],
     "Every grammar of this kind (rules, names, choices, repetitions, lists, stacks, lookaheads, nested grammars) and every accepted input.",
     "The tests convert back a handful of trees; a loss shows only for particular shapes of repetitions in choices.",
     ["ast/to_parsernode.go", "ast/from_parsernode.go", "ast/counter.go"],
     ["ast/to_parsernode.go: toParserNode", "ast/from_parsernode.go: fromParserNode"],
     PBT + "round trip over generated grammars and inputs.",
     "Associative and outer-separator lists, and names shared under repetitions, are excluded (known findings).")

prop("C16", "Queries on the AST agree with its content",
     "Looking up children by name, counting them, iterating, and the first or only child give what the tree holds. The source range of a node spans exactly its tokens, from the first to the last. Two trees compare equal exactly if they have the same names, structure and texts, whatever their positions.",
     ["inputs", "histories"],
     "Every AST made by parsing or by hand, and every pair of ASTs that are the same or differ in one place.",
     "Tests compare a few literal trees; that every single difference is noticed is not sampled.",
     ["ast/node.go", "ast/helpers.go"],
     ["ast/node.go: ContentEquals, Scanner, One, Many", "ast/helpers.go"],
     PBT + "invariants against an own traversal, and metamorphic single-place mutations.",
     "")

prop("C17", "Scanners are views of their source with exact offsets",
     "Whatever sequence of slicing, skipping and matching produced it, a scanner denotes a known range of its source: its text, offset, line and column, and context are those of that range. Matching moves it past what matched and leaves it unchanged otherwise. Merging scanners of one source gives the smallest range that contains them all, in any order, and fails for different sources.",
     ["histories", "inputs"],
     "Every sequence of up to 12 operations on scanners of any (multi-line, multi-byte) source.",
     "The unit tests perform one or two operations on short strings.",
     ["parser/scanner.go"],
     ["parser/scanner.go: Slice, Skip, Eat, EatString, EatRegexp, Position, MergeScanners, Contains"],
     PBT + "stateful, model-based: a model of (source, start, end) runs alongside.",
     "")

prop("C18", "External parsers and escapes hand over exactly at their position",
     "An external reference calls the caller's parser at the position where it occurs, and parsing continues where that parser left off, with its result in the tree at that place (and in the AST under its name, if it is one). Its error counts as a failure there, like that of any term, and is part of the reported one; an error that is to stop the parse is returned as it is. Where the opening mark of an escape occurs at the start of a term of the grammar, the result of the caller's function for the text behind it takes the place of that term, and parsing continues behind the closing mark, which must follow what the function consumed.",
     ["programs", "inputs", "histories"],
     "Every grammar with external references in place of any of its tokens, or with an escape, and every input, with functions that match, return nodes, parse with another grammar, fail, fail after having moved, or stop.",
     "Tests have one external parser and one escape in a sequence of three tokens; functions that fail within alternatives, repetitions and lookaheads, and escapes in lists, aren't covered.",
     ["parser/parser.go", "parser/externals.go", "parser/scope.go", "parser/terms.go", "ast/from_parsernode.go"],
     ["parser/parser.go: ExtRef.Parse", "parser/parser.go: parseEscape", "parser/scope.go: WithExternals", "ast/from_parsernode.go: NewExtRefTreeElement"],
     PBT + "differential against the reference interpreter, including the recorded history of calls.",
     "Externals consume at least a byte or fail. Escapes within the text of a back reference are left out.")

prop("C19", "Parsers, trees and grammars can be shared and reused",
     "Parsing, converting, printing or compiling does not modify the grammar, the compiled parser, or the trees involved, so that repeated use, in any order and from several goroutines at once, gives the same results as a first use and no data race.",
     ["schedules", "histories"],
     "Every history of operations on shared objects, sequential or by up to 8 goroutines.",
     "The tests use each parser once, from one goroutine.",
     ["parser/parser.go", "parser/terms.go", "ast/from_parsernode.go", "ast/to_parsernode.go", "wbnf/compile.go", "wbnf/cutpoints.go"],
     ["parser/terms.go: Parsers", "parser/scope.go: immutable scopes", "ast/counter.go"],
     PBT + "sequential histories against first-use results, and concurrent histories under Go's race detector.",
     "The race detector sees only the schedules that occur.")

prop("C20", "Generated code compiles and embodies the same grammar",
     "For every grammar, the generated Go file compiles, and its embedded parser and grammar are the same as those compiled directly. The accessors of each generated type return exactly the children that the AST holds under that name.",
     ["programs", "inputs"],
     "Every grammar (names, literals and regular expressions of any characters), and accepted inputs.",
     "The tests compare parts of the output for a few grammars with expected strings; most of it is never compiled.",
     ["cmd/codegen/types.go", "cmd/codegen/typebuilder.go", "cmd/codegen/grammar.go", "cmd/codegen/idents.go", "cmd/codegen/template.go", "cmd/gen.go"],
     ["cmd/codegen/typebuilder.go: MakeTypes", "cmd/codegen/grammar.go: MakeGrammarString", "cmd/codegen/types.go"],
     PBT + "batches of random grammars are generated, compiled and run in a scratch module; the accessors are compared with the AST by reflection.",
     "Some dozens of grammars per quick run, since each is compiled by the Go compiler.")

prop("C21", "Code generation is deterministic and self-hosting",
     "Generating code for a grammar gives the same bytes every time, whatever the order and layout of its rules in the text. The grammar of grammars, parsed with the parser generated from it, gives that parser again.",
     ["programs", "configurations"],
     "Every grammar, and repeated runs of the generator in the same and in different processes.",
     "The tests generate each piece once; iteration order over maps differs from run to run.",
     ["cmd/codegen/types.go", "cmd/codegen/typebuilder.go", "cmd/codegen/grammar.go", "cmd/codegen/walkerinterface.go", "cmd/gen.go", "wbnf/wbnfgrammar.go"],
     ["cmd/codegen: sorted iteration over maps", "wbnf/wbnfgrammar.go: the generated parser"],
     PBT + "repeated generation compared byte for byte; fixpoint of self-generation.",
     "")

prop("C22", "A walk visits every node once, in order, and obeys its callbacks",
     "Walking a tree with the generated walker calls the callbacks of exactly the nodes of the visited types, parents before and after their children, each once and children of a name in order. A callback that stops the descent or aborts the walk has exactly that effect.",
     ["inputs", "histories", "programs"],
     "Every tree, and every assignment of outcomes (continue, stop, abort) to the callbacks of its nodes.",
     "No test walks a tree with callbacks that stop or abort below the root.",
     ["cmd/codegen/walkerinterface.go", "wbnf/wbnfgrammar.go", "ast/helpers.go"],
     ["wbnf/wbnfgrammar.go: WalkerOps.Walk and the Walk methods", "cmd/codegen/walkerinterface.go: the generator of these"],
     PBT + "model-based: the trace of callbacks is compared with that of an own traversal under a random plan of outcomes.",
     "")

prop("C23", "Unparsing a tree writes out its tokens",
     "Writing a parse tree with its grammar gives exactly the tokens of the tree in order, so that for a grammar without discarded text it is the parsed input, and parsing the output gives the same tree again. The reported number of bytes is that which was written.",
     ["programs", "inputs"],
     "Every grammar without external references, and every accepted input; writers that fail at any byte.",
     "One test unparses a few inputs.",
     ["parser/unparse.go", "parser/terms.go"],
     ["parser/unparse.go: the Unparse method of each kind of term"],
     PBT + "inverse of parsing, with failing writers injected.",
     "Terms that cannot be written (external references, nested grammars) are known findings.")

prop("C24", "Comparing grammars and trees reports differences exactly if there are any",
     "Comparing a grammar or tree with itself or a copy reports that they are equal, and comparing it with one that differs in any place reports a difference. This holds in both directions, and a difference found in a grammar names the rules that differ and those that are in only one of them.",
     ["programs", "inputs"],
     "Every pair of grammars or trees that are equal or differ in a single place of any kind.",
     "No test compares things that differ.",
     ["parser/diff/terms.go", "parser/diff/nodes.go"],
     ["parser/diff/terms.go: Grammars, Terms", "parser/diff/nodes.go: Nodes"],
     PBT + "metamorphic: single-place mutations of random grammars and trees must be reported, copies must not.",
     "Leaf texts of trees are not compared, as documented by the code.")

prop("C25", "Printed trees are deterministic and complete",
     "Printing a tree as text gives the same output every time, contains every node once at the depth where it belongs, in order, and draws the connecting lines so that the tree can be read back from them. Printing an AST shows every token with its offset and name, so that it can be read back; printing a parse tree shows all its tags and tokens in order.",
     ["inputs"],
     "Every tree, with texts of one or several lines.",
     "The tests print a few fixed trees.",
     ["gotree/gotree.go", "ast/treeview.go", "ast/node_string.go", "parser/parsernodes.go"],
     ["gotree/gotree.go: printer", "ast/treeview.go: BuildTreeView", "ast/node_string.go"],
     PBT + "round trip: own readers of the printed trees and ASTs reconstruct them; differential: own printers give the same text; repeated printing is compared.",
     "Texts that look like the lines that are drawn are only compared with the own printer, as they cannot be read back.")

prop("C26", "Every parse ends, and every failure is a printable error",
     "For every grammar that compiles without (hidden) left recursion, parsing any input ends without a crash, in a result or an error. Every error can be printed, in text whose size is explained by the failures that led to it; it tells of each of them, in order: the token that was expected, and what was found instead.",
     ["programs", "inputs"],
     "Every grammar and input, including repetitions of what matches the empty text, arbitrary bytes, and errors in deeply nested rules.",
     "Tests print few errors and use no input that is not valid text.",
     ["parser/parser.go", "parser/error.go", "parser/scope.go", "errors/error.go"],
     ["parser/parser.go: the progress rule of repetitions", "parser/error.go: ParseError.Error", "errors/error.go"],
     PBT + "fuzzing with arbitrary bytes, deep inputs and damaged grammars, under CPU and stack limits; differential: the text of an error is compared with the failures of a reference model.",
     "Errors whose text would exceed some 20 MB are not printed.")

prop("C27", "The command line tool does what the library does",
     "The test command accepts exactly the inputs that the grammar accepts from the given start rule, prints the tree of these, and fails with an error otherwise. The generation command writes the same code as the library generates, for any combination of its options, and a failing run leaves no partial output, says why, and has a non-zero exit status.",
     ["configurations", "inputs"],
     "Every grammar, start rule, input, and combination of options and ways to pass input and output.",
     "No test runs the commands.",
     ["main.go", "cmd/main.go", "cmd/test.go", "cmd/gen.go"],
     ["cmd/test.go: test", "cmd/gen.go: gen"],
     PBT + "differential: runs of the built tool in a scratch directory against calls of the library.",
     "A run spawns processes, so a quick run has some thousands of cases.")

CLAIMED = set(open(os.path.join(HERE, "claimed.txt")).read().split())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [dict(zip(("where", "name"), m.split(": ", 1))) if ": " in m else {"where": m} for m in p["mechanism"]]},
        }, ensure_ascii=False) + "\n")

m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in CLAIMED:
        note = p["note"]
        m["checks"].append({
            "property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": note or "Samples generated cases; it does not prove the property.",
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "Not built yet."})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
