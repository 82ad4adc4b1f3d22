#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only to make the file easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, observe, hook=None, mech=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, observe_at=observe, hook_needed=hook,
                     mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "The Earley parser accepts exactly the grammar's language",
  "For every grammar that builds and is wrapped with a start rule, and for every finite token sequence, parsing returns a tree if and only if the sequence of token kinds is a sentence of the grammar; otherwise it returns nothing. Parsing always terminates and never panics, also on ambiguous, cyclic, left-, right- and centre-recursive grammars, grammars with empty productions, and the empty input.",
  ["inputs", "programs"], "all grammars x all token sequences",
  "The example tests parse a handful of accepted inputs of two grammars and no rejected ones; the claim is about every grammar and every sentence and non-sentence.",
  ["src/parsers/earley.rs", "src/parsers/earley/state.rs", "src/state.rs", "src/start_grammar.rs"],
  ["the Option returned by the Earley parse function"],
  mech=[("predict/scan/complete closure", "src/parsers/earley.rs close_state, parse"), ("state sets", "src/parsers/earley/state.rs")])
p("C02", "The parse forest holds exactly the derivation trees",
  "When a parse succeeds, unfolding the returned node (choosing one alternative at every node) yields exactly the derivation trees of the input from the start nonterminal: each branch carries the action key of the production used and one child per element of that production in order, each leaf carries the kind and value of the token at its position, no derivation is missing and none is invented. In grammars whose rules give their productions different action keys, no tree is obtained by two different choices of alternatives. This holds for every degree of ambiguity, including different splits of the input between the children and empty children.",
  ["inputs", "programs"], "all grammars x all accepted token sequences",
  "No test looks at the content of a parse result; ambiguity and split points make the space unbounded.",
  ["src/parsers/earley/state.rs", "src/parsers/earley.rs", "src/parsers/tree.rs"],
  ["node alternatives, branch actions and children, leaf kinds and values reachable from the parse result"],
  mech=[("state values merged by key", "src/parsers/earley/state.rs EarleyStateSet::insert")])
p("C03", "Nullability: exact set, ambiguity detection, empty-derivation trees",
  "The nullable pass reports a nonterminal (or production) as nullable exactly when it derives the empty string, and fails with the ambiguity error exactly when some nonterminal has more than one nullable production. When it succeeds, the recorded empty-derivation tree of each nullable nonterminal names that nonterminal's single nullable production, and has one entry per named nonterminal of it, holding that nonterminal's own empty-derivation tree.",
  ["inputs", "programs"], "all grammars",
  "Six fixed grammars are tested; the claim is a least fixed point over every grammar.",
  ["src/grammar/passes/nullable.rs", "src/grammar/passes/nullable/nullables.rs"],
  ["results of the nullable pass: membership, set, per-production answer, empty-derivation trees, error"])
p("C04", "FIRST sets are exact",
  "For every grammar without nullable ambiguity, the FIRST set computed for a nonterminal is exactly the set of terminals that can begin a sentential form derived from it, looking past every element that can derive the empty string; nonterminals without any such terminal have an empty or absent set. The computation always terminates.",
  ["inputs", "programs"], "all grammars without nullable ambiguity",
  "No test runs this pass.",
  ["src/grammar/passes/firsts.rs", "src/utils.rs"], ["sets returned by the firsts pass"])
p("C05", "Grammar construction accepts exactly the valid grammars",
  "Building a grammar succeeds if and only if the start nonterminal and every nonterminal used in a production have a rule, every rule has at least one production, and every nonterminal used in a production is reachable from the start nonterminal; otherwise it returns an error naming exactly the nonterminals that lack a rule, those whose rule lacks productions, and those that are unreachable. It never panics and never loops, whatever was added to the builder.",
  ["inputs", "programs"], "all sequences of builder calls",
  "Only valid grammars are built in tests.",
  ["src/grammar/base.rs", "src/grammar/base/builder.rs", "src/utils.rs"], ["the Result of build and the sets in its error"], hook="read access to the three sets of the grammar error")
p("C06", "A built grammar says exactly what the builder was told",
  "The rules, productions, elements with their optional names, action keys and action values that a grammar reports are those given to the builder, in the order given, with rules listed by head and a later rule replacing an earlier one with the same head. All accessors (start, rules, rule lookup, productions, element and production-element lookup by index, first element, element count, production key) agree with each other, and index lookups return nothing exactly when the index is past the end.",
  ["inputs", "programs"], "all sequences of builder calls and all indexes",
  "Tests print grammars but compare nothing.",
  ["src/grammar/base.rs", "src/grammar/base/builder.rs"], ["grammar, rule and production accessors"])
p("C07", "The non-null transform removes exactly the empty derivations",
  "When the non-null transform succeeds, every nonterminal of the result derives exactly the non-empty strings it derived before, and no production of the result is empty. The productions of each rule are exactly the variants of the original productions in which some subset of the nullable nonterminal occurrences is left out and something remains, each exactly once, with the original elements, names and order, the original action key plus per nonterminal occurrence whether it was left out, and the original action value plus the empty-derivation tree of each left-out named occurrence. The transform fails exactly when the grammar has a nullable ambiguity or some rule has only empty productions.",
  ["inputs", "programs"], "all grammars",
  "The single test prints the transformed grammar and compares nothing.",
  ["src/grammar/transform/nonnull.rs"], ["productions, keys and values of the transformed grammar"],
  hook="read access to the fields of the transformed action key and value")
p("C08", "Start wrapping mirrors the grammar",
  "Wrapping a grammar with a start rule succeeds on every built grammar; the result has exactly one extra rule, headed by the new start nonterminal, with the single production consisting of the original start nonterminal (named \"start\") followed by end-of-stream. Every other rule, production, element, name, action key and action value is the original one tagged as original, in the same order.",
  ["inputs", "programs"], "all grammars",
  "Tests only check that two wrapped grammars can be analysed.",
  ["src/start_grammar.rs"], ["accessors of the wrapped grammar"])
p("C09", "Buffer ranges read exactly the remaining text",
  "A range over a text always shows exactly its own slice of it: reading a character or n characters yields precisely the next characters of the slice and leaves the rest, asking for more than is left returns nothing and changes nothing, and the non-mutating forms agree with the mutating ones and leave their receiver alone. Removing a suffix gives exactly the text before it, length and emptiness agree with the text shown, and no operation panics on any Unicode text.",
  ["inputs", "histories"], "all texts x all sequences of operations",
  "Unit tests read a few characters of two texts.",
  ["src/utils/buffer.rs"], ["shown text, read characters, lengths"])
p("C10", "Text positions give the right line and column",
  "The start and end position of a range carry its byte offset, the zero-based number of the line it lies in, where lines end at a carriage return, a line feed, or the two together, and the zero-based column which is the number of grapheme clusters of that line that begin before it. An offset at a line terminator belongs to the line it ends, and no text and no range makes the computation panic.",
  ["inputs"], "all texts x all offsets",
  "One two-line ASCII text is tested at its two ends.",
  ["src/utils/buffer.rs"], ["line, column and byte offset of positions"],
  hook="read access to the three fields of a text position")
p("C11", "Tree store: shared alternatives, unions, isolation",
  "Within one tree, two alternatives compare equal exactly when they were made from equal contents (leaf kind and value, or branch action and the same child nodes in order), and reading an alternative returns the contents it was made from, at any later time. A node's alternatives are exactly those added to it directly or by merging another node's alternatives; adding reports a change exactly when the set grew, and merging leaves the other node alone. Mixing nodes or alternatives of different trees panics instead of corrupting either tree, and supplying child nodes from an iterator that itself uses the tree works.",
  ["histories", "inputs"], "all sequences of tree operations",
  "No test exercises the tree store directly.",
  ["src/parsers/tree.rs"], ["node alternatives, alternative contents, reported changes"])
p("C12", "Dot output shows exactly the reachable forest",
  "The dot rendering of a node lists exactly the nodes and alternatives reachable from it (including itself), each once, with exactly the edges from each listed node to its alternatives and from each listed branch to its child nodes, in order and with repetitions, and labels each alternative with its action, or its kind and value. It terminates on cyclic forests.",
  ["inputs", "histories"], "all forests",
  "No test renders a tree.",
  ["src/parsers/tree.rs"], ["the rendered dot text"])
p("C13", "The typed map behaves as a map per key type",
  "A typed map behaves as one independent map for each key type: a lookup returns the value most recently stored under an equal key of the same type and nothing otherwise, keys of different types never interfere even if their values look alike, and a mutable lookup changes just that entry. Merging moves every entry of the other map over, replacing entries with equal keys, and leaves the other map empty.",
  ["histories", "inputs"], "all sequences of map operations over all key types",
  "The module has no tests.",
  ["src/utils/type_map.rs"], ["lookups after any history"])
p("C14", "Analysis passes run once, and failures and cycles are reported",
  "Within one pass context, a pass that succeeds is computed at most once, and every later request returns that same result; a pass that fails returns its error on every request and never poisons the context or other passes. A pass that (directly or through others) requests itself while running is reported as a recursive dependency by a panic, and nothing else is.",
  ["histories", "programs"], "all pass dependency graphs x all request sequences",
  "Tests request one pass once per context.",
  ["src/grammar/passes/mod.rs"], ["results and identity of requested passes, number of runs"])
p("C15", "Closure and set-collecting utilities compute exact closures",
  "Breadth-first search returns exactly the elements reachable from the initial ones (initial ones included), the fixed-point helpers return only a value that no further step changes, grouping key-value pairs groups exactly those pairs, and extracting an only element succeeds exactly on one-element sequences. Inserting into a set-collecting map adds exactly the given values to exactly that key and reports a change exactly when that key's set grew, including copying from another key's set, and change flags combine to changed exactly when one of them is.",
  ["inputs", "histories"], "all inputs, step functions and histories of insertions",
  "The utilities have no tests of their own.",
  ["src/utils.rs"], ["return values and reported changes"])
p("C16", "A token stream yields the tokens in order, without side effects",
  "A token stream made from a collection yields exactly its tokens in order and then nothing, forever. Asking for the next token does not change the stream it is asked of, so any retained position can be read again with the same result.",
  ["inputs", "histories"], "all collections x all reading orders",
  "No test uses token streams.",
  ["src/parsers/mod.rs"], ["the results of asking for the next token"])
p("C17", "Production states and state sets step correctly",
  "A production state walks its production element by element: the next element, the element at any offset, the advanced state and completeness are those of its current index, advancing on an element succeeds exactly if that element is next, and two states are equal exactly when they are at the same index of the same production. A set of states holds exactly the states put in, its successor sets are grouped exactly by next element, its complete states are exactly those at their end, and its closure is the least superset closed under the given step.",
  ["inputs", "histories"], "all grammars, positions and step functions",
  "No test covers the module.",
  ["src/state.rs"], ["accessors, comparison, iteration of states and state sets"])
p("C18", "The mergeable map merges equal keys and nothing else",
  "Inserting a value whose key is absent stores it and reports a change; inserting one whose key is present merges it into the stored value with that value's own merge and reports what that merge reports, leaving every other entry as it was. Owned and borrowed insertion have the same effect, and looking up a key returns the stored key and merged value, or nothing if it was never inserted.",
  ["histories", "inputs"], "all histories of insertions and all merge operations",
  "The module has no tests.",
  ["src/utils/mergeables.rs"], ["lookups and reported changes"], hook="a constructor for mergeable values")
p("C19", "Names share storage but never alias",
  "A name shows exactly the text it was made from, clones compare and hash equal to the original, and comparison agrees with the texts. Modifying one name through its mutable access changes that name only, whatever other names share its storage.",
  ["histories", "inputs"], "all histories of cloning and modifying names",
  "Tests never modify a name.",
  ["src/utils.rs"], ["texts of all live names"])
p("C20", "FOLLOW sets are exact",
  "For every grammar without nullable ambiguity, the FOLLOW set computed for a nonterminal is exactly the set of terminals that can come directly after it in a sentential form derived from any nonterminal of the grammar, looking past every element that can derive the empty string. The computation always terminates.",
  ["inputs", "programs"], "all grammars without nullable ambiguity",
  "No test runs this pass.",
  ["src/grammar/passes/follows.rs"], ["sets computed by the follows pass"],
  hook="read access to the computed FOLLOW sets")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
