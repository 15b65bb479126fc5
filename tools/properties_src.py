#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os
L = "libhext/src/"
I = "libhext/include/hext/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


prop("C01", "Parsing any bytes ends in a rule or a SyntaxError",
     "For every byte sequence given as hext source, parsing either returns a rule or throws SyntaxError: no exception of "
     "another type leaves the parser (running out of memory aside) and it never terminates the process. This includes "
     "numbers too large to represent, malformed regular expressions, and the code that builds the error message itself.",
     ["inputs"], "all byte strings passed to the parsing entry points",
     "The tests parse a fixed list of good and bad scripts; exceptions raised by library calls on other inputs (number "
     "conversion, regex compilation, string construction) are never seen by them.",
     [L + "Parser.cpp", L + "Parser.h", L + "ParseHext.cpp", L + "PatternValues.cpp", L + "StringUtil.cpp", "libhext/ragel/hext-machine.rl"],
     [("catch of regex_error and conversion to SyntaxError", L + "Parser.cpp"), ("throw_* helpers all throw SyntaxError", L + "Parser.cpp")],
     observe=["hext::ParseHext"])

prop("C02", "Unbalanced or misnested hext is always rejected",
     "A script whose tags or braces do not balance is always rejected with SyntaxError: a closing tag that differs from "
     "the innermost open tag, a closing tag or brace without an opening one, a nested block without parent or without "
     "exactly one group of sibling rules, or anything left open at the end of input. For no order of tags and braces does "
     "the parser read or remove an element of an empty rule stack.",
     ["inputs"], "all sequences of opening tags, closing tags, self-closing tags and braces, of any length and depth",
     "The tests contain a handful of short unbalanced scripts; the stack discipline has to hold for every interleaving.",
     [L + "Parser.cpp", L + "Parser.h", "libhext/ragel/hext-machine.rl"],
     [("push/pop of rules and nested blocks", L + "Parser.cpp push_rule, pop_rule, push_nested, pop_nested"),
      ("closing tag comparison", L + "Parser.cpp validate_close_tag_or_throw"),
      ("checks after the end of input", L + "Parser.cpp parse")],
     state=[("stacks_", "result- and work-stacks of rules under construction", L + "Parser.h")],
     observe=["hext::ParseHext"])

prop("C03", "Hext syntax is accepted and translated exactly as documented",
     "The parser accepts exactly the documented hext syntax, character for character: tag names, rule options, traits, "
     "matches, negations, captures, pipes, regex flags, quoting and comments. For every accepted construct, in every "
     "position where it may stand, the rule receives exactly the documented match, value test, capture and pipe objects, "
     "with the arguments written in that construct and in the order written.",
     ["inputs", "programs"], "all hext scripts",
     "Test scripts use each construct in one or two contexts; the language and its translation are infinite.",
     [L + "Parser.cpp", "libhext/ragel/hext-machine.rl", L + "PatternValues.h"],
     [("generated automaton with embedded actions", L + "Parser.cpp parse"), ("grammar", "libhext/ragel/hext-machine.rl")],
     observe=["hext::ParseHext", "the constructed rule tree"])

prop("C04", "One hext construct never influences the meaning of another",
     "How a trait, match, capture or pipe is interpreted depends only on its own text. No attribute name, literal, number, "
     "regular expression, regex flag, value test, pipe, negation or optional marker carries over from an earlier construct "
     "of the same script.",
     ["inputs", "programs"], "all sequences of constructs in a script",
     "Leakage needs a particular earlier construct followed by a particular later one; tests mostly use constructs alone.",
     [L + "Parser.cpp", L + "PatternValues.cpp", L + "PatternValues.h", "libhext/ragel/hext-machine.rl"],
     [("reset of the pattern values after each pattern", L + "PatternValues.cpp reset"), ("consuming moves of pattern values", L + "Parser.cpp")],
     state=[("pv", "values collected for the construct being parsed", L + "PatternValues.h")],
     observe=["hext::ParseHext"])

prop("C05", "Failed or exploratory match attempts leave no captures",
     "When a rule, a group of sibling rules or a nested rule does not match at a position, nothing that was tentatively "
     "matched below or beside it during that attempt is captured; a lookahead for the next mandatory rule contributes "
     "nothing either. The captures found below a node are reported only together with that node's own match, in the same "
     "result.",
     ["inputs", "programs"], "all rule trees and documents, in particular partial matches that fail late",
     "Needs partial matches that fail after having matched something; the test cases contain few of them.",
     [L + "RuleMatching.cpp", L + "RuleMatching.h"],
     [("local sub-results moved to the caller only on success", L + "RuleMatching.cpp MatchRuleGroup, RuleMatchesNodeRecursive"),
      ("discarded lookahead result", L + "RuleMatching.cpp MatchRuleGroup")],
     observe=["hext::Rule::extract"])

prop("C06", "Extraction has no side effects and no hidden inputs",
     "Extracting with a rule modifies neither the rule nor the document nor any state that outlives the call, and reads "
     "nothing but the rule and the document: the same rule and document always give the same result. Any number of threads "
     "may therefore match, capture and extract concurrently with a shared rule and document.",
     ["schedules", "histories", "inputs"], "all schedules and histories of extractions sharing rules and documents",
     "Tests run single-threaded, one extraction per object.",
     [L + "Rule.cpp", L + "RuleMatching.cpp", L + "NodeUtil.cpp", L + "StringUtil.cpp", I + "*.h"],
     [("const member functions without mutable members or static state", "libhext/src, libhext/include/hext")],
     observe=["hext::Rule::extract", "hext::Match::matches", "hext::Capture::capture"])

prop("C07", "One search budget bounds the whole extraction",
     "With a limit N > 0 an extraction starts at most N-1 searches, where a search is made for the start node and for every "
     "list of children descended into, by the top rule and by nested rules alike, all charged to the same budget; instead of "
     "the N-th search MaxSearchError is thrown and leaves the extraction. A limit of 0 never aborts. The full 64-bit limit "
     "given by the caller is what is counted down; it is never refilled, copied or narrowed.",
     ["inputs", "programs", "configurations"], "all rules, documents and limits",
     "Tests try one rule and document with very few limits; they cannot see a search that is not charged.",
     [L + "RuleMatching.cpp", L + "Rule.cpp", I + "Rule.h", "libhext/bindings/wrapper/Rule.cpp", "htmlext/main.cpp"],
     [("counter passed by reference, decremented on every search", L + "RuleMatching.cpp SaveMatchingNodesRecursive")],
     state=[("max_searches", "searches left", L + "RuleMatching.cpp")],
     observe=["hext::Rule::extract", "htmlext --max-searches"])

prop("C08", "Bindings turn every C++ exception into a script exception",
     "In the Python, Ruby, PHP and Node.js bindings, any C++ exception raised while a Html or Rule object is constructed or "
     "while extracting (syntax errors, exhausted search budget, regular expressions that give up while matching, any other "
     "library error) is converted into an exception of that language. None reaches the interpreter, which would terminate "
     "the process.",
     ["inputs", "fault_sequences"], "all scripts, documents and arguments passed through a binding",
     "The binding tests provoke a single syntax error and a single exhausted budget.",
     ["libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i", "libhext/bindings/php/phphext.i", "libhext/bindings/nodejs/src/Rule.cpp",
      "libhext/bindings/nodejs/src/Html.cpp", "libhext/bindings/wrapper/Rule.cpp"],
     [("%exception blocks", "libhext/bindings/*/*.i"), ("try/catch", "libhext/bindings/nodejs/src/Rule.cpp")],
     observe=["hext.Rule", "hext.Rule.extract"])

prop("C09", "DOM nodes are only read as the kind of node they are",
     "While matching, capturing, walking or serialising, data that exists only for one kind of DOM node (an element's tag, "
     "attributes and children; a text node's text; the document's doctype) is read only from nodes established to be of that "
     "kind on the path taken. This holds for every document and for every start node, including text, comment and document "
     "nodes.",
     ["inputs"], "all documents and start nodes, all matches and captures",
     "Reading the wrong variant is silent in most runs; tests start at the root element.",
     [L + "NodeUtil.cpp", L + "RuleMatching.cpp", L + "Rule.cpp", L + "*Match.cpp", L + "*Capture.cpp"],
     [("checks of the node type before access", L + "*.cpp")],
     observe=["hext::Rule::extract", "hext::Match::matches", "hext::Capture::capture"])

prop("C10", "Absent nodes, parents, attributes and parts are never dereferenced",
     "While matching, capturing, extracting, walking the document, serialising or copying, no null pointer, empty owning "
     "pointer, empty optional or empty function is dereferenced: missing parents and siblings, absent attributes or attribute "
     "values, rules without children, and matches or captures built without a value test, pipe or function are all legal.",
     ["inputs", "programs"], "all documents, start nodes and object graphs buildable through the public API",
     "Tests only build complete objects and start at the root element.",
     [L + "*.cpp", I + "*.h"],
     [("null checks before every dereference", L + "*.cpp")],
     observe=["hext::Rule::extract", "hext::Match::matches", "hext::Capture::capture", "copy constructors and assignments"])

prop("C11", "Lists, strings and input are only indexed inside their bounds",
     "Child lists, attribute lists, strings, match results and the hext input are only accessed at positions inside their "
     "current bounds, for every document, rule and hext script; sizes are never computed by a subtraction that can wrap "
     "around. Empty lists and strings are covered.",
     ["inputs"], "all documents, rules and hext scripts",
     "An access one past the end rarely shows in a plain test run.",
     [L + "NodeUtil.cpp", L + "NthChildMatch.cpp", L + "ChildCountMatch.cpp", L + "OnlyChildMatch.cpp", L + "RuleMatching.cpp", L + "StringUtil.cpp", L + "Parser.cpp"],
     [("loop bounds and length checks", L + "*.cpp")],
     observe=["hext::Rule::extract", "hext::ParseHext"])

prop("C12", "Every parsed document is released exactly once",
     "The parse tree behind a document object is released exactly once, by the object that owns it last, whatever sequence "
     "of construction, move construction, move assignment (also to itself) and destruction took place. A moved-from document "
     "owns nothing and has no root.",
     ["histories"], "all sequences of constructions, moves and destructions",
     "The tests never move a document whose result they then use, and leaks or double frees are not looked for.",
     [L + "Html.cpp", I + "Html.h"],
     [("destructor and move operations", L + "Html.cpp, " + I + "Html.h")],
     state=[("g_outp_", "owning handle of the parse tree", I + "Html.h")],
     observe=["hext::Html"])

prop("C13", "A document's text outlives the document in every front end",
     "A document refers to the text it was parsed from. In the command line tool and in all bindings that text is stored, "
     "before parsing, in an object that is neither changed, moved, reallocated nor destroyed while a document parsed from it "
     "can still be used.",
     ["inputs", "histories"], "all numbers and sizes of input files, and all orders of object destruction",
     "A dangling buffer usually still holds the old bytes, and short strings and few files hide reallocation.",
     ["htmlext/main.cpp", "libhext/bindings/wrapper/Html.h", "libhext/bindings/wrapper/Html.cpp", "libhext/bindings/nodejs/src/Html.h", "libhext/bindings/nodejs/src/Html.cpp"],
     [("reserve before emplace_back of the texts", "htmlext/main.cpp"), ("member order of buffer and document", "libhext/bindings/wrapper/Html.h")],
     observe=["htmlext", "hext.Html"])

prop("C14", "Copies of rules and their parts are complete and independent",
     "Copying or assigning a rule, match, value test, capture or pipe gives an object of the same dynamic type in which every "
     "part equals the original's part and every owned part is a copy of its own; sharing or dropping nothing. Swapping two "
     "rules exchanges all of their parts, and self-assignment changes nothing.",
     ["histories", "programs"], "all object graphs buildable through the public API",
     "Copies are tested for one or two classes with few parts set.",
     [L + "Rule.cpp", L + "AttributeMatch.cpp", L + "AttributeCapture.cpp", L + "FunctionCapture.cpp", L + "FunctionValueMatch.cpp",
      L + "NegateMatch.cpp", L + "NegateTest.cpp", L + "StringPipe.cpp", I + "Cloneable.h"],
     [("copy constructors, assignments, swap", L + "*.cpp"), ("clone", I + "Cloneable.h")],
     observe=["copy constructor", "copy assignment", "clone", "swap"])

prop("C15", "Absent values fail value tests; non-elements are not matched",
     "A value test applied to an absent value fails, and its negation succeeds. Matches on attributes, counts and positions "
     "reject everything that is not an element, attribute captures and element-only serialisations yield nothing for it, and "
     "a rule with a tag never matches it.",
     ["inputs"], "all value tests, matches and captures applied to absent values and to nodes of every kind",
     "Only some classes are tested with a null value or a text node.",
     [L + "*Test.cpp", L + "*Match.cpp", L + "*Capture.cpp", L + "Rule.cpp"],
     [("early returns for null subjects and non-element nodes", L + "*.cpp")],
     observe=["hext::ValueTest::test", "hext::Match::matches", "hext::Capture::capture"])

prop("C16", "A captured value passes every pipe once, in order",
     "The value reported by a capture is the captured attribute value or function result, transformed by every pipe of that "
     "capture exactly once and in the order written, and reported under the capture's own name. Without pipes the value is "
     "reported unchanged; appending a pipe puts it after all existing ones and loses none.",
     ["inputs", "programs"], "all pipe chains and values",
     "Tests use chains of at most a few pipes, mostly with one.",
     [L + "StringPipe.cpp", L + "AttributeCapture.cpp", L + "FunctionCapture.cpp", L + "PatternValues.h", I + "StringPipe.h"],
     [("recursive pipe and append", L + "StringPipe.cpp")],
     observe=["hext::Capture::capture", "hext::StringPipe::pipe"])

prop("C17", "HTML tags are the same tags for hext and for the HTML parser",
     "Every HTML tag the HTML parser knows exists in the public tag enumeration under the same name and with the same number, "
     "so tag values can be exchanged between both; the wildcard tag equals none of them. Wherever a tag is converted from one "
     "to the other it stays the same tag, and the tag of a rule is the one the HTML parser finds for its complete name.",
     ["inputs"], "all tags",
     "The tests compare the enumerators they list and use a few dozen tags; tags the parser gains and the places that convert tags are not covered.",
     [I + "HtmlTag.h", L + "Rule.cpp", L + "Parser.cpp", L + "NthChildMatch.cpp"],
     [("enumerators initialised from the HTML parser's", I + "HtmlTag.h"), ("names become tags", L + "Parser.cpp set_open_tag_or_throw, " + L + "Rule.cpp")],
     observe=["hext::HtmlTag"])

prop("C18", "Void, text-wrapping and whitespace classifications are exact",
     "For every tag and every character: exactly the void elements (area, base, br, col, embed, hr, img, input, keygen, "
     "link, meta, param, source, track, wbr) are serialised without content and end tag; exactly the inline elements (a, abbr, "
     "acronym, b, bdo, big, cite, code, del, dfn, em, fieldset, font, i, img, ins, kbd, label, legend, map, object, q, s, samp, "
     "small, span, strike, strong, sub, sup, tt, u, var) do not introduce a word break in extracted text while all others, unknown ones included, do; "
     "exactly space, tab, line feed, form feed and carriage return count as whitespace.",
     ["inputs"], "all tags, all characters",
     "The tests touch a few tags and characters.",
     [L + "NodeUtil.cpp", L + "StringUtil.cpp"],
     [("classification functions", L + "NodeUtil.cpp TagIsSelfClosing, TagWrapsText; " + L + "StringUtil.cpp IsSpace")],
     observe=["@inner-html", "@text", "collapsews"])

prop("C19", "Inner HTML contains each child and attribute once, properly tagged",
     "Serialising an element's inner HTML writes every child node exactly once and in document order, with every attribute of "
     "each element exactly once in order; each element that is not a void element is closed by an end tag of the name it was "
     "opened with, after its children. Text, whitespace and comments are written in full, comments inside comment delimiters. "
     "CDATA sections are left out.",
     ["inputs"], "all DOM trees",
     "Tests serialise small trees with the most common node kinds.",
     [L + "NodeUtil.cpp"],
     [("recursive serialisation", L + "NodeUtil.cpp NodeInnerHtml, SerializeNode, SerializeElement, SerializeAttribute, SerializeElementTag")],
     observe=["@inner-html"])

prop("C20", "Stripped text contains all text below a node once, in order",
     "The text of an element is the concatenation, in document order, of every text and whitespace node below it, each exactly "
     "once and complete, with line breaks added only around those children that break words and only when wrapping is asked "
     "for. Comments and markup contribute nothing. The contents of <template> and CDATA sections do not count as text.",
     ["inputs"], "all DOM trees",
     "Tests extract text from small trees.",
     [L + "NodeUtil.cpp", L + "Builtins.cpp"],
     [("recursive text collection", L + "NodeUtil.cpp StripTags")],
     observe=["@text", "@strip-tags"])

prop("C21", "htmlext reports every failure with exit status and message",
     "Whenever the command line tool cannot do all that was asked (bad arguments, unreadable or only partly readable files, "
     "syntax errors, exhausted search budget, failing regular expressions, output that cannot be written), it exits with a "
     "non-zero status and a message on standard error. It exits with zero otherwise.",
     ["inputs", "fault_sequences", "configurations"], "all command lines, files, and I/O faults",
     "The command line tests check a few argument and syntax errors; I/O faults are not injected.",
     ["htmlext/main.cpp", "htmlext/htmlext/File.cpp", "htmlext/htmlext/ProgramOptions.cpp", "htmlext/htmlext/ErrorOutput.cpp"],
     [("try/catch with EXIT_FAILURE", "htmlext/main.cpp"), ("stream state checks", "htmlext/htmlext/File.cpp")],
     observe=["exit status and stderr of htmlext"])

prop("C22", "htmlext prints results only after all inputs were accepted",
     "The command line tool writes nothing to standard output before every hext script and every HTML file of the command line "
     "has been read and parsed successfully. With the lint option it checks all scripts, reads no HTML and prints no results; "
     "diagnostics never go to standard output.",
     ["inputs", "configurations"], "all command lines and file contents",
     "Tests with a failing second input do not look at what was printed before.",
     ["htmlext/main.cpp", "htmlext/htmlext/ErrorOutput.cpp", "htmlext/htmlext/Json.cpp"],
     [("loading loops precede the extraction loop", "htmlext/main.cpp")],
     observe=["stdout of htmlext"])

prop("C23", "htmlext options exist, are typed and documented as they are used",
     "Every option the command line tool consults is declared, with the value type it is read as; options read without having "
     "been given have a default. Every declared option has an effect and is described, with its short name, in the manual "
     "page.",
     ["configurations"], "all options and their combinations",
     "Tests exercise some options; an option read with a different type only fails when it is given.",
     ["htmlext/htmlext/ProgramOptions.cpp", "htmlext/htmlext/ProgramOptions.h", "htmlext/main.cpp", "man/htmlext.ronn"],
     [("option table and accessors", "htmlext/htmlext/ProgramOptions.cpp")],
     observe=["htmlext command line"])

prop("C24", "JSON output keeps every captured value, in order",
     "The JSON printed for a result contains one object per group in order, and in it every captured name with all values "
     "captured under that name in their order: a single value as string, several as array. Nothing is dropped, duplicated or "
     "merged, for any number of values per name.",
     ["inputs"], "all extraction results",
     "Tests print results with at most a few repeated names.",
     ["htmlext/htmlext/Json.cpp", "htmlext/htmlext/Json.h"],
     [("conversion to arrays on repeated names", "htmlext/htmlext/Json.cpp PrintJson")],
     observe=["stdout of htmlext"])

prop("C25", "Bindings convert results completely and manage references correctly",
     "Each binding converts an extraction result into a list of mappings with every captured name and all of its values, single "
     "values as strings and repeated ones as a list, in order. In the Python binding every reference that is acquired is "
     "released exactly once on every path, a failed allocation or conversion raises an exception, and no null object is used.",
     ["inputs", "fault_sequences"], "all extraction results, including values that cannot be converted, and allocation failures",
     "Binding tests convert a few results; conversion failures are not provoked.",
     ["libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i", "libhext/bindings/php/phphext.i", "libhext/bindings/nodejs/src/Rule.cpp"],
     [("out typemaps", "libhext/bindings/*/*.i"), ("ScopedPyObject", "libhext/bindings/python/pyhext.i")],
     observe=["hext.Rule.extract"])

prop("C26", "Position and count patterns are computed without overflow",
     "Positions, counts and the pattern arithmetic on them are exact for every step, shift, count and document: no "
     "intermediate result overflows, wraps, divides by zero or is narrowed, whatever numbers the hext script or the API "
     "supplies.  A position is the number of sibling elements (of the same tag, for the -of-type forms) up to the element, "
     "counted from the first or the last sibling; it fits step*n+shift exactly when some n >= 0 gives it.  Child and attribute "
     "counts count elements and attributes.",
     ["inputs"], "all representable numbers in patterns, all documents",
     "Tests use single-digit patterns.",
     [L + "NthChildMatch.cpp", L + "ChildCountMatch.cpp", L + "AttributeCountMatch.cpp", L + "Parser.cpp"],
     [("pattern arithmetic", L + "NthChildMatch.cpp matches")],
     observe=["hext::NthChildMatch::matches", "hext::ParseHext"])

prop("C27", "The whole public API is exported from the shared library",
     "Every function, member function, class and constant that a public header offers is defined in the library and visible to "
     "users of the shared library, and everything thrown across its boundary has visible type information. Each public header "
     "can be included on its own, and programs see the same classes as the library whatever NDEBUG says.",
     ["programs"], "all programs using the public headers",
     "The tests and tools link a part of the API, with one compiler and one set of macros.",
     [I + "*.h"],
     [("visibility attributes", I + "Visibility.h")],
     observe=["linking against libhext"])

prop("C28", "Matching, serialising and text processing always terminate",
     "Every loop and recursion executed while matching, capturing, serialising or processing strings makes progress in every "
     "round: it advances to a later sibling, a child, a later rule or a later position, and never returns to an earlier one. "
     "So every extraction of a finite document by a finite rule ends.",
     ["inputs", "programs"], "all rules and documents, in particular greedy and optional rules in any combination",
     "A loop that stalls for a particular combination is only seen if a test contains it.",
     [L + "RuleMatching.cpp", L + "Rule.cpp", L + "NodeUtil.cpp", L + "StringUtil.cpp", L + "NthChildMatch.cpp", L + "StringPipe.cpp"],
     [("advancing node and rule pointers", L + "RuleMatching.cpp")],
     observe=["hext::Rule::extract"])

prop("C29", "Front ends pass text on with its full length",
     "Hext scripts, HTML documents, captured names and captured values pass through the command line tool and the bindings with "
     "their full length; none is cut off at an embedded NUL byte.",
     ["inputs"], "all scripts, documents and results containing NUL bytes",
     "No test contains a NUL byte.",
     ["htmlext/main.cpp", "htmlext/htmlext/Json.cpp", "libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i",
      "libhext/bindings/php/phphext.i", "libhext/bindings/nodejs/src/Rule.cpp", "libhext/bindings/wrapper/Rule.cpp", "libhext/bindings/wrapper/Html.cpp"],
     [("pointer and length passed together", "front ends")],
     observe=["stdout of htmlext", "hext.Rule.extract"])

prop("C30", "A node matches a rule only if its tag and every match accept it",
     "A node is matched by a rule if and only if the rule's tag is the wildcard or equals the node's tag (custom tags by "
     "name, ignoring case) and every match attached to the rule accepts the node; negations accept exactly when none of "
     "their matches accepts. No attached match is skipped and no other condition is added, whatever their number and order.",
     ["inputs", "programs"], "all rules, nodes, and any number of matches",
     "Tests combine a few matches; skipping one only shows when it is the only one to reject.",
     [L + "Rule.cpp", L + "NegateMatch.cpp", L + "AttributeMatch.cpp", L + "FunctionValueMatch.cpp", L + "NegateTest.cpp"],
     [("conjunction over the matches", L + "Rule.cpp matches"), ("disjunction and negation", L + "NegateMatch.cpp matches")],
     observe=["hext::Rule::matches", "hext::NegateMatch::matches"])

prop("C31", "Mandatory child and nested rules are required, optional ones are not",
     "A node is matched together with its descendants only if the node itself matches and, where the rule has child rules or "
     "nested rules with a mandatory member, these were found among its descendants; rules without children require no "
     "descendants. Child and nested rules that are all optional never prevent a match of an element that has children.",
     ["inputs", "programs"], "all rule trees and documents",
     "The rule trees of the tests are small; a missing check shows only in particular combinations.",
     [L + "RuleMatching.cpp"],
     [("decision at each node", L + "RuleMatching.cpp RuleMatchesNodeRecursive"), ("search for mandatory rules", L + "RuleMatching.cpp FindMandatoryRule")],
     observe=["hext::Rule::extract"])

prop("C32", "The search visits every list of siblings and keeps every group found",
     "A rule is searched for among the siblings it is started with and among the children of every element below them. In each "
     "list the search for the next group begins behind the nodes used by the last one and stops only where no further node or "
     "group is left; within a range every node is tried in order until one matches. Every group found, for a rule, its child "
     "rules and its nested rules alike, is kept whole, exactly once, and all its captures become one result. Greedy rules, and "
     "only these, are tried again after a match; an optional rule takes no node behind the next match of a mandatory rule.",
     ["inputs", "programs"], "all rule trees and documents, of any size and depth",
     "A search that stops early, skips a node or drops a group is visible only with a matching document that is deep or long "
     "enough at the right place; the documents of the tests are small.",
     [L + "RuleMatching.cpp", L + "RuleMatching.h", L + "Rule.cpp"],
     [("search below every element", L + "RuleMatching.cpp SaveMatchingNodesRecursive"), ("groups", L + "RuleMatching.cpp MatchRuleGroup, MatchRange"),
      ("children and nested rules", L + "RuleMatching.cpp RuleMatchesNodeRecursive"), ("nodes of a range", L + "RuleMatching.cpp MatchRuleOnce"),
      ("results", L + "Rule.cpp extract")],
     observe=["hext::Rule::extract"])

prop("C33", "Rules keep what is appended to or set in them, and capture everything",
     "A child, sibling, nested rule, match or capture that is appended to a rule becomes the last of its kind, complete with "
     "everything it has, and nothing that was there before is lost, replaced or reordered. A rule has the tag and the optional and "
     "greedy marks it was constructed with or that were set last, reports them as they are, and setting one changes no other. "
     "Rule::capture asks every capture once, in order, for the given node and returns every value captured.",
     ["programs", "inputs"], "all rule trees of any size, all captures and nodes",
     "Rules of tests have a handful of parts; a part that is lost, reordered or ignored in larger or unusual trees goes unnoticed.",
     [L + "Rule.cpp", "libhext/include/hext/Rule.h"],
     [("appending", L + "Rule.cpp append_child, append_next, append_nested, append_match, append_capture"),
      ("marks", L + "Rule.cpp constructors, set_*, is_*, get_*"), ("captures", L + "Rule.cpp capture")],
     observe=["hext::Rule::extract"])

# --- stated, but not claimed (see MANIFEST not_applicable) -------------------
prop("C40", "Groups of sibling rules match greedily in document order",
     "Among the children of a node, a group of sibling rules with mandatory, optional and greedy members is matched to "
     "consecutive siblings as documented, each mandatory rule taking the first sibling it matches.",
     ["inputs", "programs"], "all rule groups and child lists", "Infinite combinations of rule options and siblings.",
     [L + "RuleMatching.cpp"], [("group matching", L + "RuleMatching.cpp MatchRuleGroup, MatchRange")], observe=["hext::Rule::extract"])
prop("C41", "Text extraction normalises whitespace",
     "Text captured by the text function and the whitespace pipe has no leading, trailing or repeated whitespace and otherwise the original characters.",
     ["inputs"], "all strings", "Only a few strings are tested.",
     [L + "StringUtil.cpp"], [("TrimAndCollapseWs", L + "StringUtil.cpp")], observe=["@text", "collapsews"])
prop("C42", "String tests and pipes compute the documented string functions",
     "Equals, begins-with, ends-with, contains, contains-words and regex tests, and the trim, case, append, prepend, filter and replace pipes, compute the documented function of their argument for every string.",
     ["inputs"], "all strings", "Only a few strings are tested.",
     [L + "*Test.cpp", L + "*Pipe.cpp"], [("string functions", L + "*Test.cpp")], observe=["hext::ValueTest::test", "hext::StringPipe::transform"])
prop("C43", "Inner HTML parses back to the same children",
     "Parsing captured inner HTML again yields the same child nodes with the same attribute values and text.",
     ["inputs"], "all DOM trees", "Only a few trees are tested.",
     [L + "NodeUtil.cpp"], [("serialisation", L + "NodeUtil.cpp")], observe=["@inner-html"])
prop("C44", "Deeply nested documents and scripts never exhaust the stack",
     "The stack used by parsing, matching, serialising, copying and destroying does not grow with the nesting depth of documents or rules.",
     ["inputs"], "all depths", "Tests are shallow.",
     [L + "RuleMatching.cpp", L + "NodeUtil.cpp", L + "Rule.cpp"], [("recursion", L + "*.cpp")], observe=["hext::Rule::extract"])
prop("C45", "Syntax errors point at the offending character",
     "Line and character number of a SyntaxError are those of the first character that makes the script invalid.",
     ["inputs"], "all invalid scripts", "Only a few scripts are tested.",
     [L + "Parser.cpp", L + "StringUtil.cpp"], [("print_error_location", L + "Parser.cpp")], observe=["hext::SyntaxError::what"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
