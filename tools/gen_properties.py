#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the statements here."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing any text terminates and loses nothing",
  "ParseScope returns, without panic and without an error, for every byte string (valid Go or not). The texts of the nodes of the scopes it returns, concatenated in order, are exactly a suffix of the input; they are the whole input whenever its first line begins with a comment or one of the keywords package, import, var, const, type, func, and a text that holds no line beginning with one of those (outside strings and comments) yields no scope.",
  ["inputs"], "every byte string, any nesting depth and size, any start line",
  "The tests parse three fixed files and a few snippets; token loss or duplication shows only for particular sequences of quotes, escapes, comments, brackets and separators, and the space of texts is unbounded.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("text to node extraction", "extractor.go extractor.Run"), ("cutting the node chain into scopes", "scope.go ParseScope"), ("merging the nodes of a type into one", "kind_resetter_all.go combineConnected, node.go CombineNext")],
  ["ParseScope result: concatenated Node.Text()"])

p("C02", "Parse then Save reproduces the gofmt'ed source",
  "For every valid Go source file that, once it is gofmt'ed, starts in the first column, and so does its package clause, ParseAst followed by Save without auto import writes exactly the gofmt form of the source, byte for byte. Doing it again on the written file changes nothing, and the re-parsed file has the same scopes (kind, line, text) as the first parse.",
  ["inputs", "programs"], "every syntactically valid Go file whose package clause starts its line (no /* */ before it on that line) and whose gofmt form is a fixed point of gofmt; any formatting, line endings, size, comments",
  "TestExample saves one file and never compares the content; equality must hold for every program.",
  ["ast.go", "extractor.go", "scope.go", "helper/helper.go", "node.go"],
  [("read and gofmt", "helper/helper.go ReadFile"), ("write all node texts, gofmt", "ast.go Save, helper/helper.go SaveFile")],
  ["bytes of the saved file", "ParseAst(saved).Scope()"])

p("C03", "A file splits into its top-level declarations and comments",
  "Parsing a gofmt'ed file in which every top-level declaration starts its own line yields, in source order, exactly one scope for the package clause, for every import/var/const/type/func declaration, and for every comment that starts in the first column (but not between the package keyword and the name); nothing else starts a scope. Each scope has the kind of its declaration (package, comment, inner comment for /* */, import, var, const, type, func), reports the 1-based line it starts on, and its text runs exactly from there to the start of the next scope, or the end of the file.",
  ["inputs", "programs"], "every gofmt'ed valid Go file whose declarations start in the first column, but for a conversion to an unparenthesised func type at the start of a line (func() T(x), which reads as a method) and for a func type or literal in the first column inside of whose signature another comment starts in the first column",
  "The tests look at fixed files with a handful of declarations; raw strings or comments that contain declaration keywords at a line start, identifiers that begin like a keyword and long files are not reached.",
  ["scope.go", "extractor.go", "scope/scope_kind.go"],
  [("first node of each line decides", "scope.go ParseScope, newScopeKind"), ("line counting", "extractor.go extractor.Run")],
  ["Scope.Kind()", "Scope.Line()", "Scope.Node() chain text"])

p("C04", "Parsed node chains are well-formed, finite and disjoint",
  "After ParseScope of any text, the node of each scope has no previous node, following Next from it ends after finitely many steps, every step's Prev leads back to where it came from, every node has a non-empty text, and no node belongs to two scopes. First, Last, IterNext and IterPrev agree with those links from every node of the chain (also one built with NewNodes), visit every node exactly once in order, and stop at, and return, exactly the node at which the callback returns false, or nil.",
  ["inputs", "histories"], "every byte string parsed; iteration from every node with every stopping point",
  "The tests traverse a few chains forwards; a broken back link, an aliased or orphaned node, or a cycle needs particular inputs (types that get merged, nested brackets, early iteration stop).",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "node.go"],
  [("linking while extracting", "extractor.go insertNode"), ("cutting at scope heads", "scope.go ParseScope RemovePrev"), ("re-linking around merged nodes", "kind_resetter_all.go combineConnected"), ("iteration", "node.go loop, First, Last")],
  ["Node.Prev/Next/First/Last/IterNext/IterPrev"])

p("C05", "Every node and scope reports the line it starts on",
  "After ParseScope with start line s, the Line of every node equals s plus the number of newlines before the node's first byte in the input, and the Line of a scope is the line of its first node plus one; this holds for nodes before, inside and after multi-line comments, strings, brackets and merged types, and for a different start line the result differs only by that shift. NewNodes numbers its nodes the same way from its start line.",
  ["inputs"], "every text and every start line (also negative and large)",
  "No test checks a line number after a multi-line construct; off-by-one drift depends on where newlines fall relative to comments, raw strings and brackets.",
  ["extractor.go", "scope.go", "node.go"],
  [("line counter and lineStep", "extractor.go extractor.Run"), ("start line passed to the extractor", "scope.go ParseScope"), ("newline counting", "node.go NewNodes")],
  ["Node.Line()", "Scope.Line()"])

p("C06", "A token is one node: literals, comments, separators and words",
  "Parsing a gofmt'ed valid Go file gives one node for every comment, string, raw string and rune literal with exactly the literal's text, one one-byte node for every separator byte outside of those (blank, tab, newline and []{}(),:;), and one node for every maximal run of other bytes between these; the only exception is that consecutive tokens of a type in a declaration or signature may be merged into a single parameter-type node. Comments, and nothing else, have the comment kind, string literals, and nothing else, the string kind, and every node without a role from its declaration has the kind that classifying its text gives.",
  ["inputs", "programs"], "every gofmt'ed valid Go file; literals with any content, escapes and comment marks inside; kinds inside type expressions with comments in them are left open",
  "Tests use a few literals; escapes at the end of a string, quotes in runes, comment marks in strings and quotes in comments combine freely in real programs.",
  ["extractor.go", "charset/charset.go", "kind/kind.go", "kind_resetter_all.go"],
  [("nested extractors per opening mark", "extractor.go _deeperExtractTable, extractor.Run"), ("separator set", "charset/charset.go SeparatorCharset")],
  ["Node.Text()", "Node.Kind()"])

p("C07", "Declaration names are reported for exactly the right scopes",
  "For every func, method and single type declaration of a gofmt'ed valid Go file: GetFuncName gives the name of the function or method, GetMethodName and GetMethodReceiver report the method name and the receiver's base type (with its * if it has one, without type arguments) exactly for methods, GetTypeName gives the name of the type, GetStructName and GetInterfaceName give it exactly when the declared type is literally a struct or an interface. In every other case, and on scopes of other kinds, they return an empty name and false, and asking again or after Copy gives the same answers.",
  ["inputs", "programs"], "every gofmt'ed valid Go file whose type declarations are not parenthesised groups and whose receivers are valid; no comment or line break inside a receiver or parameter type, no comment in the first column before the end of the signature or type, no type called _, declarations starting in the first column",
  "The accessors are never tested on more than one sample; names equal to predeclared types, generics, function types, aliases, comments in the signature and long signatures are not covered.",
  ["scope.go", "kind_resetter_func.go", "kind_resetter_type.go", "kind_resetter_parenthesis.go"],
  [("name lookup by node kind", "scope.go Get*Name, GetMethodReceiver, typeDefinition"), ("kinds set at parse time", "kind_resetter_func.go funcResetter.Run, kind_resetter_type.go typeResetter.Run")],
  ["Scope.Get*Name()", "Scope.GetMethodReceiver()"])

p("C08", "Signature and type parts get their role kinds",
  "In every func declaration, single type declaration, interface method and struct field of a gofmt'ed valid Go file: the declared name is a func-name or type-name node, each parameter, named result and (same-line) field name is a param-name node, the receiver's name and base type are receiver-name and receiver-type nodes, embedded interface elements are type-name nodes, and the node that holds a type's name outside of [] (a plain, pointer or package-qualified name in a parameter, result, field or embedded field, or in the definition of a type that has no func, struct, interface or parentheses in it, also as the element of a slice, array, map or channel) is a param-type node, or keeps the basic-type kind if it is a predeclared basic type. Conversely param-name, func-name, type-name and receiver kinds appear on no other identifier of the declaration, in particular not inside function bodies, comments or literals, and not in import, var, const or package scopes.",
  ["inputs", "programs"], "every gofmt'ed valid Go file, signatures with any mix of named, unnamed, variadic, func, map, chan, slice and generic types and with comments between (not inside) types and none of them in the first column; declarations in the first column, not parenthesised groups",
  "Existing tests check by text a few dozen nodes in four snippets; which nodes get which role depends on the whole shape of the signature.",
  ["kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("resetters walk the declaration and set kinds", "kind_resetter_*.go Run methods")],
  ["Node.Kind() by source offset"])

p("C09", "Relinking nodes behaves like list surgery",
  "InsertPrev/InsertNext cut the incoming node out of its chain, put it directly before/after the receiver keeping the receiver's chain otherwise intact, and return the two ends it was cut from; ReplacePrev/ReplaceNext join the incoming node's side of its chain to the receiver, and return the two cut-off ends in the documented order; TakePrev/TakeNext unlink and return the one neighbour and close the gap; RemovePrev/RemoveNext cut the chain and return the other part. After any sequence of these calls every node is still in exactly one chain with matching Prev and Next links, no other link, text, kind or line has changed, and calling them with the receiver itself or its present neighbour changes nothing and returns nil. An iteration (IterNext, IterPrev) whose callback makes such calls goes on, after each visit, with the node that is then next to (in front of) the visited one.",
  ["histories"], "every sequence of operations over several chains and any pairs of nodes (not joining a chain to itself into a ring)",
  "node_test.go runs each operation once or twice on a three-node chain; mistakes show for head/tail positions, neighbours, nodes of the same chain and sequences of operations.",
  ["node.go"],
  [("pairwise link update", "node.go setPrev, setNext"), ("operations", "node.go InsertPrev..RemoveNext")],
  ["Node.Prev/Next of every node", "returned nodes"],
  state=[("chains", "doubly linked lists of nodes", "node.go Node.prev/next")])

p("C10", "A copy is equal and fully independent",
  "Copy of a node alone gives the same line, kind and text and no neighbours; a copy with relatives, a Scope copy and an Ast copy give the whole chain with the same lines, kinds, texts and order, the same position within it, the same scope kinds, lines and names, and the same file metadata and package, while sharing no node with the original. No later change to either side (texts, kinds, links, scopes) is visible on the other, and copying changes nothing on the original.",
  ["inputs", "histories"], "every parsed file or built chain, every node in it, every later edit of either side",
  "One test copies a short chain and never mutates it afterwards; independence is about every later edit and about long chains and mid-chain nodes.",
  ["node.go", "scope.go", "ast.go"],
  [("recursive copy", "node.go Copy, deepCopy"), ("scope and ast copy", "scope.go Copy, ast.go Copy")],
  ["Node, Scope and Ast accessors of both sides"])

p("C11", "An Ast holds exactly the scopes it was given",
  "After any sequence of NewAst, SetScope, AppendScope, Copy and IterScope, each Ast lists exactly the scopes that were set plus those appended to it afterwards, in order. SetScope returns a new Ast with the same file metadata and leaves the receiver as it was, appending to one Ast never shows in another that shares or shared its scopes, and IterScope visits the scopes the Ast holds when it starts, in order, and stops right after its callback returns false.",
  ["histories"], "every history of container operations over several Asts derived from each other",
  "No test derives one Ast from another and then changes both; aliasing of the scope slice shows only with spare capacity and interleaved appends.",
  ["ast.go"],
  [("scope slice handling", "ast.go SetScope, AppendScope, IterScope, Copy")],
  ["Ast.Scope()", "Ast.IterScope()", "Ast.File/Dir/Filename/Ext"],
  state=[("scope", "ordered scopes of an Ast", "ast.go ast.scope")])

p("C12", "The package name is found, or ErrNoPackage",
  "For every valid Go file whose package clause starts its line, ParseAst(...).Package, and Package of an Ast made from its scopes, return the name in the package clause, whatever identifier it is and whatever comments surround it. NewAst and Package return ErrNoPackage, and NewAst no Ast, exactly when there is no package scope, or the (first) package scope holds no identifier after its package keyword; a later package scope or the word package in a comment, string or other declaration never counts.",
  ["inputs", "histories"], "every package clause with comments anywhere, every list of scopes",
  "Tests only read package exported from one file.",
  ["ast.go"],
  [("search of the first package scope", "ast.go findPackageName")],
  ["Ast.Package()", "NewAst, ParseAst errors"])

p("C13", "ParseAst reports bad files as errors and keeps the path",
  "ParseAst of a path that does not exist (with or without the .go suffix, also in a missing directory) returns ErrNotExist; of a file that is not valid Go, of a directory or an unreadable file it returns some other error; of valid source without a package clause it returns ErrNoPackage; in all these cases it returns no Ast, and it never panics and never changes the file. On success File, Dir, Filename and Ext are the path as given and its directory, base name and extension, also after SetScope and Copy, and a path without .go reads the file with .go appended.",
  ["inputs", "fault_sequences"], "every path form and file content, missing files, directories and unreadable files",
  "Tests only open two existing valid files.",
  ["ast.go", "helper/helper.go"],
  [("suffix handling, open, gofmt", "helper/helper.go ReadFile"), ("error mapping", "ast.go ParseAst")],
  ["ParseAst result and error", "Ast.File/Dir/Filename/Ext"])

p("C14", "Save writes the whole result to the target, or says why not",
  "When Save returns nil, the target file (the path, with .go appended if it lacks it) holds exactly the gofmt form of the concatenated node texts, or exactly those texts if they are not valid Go, whatever it held before; missing directories are created and no other file is created, changed or removed. Saving an Ast without any text fails and touches nothing, and if a directory or the file cannot be created or written, Save returns an error.",
  ["inputs", "fault_sequences", "histories"], "every content, target path and earlier state of the target, with file-system faults (a directory or dangling or full device in the way, no permission, a file as parent)",
  "The only Save in the tests writes a fresh file and looks at nothing but the error being nil.",
  ["helper/helper.go", "ast.go"],
  [("format, mkdir, create, write", "helper/helper.go SaveFile")],
  ["bytes of the target", "directory tree around it", "Save error"])

p("C15", "Auto import fixes the imports and nothing else",
  "Saving valid Go source with auto import writes source whose import list is exactly what the code uses: missing standard-library imports are added, unused imports are removed, used imports (also renamed, blank and dot imports) stay, while all declarations other than imports keep their gofmt'ed text. Without auto import (false or not given) the imports stay as they are, used or not, and source that is not valid Go is still written as it is.",
  ["inputs", "programs", "configurations"], "every set of used, imported and missing standard-library packages",
  "No test saves with auto import.",
  ["helper/helper.go", "ast.go"],
  [("imports.Process instead of format.Source", "helper/helper.go SaveFile")],
  ["bytes of the saved file"])

p("C16", "Texts are classified into kinds by fixed rules",
  "The kind of a new node's text is the same function of the text everywhere: the empty text has no kind; a separator character, bracket or one of the keywords with a kind of its own has that kind; only digits is a number; a text beginning with a double quote or backquote is a string; any other Go keyword is a keyword; a predeclared basic type is a basic type; only operator characters is a symbol; anything else is raw. A node that the parser makes of any text has this kind too, unless it is a comment or has a role in a declaration. Every bracket kind's close is its counterpart and back and no other kind has one, kinds print distinct names, and each scope kind maps to its name and to the node kind of its keyword.",
  ["inputs"], "every text",
  "Tests cover no more than a few texts; classification must be total and ordered by precedence for every text.",
  ["kind/kind.go", "charset/charset.go", "scope/scope_kind.go", "node.go"],
  [("classification", "kind/kind.go New"), ("pairs", "kind/kind.go GetClose"), ("scope kinds", "scope/scope_kind.go String, ToKind")],
  ["kind.New", "NewNode(...).Kind()", "kind.Kind.GetClose", "scope.Kind.String/ToKind"])

p("C17", "The byte helpers and sets agree with their definitions",
  "HasPrefix and HasSuffix of any bytes and any string (also empty, longer, or with non-UTF-8 bytes) say exactly whether the bytes start or end with it; a set made from values or slices contains exactly those values, and a nil set contains nothing. Appending without repeating gives the old elements followed by the new ones, without the first new one when it equals the last old one; tidying a text replaces exactly newlines, carriage returns, blanks and tabs by their visible forms and nothing else.",
  ["inputs"], "every pair of byte strings, every set and element, every slice",
  "The helper tests call each function on two or three literals.",
  ["helper/helper.go", "charset/charset.go"],
  [("byte-wise comparison", "helper/helper.go HasPrefix, HasSuffix"), ("set", "charset/charset.go New, NewSlice, Contain"), ("append", "helper/helper.go AppendUnrepeatable"), ("tidy", "helper/helper.go TidyText")],
  ["return values"])

p("C18", "The trie agrees with a map from texts to values",
  "After any sequence of additions (from an initial map, or one by one, also overwriting, also of the empty text and texts that are prefixes of one another, with any bytes), looking up a text, as a string or as bytes, forwards or reversed, finds exactly the value last added for that text (or its reversal), reports a mere prefix of an added text as found with the zero value, and anything else as not found with the zero value. Lookups change nothing, and a nil trie finds nothing.",
  ["inputs", "histories"], "every sequence of additions and lookups over any byte strings",
  "The tests add five texts and look up eight; overwriting, prefixes and arbitrary bytes need histories.",
  ["trie.go"],
  [("child map per byte", "trie.go AddText, Insert, Next, Find*")],
  ["values and flags returned by the Find methods"], hook="a build overlay of /verif adds an exported constructor for the unexported trie; nothing is committed in /repo")

p("C19", "Parsing is a pure function, also from many goroutines",
  "Parsing the same text any number of times, after any other parses, edits of earlier results or changes of the caller's buffer, gives equal scopes that share no node with each other, and never changes the bytes passed in. Any number of goroutines may parse, read, edit, copy, iterate, describe and save their own results at the same time without a data race, and each gets the result it would get alone.",
  ["schedules", "histories", "inputs"], "every text, every history of earlier calls, every interleaving of goroutines that work on results of their own",
  "All tests run sequentially and parse each text once; shared package-level tables and buffers would only show under repetition or concurrency.",
  ["extractor.go", "scope.go", "node.go", "helper/helper.go", "kind/kind.go", "charset/charset.go"],
  [("package-level extractor tables are read only", "extractor.go _commonExtractor.."), ("per-call buffers", "extractor.go extract")],
  ["results of repeated and concurrent calls", "Go race detector"])

p("C20", "Nil nodes are safe to use",
  "Every method of a nil node can be called with any arguments without a panic, gives the documented empty answers (no kind, empty text, line -2, the description <nil>, no neighbours, no copy, nil First and Last, a callback that is never called), and changes no node. Insert and replace operations with a nil receiver or a nil argument are safe too: they only cut the node that is there from the side (for an inserted node, both sides) on which it would have been joined, and all other links stay.",
  ["inputs", "histories"], "every method, every nil receiver and nil argument, in any history",
  "node_test.go never calls a method on a nil node, while the parser and every end-of-chain caller rely on it.",
  ["node.go"],
  [("nil checks", "node.go all methods")],
  ["return values", "links of the other nodes"])

p("C21", "The assert helpers fail exactly when they should",
  "For every value, Nil and NotNil split all values into nil (untyped nil and nil pointers, maps, chans, slices and funcs) and not nil, Equal and NotEqual are exact opposites over comparable values (equal means same kind and equal value), Error and NoError over errors, Require over booleans, Panic and NoPanic over functions. An assertion that holds does not touch the test, and one that does not hold stops the test as failed at once, naming the test and including any given message; Call reports whether the function panicked, with what value and with a stack, and never lets the panic through; each of the three calls the function exactly once.",
  ["inputs"], "every value of every comparable kind, nil or not, every message",
  "The assert package has no tests of its own; a broken assertion makes every other test pass vacuously.",
  ["assert/assert.go"],
  [("reflect-based comparison", "assert/assert.go Nil, Equal, isNil"), ("recover", "assert/assert.go Call")],
  ["whether the test failed, and its log"])

p("C22", "Combining and isolating nodes keep text and links exact",
  "CombineNext (CombinePrev) sets the receiver's text to its own text followed (preceded) by the texts of the given nodes, first given closest, sets its kind, skips nil nodes and the receiver itself, uses the first given node that is not nil as the receiver when the receiver is nil, and isolates the given nodes, whose own texts and kinds stay. Isolate cuts a node from both neighbours, which are not joined to one another; none of this touches any other link, text, kind or line.",
  ["histories"], "every chain, every choice of nodes to combine or isolate, in any history, also nil and repeated nodes",
  "One test combines three nodes once.",
  ["node.go"],
  [("combine", "node.go CombinePrev, CombineNext"), ("isolate", "node.go Isolate")],
  ["Node.Text/Kind/Line/Prev/Next of all nodes"])

p("C23", "What Save writes reflects every edit of the tree",
  "After any history of edits of a parsed file (changing texts, inserting, replacing, taking, removing and combining nodes, dropping, reordering, copying and appending scopes, building new nodes and scopes), Save writes exactly the texts of the nodes now reachable from each scope's node in order, gofmt'ed when that is valid Go, and re-parsing it gives them back. An edit that renames an identifier or inserts or deletes a whole declaration changes the saved file in exactly that place.",
  ["histories", "programs"], "every history of edits on every parsed file",
  "The only edit in the tests removes comments from one file, and the saved result is not checked.",
  ["ast.go", "node.go", "scope.go", "helper/helper.go"],
  [("save walks the live chains", "ast.go Save"), ("editing operations", "node.go")],
  ["bytes of the saved file"])

p("C24", "Descriptions show line, text and kind of everything",
  "A node describes itself as \"<line+1> .... <text with whitespace made visible> .... *Node.<kind>\" and a scope as \"<its reported line> .... *Scope.<kind>\", and Print writes that to standard error; an Ast as the concatenation, for each scope in order, of the scope's description and the descriptions of all its nodes. Describing and printing change nothing.",
  ["inputs"], "every parsed or built node, scope and Ast, any line, any text",
  "No test looks at a description.",
  ["node.go", "scope.go", "ast.go", "helper/helper.go"],
  [("formatting", "node.go Description, scope.go Description, ast.go Description")],
  ["Description() results, standard error of Print()"])

p("C25", "Debug mode only adds output",
  "Parsing, editing, describing and saving give the same results with debug mode set (helper.SetDebug(true)) as without it. Without it, none of them writes anything to standard output or standard error, or logs anything (Print methods excepted, and Save may log that the text could not be formatted) and DebugPrint does nothing; with it, DebugPrint writes its arguments and the caller in one line to standard output.",
  ["inputs"], "every text, also invalid, and every sequence of edits",
  "No test sets debug mode, or looks at the standard output.",
  ["helper/helper.go", "node.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("debug output", "helper/helper.go SetDebug, DebugPrint"), ("text for it", "node.go debugText"), ("calls", "kind_resetter_*.go")],
  ["standard output and error", "scopes and nodes"])

p("C26", "A scope depends on its own text only",
  "For any text, valid Go or not, parsing the text of one scope of the result alone, from the line on which it starts, gives exactly that one scope again: the same kind, line and names, and nodes with the same texts, kinds and lines. In a gofmt'ed valid file the same holds when it is parsed behind any other scope of the file, so that removing, reordering or repeating declarations changes nothing in the others but their lines, and where in a file a scope stands does not matter.",
  ["inputs", "programs"], "every text, every scope of it, every other scope put before it",
  "The tests parse each fixture whole; state that leaks from one declaration into the next shows only for particular pairs.",
  ["scope.go", "extractor.go", "kind_resetter_all.go"],
  [("one pass over the text", "extractor.go extractor.Run"), ("cutting", "scope.go ParseScope"), ("roles per scope", "scope.go resetKind calls")],
  ["ParseScope() results"])

p("C27", "Names and contents do not matter",
  "For any valid Go file, formatted or not, writing other words of the same class into it - identifiers that are no predeclared basic types, keywords or '_' for such identifiers, basic types for basic types, number literals of the same form (only digits, or not) for numbers, and any contents of the same number of lines in comments, strings and rune literals - gives the same scopes (kinds and lines) and the same nodes: as many, with the same kinds and lines, beginning and ending at the same tokens; and every name reported for a scope is that of the node at the same place. So no name, however long, however odd, however like a keyword, and no text in a comment or literal is treated in its own way.",
  ["inputs", "programs"], "every valid Go file; every choice of words: names like keywords, non-ASCII, very long; comments and literals that hold code, quotes, brackets and comment marks",
  "A test reads a fixture with the words it has; code that looks at a text where it should look at its class goes wrong for particular words at particular places.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go", "kind/kind.go", "charset/charset.go"],
  [("cutting into nodes", "extractor.go extractor.Run"), ("scope starts", "scope.go ParseScope, newScopeKind"), ("classes", "kind/kind.go New"), ("roles", "kind_resetter_*.go")],
  ["ParseScope() results"])

p("C28", "Blank lines and indentation do not matter",
  "For any valid Go file, formatted or not, adding blank lines (empty, or with tabs in them) wherever a line ends outside of comments and literals, and adding tabs to the indentation of indented lines, gives the same scopes with the same names, and the same nodes with the same texts and kinds in the same order, on the lines where their text now is; only nodes of newlines and tabs come in addition (and newlines and tabs inside of merged type nodes).",
  ["inputs", "programs"], "every valid Go file; blank lines and tabs anywhere between its lines",
  "The fixtures are gofmt'ed, with few blank lines; code that looks at the next node only, or at the first one of a line, goes wrong for blank lines at particular places.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("scope starts", "scope.go ParseScope"), ("ends of roles at line ends", "kind_resetter_*.go Run methods"), ("lines", "extractor.go extractor.Run")],
  ["ParseScope() results"])

p("C29", "The number of blanks and the form of a line's end do not matter",
  "For any gofmt'ed Go file, scopes with the same names, and nodes with the same texts and kinds in the same order, come out after any of these changes: more blanks wherever blanks stand between two tokens; blanks, tabs or an explicit semicolon at the end of a line (outside of comments and literals); blanks instead of or after the tabs of an indentation; and an indented statement, field, method or spec put on the line of the one before it behind a semicolon. Only nodes of blanks, newlines, tabs and semicolons differ (and these characters inside, not at the ends, of merged type nodes).",
  ["inputs", "programs"], "every gofmt'ed Go file; blanks, line ends and indentation anywhere in it",
  "The fixtures are gofmt'ed, where a line holds one statement and one blank stands between words; code that looks at the neighbouring node only, or waits for a newline only, goes wrong on what people type.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("separators", "charset.go, extractor.go extractor.Run"), ("ends of roles at semicolons and line ends", "kind_resetter_*.go Run methods"), ("names of scopes", "scope.go newScope")],
  ["ParseScope() results"])

p("C30", "More comments do not matter",
  "For any gofmt'ed Go file, adding comments (line or block comments, of any text) at the ends of lines, in front of the first token of indented lines, on indented lines of their own and, in the first column, before declarations gives the same scopes with the same names, and the same nodes with the same texts and kinds in the same order; only the added comments (as nodes of their own, scopes of their own, or inside of merged type nodes), blanks and newlines come in addition. The same holds when the blank lines, blanks, line ends and semicolons are changed too (more of them, and lines joined by semicolons).",
  ["inputs", "programs"], "every gofmt'ed Go file; comments at any line end or line start of it",
  "A comment may stand at any line end; the fixtures have them at a few. Code that looks at the neighbouring node, or at the first node of a line, goes wrong when a comment is there.",
  ["extractor.go", "scope.go", "kind_resetter_all.go", "kind_resetter_func.go", "kind_resetter_parenthesis.go", "kind_resetter_type.go"],
  [("comment scopes", "scope.go ParseScope"), ("comments among fields, methods and parameters", "kind_resetter_*.go Run methods"), ("bodies behind comments", "kind_resetter_all.go isBodyAhead")],
  ["ParseScope() results"])

p("C31", "A scope reports its tree as it is now",
  "For any scope, parsed or made by NewScope from any nodes, and after any edits of its nodes: Node, Kind and Line are those it was made with (Line is one more than the line given); GetFuncName gives the text of the first node of the kind FuncName from the scope's node on, exactly for a func scope that has one, GetTypeName likewise the first TypeName of a type scope, GetMethodReceiver the first MethodReceiverType of a func scope, GetMethodName the name of a func scope that has a receiver type, and GetStructName (GetInterfaceName) the type's name when the first node behind it, apart from blanks, newlines, comments and =, is of the kind Struct (Interface) (left open here: square brackets behind the name); otherwise they give an empty name and false. A copy answers like the original, and asking changes nothing.",
  ["inputs", "histories"], "every scope, kinds and texts of nodes, history of edits, order of questions",
  "Tests ask freshly parsed scopes once; an answer that is remembered, or taken from the wrong node, shows only after edits of particular nodes.",
  ["scope.go", "node.go"],
  [("accessors", "scope.go GetFuncName, GetTypeName, GetStructName, GetInterfaceName, GetMethodName, GetMethodReceiver"), ("NewScope", "scope.go NewScope, Node, Kind, Line, Copy")],
  ["results of the accessors"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
