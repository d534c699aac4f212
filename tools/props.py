#!/usr/bin/env python3
"""The list of properties: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, technique=technique, note=note,
                      state=state, observe=observe))


SAMPLES = "The repository's tests are a few hundred fixed snippets with a stored tree; "
GEN = "generated programs come from the harness' own grammar (ES2020 minus what fajt does not implement, see DESIGN.md)"

prop("P01", "Parsing and reporting always end, without a panic, for every input",
     "For every text, as a script or a module, parsing ends with a tree or with one error; it never panics, never hangs, and gives the same result every time it is called. The error names a region that lies within the text, and rendering it as a diagnostic always succeeds. This holds for arbitrary, truncated, spliced and otherwise damaged input, with any characters, of moderate nesting.",
     ["inputs"], "all texts (arbitrary characters, token soup, cut and mutated programs), both goals",
     SAMPLES + "none of them feeds arbitrary or damaged text, where a missed end of input, a multi-byte character or an unforeseen token combination surfaces.",
     ["parser/src/lib.rs", "parser/src/error/emitter.rs", "lexer/src/lib.rs"],
     [("reader over characters with one character of lookahead", "common/src/io.rs PeekReader"),
      ("rewinding of speculative parses", "parser/src/lib.rs Parser"),
      ("line and column computation of diagnostics", "parser/src/error/emitter.rs")],
     "fuzzing: generated garbage, token soup and mutated programs against a crash, termination, determinism and span oracle",
     "Explores generated inputs only; termination is judged by CPU time (40 s for inputs of a few hundred bytes) and reproduced in a process of its own. Stack depth is bounded by the generator.")

prop("P02", "Tokens are those of the ECMAScript lexical grammar",
     "Reading a text as tokens yields what the ECMAScript lexical grammar yields by longest match: identifiers, reserved words, punctuators, numbers, strings, templates and regular expressions, each with its value, with its position in the text, and with whether it is the first on its line. Text which is no token of the grammar is an error. Nothing is skipped but white space, line terminators and comments.",
     ["inputs"], "all sequences of characters, and all sequences of tokens in any layout",
     "The lexer tests list each punctuator and keyword once; which token is longest depends on the characters around it.",
     ["lexer/src/lib.rs", "lexer/src/token.rs", "lexer/src/number.rs", "lexer/src/string.rs", "lexer/src/regexp.rs", "lexer/src/unicode_escape_sequence.rs", "lexer/src/code_point.rs"],
     [("token dispatch", "lexer/src/lib.rs Lexer::read"), ("number grammar", "lexer/src/number.rs"), ("character classes", "lexer/src/code_point.rs")],
     "property-based testing against an independent reference lexer",
     "Differential against a lexer written from the specification in the harness; strings carry values as fajt stores them (known finding K4).")

prop("P03", "Operators group by precedence and associativity",
     "In every expression, unary, update, binary, logical, conditional, assignment, comma, await and yield operators are applied to the operands which precedence and associativity of ECMAScript assign to them, however deeply they nest and whatever the layout. Combinations the grammar excludes, such as mixing ?? with || or a unary operator left of **, are errors.",
     ["inputs"], "all operator expressions over all operands, in all contexts",
     SAMPLES + "each operator occurs with one or two others. The number of combinations of operators, operands and contexts (in the head of for, in generators, in async functions) is unbounded.",
     ["parser/src/binary_expr.rs", "parser/src/expr.rs"],
     [("precedence chain of the parser", "parser/src/binary_expr.rs"), ("assignment, conditional, yield, await, update", "parser/src/expr.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator, which is checked against acorn and V8 during development. " + GEN)

prop("P04", "Member, call, new, optional chain and template expressions nest correctly",
     "Every combination of member access, computed member access, calls, new with and without arguments, optional chains, tagged templates, super, import(), import.meta and new.target is parsed into the tree the ECMAScript grammar defines. Arguments and spread arguments keep their order.",
     ["inputs"], "all left-hand-side expressions",
     SAMPLES + "most use one or two links of a chain, while the meaning depends on the whole chain, e.g. which parentheses belong to which new.",
     ["parser/src/member_access.rs", "parser/src/expr.rs"],
     [("member and call chains", "parser/src/member_access.rs"), ("new and optional chains", "parser/src/expr.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. " + GEN)

prop("P05", "Statements and control flow parse into the right structure",
     "Every nesting of blocks, if/else, loops, switch, try/catch/finally, labels, with, jumps, declarations, expression statements and directives yields the tree of the ECMAScript grammar: each else, case, catch and body belongs to the statement the grammar gives it to, and all parts of loop heads are kept.",
     ["inputs"], "all nestings of statements, in scripts and modules",
     SAMPLES + "statements are hardly nested. Dangling else, bodies without braces and the three forms of for interact in nesting.",
     ["parser/src/stmt.rs", "parser/src/iteration.rs", "parser/src/variable.rs", "parser/src/lib.rs"],
     [("statement dispatch", "parser/src/stmt.rs"), ("loop heads", "parser/src/iteration.rs"), ("directive prologue", "parser/src/lib.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. " + GEN)

prop("P06", "Functions, arrow functions, methods and classes keep their kind and parts",
     "Every function, generator, async function, arrow function, method, accessor and class is parsed with its kind, name, parameters with defaults and rest, and body as the ECMAScript grammar defines; a class keeps its heritage, and its members keep order, key, static-ness and kind. What is an arrow function and what is a parenthesised expression or a call of async is decided as the grammar defines.",
     ["inputs"], "all function and class forms in all nestings",
     SAMPLES + "each form occurs once or twice by itself. The cover grammar of arrow functions depends on a token arbitrarily far away.",
     ["parser/src/function.rs", "parser/src/cover.rs", "parser/src/method.rs", "parser/src/class.rs", "parser/src/literal.rs"],
     [("function forms", "parser/src/function.rs"), ("cover grammar of arrow functions", "parser/src/cover.rs"), ("methods", "parser/src/method.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. The generator flag of plain methods within generators is left out (known finding K3). " + GEN)

prop("P07", "Destructuring patterns bind and assign the right parts",
     "Every array and object pattern, as a binding (declarations, parameters, catch) or as an assignment target (expressions, for-in/of, arrow function parameters), is parsed with its targets, keys, defaults, holes and rest in the right places. A literal is turned into a pattern exactly where it is assigned to.",
     ["inputs"], "all nestings of patterns in all positions",
     SAMPLES + "patterns are at most two deep, while reinterpreting a literal as a pattern is recursive.",
     ["parser/src/binding.rs", "parser/src/assignment_pattern.rs", "parser/src/cover.rs", "parser/src/iteration.rs"],
     [("binding patterns", "parser/src/binding.rs"), ("assignment patterns", "parser/src/assignment_pattern.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. Left out: known findings K6, K7, K9. " + GEN)

prop("P08", "Imports and exports keep all names, aliases and sources",
     "Every import and export declaration of a module is parsed with its default, namespace and named parts, local and exported names, and source; exported declarations and default exports keep the declaration or expression they export. Import and export declarations occur at the top level of modules only.",
     ["inputs"], "all modules",
     SAMPLES + "there is one test per form; names that are also keywords, and combinations of the parts, are not sampled.",
     ["parser/src/module.rs"],
     [("import and export declarations", "parser/src/module.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. Left out: known finding K8. " + GEN)

prop("P09", "Semicolons are inserted exactly where ECMAScript inserts them",
     "Leaving out a semicolon before a line terminator, a closing brace or the end of the text gives the same tree as writing it, wherever the next token cannot continue the statement; where it stands on the same line its absence is an error. After return, break, continue, throw, yield, async, before => and before postfix ++ and --, a line terminator (also one within a comment) has the effect ECMAScript gives it. No semicolon is inserted as an empty statement or in the head of for.",
     ["inputs"], "all programs with any subset of their semicolons left out, any line breaks",
     SAMPLES + "a dozen of them concern semicolons. The rule quantifies over every pair of tokens around a line break.",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/function.rs", "lexer/src/lib.rs"],
     [("consumption of a semicolon", "parser/src/lib.rs"), ("first token of a line", "lexer/src/lib.rs first_on_line")],
     "property-based testing, metamorphic: programs with and without their semicolons have the same tree or are rejected",
     "Oracle: the generator's tree with semicolons, and a table of restricted productions. A line break is any line terminator or comment holding one.")

prop("P10", "White space and comments never change the meaning of a program",
     "White space, line terminators and comments of all kinds between tokens, where no line terminator is significant, leave the parsed tree (but for positions) as it is. What looks like a comment within strings, templates and regular expressions is none, and HTML-like comments are comments in scripts only.",
     ["inputs"], "all programs, any trivia between any tokens",
     SAMPLES + "comments occur in few of them and in few places; all kinds of white space and terminators occur between tokens nowhere.",
     ["lexer/src/lib.rs", "lexer/src/code_point.rs"],
     [("skipping of trivia", "lexer/src/lib.rs skip_comments_and_white_spaces"), ("character classes", "lexer/src/code_point.rs")],
     "property-based testing, metamorphic: random trivia between the tokens of generated programs",
     "Oracle: the generator's tree, which is the same for every layout. " + GEN)

prop("P11", "Every node carries the exact region of source text it came from",
     "In the tree of every program, the region of each node starts at the first character of its first token and ends after the last character of its last token, in bytes of the source text, whatever characters, comments and line terminators surround it.",
     ["inputs"], "all nodes of all programs in all layouts, including multi-byte characters",
     SAMPLES + "regions are compared in snippets laid out with single spaces and (nearly) only ASCII characters.",
     ["parser/src/lib.rs", "lexer/src/lib.rs", "common/src/io.rs", "common/src/io/char_reader.rs", "ast/src/span.rs"],
     [("position of the reader", "common/src/io.rs"), ("position of characters", "common/src/io/char_reader.rs"), ("start and end of nodes", "parser/src/lib.rs")],
     "property-based testing: positions computed by the generator's layout are compared to those of the tree",
     "Tokens which end in a character of several bytes are left out (known finding K1); the region of static methods starts after static (stored trees of the tests say so).")

prop("P15", "Literals keep their kind, value and parts",
     "Numbers, strings, templates, regular expressions, array and object literals, booleans and null are parsed with the value and parts written in the source: template parts alternate with their expressions, array holes and spreads stay where they are, object properties keep order, key form and kind.",
     ["inputs"], "all literals in all positions",
     SAMPLES + "long literals, nested templates, holes next to spreads and unusual keys are not among them.",
     ["parser/src/literal.rs", "lexer/src/string.rs", "lexer/src/number.rs", "lexer/src/lib.rs", "ast/src/literal.rs"],
     [("literals", "parser/src/literal.rs"), ("templates", "parser/src/expr.rs"), ("strings", "lexer/src/string.rs")],
     "property-based testing: programs generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. How escapes are stored is known finding K4; they are compared as stored. " + GEN)

prop("P12", "Contextual and reserved words are names exactly where they may be",
     "A word of ECMAScript is accepted as a name (reference, binding, label, property, parameter, function or class name, assignment target, import or export name) exactly where the grammar allows it: async, as, from, get, of, set and target everywhere; await outside of modules and async functions; yield, let, static and the reserved words of strict mode outside of strict mode (yield also outside of generators); all words as property names; other reserved words nowhere. Contextual words keep their meaning as words of the syntax where the grammar gives them one.",
     ["inputs"], "all pairs of a word and a position, within all nestings of functions, generators, async functions, strict code, classes and modules",
     SAMPLES + "about ten words occur as a name in one or two positions. The answer depends on the product of word, position and all enclosing contexts.",
     ["lexer/src/token.rs", "parser/src/lib.rs", "parser/src/expr.rs", "parser/src/stmt.rs", "parser/src/binding.rs", "parser/src/literal.rs"],
     [("words allowed as names by context", "lexer/src/token.rs Keyword::is_allowed_as_identifier"), ("context flags", "parser/src/lib.rs Context"), ("names", "parser/src/lib.rs parse_identifier")],
     "property-based testing: words in generated positions and contexts against a table of the specification",
     "Words written with escapes are known finding K5. eval and arguments as binding names in strict mode are not rejected by fajt and not claimed.")

prop("P13", "What breaks the grammar or a checked early error is rejected at any place",
     "A part which no production of ECMAScript derives, or which breaks one of the early errors below, makes the program an error wherever the part is nested, and the program is accepted when only that part is mended. The early errors: targets of assignments, updates, loops and patterns are names, members or patterns, not optional chains or calls, and not eval or arguments in strict mode; default values in object literals only occur in patterns; no delete of a plain name in strict mode; getters take no and setters one parameter; parameters of methods are distinct, and simple if the body says use strict; rest elements come last; destructuring declarations have initializers; return stays in functions; super.x stays in methods and super() in constructors of derived classes, and plain functions do not inherit them; await and yield are operators of the innermost function only; a class or let or const is no body of a statement; ?? is not mixed with || or && without parentheses, nor ** with a unary operator on its left; throw keeps its operand on its line; try has a handler; no template is tagged by an optional chain; import and export stay at the top of modules; strings, numbers, templates, comments and regular expressions are complete and well formed.",
     ["inputs"], "all valid programs with one offending part at any place",
     SAMPLES + "each error occurs once, at the top level. Whether an error is noticed depends on the contexts the parser carries along and on rewinding of speculative parses.",
     ["parser/src/static_semantics/mod.rs", "parser/src/method.rs", "parser/src/expr.rs", "parser/src/assignment_pattern.rs", "parser/src/stmt.rs", "parser/src/binding.rs", "parser/src/member_access.rs", "parser/src/class.rs", "parser/src/cover.rs", "parser/src/module.rs", "lexer/src/lib.rs", "lexer/src/number.rs"],
     [("early errors", "parser/src/static_semantics/mod.rs"), ("context flags", "parser/src/lib.rs Context")],
     "property-based testing, metamorphic: an offending part is put into a generated program, which is accepted with a mended part in its place",
     "The offending parts are about 1,700 rows of a table, filled with generated operands; the rows themselves agree with acorn and V8. Early errors which fajt does not implement are listed in DESIGN.md and not claimed.")

prop("P14", "Acceptance and structure agree with an independent parser",
     "Every text that the ECMAScript grammar derives is accepted, and every text it does not derive is rejected; the tree of an accepted text has the structure the grammar gives it. This holds for texts which were not written as programs: programs with tokens deleted, doubled, swapped, replaced or spliced from other programs. Features and early errors that fajt does not implement are excepted.",
     ["inputs"], "all texts, in particular damaged programs, scripts and modules",
     SAMPLES + "few of them are invalid. A parser accepts too much or too little at combinations nobody thinks of, which an independent implementation decides.",
     ["parser/src/lib.rs", "parser/src/expr.rs", "parser/src/stmt.rs", "parser/src/cover.rs", "parser/src/member_access.rs", "lexer/src/lib.rs"],
     [("recursive descent with rewinding", "parser/src/lib.rs")],
     "differential fuzzing of mutated programs against acorn and V8 (of the installed node)",
     "The oracle counts where acorn and V8 agree. Left out are unimplemented features, recognised by their own words or by the message of the oracle; see DESIGN.md.")

prop("P16", "Diagnostics show the right file, line, column and region",
     "For every error of every text the printed diagnostic names the file, and the line and column where the reported region starts (lines end at a line feed, columns count characters), shows that line with its number and with tabs as four blanks, and puts markers under exactly the characters of the region, up to the end of the line. What the message quotes as found or forbidden is the text of the region. An error at the end of the input names the file only. Rendering fails exactly if the output does, after writing what the output took. A character that is part of no token, put between the tokens of a valid program, is reported as the region, or else a part of the program in front of it which it leaves incomplete.",
     ["inputs"], "all texts and error regions: many lines, characters of several bytes, tabs, regions of several lines, the end of the text",
     "The tests of the emitter render a few fixed errors, all at ASCII texts; positions are arithmetic on byte offsets.",
     ["parser/src/error/emitter.rs", "parser/src/error/mod.rs"],
     [("lines and columns", "parser/src/error/emitter.rs")],
     "property-based testing against an independent model of the rendering",
     "Model written in the harness from the documented format; the region of an error is read from its debug text, and known independently only for the characters put in.")

prop("P17", "Generated code parses back to the tree it was generated from",
     "For every program, expression and statement, code generated from its tree parses to the same tree (but for positions). Generation is deterministic, does not change the tree, depends on nothing but the tree, and generating again from the parsed code yields the same code.",
     ["inputs"], "all trees of valid programs",
     "Tests of the code generator compare a few snippets with their expected text; the faults lie in operators, literals and statements that merge or change their meaning next to each other.",
     ["codegen/src/lib.rs", "ast/src/traverse/mod.rs"],
     [("code generation", "codegen/src/lib.rs"), ("traversal", "ast/src/traverse/mod.rs")],
     "property-based testing: round trip of generated programs",
     "Methods in generators are left out where known finding K3 changes the printed text (a constructor).")

prop("P18", "Minified code keeps the tree and wastes no characters",
     "Minified code of every program, expression and statement parses to the same tree (but for positions), contains no line terminator of its own, no semicolon which the end or a closing brace makes unnecessary, and a space only between two tokens that would otherwise merge (or after do and case, before the dot after a number or regular expression, and between like operator characters). Going from one format to the other and back yields the same text.",
     ["inputs"], "all trees of valid programs",
     "Tests of minification are a dozen; which two tokens need a separator depends on both.",
     ["codegen/src/lib.rs"],
     [("minified code generation", "codegen/src/lib.rs")],
     "property-based testing: round trip of generated programs, compared with the tokens of the source",
     "As for P17.")

prop("P26", "Generated code is laid out in one fixed style, nested code indented",
     "The code generated from any program, expression or statement is character for character the one of the style: each statement and method on lines of its own, four columns per block, branch or case around it; declarators after one with an initializer on a line of their own, aligned with the first; an empty line before nested and later function declarations; one space around binary operators, after commas and colons, within non-empty brackets of arrays, objects, patterns and named imports and exports, and none within parentheses; empty blocks as {}; statements end with a semicolon. Minified code has none of these spaces and lines, nor semicolons before a closing brace or the end. The repository's own examples of both formats are reproduced.",
     ["inputs"], "all trees of valid programs, both formats",
     "The comparison of generated code with the examples in the tests is switched off, and each of them is one construct at the outermost level; indentation, alignment and padding depend on what is nested in what.",
     ["codegen/src/lib.rs"],
     [("code generation", "codegen/src/lib.rs"), ("examples of the formats", "tests/cases")],
     "property-based testing: generated programs, code compared with that of a reference printer on the serialized tree, and fixed examples",
     "The style is fajt's, written down anew in harness/src/pretty.rs; where fajt's style has oddities which its examples show or which do no harm (`if(a)` branches on lines of their own, `typeof(a)` without space, blanks on the empty line), the model has them too.")

prop("P27", "Derived enum texts and the macro over files cover exactly what is there",
     "For every enum that derives FromString: as_str and to_string give each variant its text (the attribute, or else the name in lower case), parsing that text gives the variant back, parsing any other text is an error, and the macro of the enum (with or without rules of its own) turns the text into the same variant at compile time. for_each_file calls the macro exactly once for each file in a directory and its subdirectories, with its extension, its full path, and the identifier made of its relative path: - and . become _, / becomes __, other characters that are no ASCII letters, digits or _ are left out, the extension too.",
     ["inputs"], "all enums, all directory trees",
     "The macros have no tests of their own. They are used for keywords, punctuators, operators and the list of test cases, where a variant or file that is silently left out makes no test fail.",
     ["macros/src/lib.rs", "macros/src/enum_from_string.rs", "macros/src/for_each_file.rs"],
     [("derived texts", "macros/src/enum_from_string.rs"), ("walk over files", "macros/src/for_each_file.rs")],
     "property-based testing: generated enums and directories, compiled with the macros and run, compared with a model",
     "Compiles with the installed rustc. File names start with a letter and have an extension (the macro panics otherwise, at compile time).")

prop("P28", "Test documents keep all sections, texts and blocks when read and written",
     "Every document of sections with a title, optional text and optional code block is read into exactly these, in order, whatever blank lines and blanks around titles and languages it has; it is written in the documented form, and reading that gives the same document; looking up a title finds the first section of exactly that name; replacing a block changes only this one; a file that is written holds the document and nothing of an earlier, longer one.",
     ["inputs", "histories"], "all documents, all histories of replacing blocks and writing files",
     "The tests have one document per direction. Regenerating outputs rewrites test files, so what gets lost there is lost silently.",
     ["testing/src/markdown.rs", "testing/src/markdown/section.rs", "testing/src/lib.rs"],
     [("documents", "testing/src/markdown.rs"), ("sections", "testing/src/markdown/section.rs"), ("files", "testing/src/lib.rs")],
     "property-based testing: documents generated as data and as text, histories of edits against a model",
     "Lines of texts and blocks do not start with a title or fence.")

prop("P19", "Traversal visits every part of a tree once, in source order",
     "Traversing any tree enters and leaves each node once, children within their parents and in source order; a visitor which replaces, counts or changes nodes sees and changes all of them, and one that does not descend leaves out exactly that subtree.",
     ["inputs"], "all trees of programs, all visitors",
     "Traversal is tested through the code generator and on a few trees; a forgotten or doubled child shows only in the node kind it belongs to.",
     ["ast/src/traverse/mod.rs", "ast/src/stmt.rs", "ast/src/expr.rs", "ast/src/literal.rs", "ast/src/binding.rs", "ast/src/class.rs", "ast/src/assignment.rs"],
     [("derived and written traversals", "ast/src/traverse/mod.rs")],
     "property-based testing against a model of the traversal over the serialized tree",
     "The model walks the serialized tree with a table of node kinds.")

prop("P23", "Rewinding and reading again reproduce what a reader of the text would give",
     "A reader over characters or tokens always shows the current and the next item and the end of the last consumed one. After rewinding to any token read before, it yields the same tokens, with the same positions and line starts, as reading the text from there on; reading the current token again as a regular expression, as the part of a template or as an operator yields that token and then what follows it. At any point of any history of such operations nothing is skipped, doubled or left over.",
     ["histories"], "all histories of consuming, rewinding and reading again, on all texts",
     "Tests of the readers go through a few fixed sequences; the parser rewinds at arbitrary points, often repeatedly, and relies on the result being as if it never had read ahead.",
     ["common/src/io.rs", "common/src/io/char_reader.rs", "lexer/src/lib.rs"],
     [("one item of lookahead", "common/src/io.rs PeekReader"), ("rewinding of the lexer", "lexer/src/lib.rs rewind_before"), ("reading with another goal", "lexer/src/lib.rs read_with_state")],
     "stateful, model-based property testing against the reference lexer",
     "After an error, histories go on only by rewinding. The end of tokens with a last character of several bytes is known finding K1.")

prop("P25", "Slashes and closing braces are read as the grammar demands",
     "Wherever a slash stands, it is read as division where an operand precedes it in the ECMAScript grammar and as the start of a regular expression where an operand is expected, whatever its body contains (brackets, quotes, braces, backquotes, comments); a closing brace goes on with a template exactly where it closes a substitution, however deep templates, blocks and literals nest.",
     ["inputs"], "all programs with slashes and templates, in all layouts",
     SAMPLES + "a handful contain a regular expression, behind two or three different tokens; what a slash is depends on the parse so far, and the token was first read the other way.",
     ["parser/src/expr.rs", "parser/src/lib.rs", "parser/src/binary_expr.rs", "lexer/src/lib.rs", "lexer/src/regexp.rs"],
     [("reading again as regular expression or template", "parser/src/expr.rs"), ("goal of the lexer", "lexer/src/lib.rs LexerState")],
     "property-based testing: programs dense with slashes and templates, generated together with their expected syntax tree",
     "Oracle: the tree built by the generator. " + GEN)

prop("P20", "Trees and tokens survive serialization, and equality is that of their parts",
     "The tree of every program and the tokens of every text, written as JSON (as a value, as compact and as indented text) and read back, are equal to what they were and serialize to the same again. Two trees are equal exactly if all their parts and positions are.",
     ["inputs"], "all valid programs, and pairs of similar programs",
     "Snapshot tests read stored trees of small snippets; whether each kind of node reads back what it writes depends on hand written and derived (de)serializers for every node, with untagged and renamed parts.",
     ["ast/src/span.rs", "ast/src/lib.rs", "lexer/src/token.rs", "ast/src/stmt.rs", "ast/src/expr.rs", "ast/src/literal.rs"],
     [("positions written as text", "ast/src/span.rs"), ("derived serializers", "ast/src")],
     "property-based testing: round trip of generated and damaged programs",
     "JSON by serde_json; trees deeper than its recursion limit are left out.")

prop("P21", "All entry points of the parser agree",
     "Parsing a text as a program by goal and by the functions named after the goals gives the same; what is an expression parses as an expression by itself to the same tree as within a program, moved by its position; the first statement of a program parses by itself to the same tree; code without import, export and import.meta means the same as a module, and as a script with use strict.",
     ["inputs"], "all programs, statements and expressions",
     "Tests use each entry point with its own few snippets and never compare them.",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs"],
     [("entry points", "parser/src/lib.rs Parse"), ("context of goals", "parser/src/lib.rs Context")],
     "property-based testing, metamorphic and differential between entry points",
     "Oracle: the tree built by the generator and the other entry point. What follows the first expression or statement is not read by these entry points.")

prop("P22", "The command line program does what its options and the name of the file say",
     "For every source file, the program parses it as a module exactly if its name ends with .mjs or .module.js; an error ends it with a failing exit status, nothing on standard output and the diagnostic of that file on standard error; otherwise it prints the tree, or with --check only that the source parsed, or with --format the code generated in the asked format (pretty or minified), and exits successfully. The order and spelling of options do not matter. Files are never changed. Wrong usage and unreadable files end with a failing exit status and nothing on standard output.",
     ["inputs", "configurations"], "all source texts, file names, and combinations and spellings of options",
     "No test runs the program at all.",
     ["src/main.rs", "parser/src/error/emitter.rs", "codegen/src/lib.rs"],
     [("choice of the goal by name", "src/main.rs main"), ("options", "src/main.rs get_arguments")],
     "property-based testing of the built program, differential against the libraries",
     "The output is compared with what the libraries of the same tree give; these are decided by the other properties.")

prop("P24", "Code means the same by itself, nested in other code, and after other code",
     "The statements of every program, put into a block, a loop (body or head), a function, an arrow function, a method, a class, a default value, a template substitution or an argument list, or after another program, parse to the same trees (moved by their position) as by themselves, and statements which are not valid by themselves are not valid there either: no state of the parser leaks into or out of the construct around them.",
     ["inputs", "histories"], "all programs within all of about a hundred constructs and their nestings, and all pairs of programs",
     "Tests parse small snippets by themselves. The parser carries context flags, rewinds and reads tokens again; what leaks from one construct to the next shows only in combinations.",
     ["parser/src/lib.rs", "parser/src/function.rs", "parser/src/stmt.rs", "parser/src/class.rs", "parser/src/method.rs", "parser/src/iteration.rs"],
     [("context flags", "parser/src/lib.rs Context"), ("rewinding", "parser/src/lib.rs Parser")],
     "property-based testing, metamorphic: programs within constructs and one after the other",
     "Compares fajt with itself. Strict constructs take modules without imports and exports.")

# ---- more properties go above ----

NOT_APPLICABLE = []


def main():
    for p in PROPS:
        for x in p['files']:
            assert os.path.exists('/repo/' + x), (p['id'], x)
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                            "observe_at": list(p["observe"]), "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    built = set(open(os.path.join(HERE, "tools", "built")).read().split())
    checks = [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"./check.sh {p['id']} --thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in PROPS if p["id"] not in na and p["id"] in built]
    for p in PROPS:
        if p["id"] not in na and p["id"] not in built:
            NOT_APPLICABLE.append({"property": p["id"], "reason": "the check is not built yet"})
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: everything is observed through the public crates.",
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
