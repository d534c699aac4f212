#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def f(prop, what, source, fails, pointer=None, wrong=None, right=None, module=False):
    e = dict(property=prop, what=what, source=source, module=module, fails=fails)
    if pointer:
        e.update(pointer=pointer, wrong=wrong, right=right)
    F.append(e)


f("P11", "the region of a token whose last character has several bytes ends too early", "var é", "tree",
  "/Script/body/0/Variable/declarations/0/span", "4:5", "4:6")
f("P03", "** is parsed as left associative", "a ** b ** c", "tree",
  "/Script/body/0/Expr/expr/Binary/right/IdentRef/name", "c", None)
f("P06", "a plain method within a generator is marked as generator", "function* f() { ({ m() {} }) }", "tree",
  "/Script/body/0/FunctionDecl/body/statements/0/Expr/expr/Parenthesized/expression/Literal/literal/Object/props/0/Method/generator", True, False)
f("P06", "super() in a computed method name within a derived constructor is rejected",
  "class b extends b { constructor() { class c { get [super()]() {} } } }", "rejected")
f("P15", "escape sequences of strings lose their backslash and are not evaluated", "x = '\\n'", "tree",
  "/Script/body/0/Expr/expr/Assignment/right/Literal/literal/String/value", "n", "\n")
f("P12", "a keyword written with unicode escapes is taken for the keyword", "v\\u0061r x", "accepted")
f("P07", "an object rest target may be a pattern", "({ ...{a} } = b)", "accepted")
f("P07", "an object rest of a binding may be a pattern", "var {...[a]} = b", "accepted")
f("P07", "each comma of a hole counts as an element of an array assignment pattern", "[a,,b] = c", "tree",
  "/Script/body/0/Expr/expr/Assignment/left/AssignmentPattern/Array/elements/2", None,
  {"span": "4:5", "target": {"Expr": {"IdentRef": {"span": "4:5", "name": "b"}}}, "initializer": None})
for s in ["'\\x'", "'\\u{}'", "'\\u12'"]:
    f("P02", "a malformed escape sequence in a string is accepted", s, "accepted")
for s in ["[[].a] = b", "[{}.x] = b", "[...[].a] = b", "({a:[].b} = c)", "for ([a].b of c);", "for ({a:1}.b in d);"]:
    f("P07", "an assignment target that starts with an array or object literal is rejected", s, "rejected")
f("P08", "a reserved word is accepted as the local name of an export", "export {default}", "accepted", module=True)
f("P08", "a reserved word is accepted as the local name of an export", "export {if as x}", "accepted", module=True)

F.append(dict(property="P01", what="each level of arrow parameters or patterns with defaults is parsed twice: the time doubles with each level",
              source="", fails="slow", open="(a=", middle="a", close=")=>1"))
F.append(dict(property="P01", what="each level of arrow parameters or patterns with defaults is parsed twice: the time doubles with each level",
              source="", fails="slow", open="[a=", middle="a", close="]=b"))
F.append(dict(property="P01", what="the head of a for loop is parsed twice: the time doubles with each level of loops in functions in heads",
              source="", fails="slow", open="for(a[function(){", middle="", close="}] of c);"))
F.append(dict(property="P01", what="the head of a for loop is parsed twice: the time doubles with each level of loops in functions in heads",
              source="", fails="slow", open="for(let [a=function(){", middle="", close="}] of c);"))
F.append(dict(property="P16", what="the start of the text is marked for an unterminated literal", source="a; 'b", fails="rendered",
              wrong="Lexer error 'Unexpected end of stream'\n --> f.js\n  |\n1 | a; 'b\n  | ^ \n", right="Lexer error 'Unexpected end of stream'\n --> f.js\n"))

FIXED = """P14 b6d7431 `for (let.a of b)` was accepted
P14 213c906 elements of array assignment patterns needed no commas (`for ([x x] of y)`)
P13 18bd914 super.x was accepted in the computed name of a method outside of all methods
P13 03fdab2 eval and arguments were accepted as shorthand targets of assignment patterns in strict mode
P22 3058797 --format asked for two values, so no source could be formatted
P16 252148d the markers of diagnostics were placed by bytes, and beyond the first line
P11 94fc8d2 tokens after multi-byte characters started too late
P02 921306b a number directly followed by an escape sequence was accepted (`3\\u0069n x`)
P10 7f5fc77 `<!` followed by anything was taken for an HTML comment (`a <!b`)
P23 8a01b8e the lexer state was not restored when reading with another state failed
P25 bfc6c2b a line terminator was accepted within a regular expression literal
P15 78a3206 numeric separators without a digit on both sides were accepted (`1_.5`)
P02 88fe243 a numeric literal directly followed by a digit was accepted (`0b12`)
P03 ffab15b the `in` operator was rejected within nested parts of a for head, and accepted elsewhere
P09 d6bb450 a missing semicolon was accepted on the same line
P03 5ebd6c3 `-a ** b` was accepted
P03 324e793 `a ?? b || c` was accepted
P12 f743cc2 `({async, get, set, static})` was rejected
P06 fa4b334 methods named async were rejected
P06 02230cc plain methods inherited await and super() from their surroundings
P13 c226efc arrow functions did not inherit strict mode
P03 113de88 `yield` without argument was rejected before `,` and `:`
P13 03213b2 module code was not strict
P12 a1ba904 await was accepted as a name in modules
P04 a9d86e6 a tagged template with substitutions was rejected after a call
P04 a3b7296 super() and import() could not be followed by further parts of a chain
P05 5309e45 statements could not start with import() or import.meta
P04 e29a9d9 `new a()?.b` was rejected
P04 efd9d8c reserved words were rejected as property names after ?.
P12 dd52e02 async was not accepted as a name in several places
P05 ce0be87 `for (async of x)` was accepted
P05 42d9dd6 a comma expression was accepted on the right of for-of
P06 11752aa a trailing comma in arrow function parameters was rejected
P08 5e4dd01 a module specifier that is no string made the parser panic
P08 7b5a762 exported declarations without a name were accepted
P08 df610b0 import and export declarations were accepted in nested positions
P01 f864f96 export followed by something else made the parser panic
P08 fb694db `import {if} from 'a'` was accepted
P16 5ac9299 long lines made the rendering of diagnostics panic
P01 6d0f1cf diagnostics that end inside a multi-byte character made the rendering panic
P16 8eed83f the line of the end of the error was reported
P19 6547217 the alternate of a conditional expression was not traversed
P19 f1edb00 parts of import declarations were traversed twice
P19 84416ad named exports were not traversed in source order
P19 bdd203f bindings of for-in and for-of declarations were neither traversed nor printed
P19 12f9a86 assignment patterns were not traversed
P18 210214b a space was missing between keywords and names starting with $ or _
P18 692355c operators merged in generated code (`a + +b`)
P17 c098c11 generated throw and export * lacked their semicolon
P17 7d61c55 accessors were generated with a star
P17 f463325 elisions were generated with a wrong number of commas
P17 fa0f579 strings and templates were not escaped in generated code
P18 7d81195 numbers and regular expressions merged with what follows in generated code
P18 5c37482 the semicolon of an empty statement was removed in generated code
P17 e55a7f5 assignment patterns could not be generated
P17 aa07b3c the semicolon of a generated do-while was missing, so a following empty statement was lost
P26 919bb73 array assignment patterns were generated without the spaces of array literals
P26 740e96a code nested in the declarations of a variable statement lost its indentation
P26 7310597 declarations were aligned with a wrong column after empty blocks, templates and multi-byte characters
P26 abe48b0 the space between an elision and the rest of an array binding was missing
P09 df37d9e the token after a template was taken for the first on its line
P13 38fdf05 duplicate names within the patterns of parameters of methods and setters were accepted
""".splitlines()
fixed = []
for l in FIXED:
    p, c, what = l.split(" ", 2)
    if ".." in c:
        continue
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short=12", c], capture_output=True, text=True)
    assert full.returncode == 0, c
    fixed.append(f"fixed: property={p} {full.stdout.strip()} {what}")
n = len(subprocess.run(["git", "-C", "/repo", "log", "--oneline", "c7a032b.."], capture_output=True, text=True).stdout.splitlines())
print(len(fixed), "fixed of", n, "commits")
json.dump({"findings": F, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
