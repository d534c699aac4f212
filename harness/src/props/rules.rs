//! Rules of the grammar and early errors: a text that breaks one, and the same text mended.
//!
//! `¤` is any expression without a comma, `§` a name or member (a target of assignments), `@`, `#1`,
//! `#2` names nobody else declares, `ø` a line terminator, `¬` an operator of compound assignment.

pub const ANY: u16 = 0;
pub const STRICT: u16 = 1;
pub const SLOPPY: u16 = 2;
/// Outside of methods.
pub const NO_SUPER: u16 = 4;
/// Outside of constructors of derived classes.
pub const NO_SUPER_CALL: u16 = 8;
/// Outside of functions.
pub const NO_RETURN: u16 = 16;
pub const SCRIPT: u16 = 32;
pub const MODULE: u16 = 64;
/// Inside of something.
pub const NESTED: u16 = 128;
pub const NO_LOOP: u16 = 256;
/// Neither within a loop nor a switch.
pub const NO_BREAK: u16 = 512;
pub const TOP: u16 = 1024;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// An expression, put in parentheses.
    E,
    /// A statement of a list.
    S,
}
pub use Kind::*;

pub struct Rule {
    pub name: &'static str,
    pub when: u16,
    pub kind: Kind,
    pub rows: &'static [(&'static str, &'static str)],
}

const fn r(name: &'static str, when: u16, kind: Kind, rows: &'static [(&'static str, &'static str)]) -> Rule {
    Rule { name, when, kind, rows }
}

/// What is no target of an assignment.
pub const NO_TARGETS: &[&str] = &[
    "1", "'s'", "`t`", "/r/", "null", "true", "this", "§ + ¤", "§ && ¤", "¤ ? § : §", "-§", "!§", "typeof §", "§++", "--§",
    "§?.a", "§?.[¤]", "§?.a.b", "§?.().a", "§ = ¤", "function () {}", "class {}", "() => ¤", "new q.b", "new §()", "[¤, 1]",
    "{a() {}}", "§, §", "async () => ¤",
];
/// Those which need no parentheses left of an operator or right of one.
pub const PLAIN_NO_TARGETS: &[&str] = &[
    "1", "'s'", "`t`", "/r/", "null", "this", "§?.a", "§?.[¤]", "§?.a.b", "§?.().a", "function () {}", "class {}", "new §()", "new q.b",
];

pub const RULES: &[Rule] = &[
    r("update", ANY, E, &[
        ("++§++", "++§"), ("§++ ++", "§++"), ("++[§]", "++§"), ("[§]--", "§--"), ("++{}", "++§"), ("({a: §})++", "§++"), ("++(§, §)", "++(§)"),
        ("(§ = ¤)++", "(§)++"), ("--(§ + ¤)", "--(§)"), ("++-§", "++ §"), ("!§++ ++", "!§++"), ("++ ++§", "+ ++§"),
    ]),
    r("target of an assignment", ANY, E, &[
        ("([§]) = ¤", "[§] = ¤"), ("({a: §}) = ¤", "{a: §} = ¤"), ("[§] ¬ ¤", "§ ¬ ¤"), ("{a: §} ¬ ¤", "§ ¬ ¤"), ("(§ = §) = ¤", "§ = § = ¤"),
        ("[§ + 1] = ¤", "[§ = 1] = ¤"), ("{a: 1} = ¤", "{a: §} = ¤"), ("{a: § + 1} = ¤", "{a: § = 1} = ¤"), ("{a() {}} = ¤", "{a: §} = ¤"),
        ("{get a() {}} = ¤", "{a: §} = ¤"), ("[(§ = 1)] = ¤", "[§ = 1] = ¤"), ("[([§])] = ¤", "[[§]] = ¤"), ("{a: ({b: §})} = ¤", "{a: {b: §}} = ¤"),
        ("{a: ([§])} = ¤", "{a: [§]} = ¤"), ("[§?.a] = ¤", "[§.a] = ¤"), ("{a: §?.b} = ¤", "{a: §.b} = ¤"), ("[this] = ¤", "[this.a] = ¤"),
        ("[-§] = ¤", "[§] = ¤"), ("[[1]] = ¤", "[[§]] = ¤"), ("[{a: 1}] = ¤", "[{a: §}] = ¤"), ("{a: [1]} = ¤", "{a: [§]} = ¤"),
        ("{'a'} = ¤", "{'a': §} = ¤"), ("{1} = ¤", "{1: §} = ¤"), ("{[¤]} = ¤", "{[¤]: §} = ¤"), ("{this} = ¤", "{this: §} = ¤"),
        ("{a: § ¬ 1} = ¤", "{a: § = 1} = ¤"), ("[§ ¬ 1] = ¤", "[§ = 1] = ¤"), ("[§ = 1, 2] = ¤", "[§ = 1, §] = ¤"), ("{a: this = 1} = ¤", "{a: § = 1} = ¤"),
        ("[...§ = 1] = ¤", "[...§] = ¤"), ("[...1] = ¤", "[...§] = ¤"), ("[...[1]] = ¤", "[...[§]] = ¤"), ("{...1} = ¤", "{...§} = ¤"),
        ("{...§ = 1} = ¤", "{...§} = ¤"), ("[`t`] = ¤", "[§] = ¤"), ("[(§, §)] = ¤", "[(§)] = ¤"), ("[() => 1] = ¤", "[§] = ¤"),
        ("§ + § = ¤", "§ + (§ = ¤)"), ("§ ? § : § + 1 = ¤", "§ ? § : § = ¤"), ("-§ = ¤", "-(§ = ¤)"), ("() => § = ¤ = ¤ + § = 1", "() => § = § = 1"),
    ]),
    r("default value outside of a pattern", ANY, E, &[
        ("{a = ¤}", "{a: ¤}"), ("{a = 1}", "{a = 1} = ¤"), ("[{a = 1}]", "[{a = 1}] = ¤"), ("{a: {b = 1}}", "{a: {b = 1}} = ¤"), ("§({a = 1})", "§({a: 1})"),
        ("[{a = 1}].b", "[{a: 1}].b"), ("{a: {b = 1}.c} = ¤", "{a: (§).c} = ¤"), ("§ + {a = 1}", "§ + {a}"), ("{a, b = 1, c}", "{a, b, c}"),
        ("{b = 1}, §", "{b = 1} = ¤, §"), ("{a = 1} + §", "{a} + §"), ("({a = 1})", "({a = 1}) => ¤"), ("({a: [{b = 1}]})", "({a: [{b = 1}]}) => ¤"),
        ("async ({a = 1})", "async ({a = 1}) => ¤"), ("{a: § = {b = 1}} = ¤", "{a: § = {b}} = ¤"), ("¤ ? {a = 1} : 1", "¤ ? {a} : 1"),
        ("{...{a = 1}}", "{...{a}}"), ("[...{a = 1}]", "[...{a: 1}]"), ("{[{a = 1}]: 1}", "{[{a: 1}]: 1}"), ("`${{a = 1}}`", "`${{a}}`"),
    ]),
    r("delete of a name", STRICT, E, &[
        ("delete @", "delete @.a"), ("delete (@)", "delete (@.a)"), ("delete ((@))", "delete ((@[¤]))"), ("typeof delete @", "typeof delete @()"),
        ("delete delete @", "delete delete @.a"), ("¤ + delete @", "¤ + delete 1"), ("[delete @]", "[delete @.@]"), ("() => delete @", "() => delete @`t`"),
        ("delete yield", "delete §.yield"),
    ]),
    r("eval and arguments as targets", STRICT, E, &[
        ("eval = ¤", "eval.a = ¤"), ("arguments = ¤", "arguments[0] = ¤"), ("eval++", "eval"), ("--arguments", "-arguments"), ("++eval", "++eval.a"),
        ("arguments--", "arguments[0]--"), ("eval ¬ ¤", "eval.a ¬ ¤"), ("(eval) = ¤", "(eval.a) = ¤"), ("++(arguments)", "++(arguments[0])"),
        ("[eval] = ¤", "[eval.a] = ¤"), ("[arguments = 1] = ¤", "[arguments.a = 1] = ¤"), ("{a: eval} = ¤", "{a: eval.a} = ¤"), ("[...arguments] = ¤", "[...arguments.a] = ¤"),
        ("{eval} = ¤", "{eval: §} = ¤"), ("{arguments = 1} = ¤", "{arguments: § = 1} = ¤"), ("{...eval} = ¤", "{...eval.a} = ¤"), ("[(eval)] = ¤", "[(eval.a)] = ¤"),
        ("[[eval]] = ¤", "[[eval[0]]] = ¤"), ("{a: {b: arguments}} = ¤", "{a: {b: arguments.a}} = ¤"),
    ]),
    r("eval and arguments as heads of loops", STRICT, S, &[
        ("for (eval of ¤) ;", "for (eval.a of ¤) ;"), ("for (arguments in ¤) ;", "for (arguments.a in ¤) ;"), ("for ([eval] of ¤) ;", "for ([eval.a] of ¤) ;"),
        ("for ({eval} of ¤) ;", "for ({eval: §} of ¤) ;"), ("for ((eval) in ¤) ;", "for ((eval.a) in ¤) ;"),
    ]),
    r("getters and setters", ANY, E, &[
        ("{get a(@) {}}", "{get a() {}}"), ("{get a(...@) {}}", "{get a() {}}"), ("{get a({}) {}}", "{get a() {}}"), ("{get [¤](#1, #2) {}}", "{get [¤]() {}}"),
        ("{set a() {}}", "{set a(@) {}}"), ("{set a(#1, #2) {}}", "{set a(#1) {}}"), ("{set a(...@) {}}", "{set a(@) {}}"), ("{set 'a'(#1, ...#2) {}}", "{set 'a'([#1, ...#2]) {}}"),
        ("{set a(@,,) {}}", "{set a(@) {}}"), ("class { get a(@) {} }", "class { get a() {} }"), ("class { static get a(@) {} }", "class { static get a() {} }"),
        ("class { set a() {} }", "class { set a(@) {} }"), ("class { static set a(#1, #2) {} }", "class { static set a(#1 = ¤) {} }"),
        ("class { get a(@ = 1) {} }", "class { get a() {} }"), ("class { set [¤](...[@]) {} }", "class { set [¤]([@]) {} }"),
        ("class { static set a(...@) {} }", "class { static set a({@}) {} }"), ("{get *a() {}}", "{get a() {}}"), ("{*get a() {}}", "{*get() {}}"),
        ("{set *a(@) {}}", "{set a(@) {}}"), ("{async get a() {}}", "{async get() {}}"), ("{async set a(@) {}}", "{async set(@) {}}"), ("{get async a() {}}", "{get async() {}}"),
        ("{get set a(@) {}}", "{get set() {}}"), ("class { get static a() {} }", "class { static get a() {} }"), ("class { static static a() {} }", "class { static static() {} }"),
        ("class { async get a() {} }", "class { async get() {} }"), ("{static a() {}}", "{static() {}}"), ("{get a}", "{get}"), ("{set a}", "{set}"), ("{get: a() {}}", "{get: 1}"),
        ("{get a, b}", "{get, b}"), ("{async a}", "{async}"), ("{*a}", "{*a() {}}"), ("{async *a}", "{async *a() {}}"), ("{get a: 1}", "{get: 1}"), ("{async a: 1}", "{async: 1}"),
    ]),
    r("parameters of methods", ANY, E, &[
        ("{a(#1, #1) {}}", "{a(#1, #2) {}}"), ("{*a(#1, #1) {}}", "{*a(#1, #2) {}}"), ("{async a(#1, #1) {}}", "{async a(#1, #2) {}}"),
        ("class { a(#1, #1) {} }", "class { a(#1, #2) {} }"), ("class { static a(#1, @, #1) {} }", "class { static a(#1, @, #2) {} }"),
        ("{a(#1, ...#1) {}}", "{a(#1, ...#2) {}}"), ("class { async a(@, #1, ...#1) {} }", "class { async a(@, #1, ...#2) {} }"),
        ("{a(#1, #2, #1 = ¤) {}}", "{a(#1, #2 = ¤) {}}"), ("class { *a(@ = ¤, ...@) {} }", "class { *a(@ = ¤, ...#1) {} }"),
        ("class { constructor(#1, #1) {} }", "class { constructor(#1, #2) {} }"), ("class { async *a(#1, #1) {} }", "class { async *a(#1, #2) {} }"),
        ("{a(@ = 1) { 'use strict' }}", "{a(@) { 'use strict' }}"), ("{a(...@) { 'use strict' }}", "{a(@) { 'use strict' }}"),
        ("{a([@]) { \"use strict\" }}", "{a([@]) { 'use stric' }}"), ("class { a({}) { 'use strict' } }", "class { a() { 'use strict' } }"),
        ("{set a([@]) { 'use strict' }}", "{set a(@) { 'use strict' }}"), ("class { *a(#1, {#2}) { 'a'; 'use strict' } }", "class { *a(#1, #2) { 'a'; 'use strict' } }"),
        ("{a(@ = ¤) { 'use strict'; ¤ }}", "{a(@ = ¤) { ('use strict'); ¤ }}"),
    ]),
    r("parameters of arrow functions", ANY, E, &[
        
        
        
        ("((@)) => ¤", "(@) => ¤"), ("(@.a) => ¤", "(@) => ¤"), ("(1) => ¤", "(@) => ¤"), ("(@ + 1) => ¤", "(@ = 1) => ¤"), ("(@, 1) => ¤", "(@, #1) => ¤"),
        ("([@.a]) => ¤", "([@]) => ¤"), ("({a: @.b}) => ¤", "({a: @}) => ¤"), ("([(@)]) => ¤", "([@]) => ¤"), ("({a: (@)}) => ¤", "({a: @}) => ¤"), ("({a: 1}) => ¤", "({a: @}) => ¤"),
        ("async (@.a) => ¤", "async (@) => ¤"), ("async ((@)) => ¤", "async (@) => ¤"), ("async (1) => ¤", "async (@) => ¤"), ("@.a => ¤", "@ => ¤"), ("§(@) => ¤", "§((@) => ¤)"),
        ("(@ ¬ 1) => ¤", "(@ = 1) => ¤"), ("(@())  => ¤", "(@) => ¤"), ("[@] => ¤", "([@]) => ¤"), ("{@} => ¤", "({@}) => ¤"), ("(@)[0] => ¤", "(@) => [0]"),
        ("1 => ¤", "@ => ¤"), ("'a' => ¤", "@ => ¤"), ("this => ¤", "@ => ¤"), ("(this) => ¤", "(@) => ¤"), ("async this => ¤", "async @ => ¤"), ("async 1 => ¤", "async @ => ¤"),
        ("async [@] => ¤", "async ([@]) => ¤"), ("async async @ => ¤", "async @ => ¤"), ("-(@) => ¤", "-((@) => ¤)"), ("§ + (@) => ¤", "§ + ((@) => ¤)"), ("§ || @ => ¤", "§ || (@ => ¤)"),
        ("() =>", "() => ¤"), ("() => {", "() => {}"), ("=> ¤", "() => ¤"), ("() => {} || ¤", "(() => {}) || ¤"), ("() => {}()", "(() => {})()"), ("() => {}.a", "(() => {}).a"),
        ("() => {} ? ¤ : ¤", "(() => {}) ? ¤ : ¤"), ("() ? ¤ : ¤", "(§) ? ¤ : ¤"), ("()", "() => ¤"), ("() + ¤", "() => ¤"), ("(@,)", "(@,) => ¤"), ("(...@)", "(...@) => ¤"),
        ("(§, ...@)", "(#1, ...@) => ¤"), ("(, @) => ¤", "(@) => ¤"), ("(@,,) => ¤", "(@,) => ¤"), ("(,) => ¤", "() => ¤"), ("(#1 #2) => ¤", "(#1, #2) => ¤"),
        ("(@)ø=> ¤", "(@) =>ø¤"), ("@ø=> ¤", "@ =>ø¤"), ("()ø=> {}", "() =>ø{}"), ("async (@)ø=> ¤", "async (@) =>ø¤"), ("async @ø=> ¤", "async @ =>ø¤"), ("asyncø(@) => ¤", "async (@) => ¤"),
        ("asyncø@ => ¤", "async @ => ¤"), ("() => ¤, () =>", "() => ¤, () => ¤"), ("() => { ¤ ¤ }", "() => { ¤; ¤ }"), 
        ("new () => ¤", "new (() => ¤)"), ("!() => ¤", "!(() => ¤)"), ("() => ¤ ? ¤", "() => ¤ ? ¤ : ¤"), ("(a, {b: c.d}) => ¤", "(a, {b: c}) => ¤"), ("([...@.a]) => ¤", "([...@]) => ¤"),
    ]),
    r("rest comes last", ANY, E, &[
        ("(...#1, #2) => ¤", "(#2, ...#1) => ¤"), ("(...@,) => ¤", "(...@) => ¤"), ("(...@ = 1) => ¤", "(...[@ = 1]) => ¤"), ("(...#1, ...#2) => ¤", "(#1, ...#2) => ¤"),
        ("async (...#1, #2) => ¤", "async (#2, ...#1) => ¤"), ("async (...@,) => ¤", "async (...@) => ¤"), ("(...@) + 1", "(...@) => 1"), ("((...@)) => 1", "(...@) => 1"),
        ("[...§, §] = ¤", "[§, ...§] = ¤"), ("[...§,] = ¤", "[...§] = ¤"), ("[...§,,] = ¤", "[,, ...§] = ¤"), ("{...§, a: §} = ¤", "{a: §, ...§} = ¤"), ("{...§,} = ¤", "{...§} = ¤"),
        ("[...§, ...§] = ¤", "[§, ...§] = ¤"), ("([...#1, #2]) => ¤", "([#2, ...#1]) => ¤"), ("({...#1, #2}) => ¤", "({#2, ...#1}) => ¤"), ("([...@,]) => ¤", "([...@]) => ¤"),
        ("function (...#1, #2) {}", "function (#2, ...#1) {}"), ("function (...@,) {}", "function (...@) {}"), ("function (...@ = ¤) {}", "function (...[@ = ¤]) {}"),
        ("{a(...#1, #2) {}}", "{a(#2, ...#1) {}}"), ("class { a(...@,) {} }", "class { a(...@) {} }"), ("class { constructor(...#1, #2) {} }", "class { constructor(#2, ...#1) {} }"),
        ("async function (...#1, ...#2) {}", "async function (#1, ...#2) {}"), ("[...]", "[...§]"), ("§(...)", "§(...§)"), ("{...}", "{...§}"), ("[...§ ...§]", "[...§, ...§]"),
        ("...§", "[...§]"), ("§ + ...§", "§(...§)"), ("(... ...@) => ¤", "(...@) => ¤"), ("§[...§]", "§[§]"), ("`${...§}`", "`${§}`"), ("new §(...)", "new §(...§)"),
    ]),
    r("rest comes last", ANY, S, &[
        ("var [...#1, #2] = ¤;", "var [#2, ...#1] = ¤;"), ("let [...@,] = ¤;", "let [...@] = ¤;"), ("const {...#1, #2} = ¤;", "const {#2, ...#1} = ¤;"), ("var {...@,} = ¤;", "var {...@} = ¤;"),
        ("let [...@ = 1] = ¤;", "let [...[@ = 1]] = ¤;"), ("var {...@ = 1} = ¤;", "var {...@} = ¤;"), 
        ("for (var [...#1, #2] of ¤) ;", "for (var [#2, ...#1] of ¤) ;"), ("for ([...§, §] of ¤) ;", "for ([§, ...§] of ¤) ;"), ("for (let {...#1, #2} in ¤) ;", "for (let {#2, ...#1} in ¤) ;"),
        ("try {} catch ([...#1, #2]) {}", "try {} catch ([#2, ...#1]) {}"), ("function @(...#1, #2) {}", "function @(#2, ...#1) {}"), ("var ...@ = ¤;", "var [...@] = ¤;"),
        ("for ({...§, a: §} of ¤) ;", "for ({a: §, ...§} of ¤) ;"), ("for ([...§,] in ¤) ;", "for ([...§] in ¤) ;"),
    ]),
    r("super", NO_SUPER, E, &[
        ("super.a", "this.a"), ("super[¤]", "this[¤]"), ("() => super.a", "{a() { super.a }}"), ("super.a = ¤", "§.a = ¤"), ("super.a()", "§.a()"), ("new super.a", "{a() { new super.a }}"),
        ("[super.a] = ¤", "{a() { [super.a] = ¤ }}"), ("{a: super.a}", "{a() { super.a }}"), ("{a: () => super.a}", "{a() { () => super.a }}"), ("`${super.a}`", "`${this.a}`"),
        ("async () => super.a", "{async a() { super.a }}"), ("(@ = super.a) => ¤", "{a(@ = super.a) {}}"), ("class extends super.a {}", "{a() { return class extends super.a {} }}"),
        ("delete super.a", "{a() { delete super.a }}"), ("super.a`t`", "{a() { super.a`t` }}"), ("{*a() {}, b: super.a}", "{*a() { super.a }, b: 1}"),
        ("{get a() {}}.b + super.c", "{get a() { super.c }}.b"),
    ]),
    r("super", ANY, E, &[
        ("function () { super.a }", "{a() { super.a }}"), ("{a: function () { super.a }}", "{a() { super.a }}"), ("{a() { function @() { super.a } }}", "{a() { () => super.a }}"),
        ("class { a() { return function () { super.a } } }", "class { a() { return () => super.a } }"), ("function* () { super[¤] }", "{*a() { super[¤] }}"),
        ("function (@ = super.a) {}", "{a(@ = super.a) {}}"), ("async function () { super.a() }", "{async a() { super.a() }}"), ("{a() { (function () { super.a }) }}", "{a() { (() => { super.a }) }}"),
        ("class { static a() { function @() { return super.b } } }", "class { static a() { return super.b } }"), ("{get a() { return function () { super.a } }}", "{get a() { return super.a }}"),
        ("{a() { super }}", "{a() { super.a }}"), ("{a() { super`t` }}", "{a() { super.a`t` }}"), ("{a() { super?.a }}", "{a() { super.a?.b }}"), ("{a() { super + 1 }}", "{a() { super.a + 1 }}"),
        ("{a() { super = 1 }}", "{a() { super.a = 1 }}"), ("{a() { super++ }}", "{a() { super.a++ }}"), ("{a() { (super).a }}", "{a() { (super.a) }}"), ("{a() { new super }}", "{a() { new super.a }}"),
        ("{a() { [super] }}", "{a() { [super.a] }}"), ("{a() { super; }}", "{a() { super.a; }}"), ("{a() { super.1 }}", "{a() { super[1] }}"), ("{a() { super => 1 }}", "{a() { () => super.a }}"),
        ("{a() { delete super }}", "{a() { delete super.a }}"), ("super", "this"), ("[super]", "[this]"), ("§(super)", "§(this)"), ("typeof super", "typeof this"),
    ]),
    r("super call", NO_SUPER_CALL, E, &[
        ("super()", "§()"), ("super(...§)", "§(...§)"), ("() => super()", "class extends ¤ { constructor() { () => super() } }"), ("`${super()}`", "class extends ¤ { constructor() { `${super()}` } }"),
        ("{a: super()}", "class extends ¤ { constructor() { ({a: super()}) } }"), ("(@ = super()) => ¤", "class extends ¤ { constructor(@ = super()) {} }"),
        ("super().a", "class extends ¤ { constructor() { super().a } }"), ("super()()", "class extends ¤ { constructor() { super()() } }"),
    ]),
    r("super call", ANY, E, &[
        ("function () { super() }", "class extends ¤ { constructor() { super() } }"), ("{a() { super() }}", "class extends ¤ { constructor() { super() } }"),
        ("{constructor() { super() }}", "{constructor() {}}"), ("class { constructor() { super() } }", "class extends ¤ { constructor() { super() } }"),
        ("class extends ¤ { a() { super() } }", "class extends ¤ { a() { super.a() } }"), ("class extends ¤ { static constructor() { super() } }", "class extends ¤ { constructor() { super() } }"),
        ("class extends ¤ { get a() { super() } }", "class extends ¤ { get a() { super.a() } }"), ("class extends ¤ { constructor() { function @() { super() } } }", "class extends ¤ { constructor() { () => super() } }"),
        ("class extends ¤ { constructor() { ({a() { super() }}) } }", "class extends ¤ { constructor() { ({a: super()}) } }"),
        ("class { constructor() { class @ extends ¤ { constructor() { super() } } super() } }", "class { constructor() { class @ extends ¤ { constructor() { super() } } super.a() } }"),
        ("class extends ¤ { constructor() { class @ { constructor() { super() } } } }", "class extends ¤ { constructor() { class @ { constructor() {} } super() } }"),
        ("class extends ¤ { constructor() { new super() } }", "class extends ¤ { constructor() { new super.a() } }"), ("class extends ¤ { constructor() {} a() { super() } }", "class extends ¤ { constructor() { super() } a() {} }"),
        ("class extends ¤ { constructor() { super?.() } }", "class extends ¤ { constructor() { super()?.() } }"), ("class extends ¤ { constructor() { super() = 1 } }", "class extends ¤ { constructor() { super().a = 1 } }"),
        ("class { constructor(@ = super()) {} }", "class extends ¤ { constructor(@ = super()) {} }"), ("{a() { class @ { constructor() { super() } } }}", "{a() { class @ { constructor() { super.a() } } }}"),
    ]),
    r("optional chains", ANY, E, &[
        ("§?.a`t`", "(§?.a)`t`"), ("§?.[¤]`t`", "(§?.[¤])`t`"), ("§?.()`t`", "(§?.())`t`"), ("§?.a.b`t`", "(§?.a.b)`t`"), ("§?.a()`t${¤}`", "(§?.a())`t${¤}`"), ("§?.a[¤]`t${¤}u`", "§.a[¤]`t${¤}u`"),
        ("§.a?.b`t`", "§.a.b`t`"), ("§?.`t`", "§`t`"), ("§?.aø`t`", "(§?.a)ø`t`"), ("new @?.a", "new @.a"), ("new @?.a()", "new (@?.a)()"), ("new @.a?.()", "new @.a()"), ("new @?.[¤]", "new @[¤]"),
        ("new new @?.a()()", "new new @.a()()"), ("@?.1", "@?.a"), ("@?.", "@?.a"), ("@?.'a'", "@?.['a']"), ("@?.[]", "@?.[¤]"), ("@?..a", "@?.a"), ("@?.?.a", "@?.a?.b"), ("?.a", "§?.a"),
        ("import?.(¤)", "import(¤)?.a"), ("new.target?.", "§?.a"), ("@.?.a", "@?.a"),
    ]),
    r("import calls", ANY, E, &[
        ("import()", "import(¤)"), ("import(...¤)", "import(¤)"), ("new import(¤)", "new (import(¤))"), ("import", "import(¤)"), ("import(¤)++", "import(¤).a++"), ("import(¤) = ¤", "import(¤).a = ¤"),
        ("import.a", "import(¤).a"), ("import[¤]", "import(¤)[¤]"), ("import`t`", "import(¤)`t`"), ("new import.a(¤)", "new (import(¤).a)(¤)"), ("typeof import", "typeof import(¤)"),
    ]),
    r("functions of their own", ANY, E, &[
        ("function () { await ¤ }", "async function () { await ¤ }"), ("function () { yield ¤ }", "function* () { yield ¤ }"), ("{a() { await ¤ }}", "{async a() { await ¤ }}"), ("{a() { yield ¤ }}", "{*a() { yield ¤ }}"),
        ("async function () { function @() { await ¤ } }", "async function () { function @() { } await ¤ }"), ("function* () { function @() { yield ¤ } }", "function* () { function @() { } yield ¤ }"),
        ("class { a() { await ¤ } }", "class { async a() { await ¤ } }"), ("class { get a() { yield ¤ } }", "class { *a() { yield ¤ } }"), ("class { constructor() { await ¤ } }", "class { static async a() { await ¤ } }"),
        ("async () => { function @() { await ¤ } }", "async () => { function @() {} await ¤ }"), ("async function () { yield ¤ }", "async function* () { yield ¤ }"), ("function* () { await ¤ }", "async function* () { await ¤ }"),
        ("async () => { yield ¤ }", "async () => { await ¤ }"), ("async function () { for await (var @ in ¤) ; }", "async function () { for await (var @ of ¤) ; }"),
        ("async function () { for await (;;) ; }", "async function () { for (;;) ; }"), ("async function () { for await (§;;) ; }", "async function () { for await (§ of ¤) ; }"),
        ("function () { for await (@ of ¤) ; }", "async function () { for await (@ of ¤) ; }"), ("async () => { for await (let @ in ¤) ; }", "async () => { for await (let @ of ¤) ; }"),
        ("function* () { for await (@ of ¤) ; }", "async function* () { for await (@ of ¤) ; }"), ("async function () { for await (let @ = 1 of ¤) ; }", "async function () { for await (let @ of ¤) ; }"),
        ("function* () { § + yield ¤ }", "function* () { § + (yield ¤) }"), ("function* () { yield ? ¤ : ¤ }", "function* () { (yield) ? ¤ : ¤ }"), ("function* () { yield = ¤ }", "function* () { yield ¤ }"),
        ("function* () { yield * }", "function* () { yield * ¤ }"), ("function* () { yieldø* ¤ }", "function* () { yield *ø¤ }"), ("function* () { -yield ¤ }", "function* () { -(yield ¤) }"), ("function* () { yield => ¤ }", "function* () { @ => ¤ }"),
        ("function* () { delete yield }", "function* () { delete (yield) }"), ("function* () { new yield }", "function* () { new (yield) }"), ("function* () { yield++ }", "function* () { yield }"), ("function* () { yield.a }", "function* () { (yield).a }"),
        ("async function () { await }", "async function () { await ¤ }"), ("async function () { await => ¤ }", "async function () { await ¤ }"), ("async function () { await = ¤ }", "async function () { await ¤ }"),
        ("async function () { new await ¤ }", "async function () { new (await ¤) }"), ("async function () { await ¤ ** ¤ }", "async function () { (await ¤) ** (¤) }"), ("async function () { § ** await § ** § }", "async function () { § ** (await §) ** § }"),
        ("async function () { await.a }", "async function () { (await §).a }"), ("async function () { [await] }", "async function () { [await ¤] }"),
        ("async () => await", "async () => await ¤"), ("async () => { await }", "async () => { await ¤ }"), ("async () => [await]", "async () => [await ¤]"),
    ]),
    r("shapes of functions", ANY, E, &[
        ("function { }", "function () { }"), ("function (", "function () {}"), ("function () ", "function () {}"), ("function () ¤", "() => ¤"), ("function @.a() {}", "function @() {}"), ("function [@] () {}", "function ([@]) {}"),
        ("function (#1 #2) {}", "function (#1, #2) {}"), ("function (,) {}", "function () {}"), ("function (@,,) {}", "function (@,) {}"), ("function (, @) {}", "function (@) {}"), ("function ((@)) {}", "function (@) {}"),
        ("function (@.a) {}", "function (@) {}"), ("function (1) {}", "function (@) {}"), ("function (@ ¬ 1) {}", "function (@ = 1) {}"), ("function ([@.a]) {}", "function ([@]) {}"), ("function ({a: @.b}) {}", "function ({a: @}) {}"),
        ("function (this) {}", "function (@) {}"), ("function ({a: 1}) {}", "function ({a: @}) {}"), ("function ({'a'}) {}", "function ({'a': @}) {}"), ("function ({[¤]}) {}", "function ({[¤]: @}) {}"), ("function () { ¤ ", "function () { ¤ }"),
        ("function () { ¤ ]", "function () { ¤ }"), ("function * * () {}", "function * () {}"), ("function () => ¤", "() => ¤"), ("async function* * () {}", "async function* () {}"), 
        ("asyncøfunction () {}", "async function () {}"), ("function async () {} {}", "function async () {}"), ("async async function () {}", "async function () {}"), ("new async function () {} {}", "new async function () {}"),
        ("{a() ¤}", "{a() { ¤ }}"), ("{a(}", "{a() {}}"), ("{a() => ¤}", "{a: () => ¤}"), ("{a {}}", "{a: {}}"), ("{async * *a() {}}", "{async *a() {}}"), ("{asyncøa() {}}", "{async a() {}}"), ("{asyncø*a() {}}", "{async *a() {}}"),
        ("{* async a() {}}", "{* async() {}}"), ("{* *a() {}}", "{*a() {}}"), ("{a() {} b() {}}", "{a() {}, b() {}}"), ("{function a() {}}", "{function() {}}"), ("{a: b: 1}", "{a: 1}"), ("{a: }", "{a: ¤}"), ("{: ¤}", "{a: ¤}"),
        ("{a,,b}", "{a,b}"), ("{,}", "{}"), ("{,a}", "{a}"), ("{a b}", "{a, b}"), ("{a; b}", "{a, b}"), ("{1}", "{1: ¤}"), ("{'a'}", "{'a': ¤}"), ("{[¤]}", "{[¤]: ¤}"), ("{[¤, ¤]: 1}", "{[(¤, ¤)]: 1}"), ("{[]: 1}", "{[¤]: 1}"),
        ("{[...§]: 1}", "{[§]: 1}"), ("{a.b}", "{a: §.b}"), ("{a.b: 1}", "{a: 1}"), ("{this}", "{this: 1}"), ("{`a`: 1}", "{'a': 1}"), ("{-1: 1}", "{1: 1}"), ("{a: ¤, 1 + ¤}", "{a: ¤, b: ¤}"), ("{a: 1", "{a: 1}"), ("{a = 1} ¬ ¤", "{a = 1} = ¤"),
        ("{/a/: 1}", "{a: 1}"), ("{(a): 1}", "{a: 1}"), ("{a ¬ 1}", "{a: § ¬ 1}"), ("{a++}", "{a}"), ("{a: ¤; b: ¤}", "{a: ¤, b: ¤}"), ("{null}", "{null: 1}"), ("{new.target}", "{new: 1}"),
        ("[§ §]", "[§, §]"), ("[§; §]", "[§, §]"), ("[", "[]"), ("]", "[]"), ("[§", "[§]"), ("[)]", "[]"), ("[¤, ¤", "[¤, ¤]"), ("§(§ §)", "§(§, §)"), ("§(,)", "§()"), ("§(§,,)", "§(§,)"), ("§(, §)", "§(§)"), ("§(§;)", "§(§)"), ("§(", "§()"),
        ("§[]", "§[§]"), ("§[§", "§[§]"), ("§[§ §]", "§[§, §]"), ("§.", "§.a"), ("§.1", "§.a"), ("§.'a'", "§['a']"), ("§..a", "§.a"), ("§.[¤]", "§[¤]"), ("§.(¤)", "§(¤)"), ("§.`t`", "§`t`"), ("new", "new §"), ("new 1.a.", "new 1.0.a"), ("new.", "new §.a"),
        ("new new", "new new §"), ("new §(", "new §()"), ("new (§", "new (§)"), ("new §(§ §)", "new §(§, §)"), ("new -§", "new §"), ("new @++", "new @"), ("new typeof §", "typeof new §"), ("new.a", "§.a"),
    ]),
    r("shapes of expressions", ANY, E, &[
        ("§ +", "§ + ¤"), ("* §", "+ §"), ("§ + * §", "§ + §"), ("§ §", "§, §"), ("§ 1", "§ + 1"), ("1 1", "1 + 1"), ("'a' 'b'", "'a' + 'b'"), ("¤,", "¤, ¤"), (", ¤", "¤"), ("§,, §", "§, §"), ("¤ ? ¤", "¤ ? ¤ : ¤"), ("¤ ? : ¤", "¤ ? ¤ : ¤"),
        ("¤ ? ¤ :", "¤ ? ¤ : ¤"), ("§ : ¤", "¤ ? § : ¤"), ("¤ ? ¤, ¤ : ¤", "¤ ? (¤, ¤) : ¤"), ("? ¤ : ¤", "¤ ? ¤ : ¤"), ("§ =", "§ = ¤"), ("= ¤", "§ = ¤"), ("§ = = ¤", "§ == ¤"), ("§ + = ¤", "§ += ¤"), ("§ & & §", "§ && §"), ("§ | | §", "§ || §"), ("§ < < §", "§ << §"),
        ("§ * * §", "§ ** §"), ("§ = > ¤", "@ => ¤"), ("§ ! = §", "§ != §"), ("§ = == §", "§ === §"), ("§ ? ? §", "§ ?? §"), ("§ ? .a", "§ ?.a"), ("! ", "!¤"), ("typeof", "typeof §"), ("void", "void ¤"), ("delete", "delete §.a"), ("§ in", "§ in ¤"), ("in §", "¤ in §"),
        ("§ instanceof", "§ instanceof ¤"), ("instanceof §", "¤ instanceof §"), ("§ in in §", "§ in §"), ("§ !", "!§"), ("§ ~", "~§"), ("§ typeof §", "§ + typeof §"), ("-§ ** ¤", "(-§) ** 1"), ("typeof § ** ¤", "typeof (§ ** 1)"), ("!§ ** 1", "!(§ ** 1)"), ("+1 ** 2", "+(1 ** 2)"),
        ("~§ ** §", "~(§ ** §)"), ("§ ** -§ ** §", "§ ** (-§) ** §"), ("§ ** typeof § ** §", "§ ** typeof (§ ** §)"), ("§ ** § ** !§ ** §", "§ ** § ** (!§) ** §"), ("void § ** §", "void (§ ** §)"), ("delete §.a ** §", "(delete §.a) ** §"), ("1 * -§ ** 2", "1 * (-§) ** 2"), ("§ ?? § || §", "(§ ?? §) || §"), ("§ || § ?? §", "§ || (§ ?? §)"), ("§ && § ?? §", "(§ && §) ?? §"), ("§ ?? § && §", "§ ?? (§ && §)"),
        ("§ ?? § ?? § || §", "§ ?? § ?? (§ || §)"), ("§ ?? § + 1 && §", "§ ?? (§ + 1 && §)"), ("§ = § ?? § || §", "§ = § ?? (§ || §)"), ("§ | § && § ?? §", "(§ | § && §) ?? §"), ("§ ? § ?? § || § : §", "§ ? § ?? § : § || §"),
        ("()", "(§)"), ("(§", "(§)"), ("§)", "(§)"), ("(§]", "[§]"), ("((§)", "((§))"), ("(;)", "(§)"), ("(¤;)", "(¤)"), ("(§ §)", "(§, §)"), ("(,)", "(§)"), ("(¤,)", "(¤)"), ("var @", "@"), ("if (¤) ¤", "¤ ? ¤ : ¤"), ("return ¤", "¤"), ("throw ¤", "¤"), ("{;}", "{}"),
        ("§ => ", "@ => ¤"), ("§ #a", "§.a"), ("§ @a", "§, a"), ("§ \\ §", "§ / §"), ("else", "§"), ("case §", "§"), ("§øø++ø;", "§++"), ("§ø++", "§++"), ("§ø--", "§--"), ("typeof §ø++", "typeof §++"), ("§ø++ø, §", "§ø,ø++§"),
        ("export ¤", "¤"), ("let §", "§"), ("const @ = ¤", "§ = ¤"), ("class", "class {}"), ("function", "function () {}"), ("§ of §", "§ in §"), ("§ as §", "§ in §"), ("§ async", "async"), ("async §", "async @ => ¤"), ("async §.a => ¤", "async @ => ¤"),
    ]),
    r("shapes of classes", ANY, E, &[
        ("class { a: 1 }", "class { a() {} }"), ("class { a() {}, b() {} }", "class { a() {}; b() {} }"), ("class { , }", "class { ; }"), ("class { a() ", "class { a() {} }"), ("class {", "class {}"), ("class ()", "class {}"), ("class @", "class @ {}"), ("class () {}", "class {}"),
        ("class extends {}", "class extends § {}"), ("class extends §, § {}", "class extends (§, §) {}"), ("class extends § + § {}", "class extends (§ + §) {}"), ("class extends () => ¤ {}", "class extends (() => ¤) {}"), ("class extends @ => ¤ {}", "class extends (@ => ¤) {}"),
        ("class extends § = ¤ {}", "class extends (§ = ¤) {}"), ("class extends -§ {}", "class extends (-§) {}"), ("class extends § ? § : § {}", "class extends (§ ? § : §) {}"), ("class extends typeof § {}", "class extends (typeof §) {}"), ("class extends §++ {}", "class extends (§++) {}"),
        ("class extends {} ", "class extends {} {}"), ("class extends § extends § {}", "class extends § {}"), ("class @ @ {}", "class @ {}"), ("class @.a {}", "class @ {}"), ("class { get a }", "class { get a() {} }"), ("class { a() {} b }", "class { a() {} b() {} }"),
        ("class { async * * a() {} }", "class { async *a() {} }"), ("class { asyncø*a() {} }", "class { async *a() {} }"), ("class { static { } a }", "class { static a() { } }"), ("class { static ; a() {} ) }", "class { ; static a() {} }"), ("class { ¤; }", "class { ; }"), ("class { [¤ }", "class { [¤]() {} }"),
        ("class { [¤, ¤]() {} }", "class { [(¤, ¤)]() {} }"), ("class { []() {} }", "class { [¤]() {} }"), ("class { a() {} } b {}", "class { a() {} }"), ("class { ...a() {} }", "class { a() {} }"), ("class { `a`() {} }", "class { 'a'() {} }"), ("class { (a)() {} }", "class { a() {} }"),
        ("class { function a() {} }", "class { function() {} }"), ("class { this.a() {} }", "class { this() {} }"), ("class { a.b() {} }", "class { a() {} }"), ("class { a(#1 #2) {} }", "class { a(#1, #2) {} }"), ("class { a(#1) ¤ }", "class { a(#1) { ¤ } }"), ("class { return ¤ }", "class { return() { ¤ } }"),
        ("class { a = 1, b }", "class { a() {} b() {} }"), 
        
    ]),
    r("destructuring declarations", ANY, S, &[
        ("var [@];", "var [@] = ¤;"), ("let {@};", "let {@} = ¤;"), ("const [@];", "const [@] = ¤;"), ("var #1, [#2];", "var #1, [#2] = ¤;"), ("let [#1] = ¤, {#2};", "let [#1] = ¤, {#2} = ¤;"), ("for (var [@];;) ;", "for (var [@] = ¤;;) ;"), ("for (let {@};;) ;", "for (let {@} of ¤) ;"),
        ("for (const #1 = 1, [#2];;) ;", "for (const #1 = 1, [#2] = ¤;;) ;"), 
        ("var [@.a] = ¤;", "var [@] = ¤;"), ("var {a: @.b} = ¤;", "var {a: @} = ¤;"), ("let [(@)] = ¤;", "let [@] = ¤;"), ("const {a: (@)} = ¤;", "const {a: @} = ¤;"), ("var (@) = ¤;", "var @ = ¤;"), ("var @.a = ¤;", "var @ = ¤;"), ("var 1 = ¤;", "var @ = ¤;"), ("let ([@]) = ¤;", "let [@] = ¤;"),
        ("var {a: 1} = ¤;", "var {a: @} = ¤;"), ("var {'a'} = ¤;", "var {'a': @} = ¤;"), ("var {[¤]} = ¤;", "var {[¤]: @} = ¤;"), ("var @ ¬ ¤;", "var @ = ¤;"), ("var [@ ¬ 1] = ¤;", "var [@ = 1] = ¤;"), ("var #1 #2;", "var #1, #2;"), ("var @,;", "var @;"), ("var ;", "var @;"), ("var , @;", "var @;"),
        ("let @ = ;", "let @ = ¤;"), ("const = ¤;", "const @ = ¤;"), ("var @ = ¤ ¤;", "var @ = ¤;"), ("var [@ = ¤;", "var [@] = ¤;"), ("var {@ = ¤;", "var {@} = ¤;"), ("var {a: } = ¤;", "var {a: @} = ¤;"), ("var {a @} = ¤;", "var {a: @} = ¤;"), ("var [#1 #2] = ¤;", "var [#1, #2] = ¤;"), ("var {a() {}} = ¤;", "var {a: @} = ¤;"),
        ("var {,} = ¤;", "var {} = ¤;"), ("var {#1,, #2} = ¤;", "var {#1, #2} = ¤;"), ("var var @;", "var @;"), ("let let #1;", "let #1;"), ("const var @ = ¤;", "var @ = ¤;"), ("var this;", "var @;"), ("var {this} = ¤;", "var {this: @} = ¤;"),
        ("try {} catch (@.a) {}", "try {} catch (@) {}"), ("try {} catch ([@.a]) {}", "try {} catch ([@]) {}"), ("try {} catch (@ = 1) {}", "try {} catch ([@ = 1]) {}"), ("try {} catch () {}", "try {} catch {}"), ("try {} catch (#1, #2) {}", "try {} catch ([#1, #2]) {}"), ("try {} catch @ {}", "try {} catch (@) {}"),
        ("try {} catch ((@)) {}", "try {} catch (@) {}"), ("try {} catch (...@) {}", "try {} catch ([...@]) {}"),
    ]),
    r("return", NO_RETURN, S, &[
        ("return;", "() => { return; }"), ("return ¤;", "() => { return ¤; }"), ("{ return ¤ }", "() => { { return ¤ } }"), ("if (¤) return;", "() => { if (¤) return; }"), ("for (;;) return ¤", "() => { for (;;) return ¤ }"),
        ("try { return } finally {}", "{ let @ = () => { return } }"), ("switch (¤) { case ¤: return }", "switch (¤) { case function () { return }: ; }"), ("while (¤) { return ¤; }", "while (() => { return ¤; }) ;"),
        ("function @() {} return", "function @() { return }"), ("() => ¤; return ¤", "() => { return ¤ }"), ("class @ { a() {} } return", "class @ { a() { return } }"), ("lll: return;", "lll: () => { return; };"), ("do return; while (¤)", "do () => { return; }; while (¤)"),
    ]),
    r("labels", ANY, S, &[
        
        ("lll:", "lll: ;"), ("{ lll: }", "{ lll: ; }"), ("1: ;", "lll: ;"), ("lll.a: ;", "lll: ;"), ("(lll): ;", "lll: ;"),
        ("lll: let @;", "lll: var @;"), ("lll: const @ = 1;", "lll: var @ = 1;"), ("lll: class @ {}", "lll: { class @ {} }"), ("lll: async function @() {}", "lll: { async function @() {} }"), ("lll: function* @() {}", "lll: { function* @() {} }"), ("while (¤) break 1;", "while (¤) { break; 1; }"),
        ("while (¤) break lll.a;", "lll: while (¤) break lll;"), ("lll: while (¤) break lll lll;", "lll: while (¤) break lll;"),
    ]),
    r("throw, try", ANY, S, &[
        ("throw;", "throw ¤;"), ("throwø¤;", "throw ¤;"), ("throw", "throw ¤"), ("{ throw }", "{ throw ¤ }"), ("if (¤) throw; else ;", "if (¤) throw ¤; else ;"), ("throw /*ø*/ ¤;", "throw /* */ ¤;"), ("throw ¤,;", "throw ¤, ¤;"),
        ("try {}", "try {} finally {}"), ("try { ¤ }", "try { ¤ } catch {}"), ("try {} ¤;", "try {} finally {} ¤;"), ("try ¤; finally {}", "try { ¤ } finally {}"), ("try {} catch (@) ¤;", "try {} catch (@) { ¤ }"), ("try {} finally ¤;", "try {} finally { ¤ }"), ("try {} finally {} catch {}", "try {} catch {} finally {}"),
        ("try {} catch {} catch {}", "try {} catch {} finally {}"), ("try {} finally {} finally {}", "try {} catch {} finally {}"), ("catch (@) {}", "try {} catch (@) {}"), ("finally {}", "try {} finally {}"), ("try ; catch {}", "try { ; } catch {}"), ("{ try {} } catch {}", "{ try {} catch {} }"), ("try { try {} } finally {}", "try { try {} finally {} } finally {}"),
        ("try {} catch", "try {} catch {}"), ("try (¤) {} finally {}", "try {} finally {}"),
    ]),
    r("declarations as bodies", ANY, S, &[
        ("if (¤) let @;", "if (¤) var @;"), ("if (¤) const @ = 1;", "if (¤) var @ = 1;"), ("if (¤) class @ {}", "if (¤) { class @ {} }"), ("if (¤) ; else class @ {}", "if (¤) ; else { class @ {} }"), ("while (¤) function @() {}", "while (¤) { function @() {} }"), ("for (;;) class @ {}", "for (;;) { class @ {} }"),
        ("for (@ of ¤) const #1 = ¤;", "for (@ of ¤) { const #1 = ¤; }"), ("do function @() {} while (¤)", "do { function @() {} } while (¤)"), ("for (@ in ¤) function* #1() {}", "for (@ in ¤) { function* #1() {} }"), ("if (¤) async function @() {}", "if (¤) { async function @() {} }"), ("while (¤) async function @() {}", "while (¤) { async function @() {} }"),
        ("if (¤) let [@] = ¤;", "if (¤) { let [@] = ¤; }"), ("while (¤) let\n[@] = ¤;", "while (¤) var [@] = ¤;"), ("for (;;) let @;", "for (;;) var @;"), ("do let @; while (¤)", "do var @; while (¤)"), ("do class @ {} while (¤)", "do { class @ {} } while (¤)"), ("if (¤) ; else const @ = 1;", "if (¤) ; else { const @ = 1; }"), ("if (¤) function* @() {}", "if (¤) { function* @() {} }"),
    ]),
    r("expression statements", ANY, S, &[
        ("function () {}", "(function () {})"), ("class {}", "(class {})"), ("async function () {}", "(async function () {})"), ("{a: 1, b: 2}", "({a: 1, b: 2})"), ("{} = ¤;", "({} = ¤);"), ("{a} = ¤", "({a} = ¤)"), ("function @() {}()", "(function @() {}())"), ("function @() {}.a", "(function @() {}.a)"), ("{}.a", "({}.a)"), ("{a, b: 1}", "({a, b: 1})"),
        ("let [@]", "let [@] = ¤"), ("¤ ¤", "¤; ¤"), ("§ §;", "§; §;"), ("1 2", "1; 2"), ("};", "{};"), (");", ";"), ("];", ";"), ("(;", ";"), ("{ ", "{ }"), ("} ", "{ }"), ("{ ( }", "{ }"), ("else ;", "if (¤) ; else ;"), ("case 1: ;", "switch (¤) { case 1: ; }"), ("default: ;", "switch (¤) { default: ; }"), ("function* () {}", "(function* () {})"),
        ("class @ extends", "class @ extends § {}"), ("function @ {}", "function @() {}"), ("function @()", "function @() {}"), ("function @() ¤", "function @() { ¤ }"), ("async function @ {}", "async function @() {}"), ("class @ { a }", "class @ { a() {} }"), ("enum @ {}", "class @ {}"), ("debugger ¤;", "debugger; ¤;"), ("debugger()", "debugger; ()=>1"), ("debugger = 1;", "debugger; § = 1;"),
    ]),
    r("shapes of statements", ANY, S, &[
        ("if ¤ ;", "if (¤) ;"), ("if () ;", "if (¤) ;"), ("if (¤)", "if (¤) ;"), ("if (¤) else ;", "if (¤) ; else ;"), ("if (¤) ; else", "if (¤) ; else ;"), ("if (¤ ;", "if (¤) ;"), ("if (¤) ; else ; else ;", "if (¤) ; else ;"), ("if (var @) ;", "if (@) ;"), ("if (¤;) ;", "if (¤) ;"), ("if (¤) ¤ else ¤;", "if (¤) ¤; else ¤;"), ("if (¤) {} ; else {}", "if (¤) {} else {}"),
        ("while ¤ ;", "while (¤) ;"), ("while () ;", "while (¤) ;"), ("while (¤)", "while (¤) ;"), ("while (¤;¤) ;", "while (¤) ;"), ("while (let @ = 1) ;", "while (@ = 1) ;"), ("do ¤ while (¤)", "do ¤; while (¤)"), ("do ; while ¤", "do ; while (¤)"), ("do ; while ()", "do ; while (¤)"), ("do while (¤)", "do ; while (¤)"), ("do ;", "do ; while (¤)"), ("do {} (¤)", "do {} while (¤)"), ("do ; ; while (¤)", "do { ; ; } while (¤)"),
        ("switch ¤ {}", "switch (¤) {}"), ("switch () {}", "switch (¤) {}"), ("switch (¤)", "switch (¤) {}"), ("switch (¤) ;", "switch (¤) {}"), ("switch (¤) { ¤; }", "switch (¤) { default: ¤; }"), ("switch (¤) { case: ; }", "switch (¤) { case ¤: ; }"), ("switch (¤) { case ¤ ; }", "switch (¤) { case ¤: ; }"), ("switch (¤) { default ; }", "switch (¤) { default: ; }"),
        ("switch (¤) { default ¤: ; }", "switch (¤) { case ¤: ; }"), ("switch (¤) { case ¤: ", "switch (¤) { case ¤: }"), ("switch (¤) { else: }", "switch (¤) { default: }"), ("switch (¤) { case 1, case 2: }", "switch (¤) { case 1: case 2: }"),
        ("switch (¤) { case ¤: } else ;", "switch (¤) { case ¤: }"), ("switch (¤) { case ¤: case }", "switch (¤) { case ¤: case ¤: }"), ("switch (¤) case ¤: ;", "switch (¤) { case ¤: ; }"),
        ("for ;;", "for (;;) ;"), ("for () ;", "for (;;) ;"), ("for (;) ;", "for (;;) ;"), ("for (¤) ;", "for (;¤;) ;"), ("for (;;;) ;", "for (;;) ;"), ("for (;;)", "for (;;) ;"), ("for (¤;¤) ;", "for (§;¤;¤) ;"), ("for (;¤,;) ;", "for (;¤;) ;"), ("for (;;) else ;", "for (;;) ;"), ("for (var @) ;", "for (var @;;) ;"), ("for (var @;) ;", "for (var @;;) ;"), ("for (;var @;) ;", "for (;@;) ;"), ("for (;;var @) ;", "for (;;@) ;"),
        ("for (var @;;¤;) ;", "for (var @;;¤) ;"), ("for (let;) ;", "for (let @;;) ;"), 
        ("for (§ of) ;", "for (§ of ¤) ;"), ("for (§ in) ;", "for (§ in ¤) ;"), ("for (of ¤) ;", "for (§ of ¤) ;"), ("for (in ¤) ;", "for (§ in ¤) ;"), ("for (§ of ¤, ¤) ;", "for (§ of (¤, ¤)) ;"), ("for (var @ of ¤, ¤) ;", "for (var @ in ¤, ¤) ;"), ("for (§, § of ¤) ;", "for (§ of ¤) ;"), ("for (§, § in ¤) ;", "for (§ in ¤) ;"), ("for (var #1, #2 of ¤) ;", "for (var #1 of ¤) ;"), ("for (var #1, #2 in ¤) ;", "for (var #1 in ¤) ;"),
        ("for (let #1, #2 of ¤) ;", "for (let [#1, #2] of ¤) ;"), ("for (let @ = 1 of ¤) ;", "for (let @ of ¤) ;"), ("for (var @ = 1 of ¤) ;", "for (var @ of ¤) ;"), ("for (let @ = 1 in ¤) ;", "for (let @ in ¤) ;"), ("for (const @ = 1 in ¤) ;", "for (const @ in ¤) ;"), ("for (var [@] = 1 in ¤) ;", "for (var [@] in ¤) ;"), ("for (§ = 1 of ¤) ;", "for (§ of ¤) ;"), ("for (§ = 1 in ¤) ;", "for (§ in ¤) ;"),
        ("for (1 of ¤) ;", "for (§ of ¤) ;"), ("for (this of ¤) ;", "for (this.a of ¤) ;"), ("for (§?.a of ¤) ;", "for (§.a of ¤) ;"), ("for (§?.a in ¤) ;", "for (§.a in ¤) ;"), ("for (§ + 1 of ¤) ;", "for (§ of ¤) ;"), ("for ((§, §) of ¤) ;", "for ((§) of ¤) ;"), ("for ((§ = 1) in ¤) ;", "for ((§) in ¤) ;"), ("for ([1] of ¤) ;", "for ([§] of ¤) ;"), ("for ({a: 1} in ¤) ;", "for ({a: §} in ¤) ;"),
        ("for (([§]) of ¤) ;", "for ([§] of ¤) ;"), ("for (({a: §}) of ¤) ;", "for ({a: §} of ¤) ;"), ("for ({a() {}} of ¤) ;", "for ({a: §} of ¤) ;"), ("for (new @ of ¤) ;", "for (§ of ¤) ;"), ("for (§++ of ¤) ;", "for (§ of ¤) ;"), ("for (let of of) ", "for (let of of §) ;"), ("for (async of ¤) ;", "for ((async) of ¤) ;"), ("for (@ => 1 of ¤) ;", "for (@ of ¤) ;"), ("for (var of) ;", "for (var of;;) ;"), ("for (var of ¤) ;", "for (var of of ¤) ;"),
        ("for (§ of ¤ of ¤) ;", "for (§ of ¤) ;"), ("for (§ in ¤;;¤ in) ;", "for (;;¤ in ¤) ;"), ("for (var @ in ¤;;) ;", "for (var @ = (1 in ¤);;) ;"), ("for (var @ = § in ¤;;) ;", "for (var @ = (§ in ¤);;) ;"), ("for (§ ? § in ¤ : § in ¤;;) ;", "for (§ ? § in ¤ : (§ in ¤);;) ;"), ("for (let @ = § in § ? 1 : 2;;) ;", "for (let @ = (§ in §) ? 1 : 2;;) ;"), ("for (var @ = () => § in ¤;;) ;", "for (var @ = () => (§ in ¤);;) ;"),
        ("with ¤ ;", "{ ¤ }"), ("{ ¤ ¤ }", "{ ¤; ¤ }"), ("{ ¤; ", "{ ¤; }"), ("{ ¤ ) }", "{ ¤ }"), ("( { ) }", "({})"), ("[ { ] }", "[{}]"),
        ("for (¤øø;) ;", "for (§;ø¤ø;ø) ;"), ("if (¤)ø", "if (¤)ø;"), ("while (¤)ø", "while (¤)ø;"), ("for (;;)ø", "for (;;)ø;"), ("if (¤) ; elseø", "if (¤) ; elseø;"),
    ]),
    r("import and export", SCRIPT, S, &[
        ("import @ from 'a';", "import('a');"), ("import 'a';", "import('a');"), ("export var @;", "var @;"), ("export default ¤;", "¤;"), ("export {};", "{};"), ("export * from 'a';", "'a';"), ("import {a} from 'a';", "({a, from: 'a'});"), ("import * as @ from 'a';", "import('a').as;"), ("export function @() {}", "function @() {}"), ("export class @ {}", "class @ {}"),
    ]),
    r("import and export", NESTED, S, &[
        ("import @ from 'a';", "import('a');"), ("import 'a';", "import('a');"), ("export var @;", "var @;"), ("export default ¤;", "¤;"), ("export {};", "{};"), ("export * from 'a';", "'a';"), ("import {} from 'a';", "({});"), ("import * as @ from 'a';", "import('a').as;"), ("export const @ = ¤;", "const @ = ¤;"), ("export class @ {}", "class @ {}"), ("export async function @() {}", "async function @() {}"),
    ]),
    r("import and export", ANY, S, &[
        ("{ import 'a'; }", "{ import('a'); }"), ("{ export {}; }", "{ ({}); }"), ("if (¤) import @ from 'a';", "if (¤) import('a');"), ("function @() { export default ¤ }", "function @() { return ¤ }"), ("while (¤) export var @;", "while (¤) var @;"), ("lll: import 'a';", "lll: import('a');"), ("() => { import 'a' }", "() => { import('a') }"), ("try { export * from 'a' } finally {}", "try { 'a' } finally {}"),
        ("switch (¤) { case 1: export {} }", "switch (¤) { case 1: ({}) }"), ("for (;;) { import {} from 'a' }", "for (;;) { }"), ("class @ { a() { export {} } }", "class @ { a() { ({}) } }"), ("{ import * as @ from 'a' }", "{ import('a') }"),
    ]),
    r("shapes of imports", MODULE | TOP, S, &[
        ("import @ 'a';", "import @ from 'a';"), ("import @ from a;", "import @ from 'a';"), ("import @ from;", "import @ from 'a';"), ("import #1, #2 from 'a';", "import #1, {#2} from 'a';"), ("import * from 'a';", "import * as @ from 'a';"), ("import * as 'b' from 'a';", "import * as @ from 'a';"), ("import {@ from 'a';", "import {@} from 'a';"), ("import {,} from 'a';", "import {} from 'a';"),
        ("import {#1 #2} from 'a';", "import {#1, #2} from 'a';"), ("import {a as} from 'a';", "import {a as @} from 'a';"), ("import {as @} from 'a';", "import {as as @} from 'a';"), ("import {default} from 'a';", "import {default as @} from 'a';"), ("import {if} from 'a';", "import {if as @} from 'a';"), ("import {a as if} from 'a';", "import {if as @} from 'a';"), ("import {a as b.c} from 'a';", "import {a as @} from 'a';"),
        ("import {...@} from 'a';", "import {@} from 'a';"), ("import @, * from 'a';", "import #1, * as @ from 'a';"), ("import * as #1, {#2} from 'a';", "import #2, * as #1 from 'a';"), ("import #1, * as #2, {a} from 'a';", "import #1, * as #2 from 'a';"), ("import {#1}, * as #2 from 'a';", "import #1, * as #2 from 'a';"), ("import {#1}, {#2} from 'a';", "import {#1, #2} from 'a';"), ("import * as #1, * as #2 from 'a';", "import #1, * as #2 from 'a';"), ("import #1, {#2}, from 'a';", "import #1, {#2,} from 'a';"), ("import * as #1, from 'a';", "import * as #1 from 'a';"), ("import #1, {a}, {b} from 'a';", "import #1, {a, b} from 'a';"), ("import * as #1, #2 from 'a';", "import #2, * as #1 from 'a';"), ("import {#1}, #2 from 'a';", "import #2, {#1} from 'a';"), ("import @, from 'a';", "import @ from 'a';"), ("import from 'a';", "import @ from 'a';"), ("import {a: @} from 'a';", "import {a as @} from 'a';"), ("import {@} 'a';", "import {@} from 'a';"),
        ("import `a`;", "import 'a';"), ("import ('a') from 'a';", "import('a');"), ("import {#1}, {#2} from 'a';", "import {#1, #2} from 'a';"), ("import @ = ¤;", "import @ from 'a';"), ("import if from 'a';", "import @ from 'a';"), ("import {@ = 1} from 'a';", "import {@} from 'a';"), ("import {@} from 'a' 'b';", "import {@} from 'a'; 'b';"), ("import [@] from 'a';", "import {@} from 'a';"), ("import @ as #1 from 'a';", "import {a as #1} from 'a';"),
        ("import {[a]: @} from 'a';", "import {a as @} from 'a';"), ("import this from 'a';", "import @ from 'a';"), ("import {} from from 'a';", "import from from 'a';"), ("import var @ from 'a';", "import @ from 'a';"),
    ]),
    r("nameless declarations within default exports", MODULE | TOP, S, &[
        ("export default function () { function () {} }", "export default function () { (function () {}) }"), ("export default function () { class {} }", "export default function () { (class {}) }"), ("export default function () { async function () {} }", "export default function () { (async function () {}) }"),
        ("export default function () { function* () {} }", "export default function () { (function* () {}) }"), ("export default async function () { function () {} }", "export default async function () { (function () {}) }"), ("export default async function () { class {} }", "export default async function () { (class {}) }"),
        ("export default async function () { async function () {} }", "export default async function () { (async function () {}) }"), ("export default async function () { function* () {} }", "export default async function () { (function* () {}) }"), ("export default function* () { function () {} }", "export default function* () { (function () {}) }"),
        ("export default function* () { class {} }", "export default function* () { (class {}) }"), ("export default function* () { async function () {} }", "export default function* () { (async function () {}) }"), ("export default function* () { function* () {} }", "export default function* () { (function* () {}) }"),
        ("export default async function* () { function () {} }", "export default async function* () { (function () {}) }"), ("export default async function* () { class {} }", "export default async function* () { (class {}) }"), ("export default async function* () { async function () {} }", "export default async function* () { (async function () {}) }"),
        ("export default async function* () { function* () {} }", "export default async function* () { (function* () {}) }"), ("export default async function @() { function () {} }", "export default async function @() { (function () {}) }"), ("export default async function @() { class {} }", "export default async function @() { (class {}) }"),
        ("export default async function @() { async function () {} }", "export default async function @() { (async function () {}) }"), ("export default async function @() { function* () {} }", "export default async function @() { (function* () {}) }"), ("export default function @() { function () {} }", "export default function @() { (function () {}) }"),
        ("export default function @() { class {} }", "export default function @() { (class {}) }"), ("export default function @() { async function () {} }", "export default function @() { (async function () {}) }"), ("export default function @() { function* () {} }", "export default function @() { (function* () {}) }"),
        ("export default class { a() { function () {} } }", "export default class { a() { (function () {}) } }"), ("export default class @ { static async *a() { function () {} } }", "export default class @ { static async *a() { (function () {}) } }"), ("export default class extends (¤) { constructor() { function () {} } }", "export default class extends (¤) { constructor() { (function () {}) } }"),
        ("export default function (@ = () => { function () {} }) {}", "export default function (@ = () => { (function () {}) }) {}"), ("export default (() => { function () {} });", "export default (() => { (function () {}) });"), ("export default (function () { function () {} });", "export default (function () { (function () {}) });"),
        ("export default {a() { function () {} }};", "export default {a() { (function () {}) }};"), ("export default class { [() => { function () {} }]() {} }", "export default class { [() => { (function () {}) }]() {} }"), ("export default class { a() { class {} } }", "export default class { a() { (class {}) } }"),
        ("export default class @ { static async *a() { class {} } }", "export default class @ { static async *a() { (class {}) } }"), ("export default class extends (¤) { constructor() { class {} } }", "export default class extends (¤) { constructor() { (class {}) } }"), ("export default function (@ = () => { class {} }) {}", "export default function (@ = () => { (class {}) }) {}"),
        ("export default (() => { class {} });", "export default (() => { (class {}) });"), ("export default (function () { class {} });", "export default (function () { (class {}) });"), ("export default {a() { class {} }};", "export default {a() { (class {}) }};"),
        ("export default class { [() => { class {} }]() {} }", "export default class { [() => { (class {}) }]() {} }"), ("export default class { a() { async function* () {} } }", "export default class { a() { (async function* () {}) } }"), ("export default class @ { static async *a() { async function* () {} } }", "export default class @ { static async *a() { (async function* () {}) } }"),
        ("export default class extends (¤) { constructor() { async function* () {} } }", "export default class extends (¤) { constructor() { (async function* () {}) } }"), ("export default function (@ = () => { async function* () {} }) {}", "export default function (@ = () => { (async function* () {}) }) {}"), ("export default (() => { async function* () {} });", "export default (() => { (async function* () {}) });"),
        ("export default (function () { async function* () {} });", "export default (function () { (async function* () {}) });"), ("export default {a() { async function* () {} }};", "export default {a() { (async function* () {}) }};"), ("export default class { [() => { async function* () {} }]() {} }", "export default class { [() => { (async function* () {}) }]() {} }"),
    ]),
    r("shapes of exports", MODULE | TOP, S, &[
        ("export;", "export {};"), ("export ¤;", "export default ¤;"), ("export @;", "export var @;"), ("export {a b} from 'a';", "export {a, b} from 'a';"), ("export {,};", "export {};"), ("export {a as} from 'a';", "export {a as b} from 'a';"), ("export * 'a';", "export * from 'a';"), ("export *;", "export * from 'a';"), ("export * as from 'a';", "export * as @ from 'a';"), ("export {a} from a;", "export {a} from 'a';"), ("export {a} from;", "export {a} from 'a';"),
        ("export {a: b} from 'a';", "export {a as b} from 'a';"), ("export {...a} from 'a';", "export {a} from 'a';"), ("export default;", "export default ¤;"), ("export default var @;", "var @; export default @;"), ("export default let @ = 1;", "let @ = 1; export default @;"), ("export default const @ = 1;", "export default @ => 1;"), ("export default {", "export default {}"), ("export default ¤, ¤;", "export default (¤, ¤);"), ("export default = ¤;", "export default ¤;"),
        ("export * as a, {b} from 'a';", "export * as a from 'a';"), ("export *, {a} from 'a';", "export * from 'a';"), ("export {a}, * from 'a';", "export {a} from 'a';"), ("export * as a, * as b from 'a';", "export * as a from 'a';"), ("export a from 'a';", "export {a} from 'a';"), ("export a, {b} from 'a';", "export {a, b} from 'a';"), ("export var;", "export var @;"), ("export let [@];", "export let [@] = ¤;"), ("export function () {}", "export default function () {}"), ("export class {}", "export default class {}"), ("export async function () {}", "export default async function () {}"), ("export function* () {}", "export default function* () {}"), ("export if (¤) ;", "if (¤) ;"), ("export {a}.b;", "export default {a}.b;"), ("export export {};", "export {};"), ("export default export {};", "export default {};"),
        ("export import @ from 'a';", "import @ from 'a';"), ("export * as a.b from 'a';", "export * as a from 'a';"), ("export async () => ¤;", "export default async () => ¤;"), ("export {a.b} from 'a';", "export {a} from 'a';"), ("export {} 'a';", "export {} from 'a';"), ("export from 'a';", "export * from 'a';"), ("export * as default 'a';", "export * as @ from 'a';"), ("export {a as b c} from 'a';", "export {a as b} from 'a';"), ("export * as [a] from 'a';", "export * as a from 'a';"),
        ("export [a];", "export default [a];"), ("export default class extends {}", "export default class extends § {}"), ("export default function @ {}", "export default function @() {}"), ("export this;", "export default this;"), ("export var this;", "export var @;"), ("export {a}, {b} from 'a';", "export {a, b} from 'a';"),
    ]),
    r("words of literals", ANY, E, &[
        ("1_", "1_0"), ("1__0", "1_0"), ("0_1", "0"), ("01_0", "10"), ("00_1", "1"), ("08_1", "8"), ("0x", "0x0"), ("0xg", "0xf"), ("0b2", "0b1"), ("0b", "0b0"), ("0o8", "0o7"), ("0o", "0o0"), ("1e", "1e1"), ("1e+", "1e+1"), ("1e-", "1e-1"), ("1_e1", "1e1"), ("1e_1", "1e1"), ("1e1_", "1e1"), ("1._0", "1.0"), ("1_.0", "1.0"), ("1.0_", "1.0"), ("0x_1", "0x1"), ("0x1_", "0x1"), ("0b_1", "0b1"), ("0o7__7", "0o7_7"),
        ("3in §", "3 in §"), ("3a", "3"), ("0x1g", "0x1"), ("1.a", "1..a"), ("1.0a", "1.0.a"), ("3$", "3"), ("3_a", "3"), ("0b12", "0b1"), ("0o78", "0o7"), ("1e1a", "1e1"), (".1a", ".1"), ("1.5.5", "1.5"), ("1..5", "1..a"), ("..5", ".5"), (".", ".5"), (".e1", ".0e1"), ("0x1.5", "0x1"), ("0b1.5", "0b1"), ("1ñ", "1"), ("1\\u0061", "1"), ("0xé", "0xe"), ("1_000_", "1_000"), ("._1", ".1"), ("1e1.5", "1e1"), ("0x1e+", "0x1e+1"), ("5..", "5..a"),
        ("'a", "'a'"), ("\"a", "\"a\""), ("'a\"", "'a'"), ("'aøb'", "'a b'"), ("\"aøb\"", "\"a\\\\b\""), ("'a\\", "'a\\\\'"), ("''' ", "'\\''"), ("\"a\"b\"", "\"a\\\"b\""), ("`a", "`a`"), ("`${¤`", "`${¤}`"), ("`${}`", "`${¤}`"), ("`${¤ ¤}`", "`${¤, ¤}`"), ("`a``", "`a` ``"), ("`${§", "`${§}`"), ("`${`}`", "`${``}`"), ("`${;}`", "`${§}`"), ("`${{}`", "`${{}}`"), ("`${{a}", "`${{a}}`"), 
        ("/a", "/a/"), ("/aø/", "/a/"), ("/[/]", "/[/]/"), ("/[aøb]/", "/[ab]/"), ("/\\", "/\\\\/"), ("/aø", "/a/g"), ("/\\ø/", "/\\n/"), ("/[a", "/[a]/"), ("/*", "/**/ §"), ("/* a", "/* a */ §"), ("/*/ §", "/**/ §"), ("#", "§"), ("\\", "§"), ("\\u{110000}", "\\u{61}"), ("\\u0031a", "a\\u0031"), ("\\u{0}", "\\u{61}"), ("a\\u{20}b", "a\\u{62}b"), ("\\u6", "\\u0061"), ("\\x61", "\\u0061"), ("a\\", "a"), ("a\\u{", "a"), ("a\\u002e", "a\\u0030"), ("\\u{61", "\\u{61}"),
        ("\u{200c}", "a\u{200c}c"), ("\u{301}a", "a\u{301}c"), ("a #b", "a .b"), ("a\u{1F600}", "a"), ("\u{b7}a", "a\u{b7}a"), ("§ \u{180e} + 1", "§ \u{2003} + 1"), ("§ \u{200b} + 1", "§ \u{feff} + 1"), ("§ \u{85} + 1", "§ \u{a0} + 1"), ("\u{0}", "§"), ("\u{7f}", "§"), ("‘a’", "'a'"), ("§ × §", "§ * §"), ("§ − §", "§ - §"),
    ]),
];
