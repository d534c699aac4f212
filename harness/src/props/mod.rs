pub mod common;
pub mod asi;
pub mod cli;
pub mod codegen;
pub mod diag;
pub mod early;
pub mod grammar;
pub mod format;
pub mod lexer;
pub mod macros;
pub mod markdown;
pub mod names;
pub mod rules;
pub mod tree;
pub mod traverse;
pub mod trivia;
pub mod whole;

use crate::engine::Property;

pub fn all() -> &'static [Property] {
    let mut v = vec![];
    v.extend(tree::properties());
    v.extend(trivia::properties());
    v.extend(asi::properties());
    v.extend(traverse::properties());
    v.extend(codegen::properties());
    v.extend(format::properties());
    v.extend(lexer::properties());
    v.extend(macros::properties());
    v.extend(markdown::properties());
    v.extend(names::properties());
    v.extend(whole::properties());
    v.extend(cli::properties());
    v.extend(grammar::properties());
    v.extend(early::properties());
    v.extend(diag::properties());
    Box::leak(v.into_boxed_slice())
}
