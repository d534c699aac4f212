//! Traversal: every node once, in source order, with enter and exit properly nested.

use super::common::*;
use super::tree::ALL_FOCUS;
use crate::engine::*;
use crate::layout::Style;
use crate::src::{mix, Src};
use fajt_ast::traverse::{TraceVisitor, Traverse, Visitor};
use fajt_ast::*;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

/// The nodes of the tree and their parts in source order, see schema.txt.
struct Schema {
    types: HashMap<&'static str, Type>,
}

struct Type {
    is_enum: bool,
    event: &'static str,
    parts: Vec<(&'static str, &'static str)>,
}

fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut types = HashMap::new();
        for line in include_str!("../schema.txt").lines() {
            let mut w = line.split(' ');
            let kind = w.next().unwrap();
            let name = w.next().unwrap();
            let event = w.next().unwrap();
            let parts = w.filter(|p| !p.is_empty()).map(|p| p.split_once(':').unwrap()).collect();
            types.insert(name, Type { is_enum: kind == "enum", event, parts });
        }
        Schema { types }
    })
}

fn is_operator(ty: &str) -> bool {
    ty.ends_with("Operator")
}

#[derive(PartialEq, Clone, Debug)]
enum Event {
    Enter(&'static str),
    Exit(&'static str),
    Leaf(String),
}

/// What a traversal does at a node.
#[derive(Clone, Copy)]
struct Plan {
    seed: u64,
    /// One in so many nodes is not descended into, 0 for none.
    skip: u64,
    mode: Mode,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Look,
    Rename,
    /// Replaces literals when they are entered.
    ReplaceOnEnter,
    /// Replaces literals when they are left.
    ReplaceOnExit,
}

impl Plan {
    fn skips(&self, k: u64) -> bool {
        self.skip > 0 && mix(self.seed, k) % self.skip == 0
    }
}

fn renamed(name: &str) -> String {
    format!("r_{name}")
}

/// The reference: walks the serialized tree.
struct Model {
    plan: Plan,
    count: u64,
    events: Vec<Event>,
    operators: BTreeMap<&'static str, usize>,
}

impl Model {
    fn walk(&mut self, ty: &str, v: &mut Value) {
        match v {
            Value::Null => {}
            Value::Array(a) => a.iter_mut().for_each(|x| self.walk(ty, x)),
            _ => self.node(ty, v),
        }
    }

    fn node(&mut self, ty: &str, v: &mut Value) {
        let t = &schema().types[ty];
        if is_operator(ty) {
            *self.operators.entry(t.event).or_default() += 1;
            return;
        }
        self.events.push(Event::Enter(t.event));
        match ty {
            "Ident" => {
                self.events.push(Event::Leaf(v["name"].as_str().unwrap().to_owned()));
                if self.plan.mode == Mode::Rename {
                    v["name"] = Value::String(renamed(v["name"].as_str().unwrap()));
                }
            }
            "LitNumber" => self.events.push(Event::Leaf(v["raw"].as_str().unwrap().to_owned())),
            "LitString" => self.events.push(Event::Leaf(v["value"].as_str().unwrap().to_owned())),
            _ => {}
        }
        if ty == "Expr" && self.plan.mode == Mode::ReplaceOnEnter && is_replaced(v) {
            *v = replacement();
        }
        let descend = !self.plan.skips(self.count);
        self.count += 1;
        if descend {
            if t.is_enum {
                if let Value::Object(o) = v {
                    let (variant, payload) = o.iter_mut().next().unwrap();
                    if let Some((_, sub)) = t.parts.iter().find(|(n, _)| n == variant) {
                        self.walk(sub, payload);
                    }
                }
            } else {
                for (field, sub) in &t.parts {
                    if let Some(x) = v.get_mut(*field) {
                        self.walk(sub, x);
                    }
                }
            }
        }
        if ty == "Expr" && self.plan.mode == Mode::ReplaceOnExit && is_replaced(v) {
            *v = replacement();
        }
        self.events.push(Event::Exit(t.event));
    }
}

fn is_replaced(v: &Value) -> bool {
    v.get("Literal").is_some()
}

fn replacement() -> Value {
    serde_json::json!({"IdentRef": {"span": "7:9", "name": "new"}})
}

struct Recorder {
    plan: Plan,
    count: u64,
    events: Vec<Event>,
    operators: BTreeMap<&'static str, usize>,
}

impl Recorder {
    fn enter_node(&mut self, event: &'static str, leaf: Option<String>) -> bool {
        self.events.push(Event::Enter(event));
        if let Some(l) = leaf {
            self.events.push(Event::Leaf(l));
        }
        let descend = !self.plan.skips(self.count);
        self.count += 1;
        descend
    }

    fn exit_node(&mut self, event: &'static str) {
        self.events.push(Event::Exit(event));
    }
}

macro_rules! recorder {
    (nodes { $($enter:ident $exit:ident $ty:ty;)* } operators { $($oenter:ident $oexit:ident $oty:ty;)* }) => {
        impl Visitor for Recorder {
            $(
                fn $enter(&mut self, _node: &mut $ty) -> bool {
                    self.enter_node(&stringify!($enter)[6..], None)
                }
                fn $exit(&mut self, _node: &mut $ty) {
                    self.exit_node(&stringify!($exit)[5..])
                }
            )*
            $(
                fn $oenter(&mut self, _node: &mut $oty) -> bool {
                    *self.operators.entry(&stringify!($oenter)[6..]).or_default() += 1;
                    true
                }
            )*
            fn enter_ident(&mut self, node: &mut Ident) -> bool {
                let leaf = node.name.clone();
                if self.plan.mode == Mode::Rename {
                    node.name = renamed(&node.name);
                }
                self.enter_node("ident", Some(leaf))
            }
            fn exit_ident(&mut self, _node: &mut Ident) {
                self.exit_node("ident")
            }
            fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
                let leaf = node.raw.clone();
                self.enter_node("number_literal", Some(leaf))
            }
            fn exit_number_literal(&mut self, _node: &mut LitNumber) {
                self.exit_node("number_literal")
            }
            fn enter_string_literal(&mut self, node: &mut LitString) -> bool {
                let leaf = node.value.clone();
                self.enter_node("string_literal", Some(leaf))
            }
            fn exit_string_literal(&mut self, _node: &mut LitString) {
                self.exit_node("string_literal")
            }
            fn enter_expr(&mut self, node: &mut Expr) -> bool {
                if self.plan.mode == Mode::ReplaceOnEnter && matches!(node, Expr::Literal(_)) {
                    *node = Expr::IdentRef(Ident::new("new", (7, 9)));
                }
                self.enter_node("expr", None)
            }
            fn exit_expr(&mut self, node: &mut Expr) {
                if self.plan.mode == Mode::ReplaceOnExit && matches!(node, Expr::Literal(_)) {
                    *node = Expr::IdentRef(Ident::new("new", (7, 9)));
                }
                self.exit_node("expr")
            }
        }
    };
}

recorder! {
    nodes {
        enter_program exit_program Program;
        enter_stmt exit_stmt Stmt;
        enter_binding_pattern exit_binding_pattern BindingPattern;
        enter_literal exit_literal Literal;
        enter_template_part exit_template_part TemplatePart;
        enter_object_binding_prop exit_object_binding_prop ObjectBindingProp;
        enter_property_name exit_property_name PropertyName;
        enter_class_element exit_class_element ClassElement;
        enter_for_init exit_for_init ForInit;
        enter_for_declaration exit_for_declaration ForDeclaration;
        enter_callee exit_callee Callee;
        enter_argument exit_argument Argument;
        enter_member_object exit_member_object MemberObject;
        enter_super exit_super Super;
        enter_member_property exit_member_property MemberProperty;
        enter_array_element exit_array_element ArrayElement;
        enter_arrow_function_body exit_arrow_function_body ArrowFunctionBody;
        enter_property_definition exit_property_definition PropertyDefinition;
        enter_export exit_export DeclExport;
        enter_pattern_or_expr exit_pattern_or_expr PatternOrExpr;
        enter_assignment_pattern exit_assignment_pattern AssignmentPattern;
        enter_assignment_prop exit_assignment_prop AssignmentProp;
        enter_function_decl exit_function_decl DeclFunction;
        enter_class_decl exit_class_decl DeclClass;
        enter_import exit_import DeclImport;
        enter_stmt_expr exit_stmt_expr StmtExpr;
        enter_block_stmt exit_block_stmt StmtBlock;
        enter_binary_expr exit_binary_expr ExprBinary;
        enter_logical_expr exit_logical_expr ExprLogical;
        enter_unary_expr exit_unary_expr ExprUnary;
        enter_call_expr exit_call_expr ExprCall;
        enter_member_expr exit_member_expr ExprMember;
        enter_optional_member_expr exit_optional_member_expr ExprOptionalMember;
        enter_optional_call_expr exit_optional_call_expr ExprOptionalCall;
        enter_parenthesized_expr exit_parenthesized_expr ExprParenthesized;
        enter_literal_expr exit_literal_expr ExprLiteral;
        enter_assignment_expr exit_assignment_expr ExprAssignment;
        enter_yield_expr exit_yield_expr ExprYield;
        enter_conditional_expr exit_conditional_expr ExprConditional;
        enter_update_expr exit_update_expr ExprUpdate;
        enter_sequence_expr exit_sequence_expr ExprSequence;
        enter_this_expr exit_this_expr ExprThis;
        enter_function_expr exit_function_expr ExprFunction;
        enter_new_expr exit_new_expr ExprNew;
        enter_arrow_function exit_arrow_function ExprArrowFunction;
        enter_await_expr exit_await_expr ExprAwait;
        enter_meta_property exit_meta_property ExprMetaProperty;
        enter_class_expr exit_class_expr ExprClass;
        enter_return_stmt exit_return_stmt StmtReturn;
        enter_variable_stmt exit_variable_stmt StmtVariable;
        enter_empty_statement exit_empty_statement StmtEmpty;
        enter_try_stmt exit_try_stmt StmtTry;
        enter_debugger_stmt exit_debugger_stmt StmtDebugger;
        enter_throw_stmt exit_throw_stmt StmtThrow;
        enter_labeled_stmt exit_labeled_stmt StmtLabeled;
        enter_with_stmt exit_with_stmt StmtWith;
        enter_continue_stmt exit_continue_stmt StmtContinue;
        enter_break_stmt exit_break_stmt StmtBreak;
        enter_switch_stmt exit_switch_stmt StmtSwitch;
        enter_if_stmt exit_if_stmt StmtIf;
        enter_for_stmt exit_for_stmt StmtFor;
        enter_for_of_stmt exit_for_of_stmt StmtForOf;
        enter_for_in_stmt exit_for_in_stmt StmtForIn;
        enter_while_stmt exit_while_stmt StmtWhile;
        enter_do_while_stmt exit_do_while_stmt StmtDoWhile;
        enter_stmt_list exit_stmt_list StmtList<Stmt>;
        enter_binding_element exit_binding_element BindingElement;
        enter_formal_parameters exit_formal_parameters FormalParameters;
        enter_variable_declaration exit_variable_declaration VariableDeclaration;
        enter_template_literal exit_template_literal LitTemplate;
        enter_array_literal exit_array_literal LitArray;
        enter_object_literal exit_object_literal LitObject;
        enter_array_binding exit_array_binding ArrayBinding;
        enter_array_assignment_pattern exit_array_assignment_pattern ArrayAssignmentPattern;
        enter_assignment_element exit_assignment_element AssignmentElement;
        enter_object_assignment_pattern exit_object_assignment_pattern ObjectAssignmentPattern;
        enter_single_name_assignment_prop exit_single_name_assignment_prop SingleNameAssignmentProp;
        enter_named_assignment_prop exit_named_assignment_prop NamedAssignmentProp;
        enter_object_binding exit_object_binding ObjectBinding;
        enter_single_name_binding exit_single_name_binding SingleNameBinding;
        enter_named_binding exit_named_binding NamedBinding;
        enter_named_property exit_named_property NamedProperty;
        enter_method_definition exit_method_definition MethodDefinition;
        enter_catch_clause exit_catch_clause CatchClause;
        enter_switch_case exit_switch_case SwitchCase;
        enter_export_decl exit_export_decl ExportDecl;
        enter_export_default_decl exit_export_default_decl ExportDefaultDecl;
        enter_export_default_expr exit_export_default_expr ExportDefaultExpr;
        enter_tagged_template_expr exit_tagged_template_expr ExprTaggedTemplate;
        enter_export_named exit_export_named ExportNamed;
        enter_export_namespace exit_export_namespace ExportNamespace;
        enter_named_export exit_named_export NamedExport;
        enter_named_import exit_named_import NamedImport;
        enter_body exit_body Body;
        enter_for_binding exit_for_binding ForBinding;
    }
    operators {
        enter_binary_operator exit_binary_operator BinaryOperator;
        enter_logical_operator exit_logical_operator LogicalOperator;
        enter_assignment_operator exit_assignment_operator AssignmentOperator;
        enter_unary_operator exit_unary_operator UnaryOperator;
        enter_update_operator exit_update_operator UpdateOperator;
    }
}

/// All names in the tree with their positions.
fn names(v: &Value, out: &mut Vec<(usize, String)>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| names(x, out)),
        Value::Object(o) => {
            if let (2, Some(Value::String(n)), Some(Value::String(s))) = (o.len(), o.get("name"), o.get("span")) {
                out.push((s.split(':').next().unwrap().parse().unwrap(), n.clone()));
            } else {
                o.values().for_each(|x| names(x, out));
            }
        }
        _ => {}
    }
}

struct Names(Vec<(usize, String)>);

impl Visitor for Names {
    fn enter_ident(&mut self, node: &mut Ident) -> bool {
        self.0.push((node.span.start, node.name.clone()));
        true
    }
}

fn context(events: &[Event], at: usize) -> String {
    let from = at.saturating_sub(6);
    events[from..(at + 3).min(events.len())].iter().map(|e| format!("{e:?}")).collect::<Vec<_>>().join(" ")
}

fn traversal(src: &mut Src, info: &mut Info, idx: u64) -> CaseResult {
    let module = src.chance(1, 3);
    let focus = ALL_FOCUS[src.below(ALL_FOCUS.len())];
    let prog = Prog::generate(src, module, focus, fuel(idx, 60));
    let laid = prog.lay(src, Style::Spaced, false);
    prog.classify(info);
    info.set(&laid.text, prog.toks.len() > 4);
    let mut tree = must_accept(&laid.text, module, "a valid program")?;
    let input = describe(&laid.text, module);
    let before = tree_of(&tree);

    // Everything is seen in the order of the source.
    let mut seen = Names(vec![]);
    guard(&input, || tree.traverse(&mut seen))?;
    let mut expected = vec![];
    names(&before, &mut expected);
    let mut sorted = expected.clone();
    sorted.sort();
    let mut got = seen.0.clone();
    got.sort();
    if got != sorted {
        let missing: Vec<_> = sorted.iter().filter(|x| !got.contains(x)).collect();
        return Err(Fail::new(format!("names visited differ: not visited {missing:?}, or visited more than once"), input));
    }
    if let Some(w) = seen.0.windows(2).find(|w| w[0].0 > w[1].0) {
        return Err(Fail::new(format!("order of visits is not that of the source: {:?} before {:?}", w[0], w[1]), input));
    }
    if tree_of(&tree) != before {
        return Err(Fail::new("tree changes by looking at it", input));
    }

    // The whole sequence of events.
    let mode = [Mode::Look, Mode::Rename, Mode::ReplaceOnEnter, Mode::ReplaceOnExit][src.below(4)];
    let skip = [0, 3, 10, 40][src.below(4)];
    let plan = Plan { seed: src.below(1000) as u64, skip, mode };
    info.class_if(skip > 0, "parts are skipped");
    info.class_if(mode != Mode::Look, "the tree is changed");
    let mut model = Model { plan, count: 0, events: vec![], operators: BTreeMap::new() };
    let mut after = before.clone();
    model.walk("Program", &mut after);
    let mut rec = Recorder { plan, count: 0, events: vec![], operators: BTreeMap::new() };
    guard(&input, || tree.traverse(&mut rec))?;
    if rec.events != model.events {
        let at = (0..).find(|&i| rec.events.get(i) != model.events.get(i)).unwrap();
        return Err(Fail::new(
            format!("visits differ at event {at}: expected {} got {}", context(&model.events, at), context(&rec.events, at)),
            input,
        ));
    }
    if rec.operators != model.operators {
        return Err(Fail::new(format!("operators visited differ: expected {:?} got {:?}", model.operators, rec.operators), input));
    }
    if let Some(d) = diff(&after, &tree_of(&tree), &mut String::new(), Spans::Compare) {
        return Err(Fail::new(format!("tree after a changing traversal differs: {d}"), input));
    }

    // The visitor which comes with the crate.
    let mut full = Model { plan: Plan { seed: 0, skip: 0, mode: Mode::Look }, count: 0, events: vec![], operators: BTreeMap::new() };
    full.walk("Program", &mut after);
    let mut trace = TraceVisitor::new();
    guard(&input, || tree.traverse(&mut trace))?;
    let expected: Vec<String> = full
        .events
        .iter()
        .filter_map(|e| match e {
            Event::Enter(n) => Some(format!("enter_{n}")),
            Event::Exit(n) => Some(format!("exit_{n}")),
            Event::Leaf(_) => None,
        })
        .collect();
    let got: Vec<&str> = trace.visits.iter().copied().filter(|v| !v.ends_with("_operator")).collect();
    if expected != got {
        let at = (0..).find(|&i| expected.get(i).map(|s| s.as_str()) != got.get(i).copied()).unwrap();
        return Err(Fail::new(
            format!("trace differs at {at}: expected {:?} got {:?}", expected.get(at), got.get(at)),
            input,
        ));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P19",
        rule: "the tree of a generated program (more than 4 tokens) is traversed: looked at, skipped in part, and changed",
        quick: 300_000,
        thorough: 5_000_000,
        run: traversal,
        fixed: None,
        assumptions: &["operators are visited once, their place among the parts of an expression is not compared"],
        slow: false,
    }]
}
