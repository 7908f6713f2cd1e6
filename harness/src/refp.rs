//! The reference model: an independent tokeniser, recursive-descent parser and
//! evaluator of cfg predicates, written from the grammar in the Rust reference
//! and the strictness rules cfg-expr documents.

use cfg_expr::{Predicate, TargetPredicate};
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Word(String),
    Val(String),
    Eq,
    Open,
    Close,
    Comma,
    /// A character which starts no token
    Junk(char),
}

impl Tok {
    pub fn text(&self) -> String {
        match self {
            Tok::Word(w) => w.clone(),
            Tok::Val(v) => format!("\"{v}\""),
            Tok::Eq => "=".into(),
            Tok::Open => "(".into(),
            Tok::Close => ")".into(),
            Tok::Comma => ",".into(),
            Tok::Junk(c) => c.to_string(),
        }
    }
    pub fn w(s: &str) -> Self {
        Tok::Word(s.to_owned())
    }
    pub fn is_kw(&self) -> bool {
        matches!(self, Tok::Word(w) if is_kw(w))
    }
    pub fn is_key(&self) -> bool {
        matches!(self, Tok::Word(w) if !is_kw(w))
    }
}

pub fn is_kw(w: &str) -> bool {
    matches!(w, "all" | "any" | "not")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RPred {
    pub key: String,
    pub val: Option<String>,
}

impl RPred {
    pub fn flag(k: impl Into<String>) -> Self {
        Self {
            key: k.into(),
            val: None,
        }
    }
    pub fn kv(k: impl Into<String>, v: impl Into<String>) -> Self {
        Self {
            key: k.into(),
            val: Some(v.into()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ast {
    P(RPred),
    All(Vec<Ast>),
    Any(Vec<Ast>),
    Not(Box<Ast>),
}

/// What is left after removing an enclosing `cfg( )`.
pub fn strip(t: &str) -> &str {
    if t.starts_with("cfg(") && t.ends_with(')') {
        &t[4..t.len() - 1]
    } else {
        t
    }
}

fn ident_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
fn ident_rest(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

/// How a text tokenises.
#[derive(Debug)]
pub struct Lexed {
    pub toks: Vec<(Tok, Range<usize>)>,
    /// The first lexing fault, if any.
    pub bad: Option<LexFault>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum LexFault {
    UnclosedQuote(Range<usize>),
    Junk(Range<usize>),
}

/// Tokenise the stripped text.
pub fn lex(t: &str) -> Lexed {
    let b: Vec<(usize, char)> = t.char_indices().collect();
    let mut toks = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let (at, c) = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        match c {
            '=' => toks.push((Tok::Eq, at..at + 1)),
            '(' => toks.push((Tok::Open, at..at + 1)),
            ')' => toks.push((Tok::Close, at..at + 1)),
            ',' => toks.push((Tok::Comma, at..at + 1)),
            '"' => {
                let mut j = i + 1;
                while j < b.len() && b[j].1 != '"' {
                    j += 1;
                }
                if j == b.len() {
                    return Lexed {
                        toks,
                        bad: Some(LexFault::UnclosedQuote(at..t.len())),
                    };
                }
                let s: String = b[i + 1..j].iter().map(|x| x.1).collect();
                toks.push((Tok::Val(s), at..b[j].0 + 1));
                i = j;
            }
            c if ident_start(c) => {
                let mut j = i + 1;
                while j < b.len() && ident_rest(b[j].1) {
                    j += 1;
                }
                let s: String = b[i..j].iter().map(|x| x.1).collect();
                let l = s.len();
                toks.push((Tok::Word(s), at..at + l));
                i = j - 1;
            }
            c => {
                return Lexed {
                    toks,
                    bad: Some(LexFault::Junk(at..at + c.len_utf8())),
                };
            }
        }
        i += 1;
    }
    Lexed { toks, bad: None }
}

/// Canonical decimal form of a number up to `max`.
pub fn canonical_uint(s: &str, max: u64) -> bool {
    if s.is_empty() || s.len() > 6 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    if s.len() > 1 && s.starts_with('0') {
        return false;
    }
    s.bytes().fold(0u64, |a, b| a * 10 + u64::from(b - b'0')) <= max
}

pub const NO_VALUE: &[&str] = &["unix", "windows", "test", "debug_assertions", "proc_macro"];
pub const TARGET_KEYS: &[&str] = &[
    "target_abi",
    "target_arch",
    "target_endian",
    "target_env",
    "target_family",
    "target_feature",
    "target_has_atomic",
    "target_os",
    "target_pointer_width",
    "target_vendor",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ValueFault {
    Forbidden,
    Missing,
    UnknownTargetKey,
    EmptyTargetFeature,
    BadEndian,
    BadAtomic,
    BadWidth,
}

/// The strictness rules on one predicate.
pub fn check_pred(p: &RPred) -> Result<(), ValueFault> {
    let k = p.key.as_str();
    let Some(v) = p.val.as_deref() else {
        return if k == "feature" || k == "panic" || k.starts_with("target_") {
            Err(ValueFault::Missing)
        } else {
            Ok(())
        };
    };
    if NO_VALUE.contains(&k) {
        return Err(ValueFault::Forbidden);
    }
    if k.starts_with("target_") {
        if !TARGET_KEYS.contains(&k) {
            return Err(ValueFault::UnknownTargetKey);
        }
        match k {
            "target_feature" if v.is_empty() => return Err(ValueFault::EmptyTargetFeature),
            "target_endian" if v != "big" && v != "little" => return Err(ValueFault::BadEndian),
            "target_has_atomic" if v != "ptr" && !canonical_uint(v, 65535) => {
                return Err(ValueFault::BadAtomic);
            }
            "target_pointer_width" if !canonical_uint(v, 255) => return Err(ValueFault::BadWidth),
            _ => {}
        }
    }
    Ok(())
}

struct P<'a> {
    t: &'a [(Tok, Range<usize>)],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|x| &x.0)
    }
    fn eat(&mut self, t: &Tok) -> Option<()> {
        if self.peek() == Some(t) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn pred(&mut self) -> Option<Ast> {
        let w = match self.peek() {
            Some(Tok::Word(w)) => w.clone(),
            _ => return None,
        };
        self.i += 1;
        match w.as_str() {
            "all" | "any" => {
                self.eat(&Tok::Open)?;
                let mut v = Vec::new();
                loop {
                    if self.eat(&Tok::Close).is_some() {
                        break;
                    }
                    v.push(self.pred()?);
                    if self.eat(&Tok::Comma).is_none() {
                        self.eat(&Tok::Close)?;
                        break;
                    }
                }
                Some(if w == "all" { Ast::All(v) } else { Ast::Any(v) })
            }
            "not" => {
                self.eat(&Tok::Open)?;
                let x = self.pred()?;
                let _ = self.eat(&Tok::Comma);
                self.eat(&Tok::Close)?;
                Some(Ast::Not(Box::new(x)))
            }
            _ => {
                let val = if self.eat(&Tok::Eq).is_some() {
                    match self.peek() {
                        Some(Tok::Val(v)) => {
                            let v = v.clone();
                            self.i += 1;
                            Some(v)
                        }
                        _ => return None,
                    }
                } else {
                    None
                };
                let p = RPred { key: w, val };
                check_pred(&p).ok()?;
                Some(Ast::P(p))
            }
        }
    }
}

/// The formula written in `text` (with or without an enclosing `cfg( )`), or
/// `None` when it is not one.
pub fn parse(text: &str) -> Option<Ast> {
    let l = lex(strip(text));
    if l.bad.is_some() {
        return None;
    }
    parse_toks(&l.toks)
}

pub fn parse_toks(toks: &[(Tok, Range<usize>)]) -> Option<Ast> {
    let mut p = P { t: toks, i: 0 };
    let a = p.pred()?;
    let _ = p.eat(&Tok::Comma);
    (p.i == toks.len()).then_some(a)
}

impl Ast {
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a RPred>) {
        match self {
            Ast::P(p) => out.push(p),
            Ast::All(v) | Ast::Any(v) => v.iter().for_each(|x| x.leaves(out)),
            Ast::Not(x) => x.leaves(out),
        }
    }
    pub fn leaf_vec(&self) -> Vec<&RPred> {
        let mut v = Vec::new();
        self.leaves(&mut v);
        v
    }
    pub fn bool(&self, f: &mut impl FnMut(&RPred) -> bool) -> bool {
        match self {
            Ast::P(p) => f(p),
            // no short circuit: the callback sees every leaf
            Ast::All(v) => v.iter().fold(true, |a, x| x.bool(f) & a),
            Ast::Any(v) => v.iter().fold(false, |a, x| x.bool(f) | a),
            Ast::Not(x) => !x.bool(f),
        }
    }
    /// Strong Kleene: 0 false, 1 unknown, 2 true; all is min, any is max.
    pub fn kleene(&self, f: &mut impl FnMut(&RPred) -> Option<bool>) -> Option<bool> {
        fn go(a: &Ast, f: &mut impl FnMut(&RPred) -> Option<bool>) -> u8 {
            match a {
                Ast::P(p) => match f(p) {
                    Some(false) => 0,
                    None => 1,
                    Some(true) => 2,
                },
                Ast::All(v) => v.iter().fold(2, |m, x| go(x, f).min(m)),
                Ast::Any(v) => v.iter().fold(0, |m, x| go(x, f).max(m)),
                Ast::Not(x) => 2 - go(x, f),
            }
        }
        match go(self, f) {
            0 => Some(false),
            1 => None,
            _ => Some(true),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ast::P(_) => 0,
            Ast::All(v) | Ast::Any(v) => 1 + v.iter().map(Ast::depth).max().unwrap_or(0),
            Ast::Not(x) => 1 + x.depth(),
        }
    }
    pub fn max_fan(&self) -> usize {
        match self {
            Ast::P(_) => 0,
            Ast::All(v) | Ast::Any(v) => v
                .iter()
                .map(Ast::max_fan)
                .max()
                .unwrap_or(0)
                .max(v.len()),
            Ast::Not(x) => x.max_fan().max(1),
        }
    }
    pub fn funcs(&self) -> usize {
        match self {
            Ast::P(_) => 0,
            Ast::All(v) | Ast::Any(v) => 1 + v.iter().map(Ast::funcs).sum::<usize>(),
            Ast::Not(x) => 1 + x.funcs(),
        }
    }
    /// Some list holds both plain and nested operands.
    pub fn mixed(&self) -> bool {
        match self {
            Ast::P(_) => false,
            Ast::All(v) | Ast::Any(v) => {
                (v.iter().any(|x| matches!(x, Ast::P(_)))
                    && v.iter().any(|x| !matches!(x, Ast::P(_))))
                    || v.iter().any(Ast::mixed)
            }
            Ast::Not(x) => x.mixed(),
        }
    }
}

/// A reported predicate, as owned texts.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct XP {
    pub kind: &'static str,
    pub key: String,
    pub val: Option<String>,
}

/// The classification a written predicate must get.
pub fn classify(p: &RPred) -> XP {
    let v = p.val.clone();
    let (kind, key, val) = match p.key.as_str() {
        "unix" | "windows" => ("family", String::new(), Some(p.key.clone())),
        "test" => ("test", String::new(), None),
        "debug_assertions" => ("debug_assertions", String::new(), None),
        "proc_macro" => ("proc_macro", String::new(), None),
        "feature" => ("feature", String::new(), v),
        "panic" => ("panic", String::new(), v),
        "target_abi" => ("abi", String::new(), v),
        "target_arch" => ("arch", String::new(), v),
        "target_endian" => ("endian", String::new(), v),
        "target_env" => ("env", String::new(), v),
        "target_family" => ("family", String::new(), v),
        "target_feature" => ("target_feature", String::new(), v),
        "target_has_atomic" => ("has_atomic", String::new(), v),
        "target_os" => ("os", String::new(), v),
        "target_pointer_width" => ("pointer_width", String::new(), v),
        "target_vendor" => ("vendor", String::new(), v),
        _ => match v {
            None => ("flag", p.key.clone(), None),
            Some(v) => ("key_value", p.key.clone(), Some(v)),
        },
    };
    XP { kind, key, val }
}

/// The same view of a predicate cfg-expr reports.
pub fn reported(p: &Predicate<'_>) -> XP {
    let none = String::new();
    let (kind, key, val) = match p {
        Predicate::Target(tp) => {
            let (k, v) = match tp {
                TargetPredicate::Abi(x) => ("abi", x.as_str().to_owned()),
                TargetPredicate::Arch(x) => ("arch", x.as_str().to_owned()),
                TargetPredicate::Endian(x) => (
                    "endian",
                    match x {
                        cfg_expr::targets::Endian::big => "big".to_owned(),
                        cfg_expr::targets::Endian::little => "little".to_owned(),
                    },
                ),
                TargetPredicate::Env(x) => ("env", x.as_str().to_owned()),
                TargetPredicate::Family(x) => ("family", x.as_str().to_owned()),
                TargetPredicate::HasAtomic(x) => (
                    "has_atomic",
                    match x {
                        cfg_expr::targets::HasAtomic::IntegerSize(n) => n.to_string(),
                        cfg_expr::targets::HasAtomic::Pointer => "ptr".to_owned(),
                        _ => "?".to_owned(),
                    },
                ),
                TargetPredicate::Os(x) => ("os", x.as_str().to_owned()),
                TargetPredicate::Panic(x) => ("panic", x.as_str().to_owned()),
                TargetPredicate::PointerWidth(x) => ("pointer_width", x.to_string()),
                TargetPredicate::Vendor(x) => ("vendor", x.as_str().to_owned()),
            };
            (k, none, Some(v))
        }
        Predicate::Test => ("test", none, None),
        Predicate::DebugAssertions => ("debug_assertions", none, None),
        Predicate::ProcMacro => ("proc_macro", none, None),
        Predicate::Feature(f) => ("feature", none, Some((*f).to_owned())),
        Predicate::TargetFeature(f) => ("target_feature", none, Some((*f).to_owned())),
        Predicate::Flag(f) => ("flag", (*f).to_owned(), None),
        Predicate::KeyValue { key, val } => ("key_value", (*key).to_owned(), Some((*val).to_owned())),
    };
    XP { kind, key, val }
}
