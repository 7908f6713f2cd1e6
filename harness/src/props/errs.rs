//! C08 the fault named and pointed at, C09 well-formed errors.

use crate::dict;
use crate::engine::{Kind, Obs, R, Sub};
use crate::mk::{self, Dialect, Opts, ambiguous_space};
use crate::refp::{self, Ast, RPred, Tok, ValueFault};
use crate::src::Src;
use cfg_expr::error::{ParseError, Reason};
use cfg_expr::expr::lexer::Lexer;
use cfg_expr::Expression;
use std::collections::HashMap;
use std::ops::Range;
use std::sync::{Mutex, OnceLock};

pub fn subs() -> Vec<Sub> {
    const LEN: usize = 500;
    vec![
        Sub {
            prop: "C08",
            name: "misplaced",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: LEN },
            both: true,
            rule: "a well-formed token sequence with one token or character inserted where the grammar has no place for it: Unexpected (a closing parenthesis without an open one: UnopenedParens) spanning exactly it, never listing it as expected; non-trivial: all kept cases",
            run: misplaced,
        },
        Sub {
            prop: "C08",
            name: "delimiters",
            kind: Kind::Rand { quick: 200_000, thorough: 25, len: LEN },
            both: true,
            rule: "a formula whose last closing parentheses (one, or up to 40) or last closing quote is missing, or with one closing parenthesis too many: reason and span; non-trivial: all",
            run: delimiters,
        },
        Sub {
            prop: "C08",
            name: "unfinished",
            kind: Kind::Rand { quick: 60_000, thorough: 25, len: LEN },
            both: true,
            rule: "a text which ends behind a keyword or behind key =, possibly within lists: Unexpected at the keyword, listing ( alone, or at the very end, listing a value; non-trivial: all",
            run: unfinished,
        },
        Sub {
            prop: "C08",
            name: "not_operands",
            kind: Kind::Rand { quick: 200_000, thorough: 25, len: LEN },
            both: true,
            rule: "a formula with one not of 0 or 2 to 6 (sometimes up to 600) operands (plain or nested): InvalidNot with the count, from the keyword to its closing parenthesis; non-trivial: all",
            run: not_operands,
        },
        Sub {
            prop: "C08",
            name: "roots",
            kind: Kind::Rand { quick: 150_000, thorough: 25, len: LEN },
            both: true,
            rule: "two to five (sometimes up to 600) formulas separated by commas: MultipleRootPredicates; only white space: Empty; both over the whole text; non-trivial: all",
            run: roots,
        },
        Sub {
            prop: "C08",
            name: "values",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: LEN },
            both: true,
            rule: "a formula with one predicate whose value is missing, forbidden or malformed, or with an unknown target_ key: reason and span; non-trivial: all",
            run: values,
        },
        Sub {
            prop: "C09",
            name: "errors",
            kind: Kind::Rand { quick: 400_000, thorough: 25, len: 700 },
            both: true,
            rule: "arbitrary text, near misses, spoilt formulas, formulas with pieces of other syntaxes, and a part repeated up to 1200 times, by the parser and the tokeniser: original is the text without cfg( ), span ordered, inside and on character boundaries, rendering laid out as documented; non-trivial: rejected",
            run: errors,
        },
        Sub {
            prop: "C09",
            name: "short_strings",
            kind: Kind::Enum { count: |t| (0..=if t { 6u32 } else { 5 }).map(|i| 12u64.pow(i)).sum() },
            both: false,
            rule: "the same for every string of up to 5 (thorough: 6) symbols over { a not all ( ) , = \" blank é target_os # }; non-trivial: rejected",
            run: errors_short,
        },
        Sub {
            prop: "C09",
            name: "made",
            kind: Kind::Rand { quick: 60_000, thorough: 25, len: 700 },
            both: true,
            rule: "an error put together by hand from any text, any span on character boundaries within it and any reason: laid out in the same way, and no two reasons seen in a process read the same; non-trivial: all",
            run: made,
        },
    ]
}

fn small() -> Opts {
    let mut o = mk::opts(Dialect::Full);
    o.budget = 14;
    o.max_depth = 6;
    o
}

fn formula(s: &mut Src, out: &mut Vec<Tok>) -> Ast {
    let a = mk::ast(s, small());
    let commas = *s.pick(&[0, 60]);
    mk::tokens(&a, out, &mut |_| s.chance(commas));
    a
}

struct Laid {
    full: String,
    inner: String,
    spans: Vec<Range<usize>>,
}

fn lay(s: &mut Src, toks: &[Tok]) -> Laid {
    let sp = mk::space(s, Dialect::Full);
    let t = mk::lay(s, toks, sp, Dialect::Full);
    let w = s.chance(80);
    Laid {
        full: if w { t.wrapped() } else { t.inner.clone() },
        inner: t.inner,
        spans: t.spans,
    }
}

fn rejected(l: &Laid) -> Result<ParseError, String> {
    match Expression::parse(&l.full) {
        Ok(_) => Err(format!("{:?} was accepted", l.full)),
        Err(e) => {
            if e.original != l.inner {
                return Err(format!("{:?}: the error carries {:?}", l.full, e.original));
            }
            Ok(e)
        }
    }
}

fn expect(l: &Laid, ok: impl Fn(&Reason) -> bool, want: &str, span: Range<usize>) -> R {
    let e = rejected(l)?;
    if !ok(&e.reason) {
        return Err(format!(
            "{:?} is reported as {:?} at {:?}, should be {want} at {span:?}",
            l.full, e.reason, e.span
        ));
    }
    if e.span != span {
        return Err(format!(
            "{:?}: {:?} is reported at {:?}, should be at {span:?}",
            l.full, e.reason, e.span
        ));
    }
    Ok(())
}

fn listed_as(t: &Tok, list: &[&str]) -> bool {
    let names: Vec<String> = match t {
        Tok::Word(w) if refp::is_kw(w) => vec![w.clone()],
        Tok::Word(w) => vec!["<key>".into(), w.clone()],
        Tok::Val(v) => vec![
            "\"".into(),
            "<value>".into(),
            "\"<value>\"".into(),
            format!("\"{v}\""),
        ],
        t => vec![t.text()],
    };
    names.iter().any(|n| list.contains(&n.as_str()))
}

fn misplaced(s: &mut Src, o: &mut Obs) -> R {
    let mut toks = Vec::new();
    formula(s, &mut toks);
    if s.chance(30) {
        toks.push(Tok::Comma);
    }
    let i = match s.weighted(&[4, 1, 1]) {
        0 => s.below(toks.len() + 1),
        1 => toks.len(),
        _ => 0,
    };
    let bad = if s.chance(70) {
        loop {
            let c = mk::any_char(s);
            if !c.is_whitespace()
                && !ambiguous_space(c)
                && !c.is_ascii_alphabetic()
                && !"=(),\"_".contains(c)
            {
                break Tok::Junk(c);
            }
            if s.left() == 0 {
                break Tok::Junk('#');
            }
        }
    } else {
        mk::any_tok(s, Dialect::Full)
    };
    // is there a place for it?
    let depth = toks[..i].iter().filter(|t| **t == Tok::Open).count()
        - toks[..i].iter().filter(|t| **t == Tok::Close).count();
    #[derive(PartialEq, Debug)]
    enum Say {
        Unexpected,
        Unopened,
        Either,
    }
    let prev = i.checked_sub(1).map(|k| &toks[k]);
    let say = match (&bad, prev) {
        (Tok::Junk(_), _) => Say::Unexpected,
        // where an operand may start
        (t, None | Some(Tok::Open | Tok::Comma)) => match t {
            Tok::Word(_) => return o.skip(),
            Tok::Close if prev.is_none() => Say::Either,
            Tok::Close if depth == 0 => Say::Unopened,
            Tok::Close => return o.skip(), // closes the list, or an empty not
            _ => Say::Unexpected,
        },
        (t, Some(Tok::Word(w))) if refp::is_kw(w) => match t {
            Tok::Open => return o.skip(),
            Tok::Close if depth == 0 => Say::Either,
            _ => Say::Unexpected,
        },
        (t, Some(Tok::Word(_))) => match t {
            Tok::Eq | Tok::Comma => return o.skip(),
            Tok::Close if depth == 0 => Say::Unopened,
            Tok::Close => return o.skip(),
            _ => Say::Unexpected,
        },
        (t, Some(Tok::Eq)) => match t {
            Tok::Val(_) => return o.skip(),
            Tok::Close if depth == 0 => Say::Either,
            _ => Say::Unexpected,
        },
        (t, Some(Tok::Val(_) | Tok::Close)) => match t {
            Tok::Comma => return o.skip(),
            Tok::Close if depth == 0 => Say::Unopened,
            Tok::Close => return o.skip(),
            _ => Say::Unexpected,
        },
        (_, Some(Tok::Junk(_))) => unreachable!(),
    };
    let was = prev.cloned();
    // what can stand there, whatever surrounds it
    let may_follow: &[&str] = match &was {
        None => &["<key>", "all", "any", "not"],
        Some(Tok::Word(w)) if refp::is_kw(w) => &["("],
        Some(Tok::Word(_)) => &["=", ",", ")"],
        Some(Tok::Eq) => &["\"", "\"<value>\"", "<value>"],
        Some(Tok::Open | Tok::Comma) => &["<key>", "all", "any", "not", ")"],
        Some(Tok::Val(_) | Tok::Close | Tok::Junk(_)) => &[",", ")"],
    };
    toks.insert(i, bad.clone());
    if toks[0] == Tok::w("cfg") && toks.get(1) == Some(&Tok::Open) {
        return o.skip();
    }
    let l = lay(s, &toks);
    o.case(format!("{}  [{} after {:?}]", l.full, bad.text(), was.map(|t| t.text())));
    o.nt(true);
    o.compared += 1;
    o.label(match &bad {
        Tok::Junk(c) if c.is_ascii() => "character",
        Tok::Junk(_) => "multi-byte character",
        Tok::Word(w) if refp::is_kw(w) => "keyword",
        Tok::Word(_) => "key",
        Tok::Val(_) => "value",
        Tok::Eq => "=",
        Tok::Open => "(",
        Tok::Close => ")",
        Tok::Comma => ",",
    });
    let span = l.spans[i].clone();
    expect(
        &l,
        |r| match r {
            Reason::Unexpected(_) => say != Say::Unopened,
            Reason::UnopenedParens => say != Say::Unexpected,
            _ => false,
        },
        &format!("{say:?} of {bad:?}"),
        span,
    )?;
    if let Err(ParseError { reason: Reason::Unexpected(list), .. }) = Expression::parse(&l.full) {
        if listed_as(&bad, list) {
            return Err(format!("{:?}: found {bad:?}, expected one of {list:?}", l.full));
        }
        if !matches!(bad, Tok::Junk(_)) {
            if let Some(x) = list.iter().find(|x| !may_follow.contains(x)) {
                return Err(format!("{:?}: {x:?} is listed as expected for {bad:?}, but cannot follow either", l.full));
            }
        }
        if list.is_empty() {
            return Err(format!("{:?}: nothing is listed as expected for {bad:?}", l.full));
        }
    }
    Ok(())
}

/// The text ends behind a keyword, or behind `key =`.
fn unfinished(s: &mut Src, o: &mut Obs) -> R {
    let kw = s.bool();
    let mut toks = Vec::new();
    // what comes before is in order, apart from the lists which break off with it
    let depth = s.weighted(&[3, 3, 2, 1]);
    for _ in 0..depth {
        let f = *s.pick(&["all", "any", "not"]);
        toks.push(Tok::w(f));
        toks.push(Tok::Open);
        for _ in 0..if f == "not" { 0 } else { s.weighted(&[3, 2, 1]) } {
            let mut op = small();
            op.budget = 4;
            op.max_depth = 3;
            let a = mk::ast(s, op);
            mk::tokens(&a, &mut toks, &mut |_| false);
            toks.push(Tok::Comma);
        }
    }
    if kw {
        toks.push(Tok::w(*s.pick(&["all", "any", "not"])));
    } else {
        toks.push(Tok::w(&mk::raw_ident(s)));
        toks.push(Tok::Eq);
    }
    let l = lay(s, &toks);
    o.case(&*l.full);
    o.nt(true);
    o.compared += 1;
    o.label(if kw { "keyword" } else { "key =" });
    let end = l.inner.len();
    let span = if kw { l.spans[toks.len() - 1].clone() } else { end..end };
    expect(&l, |r| matches!(r, Reason::Unexpected(x) if !x.is_empty()), "Unexpected", span)?;
    if let Err(ParseError { reason: Reason::Unexpected(list), .. }) = Expression::parse(&l.full) {
        let ok = if kw { list == &["("][..] } else { list.iter().all(|x| x.starts_with('"')) };
        if !ok {
            return Err(format!("{:?}: expected one of {list:?}", l.full));
        }
    }
    Ok(())
}

fn delimiters(s: &mut Src, o: &mut Obs) -> R {
    let mut toks = Vec::new();
    formula(s, &mut toks);
    o.nt(true);
    o.compared += 1;
    match s.below(3) {
        0 => {
            // no closing parenthesis for the outermost list
            if toks.last() != Some(&Tok::Close) {
                let mut v = vec![Tok::w(*s.pick(&["all", "any", "not"])), Tok::Open];
                v.append(&mut toks);
                toks = v;
            } else {
                toks.pop();
            }
            // several may be missing: the one opened last is pointed at
            let mut more = if s.chance(30) { s.range(1, 40) } else { 0 };
            while more > 0 && toks.last() == Some(&Tok::Close) {
                toks.pop();
                more -= 1;
            }
            for _ in 0..more {
                let mut v = vec![Tok::w(*s.pick(&["all", "any", "not"])), Tok::Open];
                v.append(&mut toks);
                toks = v;
            }
            let mut open = Vec::new();
            for (i, t) in toks.iter().enumerate() {
                match t {
                    Tok::Open => open.push(i),
                    Tok::Close => {
                        open.pop();
                    }
                    _ => {}
                }
            }
            let at = *open.last().expect("one is open");
            let kw = &toks[at - 1];
            if *kw != Tok::w("not") && toks.last() != Some(&Tok::Comma) && toks.last() != Some(&Tok::Open) && s.chance(60) {
                toks.push(Tok::Comma);
            }
            let l = lay(s, &toks);
            o.case(&*l.full);
            o.label(if open.len() > 1 { "several unclosed parentheses" } else { "unclosed parenthesis" });
            let end = l.inner.len();
            expect(&l, |r| *r == Reason::UnclosedParens, "UnclosedParens", l.spans[at].start..end)
        }
        1 => {
            let l = {
                toks.push(Tok::Close);
                lay(s, &toks)
            };
            o.case(&*l.full);
            o.label("unopened parenthesis");
            let at = l.spans[toks.len() - 1].clone();
            expect(&l, |r| *r == Reason::UnopenedParens, "UnopenedParens", at)
        }
        _ => {
            // put a value somewhere if there is none
            if !toks.iter().any(|t| matches!(t, Tok::Val(_))) {
                let Some(i) = toks.iter().position(Tok::is_key) else {
                    return o.skip();
                };
                toks[i] = Tok::w("k");
                toks.insert(i + 1, Tok::Eq);
                toks.insert(i + 2, Tok::Val(mk::value(s, Dialect::Full)));
            }
            let i = toks.iter().rposition(|t| matches!(t, Tok::Val(_))).expect("value");
            let mut l = lay(s, &toks);
            let close = l.spans[i].end - 1;
            let wrapped = l.full.len() != l.inner.len();
            l.inner.remove(close);
            if s.bool() {
                // nothing behind it either
                l.inner.truncate(close);
            }
            l.full = if wrapped { format!("cfg({})", l.inner) } else { l.inner.clone() };
            o.case(&*l.full);
            o.label("unclosed quote");
            let span = l.spans[i].start..l.inner.len();
            expect(&l, |r| *r == Reason::UnclosedQuotes, "UnclosedQuotes", span)
        }
    }
}

/// Tokens of a formula in which one plain predicate is replaced by `sub`, and
/// where that begins.
fn graft(s: &mut Src, sub: &[Tok]) -> (Vec<Tok>, usize) {
    const MARK: &str = "__here__";
    let mut a = mk::ast(s, small());
    fn leaves(a: &Ast) -> usize {
        a.leaf_vec().len()
    }
    fn mark(a: &mut Ast, k: &mut isize) {
        match a {
            Ast::P(p) => {
                if *k == 0 {
                    *p = RPred::flag(MARK);
                }
                *k -= 1;
            }
            Ast::All(v) | Ast::Any(v) => v.iter_mut().for_each(|x| mark(x, k)),
            Ast::Not(x) => mark(x, k),
        }
    }
    let n = leaves(&a);
    if n == 0 || s.chance(40) {
        a = Ast::P(RPred::flag(MARK));
    } else {
        let mut k = s.below(n) as isize;
        mark(&mut a, &mut k);
    }
    let mut toks = Vec::new();
    let commas = *s.pick(&[0, 60]);
    mk::tokens(&a, &mut toks, &mut |_| s.chance(commas));
    if s.chance(25) {
        toks.push(Tok::Comma);
    }
    let i = toks.iter().position(|t| *t == Tok::w(MARK)).expect("mark");
    toks.splice(i..=i, sub.iter().cloned());
    (toks, i)
}

fn not_operands(s: &mut Src, o: &mut Obs) -> R {
    let many = s.chance(3);
    let n = if many { dict::size(s, 600).max(2) } else { *s.pick(&[0, 2, 2, 3, 4, 6]) };
    let mut sub = vec![Tok::w("not"), Tok::Open];
    for i in 0..n {
        if i > 0 {
            sub.push(Tok::Comma);
        }
        let mut op = small();
        op.budget = 4;
        op.max_depth = 3;
        let a = if many { Ast::P(mk::pred(s, Dialect::Full, None)) } else { mk::ast(s, op) };
        mk::tokens(&a, &mut sub, &mut |_| false);
    }
    if n > 0 && s.chance(50) {
        sub.push(Tok::Comma);
    }
    sub.push(Tok::Close);
    let (toks, i) = graft(s, &sub);
    let l = lay(s, &toks);
    o.case(&*l.full);
    o.nt(true);
    o.compared += 1;
    o.label(if n == 0 { "none" } else { "several" });
    let span = l.spans[i].start..l.spans[i + sub.len() - 1].end;
    expect(&l, |r| *r == Reason::InvalidNot(n), &format!("InvalidNot({n})"), span)
}

fn roots(s: &mut Src, o: &mut Obs) -> R {
    o.nt(true);
    o.compared += 1;
    let mut toks = Vec::new();
    if s.chance(30) {
        let l = lay(s, &toks);
        o.case(format!("{:?}", l.full));
        o.label("empty");
        let end = l.inner.len();
        return expect(&l, |r| *r == Reason::Empty, "Empty", 0..end);
    }
    let many = s.chance(3);
    let n = if many { dict::size(s, 600).max(2) } else { s.range(2, 5) };
    for i in 0..n {
        if i > 0 {
            toks.push(Tok::Comma);
        }
        let mut op = small();
        op.budget = 4;
        op.max_depth = 3;
        let a = if many || s.bool() { Ast::P(mk::pred(s, Dialect::Full, None)) } else { mk::ast(s, op) };
        mk::tokens(&a, &mut toks, &mut |_| false);
    }
    if s.chance(60) {
        toks.push(Tok::Comma);
    }
    let l = lay(s, &toks);
    o.case(&*l.full);
    o.label("several");
    let end = l.inner.len();
    expect(&l, |r| *r == Reason::MultipleRootPredicates, "MultipleRootPredicates", 0..end)
}

fn bad_number(s: &mut Src, max: u64) -> String {
    loop {
        let v = match s.below(6) {
            0 => (max + 1 + s.below(1000) as u64).to_string(),
            1 => format!("{}{}", s.pick(&["+", "-", "0", "00", " ", "0x"]), s.below(200)),
            2 => format!("{}{}", s.below(200), s.pick(&[" ", "u", "_", ".0", "ptr", "\n", "é"])),
            3 => mk::value(s, Dialect::Full),
            4 => (*s.pick(&["", "ptrs", "Ptr", "pt", "99999999999999999999999", "-0", "+0"])).to_owned(),
            _ => s.u64().to_string(),
        };
        if v != "ptr" && !refp::canonical_uint(&v, max) {
            return v;
        }
    }
}

fn values(s: &mut Src, o: &mut Obs) -> R {
    let p = match s.below(7) {
        0 => RPred::kv(*s.pick(refp::NO_VALUE), mk::value(s, Dialect::Full)),
        1 => {
            let k = s.below(refp::TARGET_KEYS.len() + 2);
            RPred::flag(match k {
                0 => "feature",
                1 => "panic",
                k => refp::TARGET_KEYS[k - 2],
            })
        }
        2 => {
            let near = {
                let base = *s.pick(refp::TARGET_KEYS);
                mk::word_near(s, base)
            };
            let k = if near.starts_with("target_") && !refp::TARGET_KEYS.contains(&&*near) {
                near
            } else {
                format!("target_{}", *s.pick(&["x", "", "triple", "thread_local", "Os", "os_", "has_atomic_load_store", "archs"]))
            };
            RPred::kv(k, mk::value(s, Dialect::Full))
        }
        3 => RPred::kv("target_feature", ""),
        4 => {
            let v = if s.bool() {
                mk::value(s, Dialect::Full)
            } else {
                (*s.pick(&["", "Big", "Little", "bigg", "littl", "big ", " little", "LE", "middle"])).to_owned()
            };
            let v = if v == "big" || v == "little" { format!("{v}x") } else { v };
            RPred::kv("target_endian", v)
        }
        5 => RPred::kv("target_has_atomic", bad_number(s, 65535)),
        _ => {
            let v = if s.chance(30) { "ptr".to_owned() } else { bad_number(s, 255) };
            RPred::kv("target_pointer_width", v)
        }
    };
    let Err(fault) = refp::check_pred(&p) else {
        return o.skip();
    };
    let mut sub = Vec::new();
    mk::tokens(&Ast::P(p.clone()), &mut sub, &mut |_| false);
    let (toks, i) = graft(s, &sub);
    let l = lay(s, &toks);
    o.case(&*l.full);
    o.nt(true);
    o.compared += 1;
    let key = l.spans[i].clone();
    let quoted = p.val.as_ref().map(|_| l.spans[i + 2].clone());
    let e = rejected(&l)?;
    let (at_key, ok, want) = match fault {
        ValueFault::Forbidden => (false, matches!(e.reason, Reason::Unexpected(_)), "Unexpected"),
        ValueFault::Missing | ValueFault::UnknownTargetKey => {
            (true, matches!(e.reason, Reason::Unexpected(_)), "Unexpected")
        }
        ValueFault::EmptyTargetFeature | ValueFault::BadEndian => {
            (false, matches!(e.reason, Reason::Unexpected(_)), "Unexpected")
        }
        ValueFault::BadAtomic => (false, e.reason == Reason::InvalidHasAtomic, "InvalidHasAtomic"),
        ValueFault::BadWidth => (false, e.reason == Reason::InvalidInteger, "InvalidInteger"),
    };
    o.label(match fault {
        ValueFault::Forbidden => "forbidden value",
        ValueFault::Missing => "missing value",
        ValueFault::UnknownTargetKey => "unknown target_ key",
        ValueFault::EmptyTargetFeature => "empty target_feature",
        ValueFault::BadEndian => "bad target_endian",
        ValueFault::BadAtomic => "bad target_has_atomic",
        ValueFault::BadWidth => "bad target_pointer_width",
    });
    if !ok {
        return Err(format!("{:?}: {fault:?} is reported as {:?}, should be {want}", l.full, e.reason));
    }
    if at_key {
        if e.span != key {
            return Err(format!("{:?}: {fault:?} is reported at {:?}, the key is at {key:?}", l.full, e.span));
        }
    } else {
        let q = quoted.expect("has a value");
        // the value, with or without its quotes
        if e.span != q && e.span != (q.start + 1..q.end - 1) {
            return Err(format!("{:?}: {fault:?} is reported at {:?}, the value is at {q:?}", l.full, e.span));
        }
    }
    if let Reason::Unexpected(list) = e.reason {
        if fault == ValueFault::UnknownTargetKey {
            let mut names = list.to_vec();
            names.sort_unstable();
            let mut known = refp::TARGET_KEYS.to_vec();
            known.sort_unstable();
            if names != known {
                return Err(format!("{:?}: the known keys are {known:?}, listed are {names:?}", l.full));
            }
        }
        let found = if at_key && fault == ValueFault::UnknownTargetKey { Some(p.key.as_str()) } else { p.val.as_deref() };
        if found.is_some_and(|f| list.contains(&f)) {
            return Err(format!("{:?}: found {found:?}, expected one of {list:?}", l.full));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn well_formed(e: &ParseError, t: &str, by: &str) -> R {
    let inner = refp::strip(t);
    if e.original != inner {
        return Err(format!("{by} {t:?}: the error carries {:?}", e.original));
    }
    let sp = e.span.clone();
    if sp.start > sp.end || e.original.get(sp.clone()).is_none() {
        return Err(format!("{by} {t:?}: span {sp:?} ({:?})", e.reason));
    }
    let _ = &e.original[sp.clone()];
    rendering(e, &format!("{by} {t:?}"))
}

/// What each reason seen so far reads as.
fn readings() -> &'static Mutex<HashMap<String, String>> {
    static B: OnceLock<Mutex<HashMap<String, String>>> = OnceLock::new();
    B.get_or_init(Mutex::default)
}

/// The form of an error's text.
fn rendering(e: &ParseError, by: &str) -> R {
    let (inner, sp) = (e.original.as_str(), e.span.clone());
    let shown = e.to_string();
    let single = inner.is_ascii() && !inner.contains(['\n', '\r', '\u{b}', '\u{c}']);
    let reason = e.reason.to_string();
    if single {
        let marks = match &e.reason {
            Reason::UnclosedParens | Reason::UnclosedQuotes => "-".to_owned(),
            Reason::UnopenedParens | Reason::UnopenedQuotes => "^".to_owned(),
            _ => "^".repeat(sp.len()),
        };
        let want = format!("{inner}\n{}{marks} {reason}", " ".repeat(sp.start));
        if shown != want {
            return Err(format!("{by}: rendered as {shown:?}, should be {want:?}"));
        }
    } else if !shown.starts_with(inner)
        || !shown[inner.len()..].starts_with('\n')
        || !shown.ends_with(&reason)
    {
        return Err(format!("{by}: rendered as {shown:?}"));
    }
    let mut rest = reason.as_str();
    if let Reason::Unexpected(list) = &e.reason {
        // every alternative, in order
        for x in *list {
            let Some(i) = rest.find(x) else {
                return Err(format!("{by}: {x:?} of {list:?} is not shown in {reason:?}"));
            };
            rest = &rest[i + x.len()..];
        }
    }
    if let Reason::InvalidNot(n) = &e.reason {
        if !reason.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()) {
            return Err(format!("{by}: the number {n} of operands is not shown in {reason:?}"));
        }
    }
    let this = format!("{:?}", e.reason);
    let mut book = readings().lock().unwrap_or_else(|p| p.into_inner());
    if let Some(other) = book.get(&reason) {
        if *other != this {
            return Err(format!("{by}: {this} reads the same as {other}: {reason:?}"));
        }
    } else if book.len() < 20_000 {
        book.insert(reason.clone(), this);
    }
    if reason.is_empty() || reason.contains('\n') {
        return Err(format!("{by}: reason rendered as {reason:?}"));
    }
    Ok(())
}

fn check_errors(t: &str, o: &mut Obs) -> R {
    if let Err(e) = Expression::parse(t) {
        o.nt(true);
        o.compared += 1;
        o.label(match &e.reason {
            Reason::InvalidNot(_) => "InvalidNot",
            Reason::InvalidCharacters => "InvalidCharacters",
            Reason::UnclosedParens => "UnclosedParens",
            Reason::UnopenedParens => "UnopenedParens",
            Reason::UnclosedQuotes => "UnclosedQuotes",
            Reason::UnopenedQuotes => "UnopenedQuotes",
            Reason::Empty => "Empty",
            Reason::Unexpected(_) => "Unexpected",
            Reason::InvalidInteger => "InvalidInteger",
            Reason::MultipleRootPredicates => "MultipleRootPredicates",
            Reason::InvalidHasAtomic => "InvalidHasAtomic",
            Reason::UnknownBuiltin => "UnknownBuiltin",
        });
        well_formed(&e, t, "parsing")?;
    }
    if let Some(Err(e)) = Lexer::new(t).find(Result::is_err) {
        well_formed(&e, t, "tokenising")?;
    }
    Ok(())
}

fn errors(s: &mut Src, o: &mut Obs) -> R {
    let t = match s.weighted(&[20, 20, 20, 1, 15]) {
        0 => mk::any_text(s),
        4 => mk::foreign(s),
        3 => {
            // large numbers
            let n = dict::size(s, 1200);
            let x = *s.pick(&["a", "a,", "a = \"\",", "not(a),", "é,", ",", "(", ")", "unix,"]);
            let f = *s.pick(&["not(", "cfg(not(", "any(b,not(", "", "all("]);
            format!("{f}{}{}", x.repeat(n), *s.pick(&["", ")", "))", "a", "a)"]))
        }
        1 => {
            let toks = mk::soup(s, Dialect::Full);
            let sp = mk::space(s, Dialect::Full);
            let t = mk::lay(s, &toks, sp, Dialect::Full);
            if s.chance(60) { t.wrapped() } else { t.inner }
        }
        _ => {
            let mut toks = Vec::new();
            formula(s, &mut toks);
            let l = lay(s, &toks);
            let mut v: Vec<char> = l.full.chars().collect();
            for _ in 0..s.range(1, 2) {
                let i = s.below(v.len());
                match s.below(4) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.insert(i, mk::any_char(s)),
                    2 => v[i] = mk::any_char(s),
                    _ => v.truncate(i),
                }
                if v.is_empty() {
                    break;
                }
            }
            v.into_iter().collect()
        }
    };
    o.case(&*t);
    check_errors(&t, o)
}

/// An error made by hand of any parts.
fn made(s: &mut Src, o: &mut Obs) -> R {
    const WORDS: &[&str] = &["<key>", "all", "any", "not", "(", ")", ",", "=", "\"", "<value>", "target_os", "= \"<feature_name>\"", "big", "x"];
    let k = s.below(12);
    let reason = match k {
        0 => Reason::InvalidNot(if s.bool() { dict::size(s, 100_000) } else { s.u64() as usize }),
        1 => Reason::InvalidCharacters,
        2 => Reason::UnclosedParens,
        3 => Reason::UnopenedParens,
        4 => Reason::UnclosedQuotes,
        5 => Reason::UnopenedQuotes,
        6 => Reason::Empty,
        7 => Reason::InvalidInteger,
        8 => Reason::MultipleRootPredicates,
        9 => Reason::InvalidHasAtomic,
        10 => Reason::UnknownBuiltin,
        _ => {
            // few different ones, as they are kept
            let v: Vec<&'static str> = (0..s.below(4)).map(|_| *s.pick(WORDS)).collect();
            Reason::Unexpected(kept(v))
        }
    };
    let original = match s.weighted(&[3, 2, 2, 1]) {
        0 => (0..s.below(60)).map(|_| char::from(32 + s.u8() % 95)).collect(),
        1 => mk::any_text(s),
        2 => mk::case(s, mk::opts(Dialect::Full)).full(),
        _ => {
            let n = dict::size(s, 70_000);
            "x".repeat(n)
        }
    };
    let mut at = [s.u32() as usize % (original.len() + 1), s.u32() as usize % (original.len() + 1)];
    at.sort_unstable();
    for p in &mut at {
        while !original.is_char_boundary(*p) {
            *p -= 1;
        }
    }
    let e = ParseError { original, span: at[0]..at[1], reason };
    o.case(format!("{e:?}"));
    o.nt(true);
    o.compared += 1;
    rendering(&e, "an error made by hand")
}

/// One list for all which are the same.
fn kept(v: Vec<&'static str>) -> &'static [&'static str] {
    static B: OnceLock<Mutex<HashMap<Vec<&'static str>, &'static [&'static str]>>> = OnceLock::new();
    let mut b = B.get_or_init(Mutex::default).lock().unwrap_or_else(|p| p.into_inner());
    b.entry(v.clone()).or_insert_with(|| v.leak())
}

const SYM: &[&str] = &[
    "a", "not", "all", "(", ")", ",", "=", "\"", " ", "é", "target_os", "#",
];

fn errors_short(s: &mut Src, o: &mut Obs) -> R {
    let mut i = s.u64();
    let k = SYM.len() as u64;
    let mut len = 0;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut t = String::new();
    for _ in 0..len {
        t.insert_str(0, SYM[(i % k) as usize]);
        i /= k;
    }
    o.case(&*t);
    check_errors(&t, o)?;
    check_errors(&format!("cfg({t})"), o)
}
