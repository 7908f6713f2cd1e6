//! C26: descriptions, predicates, tokens and errors are told apart by all their parts.

use crate::engine::{Kind, Obs, R, Sub};
use crate::mk::{self, Dialect};
use crate::props::tgt::{self, Facts, alike};
use crate::refp::{self, Ast, RPred, reported};
use crate::src::Src;
use cfg_expr::error::{ParseError, Reason};
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::targets::{ALL_BUILTINS, TargetInfo};
use cfg_expr::{Expression, Predicate};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C26",
            name: "descriptions",
            kind: Kind::Rand { quick: 60_000, thorough: 30, len: 700 },
            both: true,
            rule: "three to eight target descriptions, made from one (builtin or random) by changing at most two fields each (to another value, by one character, or exchanged with another field), some repeated from owned texts: equality, order and hash of every pair, transitivity, and how many of them sorting, hash and tree collections tell apart, against their field texts; non-trivial: two are equal and two differ",
            run: descriptions,
        },
        Sub {
            prop: "C26",
            name: "predicates",
            kind: Kind::Rand { quick: 100_000, thorough: 30, len: 400 },
            both: true,
            rule: "two formulas over one small pool of look-alike predicates: every listed predicate of the one compared with every one of the other, and with predicates of every kind built by hand from the same texts; non-trivial: an equal pair and a different one",
            run: predicates,
        },
        Sub {
            prop: "C26",
            name: "errors",
            kind: Kind::Rand { quick: 100_000, thorough: 30, len: 400 },
            both: true,
            rule: "two errors differing in at most one of text, span, reason, its operand count or one expected alternative, the errors of two similar texts, and the tokens of two similar texts: equal exactly if all parts are; non-trivial: all",
            run: errors,
        },
    ]
}

fn set_of<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v
}

/// The parts, sets in one order.
fn canon(f: &Facts) -> Facts {
    let mut f = f.clone();
    f.families = set_of(&f.families);
    f.atomics = set_of(&f.atomics);
    f
}

/// Texts moved from one field to another, or changed a little.
fn across(s: &mut Src, f: &mut Facts) {
    if s.chance(60) {
        match s.below(3) {
            0 => one_off(s, &mut f.triple),
            1 => one_off(s, &mut f.arch),
            _ => one_off(s, &mut f.panic),
        }
        return;
    }
    if s.chance(60) {
        let k = s.below(3);
        match (k, f.atomics.first().copied().flatten()) {
            (0, Some(n)) => f.atomics[0] = Some(n ^ (1 << s.below(16))),
            (1, _) if !f.families.is_empty() => {
                let i = s.below(f.families.len());
                let mut t = f.families[i].clone();
                one_off(s, &mut t);
                f.families[i] = t;
            }
            _ => f.width ^= 1 << s.below(8),
        }
        return;
    }
    let mut v = [f.os.take(), f.abi.take(), f.env.take(), f.vendor.take()];
    let (i, j) = (s.below(4), s.below(4));
    match s.below(4) {
        0 => v.swap(i, j),
        1 => v[i] = match v[i].take() {
            Some(t) if t.is_empty() => None,
            Some(_) | None => Some(String::new()),
        },
        2 => {
            // the last character goes to the next one
            let c = v[i].as_mut().and_then(String::pop);
            if let (Some(c), Some(t)) = (c, v[(i + 1) % 4].as_mut()) {
                t.insert(0, c);
            }
        }
        _ => {
            if let Some(t) = &mut v[i] {
                one_off(s, t);
            }
        }
    }
    let [os, abi, env, vendor] = v;
    (f.os, f.abi, f.env, f.vendor) = (os, abi, env, vendor);
}

fn descriptions(s: &mut Src, o: &mut Obs) -> R {
    let mut base = if s.bool() { tgt::facts_of(&ALL_BUILTINS[s.below(ALL_BUILTINS.len())]) } else { tgt::gen_facts(s) };
    base = canon(&base);
    let n = s.range(3, 8);
    let mut all: Vec<Facts> = vec![base.clone()];
    while all.len() < n {
        let mut f = s.pick(&all).clone();
        for _ in 0..s.weighted(&[2, 5, 1]) {
            let other = if s.bool() { tgt::gen_facts(s) } else { s.pick(tgt::table()).clone() };
            if s.chance(60) {
                across(s, &mut f);
            } else {
                tgt::swap_field(&mut f, other, s.below(11));
            }
        }
        all.push(canon(&f));
    }
    let infos: Vec<TargetInfo> = all
        .iter()
        .map(|f| {
            // the very builtin, where it is one
            match ALL_BUILTINS.iter().find(|t| t.triple.as_str() == f.triple) {
                Some(t) if s.bool() && canon(&tgt::facts_of(t)) == *f => t.clone(),
                _ => {
                    let mut g = f.clone();
                    s.shuffle(&mut g.families);
                    s.shuffle(&mut g.atomics);
                    tgt::build(&g)
                }
            }
        })
        .collect();
    let mut distinct: Vec<&Facts> = Vec::new();
    for f in &all {
        if !distinct.contains(&f) {
            distinct.push(f);
        }
    }
    o.case(format!("{} of {} different: {:?}", distinct.len(), all.len(), all[1]));
    o.nt(distinct.len() > 1 && distinct.len() < all.len());
    for (i, a) in infos.iter().enumerate() {
        for (j, b) in infos.iter().enumerate() {
            o.compared += 1;
            alike(&format!("{:?} and {:?}", all[i], all[j]), a, b, all[i] == all[j])?;
            let by_triple = all[i].triple.cmp(&all[j].triple);
            if by_triple != Ordering::Equal && a.cmp(b) != by_triple {
                return Err(format!("{:?} and {:?} do not compare as their triples", all[i].triple, all[j].triple));
            }
            for c in &infos {
                if a <= b && b <= c && !(a <= c) {
                    return Err(format!("the order of these is not transitive: {a:?} {b:?} {c:?}"));
                }
            }
        }
    }
    let n = distinct.len();
    let mut sorted: Vec<&TargetInfo> = infos.iter().collect();
    sorted.sort();
    sorted.dedup();
    let hashed: HashSet<&TargetInfo> = infos.iter().collect();
    let tree: BTreeSet<TargetInfo> = infos.iter().cloned().collect();
    let map: HashMap<TargetInfo, usize> = infos.iter().cloned().zip(0..).collect();
    let kept: BTreeMap<&TargetInfo, usize> = infos.iter().zip(0..).collect();
    let got = [sorted.len(), hashed.len(), tree.len(), map.len(), kept.len()];
    if got.iter().any(|g| *g != n) {
        return Err(format!("{n} different descriptions are {got:?} to Vec, HashSet, BTreeSet, HashMap, BTreeMap: {all:?}"));
    }
    for (i, t) in infos.iter().enumerate() {
        let last = all.iter().rposition(|f| *f == all[i]);
        if map.get(t).copied() != last || kept.get(t).copied() != last {
            return Err(format!("{:?} is not found under its own key: {all:?}", all[i]));
        }
    }
    Ok(())
}

/// One character changed, doubled, left out or in the other case.
fn one_off(s: &mut Src, t: &mut String) {
    let mut v: Vec<char> = t.chars().collect();
    if v.is_empty() {
        t.push('a');
        return;
    }
    let i = if s.bool() { v.len() - 1 - s.below(v.len().min(4)) } else { s.below(v.len()) };
    match s.below(5) {
        0 => v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
        1 => v[i] = *s.pick(&['a', 'b', '0', '_']),
        2 => v.insert(i, v[i]),
        3 => {
            v.remove(i);
        }
        _ => {
            let j = s.below(v.len());
            v.swap(i, j);
        }
    }
    *t = v.into_iter().collect();
}

/// A predicate a little different.
fn near(s: &mut Src, p: &RPred) -> RPred {
    let mut q = p.clone();
    match s.below(8) {
        5 => {
            // the same characters, parted elsewhere
            if let Some(v) = &mut q.val {
                if s.bool() {
                    if let Some(c) = v.chars().next() {
                        v.remove(0);
                        q.key.push(c);
                    }
                } else if q.key.chars().count() > 1 {
                    if let Some(c) = q.key.pop() {
                        v.insert(0, c);
                    }
                }
            } else {
                q = RPred::kv(q.key, String::new());
            }
        }
        6 => {
            // key and value exchanged
            if let Some(v) = q.val.take() {
                q = RPred::kv(v, q.key);
            }
        }
        7 => match &mut q.val {
            Some(v) => one_off(s, v),
            None => one_off(s, &mut q.key),
        },
        0 => q = mk::pred(s, Dialect::Full, None),
        1 => {
            let keys = ["target_os", "target_env", "target_abi", "target_arch", "target_vendor", "target_family", "panic", "feature", "target_feature", "other"];
            q = RPred::kv(*s.pick(&keys), q.val.unwrap_or_else(|| "linux".into()));
        }
        2 => {
            if let Some(v) = &mut q.val {
                if s.bool() {
                    v.push(' ');
                } else {
                    *v = v.to_uppercase();
                }
            } else {
                q.key = format!("{}_", q.key);
            }
        }
        3 => {
            q = match q.key.as_str() {
                "unix" => RPred::kv("target_family", "unix"),
                "target_pointer_width" => RPred::kv("target_has_atomic", q.val.unwrap_or_default()),
                "target_has_atomic" => RPred::kv("target_pointer_width", "8"),
                _ => RPred::flag(q.val.filter(|v| !v.is_empty()).unwrap_or(q.key)),
            }
        }
        _ => q = RPred::kv(q.key, (*s.pick(&["", "8", "16", "ptr", "big", "little", "unix", "x"])).to_owned()),
    }
    let text = match &q.val {
        Some(v) => format!("{} = \"{v}\"", q.key),
        None => q.key.clone(),
    };
    if refp::parse(&text) == Some(Ast::P(q.clone())) { q } else { p.clone() }
}

fn predicates(s: &mut Src, o: &mut Obs) -> R {
    let mut pool = vec![mk::pred(s, Dialect::Full, None)];
    for _ in 0..s.range(1, 4) {
        let p = s.pick(&pool).clone();
        pool.push(near(s, &p));
    }
    let text = |s: &mut Src| {
        let v: Vec<Ast> = (0..s.range(1, 5)).map(|_| Ast::P(s.pick(&pool).clone())).collect();
        let a = if s.bool() { Ast::All(v) } else { Ast::Any(v) };
        mk::case_of(s, a, Dialect::Full).full()
    };
    let (ta, tb) = (text(s), text(s));
    o.case(format!("{ta}   {tb}"));
    let (Ok(a), Ok(b)) = (Expression::parse(&ta), Expression::parse(&tb)) else { return o.skip() };
    let (pa, pb): (Vec<Predicate<'_>>, Vec<Predicate<'_>>) = (a.predicates().collect(), b.predicates().collect());
    let (mut same, mut other) = (false, false);
    for x in &pa {
        for y in &pb {
            o.compared += 1;
            let want = reported(x) == reported(y);
            same |= want;
            other |= !want;
            #[allow(clippy::nonminimal_bool)]
            if (x == y) != want || (y == x) != want || (x != y) == want {
                return Err(format!("{x:?} of {ta:?} and {y:?} of {tb:?} are equal: {}, should be {want}", x == y));
            }
            if let (Predicate::Target(x), Predicate::Target(y)) = (x, y) {
                if (x == y) != want || (x != y) == want || (x.clone() == *y) != want {
                    return Err(format!("{x:?} and {y:?} are equal: {}, should be {want}", x == y));
                }
                let mut c = x.clone();
                c.clone_from(y);
                if c != *y || reported(&Predicate::Target(c)) != reported(&Predicate::Target(y.clone())) {
                    return Err(format!("{y:?} cloned into {x:?} differs"));
                }
            }
        }
    }
    // ones which are made by hand altogether
    let made: Vec<Predicate<'_>> = pool
        .iter()
        .flat_map(|p| {
            let v = p.val.as_deref().unwrap_or("");
            let mut m = vec![
                Predicate::Flag(&p.key),
                Predicate::Flag(v),
                Predicate::Feature(v),
                Predicate::TargetFeature(v),
                Predicate::KeyValue { key: &p.key, val: v },
                Predicate::KeyValue { key: v, val: &p.key },
                Predicate::Test,
                Predicate::DebugAssertions,
                Predicate::ProcMacro,
            ];
            for k in ["target_os", "target_env", "target_abi", "target_arch", "target_vendor", "target_family", "panic", &p.key] {
                m.extend(tgt::tp_of(k, v).map(Predicate::Target));
            }
            m
        })
        .collect();
    for _ in 0..24 {
        let (x, y) = (s.pick(&made), s.pick(&made));
        o.compared += 1;
        let want = reported(x) == reported(y);
        if (x == y) != want || (x != y) == want {
            return Err(format!("{x:?} and {y:?} are equal: {}, should be {want}", x == y));
        }
    }
    // against ones made by hand
    for p in &pool {
        let Some(tp) = tgt::tp_of(&p.key, p.val.as_deref().unwrap_or("")) else { continue };
        let made = Predicate::Target(tp);
        for x in pa.iter().chain(&pb) {
            let want = reported(x) == reported(&made);
            if (*x == made) != want || (made == *x) != want {
                return Err(format!("{x:?} and {made:?} are equal: {}, should be {want}", *x == made));
            }
        }
    }
    o.nt(same && other);
    Ok(())
}

const WORDS: &[&str] = &["<key>", "all", "any", "not", "(", ")", ",", "=", "\"", "", "<value>", "ALL"];

/// The parts of a reason: which, number, alternatives.
type Parts = (usize, usize, Vec<&'static str>);

fn reason(p: &Parts) -> Reason {
    match p.0 {
        0 => Reason::InvalidNot(p.1),
        1 => Reason::InvalidCharacters,
        2 => Reason::UnclosedParens,
        3 => Reason::UnopenedParens,
        4 => Reason::UnclosedQuotes,
        5 => Reason::UnopenedQuotes,
        6 => Reason::Empty,
        7 => Reason::InvalidInteger,
        8 => Reason::MultipleRootPredicates,
        9 => Reason::InvalidHasAtomic,
        10 => Reason::UnknownBuiltin,
        _ => Reason::Unexpected(p.2.clone().leak()),
    }
}

fn parts(r: &Reason) -> Parts {
    match r {
        Reason::InvalidNot(n) => (0, *n, vec![]),
        Reason::InvalidCharacters => (1, 0, vec![]),
        Reason::UnclosedParens => (2, 0, vec![]),
        Reason::UnopenedParens => (3, 0, vec![]),
        Reason::UnclosedQuotes => (4, 0, vec![]),
        Reason::UnopenedQuotes => (5, 0, vec![]),
        Reason::Empty => (6, 0, vec![]),
        Reason::InvalidInteger => (7, 0, vec![]),
        Reason::MultipleRootPredicates => (8, 0, vec![]),
        Reason::InvalidHasAtomic => (9, 0, vec![]),
        Reason::UnknownBuiltin => (10, 0, vec![]),
        Reason::Unexpected(l) => (11, 0, l.to_vec()),
    }
}

fn same_error(a: &ParseError, b: &ParseError) -> R {
    let want = a.original == b.original && a.span == b.span && parts(&a.reason) == parts(&b.reason);
    #[allow(clippy::nonminimal_bool)]
    if (a == b) != want || (b == a) != want || (a != b) == want {
        return Err(format!("{a:?} and {b:?} are equal: {}, should be {want}", a == b));
    }
    Ok(())
}

fn errors(s: &mut Src, o: &mut Obs) -> R {
    o.nt(true);
    let mk_parts = |s: &mut Src| -> Parts {
        let k = if s.bool() { s.below(11) } else { 11 };
        (k, if k == 0 { s.below(400) } else { 0 }, if k == 11 { (0..s.below(5)).map(|_| *s.pick(WORDS)).collect() } else { vec![] })
    };
    let text: String = (0..s.below(20)).map(|_| mk::any_char(s)).collect();
    let r = mk_parts(s);
    let start = s.below(30);
    let a = (text.clone(), start..start + s.below(5), r.clone());
    let mut b = a.clone();
    match s.below(8) {
        0 => {}
        7 => one_off(s, &mut b.0),
        1 => b.0.push(' '),
        2 => b.1.start += 1,
        3 => b.1.end += 1,
        4 => b.2 = mk_parts(s),
        5 => match b.2.2.len() {
            0 => b.2.1 += usize::from(b.2.0 == 0),
            n => b.2.2[s.below(n)] = *s.pick(WORDS),
        },
        _ => {
            if b.2.0 == 11 {
                b.2.2.push(*s.pick(WORDS));
            }
        }
    }
    o.case(format!("{a:?} and {b:?}"));
    let make = |p: &(String, std::ops::Range<usize>, Parts)| ParseError {
        original: p.0.clone(),
        span: p.1.clone(),
        reason: reason(&p.2),
    };
    let (x, y) = (make(&a), make(&b));
    o.compared += 2;
    o.label(if a == b { "equal" } else { "different" });
    if (x == y) != (a == b) || (x.reason == y.reason) != (a.2 == b.2) {
        return Err(format!("{x:?} and {y:?} are equal: {}, should be {}", x == y, a == b));
    }
    same_error(&x, &y)?;
    // of two similar texts
    let ta = mk::any_text(s);
    let mut c: Vec<char> = ta.chars().collect();
    let i = s.below(c.len() + 1);
    match s.below(4) {
        0 => c.insert(i, *s.pick(&[' ', ',', '(', ')', '"', 'a'])),
        1 => c.push(*s.pick(&[' ', ',', ')', '"', 'a'])),
        2 if i < c.len() => {
            c.remove(i);
        }
        _ => {}
    }
    let tb: String = c.into_iter().collect();
    if let (Err(x), Err(y)) = (Expression::parse(&ta), Expression::parse(&tb)) {
        o.compared += 1;
        same_error(&x, &y)?;
        same_error(&x, &Expression::parse(&ta).expect_err("rejected before"))?;
    }
    let la: Vec<Token<'_>> = Lexer::new(&ta).map_while(Result::ok).map(|t| t.token).take(12).collect();
    let lb: Vec<Token<'_>> = Lexer::new(&tb).map_while(Result::ok).map(|t| t.token).take(12).collect();
    let show = |t: &Token<'_>| -> (u8, String) {
        match t {
            Token::Key(k) => (0, (*k).to_owned()),
            Token::Value(v) => (1, (*v).to_owned()),
            Token::Equals => (2, String::new()),
            Token::All => (3, String::new()),
            Token::Any => (4, String::new()),
            Token::Not => (5, String::new()),
            Token::OpenParen => (6, String::new()),
            Token::CloseParen => (7, String::new()),
            Token::Comma => (8, String::new()),
        }
    };
    for x in &la {
        for y in &lb {
            o.compared += 1;
            let want = show(x) == show(y);
            if (x == y) != want || (x != y) == want || (x.clone() == y.clone()) != want {
                return Err(format!("the tokens {x:?} and {y:?} are equal: {}, should be {want}", x == y));
            }
        }
    }
    Ok(())
}
