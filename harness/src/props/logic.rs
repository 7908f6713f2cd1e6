//! C03 boolean, C04 three-valued and C05 arbitrary evaluation.

use crate::engine::{Kind, Obs, R, Sub};
use crate::mk::{self, Dialect, Opts};
use crate::props::lang::{big, coin, kcoin};
use crate::refp::{Ast, RPred, XP, classify, reported};
use crate::src::Src;
use std::cell::Cell;
use cfg_expr::{Expression, expr::Logic};
use std::collections::HashMap;

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C03",
            name: "assignments",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 900 },
            both: true,
            rule: "a formula (predicates duplicate or pairwise distinct) in a random layout under 8 random, 2 constant and, for up to 5 distinct predicates, all assignments: result equals the reference evaluation of the written formula; non-trivial: two or more functions or three or more operands, and both results occur or it is constant over all assignments tried",
            run: assignments,
        },
        Sub {
            prop: "C03",
            name: "wide",
            kind: Kind::Rand { quick: 1_200, thorough: 15, len: 900 },
            both: true,
            rule: "a formula one of whose lists has up to 70 000 operands, plain and nested mixed, evaluated with all operands neutral but one, at a random place: equals the reference; non-trivial: 30 operands or more",
            run: wide,
        },
        Sub {
            prop: "C03",
            name: "chains",
            kind: Kind::Rand { quick: 3_000, thorough: 15, len: 3000 },
            both: true,
            rule: "functions nested up to 6 000 deep with plain operands before and behind at random levels: equals an iterative reference; non-trivial: 20 levels or more",
            run: chains,
        },
        Sub {
            prop: "C03",
            name: "two_levels",
            kind: Kind::Enum { count: n_shapes },
            both: true,
            rule: "every formula f(x1..xn), n <= 3 (thorough: 4), whose operands are a predicate, all/any of up to two predicates, or not of one, bare or under not, with every assignment of its predicates; non-trivial: all",
            run: two_levels,
        },
        Sub {
            prop: "C04",
            name: "kleene",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 900 },
            both: true,
            rule: "a formula under random three-valued answers: equals the min/max reference; with up to 7 unknown predicates every resolution is tried and a known result must equal all of them, otherwise 24 random ones; resolving one unknown keeps a known result; all-known answers give the boolean result; non-trivial: an unknown answer and a function",
            run: kleene,
        },
        Sub {
            prop: "C04",
            name: "wide",
            kind: Kind::Rand { quick: 1_000, thorough: 15, len: 900 },
            both: true,
            rule: "a list of up to 70 000 operands with a single known or unknown operand among neutral or unknown ones: equals the reference; non-trivial: 30 operands or more",
            run: kwide,
        },
        Sub {
            prop: "C04",
            name: "two_levels",
            kind: Kind::Enum { count: n_shapes },
            both: true,
            rule: "every two-level formula as in C03 with every three-valued assignment; non-trivial: all",
            run: ktwo_levels,
        },
        Sub {
            prop: "C05",
            name: "logics",
            kind: Kind::Rand { quick: 200_000, thorough: 25, len: 900 },
            both: true,
            rule: "a formula evaluated in a free commutative-monoid term algebra, in arithmetic modulo a prime (and = product, or = sum, not affine), in min/max over integers, in sets, and in 64-bit vectors: equals folding the written formula, the vectors bit by bit equal boolean evaluation; only the five operations are available; non-trivial: two or more functions and three or more predicates",
            run: logics,
        },
        Sub {
            prop: "C05",
            name: "wide",
            kind: Kind::Rand { quick: 800, thorough: 15, len: 900 },
            both: true,
            rule: "the same for a list of up to 70 000 operands; non-trivial: 30 operands or more",
            run: lwide,
        },
    ]
}

fn small(c: &mk::Case) -> bool {
    c.ast.funcs() >= 2 || c.ast.max_fan() >= 3
}

fn parse(t: &str) -> Result<Expression, String> {
    Expression::parse(t).map_err(|e| format!("{t:?} was rejected: {:?}", e.reason))
}

fn check_bool(
    t: &str,
    ast: &Ast,
    e: &Expression,
    f: &mut impl FnMut(&XP) -> bool,
    o: &mut Obs,
) -> Result<bool, String> {
    let want = ast.bool(&mut |p| f(&classify(p)));
    let mut given = Vec::new();
    let got = e.eval(|p| {
        let x = reported(p);
        let v = f(&x);
        given.push((x, v));
        v
    });
    o.compared += 1;
    if want != got {
        return Err(format!(
            "{t:?} evaluates to {got}, should be {want}, with {}",
            crate::engine::clip(&format!("{given:?}"), 1500)
        ));
    }
    Ok(got)
}

fn assignments(s: &mut Src, o: &mut Obs) -> R {
    let mut op = mk::opts(Dialect::Full);
    op.distinct = s.bool();
    let c = mk::case(s, op);
    let t = c.full();
    o.case(&*t);
    let e = parse(&t)?;
    let mut seen = [false; 2];
    let mut add = |b: bool| seen[usize::from(b)] = true;
    for b in [false, true] {
        add(check_bool(&t, &c.ast, &e, &mut |_| b, o)?);
    }
    for _ in 0..8 {
        let salt = s.u64() ^ 0x5555;
        let bias = [1, 2, 4, 8][s.below(4)];
        let inv = s.bool();
        add(check_bool(&t, &c.ast, &e, &mut |x| (coin(x, salt) % (bias + 1) == 0) ^ inv, o)?);
    }
    let mut xs: Vec<XP> = c.ast.leaf_vec().into_iter().map(classify).collect();
    xs.sort();
    xs.dedup();
    if xs.len() <= 5 {
        o.label("all assignments");
        for m in 0u32..1 << xs.len() {
            add(check_bool(
                &t,
                &c.ast,
                &e,
                &mut |x| xs.iter().position(|y| y == x).is_some_and(|i| m >> i & 1 == 1),
                o,
            )?);
        }
    }
    o.nt(small(&c));
    o.label_if(seen[0] && seen[1], "both results seen");
    o.label_if(c.ast.mixed(), "plain and nested operands");
    o.label_if(c.ast.max_fan() > 8, "more than 8 operands");
    o.label_if(c.ast.depth() > 5, "depth > 5");
    Ok(())
}

/// A formula with one very long list. Each predicate is distinct.
fn wide_ast(s: &mut Src) -> (Ast, usize) {
    let n = big(s, 70_010);
    let all = s.bool();
    let style = s.below(5);
    let mut k = 0usize;
    let leaf = |k: &mut usize| {
        *k += 1;
        if *k % 7 == 3 {
            Ast::P(RPred::kv("w", format!("{k}")))
        } else {
            Ast::P(RPred::flag(format!("w{k}")))
        }
    };
    let nested_at: Vec<usize> = (0..s.below(6)).map(|_| s.below(n)).collect();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        let nest = match style {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => nested_at.contains(&i),
            _ => i >= n / 2,
        };
        v.push(if nest {
            match i % 4 {
                0 => Ast::Not(Box::new(leaf(&mut k))),
                1 => Ast::All(vec![leaf(&mut k)]),
                2 => Ast::Any(vec![leaf(&mut k), leaf(&mut k)]),
                _ => Ast::Not(Box::new(Ast::Any(vec![leaf(&mut k)]))),
            }
        } else {
            leaf(&mut k)
        });
    }
    let mut a = if all { Ast::All(v) } else { Ast::Any(v) };
    // some surroundings
    for _ in 0..s.weighted(&[3, 3, 2]) {
        a = match s.below(4) {
            0 => Ast::Not(Box::new(a)),
            1 => Ast::All(vec![leaf(&mut k), a, leaf(&mut k)]),
            2 => Ast::Any(vec![a, leaf(&mut k)]),
            _ => Ast::Any(vec![leaf(&mut k), a]),
        };
    }
    (a, n)
}

fn text_of(s: &mut Src, a: &Ast) -> String {
    let mut toks = Vec::new();
    let tc = s.chance(60);
    mk::tokens(a, &mut toks, &mut |n| tc && !n);
    let t = mk::lay(s, &toks, mk::Space::Tight, Dialect::Full);
    if s.chance(40) { t.wrapped() } else { t.inner }
}

/// The answer each predicate of `wide_ast` gives: neutral for the long list,
/// with the exceptional ones turned round.
fn wide_answers(a: &Ast, s: &mut Src) -> HashMap<XP, bool> {
    // the value which leaves the result of the operand neutral
    fn put(a: &Ast, v: bool, m: &mut HashMap<XP, bool>) {
        match a {
            Ast::P(p) => {
                m.insert(classify(p), v);
            }
            Ast::Not(x) => put(x, !v, m),
            Ast::All(xs) | Ast::Any(xs) => xs.iter().for_each(|x| put(x, v, m)),
        }
    }
    fn go(a: &Ast, s: &mut Src, m: &mut HashMap<XP, bool>) {
        match a {
            Ast::All(v) | Ast::Any(v) => {
                let neutral = matches!(a, Ast::All(_));
                for x in v {
                    put(x, neutral, m);
                }
                let n = v.len();
                for _ in 0..s.weighted(&[1, 4, 1]) {
                    let i = match s.below(4) {
                        0 => s.below(n),
                        1 => n - 1,
                        2 => 0,
                        _ => s.below(n.min(300)),
                    };
                    put(&v[i], !neutral, m);
                }
                if v.len() < 4 {
                    for x in v {
                        go(x, s, m);
                    }
                }
            }
            Ast::Not(x) => go(x, s, m),
            Ast::P(p) => {
                m.entry(classify(p)).or_insert(false);
            }
        }
    }
    let mut m = HashMap::new();
    go(a, s, &mut m);
    m
}

fn wide(s: &mut Src, o: &mut Obs) -> R {
    let (a, n) = wide_ast(s);
    let t = text_of(s, &a);
    o.case(format!("list of {n}: {}", crate::engine::clip(&t, 200)));
    o.nt(n >= 30);
    o.label_if(n > 255, "more than 255 operands");
    o.label_if(n > 65535, "more than 65535 operands");
    let e = parse(&t)?;
    for _ in 0..3 {
        let m = wide_answers(&a, s);
        let got = check_bool(&crate::engine::clip(&t, 300), &a, &e, &mut |x| m.get(x).copied().unwrap_or(false), o)?;
        o.label(if got { "true" } else { "false" });
    }
    let salt = s.u64();
    check_bool(&crate::engine::clip(&t, 300), &a, &e, &mut |x| coin(x, salt) & 1 == 1, o)?;
    Ok(())
}

fn chains(s: &mut Src, o: &mut Obs) -> R {
    // inside out: text pieces and the value, iteratively
    let n = match s.weighted(&[3, 2, 2]) {
        0 => s.range(1, 60),
        1 => s.range(60, 700),
        _ => s.range(250, 6000),
    };
    let salt = s.u64();
    let val = |i: usize| (salt.rotate_left(i as u32 % 61).wrapping_mul(0x9e37_79b9) >> 17 ^ i as u64) % 3 == 0;
    let mut k = 0usize;
    let next = |k: &mut usize, out: &mut String| {
        let v = val(*k);
        out.push_str(&format!("c{k}"));
        *k += 1;
        v
    };
    let mut text = String::new();
    let mut v = next(&mut k, &mut text);
    let mut pre: Vec<String> = Vec::new();
    let mut post = String::new();
    for _ in 0..n {
        let kind = s.weighted(&[3, 3, 4]);
        if kind == 2 {
            pre.push("not(".into());
            post.push(')');
            v = !v;
            continue;
        }
        let mut p = String::from(if kind == 0 { "all(" } else { "any(" });
        let fold = |w: bool, v: &mut bool| *v = if kind == 0 { *v & w } else { *v | w };
        for _ in 0..s.weighted(&[5, 2, 1]) {
            let w = next(&mut k, &mut p);
            fold(w, &mut v);
            p.push_str(", ");
        }
        pre.push(p);
        for _ in 0..s.weighted(&[5, 2, 1]) {
            post.push_str(", ");
            let w = next(&mut k, &mut post);
            fold(w, &mut v);
        }
        post.push(')');
    }
    let mut full = String::new();
    for p in pre.iter().rev() {
        full.push_str(p);
    }
    full.push_str(&text);
    full.push_str(&post);
    o.case(&*full);
    o.nt(n >= 20);
    o.label_if(n > 255, "more than 255 levels");
    o.compared += 1;
    let e = parse(&full)?;
    let mut asked = 0;
    let got = e.eval(|p| {
        asked += 1;
        match p {
            cfg_expr::Predicate::Flag(f) => val(f[1..].parse().expect("number")),
            p => panic!("unexpected {p:?}"),
        }
    });
    if asked != k {
        return Err(format!("{full:?} asks {asked} times, has {k} predicates"));
    }
    if got != v {
        return Err(format!("{full:?} evaluates to {got}, should be {v} (salt {salt:#x})"));
    }
    Ok(())
}

/// Every two-level formula, as a text with numbered predicates.
fn shapes() -> &'static Vec<(String, Ast)> {
    static T: std::sync::OnceLock<Vec<(String, Ast)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        // operand kinds: leaf, all/0..2, any/0..2, not
        let kinds = 8usize;
        let mut out = Vec::new();
        for n in 0..=4 {
            for f in 0..2 {
                for code in 0..kinds.pow(n) {
                    let mut c = code;
                    let mut k = 0;
                    let mut leaf = || {
                        k += 1;
                        Ast::P(RPred::flag(format!("s{}", k - 1)))
                    };
                    let mut v = Vec::new();
                    for _ in 0..n {
                        v.push(match c % kinds {
                            0 => leaf(),
                            1 => Ast::All(vec![]),
                            2 => Ast::All(vec![leaf()]),
                            3 => Ast::All(vec![leaf(), leaf()]),
                            4 => Ast::Any(vec![]),
                            5 => Ast::Any(vec![leaf()]),
                            6 => Ast::Any(vec![leaf(), leaf()]),
                            _ => Ast::Not(Box::new(leaf())),
                        });
                        c /= kinds;
                    }
                    let a = if f == 0 { Ast::All(v) } else { Ast::Any(v) };
                    for a in [a.clone(), Ast::Not(Box::new(a))] {
                        let mut toks = Vec::new();
                        mk::tokens(&a, &mut toks, &mut |_| false);
                        let t = mk::lay(&mut Src::new(&[]), &toks, mk::Space::Pretty, Dialect::Full);
                        out.push((t.inner, a));
                    }
                }
            }
        }
        out
    })
}

fn shape(i: u64) -> &'static (String, Ast) {
    &shapes()[i as usize]
}

fn n_shapes(thorough: bool) -> u64 {
    // operand counts come in ascending order: up to 3 is a prefix
    let n: u64 = if thorough { 1 + 8 + 64 + 512 + 4096 } else { 1 + 8 + 64 + 512 };
    n * 4
}

fn leaf_no(x: &XP) -> usize {
    x.key.get(1..).and_then(|d| d.parse().ok()).unwrap_or(99)
}

fn two_levels(s: &mut Src, o: &mut Obs) -> R {
    let (t, a) = shape(s.u64());
    o.case(&**t);
    o.nt(true);
    let e = parse(t)?;
    let n = a.leaf_vec().len();
    for m in 0u64..1 << n {
        check_bool(t, a, &e, &mut |x| m >> leaf_no(x) & 1 == 1, o)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn check_k(
    t: &str,
    ast: &Ast,
    e: &Expression,
    f: &mut impl FnMut(&XP) -> Option<bool>,
    o: &mut Obs,
) -> Result<Option<bool>, String> {
    let want = ast.kleene(&mut |p| f(&classify(p)));
    let mut given = Vec::new();
    let got = e.eval(|p| {
        let x = reported(p);
        let v = f(&x);
        given.push((x, v));
        v
    });
    o.compared += 1;
    if want != got {
        return Err(format!(
            "{t:?} evaluates to {got:?}, should be {want:?}, with {}",
            crate::engine::clip(&format!("{given:?}"), 1500)
        ));
    }
    Ok(got)
}

fn kleene(s: &mut Src, o: &mut Obs) -> R {
    let mut op = mk::opts(Dialect::Full);
    op.distinct = s.bool();
    op.budget = *s.pick(&[8, 20, 60]);
    let c = mk::case(s, op);
    let t = c.full();
    o.case(&*t);
    let e = parse(&t)?;
    let mut xs: Vec<XP> = c.ast.leaf_vec().into_iter().map(classify).collect();
    xs.sort();
    xs.dedup();
    for _ in 0..3 {
        let salt = s.u64();
        let sparse = s.below(3);
        let ans = |x: &XP| -> Option<bool> {
            match sparse {
                0 => kcoin(x, salt),
                // few unknown
                1 => (coin(x, salt) % 5 != 0).then(|| coin(x, salt) & 8 == 0),
                // mostly unknown
                _ => (coin(x, salt) % 5 == 0).then(|| coin(x, salt) & 8 == 0),
            }
        };
        let k = check_k(&t, &c.ast, &e, &mut |x| ans(x), o)?;
        let unknown: Vec<&XP> = xs.iter().filter(|x| ans(x).is_none()).collect();
        o.nt(!unknown.is_empty() && c.ast.funcs() > 0);
        o.label(match k {
            None => "unknown",
            Some(true) => "true",
            Some(false) => "false",
        });
        o.label_if(!unknown.is_empty() && k.is_some(), "known in spite of unknown answers");
        let resolve = |m: u64| {
            e.eval(|p| {
                let x = reported(p);
                ans(&x).unwrap_or_else(|| {
                    let i = unknown.iter().position(|y| **y == x).expect("unknown");
                    if i < 7 && unknown.len() <= 7 {
                        m >> i & 1 == 1
                    } else {
                        coin(&x, m) & 1 == 1
                    }
                })
            })
        };
        let tries = if unknown.len() <= 7 { 1u64 << unknown.len() } else { 24 };
        let mut seen = [false; 2];
        for m in 0..tries {
            let b = resolve(m);
            seen[usize::from(b)] = true;
            o.compared += 1;
            if let Some(k) = k {
                if b != k {
                    return Err(format!(
                        "{t:?} is {k} with unknown {unknown:?}, but {b} for one resolution (salt {salt:#x})"
                    ));
                }
            }
        }
        if unknown.is_empty() && k.is_none() {
            return Err(format!("{t:?} is unknown although every answer is known"));
        }
        // resolving one unknown answer
        if let (Some(k), false) = (k, unknown.is_empty()) {
            let pick = (*s.pick(&unknown)).clone();
            let b = s.bool();
            let k2 = e.eval(|p| {
                let x = reported(p);
                if x == pick { Some(b) } else { ans(&x) }
            });
            if k2 != Some(k) {
                return Err(format!("{t:?} goes from {k} to {k2:?} when {pick:?} is resolved to {b}"));
            }
        }
    }
    Ok(())
}

fn kwide(s: &mut Src, o: &mut Obs) -> R {
    let (a, n) = wide_ast(s);
    let t = text_of(s, &a);
    o.case(format!("list of {n}: {}", crate::engine::clip(&t, 200)));
    o.nt(n >= 30);
    o.label_if(n > 255, "more than 255 operands");
    let e = parse(&t)?;
    let short = crate::engine::clip(&t, 300);
    for mode in 0..3 {
        let m = wide_answers(&a, s);
        let salt = s.u64();
        let got = check_k(
            &short,
            &a,
            &e,
            &mut |x| {
                let v = m.get(x).copied().unwrap_or(false);
                match mode {
                    // some unknown
                    0 => (coin(x, salt) % 50 != 0).then_some(v),
                    // a single decisive one among unknown
                    1 => {
                        let c = coin(x, salt) % (n as u64) == 0;
                        c.then_some(v)
                    }
                    _ => (coin(x, salt) % (2 * n as u64) != 0).then_some(v),
                }
            },
            o,
        )?;
        o.label(match got {
            None => "unknown",
            Some(true) => "true",
            Some(false) => "false",
        });
    }
    Ok(())
}

fn ktwo_levels(s: &mut Src, o: &mut Obs) -> R {
    let (t, a) = shape(s.u64());
    o.case(&**t);
    o.nt(true);
    let e = parse(t)?;
    let n = a.leaf_vec().len() as u32;
    for m in 0..3u64.pow(n) {
        check_k(
            t,
            a,
            &e,
            &mut |x| match m / 3u64.pow(leaf_no(x) as u32) % 3 {
                0 => None,
                1 => Some(false),
                _ => Some(true),
            },
            o,
        )?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// Terms of the free algebra: conjunctions and disjunctions are multisets of
/// operands (as sums of mixed hashes), nothing else is identified.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Term {
    kind: u8, // 0 leaf or not, 1 and, 2 or, 3 top, 4 bottom
    h: u64,
    sum: u64,
    n: u64,
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Term {
    fn leaf(h: u64) -> Self {
        Self { kind: 0, h: mix(h), sum: 0, n: 1 }
    }
    fn join(self, other: Self, kind: u8, unit: u8) -> Self {
        if self.kind == unit {
            return other;
        }
        if other.kind == unit {
            return self;
        }
        let part = |t: &Self| if t.kind == kind { (t.sum, t.n) } else { (mix(t.h ^ 0x77), 1) };
        let (a, b) = (part(&self), part(&other));
        let sum = a.0.wrapping_add(b.0);
        let n = a.1 + b.1;
        Self { kind, h: mix(sum ^ u64::from(kind) << 56 ^ n), sum, n }
    }
}

impl Logic for Term {
    fn top() -> Self {
        Self { kind: 3, h: mix(3), sum: 0, n: 0 }
    }
    fn bottom() -> Self {
        Self { kind: 4, h: mix(4), sum: 0, n: 0 }
    }
    fn and(self, other: Self) -> Self {
        self.join(other, 1, 3)
    }
    fn or(self, other: Self) -> Self {
        self.join(other, 2, 4)
    }
    fn not(self) -> Self {
        Self { kind: 0, h: mix(self.h ^ 0x1234_5678), sum: 0, n: 1 }
    }
}

const P: u64 = (1 << 61) - 1;
#[derive(Clone, Debug, PartialEq, Eq)]
struct Arith(u64);
impl Logic for Arith {
    fn top() -> Self {
        Self(1)
    }
    fn bottom() -> Self {
        Self(0)
    }
    fn and(self, o: Self) -> Self {
        Self((u128::from(self.0) * u128::from(o.0) % u128::from(P)) as u64)
    }
    fn or(self, o: Self) -> Self {
        Self((self.0 + o.0) % P)
    }
    fn not(self) -> Self {
        Self((u128::from(self.0) * 3 + 7) as u64 % P)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct MinMax(i64);
impl Logic for MinMax {
    fn top() -> Self {
        Self(i64::MAX)
    }
    fn bottom() -> Self {
        Self(i64::MIN)
    }
    fn and(self, o: Self) -> Self {
        Self(self.0.min(o.0))
    }
    fn or(self, o: Self) -> Self {
        Self(self.0.max(o.0))
    }
    fn not(self) -> Self {
        Self(!self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Bits(u64);
impl Logic for Bits {
    fn top() -> Self {
        Self(u64::MAX)
    }
    fn bottom() -> Self {
        Self(0)
    }
    fn and(self, o: Self) -> Self {
        Self(self.0 & o.0)
    }
    fn or(self, o: Self) -> Self {
        Self(self.0 | o.0)
    }
    fn not(self) -> Self {
        Self(!self.0)
    }
}

/// Owned, non-Copy values: which answers reached the result, as a set per side.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Support(Vec<u32>);
impl Support {
    fn join(mut self, o: Self) -> Self {
        self.0.extend(o.0);
        self.0.sort_unstable();
        self
    }
}
impl Logic for Support {
    fn top() -> Self {
        Self(vec![])
    }
    fn bottom() -> Self {
        Self(vec![])
    }
    fn and(self, o: Self) -> Self {
        self.join(o)
    }
    fn or(self, o: Self) -> Self {
        self.join(o)
    }
    fn not(self) -> Self {
        self
    }
}

fn fold<L: Logic>(a: &Ast, f: &mut impl FnMut(&RPred) -> L) -> L {
    match a {
        Ast::P(p) => f(p),
        Ast::All(v) => v.iter().fold(L::top(), |m, x| m.and(fold(x, f))),
        Ast::Any(v) => v.iter().fold(L::bottom(), |m, x| m.or(fold(x, f))),
        Ast::Not(x) => fold(x, f).not(),
    }
}

/// A logic whose values notice when they are printed.
struct Quiet<L>(L);

thread_local! {
    static PRINTED: Cell<bool> = const { Cell::new(false) };
}

impl<L> std::fmt::Debug for Quiet<L> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        PRINTED.set(true);
        Ok(())
    }
}

impl<L: Logic> Logic for Quiet<L> {
    fn top() -> Self {
        Self(L::top())
    }
    fn bottom() -> Self {
        Self(L::bottom())
    }
    fn and(self, o: Self) -> Self {
        Self(self.0.and(o.0))
    }
    fn or(self, o: Self) -> Self {
        Self(self.0.or(o.0))
    }
    fn not(self) -> Self {
        Self(self.0.not())
    }
}

fn same<L: Logic + PartialEq + std::fmt::Debug>(
    name: &str,
    t: &str,
    ast: &Ast,
    e: &Expression,
    f: &dyn Fn(&XP) -> L,
    o: &mut Obs,
) -> R {
    let want = fold(ast, &mut |p| f(&classify(p)));
    PRINTED.set(false);
    let Quiet(got): Quiet<L> = e.eval(|p| Quiet(f(&reported(p))));
    o.compared += 1;
    if PRINTED.get() {
        return Err(format!("{t:?} in {name}: evaluation prints a value"));
    }
    if want != got {
        return Err(format!("{t:?} in {name}: {got:?}, should be {want:?}"));
    }
    Ok(())
}

fn all_logics(t: &str, a: &Ast, e: &Expression, salt: u64, o: &mut Obs) -> R {
    same("terms", t, a, e, &|x| Term::leaf(coin(x, salt)), o)?;
    same("arithmetic", t, a, e, &|x| Arith(coin(x, salt) % P), o)?;
    same("min/max", t, a, e, &|x| MinMax(coin(x, salt) as i64), o)?;
    same("bits", t, a, e, &|x| Bits(coin(x, salt)), o)
}

fn logics(s: &mut Src, o: &mut Obs) -> R {
    let op = Opts { distinct: s.chance(180), ..mk::opts(Dialect::Full) };
    let c = mk::case(s, op);
    let t = c.full();
    o.case(&*t);
    let e = parse(&t)?;
    let salt = s.u64();
    let leaves = c.ast.leaf_vec().len();
    o.nt(c.ast.funcs() >= 2 && leaves >= 3);
    o.label_if(leaves > 8, "more than 8 predicates");
    o.label_if(c.ast.mixed(), "plain and nested operands");
    all_logics(&t, &c.ast, &e, salt, o)?;
    if leaves <= 64 {
        same("support", &t, &c.ast, &e, &|x| Support(vec![coin(x, salt) as u32]), o)?;
    }
    // bit by bit
    let v: Bits = e.eval(|p| Bits(coin(&reported(p), salt)));
    for bit in [0, 1, s.below(64), s.below(64), 63] {
        let b = e.eval(|p| coin(&reported(p), salt) >> bit & 1 == 1);
        o.compared += 1;
        if b != (v.0 >> bit & 1 == 1) {
            return Err(format!("{t:?}: bit {bit} of {v:?} is not the boolean result {b}"));
        }
    }
    Ok(())
}

fn lwide(s: &mut Src, o: &mut Obs) -> R {
    let (a, n) = wide_ast(s);
    let t = text_of(s, &a);
    let short = crate::engine::clip(&t, 200);
    o.case(format!("list of {n}: {short}"));
    o.nt(n >= 30);
    o.label_if(n > 255, "more than 255 operands");
    let e = parse(&t)?;
    let salt = s.u64();
    all_logics(&short, &a, &e, salt, o)
}
