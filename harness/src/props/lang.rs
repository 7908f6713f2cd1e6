//! C01 totality, C02 acceptance, C06 predicates, C07 layout, C10 tokens, C21 text.

use crate::dict;
use crate::engine::{Kind, Obs, R, Sub, clip};
use crate::mk::{self, Dialect, Opts, Space, ambiguous_space};
use crate::refp::{self, LexFault, RPred, Tok, XP, classify, reported};
use crate::src::Src;
use cfg_expr::expr::lexer::{Lexer, LexerToken, Token};
use cfg_expr::{Expression, Predicate};

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C01",
            name: "any_text",
            kind: Kind::Rand { quick: 400_000, thorough: 25, len: 900 },
            both: true,
            rule: "arbitrary text (characters of every UTF-8 length, fragments, words; near-miss token sequences; well-formed formulas) is tokenised, parsed, and the result listed, cloned, printed and evaluated or the error rendered; non-trivial: the text has a token and is 4 bytes or longer",
            run: total_text,
        },
        Sub {
            prop: "C01",
            name: "short_strings",
            kind: Kind::Enum { count: |t| upto(SHORT.len() as u64, if t { 7 } else { 5 }) },
            both: true,
            rule: "every string of up to 5 (thorough: 7) characters over { a n ( ) , = \" blank 0 é }, bare and, when it fits, in cfg( ), put through the same; non-trivial: it has a token",
            run: total_short,
        },
        Sub {
            prop: "C01",
            name: "deep",
            kind: Kind::Rand { quick: 400, thorough: 12, len: 64 },
            both: true,
            rule: "functions nested up to 300 000 deep in 12 shapes (complete, unclosed, over-closed, with operands before or behind), on a 512 KiB stack, with the verdict, predicate count and value known from the construction; non-trivial: nested 100 or deeper",
            run: deep,
        },
        Sub {
            prop: "C01",
            name: "wide",
            kind: Kind::Rand { quick: 250, thorough: 12, len: 64 },
            both: true,
            rule: "one list of up to 300 000 operands, one identifier, value or run of white space of up to 1 000 000 characters, complete or broken at the end, on a 512 KiB stack, with a known verdict; non-trivial: 250 operands or 1 000 characters",
            run: wide_total,
        },
        Sub {
            prop: "C02",
            name: "formulas",
            kind: Kind::Rand { quick: 200_000, thorough: 25, len: 900 },
            both: true,
            rule: "a generated formula in a random layout, with or without trailing commas and cfg( ), must be accepted; non-trivial: it contains a function",
            run: accept_valid,
        },
        Sub {
            prop: "C02",
            name: "near_misses",
            kind: Kind::Rand { quick: 500_000, thorough: 25, len: 500 },
            both: true,
            rule: "token sequences obtained from formulas by 0 to 3 deletions, insertions, duplications, swaps, replacements, truncations, or word edits, plus random ones: accepted if and only if the reference parser accepts; non-trivial: three or more tokens",
            run: accept_soup,
        },
        Sub {
            prop: "C02",
            name: "text",
            kind: Kind::Rand { quick: 400_000, thorough: 25, len: 500 },
            both: true,
            rule: "arbitrary text, near-miss sequences, and formulas cut, spoilt, or with pieces of other syntaxes (comments, escapes, brackets, operators, look-alike characters) put in: accepted if and only if the reference parser accepts; non-trivial: it has at least two tokens",
            run: accept_text,
        },
        Sub {
            prop: "C02",
            name: "all_short_sequences",
            kind: Kind::Enum { count: |t| upto(SEQ.len() as u64, if t { 7 } else { 6 }) },
            both: false,
            rule: "every token sequence of length up to 6 (thorough: 7) over { a \"v\" = all any not ( ) , }: accepted if and only if the reference parser accepts; non-trivial: two or more tokens",
            run: accept_seq,
        },
        Sub {
            prop: "C02",
            name: "keys_and_values",
            kind: Kind::Enum { count: |_| (keys_table().len() * (values_table().len() + 1)) as u64 },
            both: true,
            rule: "every reserved key and its near misses, bare and with each of a table of values (every number 0 to 300 and its padded and signed forms, boundary numbers, vocabulary, empty, blank): accepted if and only if the reference rules say so; non-trivial: all",
            run: accept_kv,
        },
        Sub {
            prop: "C06",
            name: "listing",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 900 },
            both: true,
            rule: "a formula with duplicate or pairwise distinct predicates of every class: the multiset of listed predicates equals the multiset written, as classified by the reference; evaluation in bool and Option<bool> asks about exactly the listed sequence; non-trivial: two or more predicates",
            run: listing,
        },
        Sub {
            prop: "C06",
            name: "single",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 200 },
            both: true,
            rule: "one predicate with an arbitrary key and arbitrary value characters, alone or in a list, is reported with its class, key and value verbatim; non-trivial: it has a value or a reserved key",
            run: single,
        },
        Sub {
            prop: "C06",
            name: "long",
            kind: Kind::Rand { quick: 15_000, thorough: 25, len: 400 },
            both: true,
            rule: "the same for lists (flat, within not, or each in the one before) of up to 1 100 operands picked from a few predicates, and for identifiers and values of up to 140 000 bytes; non-trivial: more than 20 operands, or a long predicate",
            run: listing_big,
        },
        Sub {
            prop: "C07",
            name: "relayout",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 900 },
            both: true,
            rule: "two independent layouts (white space, trailing commas, cfg( )) of one formula: both accepted, same predicate listing in order, same bool and Kleene results under three assignments; non-trivial: the texts differ and hold a function",
            run: relayout,
        },
        Sub {
            prop: "C07",
            name: "relayout_any",
            kind: Kind::Rand { quick: 250_000, thorough: 25, len: 500 },
            both: true,
            rule: "two layouts (white space, cfg( )) of one arbitrary token sequence are both accepted or both rejected; non-trivial: the texts differ and hold three or more tokens",
            run: relayout_any,
        },
        Sub {
            prop: "C10",
            name: "tiling",
            kind: Kind::Rand { quick: 300_000, thorough: 25, len: 600 },
            both: true,
            rule: "tokens of arbitrary text, near-miss sequences and formulas: spans ordered, disjoint, exactly the token's characters, white space between; the token sequence and the first fault equal the reference tokeniser's; non-trivial: two or more tokens",
            run: tiling,
        },
        Sub {
            prop: "C10",
            name: "short_strings",
            kind: Kind::Enum { count: |t| upto(LEXA.len() as u64, if t { 6 } else { 5 }) },
            both: false,
            rule: "the same for every string of up to 5 (thorough: 6) symbols over { a l all not _ 1 ( ) , = \" blank é }; non-trivial: two or more tokens",
            run: tiling_short,
        },
        Sub {
            prop: "C21",
            name: "text",
            kind: Kind::Rand { quick: 150_000, thorough: 25, len: 700 },
            both: true,
            rule: "an accepted text: original() is the text without cfg( ), reparsing it gives an equal expression with the same listing and results, as does a clone after its source is dropped; non-trivial: two or more predicates",
            run: text_kept,
        },
        Sub {
            prop: "C21",
            name: "equality",
            kind: Kind::Rand { quick: 200_000, thorough: 25, len: 700 },
            both: true,
            rule: "pairs of texts (identical, re-laid out, wrapped, one predicate or function changed, operands swapped, same length or same prefix; long texts which differ in one character): expressions are equal if and only if the stripped texts are identical; non-trivial: both accepted",
            run: equality,
        },
    ]
}

/// How many strings of length 0..=n there are over k symbols.
fn upto(k: u64, n: u32) -> u64 {
    (0..=n).map(|i| k.pow(i)).sum()
}

/// The `i`th of them.
fn nth(mut i: u64, k: u64) -> Vec<usize> {
    let mut len = 0u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut v = vec![0; len as usize];
    for x in v.iter_mut().rev() {
        *x = (i % k) as usize;
        i /= k;
    }
    v
}

pub fn cls(e: &Expression) -> Vec<XP> {
    e.predicates().map(|p| reported(&p)).collect()
}

/// A pure function of predicate and salt.
pub fn coin(x: &XP, salt: u64) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    salt.hash(&mut h);
    h.finish()
}

pub fn kcoin(x: &XP, salt: u64) -> Option<bool> {
    match coin(x, salt) % 3 {
        0 => Some(false),
        1 => None,
        _ => Some(true),
    }
}

/// Everything which can be done with a text; fails only by panicking or by an
/// inner contradiction.
fn exercise(t: &str) -> R {
    let mut n = 0usize;
    for tok in Lexer::new(t) {
        n += 1;
        match tok {
            Ok(tok) => {
                std::hint::black_box(format!("{:?}", tok.token).len());
                std::hint::black_box(tok.span.len());
            }
            Err(e) => {
                std::hint::black_box(e.to_string().len());
            }
        }
        if n > t.len() + 1 {
            return Err(format!("tokenising {t:?} does not end"));
        }
    }
    match Expression::parse(t) {
        Ok(e) => {
            let listed = e.predicates().count();
            let mut asked = 0;
            let b = e.eval(|_| {
                asked += 1;
                asked % 2 == 0
            });
            let k: Option<bool> = e.eval(|_| None);
            std::hint::black_box((b, k));
            let c = e.clone();
            std::hint::black_box(format!("{c:?}").len());
            std::hint::black_box(e.original().len());
            drop(e);
            if listed != asked || c.predicates().count() != listed {
                return Err(format!("{listed} predicates listed, {asked} asked in {t:?}"));
            }
            for p in c.predicates() {
                std::hint::black_box(format!("{p:?}").len());
            }
            Ok(())
        }
        Err(e) => {
            std::hint::black_box(e.to_string().len());
            std::hint::black_box(format!("{e:?} {}", e.reason).len());
            #[allow(deprecated)]
            std::hint::black_box(std::error::Error::description(&e).len());
            Ok(())
        }
    }
}

fn gen_text(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => mk::any_text(s),
        3 => mk::foreign(s),
        1 => {
            let toks = mk::soup(s, Dialect::Full);
            let sp = mk::space(s, Dialect::Full);
            let t = mk::lay(s, &toks, sp, Dialect::Full);
            if s.chance(60) { t.wrapped() } else { t.inner }
        }
        _ => {
            let mut t = mk::case(s, mk::opts(Dialect::Full)).full();
            // cut or spoil it
            match s.weighted(&[3, 2, 2]) {
                0 => {}
                1 => {
                    let mut i = s.below(t.len() + 1);
                    while !t.is_char_boundary(i) {
                        i -= 1;
                    }
                    t.truncate(i);
                }
                _ => {
                    let mut i = s.below(t.len() + 1);
                    while !t.is_char_boundary(i) {
                        i -= 1;
                    }
                    t.insert(i, mk::any_char(s));
                }
            }
            t
        }
    }
}

fn total_text(s: &mut Src, o: &mut Obs) -> R {
    let t = gen_text(s);
    o.case(&*t);
    o.nt(t.len() >= 4 && !t.trim().is_empty());
    o.label_if(!t.is_ascii(), "non-ascii");
    exercise(&t)?;
    o.label(if Expression::parse(&t).is_ok() { "accepted" } else { "rejected" });
    Ok(())
}

const SHORT: &[&str] = &["a", "n", "(", ")", ",", "=", "\"", " ", "0", "é"];

fn total_short(s: &mut Src, o: &mut Obs) -> R {
    let t: String = nth(s.u64(), SHORT.len() as u64).iter().map(|i| SHORT[*i]).collect();
    o.case(&*t);
    o.nt(!t.trim().is_empty());
    exercise(&t)?;
    exercise(&format!("cfg({t})"))?;
    exercise(&format!("not({t}"))?;
    exercise(&format!("all(a,{t})"))
}

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(512 * 1024)
            .spawn_scoped(sc, f)
            .expect("thread")
            .join()
    })
    .unwrap_or_else(|e| std::panic::resume_unwind(e))
}

pub fn big(s: &mut Src, max: usize) -> usize {
    const EDGE: &[usize] = &[
        100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096,
        10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 100_000, 200_000, 300_000,
    ];
    let n = match s.weighted(&[6, 8, 2, 2]) {
        0 => s.range(1, 300),
        1 => *s.pick(EDGE) + s.below(3),
        3 => dict::size(s, max).max(1),
        _ => s.range(1, max),
    };
    n.min(max)
}

fn deep(s: &mut Src, o: &mut Obs) -> R {
    let n = big(s, 300_000);
    let shape = s.below(12);
    let f = *s.pick(&["all", "any", "not"]);
    let g = *s.pick(&["all", "any"]);
    let leaf = s.bool();
    let mut t = String::new();
    // (accepted, number of predicates, value)
    let want: (bool, usize, bool);
    match shape {
        0 | 1 | 2 => {
            for _ in 0..n {
                t.push_str(f);
                t.push('(');
            }
            t.push('a');
            for _ in 0..n {
                t.push(')');
            }
            want = (true, 1, if f == "not" && n % 2 == 1 { !leaf } else { leaf });
        }
        3 => {
            // not around every list
            for _ in 0..n {
                t.push_str("not(all(a, ");
            }
            t.push('a');
            for _ in 0..n {
                t.push_str("))");
            }
            // v0 = leaf; v' = !(leaf & v)
            let mut v = leaf;
            for _ in 0..n {
                v = !(leaf & v);
            }
            want = (true, n + 1, v);
        }
        4 => {
            for _ in 0..n {
                t.push_str(g);
                t.push('(');
            }
            t.push('a');
            for _ in 0..n {
                t.push_str(", a)");
            }
            want = (true, n + 1, leaf);
        }
        5 => {
            for _ in 0..n {
                t.push_str(g);
                t.push_str("(a=\"x\",");
            }
            for _ in 0..n {
                t.push(')');
            }
            want = (true, n, leaf);
        }
        6 => {
            // unclosed
            for _ in 0..n {
                t.push_str(f);
                t.push('(');
            }
            want = (false, 0, false);
        }
        7 => {
            t.push('a');
            for _ in 0..n {
                t.push(')');
            }
            want = (false, 0, false);
        }
        8 => {
            for _ in 0..n {
                t.push('(');
            }
            want = (false, 0, false);
        }
        9 => {
            // one missing
            for _ in 0..n {
                t.push_str(g);
                t.push('(');
            }
            t.push('a');
            for _ in 0..n - 1 {
                t.push(')');
            }
            want = (false, 0, false);
        }
        10 => {
            // siblings at every level
            for _ in 0..n {
                t.push_str(g);
                t.push_str("(not(a),any(),");
            }
            t.push_str("not(a)");
            for _ in 0..n {
                t.push(')');
            }
            let mut v = !leaf;
            for _ in 0..n {
                v = if g == "all" { false } else { !leaf | v };
            }
            want = (true, n + 1, v);
        }
        _ => {
            // keywords only
            for _ in 0..n {
                t.push_str(f);
                t.push(' ');
            }
            want = (false, 0, false);
        }
    }
    if s.chance(60) {
        t = format!("cfg({t})");
    }
    o.case(format!("deep n={n} shape={shape} f={f} g={g} leaf={leaf}: {}", crate::engine::clip(&t, 60)));
    o.nt(n >= 100);
    o.label_if(n > 255, "deeper than 255");
    o.label_if(n > 65535, "deeper than 65535");
    small_stack(|| {
        for tok in Lexer::new(&t) {
            if tok.is_err() {
                break;
            }
        }
        match Expression::parse(&t) {
            Ok(e) => {
                if !want.0 {
                    return Err("accepted".to_owned());
                }
                let k = e.predicates().count();
                let mut asked = 0;
                let v = e.eval(|_| {
                    asked += 1;
                    leaf
                });
                let kl: Option<bool> = e.eval(|_| Some(leaf));
                let c = e.clone();
                drop(e);
                let d = format!("{c:?}").len();
                std::hint::black_box(d);
                if k != want.1 || asked != want.1 || c.predicates().count() != want.1 {
                    return Err(format!("{k} predicates listed, {asked} asked, {} written", want.1));
                }
                if v != want.2 || kl != Some(want.2) {
                    return Err(format!("evaluates to {v}/{kl:?}, should be {}", want.2));
                }
                Ok(())
            }
            Err(e) => {
                std::hint::black_box(e.to_string().len());
                if want.0 {
                    return Err(format!("rejected: {:?} {:?}", e.reason, e.span));
                }
                Ok(())
            }
        }
    })
}

fn wide_total(s: &mut Src, o: &mut Obs) -> R {
    let n = big(s, 300_000);
    let shape = s.below(10);
    let f = *s.pick(&["all", "any"]);
    let mut t = String::new();
    let accept;
    let mut count = n;
    match shape {
        0 => {
            t = format!("{f}({})", vec!["a"; n].join(","));
            accept = true;
        }
        1 => {
            t = format!("{f}({},)", vec!["a = \"b\""; n].join(", "));
            accept = true;
        }
        2 => {
            t = format!("{f}({})", vec!["not(a)"; n].join(","));
            accept = true;
        }
        3 => {
            t = format!("{f}({})", vec!["any(),b,all(c)"; n].join(","));
            accept = true;
            count = 2 * n;
        }
        4 => {
            t = format!("{f}({}", vec!["a"; n].join(","));
            accept = false;
        }
        5 => {
            t = format!("not({})", vec!["a"; n].join(","));
            accept = n == 1;
        }
        6 => {
            t = vec!["a"; n].join(",");
            accept = n == 1;
        }
        7 => {
            let m = n * 3;
            t.push_str(&"a".repeat(m));
            t.push_str(" = \"");
            t.push_str(&"é".repeat(m / 2));
            t.push('"');
            accept = true;
            count = 1;
        }
        8 => {
            t = format!("{}a{}", " \n".repeat(n), "\t".repeat(n));
            accept = true;
            count = 1;
        }
        _ => {
            t = format!("a = \"{}", "b".repeat(n));
            accept = false;
        }
    }
    if s.chance(60) {
        t = format!("cfg({t})");
    }
    o.case(format!("wide n={n} shape={shape} f={f}: {}", crate::engine::clip(&t, 60)));
    o.nt(n >= 250);
    o.label_if(n > 65535, "more than 65535");
    small_stack(|| match Expression::parse(&t) {
        Ok(e) => {
            if !accept {
                return Err("accepted".to_owned());
            }
            let mut asked = 0;
            e.eval(|_| {
                asked += 1;
                true
            });
            let c = e.clone();
            drop(e);
            std::hint::black_box(format!("{c:?}").len());
            if asked != count || c.predicates().count() != count {
                return Err(format!("{asked} asked, {count} written"));
            }
            Ok(())
        }
        Err(e) => {
            std::hint::black_box(e.to_string().len());
            if accept {
                return Err(format!("rejected: {:?} {:?}", e.reason, e.span));
            }
            Ok(())
        }
    })
}

// ---------------------------------------------------------------- C02

fn verdict(t: &str, o: &mut Obs) -> R {
    let want = refp::parse(t);
    let got = Expression::parse(t);
    o.compared += 1;
    match (&want, &got) {
        (Some(_), Ok(_)) => o.label("accepted"),
        (None, Err(_)) => o.label("rejected"),
        (Some(_), Err(e)) => {
            return Err(format!(
                "well-formed {t:?} was rejected: {:?} at {:?}",
                e.reason, e.span
            ));
        }
        (None, Ok(_)) => return Err(format!("malformed {t:?} was accepted")),
    }
    Ok(())
}

fn accept_valid(s: &mut Src, o: &mut Obs) -> R {
    let c = mk::case(s, mk::opts(Dialect::Full));
    let t = c.full();
    o.case(&*t);
    o.nt(c.ast.funcs() > 0);
    o.label_if(c.wrapped, "cfg( )");
    o.label_if(c.ast.depth() > 3, "depth > 3");
    if refp::parse(&t).as_ref() != Some(&c.ast) {
        panic!("harness: the reference parser disagrees with the generator on {t:?}");
    }
    verdict(&t, o)
}

fn accept_soup(s: &mut Src, o: &mut Obs) -> R {
    let toks = mk::soup(s, Dialect::Full);
    let sp = mk::space(s, Dialect::Full);
    let t = mk::lay(s, &toks, sp, Dialect::Full);
    let t = if s.chance(60) { t.wrapped() } else { t.inner };
    o.case(&*t);
    o.nt(toks.len() >= 3);
    verdict(&t, o)
}

fn accept_text(s: &mut Src, o: &mut Obs) -> R {
    let t = gen_text(s);
    o.case(&*t);
    if outside_quotes(&t).any(ambiguous_space) {
        return o.skip();
    }
    o.nt(refp::lex(refp::strip(&t)).toks.len() >= 2);
    verdict(&t, o)
}

const SEQ: &[&str] = &["a", "\"v\"", "=", "all", "any", "not", "(", ")", ","];

fn accept_seq(s: &mut Src, o: &mut Obs) -> R {
    let ix = nth(s.u64(), SEQ.len() as u64);
    let t: Vec<&str> = ix.iter().map(|i| SEQ[*i]).collect();
    let t = t.join(" ");
    o.case(&*t);
    o.nt(ix.len() >= 2);
    verdict(&t, o)
}

fn keys_table() -> &'static Vec<String> {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<String> = Vec::new();
        for k in mk::RESERVED.iter().chain(refp::TARGET_KEYS) {
            v.push((*k).to_owned());
            v.push(format!("{k}_"));
            v.push(format!("_{k}"));
            v.push(format!("{k}s"));
            v.push(k[..k.len() - 1].to_owned());
            v.push(k[1..].to_owned());
            v.push(k.to_uppercase());
            let mut c = (*k).to_owned();
            c[..1].make_ascii_uppercase();
            v.push(c);
            v.push(k.replace('_', ""));
            v.push(k.replace('_', "__"));
        }
        for k in [
            "target_", "target", "target_x", "target_thread_local", "target_vendo", "target_oss",
            "target_Arch", "target_has_atomic_load_store", "target_has_atomic_equal_alignment",
            "target_pointer", "target_pointer_widths", "target_endianness", "target_featur",
            "target_target_os", "target_panic", "target_test", "target_unix", "target_triple",
            "relocation_model", "version", "accessible", "sanitize", "overflow_checks", "a", "_",
            "wasm", "cfg", "linux", "itron", "true", "false",
        ] {
            v.push(k.to_owned());
        }
        v.retain(|k| {
            !k.is_empty() && !refp::is_kw(k) && !k.starts_with(|c: char| c.is_ascii_digit())
        });
        v.sort();
        v.dedup();
        v
    })
}

fn values_table() -> &'static Vec<String> {
    static T: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<String> = (0..=300).map(|i: i32| i.to_string()).collect();
        for n in ["0", "8", "16", "32", "64", "128", "255", "256", "65535", "65536"] {
            v.push(n.to_owned());
            for f in [
                format!("+{n}"), format!("-{n}"), format!("0{n}"), format!("00{n}"), format!(" {n}"),
                format!("{n} "), format!("{n}.0"), format!("{n}_"), format!("0x{n}"), format!("{n}u8"),
                format!("{n}ptr"), format!("{n}\n"),
            ] {
                v.push(f);
            }
        }
        for x in [
            "", " ", "  ", "ptr", "Ptr", "PTR", " ptr", "ptr ", "pt", "ptrs", "big", "little", "Big",
            "LITTLE", " little", "little ", "bigg", "littl", "big-endian", "none", "unknown", "unix",
            "windows", "wasm", "linux", "x86_64", "gnu", "abort", "unwind", "sse2", "é", "٣", "１６",
            "1000", "9999", "32768", "65534", "65537", "99999", "100000", "4294967296",
            "18446744073709551616", "99999999999999999999999999", "1e2", "a b", "a,b", "a=b", "(", ")",
        ] {
            v.push(x.to_owned());
        }
        v.sort();
        v.dedup();
        v
    })
}

fn accept_kv(s: &mut Src, o: &mut Obs) -> R {
    let i = s.u64() as usize;
    let nv = values_table().len() + 1;
    let k = &keys_table()[i / nv];
    let p = if i % nv == 0 {
        RPred::flag(k)
    } else {
        RPred::kv(k, &values_table()[i % nv - 1])
    };
    let one = match &p.val {
        None => k.clone(),
        Some(v) => format!("{k} = \"{v}\""),
    };
    o.case(&*one);
    o.nt(true);
    for t in [
        one.clone(),
        format!("cfg({one})"),
        format!("all(a, {one}, b)"),
        format!("not({one})"),
        format!("any(not({one}),)"),
    ] {
        verdict(&t, o)?;
    }
    // and what is accepted is reported as written
    if let Ok(e) = Expression::parse(&one) {
        let got = cls(&e);
        if got != [classify(&p)] {
            return Err(format!("{one:?} is reported as {got:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn listing(s: &mut Src, o: &mut Obs) -> R {
    let mut op = mk::opts(Dialect::Full);
    op.distinct = s.bool();
    let c = mk::case(s, op);
    let t = c.full();
    o.case(&*t);
    let e = match Expression::parse(&t) {
        Ok(e) => e,
        Err(e) => return Err(format!("{t:?} was rejected: {:?}", e.reason)),
    };
    let listed = cls(&e);
    let mut want: Vec<XP> = c.ast.leaf_vec().into_iter().map(classify).collect();
    o.nt(want.len() >= 2);
    o.label_if(want.len() > 5, "more than 5 predicates");
    o.label_if(c.ast.mixed(), "plain and nested operands");
    let mut got = listed.clone();
    got.sort();
    want.sort();
    o.compared += want.len() as u64;
    if got != want {
        return Err(format!("{t:?} lists {got:?}, but has {want:?}"));
    }
    let salt = s.u64();
    let mut asked = Vec::new();
    e.eval(|p: &Predicate<'_>| {
        let x = reported(p);
        let v = coin(&x, salt) & 1 == 1;
        asked.push(x);
        v
    });
    if asked != listed {
        return Err(format!("{t:?} lists {listed:?}, but bool evaluation asks {asked:?}"));
    }
    let mut asked = Vec::new();
    let _: Option<bool> = e.eval(|p| {
        let x = reported(p);
        let v = kcoin(&x, salt);
        asked.push(x);
        v
    });
    if asked != listed {
        return Err(format!("{t:?} lists {listed:?}, but Option evaluation asks {asked:?}"));
    }
    if cls(&e) != listed {
        return Err(format!("{t:?} is listed differently the second time"));
    }
    // the iterator itself: partial use, count, bounds, last
    let mut it = e.predicates();
    for left in (0..=listed.len()).rev() {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{t:?}: the listing has {left} left, but says {lo} to {hi:?}"));
        }
        if it.next().is_some() != (left > 0) {
            return Err(format!("{t:?}: the listing ends too early or too late"));
        }
    }
    if e.predicates().last().map(|p| reported(&p)) != listed.last().cloned() {
        return Err(format!("{t:?}: the last predicate listed depends on how it is asked for"));
    }
    let k = s.below(listed.len() + 1);
    let tail: Vec<XP> = e.predicates().skip(k).map(|p| reported(&p)).collect();
    if tail != listed[k..] || e.predicates().count() != listed.len() {
        return Err(format!("{t:?}: the listing depends on how it is iterated"));
    }
    Ok(())
}

/// Long lists of few different predicates, and predicates of many bytes.
fn listing_big(s: &mut Src, o: &mut Obs) -> R {
    let mut pool: Vec<RPred> = (0..s.range(1, 6)).map(|_| mk::pred(s, Dialect::Full, None)).collect();
    let long = s.chance(90);
    if long {
        // one of them is long
        let n = big(s, 140_000);
        let c = *s.pick(&["v", "é", " ", "ab", "0"]);
        let text = c.repeat(n / c.len() + 1);
        let ident = || "k".repeat(n);
        pool.push(match s.below(6) {
            0 => RPred::flag(ident()),
            1 => RPred::kv(ident(), mk::value(s, Dialect::Full)),
            2 => RPred::kv("feature", text),
            3 => RPred::kv("target_feature", text),
            4 => RPred::kv(*s.pick(&["target_os", "target_abi", "target_arch", "target_env", "target_family", "target_vendor", "panic"]), text),
            _ => RPred::kv("k", text),
        });
        o.label("long predicate");
    }
    let n = if long { s.range(1, 6) } else { big(s, 1_100).min(70_000) };
    let mut x = s.u64() | 1;
    let (before, between) = (s.below(4), s.below(5));
    let (open, each, close) = match before {
        0 => ("all(", "", ")"),
        1 => ("any(", "", ",)"),
        2 => ("not(all(", "", "))"),
        _ => ("", "any(", ""),
    };
    let mut t = String::from(open);
    let mut want = Vec::with_capacity(n);
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let p = &pool[(x >> 33) as usize % pool.len()];
        want.push(classify(p));
        let mut toks = vec![];
        mk::tokens(&refp::Ast::P(p.clone()), &mut toks, &mut |_| false);
        if i > 0 {
            t.push(',');
        }
        t.push_str(each);
        let wrap = (x >> 60) as usize % 8 < between;
        if wrap {
            t.push_str("not(");
        }
        for k in &toks {
            t.push_str(&k.text());
        }
        if wrap {
            t.push(')');
        }
    }
    if each.is_empty() {
        t.push_str(close);
    } else {
        t.push_str(&")".repeat(n));
    }
    o.case(clip(&t, 3000));
    o.nt(n > 20 || long);
    o.compared += want.len() as u64;
    let e = Expression::parse(&t).map_err(|e| format!("{} was rejected: {:?}", clip(&t, 300), e.reason))?;
    let mut asked = Vec::with_capacity(n);
    e.eval(|p: &Predicate<'_>| {
        asked.push(reported(p));
        true
    });
    let listed = cls(&e);
    if asked != listed {
        return Err(format!("{} lists {} predicates and asks about {}, or about others", clip(&t, 300), listed.len(), asked.len()));
    }
    let mut asked = Vec::with_capacity(n);
    let _: Option<bool> = e.eval(|p: &Predicate<'_>| {
        asked.push(reported(p));
        None
    });
    if asked != listed {
        return Err(format!("{} lists {} predicates and asks about {} unknown ones, or about others", clip(&t, 300), listed.len(), asked.len()));
    }
    let mut got = listed;
    got.sort();
    want.sort();
    if got != want {
        let i = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]).unwrap_or(0);
        return Err(format!(
            "{} lists {} predicates, has {}; sorted, number {i} is {} instead of {}",
            clip(&t, 300),
            got.len(),
            want.len(),
            clip(&format!("{:?}", got.get(i)), 200),
            clip(&format!("{:?}", want.get(i)), 200)
        ));
    }
    Ok(())
}

fn single(s: &mut Src, o: &mut Obs) -> R {
    let p = if s.chance(60) {
        RPred {
            key: mk::ident(s, Dialect::Full),
            val: Some(mk::any_text(s).replace('"', "")),
        }
    } else {
        mk::pred(s, Dialect::Full, None)
    };
    let mut toks = vec![];
    mk::tokens(&refp::Ast::P(p.clone()), &mut toks, &mut |_| false);
    let sp = mk::space(s, Dialect::Full);
    let inner = mk::lay(s, &toks, sp, Dialect::Full).inner;
    let (t, at, n) = match s.weighted(&[3, 1, 1, 1, 1]) {
        0 => (inner, 0, 1),
        1 => (format!("cfg({inner})"), 0, 1),
        2 => (format!("not({inner})"), 0, 1),
        3 => (format!("all(q1,{inner})"), 1, 2),
        _ => (format!("any(all(q1),{inner},)"), 1, 2),
    };
    o.case(&*t);
    o.nt(p.val.is_some() || mk::is_reserved(&p.key));
    o.compared += 1;
    let e = Expression::parse(&t).map_err(|e| format!("{t:?} was rejected: {:?}", e.reason))?;
    let got = cls(&e);
    let want = classify(&p);
    if got.len() != n || got[at] != want {
        return Err(format!("{t:?} reports {got:?}, but was written with {want:?}"));
    }
    // the classes agree with the variants as a caller matches them
    let q = e.predicates().nth(at).expect("listed");
    let class_ok = match (&q, p.key.as_str()) {
        (Predicate::Feature(f), "feature") => Some(*f) == p.val.as_deref(),
        (Predicate::TargetFeature(f), "target_feature") => Some(*f) == p.val.as_deref(),
        (Predicate::Test, k) => k == "test",
        (Predicate::DebugAssertions, k) => k == "debug_assertions",
        (Predicate::ProcMacro, k) => k == "proc_macro",
        (Predicate::Target(_), k) => {
            k == "unix" || k == "windows" || k == "panic" || k.starts_with("target_")
        }
        (Predicate::Flag(f), k) => *f == k && p.val.is_none(),
        (Predicate::KeyValue { key, val }, k) => *key == k && Some(*val) == p.val.as_deref(),
        _ => false,
    };
    if !class_ok {
        return Err(format!("{t:?} reports {q:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn relayout(s: &mut Src, o: &mut Obs) -> R {
    let mut op = mk::opts(Dialect::Full);
    op.distinct = s.bool();
    let a = mk::ast(s, op);
    let c1 = mk::case_of(s, a.clone(), Dialect::Full);
    let c2 = mk::case_of(s, a, Dialect::Full);
    let (t1, t2) = (c1.full(), c2.full());
    o.case(format!("{t1}  <=>  {t2}"));
    o.nt(t1 != t2 && c1.ast.funcs() > 0);
    o.label_if(c1.wrapped != c2.wrapped, "wrapper changed");
    o.compared += 1;
    let (e1, e2) = match (Expression::parse(&t1), Expression::parse(&t2)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return Ok(()), // C02's concern
        (a, b) => {
            return Err(format!(
                "of two layouts of one formula, {t1:?} is {} and {t2:?} is {}",
                if a.is_ok() { "accepted" } else { "rejected" },
                if b.is_ok() { "accepted" } else { "rejected" }
            ));
        }
    };
    if cls(&e1) != cls(&e2) {
        return Err(format!("{t1:?} and {t2:?} list different predicates"));
    }
    for _ in 0..3 {
        let salt = s.u64();
        let r = |e: &Expression| {
            (
                e.eval(|p| coin(&reported(p), salt) & 1 == 1),
                e.eval(|p| kcoin(&reported(p), salt)),
            )
        };
        if r(&e1) != r(&e2) {
            return Err(format!("{t1:?} and {t2:?} evaluate differently"));
        }
    }
    Ok(())
}

fn relayout_any(s: &mut Src, o: &mut Obs) -> R {
    let toks = mk::soup(s, Dialect::Full);
    if toks.first() == Some(&Tok::w("cfg")) && toks.get(1) == Some(&Tok::Open) {
        return o.skip();
    }
    let one = |s: &mut Src| {
        let sp = mk::space(s, Dialect::Full);
        let t = mk::lay(s, &toks, sp, Dialect::Full);
        if s.chance(80) { t.wrapped() } else { t.inner }
    };
    let t1 = one(s);
    let t2 = one(s);
    o.case(format!("{t1}  <=>  {t2}"));
    o.nt(t1 != t2 && toks.len() >= 3);
    o.compared += 1;
    let (a, b) = (Expression::parse(&t1), Expression::parse(&t2));
    o.label(if a.is_ok() { "accepted" } else { "rejected" });
    if a.is_ok() != b.is_ok() {
        return Err(format!(
            "{t1:?} is {}, but {t2:?} with the same tokens is {}",
            if a.is_ok() { "accepted" } else { "rejected" },
            if b.is_ok() { "accepted" } else { "rejected" }
        ));
    }
    if let (Ok(a), Ok(b)) = (a, b) {
        if cls(&a) != cls(&b) {
            return Err(format!("{t1:?} and {t2:?} list different predicates"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn tile(t: &str, o: &mut Obs) -> R {
    let inner = refp::strip(t);
    let want = refp::lex(inner);
    o.nt(want.toks.len() >= 2);
    let mut at = 0usize;
    let mut n = 0usize;
    let mut fault = None;
    let mut lexer = Lexer::new(t);
    while let Some(tok) = lexer.next() {
        let tok = match tok {
            Ok(t) => t,
            Err(e) => {
                fault = Some(e);
                if let Some(more) = lexer.next() {
                    return Err(format!("{t:?}: {more:?} follows the error {fault:?}"));
                }
                break;
            }
        };
        o.compared += 1;
        let sp = tok.span.clone();
        if sp.start < at || sp.end < sp.start || sp.end > inner.len() {
            return Err(format!("{t:?}: token {:?} at {sp:?} after {at}", tok.token));
        }
        let Some(gap) = inner.get(at..sp.start) else {
            return Err(format!("{t:?}: token {:?} starts inside a character", tok.token));
        };
        if !gap.chars().all(char::is_whitespace) {
            return Err(format!("{t:?}: {gap:?} before {:?} is in no token", tok.token));
        }
        let Some(src) = inner.get(sp.clone()) else {
            return Err(format!("{t:?}: token {:?} ends inside a character", tok.token));
        };
        let text = match &tok.token {
            Token::Key(k) => (*k).to_owned(),
            Token::Value(v) => format!("\"{v}\""),
            Token::Equals => "=".into(),
            Token::All => "all".into(),
            Token::Any => "any".into(),
            Token::Not => "not".into(),
            Token::OpenParen => "(".into(),
            Token::CloseParen => ")".into(),
            Token::Comma => ",".into(),
        };
        if text != src {
            return Err(format!("{t:?}: token {:?} spans {src:?}", tok.token));
        }
        let Some((wt, ws)) = want.toks.get(n) else {
            return Err(format!("{t:?}: token {:?} is one too many", tok.token));
        };
        let same = match (&tok.token, wt) {
            (Token::Key(k), Tok::Word(w)) => k == w && !refp::is_kw(w),
            (Token::Value(v), Tok::Val(w)) => v == w,
            (Token::All, Tok::Word(w)) => w == "all",
            (Token::Any, Tok::Word(w)) => w == "any",
            (Token::Not, Tok::Word(w)) => w == "not",
            (Token::Equals, Tok::Eq)
            | (Token::OpenParen, Tok::Open)
            | (Token::CloseParen, Tok::Close)
            | (Token::Comma, Tok::Comma) => true,
            _ => false,
        };
        if !same || *ws != sp {
            return Err(format!(
                "{t:?}: token {n} is {:?} at {sp:?}, should be {wt:?} at {ws:?}",
                tok.token
            ));
        }
        n += 1;
        at = sp.end;
    }
    if n != want.toks.len() {
        return Err(format!("{t:?}: {n} tokens, should be {}", want.toks.len()));
    }
    match (&fault, &want.bad) {
        (None, None) => {
            if !inner[at..].chars().all(char::is_whitespace) {
                return Err(format!("{t:?}: {:?} is in no token", &inner[at..]));
            }
        }
        (Some(e), Some(b)) => {
            let w = match b {
                LexFault::UnclosedQuote(r) | LexFault::Junk(r) => r,
            };
            if e.span.start != w.start || e.span.end > inner.len() {
                return Err(format!("{t:?}: fault at {:?}, should be at {w:?}", e.span));
            }
        }
        (Some(e), None) => return Err(format!("{t:?}: spurious fault {e:?}")),
        (None, Some(b)) => return Err(format!("{t:?}: fault {b:?} not reported")),
    }
    o.label(if fault.is_some() { "with a fault" } else { "clean" });
    other_ways(t, n + usize::from(fault.is_some()))
}

/// The tokens asked for through the provided methods of an iterator.
fn other_ways(t: &str, n: usize) -> R {
    let show = |i: Result<LexerToken<'_>, cfg_expr::ParseError>| match i {
        Ok(t) => format!("{:?} at {:?}", t.token, t.span),
        Err(e) => format!("{e:?}"),
    };
    let mut all = Vec::with_capacity(n);
    let mut lexer = Lexer::new(t);
    for left in (0..=n).rev() {
        let (lo, hi) = lexer.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{t:?}: {left} tokens left, announced are {lo} to {hi:?}"));
        }
        if let Some(i) = lexer.next() {
            all.push(show(i));
        }
    }
    let k = n / 2;
    let mut part = Lexer::new(t);
    let nth = part.nth(k).map(show);
    let behind: Vec<String> = part.map(show).collect();
    let mut head = Lexer::new(t);
    let mut first: Vec<String> = head.by_ref().take(k).map(show).collect();
    head.for_each(|i| first.push(show(i)));
    let folded = Lexer::new(t).fold(Vec::new(), |mut v, i| {
        v.push(show(i));
        v
    });
    if Lexer::new(t).count() != n
        || Lexer::new(t).last().map(show).as_ref() != all.last()
        || nth.as_ref() != all.get(k)
        || behind.as_slice() != all.get(k + 1..).unwrap_or_default()
        || first != all
        || folded != all
        || Lexer::new(t).skip(k).next().map(show).as_ref() != all.get(k)
    {
        return Err(format!("{t:?}: count, last, nth({k}), take({k}), fold or skip({k}) give other tokens than next"));
    }
    Ok(())
}

fn tiling(s: &mut Src, o: &mut Obs) -> R {
    let t = gen_text(s);
    o.case(&*t);
    if outside_quotes(&t).any(ambiguous_space) {
        return o.skip();
    }
    tile(&t, o)
}

fn outside_quotes(t: &str) -> impl Iterator<Item = char> + '_ {
    let mut q = false;
    refp::strip(t).chars().filter(move |c| {
        if *c == '"' {
            q = !q;
        }
        !q
    })
}

const LEXA: &[&str] = &[
    "a", "l", "all", "not", "_", "1", "(", ")", ",", "=", "\"", " ", "é",
];

fn tiling_short(s: &mut Src, o: &mut Obs) -> R {
    let t: String = nth(s.u64(), LEXA.len() as u64).iter().map(|i| LEXA[*i]).collect();
    o.case(&*t);
    tile(&t, o)?;
    tile(&format!("cfg({t})"), o)
}

// ---------------------------------------------------------------- C21

fn observe(e: &Expression, salts: &[u64]) -> (Vec<XP>, Vec<bool>, Vec<Option<bool>>, String) {
    (
        cls(e),
        salts.iter().map(|z| e.eval(|p| coin(&reported(p), *z) & 1 == 1)).collect(),
        salts.iter().map(|z| e.eval(|p| kcoin(&reported(p), *z))).collect(),
        e.original().to_owned(),
    )
}

fn text_kept(s: &mut Src, o: &mut Obs) -> R {
    let c = if s.chance(40) {
        let toks = mk::soup(s, Dialect::Full);
        let sp = mk::space(s, Dialect::Full);
        let t = mk::lay(s, &toks, sp, Dialect::Full);
        if s.chance(60) { t.wrapped() } else { t.inner }
    } else {
        mk::case(s, mk::opts(Dialect::Full)).full()
    };
    o.case(&*c);
    let Ok(e) = Expression::parse(&c) else {
        return o.skip();
    };
    let salts = [s.u64(), s.u64()];
    let first = observe(&e, &salts);
    o.nt(first.0.len() >= 2);
    o.compared += 1;
    if e.original() != refp::strip(&c) {
        return Err(format!("{c:?} has original {:?}", e.original()));
    }
    let again = Expression::parse(e.original())
        .map_err(|x| format!("the original of {c:?}, {:?}, is rejected: {x:?}", e.original()))?;
    if again != e || observe(&again, &salts) != first {
        return Err(format!("the original of {c:?} parses to something else"));
    }
    let k = e.clone();
    #[allow(clippy::redundant_clone)]
    let k2 = k.clone();
    if k != e || format!("{k:?}") != format!("{e:?}") {
        return Err(format!("a clone of {c:?} differs from it"));
    }
    // into one which holds something else
    for was in ["a", "any(a, b, c, d, e, f, g, not(unix), h = \"i\")", e.original()] {
        let Ok(mut m) = Expression::parse(was) else { continue };
        m.clone_from(&e);
        if m != e || m.original() != e.original() || observe(&m, &salts) != first {
            return Err(format!("{c:?} cloned into {was:?} differs from it"));
        }
    }
    drop(e);
    // reuse the memory the source had
    let noise: Vec<String> = (0..3).map(|i| "~".repeat(c.len() + i)).collect();
    std::hint::black_box(&noise);
    if observe(&k, &salts) != first || k != k2 || k != again {
        return Err(format!("a clone of {c:?} changes when its source is dropped"));
    }
    drop(k);
    if observe(&k2, &salts) != first {
        return Err(format!("a clone of a clone of {c:?} changes when its source is dropped"));
    }
    Ok(())
}

/// Two long texts which differ in one place, or in none.
fn long_pair(s: &mut Src) -> (String, String) {
    let n = dict::size(s, 20_000).max(2);
    let (head, unit, tail) = *s.pick(&[
        ("", "k", ""),
        ("a = \"", "v", "\""),
        ("all(", "a,", "b)"),
        ("any(", "a = \"b\", ", "c)"),
        ("any(", "not(a),", ")"),
        ("all(", " \n", "a, b)"),
        ("feature = \"", "é", "\""),
    ]);
    let mut t = format!("{head}{}{tail}", unit.repeat((n / unit.len()).max(1)));
    if s.chance(30) {
        t = format!("cfg({t})");
    }
    let mut v: Vec<char> = t.chars().collect();
    let len = v.len();
    let near = s.below(12).min(len - 1);
    let i = match s.weighted(&[3, 2, 2]) {
        0 => len - 1 - near,
        1 => near,
        _ => (s.u32() as usize) % len,
    };
    // something which can be changed, from there on
    let i = (i..len).chain((0..i).rev()).find(|i| v[*i].is_alphanumeric() || v[*i].is_whitespace()).unwrap_or(0);
    match s.weighted(&[4, 3, 2, 2, 2]) {
        0 if v[i].is_ascii_alphabetic() => v[i] = v[i].to_ascii_uppercase(),
        1 | 0 => v[i] = if v[i].is_whitespace() { *s.pick(&['\t', '\r', '\u{a0}']) } else { *s.pick(&['z', '_', 'B']) },
        2 => {
            let c = v[i];
            v.insert(i, c);
        }
        3 => {
            let j = (i + 1 + s.below(4)) % len;
            v.swap(i, j);
        }
        _ => {}
    }
    (t, v.into_iter().collect())
}

fn equality(s: &mut Src, o: &mut Obs) -> R {
    let (t1, t2) = if s.chance(8) { long_pair(s) } else { short_pair(s) };
    equal_pair(&t1, &t2, o)
}

fn short_pair(s: &mut Src) -> (String, String) {
    let mut op: Opts = mk::opts(Dialect::Full);
    op.budget = 8;
    op.max_depth = 4;
    let a = mk::ast(s, op);
    let c1 = mk::case_of(s, a.clone(), Dialect::Full);
    let t1 = c1.full();
    let t2 = match s.weighted(&[2, 3, 3, 3, 2, 2, 3]) {
        0 => t1.clone(),
        1 => mk::case_of(s, a, Dialect::Full).full(),
        2 => {
            if c1.wrapped { c1.text.inner.clone() } else { c1.text.wrapped() }
        }
        3 => {
            // one character changed
            let mut v: Vec<char> = t1.chars().collect();
            let i = s.below(v.len());
            v[i] = match v[i] {
                'a' => 'b',
                ' ' => '\n',
                'x' => 'y',
                '1' => '2',
                c if c.is_ascii_lowercase() => 'z',
                c => c,
            };
            v.into_iter().collect()
        }
        4 => {
            let mut toks = c1.toks.clone();
            for t in &mut toks {
                if let Tok::Word(w) = t {
                    if w == "all" {
                        *w = "any".into();
                    } else if w == "any" {
                        *w = "all".into();
                    }
                }
            }
            mk::lay(s, &toks, Space::Pretty, Dialect::Full).inner
        }
        5 => format!("{t1} "),
        _ => mk::case(s, op).full(),
    };
    (t1, t2)
}

fn equal_pair(t1: &str, t2: &str, o: &mut Obs) -> R {
    o.case(format!("{t1}  =?=  {t2}"));
    let (Ok(a), Ok(b)) = (Expression::parse(t1), Expression::parse(t2)) else {
        return o.skip();
    };
    o.nt(true);
    o.compared += 1;
    let same = refp::strip(t1) == refp::strip(t2);
    o.label(if same { "same text" } else { "different text" });
    if (a == b) != same || (b == a) != same || (a != b) == same || a.clone() != a {
        return Err(format!(
            "{t1:?} and {t2:?} are {}",
            if a == b { "equal" } else { "unequal" }
        ));
    }
    Ok(())
}
