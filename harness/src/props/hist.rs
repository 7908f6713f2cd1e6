//! C22: results do not depend on history or concurrency.

use crate::engine::{Kind, Obs, R, Sub};
use crate::dict;
use crate::mk::{self, Dialect};
use crate::props::tgt;
use crate::props::lang::{cls, coin, kcoin};
use crate::refp::{self, Ast, Tok, XP, classify, reported};
use crate::src::Src;
use cfg_expr::Expression;
use cfg_expr::targets::{ALL_BUILTINS, get_builtin_target_by_triple};
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C22",
            name: "histories",
            kind: Kind::Rand { quick: 60_000, thorough: 25, len: 1500 },
            both: true,
            rule: "a sequence of up to 80 parses, listings, evaluations (plain, three-valued, nested in another one's callback, abandoned by a panicking callback), clones, drops, comparisons, target lookups and target questions over a pool of look-alike texts (same length, same prefix, other layout, broken), each checked against the history-free reference model, errors against the first answer ever given for that text and the reference verdict; non-trivial: 10 or more operations on 3 or more texts",
            run: histories,
        },
        Sub {
            prop: "C22",
            name: "worn",
            kind: Kind::Rand { quick: 3_000, thorough: 12, len: 1500 },
            both: true,
            rule: "one thing done up to 4 000 times (texts refused, evaluations abandoned, token sequences half read, lookups failed, expressions held at once, different texts and names) or once in a large way (up to 120 000 functions unclosed, nested, operands or characters), here and on a thread which ends: a pool of texts gives the same answers as before it, and a history over them the right ones; non-trivial: all",
            run: worn,
        },
        Sub {
            prop: "C22",
            name: "threads",
            kind: Kind::Rand { quick: 4_000, thorough: 15, len: 1500 },
            both: true,
            rule: "2 to 6 threads run such sequences at the same time over one pool, sharing expressions by reference; non-trivial: 3 or more texts",
            run: threads,
        },
        Sub {
            prop: "C22",
            name: "fresh_process",
            kind: Kind::Rand { quick: 160, thorough: 10, len: 1500 },
            both: true,
            rule: "20 texts parsed, listed and evaluated in this process, with all its history, and in a new one, in a different order: same answers and errors; non-trivial: all",
            run: fresh,
        },
    ]
}

#[derive(Clone)]
struct Entry {
    text: String,
    ast: Option<Ast>,
    /// What is listed: a permutation of the leaves, fixed by the first listing
    sorted: Vec<XP>,
}

fn entry(text: String) -> Entry {
    let ast = refp::parse(&text);
    let mut sorted: Vec<XP> = ast
        .as_ref()
        .map(|a| a.leaf_vec().into_iter().map(classify).collect())
        .unwrap_or_default();
    sorted.sort();
    Entry { text, ast, sorted }
}

/// Texts easily taken for one another.
fn pool(s: &mut Src) -> Vec<Entry> {
    let mut op = mk::opts(Dialect::Full);
    op.budget = 10;
    op.max_depth = 4;
    let mut v = Vec::new();
    let bases = s.range(1, 3);
    for _ in 0..bases {
        let c = mk::case(s, op);
        v.push(c.full());
        for _ in 0..s.range(1, 5) {
            let t = match s.below(10) {
                8 => {
                    // the same letters in another order
                    let mut names: Vec<usize> = (0..c.toks.len()).filter(|i| c.toks[*i].is_key()).collect();
                    let from = names.clone();
                    s.shuffle(&mut names);
                    let mut toks = c.toks.clone();
                    for (a, b) in from.iter().zip(&names) {
                        toks[*a] = c.toks[*b].clone();
                    }
                    mk::lay(s, &toks, mk::Space::Pretty, Dialect::Full).inner
                }
                9 => {
                    // the same ends, another middle
                    let mut t = c.full();
                    let at = (t.len() / 2..=t.len()).find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                    t.insert_str(at, *s.pick(&["x", " ", "é", ",", "\"", ")", "(", "0"]));
                    t
                }
                0 => mk::case_of(s, c.ast.clone(), Dialect::Full).full(),
                1 => {
                    let swap = |t: &Tok| match t {
                        Tok::Word(w) if w == "all" => Tok::w("any"),
                        Tok::Word(w) if w == "any" => Tok::w("all"),
                        t => t.clone(),
                    };
                    let toks: Vec<Tok> = c.toks.iter().map(swap).collect();
                    mk::lay(s, &toks, mk::Space::Pretty, Dialect::Full).inner
                }
                2 => {
                    // the same length, one letter changed
                    let mut ch: Vec<char> = c.full().chars().collect();
                    let i = s.below(ch.len());
                    if ch[i].is_ascii_lowercase() {
                        ch[i] = if ch[i] == 'q' { 'z' } else { 'q' };
                    }
                    ch.into_iter().collect()
                }
                3 => {
                    let mut t = c.full();
                    t.pop();
                    t
                }
                4 => format!("{})", c.full()),
                5 => format!("not({})", c.text.inner),
                6 => format!("{}, a", c.text.inner),
                _ => {
                    let mut toks = c.toks.clone();
                    toks.reverse();
                    mk::lay(s, &toks, mk::Space::Pretty, Dialect::Full).inner
                }
            };
            v.push(t);
        }
    }
    v.push("a".into());
    v.into_iter().map(entry).collect()
}

/// The first error ever given for a text, in this process.
fn error_book() -> &'static Mutex<HashMap<String, String>> {
    static B: OnceLock<Mutex<HashMap<String, String>>> = OnceLock::new();
    B.get_or_init(Mutex::default)
}

thread_local! {
    /// One piece of memory for all texts of a thread
    static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn check_parse(en: &Entry) -> Result<Option<Expression>, String> {
    let parsed = BUFFER.with(|b| match b.try_borrow_mut() {
        Ok(mut b) => {
            b.clear();
            b.push_str(&en.text);
            Expression::parse(&b)
        }
        Err(_) => Expression::parse(&en.text),
    });
    match (parsed, &en.ast) {
        (Ok(e), Some(_)) => {
            if e.original() != refp::strip(&en.text) {
                return Err(format!("{:?} has original {:?}", en.text, e.original()));
            }
            Ok(Some(e))
        }
        (Err(e), None) => {
            if e.original != refp::strip(&en.text) {
                return Err(format!("the error for {:?} carries {:?}", en.text, e.original));
            }
            let said = format!("{:?} {:?} {e}", e.reason, e.span);
            let mut b = error_book().lock().unwrap_or_else(|p| p.into_inner());
            if b.len() > 300_000 {
                b.clear();
            }
            let first = b.entry(en.text.clone()).or_insert_with(|| said.clone());
            if *first != said {
                return Err(format!("{:?} is rejected with {said}, before with {first}", en.text));
            }
            Ok(None)
        }
        (Ok(_), None) => Err(format!("{:?} was accepted", en.text)),
        (Err(e), Some(_)) => Err(format!("{:?} was rejected: {:?}", en.text, e.reason)),
    }
}

fn check_list(en: &Entry, e: &Expression) -> R {
    let mut got = cls(e);
    got.sort();
    if got != en.sorted {
        return Err(format!("{:?} lists {got:?}", en.text));
    }
    Ok(())
}

fn ast(en: &Entry) -> &Ast {
    en.ast.as_ref().expect("accepted")
}

fn check_eval(en: &Entry, e: &Expression, salt: u64) -> R {
    let want = ast(en).bool(&mut |p| coin(&classify(p), salt) & 1 == 1);
    let got = e.eval(|p| coin(&reported(p), salt) & 1 == 1);
    if want != got {
        return Err(format!("{:?} evaluates to {got}, should be {want}", en.text));
    }
    Ok(())
}

fn check_kleene(en: &Entry, e: &Expression, salt: u64) -> R {
    let want = ast(en).kleene(&mut |p| kcoin(&classify(p), salt));
    let got = e.eval(|p| kcoin(&reported(p), salt));
    if want != got {
        return Err(format!("{:?} evaluates to {got:?}, should be {want:?}", en.text));
    }
    Ok(())
}

/// A lookup, or a question to a builtin target.
fn check_target(s: &mut Src) -> R {
    let f = s.pick(tgt::table());
    if s.bool() {
        let mut t = f.triple.clone();
        match s.below(4) {
            0 => t.push(*s.pick(&['a', ' ', '-', '4'])),
            1 => {
                t.pop();
            }
            _ => {}
        }
        let want = ALL_BUILTINS.iter().position(|x| x.triple.as_str() == t);
        let got = get_builtin_target_by_triple(&t);
        if got.map(|x| x.triple.as_str().to_owned()) != want.map(|_| t.clone()) {
            return Err(format!("looking {t:?} up gives {got:?}"));
        }
        return Ok(());
    }
    let Some(info) = ALL_BUILTINS.iter().find(|x| x.triple.as_str() == f.triple) else { return Ok(()) };
    let (k, v) = &s.pick(tgt::all_questions()).clone();
    let Some(p) = tgt::tp_of(k, v) else { return Ok(()) };
    let want = tgt::holds(&tgt::facts_of(info), k, v);
    if p.matches(info) != want {
        return Err(format!("{k} = {v:?} is {} for {}", !want, f.triple));
    }
    #[cfg(feature = "targets")]
    if let Ok(t) = f.triple.parse::<cfg_expr::target_lexicon::Triple>() {
        let said = p.matches(&t);
        let mut b = match_book().lock().unwrap_or_else(|p| p.into_inner());
        if *b.entry(format!("{} {k} {v}", f.triple)).or_insert(said) != said {
            return Err(format!("{k} = {v:?} is {said} for the parsed triple {}, before {}", f.triple, !said));
        }
    }
    Ok(())
}

/// A description in one place which is asked, changed there and asked again.
fn check_changed(s: &mut Src) -> R {
    let mut f = tgt::gen_facts(s);
    let mut at = Box::new(tgt::build(&f));
    let mut qs = tgt::true_answers(&f);
    qs.truncate(40);
    let q: Vec<_> = (0..s.range(1, 3)).map(|_| s.pick(&qs).clone()).collect();
    for step in 0..s.range(2, 6) {
        for _ in 0..s.range(1, 3) {
            for (k, v) in &q {
                let Some(p) = tgt::tp_of(k, v) else { continue };
                let want = tgt::holds(&f, k, v);
                if p.matches(&*at) != want {
                    return Err(format!("{k} = {v:?} is {} for {f:?}, changed in place {step} times", !want));
                }
            }
        }
        match s.below(3) {
            0 => {
                // all of it, in the place of the former
                f = tgt::gen_facts(s);
                *at = tgt::build(&f);
            }
            1 => {
                // another one, most times where the former was
                drop(at);
                let n = s.below(11);
                let other = tgt::gen_facts(s);
                tgt::swap_field(&mut f, other, n);
                at = Box::new(tgt::build(&f));
            }
            _ => {
                let n = s.below(11);
                let other = tgt::gen_facts(s);
                tgt::swap_field(&mut f, other, n);
                *at = tgt::build(&f);
            }
        }
    }
    Ok(())
}

/// The first answer ever given for a parsed triple, in this process.
#[cfg(feature = "targets")]
fn match_book() -> &'static Mutex<HashMap<String, bool>> {
    static B: OnceLock<Mutex<HashMap<String, bool>>> = OnceLock::new();
    B.get_or_init(Mutex::default)
}

struct Slot {
    i: usize,
    e: Expression,
}

fn play(s: &mut Src, pool: &[Entry], shared: &[Slot], n: usize, used: &mut u64) -> R {
    let mut slots: Vec<Slot> = Vec::new();
    for _ in 0..n {
        if s.left() == 0 {
            break;
        }
        let op = s.weighted(&[12, 6, 8, 6, 4, 6, 6, 4, 6, 4, 4, 1, 3]);
        if op == 12 {
            if s.chance(90) { check_changed(s)? } else { check_target(s)? }
            continue;
        }
        if op == 0 || (slots.is_empty() && shared.is_empty()) {
            let i = s.below(pool.len());
            *used |= 1 << i.min(63);
            if let Some(e) = check_parse(&pool[i])? {
                if slots.len() < 12 {
                    slots.push(Slot { i, e });
                }
            }
            continue;
        }
        let k = s.below(slots.len() + shared.len());
        let get = |k: usize| -> &Slot {
            if k < slots.len() { &slots[k] } else { &shared[k - slots.len()] }
        };
        let cur = get(k);
        let (i, en) = (cur.i, &pool[cur.i]);
        let salt = u64::from(s.u16());
        match op {
            1 => check_list(en, &cur.e)?,
            2 => check_eval(en, &cur.e, salt)?,
            3 => check_kleene(en, &cur.e, salt)?,
            4 => {
                let e = cur.e.clone();
                if slots.len() < 12 {
                    slots.push(Slot { i, e });
                }
            }
            5 => {
                if k < slots.len() {
                    slots.swap_remove(k);
                }
            }
            6 => {
                // nested: another expression is parsed and evaluated in the callback
                let j = get(s.below(slots.len() + shared.len()));
                let p = &pool[s.below(pool.len())];
                let mut inner: R = Ok(());
                let want = ast(en).bool(&mut |p| coin(&classify(p), salt) & 1 == 1);
                let got = cur.e.eval(|q| {
                    let x = reported(q);
                    let r = check_eval(&pool[j.i], &j.e, salt + 1)
                        .and_then(|()| check_kleene(&pool[j.i], &j.e, salt + 2))
                        .and_then(|()| check_list(&pool[j.i], &j.e))
                        .and_then(|()| check_eval(en, &cur.e, salt + 3))
                        .and_then(|()| check_parse(p).map(drop));
                    if inner.is_ok() {
                        inner = r;
                    }
                    if reported(q) != x && inner.is_ok() {
                        inner = Err(format!("{:?}: a predicate changes while asked for", en.text));
                    }
                    coin(&x, salt) & 1 == 1
                });
                inner?;
                if want != got {
                    return Err(format!("{:?} evaluates to {got}, should be {want}, with others evaluated meanwhile", en.text));
                }
            }
            7 => {
                // abandoned
                let m = en.sorted.len();
                if m > 0 {
                    let at = s.below(m);
                    let mut c = 0;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        cur.e.eval(|q| {
                            if c == at {
                                std::panic::resume_unwind(Box::new("abandoned"));
                            }
                            c += 1;
                            kcoin(&reported(q), salt)
                        })
                    }));
                    if r.is_ok() {
                        return Err(format!("{:?}: the callback was not asked {m} times", en.text));
                    }
                    check_eval(en, &cur.e, salt)?;
                }
            }
            8 => {
                let j = get(s.below(slots.len() + shared.len()));
                let same = refp::strip(&en.text) == refp::strip(&pool[j.i].text);
                if (cur.e == j.e) != same {
                    return Err(format!("{:?} == {:?} is {}", en.text, pool[j.i].text, !same));
                }
            }
            9 => {
                // two listings interleaved
                let j = get(s.below(slots.len() + shared.len()));
                let (mut a, mut b) = (cur.e.predicates(), j.e.predicates());
                let (mut va, mut vb) = (Vec::new(), Vec::new());
                loop {
                    let (x, y) = (a.next(), b.next());
                    if x.is_none() && y.is_none() {
                        break;
                    }
                    va.extend(x.map(|p| reported(&p)));
                    vb.extend(y.map(|p| reported(&p)));
                }
                if va != cls(&cur.e) || vb != cls(&j.e) {
                    return Err(format!("listings of {:?} and {:?} interfere", en.text, pool[j.i].text));
                }
            }
            11 => {
                // evaluations nested in one another, deeper and deeper
                let depth = s.range(2, 20);
                fn down(pool: &[Entry], all: &[&Slot], depth: usize, salt: u64) -> R {
                    let sl = all[depth % all.len()];
                    let en = &pool[sl.i];
                    let want = ast(en).bool(&mut |p| coin(&classify(p), salt) & 1 == 1);
                    let mut inner: R = Ok(());
                    let mut first = true;
                    let got = sl.e.eval(|q| {
                        if first && depth > 0 {
                            first = false;
                            inner = down(pool, all, depth - 1, salt + 1);
                        }
                        coin(&reported(q), salt) & 1 == 1
                    });
                    inner?;
                    if want != got {
                        return Err(format!("{:?} evaluates to {got}, should be {want}, {depth} evaluations deep", en.text));
                    }
                    Ok(())
                }
                let all: Vec<&Slot> = slots.iter().chain(shared).filter(|x| !pool[x.i].sorted.is_empty()).collect();
                if !all.is_empty() {
                    down(pool, &all, depth, salt)?;
                }
            }
            _ => {
                let again = Expression::parse(&en.text).map_err(|e| format!("{:?} was rejected: {e:?}", en.text))?;
                if again != cur.e || cls(&again) != cls(&cur.e) {
                    return Err(format!("{:?} parses differently the second time", en.text));
                }
            }
        }
    }
    for sl in &slots {
        check_list(&pool[sl.i], &sl.e)?;
        check_eval(&pool[sl.i], &sl.e, 7)?;
    }
    Ok(())
}

fn describe(pool: &[Entry]) -> String {
    pool.iter().map(|e| format!("{:?}", e.text)).collect::<Vec<_>>().join("; ")
}

fn histories(s: &mut Src, o: &mut Obs) -> R {
    let pool = pool(s);
    o.case(format!("pool {} ({} further choices)", describe(&pool), s.left()));
    let mut used = 0;
    let n = s.range(5, 80);
    let r = play(s, &pool, &[], n, &mut used);
    o.compared += n as u64;
    o.nt(n >= 10 && used.count_ones() >= 3);
    o.label_if(pool.iter().any(|e| e.ast.is_none()), "with rejected texts");
    r
}

/// One thing done very often, or once in a large way; nothing may remain of it.
fn wear(s: &mut Src) -> (String, Box<dyn Fn() + Sync>) {
    let n = dict::size(s, 120_000).max(1);
    let few = n.min(4_000);
    match s.below(10) {
        0 => {
            let f = *s.pick(&["all(", "any(", "not(", "not(all(", "any(a,"]);
            let t = f.repeat(n);
            (format!("{n} times {f:?} in a text"), Box::new(move || drop(std::hint::black_box(Expression::parse(&t)))))
        }
        1 => {
            let t = format!("{}a{}", "not(".repeat(n), ")".repeat(n));
            (
                format!("not nested {n} deep"),
                Box::new(move || {
                    let e = Expression::parse(&t).expect("well-formed");
                    std::hint::black_box(e.eval(|_| Some(true)));
                }),
            )
        }
        2 => {
            let t = format!("any({})", "a,".repeat(n));
            (
                format!("{n} operands"),
                Box::new(move || {
                    let e = Expression::parse(&t).expect("well-formed");
                    std::hint::black_box(e.clone().predicates().count());
                }),
            )
        }
        3 => {
            let t = *s.pick(&["a(", "all(", "not(a, b)", "a b", "", "\"", "a =", "target_os", "target_has_atomic = \"x\"", "a, b", ")", "all(any(not(unix), test = \"\"))"]);
            (
                format!("{few} times the text {t:?}"),
                Box::new(move || {
                    for _ in 0..few {
                        if let Err(e) = Expression::parse(t) {
                            std::hint::black_box(e.to_string());
                        }
                    }
                }),
            )
        }
        4 => (
            format!("{few} evaluations abandoned"),
            Box::new(move || {
                let e = Expression::parse("any(a, all(b, not(c)))").expect("well-formed");
                for i in 0..few {
                    let mut k = 0;
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        e.eval(|_| {
                            if k == i % 3 {
                                std::panic::resume_unwind(Box::new("abandoned"));
                            }
                            k += 1;
                            true
                        })
                    }));
                }
            }),
        ),
        5 => (
            format!("{few} different texts"),
            Box::new(move || {
                for i in 0..few {
                    let t = format!("all(k{i}, feature = \"{i}\", target_os = \"os{i}\")");
                    let e = Expression::parse(&t).expect("well-formed");
                    std::hint::black_box(e.predicates().count());
                }
            }),
        ),
        6 => (
            format!("{few} half-read token sequences and listings"),
            Box::new(move || {
                for i in 0..few {
                    let mut l = cfg_expr::expr::lexer::Lexer::new("all(a, any(b = \"c\"), \"d");
                    std::hint::black_box(l.nth(i % 12).is_some());
                    if let Ok(e) = Expression::parse("all(a, b, c)") {
                        std::hint::black_box(e.predicates().nth(i % 3).is_some());
                    }
                }
            }),
        ),
        7 => (
            format!("{few} failed lookups and as many names"),
            Box::new(move || {
                for i in 0..few {
                    let t = format!("x86_64-unknown-{i}");
                    std::hint::black_box(get_builtin_target_by_triple(&t).is_some());
                    std::hint::black_box(cfg_expr::targets::Os::new(t));
                }
            }),
        ),
        8 => (
            format!("{} expressions held at once", few),
            Box::new(move || {
                let v: Vec<Expression> =
                    (0..few).map(|i| Expression::parse(&format!("not(a{i})")).expect("well-formed")).collect();
                std::hint::black_box(v.iter().filter(|e| e.eval(|_| false)).count());
            }),
        ),
        _ => {
            let t = format!("a = \"{}\"", "é".repeat(n));
            (format!("a value of {n} characters"), Box::new(move || drop(std::hint::black_box(Expression::parse(&t)))))
        }
    }
}

fn worn(s: &mut Src, o: &mut Obs) -> R {
    let pool = pool(s);
    let (what, f) = wear(s);
    let before: Vec<String> = pool.iter().map(|e| answers(&e.text)).collect();
    o.case(format!("{what}, then pool {}", describe(&pool)));
    o.nt(true);
    f();
    if s.bool() {
        // on a thread which ends
        std::thread::scope(|sc| sc.spawn(|| f()).join()).map_err(|_| format!("{what}: panics on another thread"))?;
    }
    for (e, b) in pool.iter().zip(&before) {
        o.compared += 1;
        let now = answers(&e.text);
        if now != *b {
            return Err(format!("{:?} gives {now} after {what}, before it {b}", e.text));
        }
    }
    let mut used = 0;
    play(s, &pool, &[], 20, &mut used).map_err(|e| format!("after {what}: {e}"))
}

fn threads(s: &mut Src, o: &mut Obs) -> R {
    let pool = Arc::new(pool(s));
    o.case(format!("pool {} ({} further choices)", describe(&pool), s.left()));
    o.nt(pool.len() >= 3);
    let mut shared = Vec::new();
    for (i, en) in pool.iter().enumerate().take(4) {
        if let Some(e) = check_parse(en)? {
            shared.push(Slot { i, e });
        }
    }
    let n = s.range(2, 6);
    let seeds: Vec<Vec<u8>> = (0..n).map(|_| (0..160).map(|_| s.u8()).collect()).collect();
    let barrier = Barrier::new(n);
    let r: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|b| {
                let (pool, shared, barrier) = (&pool, &shared, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    let mut used = 0;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        play(&mut Src::new(b), pool, shared, 40, &mut used)
                    }));
                    r.unwrap_or_else(|_| Err("a thread panicked".into()))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    o.compared += n as u64 * 40;
    for x in &r {
        x.clone()?;
    }
    for sl in &shared {
        check_eval(&pool[sl.i], &sl.e, 3)?;
    }
    Ok(())
}

/// What a process says about a text.
pub fn answers(t: &str) -> String {
    match Expression::parse(t) {
        Ok(e) => format!(
            "ok {:?} {:?} {:?} {:?}",
            e.original(),
            cls(&e),
            (0..8u64).map(|z| e.eval(|p| coin(&reported(p), z) & 1 == 1)).collect::<Vec<_>>(),
            (0..8u64).map(|z| e.eval(|p| kcoin(&reported(p), z))).collect::<Vec<_>>(),
        ),
        Err(e) => format!("err {e:?} {e}"),
    }
}

fn fresh(s: &mut Src, o: &mut Obs) -> R {
    let mut texts: Vec<String> = Vec::new();
    while texts.len() < 20 {
        texts.extend(pool(s).into_iter().map(|e| e.text));
    }
    o.case(texts.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join("; "));
    o.nt(true);
    let here: Vec<String> = texts.iter().map(|t| answers(t)).collect();
    let mut order: Vec<usize> = (0..texts.len()).collect();
    s.shuffle(&mut order);
    let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
    c.arg("answers");
    for i in &order {
        c.arg(crate::engine::hex(texts[*i].as_bytes()));
    }
    let out = c.output().expect("run self");
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = said.lines().collect();
    if !out.status.success() || lines.len() != order.len() {
        return Err(format!("a new process fails on {texts:?}: {}", out.status));
    }
    for (k, i) in order.iter().enumerate() {
        o.compared += 1;
        let there = String::from_utf8_lossy(&crate::engine::unhex(lines[k])).into_owned();
        if there != here[*i] {
            return Err(format!("{:?} gives {} here, but {there} in a new process", texts[*i], here[*i]));
        }
    }
    Ok(())
}
