//! C19 agreement with rustc, C20 agreement with Cargo.

use crate::dict;
use crate::engine::{Kind, Obs, R, Sub, clip, fnv};
use crate::mk::{self, Dialect};
use crate::props::tgt::{self, Facts};
use crate::refp::{Ast, RPred, Tok, XP, check_pred, reported};
use crate::src::Src;
use cargo_platform::{Cfg, CfgExpr, Ident, Platform};
use cfg_expr::targets::{ALL_BUILTINS, TargetInfo};
use cfg_expr::{Expression, Predicate};
use std::collections::{BTreeSet, HashMap};
use std::process::{Command, Stdio};
use std::str::FromStr as _;
use std::sync::{Arc, Mutex, OnceLock};

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C19",
            name: "verdicts",
            kind: Kind::Rand { quick: 2_400, thorough: 30, len: 14_000 },
            both: true,
            rule: "a batch of formulas and near misses put into one source file as cfg attributes and expanded by the installed rustc for one builtin target with a random set of --cfg flags, pairs, features and target features; everything accepted here must be accepted there, and the items kept must be those with verdict true; targets for which that rustc reports what 1.86.0 did; non-trivial: some accepted expression has two predicates or more",
            run: rustc_batch,
        },
        Sub {
            prop: "C19",
            name: "every_value",
            kind: Kind::Enum { count: |_| rustc_targets().len() as u64 },
            both: false,
            rule: "for one builtin target, every target key with every value any builtin target has or the crate names, alone and negated, in one source file; the same comparison; every case non-trivial",
            run: rustc_values,
        },
        Sub {
            prop: "C19",
            name: "names",
            kind: Kind::Enum { count: |t| if t { 96 } else { 48 } },
            both: false,
            rule: "the words and texts of the sources as target features, as features, as values and keys of pairs and as flags, each set or not; the same comparison; every case non-trivial",
            run: rustc_names,
        },
        Sub {
            prop: "C20",
            name: "formulas",
            kind: Kind::Rand { quick: 400_000, thorough: 30, len: 400 },
            both: true,
            rule: "well-formed formulas in the dialect Cargo reads, plain and inside cfg( ), for a target and a set of options: both accept, same verdict; non-trivial: a function is used",
            run: cargo_formulas,
        },
        Sub {
            prop: "C20",
            name: "near_misses",
            kind: Kind::Rand { quick: 600_000, thorough: 30, len: 200 },
            both: true,
            rule: "token sequences close to the language: accepted here exactly when Cargo accepts it (without the trailing commas tolerated here) and every predicate obeys the strictness rules; same verdict; non-trivial: two tokens or more",
            run: cargo_soups,
        },
        Sub {
            prop: "C20",
            name: "short_sequences",
            kind: Kind::Enum { count: |t| short_count(t) },
            both: true,
            rule: "every sequence of up to 6 (thorough: 7) of the tokens `all any not ( ) , a = \"v\"`, the same comparison; non-trivial: two tokens or more",
            run: cargo_short,
        },
        Sub {
            prop: "C20",
            name: "texts",
            kind: Kind::Rand { quick: 400_000, thorough: 30, len: 160 },
            both: true,
            rule: "arbitrary texts and edited formulas without white space other than blanks, without `true`, `false` and raw identifiers: the same comparison; non-trivial: not empty",
            run: cargo_texts,
        },
    ]
}

// ---------------------------------------------------------------------------
// what is set

/// The options a build has, besides those of its target.
struct Set {
    salt: u64,
    /// reported by the compiler by itself
    default: BTreeSet<String>,
}

fn written(p: &RPred) -> String {
    match &p.val {
        None => p.key.clone(),
        Some(v) => format!("{}=\"{v}\"", p.key),
    }
}

/// Does the user decide about it (or does the target)?
fn user_set(p: &RPred) -> bool {
    match p.key.as_str() {
        "unix" | "windows" | "panic" => false,
        "target_feature" => true,
        k => !k.starts_with("target_"),
    }
}

impl Set {
    fn on(&self, written: &str) -> bool {
        let h = fnv(written.as_bytes()) ^ self.salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        (h ^ (h >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 63 == 1
    }
    fn has(&self, written: &str) -> bool {
        self.on(written) || self.default.contains(written)
    }
}

/// The verdict here: the target answers its predicates, the set the rest.
fn verdict(e: &Expression, t: &TargetInfo, set: &Set) -> bool {
    e.eval(|p| match p {
        Predicate::Target(tp) => tp.matches(t),
        p => {
            let XP { kind, key, val } = reported(p);
            let w = match kind {
                "flag" => key,
                "key_value" => format!("{key}=\"{}\"", val.unwrap_or_default()),
                "feature" | "target_feature" => format!("{kind}=\"{}\"", val.unwrap_or_default()),
                k => k.to_owned(),
            };
            set.has(&w)
        }
    })
}

// ---------------------------------------------------------------------------
// C19

/// The surroundings fail, not the property: end the worker with a status of its own.
pub fn unable(why: &str) -> ! {
    eprintln!("unable to go on: {why}");
    std::process::exit(3)
}

pub fn scratch_root() -> std::path::PathBuf {
    std::env::var_os("CFGPROP_OUT").map_or_else(std::env::temp_dir, Into::into)
}

/// What the compiler sets by itself for a target, of the kinds the user could set too.
fn defaults(triple: &str) -> Arc<BTreeSet<String>> {
    static M: OnceLock<Mutex<HashMap<String, Arc<BTreeSet<String>>>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(x) = m.lock().expect("lock").get(triple) {
        return x.clone();
    }
    let out = Command::new("rustc")
        .env("RUSTC_BOOTSTRAP", "1")
        .args(["--print", "cfg", "-Cdebug-assertions=no", "--target", triple])
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| unable(&format!("cannot run rustc: {e}")));
    if !out.status.success() {
        unable(&format!("rustc --print cfg --target {triple}: {}", out.status));
    }
    let s: BTreeSet<String> = String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter(|l| {
            let k = l.split('=').next().unwrap_or_default();
            user_set(&RPred::flag(k))
        })
        .map(str::to_owned)
        .collect();
    let s = Arc::new(s);
    m.lock().expect("lock").insert(triple.to_owned(), s.clone());
    s
}

fn rustc_targets() -> &'static Vec<(&'static TargetInfo, &'static Facts)> {
    static T: OnceLock<Vec<(&'static TargetInfo, &'static Facts)>> = OnceLock::new();
    T.get_or_init(|| {
        ALL_BUILTINS
            .iter()
            .filter(|t| tgt::stable_since(t.triple.as_str()))
            .filter_map(|t| Some((t, tgt::table().iter().find(|f| f.triple == t.triple.as_str())?)))
            .collect()
    })
}

fn fit_for_rustc(p: &RPred) -> bool {
    !mk::is_rust_keyword(&p.key)
        && !mk::is_gated(&p.key)
        && p.val.as_deref().is_none_or(|v| !v.chars().any(|c| c == '\\' || c.is_control()))
}

fn rustc_questions() -> Vec<tgt::Q> {
    tgt::all_questions()
        .iter()
        .filter(|(_, v)| !v.chars().any(|c| c == '\\' || c.is_control() || c == '"'))
        .cloned()
        .collect()
}

fn rustc_values(s: &mut Src, o: &mut Obs) -> R {
    let (t, f) = rustc_targets()[s.u64() as usize];
    let mut exprs = Vec::new();
    for (i, (k, v)) in rustc_questions().iter().enumerate() {
        let p = if v.is_empty() && matches!(*k, "unix" | "windows") { (*k).to_owned() } else { format!("{k} = \"{v}\"") };
        let text = if i % 2 == 0 { p } else { format!("not({p})") };
        // what is rejected here need not be accepted there
        if let Ok(e) = Expression::parse(&text) {
            exprs.push((text, e));
        }
    }
    o.nt(true);
    o.case(format!("every value for {}", f.triple));
    against_rustc(t, f, 0, &exprs, o)
}

/// What both read, or why this is no case of its own.
fn plain(v: &str) -> bool {
    !v.chars().any(|c| c == '\\' || c == '"' || c.is_control() || !c.is_alphanumeric() && !c.is_ascii())
}

fn rustc_names(s: &mut Src, o: &mut Obs) -> R {
    let i = s.u64() as usize;
    let (part, key) = (i / 6, ["target_feature", "feature", "xkey"][i % 3]);
    let all = rustc_targets();
    let (t, f) = all[i * 37 % all.len()];
    let names: BTreeSet<&str> = dict::all().filter(|n| plain(n)).collect();
    let mut exprs = Vec::new();
    for (j, n) in names.iter().enumerate() {
        if j % 4 != part % 4 {
            continue;
        }
        let mut texts = vec![format!("{key} = \"{n}\""), format!("not({key} = \"{}\")", n.to_uppercase())];
        let mut cs = n.chars();
        if cs.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
            && *n != "_"
            && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
            && fit_for_rustc(&RPred::flag(*n))
        {
            texts.push((*n).to_owned());
            texts.push(format!("{n} = \"{n}\""));
        }
        for text in texts {
            if let Ok(e) = Expression::parse(&text) {
                exprs.push((text, e));
            }
        }
    }
    o.nt(true);
    o.case(format!("{} names as {key} for {}", exprs.len(), f.triple));
    if exprs.is_empty() {
        return o.skip();
    }
    against_rustc(t, f, (i / 3 % 2) as u64 * 7 + part as u64, &exprs, o)
}

fn rustc_batch(s: &mut Src, o: &mut Obs) -> R {
    let all = rustc_targets();
    if all.is_empty() {
        return o.skip();
    }
    let (t, f) = *s.pick(all);
    let salt = u64::from(s.u16());
    let qs = rustc_questions();
    let mut exprs: Vec<(String, Expression)> = Vec::new();
    let mut rejected = 0;
    while s.left() > 0 && exprs.len() < 220 {
        let text = match s.weighted(&[4, 4, 3]) {
            0 => {
                let mut op = mk::opts(Dialect::Rustc);
                op.budget = 25;
                let a = mk::ast(s, op);
                mk::case_of(s, a, Dialect::Rustc).text.inner
            }
            1 => {
                let a = tgt::target_formula(s, f, &qs, false);
                mk::case_of(s, a, Dialect::Rustc).text.inner
            }
            _ => {
                let toks = mk::soup(s, Dialect::Rustc);
                let sp = mk::space(s, Dialect::Rustc);
                let text = mk::lay(s, &toks, sp, Dialect::Rustc).inner;
                if toks.iter().any(|t| {
                    matches!(t, Tok::Word(w) if mk::is_rust_keyword(w) || mk::is_gated(w))
                }) {
                    continue;
                }
                text
            }
        };
        match Expression::parse(&text) {
            Ok(e) => {
                let mut fit = true;
                for p in e.predicates() {
                    let x = reported(&p);
                    let key = if x.kind == "flag" || x.kind == "key_value" { x.key } else { "x".into() };
                    fit &= fit_for_rustc(&RPred { key, val: x.val });
                }
                if fit {
                    exprs.push((text, e));
                }
            }
            Err(_) => rejected += 1,
        }
    }
    if exprs.is_empty() {
        return o.skip();
    }
    o.nt(exprs.iter().any(|e| e.1.predicates().count() >= 2));
    o.case(format!(
        "{} with set {salt}: {}",
        f.triple,
        exprs.iter().map(|e| format!("{:?}", e.0)).collect::<Vec<_>>().join(" ; ")
    ));
    o.label_if(rejected > 0, "some rejected");
    against_rustc(t, f, salt, &exprs, o)
}

/// One source file with all of them, expanded for the target.
fn against_rustc(t: &TargetInfo, f: &Facts, salt: u64, exprs: &[(String, Expression)], o: &mut Obs) -> R {
    let set = Set { salt, default: (*defaults(&f.triple)).clone() };
    let mut options: BTreeSet<String> = BTreeSet::new();
    for (_, e) in exprs {
        for p in e.predicates() {
            let XP { kind, key, val } = reported(&p);
            let w = match kind {
                "flag" => key,
                "key_value" => format!("{key}=\"{}\"", val.unwrap_or_default()),
                "feature" | "target_feature" => format!("{kind}=\"{}\"", val.unwrap_or_default()),
                "test" | "debug_assertions" | "proc_macro" => kind.to_owned(),
                _ => continue,
            };
            if set.on(&w) {
                options.insert(w);
            }
        }
    }
    let mut src = String::from("#![feature(no_core)]\n#![no_core]\n#![allow(warnings)]\n");
    let mut lines = 3;
    let mut at = Vec::new();
    for (i, (text, _)) in exprs.iter().enumerate() {
        at.push(lines + 1);
        let item = format!("#[cfg({text})]\nmod zq_{i}_ {{}}\n");
        lines += item.matches('\n').count();
        src.push_str(&item);
    }
    let dir = scratch_root().join(format!("c19-{}", std::process::id()));
    let file = dir.join("x.rs");
    std::fs::create_dir_all(&dir)
        .and_then(|()| std::fs::write(&file, &src))
        .unwrap_or_else(|e| unable(&format!("{}: {e}", file.display())));
    let mut c = Command::new("rustc");
    c.env("RUSTC_BOOTSTRAP", "1")
        .args([
            "-Zunpretty=expanded", "--edition", "2021", "--crate-type", "lib", "-Cdebug-assertions=no",
            "-Aexplicit_builtin_cfgs_in_flags", "--error-format=short", "--target",
        ])
        .arg(&f.triple);
    for w in &options {
        c.arg("--cfg").arg(w);
    }
    let out = c.arg(&file).stdin(Stdio::null()).output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = out.unwrap_or_else(|e| unable(&format!("cannot run rustc: {e}")));
    if out.status.code().is_none() {
        unable(&format!("rustc: {}", out.status));
    }
    let stdout = String::from_utf8_lossy(&out.stdout);
    let stderr = String::from_utf8_lossy(&out.stderr);
    if !out.status.success() {
        let line = stderr.lines().find_map(|l| {
            let rest = l.split_once("x.rs:")?.1;
            let n: usize = rest.split(':').next()?.parse().ok()?;
            rest.contains("error").then_some(n)
        });
        let Some(n) = line else {
            return Err(format!("rustc failed without saying where: {}", clip(&stderr, 600)));
        };
        let i = at.iter().rposition(|a| *a <= n).unwrap_or(0);
        return Err(format!(
            "{:?} is accepted here and not by rustc: {}",
            exprs[i].0,
            clip(stderr.lines().find(|l| l.contains("error")).unwrap_or_default(), 300)
        ));
    }
    let kept: BTreeSet<usize> = stdout
        .lines()
        .filter_map(|l| l.trim_start().strip_prefix("mod zq_")?.split_once('_')?.0.parse().ok())
        .collect();
    for (i, (text, e)) in exprs.iter().enumerate() {
        o.compared += 1;
        let here = verdict(e, t, &set);
        if here != kept.contains(&i) {
            return Err(format!(
                "{text:?} for {} with {options:?}: {here} here, {} to rustc",
                f.triple, !here
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C20

fn cargo_leaves(e: &CfgExpr, out: &mut Vec<RPred>) {
    match e {
        CfgExpr::Not(x) => cargo_leaves(x, out),
        CfgExpr::All(v) | CfgExpr::Any(v) => v.iter().for_each(|x| cargo_leaves(x, out)),
        CfgExpr::Value(Cfg::Name(n)) => out.push(RPred::flag(n.name.clone())),
        CfgExpr::Value(Cfg::KeyPair(k, v)) => out.push(RPred::kv(k.name.clone(), v.clone())),
        CfgExpr::True | CfgExpr::False => {}
    }
}

/// As Cargo reads an expression or a manifest's `cfg(...)` key.
fn cargo_reads(t: &str) -> Option<CfgExpr> {
    if t.starts_with("cfg(") && t.ends_with(')') {
        match Platform::from_str(t).ok()? {
            Platform::Cfg(e) => Some(e),
            Platform::Name(_) => None,
        }
    } else {
        CfgExpr::from_str(t).ok()
    }
}

/// The text without commas which end a list (they are tolerated here).
fn without_trailing_commas(t: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let inner = t.starts_with("cfg(") && t.ends_with(')');
    let end = if inner { b.len() - 1 } else { b.len() };
    let mut out = String::new();
    let mut quoted = false;
    for (i, c) in b.iter().enumerate() {
        if *c == '"' {
            quoted = !quoted;
        }
        if *c == ',' && !quoted {
            let next = (i + 1..end).find(|j| b[*j] != ' ');
            if next.is_none_or(|j| b[j] == ')') {
                // one comma after something, and not after another comma or an opening
                let prev = (0..i).rev().find(|j| b[*j] != ' ');
                if prev.is_some_and(|j| b[j] != ',' && b[j] != '(') {
                    out.push(' ');
                    continue;
                }
            }
        }
        out.push(*c);
    }
    out
}

fn cargo_cfgs(f: &Facts, set: &Set, leaves: &[RPred]) -> Vec<Cfg> {
    let id = |n: &str| Ident { name: n.to_owned(), raw: false };
    let mut v: Vec<Cfg> = Vec::new();
    for (k, x) in tgt::true_answers(f) {
        if k == "target_family" && (x == "unix" || x == "windows") {
            v.push(Cfg::Name(id(&x)));
        }
        v.push(Cfg::KeyPair(id(k), x));
    }
    for p in leaves {
        if user_set(p) && set.on(&written(p)) {
            v.push(match &p.val {
                None => Cfg::Name(id(&p.key)),
                Some(x) => Cfg::KeyPair(id(&p.key), x.clone()),
            });
        }
    }
    v
}

/// The whole comparison on one text.
fn against_cargo(text: &str, t: &TargetInfo, f: &Facts, salt: u64, o: &mut Obs) -> R {
    o.compared += 1;
    let here = Expression::parse(text);
    let there = cargo_reads(text);
    let there = match (&here, there) {
        (_, Some(e)) => e,
        (Err(_), None) => return Ok(()),
        (Ok(_), None) => {
            let bare = without_trailing_commas(text);
            o.label("trailing comma");
            match cargo_reads(&bare) {
                Some(e) => e,
                None => return Err(format!("{text:?} is accepted here and not by Cargo")),
            }
        }
    };
    let mut leaves = Vec::new();
    cargo_leaves(&there, &mut leaves);
    let strict = leaves.iter().find_map(|p| check_pred(p).err().map(|e| (p, e)));
    let e = match (here, strict) {
        (Ok(_), Some((p, e))) => {
            return Err(format!("{text:?} is accepted although {} breaks a rule ({e:?})", written(p)));
        }
        (Err(_), Some(_)) => {
            o.label("strictness");
            return Ok(());
        }
        (Err(e), None) => {
            return Err(format!("{text:?} is accepted by Cargo and not here: {:?}", e.reason));
        }
        (Ok(e), None) => e,
    };
    let set = Set { salt, default: BTreeSet::new() };
    let want = there.matches(&cargo_cfgs(f, &set, &leaves));
    let got = verdict(&e, t, &set);
    o.label(if want { "true" } else { "false" });
    if got != want {
        return Err(format!("{text:?} for {} with set {salt}: {got} here, {want} to Cargo", f.triple));
    }
    Ok(())
}

fn some_target(s: &mut Src) -> (&'static TargetInfo, &'static Facts) {
    static T: OnceLock<Vec<(&'static TargetInfo, &'static Facts)>> = OnceLock::new();
    let v = T.get_or_init(|| {
        ALL_BUILTINS
            .iter()
            .filter_map(|t| Some((t, tgt::table().iter().find(|f| f.triple == t.triple.as_str())?)))
            .collect()
    });
    *s.pick(v)
}

fn peculiar(p: &RPred) -> bool {
    p.key == "true" || p.key == "false"
}

fn cargo_formulas(s: &mut Src, o: &mut Obs) -> R {
    let (t, f) = some_target(s);
    let salt = u64::from(s.u8());
    let a: Ast = if s.bool() {
        mk::ast(s, mk::opts(Dialect::Cargo))
    } else {
        tgt::target_formula(s, f, tgt::all_questions(), true)
    };
    if a.leaf_vec().iter().any(|p| peculiar(p)) {
        return o.skip();
    }
    let c = mk::case_of(s, a, Dialect::Cargo);
    o.case(format!("{} with set {salt}: {}", f.triple, c.full()));
    o.nt(c.ast.funcs() > 0);
    against_cargo(&c.text.inner, t, f, salt, o)?;
    against_cargo(&c.text.wrapped(), t, f, salt, o)
}

fn cargo_soups(s: &mut Src, o: &mut Obs) -> R {
    let (t, f) = some_target(s);
    let salt = u64::from(s.u8());
    let toks = mk::soup(s, Dialect::Cargo);
    if toks.iter().any(|t| matches!(t, Tok::Word(w) if w == "true" || w == "false")) {
        return o.skip();
    }
    let sp = mk::space(s, Dialect::Cargo);
    let text = mk::lay(s, &toks, sp, Dialect::Cargo);
    o.case(text.inner.clone());
    o.nt(toks.len() >= 2);
    against_cargo(&text.inner, t, f, salt, o)?;
    against_cargo(&text.wrapped(), t, f, salt, o)
}

const SHORT: &[&str] = &["all", "any", "not", "(", ")", ",", "a", "=", "\"v\""];

fn short_count(thorough: bool) -> u64 {
    let k = SHORT.len() as u64;
    (1..=if thorough { 7 } else { 6 }).map(|n| k.pow(n)).sum()
}

fn cargo_short(s: &mut Src, o: &mut Obs) -> R {
    let mut i = s.u64();
    let k = SHORT.len() as u64;
    let mut n = 1;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    let mut text = String::new();
    for _ in 0..n {
        text.push_str(SHORT[(i % k) as usize]);
        text.push(' ');
        i /= k;
    }
    o.case(text.clone());
    o.nt(n >= 2);
    let f = &tgt::table()[0];
    let Some(t) = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == f.triple) else { return o.skip() };
    against_cargo(&text, t, f, 1, o)
}

fn cargo_texts(s: &mut Src, o: &mut Obs) -> R {
    let (t, f) = some_target(s);
    let salt = u64::from(s.u8());
    let mut text = if s.bool() {
        mk::any_text(s)
    } else {
        let mut op = mk::opts(Dialect::Cargo);
        op.budget = 6;
        let mut t: Vec<char> = mk::case(s, op).full().chars().collect();
        for _ in 0..s.range(1, 3) {
            let at = s.below(t.len() + 1);
            match s.below(3) {
                0 if at < t.len() => {
                    t.remove(at);
                }
                1 if at < t.len() => t[at] = mk::any_char(s),
                _ => t.insert(at, mk::any_char(s)),
            }
        }
        t.into_iter().collect()
    };
    text.retain(|c| c == ' ' || !c.is_whitespace());
    o.case(text.clone());
    let word = |w: &str| {
        text.match_indices(w).any(|(i, _)| {
            let ok = |c: Option<char>| !c.is_some_and(|c| c == '_' || c.is_ascii_alphanumeric());
            ok(text[..i].chars().next_back()) && ok(text[i + w.len()..].chars().next())
        })
    };
    if word("true") || word("false") || text.contains("r#") {
        return o.skip();
    }
    o.nt(!text.is_empty());
    against_cargo(&text, t, f, salt, o)
}
