//! C11 matching, C12 lookup, C13 the builtin table, C16 sets, C17 typed values, C18 names.

use crate::dict;
use crate::engine::{Kind, Obs, R, Sub};
use crate::mk;
use crate::refp::{Ast, RPred, canonical_uint};
use crate::src::Src;
use cfg_expr::targets::{
    ALL_BUILTINS, Abi, Arch, Endian, Env, Families, Family, HasAtomic, HasAtomics, Os, Panic,
    TargetInfo, Triple, Vendor, get_builtin_target_by_triple, rustc_version,
};
use cfg_expr::{Expression, Predicate, TargetPredicate as TP};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::OnceLock;

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C11",
            name: "user_made",
            kind: Kind::Rand { quick: 150_000, thorough: 30, len: 260 },
            both: true,
            rule: "a target description with random fields (absent, empty, \"none\", \"unknown\", vocabulary, arbitrary, and texts shared between fields) against every kind of predicate with the field's own value, other fields' values, the special values and random ones, directly and through a parsed expression, compared with a model of the statement; non-trivial: all",
            run: user_made,
        },
        Sub {
            prop: "C11",
            name: "builtin",
            kind: Kind::Enum { count: |_| ALL_BUILTINS.len() as u64 },
            both: true,
            rule: "every builtin target against every predicate kind with every value of the vocabulary, compared with the model applied to the target's public fields; non-trivial: all",
            run: builtin_fields,
        },
        Sub {
            prop: "C11",
            name: "altered",
            kind: Kind::Rand { quick: 100_000, thorough: 30, len: 260 },
            both: true,
            rule: "a description and a copy with one field changed: predicates on the other fields answer the same; non-trivial: the field did change",
            run: altered,
        },
        Sub {
            prop: "C12",
            name: "neighbours",
            kind: Kind::Enum { count: |_| ALL_BUILTINS.len() as u64 },
            both: true,
            rule: "per builtin triple: itself, every proper prefix and suffix, every single character dropped, doubled, replaced, its case flipped, extensions, and its neighbours' splices, looked up and compared with a linear scan; order and uniqueness against the neighbour; non-trivial: all",
            run: neighbours,
        },
        Sub {
            prop: "C12",
            name: "strings",
            kind: Kind::Rand { quick: 400_000, thorough: 30, len: 60 },
            both: true,
            rule: "random strings: recombined triple components, edited triples, strings between two neighbours, arbitrary text; found if and only if the linear scan finds it; non-trivial: not empty",
            run: lookup_any,
        },
        Sub {
            prop: "C13",
            name: "targets",
            kind: Kind::Enum { count: |_| table().len() as u64 },
            both: true,
            rule: "every target of rustc 1.86.0 against every predicate kind with every value of the vocabulary (and case and affix variants of the true ones), directly and parsed, compared with the recorded output of rustc; non-trivial: all",
            run: table_targets,
        },
        Sub {
            prop: "C13",
            name: "list",
            kind: Kind::Enum { count: |_| 1 },
            both: true,
            rule: "the list holds exactly the recorded targets and the declared release is the recorded one; non-trivial: all",
            run: table_list,
        },
        Sub {
            prop: "C13",
            name: "formulas",
            kind: Kind::Rand { quick: 150_000, thorough: 30, len: 300 },
            both: true,
            rule: "a formula of target predicates evaluated for a builtin target, compared with the formula over the recorded facts; non-trivial: two or more predicates",
            run: table_formulas,
        },
        Sub {
            prop: "C16",
            name: "families",
            kind: Kind::Rand { quick: 120_000, thorough: 20, len: 160 },
            both: true,
            rule: "distinct family names in several orders, through iterators of different kinds, owned and static, and as a constant sorted list: equality, hash, order, iteration, membership and printing; and against a different set; non-trivial: two or more names",
            run: families,
        },
        Sub {
            prop: "C16",
            name: "atomics",
            kind: Kind::Rand { quick: 120_000, thorough: 20, len: 160 },
            both: true,
            rule: "the same for atomic sizes, with arbitrary widths and the pointer; non-trivial: two or more",
            run: atomics,
        },
        Sub {
            prop: "C16",
            name: "permutations",
            kind: Kind::Enum { count: |t| if t { 128 } else { 64 } },
            both: true,
            rule: "every permutation of every subset of { 8, 16, 32, 64, 128, ptr } (thorough: also 65535), and of as many family names; non-trivial: two or more",
            run: permutations,
        },
        Sub {
            prop: "C17",
            name: "numbers",
            kind: Kind::Enum { count: |t| if t { 2_000_000 } else { 70_000 } },
            both: true,
            rule: "every number 0 to 69 999 (thorough: 1 999 999) in canonical and 14 other writings, as atomic width and as pointer width, parsed directly and in a predicate, printed and read back; non-trivial: all",
            run: numbers,
        },
        Sub {
            prop: "C17",
            name: "texts",
            kind: Kind::Rand { quick: 300_000, thorough: 30, len: 60 },
            both: true,
            rule: "edited and arbitrary texts as atomic width, endianness and pointer width: accepted exactly when canonical; non-trivial: not empty",
            run: value_texts,
        },
        Sub {
            prop: "C18",
            name: "names",
            kind: Kind::Rand { quick: 150_000, thorough: 30, len: 160 },
            both: true,
            rule: "pairs of texts (equal, prefixes, case variants, random) as each of the eight name types, each built in five ways: text back, equality, order, hash under two hashers, printing, map lookups; non-trivial: not both empty",
            run: names,
        },
        Sub {
            prop: "C18",
            name: "rebuilt_targets",
            kind: Kind::Enum { count: |_| ALL_BUILTINS.len() as u64 },
            both: true,
            rule: "every builtin target rebuilt from owned texts in other orders: equal, equally hashed and ordered, found in maps keyed by the builtin, same answers to every predicate; non-trivial: all",
            run: rebuilt,
        },
    ]
}

// ---------------------------------------------------------------------------
// model

/// A target as plain texts; what a user wrote or rustc printed.
#[derive(Clone, Debug, PartialEq)]
pub struct Facts {
    pub triple: String,
    pub os: Option<String>,
    pub abi: Option<String>,
    pub arch: String,
    pub env: Option<String>,
    pub vendor: Option<String>,
    pub families: Vec<String>,
    pub width: u8,
    pub big: bool,
    pub atomics: Vec<Option<u16>>,
    pub panic: String,
}

/// A target predicate as key and value (both as written).
pub type Q = (&'static str, String);

/// The statement, for a predicate `key = "val"`.
pub fn holds(f: &Facts, key: &str, val: &str) -> bool {
    let or = |x: &Option<String>, absent: &str| x.as_deref().unwrap_or(absent) == val;
    match key {
        "target_abi" => or(&f.abi, ""),
        "target_env" => or(&f.env, ""),
        "target_os" => or(&f.os, "none"),
        "target_vendor" => or(&f.vendor, "unknown"),
        "target_arch" => f.arch == val,
        "panic" => f.panic == val,
        "target_family" => f.families.iter().any(|x| x == val),
        "unix" | "windows" => f.families.iter().any(|x| x == key),
        "target_endian" => val == if f.big { "big" } else { "little" },
        "target_pointer_width" => val == f.width.to_string(),
        "target_has_atomic" => f
            .atomics
            .iter()
            .any(|a| a.map_or_else(|| "ptr".to_owned(), |n| n.to_string()) == val),
        k => unreachable!("{k}"),
    }
}

pub fn facts_of(t: &TargetInfo) -> Facts {
    Facts {
        triple: t.triple.as_str().to_owned(),
        os: t.os.as_ref().map(|x| x.as_str().to_owned()),
        abi: t.abi.as_ref().map(|x| x.as_str().to_owned()),
        arch: t.arch.as_str().to_owned(),
        env: t.env.as_ref().map(|x| x.as_str().to_owned()),
        vendor: t.vendor.as_ref().map(|x| x.as_str().to_owned()),
        families: t.families.iter().map(|x| x.as_str().to_owned()).collect(),
        width: t.pointer_width,
        big: matches!(t.endian, Endian::big),
        atomics: t
            .has_atomics
            .iter()
            .map(|a| match a {
                HasAtomic::IntegerSize(n) => Some(*n),
                _ => None,
            })
            .collect(),
        panic: t.panic.as_str().to_owned(),
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

fn atomic(a: Option<u16>) -> HasAtomic {
    a.map_or(HasAtomic::Pointer, HasAtomic::IntegerSize)
}

pub fn build(f: &Facts) -> TargetInfo {
    TargetInfo {
        triple: Triple::new(f.triple.clone()),
        os: f.os.clone().map(Os::new),
        abi: f.abi.clone().map(Abi::new),
        arch: Arch::new(f.arch.clone()),
        env: f.env.clone().map(Env::new),
        vendor: f.vendor.clone().map(Vendor::new),
        families: Families::new(f.families.iter().cloned().map(Family::new)),
        pointer_width: f.width,
        endian: if f.big { Endian::big } else { Endian::little },
        has_atomics: HasAtomics::new(f.atomics.iter().copied().map(atomic)),
        panic: Panic::new(f.panic.clone()),
    }
}

/// The predicate built by hand; `None` for a value it cannot hold.
pub fn tp_of(key: &str, val: &str) -> Option<TP> {
    let v = val.to_owned();
    Some(match key {
        "target_abi" => TP::Abi(Abi::new(v)),
        "target_env" => TP::Env(Env::new(v)),
        "target_os" => TP::Os(Os::new(v)),
        "target_vendor" => TP::Vendor(Vendor::new(v)),
        "target_arch" => TP::Arch(Arch::new(v)),
        "panic" => TP::Panic(Panic::new(v)),
        "target_family" => TP::Family(Family::new(v)),
        "unix" => TP::Family(Family::new("unix")),
        "windows" => TP::Family(Family::new("windows")),
        "target_endian" => TP::Endian(match val {
            "big" => Endian::big,
            "little" => Endian::little,
            _ => return None,
        }),
        "target_pointer_width" => {
            TP::PointerWidth(if canonical_uint(val, 255) { val.parse().ok()? } else { return None })
        }
        "target_has_atomic" => TP::HasAtomic(if val == "ptr" {
            HasAtomic::Pointer
        } else if canonical_uint(val, 65535) {
            HasAtomic::IntegerSize(val.parse().ok()?)
        } else {
            return None;
        }),
        _ => return None,
    })
}

pub const KEYS: &[&str] = &[
    "target_abi", "target_arch", "target_endian", "target_env", "target_family",
    "target_has_atomic", "target_os", "panic", "target_pointer_width", "target_vendor",
];

pub fn eval_target(e: &Expression, t: &TargetInfo) -> Result<bool, String> {
    let mut other = None;
    let r = e.eval(|p| match p {
        Predicate::Target(tp) => tp.matches(t),
        p => {
            other = Some(format!("{p:?}"));
            false
        }
    });
    match other {
        Some(o) => Err(format!("{:?}: {o} is reported", e.original())),
        None => Ok(r),
    }
}

fn parse(t: &str) -> Result<Expression, String> {
    Expression::parse(t).map_err(|e| format!("{t:?} was rejected: {:?}", e.reason))
}

/// One predicate against one target, built by hand and parsed.
fn ask(t: &TargetInfo, f: &Facts, key: &str, val: &str, parsed: bool) -> R {
    let Some(tp) = tp_of(key, val) else { return Ok(()) };
    let want = holds(f, key, val);
    let got = tp.matches(t);
    if got != want {
        return Err(format!("{}: {key} = {val:?} matches: {got}, should be {want} for {f:?}", f.triple));
    }
    if parsed && !val.contains('"') {
        let src = if key == "unix" || key == "windows" { key.to_owned() } else { format!("{key} = \"{val}\"") };
        let got = eval_target(&parse(&src)?, t)?;
        if got != want {
            return Err(format!("{}: {src} evaluates to {got}, should be {want} for {f:?}", f.triple));
        }
    }
    Ok(())
}

/// A matcher of the caller's own: what it is asked, and what it says.
struct Own {
    seen: std::cell::RefCell<Vec<TP>>,
    says: bool,
}

impl cfg_expr::expr::TargetMatcher for Own {
    fn matches(&self, tp: &TP) -> bool {
        self.seen.borrow_mut().push(tp.clone());
        self.says
    }
}

fn own_matcher(key: &str, val: &str, says: bool) -> R {
    let Some(tp) = tp_of(key, val) else { return Ok(()) };
    let own = Own { seen: Default::default(), says };
    let mut n = 1;
    let mut got = vec![tp.matches(&own)];
    if !val.contains('"') {
        let src = if key == "unix" || key == "windows" { key.to_owned() } else { format!("{key} = \"{val}\"") };
        n = 2;
        got.push(parse(&src)?.eval(|p| match p {
            Predicate::Target(tp) => tp.matches(&own),
            _ => !says,
        }));
    }
    let seen = own.seen.borrow();
    if got.iter().any(|g| *g != says) || seen.len() != n || seen.iter().any(|x| *x != tp) {
        return Err(format!("a matcher which says {says} to {tp:?} was asked {seen:?}, the results are {got:?}"));
    }
    Ok(())
}

fn ask_list(t: &TargetInfo, f: &Facts, qs: &[Q], o: &mut Obs) -> R {
    for (k, v) in qs {
        o.compared += 1;
        ask(t, f, k, v, true)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// vocabulary

/// Every value which means something under some key, in one list per key.
pub fn vocabulary() -> &'static BTreeMap<&'static str, Vec<String>> {
    static V: OnceLock<BTreeMap<&'static str, Vec<String>>> = OnceLock::new();
    V.get_or_init(|| {
        let mut m: BTreeMap<&'static str, BTreeSet<String>> = BTreeMap::new();
        let add = |m: &mut BTreeMap<&'static str, BTreeSet<String>>, k: &'static str, v: &str| {
            m.entry(k).or_default().insert(v.to_owned());
        };
        for (k, l) in [
            ("target_abi", mk::ABIS),
            ("target_arch", mk::ARCHES),
            ("target_endian", &["big", "little"]),
            ("target_env", mk::ENVS),
            ("target_family", mk::FAMILIES),
            ("target_has_atomic", mk::ATOMICS),
            ("target_os", mk::OSES),
            ("panic", mk::PANICS),
            ("target_pointer_width", mk::WIDTHS),
            ("target_vendor", mk::VENDORS),
        ] {
            for v in l {
                add(&mut m, k, v);
            }
        }
        for f in table() {
            for (k, v) in true_answers(f) {
                add(&mut m, k, &v);
            }
        }
        for k in KEYS {
            for v in ["", "none", "unknown", "unix", "windows", "gnu", "linux"] {
                add(&mut m, k, v);
            }
        }
        m.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect()
    })
}

/// What a target answers yes to.
pub fn true_answers(f: &Facts) -> Vec<Q> {
    let mut v: Vec<Q> = vec![
        ("target_abi", f.abi.clone().unwrap_or_default()),
        ("target_arch", f.arch.clone()),
        ("target_endian", if f.big { "big" } else { "little" }.to_owned()),
        ("target_env", f.env.clone().unwrap_or_default()),
        ("target_os", f.os.clone().unwrap_or("none".into())),
        ("panic", f.panic.clone()),
        ("target_pointer_width", f.width.to_string()),
        ("target_vendor", f.vendor.clone().unwrap_or("unknown".into())),
    ];
    for x in &f.families {
        v.push(("target_family", x.clone()));
    }
    for a in &f.atomics {
        v.push(("target_has_atomic", a.map_or("ptr".into(), |n| n.to_string())));
    }
    v
}

/// Every key with every value of its vocabulary.
pub fn all_questions() -> &'static Vec<Q> {
    static V: OnceLock<Vec<Q>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![("unix", String::new()), ("windows", String::new())];
        for (k, l) in vocabulary() {
            v.extend(l.iter().map(|x| (*k, x.clone())));
        }
        v
    })
}

/// The recorded output of rustc 1.86.0.
pub fn table() -> &'static Vec<Facts> {
    static T: OnceLock<Vec<Facts>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../data/rustc-1.86.0.tsv")
            .lines()
            .map(|l| {
                let c: Vec<&str> = l.split('\t').collect();
                assert_eq!(c.len(), 12, "{l}");
                let list = |s: &str| -> Vec<String> {
                    s.split(',').filter(|x| !x.is_empty()).map(str::to_owned).collect()
                };
                Facts {
                    triple: c[0].into(),
                    os: Some(c[1].into()),
                    abi: Some(c[2].into()),
                    arch: c[3].into(),
                    env: Some(c[4].into()),
                    vendor: Some(c[5].into()),
                    families: list(c[6]),
                    width: c[7].parse().expect("width"),
                    big: c[8] == "big",
                    atomics: list(c[9]).iter().map(|a| a.parse().ok()).collect(),
                    panic: c[10].into(),
                }
            })
            .collect()
    })
}

/// Whether the installed rustc is known to report the same as 1.86.0 did.
pub fn stable_since(triple: &str) -> bool {
    static T: OnceLock<HashSet<&'static str>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../data/rustc-1.86.0.tsv")
            .lines()
            .filter(|l| l.ends_with("\tsame"))
            .map(|l| l.split('\t').next().expect("triple"))
            .collect()
    })
    .contains(triple)
}

// ---------------------------------------------------------------------------
// C11

fn text(s: &mut Src, pool: &[&str]) -> String {
    match s.weighted(&[16, 6, 4, 4, 3, 3]) {
        0 => (*s.pick(pool)).to_owned(),
        1 => (*s.pick(&["", "none", "unknown", "unix", "windows", "gnu", "linux", "x86", "None"])).to_owned(),
        2 => {
            // a variant of a known one
            let mut v = (*s.pick(pool)).to_owned();
            match s.below(5) {
                0 => v.push('x'),
                1 => v = v.to_uppercase(),
                2 => {
                    v.pop();
                }
                3 => v.insert(0, ' '),
                _ => v.push(' '),
            }
            v
        }
        4 => {
            // what the code knows
            dict::text(s).filter(|t| !t.contains('"')).unwrap_or_default()
        }
        5 => {
            // put together from known ones, of any field
            let pools = [pool, mk::OSES, mk::ENVS, mk::ABIS, mk::FAMILIES, mk::ARCHES, mk::VENDORS];
            let (a, b) = (*s.pick(&pools), *s.pick(&pools));
            let sep = *s.pick(&["", "_", "-", ""]);
            format!("{}{sep}{}", s.pick(a), s.pick(b))
        }
        _ => mk::value(s, mk::Dialect::Full),
    }
}

fn width_list(s: &mut Src) -> Vec<Option<u16>> {
    let mut v = Vec::new();
    for _ in 0..s.below(7) {
        v.push(if s.chance(60) {
            None
        } else if s.chance(200) {
            Some(*s.pick(&[8, 16, 32, 64, 128]))
        } else {
            Some(s.u16())
        });
    }
    v
}

pub fn gen_facts(s: &mut Src) -> Facts {
    let opt = |s: &mut Src, pool: &[&str]| -> Option<String> { s.chance(180).then(|| text(s, pool)) };
    let mut f = Facts {
        triple: if s.bool() { s.pick(table()).triple.clone() } else { text(s, mk::OSES) },
        os: opt(s, mk::OSES),
        abi: opt(s, mk::ABIS),
        arch: text(s, mk::ARCHES),
        env: opt(s, mk::ENVS),
        vendor: opt(s, mk::VENDORS),
        families: (0..s.below(4)).map(|_| text(s, mk::FAMILIES)).collect(),
        width: if s.bool() { *s.pick(&[16, 32, 64]) } else { s.u8() },
        big: s.bool(),
        atomics: width_list(s),
        panic: text(s, mk::PANICS),
    };
    if s.chance(80) {
        // one text in several fields
        let t = text(s, mk::OSES);
        for i in 0..7 {
            if s.chance(90) {
                match i {
                    0 => f.os = Some(t.clone()),
                    1 => f.abi = Some(t.clone()),
                    2 => f.arch = t.clone(),
                    3 => f.env = Some(t.clone()),
                    4 => f.vendor = Some(t.clone()),
                    5 => f.families.push(t.clone()),
                    _ => f.panic = t.clone(),
                }
            }
        }
    }
    f
}

/// Questions close to a target.
fn questions(s: &mut Src, f: &Facts) -> Vec<Q> {
    let mut vals: Vec<String> = vec![String::new(), "none".into(), "unknown".into(), f.triple.clone()];
    vals.extend([&f.os, &f.abi, &f.env, &f.vendor].into_iter().flatten().cloned());
    vals.extend([f.arch.clone(), f.panic.clone()]);
    vals.extend(f.families.iter().cloned());
    vals.push(text(s, mk::OSES));
    vals.push(text(s, mk::ENVS));
    let mut q: Vec<Q> = vec![("unix", String::new()), ("windows", String::new())];
    for k in ["target_abi", "target_arch", "target_env", "target_family", "target_os", "panic", "target_vendor"] {
        q.extend(vals.iter().map(|v| (k, v.clone())));
    }
    q.push(("target_endian", "big".into()));
    q.push(("target_endian", "little".into()));
    for w in [f.width, f.width.wrapping_add(1), 64, 32, 16, 0] {
        q.push(("target_pointer_width", w.to_string()));
    }
    let mut a: Vec<String> = ["ptr", "8", "16", "32", "64", "128", "0"].map(str::to_owned).into();
    a.extend(f.atomics.iter().flatten().map(u16::to_string));
    a.push(f.width.to_string());
    a.push(s.u16().to_string());
    q.extend(a.into_iter().map(|v| ("target_has_atomic", v)));
    q
}

fn user_made(s: &mut Src, o: &mut Obs) -> R {
    let f = gen_facts(s);
    let t = build(&f);
    o.case(format!("{f:?}"));
    o.nt(true);
    o.label_if(f.os.is_none(), "no os");
    o.label_if(f.env.is_none(), "no env");
    o.label_if(f.abi.is_none(), "no abi");
    o.label_if(f.vendor.is_none(), "no vendor");
    let qs = questions(s, &f);
    for (k, v) in &qs {
        o.compared += 1;
        ask(&t, &f, k, v, false)?;
    }
    // a few of them parsed, alone and together
    let mut chosen: Vec<&Q> = Vec::new();
    for _ in 0..6 {
        let q = s.pick(&qs);
        ask(&t, &f, q.0, &q.1, true)?;
        own_matcher(q.0, &q.1, s.bool())?;
        if tp_of(q.0, &q.1).is_some() && !q.1.contains('"') {
            chosen.push(q);
        }
    }
    let ast: Vec<Ast> = chosen
        .iter()
        .map(|(k, v)| {
            Ast::P(if *k == "unix" || *k == "windows" { RPred::flag(*k) } else { RPred::kv(*k, v.clone()) })
        })
        .collect();
    let ast = if s.bool() { Ast::All(ast) } else { Ast::Any(ast) };
    formula(s, ast, &t, &f)
}

fn formula(s: &mut Src, ast: Ast, t: &TargetInfo, f: &Facts) -> R {
    let c = mk::case_of(s, ast, mk::Dialect::Full);
    let e = parse(&c.full())?;
    let want = c.ast.bool(&mut |p| holds(f, &p.key, p.val.as_deref().unwrap_or("")));
    let got = eval_target(&e, t)?;
    if want != got {
        return Err(format!("{}: {:?} evaluates to {got}, should be {want} for {f:?}", f.triple, c.full()));
    }
    Ok(())
}

fn builtin_fields(s: &mut Src, o: &mut Obs) -> R {
    let i = s.u64() as usize;
    let Some(t) = ALL_BUILTINS.get(i) else { return o.skip() };
    let f = facts_of(t);
    o.case(f.triple.clone());
    o.nt(true);
    ask_list(t, &f, all_questions(), o)
}

/// One field as in the other; the key which asks for it.
pub fn swap_field(b: &mut Facts, other: Facts, which: usize) -> &'static str {
    match which {
        0 => {
            b.triple = other.triple;
            ""
        }
        1 => {
            b.os = other.os;
            "target_os"
        }
        2 => {
            b.abi = other.abi;
            "target_abi"
        }
        3 => {
            b.arch = other.arch;
            "target_arch"
        }
        4 => {
            b.env = other.env;
            "target_env"
        }
        5 => {
            b.vendor = other.vendor;
            "target_vendor"
        }
        6 => {
            b.families = other.families;
            "target_family"
        }
        7 => {
            b.width = other.width;
            "target_pointer_width"
        }
        8 => {
            b.big = !b.big;
            "target_endian"
        }
        9 => {
            b.atomics = other.atomics;
            "target_has_atomic"
        }
        _ => {
            b.panic = other.panic;
            "panic"
        }
    }
}

fn altered(s: &mut Src, o: &mut Obs) -> R {
    let a = gen_facts(s);
    let other = gen_facts(s);
    let mut b = a.clone();
    let which = s.below(11);
    let own = swap_field(&mut b, other, which);
    o.case(format!("{own} of {a:?} as in {b:?}"));
    o.nt(a != b);
    let (ta, tb) = (build(&a), build(&b));
    for (k, v) in questions(s, &a).iter().chain(&questions(s, &b)) {
        if *k == own || (own == "target_family" && (*k == "unix" || *k == "windows")) {
            continue;
        }
        let Some(p) = tp_of(k, v) else { continue };
        o.compared += 1;
        if p.matches(&ta) != p.matches(&tb) {
            return Err(format!("{k} = {v:?} depends on {own}: {a:?} against {b:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C12

fn index() -> &'static HashMap<&'static str, usize> {
    static M: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    M.get_or_init(|| {
        ALL_BUILTINS
            .iter()
            .enumerate()
            .map(|(i, t)| (t.triple.as_str(), i))
            .collect()
    })
}

fn look(t: &str) -> R {
    let want = index().get(t).map(|i| &ALL_BUILTINS[*i]);
    let got = get_builtin_target_by_triple(t);
    match (want, got) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) if w == g && g.triple.as_str() == t => Ok(()),
        (w, g) => Err(format!(
            "looking up {t:?} gives {:?}, should give {:?}",
            g.map(|x| x.triple.as_str().to_owned()),
            w.map(|x| x.triple.as_str().to_owned())
        )),
    }
}

fn neighbours(s: &mut Src, o: &mut Obs) -> R {
    let i = s.u64() as usize;
    let Some(ti) = ALL_BUILTINS.get(i) else { return o.skip() };
    let t = ti.triple.as_str();
    o.case(t);
    o.nt(true);
    if let Some(n) = ALL_BUILTINS.get(i + 1) {
        if t.as_bytes() >= n.triple.as_str().as_bytes() {
            return Err(format!("{t:?} is listed before {:?}", n.triple.as_str()));
        }
    }
    let mut q: Vec<String> = vec![t.to_owned(), format!("{t} "), format!(" {t}"), format!("{t}\0"), t.to_uppercase(), format!("{t}{t}"), format!("{t}.json"), t.replace('-', "_"), t.replace('-', "")];
    for (k, c) in t.char_indices() {
        q.push(t[..k].to_owned());
        q.push(t[k..].to_owned());
        q.push(format!("{}{}", &t[..k], &t[k + 1..]));
        q.push(format!("{}{c}{}", &t[..k], &t[k..]));
        for r in ['-', '_', 'a', 'z', '0', '9', '~', ' ', '\0', 'é', c.to_ascii_uppercase(), char::from(c as u8 + 1), char::from(c as u8 - 1)] {
            q.push(format!("{}{r}{}", &t[..k], &t[k + 1..]));
            q.push(format!("{}{r}{}", &t[..k], &t[k..]));
        }
        if let Some(n) = ALL_BUILTINS.get(i + 1) {
            let n = n.triple.as_str();
            if n.is_char_boundary(k) && k <= n.len() {
                q.push(format!("{}{}", &t[..k], &n[k..]));
                q.push(format!("{}{}", &n[..k], &t[k..]));
            }
        }
    }
    for r in ['-', '_', 'a', 'e', 'z', '0', '~', 'é', '\u{10ffff}'] {
        q.push(format!("{t}{r}"));
    }
    for x in &q {
        o.compared += 1;
        look(x)?;
    }
    Ok(())
}

fn lookup_any(s: &mut Src, o: &mut Obs) -> R {
    let t = match s.weighted(&[4, 4, 2, 1]) {
        0 => {
            let n = s.range(1, 4);
            (0..n)
                .map(|k| {
                    let t = s.pick(ALL_BUILTINS).triple.as_str();
                    t.split('-').nth(k).unwrap_or("gnu").to_owned()
                })
                .collect::<Vec<_>>()
                .join("-")
        }
        1 => {
            let mut c: Vec<char> = s.pick(ALL_BUILTINS).triple.as_str().chars().collect();
            for _ in 0..s.below(3) {
                let i = s.below(c.len().max(1));
                match s.below(4) {
                    0 if !c.is_empty() => {
                        c.remove(i);
                    }
                    1 => c.insert(i.min(c.len()), mk::any_char(s)),
                    2 if !c.is_empty() => c[i] = mk::any_char(s),
                    _ => c.truncate(i),
                }
            }
            c.into_iter().collect()
        }
        2 => {
            let i = s.below(ALL_BUILTINS.len());
            let mut t = ALL_BUILTINS[i].triple.as_str().to_owned();
            if s.bool() {
                t.push(mk::any_char(s));
            } else if let Some(c) = t.pop() {
                t.push(char::from(c as u8 - 1));
                t.push('~');
            }
            t
        }
        _ => mk::any_text(s),
    };
    o.case(&*t);
    o.nt(!t.is_empty());
    let hit = index().contains_key(&*t);
    o.label(if hit { "listed" } else { "not listed" });
    look(&t)
}

// ---------------------------------------------------------------------------
// C13

fn table_targets(s: &mut Src, o: &mut Obs) -> R {
    let f = &table()[s.u64() as usize];
    o.case(f.triple.clone());
    o.nt(true);
    let mut hits = ALL_BUILTINS.iter().filter(|t| t.triple.as_str() == f.triple);
    let (Some(t), None) = (hits.next(), hits.next()) else {
        return Err(format!("{} is not listed exactly once", f.triple));
    };
    ask_list(t, f, all_questions(), o)?;
    let mut near = Vec::new();
    for (k, v) in true_answers(f) {
        near.push((k, v.to_uppercase()));
        near.push((k, format!("{v} ")));
        near.push((k, format!("{v}x")));
        near.push((k, format!("_{v}")));
        let mut w = v;
        w.pop();
        near.push((k, w));
    }
    for x in [&f.triple, &f.arch] {
        near.extend(KEYS.iter().map(|k| (*k, x.clone())));
    }
    ask_list(t, f, &near, o)
}

fn table_list(_: &mut Src, o: &mut Obs) -> R {
    o.nt(true);
    o.case(format!("{} targets of rustc {}", ALL_BUILTINS.len(), rustc_version()));
    let want: BTreeSet<&str> = table().iter().map(|f| f.triple.as_str()).collect();
    let got: BTreeSet<&str> = ALL_BUILTINS.iter().map(|t| t.triple.as_str()).collect();
    if want != got {
        return Err(format!(
            "missing {:?}, besides {:?}",
            want.difference(&got).collect::<Vec<_>>(),
            got.difference(&want).collect::<Vec<_>>()
        ));
    }
    if rustc_version() != "1.86.0" {
        return Err(format!("the table of 1.86.0 is declared to be of {:?}", rustc_version()));
    }
    Ok(())
}

/// A formula of target predicates whose values mostly mean something: true answers of
/// `near`, the questions given, and, if `wild`, arbitrary ones.
pub fn target_formula(s: &mut Src, near: &Facts, pool: &[Q], wild: bool) -> Ast {
    struct G<'a> {
        yes: Vec<Q>,
        pool: &'a [Q],
        wild: bool,
    }
    fn leaf(s: &mut Src, g: &G<'_>) -> Ast {
        for _ in 0..30 {
            let (k, v) = match s.weighted(&[4, 4, 1]) {
                0 => s.pick(&g.yes).clone(),
                2 if g.wild => {
                    let k = *s.pick(KEYS);
                    (k, text(s, mk::OSES))
                }
                _ => s.pick(g.pool).clone(),
            };
            if v.contains('"') || tp_of(k, &v).is_none() {
                continue;
            }
            return Ast::P(if k == "unix" || k == "windows" { RPred::flag(k) } else { RPred::kv(k, v) });
        }
        Ast::P(RPred::flag("unix"))
    }
    fn go(s: &mut Src, g: &G<'_>, d: usize) -> Ast {
        if d == 0 {
            return leaf(s, g);
        }
        match s.weighted(&[3, 2, 2, 2]) {
            0 => leaf(s, g),
            1 => Ast::All((0..s.below(5)).map(|_| go(s, g, d - 1)).collect()),
            2 => Ast::Any((0..s.below(5)).map(|_| go(s, g, d - 1)).collect()),
            _ => Ast::Not(Box::new(go(s, g, d - 1))),
        }
    }
    let yes: Vec<Q> = true_answers(near)
        .into_iter()
        .filter(|q| wild || pool.iter().any(|p| p == q))
        .collect();
    let g = G { yes, pool, wild };
    let d = s.range(1, 4);
    go(s, &g, d)
}

fn table_formulas(s: &mut Src, o: &mut Obs) -> R {
    let f = s.pick(table());
    let Some(t) = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == f.triple) else { return o.skip() };
    let a = target_formula(s, f, all_questions(), true);
    let n = a.leaf_vec().len();
    let c = mk::case_of(s, a.clone(), mk::Dialect::Full);
    o.case(format!("{}: {}", f.triple, c.full()));
    o.nt(n >= 2);
    o.compared += 1;
    formula(s, a, t, f)
}

// ---------------------------------------------------------------------------
// C16

fn hash_of<T: Hash>(x: &T) -> (u64, u64) {
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut f);
    (std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(x), f.finish())
}

/// The elements through iterators which know more or less about themselves.
fn through<T: Clone + 'static>(k: usize, v: &[T]) -> Box<dyn Iterator<Item = T>> {
    let v = v.to_vec();
    match k {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        2 => {
            let mut r: Vec<T> = v;
            r.reverse();
            Box::new(r.into_iter().rev())
        }
        3 => Box::new(v.clone().into_iter().take(1).chain(v.into_iter().skip(1))),
        4 => {
            let mut it = v.into_iter();
            Box::new(std::iter::from_fn(move || it.next()))
        }
        _ => Box::new(v.into_iter().collect::<std::collections::LinkedList<T>>().into_iter()),
    }
}

/// What any such collection must be, given its elements ascending.
struct SetView<'a, S, E> {
    s: &'a S,
    items: &'a [E],
    printed: String,
}

fn same_set<S: Clone + Eq + Ord + Hash + std::fmt::Display, E: Eq + Ord + std::fmt::Display + std::fmt::Debug>(
    what: &str,
    a: &SetView<'_, S, E>,
    want: &[E],
) -> R {
    if a.items.len() != want.len() || a.items.iter().zip(want).any(|(x, y)| x != y) {
        return Err(format!("{what} holds {:?}, should hold {want:?}", a.items));
    }
    let text = format!("{{{}}}", want.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    if a.printed != text || a.s.to_string() != text {
        return Err(format!("{what} prints as {:?}, should be {text:?}", a.printed));
    }
    Ok(())
}

/// The provided methods of an order agree with `cmp`.
pub fn whole_order<S: Ord + Clone>(what: &str, a: &S, b: &S) -> R {
    let c = a.cmp(b);
    let ops = [a < b, a <= b, a > b, a >= b];
    let want = [c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()];
    if ops != want || a.partial_cmp(b) != Some(c) {
        return Err(format!("{what}: compare as {c:?}, but <, <=, >, >= give {ops:?}"));
    }
    let (lo, hi) = if c.is_le() { (a, b) } else { (b, a) };
    let (x, y) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
    if x.cmp(lo).is_ne() || y.cmp(hi).is_ne() || a.clone().clamp(lo.clone(), hi.clone()).cmp(a).is_ne() {
        return Err(format!("{what}: compare as {c:?}, but min and max differ"));
    }
    Ok(())
}

pub fn alike<S: Clone + Eq + Ord + Hash>(what: &str, a: &S, b: &S, same: bool) -> R {
    #[allow(clippy::nonminimal_bool)]
    let eq = (a == b) && (b == a) && !(a != b);
    let ne = (a != b) && (b != a) && !(a == b);
    if same != eq || same == ne {
        return Err(format!("{what}: equality is {eq}, should be {same}"));
    }
    if same != (a.cmp(b) == Ordering::Equal)
        || a.cmp(b) != b.cmp(a).reverse()
        || a.partial_cmp(b) != Some(a.cmp(b))
    {
        return Err(format!("{what}: compare as {:?} and {:?}, should be equal: {same}", a.cmp(b), b.cmp(a)));
    }
    whole_order(what, a, b)?;
    if same && hash_of(a) != hash_of(b) {
        return Err(format!("{what}: hashes differ"));
    }
    let mut c = a.clone();
    c.clone_from(b);
    if c != *b || c.cmp(b) != Ordering::Equal || hash_of(&c) != hash_of(b) {
        return Err(format!("{what}: the second cloned into the first differs from the second"));
    }
    if same {
        let h: HashSet<&S> = [a].into();
        let t: BTreeSet<&S> = [a].into();
        if !h.contains(b) || !t.contains(b) {
            return Err(format!("{what}: not found in a set keyed by the other"));
        }
        if a.clone() != *b {
            return Err(format!("{what}: a clone differs"));
        }
    }
    Ok(())
}

fn check_families(orders: &[(usize, Vec<String>)], absent: &[String], o: &mut Obs) -> R {
    let mut sorted = orders[0].1.clone();
    sorted.sort();
    let want: Vec<Family> = sorted.iter().cloned().map(Family::new).collect();
    let mut all: Vec<(String, Families)> = Vec::new();
    for (k, v) in orders {
        let items: Vec<Family> = v
            .iter()
            .enumerate()
            .map(|(i, x)| if (i + k) % 3 == 0 { Family::new_const(leak(x)) } else { Family::new(x.clone()) })
            .collect();
        all.push((format!("Families::new({v:?})"), Families::new(through(*k % 6, &items))));
    }
    let konst: &'static [Family] =
        Box::leak(sorted.iter().map(|x| Family::new_const(leak(x))).collect::<Vec<_>>().into_boxed_slice());
    all.push((format!("Families::new_const({sorted:?})"), Families::new_const(konst)));
    for (what, s) in &all {
        let v = SetView { s, items: s.as_ref(), printed: format!("{s}") };
        same_set(what, &v, &want)?;
        if s.len() != want.len() || s.iter().ne(want.iter()) || s.is_empty() != want.is_empty() {
            return Err(format!("{what} does not iterate as {want:?}"));
        }
        for w in &want {
            if !s.contains(w) || !s.contains(&Family::new_const(leak(w.as_str()))) {
                return Err(format!("{what} does not contain {w}"));
            }
        }
        for a in absent {
            if s.contains(&Family::new(a.clone())) != sorted.contains(a) {
                return Err(format!("{what} contains {a:?}"));
            }
        }
        for (what2, s2) in &all {
            o.compared += 1;
            alike(&format!("{what} and {what2}"), s, s2, true)?;
        }
    }
    // a different set
    for a in absent.iter().filter(|a| !sorted.contains(a)) {
        let more = Families::new(sorted.iter().chain([a]).rev().cloned().map(Family::new));
        alike(&format!("{sorted:?} and the same with {a:?}"), &all[0].1, &more, false)?;
        if !sorted.is_empty() {
            let other = Families::new(sorted[1..].iter().chain([a]).cloned().map(Family::new));
            alike(&format!("{sorted:?} and {a:?} for the first"), &all[0].1, &other, false)?;
        }
    }
    Ok(())
}

fn show_atomic(a: Option<u16>) -> String {
    a.map_or("ptr".into(), |n| n.to_string())
}

fn check_atomics(orders: &[(usize, Vec<Option<u16>>)], absent: &[Option<u16>], o: &mut Obs) -> R {
    // ascending: widths by size, then the pointer
    let mut sorted = orders[0].1.clone();
    sorted.sort_by_key(|a| a.map_or(1u32 << 16, u32::from));
    let want: Vec<HasAtomic> = sorted.iter().copied().map(atomic).collect();
    let mut all: Vec<(String, HasAtomics)> = Vec::new();
    for (k, v) in orders {
        let items: Vec<HasAtomic> = v.iter().copied().map(atomic).collect();
        let shown: Vec<String> = v.iter().copied().map(show_atomic).collect();
        all.push((format!("HasAtomics::new({shown:?})"), HasAtomics::new(through(*k % 6, &items))));
    }
    let konst: &'static [HasAtomic] = Box::leak(want.clone().into_boxed_slice());
    all.push((format!("HasAtomics::new_const({want:?})"), HasAtomics::new_const(konst)));
    for (what, s) in &all {
        let v = SetView { s, items: s.as_ref(), printed: format!("{s}") };
        same_set(what, &v, &want)?;
        let text = format!("{{{}}}", sorted.iter().copied().map(show_atomic).collect::<Vec<_>>().join(", "));
        if s.to_string() != text {
            return Err(format!("{what} prints as {s}, should be {text}"));
        }
        if s.len() != want.len() || s.iter().ne(want.iter()) || s.is_empty() != want.is_empty() {
            return Err(format!("{what} does not iterate as {want:?}"));
        }
        for w in &want {
            if !s.contains(*w) {
                return Err(format!("{what} does not contain {w}"));
            }
        }
        for a in absent {
            if s.contains(atomic(*a)) != sorted.contains(a) {
                return Err(format!("{what} contains {a:?}"));
            }
        }
        for (what2, s2) in &all {
            o.compared += 1;
            alike(&format!("{what} and {what2}"), s, s2, true)?;
        }
    }
    for a in absent.iter().filter(|a| !sorted.contains(a)) {
        let more = HasAtomics::new(sorted.iter().chain([a]).rev().copied().map(atomic));
        alike(&format!("{sorted:?} and the same with {a:?}"), &all[0].1, &more, false)?;
        if !sorted.is_empty() {
            let other = HasAtomics::new(sorted[1..].iter().chain([a]).copied().map(atomic));
            alike(&format!("{sorted:?} and {a:?} for the first"), &all[0].1, &other, false)?;
        }
    }
    Ok(())
}

fn distinct<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut r: Vec<T> = Vec::new();
    for x in v {
        if !r.contains(&x) {
            r.push(x);
        }
    }
    r
}

fn fam_text(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 2]) {
        0 => (*s.pick(&["unix", "windows", "wasm", "itron", "", "a", "b", "Unix", "unix2", "z"])).to_owned(),
        1 => text(s, mk::FAMILIES),
        _ => (0..s.below(4)).map(|_| mk::any_char(s)).collect(),
    }
}

fn families(s: &mut Src, o: &mut Obs) -> R {
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.below(5),
        1 => s.below(12),
        _ => s.below(40),
    };
    let base = distinct((0..n).map(|_| fam_text(s)).collect());
    let mut orders = Vec::new();
    for _ in 0..3 {
        let mut v = base.clone();
        s.shuffle(&mut v);
        orders.push((s.below(6), v));
    }
    let absent: Vec<String> = (0..3)
        .map(|_| {
            let mut t = if base.is_empty() || s.bool() { fam_text(s) } else { s.pick(&base).clone() };
            t.push('!');
            t
        })
        .collect();
    o.case(format!("{:?}", orders[0].1));
    o.nt(base.len() >= 2);
    o.label_if(base.len() > 8, "more than 8 elements");
    check_families(&orders, &absent, o)
}

fn atomics(s: &mut Src, o: &mut Obs) -> R {
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.below(7),
        1 => s.below(12),
        _ => s.below(40),
    };
    let one = |s: &mut Src| match s.weighted(&[4, 1, 2]) {
        0 => Some(*s.pick(&[8, 16, 32, 64, 128, 0, 1, 9, 10, 100, 255, 256, 65535])),
        1 => None,
        _ => Some(s.u16()),
    };
    let base = distinct((0..n).map(|_| one(s)).collect());
    let mut orders = Vec::new();
    for _ in 0..3 {
        let mut v = base.clone();
        s.shuffle(&mut v);
        orders.push((s.below(6), v));
    }
    let absent: Vec<Option<u16>> = (0..3).map(|_| one(s)).collect();
    o.case(format!("{:?}", orders[0].1));
    o.nt(base.len() >= 2);
    o.label_if(base.len() > 8, "more than 8 elements");
    check_atomics(&orders, &absent, o)
}

fn permutations(s: &mut Src, o: &mut Obs) -> R {
    const A: [Option<u16>; 7] = [Some(8), Some(16), Some(32), Some(64), Some(128), None, Some(65535)];
    const F: [&str; 7] = ["unix", "windows", "wasm", "itron", "", "unix2", "UNIX"];
    fn perms<T: Clone>(v: &[T], out: &mut Vec<Vec<T>>, cur: &mut Vec<T>, used: &mut Vec<bool>) {
        if cur.len() == v.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..v.len() {
            if !used[i] {
                used[i] = true;
                cur.push(v[i].clone());
                perms(v, out, cur, used);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let m = s.u64() as usize;
    let pick: Vec<usize> = (0..7).filter(|i| m >> i & 1 == 1).collect();
    let a: Vec<Option<u16>> = pick.iter().map(|i| A[*i]).collect();
    let f: Vec<String> = pick.iter().map(|i| F[*i].to_owned()).collect();
    o.case(format!("{a:?} and {f:?}"));
    o.nt(pick.len() >= 2);
    let mut out = Vec::new();
    perms(&a, &mut out, &mut Vec::new(), &mut vec![false; a.len()]);
    for (i, p) in out.into_iter().enumerate() {
        check_atomics(&[(0, a.clone()), (i, p)], &A, o)?;
    }
    let all: Vec<String> = F.map(str::to_owned).into();
    let mut out = Vec::new();
    perms(&f, &mut out, &mut Vec::new(), &mut vec![false; f.len()]);
    for (i, p) in out.into_iter().enumerate() {
        check_families(&[(0, f.clone()), (i, p)], &all, o)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C17

fn one_pred(src: &str) -> Result<Option<TP>, String> {
    match Expression::parse(src) {
        Err(_) => Ok(None),
        Ok(e) => {
            let v: Vec<Predicate<'_>> = e.predicates().collect();
            match v.as_slice() {
                [Predicate::Target(t)] => Ok(Some(t.clone())),
                o => Err(format!("{src:?} is reported as {o:?}")),
            }
        }
    }
}

fn check_atomic_text(t: &str) -> R {
    let want = if t == "ptr" {
        Some(HasAtomic::Pointer)
    } else if canonical_uint(t, 65535) {
        Some(HasAtomic::IntegerSize(t.bytes().fold(0, |a, b| a * 10 + u16::from(b - b'0'))))
    } else {
        None
    };
    let got = t.parse::<HasAtomic>();
    if let Err(e) = &got {
        if !e.to_string().contains(t) || e.clone() != *e {
            return Err(format!("{t:?} is rejected as an atomic width with {e}, which does not show it"));
        }
    }
    let got = got.ok();
    if got != want {
        return Err(format!("{t:?} is read as the atomic width {got:?}, should be {want:?}"));
    }
    if let Some(w) = want {
        if w.to_string() != t || w.to_string().parse() != Ok(w) {
            return Err(format!("{w:?} prints as {w}"));
        }
    }
    if t.contains('"') {
        return Ok(());
    }
    let got = one_pred(&format!("target_has_atomic = \"{t}\""))?;
    if got != want.map(TP::HasAtomic) {
        return Err(format!("target_has_atomic = {t:?} is {got:?}, should be {want:?}"));
    }
    Ok(())
}

fn check_width_text(t: &str) -> R {
    if t.contains('"') {
        return Ok(());
    }
    let want = canonical_uint(t, 255).then(|| TP::PointerWidth(t.bytes().fold(0u8, |a, b| a * 10 + (b - b'0'))));
    let got = one_pred(&format!("target_pointer_width = \"{t}\""))?;
    if got != want {
        return Err(format!("target_pointer_width = {t:?} is {got:?}, should be {want:?}"));
    }
    Ok(())
}

fn check_endian_text(t: &str) -> R {
    let want = match t {
        "big" => Some(Endian::big),
        "little" => Some(Endian::little),
        _ => None,
    };
    let got: Option<Endian> = t.parse().ok();
    if got != want {
        return Err(format!("{t:?} is read as the endianness {got:?}, should be {want:?}"));
    }
    if t.contains('"') {
        return Ok(());
    }
    let got = one_pred(&format!("target_endian = \"{t}\""))?;
    if got != want.map(TP::Endian) {
        return Err(format!("target_endian = {t:?} is {got:?}, should be {want:?}"));
    }
    Ok(())
}

fn numbers(s: &mut Src, o: &mut Obs) -> R {
    let n = s.u64();
    o.case(n.to_string());
    o.nt(true);
    let full: String = n.to_string().chars().map(|c| char::from_u32(c as u32 - 0x30 + 0xff10).unwrap_or(c)).collect();
    for t in [
        format!("{n}"),
        format!("+{n}"),
        format!("-{n}"),
        format!("0{n}"),
        format!("00{n}"),
        format!(" {n}"),
        format!("{n} "),
        format!("{n}_"),
        format!("{n}.0"),
        format!("{n}u8"),
        format!("0x{n:x}"),
        format!("{n}\n"),
        format!("{n}ptr"),
        full,
        // the numbers it would be taken for after wrapping
        (n + (1 << 16)).to_string(),
        (n + (1 << 32)).to_string(),
        (u128::from(n) + (1 << 64)).to_string(),
    ] {
        o.compared += 1;
        check_atomic_text(&t)?;
        if n < 1000 {
            check_width_text(&t)?;
            check_endian_text(&t)?;
        }
    }
    Ok(())
}

fn value_texts(s: &mut Src, o: &mut Obs) -> R {
    let t = match s.weighted(&[4, 3, 1]) {
        0 => {
            let mut c: Vec<char> = (*s.pick(&["ptr", "big", "little", "8", "16", "32", "64", "128", "65535", "255", "0", "65536", "256", "pointer", "native", "usize"])).chars().collect();
            for _ in 0..s.weighted(&[2, 4, 2]) {
                let i = s.below(c.len().max(1));
                match s.below(4) {
                    0 if !c.is_empty() => {
                        c.remove(i);
                    }
                    1 => c.insert(i.min(c.len()), mk::any_char(s)),
                    2 if !c.is_empty() => c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { mk::any_char(s) },
                    _ => c.insert(i.min(c.len()), *s.pick(&['0', '1', '9', '+', '-', ' ', '_'])),
                }
            }
            c.into_iter().collect()
        }
        1 => (0..s.below(12)).map(|_| *s.pick(&['0', '1', '2', '5', '6', '3', '9', '+', '-', '.', 'e', 'x', ' '])).collect(),
        _ => mk::value(s, mk::Dialect::Full),
    };
    let t: String = t;
    o.case(format!("{t:?}"));
    o.nt(!t.is_empty());
    o.compared += 3;
    check_atomic_text(&t)?;
    check_width_text(&t)?;
    check_endian_text(&t)
}

// ---------------------------------------------------------------------------
// C18

macro_rules! name_type {
    ($ty:ident, $a:expr, $b:expr) => {{
        let (a, b): (&str, &str) = ($a, $b);
        let ways = |t: &str| -> Vec<$ty> {
            let mut roomy = String::with_capacity(t.len() + 37);
            roomy.push_str(t);
            vec![
                $ty::new(t.to_owned()),
                $ty::new(leak(t)),
                $ty::new_const(leak(t)),
                $ty::new(Cow::<'static, str>::Owned(roomy)),
                $ty::new(leak(t)).clone(),
            ]
        };
        let (xs, ys) = (ways(a), ways(b));
        for x in &xs {
            let r: &str = x.as_ref();
            if x.as_str() != a || r != a || format!("{x}") != a || x.to_string() != a {
                return Err(format!("{} made from {a:?} gives {:?}, {r:?} and {x}", stringify!($ty), x.as_str()));
            }
            for y in &ys {
                if (x == y) != (a == b) || (x != y) != (a != b) || x.cmp(y) != a.cmp(b)
                    || x.partial_cmp(y) != Some(a.cmp(b)) || (x < y) != (a < b) || (x >= y) != (a >= b)
                {
                    return Err(format!("{}: {a:?} and {b:?} are equal: {}, compare as {:?}", stringify!($ty), x == y, x.cmp(y)));
                }
                whole_order(&format!("{} {a:?} and {b:?}", stringify!($ty)), x, y)?;
                let mut c = x.clone();
                c.clone_from(y);
                if c != *y || c.as_str() != b {
                    return Err(format!("{}: {b:?} cloned into {a:?} gives {c}", stringify!($ty)));
                }
                if a == b && hash_of(x) != hash_of(y) {
                    return Err(format!("{}: two ways of writing {a:?} hash differently", stringify!($ty)));
                }
            }
            let m: HashMap<$ty, u8> = [(x.clone(), 1)].into();
            let t: BTreeMap<$ty, u8> = [(x.clone(), 1)].into();
            if ys.iter().any(|y| m.contains_key(y) != (a == b) || t.contains_key(y) != (a == b)) {
                return Err(format!("{}: map lookup of {b:?} among {a:?}", stringify!($ty)));
            }
        }
    }};
}

fn names(s: &mut Src, o: &mut Obs) -> R {
    let a = match s.weighted(&[4, 2, 2]) {
        0 => text(s, mk::OSES),
        1 => s.pick(table()).triple.clone(),
        _ => (0..s.below(12)).map(|_| mk::any_char(s)).collect(),
    };
    let mut b = a.clone();
    match s.below(8) {
        0 | 1 => {}
        2 => b.push(mk::any_char(s)),
        3 => {
            b.pop();
        }
        4 => b = b.to_uppercase(),
        5 => b = b.to_lowercase(),
        6 => b = text(s, mk::ARCHES),
        _ => b.insert(0, mk::any_char(s)),
    }
    o.case(format!("{a:?} and {b:?}"));
    o.nt(!(a.is_empty() && b.is_empty()));
    o.label(if a == b { "same text" } else { "different texts" });
    o.compared += 8 * 25;
    name_type!(Triple, &a, &b);
    name_type!(Abi, &a, &b);
    name_type!(Arch, &a, &b);
    name_type!(Vendor, &a, &b);
    name_type!(Os, &a, &b);
    name_type!(Family, &a, &b);
    name_type!(Env, &a, &b);
    name_type!(Panic, &a, &b);
    Ok(())
}

fn rebuilt(s: &mut Src, o: &mut Obs) -> R {
    let i = s.u64() as usize;
    let Some(t) = ALL_BUILTINS.get(i) else { return o.skip() };
    let f = facts_of(t);
    o.case(f.triple.clone());
    o.nt(true);
    let mut g = f.clone();
    g.families.reverse();
    g.atomics.reverse();
    for r in [build(&f), build(&g)] {
        alike(&format!("{} and the same rebuilt", f.triple), t, &r, true)?;
        if r.to_owned() != *t {
            return Err(format!("{} rebuilt and cloned differs", f.triple));
        }
        for (k, v) in all_questions() {
            let Some(p) = tp_of(k, v) else { continue };
            o.compared += 1;
            if p.matches(t) != p.matches(&r) {
                return Err(format!("{} and the same rebuilt differ on {k} = {v:?}", f.triple));
            }
        }
    }
    for j in [0, i.wrapping_sub(1), i + 1, ALL_BUILTINS.len() - 1] {
        if let Some(u) = ALL_BUILTINS.get(j) {
            alike(&format!("{} and {}", f.triple, u.triple), &build(&f), u, i == j)?;
        }
    }
    Ok(())
}
