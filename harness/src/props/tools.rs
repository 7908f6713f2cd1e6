//! C23 regenerating the target table, C24 failed regenerations.
//!
//! The update tool runs in a scratch directory with a stand-in compiler: this program
//! itself, which answers from a directory describing what to say and where to fail.

use crate::engine::{Kind, Obs, R, Sub, clip};
use crate::mk;
use crate::props::peers::{scratch_root, unable};
use crate::props::tgt::{self, Facts};
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Output, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn subs() -> Vec<Sub> {
    vec![
        Sub {
            prop: "C23",
            name: "regenerate",
            kind: Kind::Rand { quick: 280, thorough: 30, len: 16_000 },
            both: false,
            rule: "a target list (real targets which between them use every value and combination of 1.86.0, or all of them, with made-up ones in any place) reported by a stand-in compiler with lines in any order, bare flags, ignored keys and optional keys left out; the update tool runs, the crate is compiled with its table, a program prints every field, and all is compared with what was reported; a second run changes no byte; non-trivial: some target is made up",
            run: regenerate,
        },
        Sub {
            prop: "C24",
            name: "failures",
            kind: Kind::Rand { quick: 2_400, thorough: 30, len: 3_000 },
            both: false,
            rule: "one failure at a random query (version, list, any target): the compiler missing, not executable, a directory, failing with or without output, killed, vanishing after an answer, or reporting an unknown key anywhere, or a README without a version, or a rustfmt which is missing, fails or is killed before or after reading or printing, a reported value which makes no Rust name (if the tool fails then), or an atomic width of no known form or a mandatory key left out: non-zero exit and both files as before; then the same run without the failure writes what a fresh one writes; non-trivial: all",
            run: failures,
        },
        Sub {
            prop: "C24",
            name: "readmes",
            kind: Kind::Rand { quick: 700, thorough: 30, len: 600 },
            both: false,
            rule: "READMEs of random text with any number of mentions of the previous release: after a successful run exactly those mentions differ; non-trivial: two mentions or more",
            run: readmes,
        },
    ]
}

// ---------------------------------------------------------------------------
// the stand-in compiler

const PLAN: &str = "CFGPROP_FAKE_RUSTC";

/// Answer like rustc, as far as the plan goes.
pub fn fake_rustc() -> ExitCode {
    let dir = PathBuf::from(std::env::var_os(PLAN).expect("plan"));
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    args.retain(|a| !a.starts_with('+'));
    let after = |name: &str| -> Option<String> {
        args.iter().enumerate().find_map(|(i, a)| {
            if a == name {
                return args.get(i + 1).cloned();
            }
            a.strip_prefix(name)?.strip_prefix('=').map(str::to_owned)
        })
    };
    let query = if args.iter().any(|a| a == "--version" || a == "-V") {
        "version".to_owned()
    } else {
        match after("--print").as_deref() {
            Some("target-list") => "list".to_owned(),
            Some("cfg") => format!("t-{}", after("--target").unwrap_or_default()),
            _ => {
                eprintln!("error: unknown request {args:?}");
                return ExitCode::from(1);
            }
        }
    };
    let Ok(text) = std::fs::read(dir.join(&query)) else {
        eprintln!("error: no answer to {query}");
        return ExitCode::from(1);
    };
    let fault = std::fs::read_to_string(dir.join("fault")).unwrap_or_default();
    let mut f = fault.split('\n');
    let (place, how) = (f.next().unwrap_or_default(), f.next().unwrap_or_default());
    let say = |t: &[u8]| {
        let _ = std::io::Write::write_all(&mut std::io::stdout(), t);
        let _ = std::io::Write::flush(&mut std::io::stdout());
    };
    if place == query {
        match how {
            "silent" => return ExitCode::from(1),
            "stderr" => {
                eprintln!("error: this is made to fail");
                return ExitCode::from(1);
            }
            "bytes" => {
                let _ = std::io::Write::write_all(&mut std::io::stderr(), b"\xff\xfe error \x80");
                return ExitCode::from(1);
            }
            "full" => {
                say(&text);
                return ExitCode::from(101);
            }
            "half" => {
                say(&text[..text.len() / 2]);
                return ExitCode::from(2);
            }
            "killed" => {
                say(&text);
                std::process::abort();
            }
            "vanish" => {
                say(&text);
                let _ = std::fs::remove_file(dir.join("rustc"));
                return ExitCode::SUCCESS;
            }
            _ => {}
        }
    }
    say(&text);
    ExitCode::SUCCESS
}

// ---------------------------------------------------------------------------
// what a compiler reports

#[derive(Clone)]
struct Report {
    facts: Facts,
    /// what `--print cfg` prints
    lines: Vec<String>,
}

fn strip_absent(x: &Option<String>, absent: &str) -> Option<String> {
    x.clone().filter(|v| v != absent)
}

/// What must be in the table.
fn table_form(f: &Facts) -> Facts {
    let mut f = f.clone();
    f.os = strip_absent(&f.os, "none");
    f.abi = strip_absent(&f.abi, "");
    f.env = strip_absent(&f.env, "");
    f.vendor = strip_absent(&f.vendor, "");
    f.families.sort();
    f.families.dedup();
    f.atomics.sort_by_key(|a| a.map_or(1 << 20, u32::from));
    f.atomics.dedup();
    f
}

fn lines_of(s: &mut Src, f: &Facts) -> Vec<String> {
    let mut v = Vec::new();
    let opt = |v: &mut Vec<String>, k: &str, x: &Option<String>| {
        if let Some(x) = x {
            v.push(format!("{k}=\"{x}\""));
        }
    };
    opt(&mut v, "target_os", &f.os);
    opt(&mut v, "target_abi", &f.abi);
    opt(&mut v, "target_env", &f.env);
    opt(&mut v, "target_vendor", &f.vendor);
    v.push(format!("target_arch=\"{}\"", f.arch));
    v.push(format!("panic=\"{}\"", f.panic));
    v.push(format!("target_endian=\"{}\"", if f.big { "big" } else { "little" }));
    v.push(format!("target_pointer_width=\"{}\"", f.width));
    for x in &f.families {
        v.push(format!("target_family=\"{x}\""));
    }
    for a in &f.atomics {
        v.push(format!("target_has_atomic=\"{}\"", a.map_or("ptr".to_owned(), |n| n.to_string())));
    }
    for x in &f.families {
        if x == "unix" || x == "windows" {
            v.push(x.clone());
        }
    }
    for b in ["debug_assertions", "overflow_checks", "target_thread_local", "target_has_atomic", "ub_checks", "panic_here"] {
        if s.chance(90) {
            v.push(b.to_owned());
        }
    }
    for (k, vals) in [
        ("target_feature", &["sse2", "crt-static", "", "linux", "a=b", "x\\\"y"][..]),
        ("relocation_model", &["pic", "static", "none"][..]),
        ("target_has_atomic_equal_alignment", &["8", "ptr", "128"][..]),
        ("target_has_atomic_load_store", &["16", "ptr", "abc"][..]),
        ("fmt_debug", &["full"][..]),
    ] {
        if s.chance(60) {
            for _ in 0..s.range(1, 3) {
                v.push(format!("{k}=\"{}\"", s.pick(vals)));
            }
        }
    }
    match s.weighted(&[3, 3, 2]) {
        0 => v.sort(),
        1 => s.shuffle(&mut v),
        _ => {}
    }
    v
}

/// Real targets which between them have every value, and every set, of the recorded table.
fn cover() -> &'static Vec<usize> {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| {
        let mut seen = BTreeSet::new();
        let mut v = Vec::new();
        for (i, f) in tgt::table().iter().enumerate() {
            let mut new = false;
            for (k, x) in tgt::true_answers(f) {
                new |= seen.insert(format!("{k}={x}"));
            }
            new |= seen.insert(format!("{:?}", f.families));
            new |= seen.insert(format!("{:?}", f.atomics));
            if new {
                v.push(i);
            }
        }
        v
    })
}

/// Names which would not make an identifier of their own in the generated code.
fn taken(w: &str) -> bool {
    mk::is_rust_keyword(w)
        || matches!(
            w,
            "new" | "new_const" | "as_str" | "contains" | "iter" | "is_empty" | "len" | "get" | "from"
                | "into" | "cmp" | "eq" | "fmt" | "hash" | "clone" | "deref" | "borrow" | "as_ref"
                | "default" | "to_string" | "to_owned" | "matches" | "first" | "last" | "insert"
                | "extend" | "sort" | "union" | "raw" | "safe" | "auto" | "macro_rules" | "0"
        )
}

fn fresh_name(s: &mut Src, dashes: bool, scores: bool) -> String {
    const A: &[u8] = b"abcxyzABZ";
    const B: &[u8] = b"abcz019AZ";
    let mut w = String::new();
    for _ in 0..20 {
        w.clear();
        w.push(char::from(*s.pick(A)));
        let n = match s.weighted(&[1, 3, 3, 2, 2, 1, 1, 1, 1]) {
            8 => s.range(8, 60),
            n => n,
        };
        for _ in 0..n {
            let c = *s.pick(B);
            if dashes && s.chance(40) && !w.ends_with('-') {
                w.push('-');
            } else if scores && s.chance(30) {
                w.push('_');
            }
            w.push(char::from(c));
        }
        if !taken(&w) {
            return w;
        }
    }
    "q0".into()
}

/// Values in use per key, so that no two share an identifier.
#[derive(Default)]
struct Names(BTreeMap<&'static str, BTreeMap<String, String>>, Vec<Facts>);

/// A name next to one: a character more, less, or in the other case.
fn near_name(s: &mut Src, w: &str) -> String {
    let mut v: Vec<char> = w.chars().collect();
    let i = s.below(v.len());
    match s.below(4) {
        0 => v.push(*s.pick(&['a', '0', '1', 'Z'])),
        1 => {
            v.pop();
        }
        2 if v[i] != '-' => v.insert(i + 1, *s.pick(&['b', '0', 'Y'])),
        _ => {
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
    }
    let w: String = v.into_iter().collect();
    let w = w.trim_end_matches(['-', '_']).to_owned();
    if w.is_empty() || taken(&w.replace('-', "_")) { "q1".into() } else { w }
}

impl Names {
    fn get(&mut self, s: &mut Src, k: &'static str, dashes: bool, scores: bool, fixed: &[&str]) -> String {
        let m = self.0.entry(k).or_default();
        if !m.is_empty() && s.chance(120) {
            let all: Vec<String> = m.values().cloned().collect();
            return s.pick(&all).clone();
        }
        if !fixed.is_empty() && s.chance(60) {
            let w = (*s.pick(fixed)).to_owned();
            let id = w.replace('-', "_");
            return m.entry(id).or_insert(w).clone();
        }
        let w = if !m.is_empty() && s.chance(70) {
            let all: Vec<String> = m.values().cloned().collect();
            let w = s.pick(&all).clone();
            near_name(s, &w)
        } else {
            fresh_name(s, dashes, scores)
        };
        let id = w.replace('-', "_");
        m.entry(id).or_insert(w).clone()
    }
}

fn made_up(s: &mut Src, n: &mut Names, i: usize) -> Facts {
    // an optional key left out (0), with its "absent" value (1), with a value
    let mut opt = |s: &mut Src, k: &'static str, absent: &str, fixed: &[&str]| match s.weighted(&[1, 2, 5]) {
        0 => None,
        1 => Some(absent.to_owned()),
        _ => Some(n.get(s, k, true, true, fixed)),
    };
    let os = opt(s, "os", "none", &["unknown", "linux", "macos", "ios"]);
    let abi = opt(s, "abi", "", &["none", "unknown", "eabi", "eabihf"]);
    let env = opt(s, "env", "", &["none", "unknown", "gnu", "msvc"]);
    let vendor = opt(s, "vendor", "", &["unknown", "none", "apple", "pc"]);
    let arch = n.get(s, "arch", false, true, &["x86", "x86_64", "none", "unknown"]);
    let panic = n.get(s, "panic", false, true, &["unwind", "abort"]);
    let mut families = Vec::new();
    for _ in 0..s.weighted(&[3, 4, 3, 2, 1]) {
        let x = n.get(s, "family", false, false, &["unix", "windows", "wasm"]);
        if !families.contains(&x) {
            families.push(x);
        }
    }
    let mut atomics = Vec::new();
    let width = |s: &mut Src| {
        if s.chance(60) {
            None
        } else if s.chance(190) {
            Some(*s.pick(&[8u16, 16, 32, 64, 128, 256, 1, 2, 4, 9, 10]))
        } else {
            Some(s.u16())
        }
    };
    let many = match s.weighted(&[2, 2, 3, 3, 2, 2, 1, 1]) {
        7 => s.range(6, 14),
        n => n,
    };
    for _ in 0..many {
        let x = width(s);
        if !atomics.contains(&x) {
            atomics.push(x);
        }
    }
    if !n.1.is_empty() && s.chance(90) {
        // the sets of an earlier target, or almost
        let old = s.pick(&n.1).clone();
        families = old.families;
        atomics = old.atomics;
        let x = width(s);
        if s.bool() && !atomics.contains(&x) {
            if s.bool() && !atomics.is_empty() {
                let i = s.below(atomics.len());
                atomics[i] = x;
            } else {
                atomics.push(x);
            }
        }
        if s.chance(60) && !families.is_empty() {
            let i = s.below(families.len());
            families.remove(i);
        }
    }
    if s.bool() {
        atomics.sort_by_key(|a| a.map_or(1 << 20, u32::from));
    }
    let width = if s.chance(220) { *s.pick(&[16u8, 32, 64, 128]) } else { s.u8() };
    let stem = fresh_name(s, true, true);
    let f = Facts {
        triple: format!("{stem}-{}{i}-{}", vendor.as_deref().unwrap_or("v"), os.as_deref().unwrap_or("o")),
        os,
        abi,
        arch,
        env,
        vendor,
        families,
        width,
        big: s.chance(80),
        atomics,
        panic,
    };
    n.1.push(f.clone());
    f
}

fn version(s: &mut Src) -> (String, String) {
    let (a, b, c) = (s.range(1, 2), s.below(130), s.below(4));
    let mut v = format!("{a}.{b}.{c}");
    match s.weighted(&[5, 2, 2]) {
        0 => {}
        1 => v.push_str("-nightly"),
        _ => {
            let _ = write!(v, "-beta.{}", s.below(12));
        }
    }
    let rest = match s.weighted(&[4, 2, 1]) {
        0 => " (05f9846f8 2025-03-31)\n",
        1 => "\n",
        _ => " (05f9846f8 2025-03-31) (built from a source tarball)\n",
    };
    (v.clone(), format!("rustc {v}{rest}"))
}

// ---------------------------------------------------------------------------
// scratch

struct Dir(PathBuf);

impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch_root().join(format!(
            "regen-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        let d = Dir(d);
        must(std::fs::create_dir_all(d.0.join("tree/src/targets")), "scratch directory");
        must(std::fs::create_dir_all(d.0.join("plan")), "scratch directory");
        d
    }
    fn tree(&self) -> PathBuf {
        self.0.join("tree")
    }
    fn plan(&self) -> PathBuf {
        self.0.join("plan")
    }
    /// Both files.
    fn state(&self) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
        (
            std::fs::read(self.tree().join("src/targets/builtins.rs")).ok(),
            std::fs::read(self.tree().join("README.md")).ok(),
        )
    }
    fn put(&self, table: &str, readme: &str) {
        must(std::fs::write(self.tree().join("src/targets/builtins.rs"), table), "table");
        must(std::fs::write(self.tree().join("README.md"), readme), "README");
    }
    /// Write the plan and its compiler.
    fn describe(&self, version: &str, reports: &[Report], fault: &str) {
        let p = self.plan();
        let exe = std::env::current_exe().unwrap_or_else(|e| unable(&e.to_string()));
        let link = p.join("rustc");
        let _ = std::fs::remove_file(&link);
        must(std::os::unix::fs::symlink(exe, &link), "link");
        must(std::fs::write(p.join("version"), version), "plan");
        let list: String = reports.iter().map(|r| format!("{}\n", r.facts.triple)).collect();
        must(std::fs::write(p.join("list"), list), "plan");
        for r in reports {
            let t: String = r.lines.iter().map(|l| format!("{l}\n")).collect();
            must(std::fs::write(p.join(format!("t-{}", r.facts.triple)), t), "plan");
        }
        must(std::fs::write(p.join("fault"), fault), "plan");
    }
    /// Replace rustfmt; answers what it then does.
    fn formatter(&self, way: usize) -> &'static str {
        let bin = self.0.join("bin");
        let _ = std::fs::remove_dir_all(&bin);
        must(std::fs::create_dir_all(&bin), "directory");
        let ways = [
            ("missing", ""),
            ("fails", "exit 1"),
            ("reads and fails", "cat > /dev/null; exit 2"),
            ("prints and fails", "cat > /dev/null; echo '// formatted'; echo wrong >&2; exit 1"),
            ("prints half and fails", "head -c 300; exit 3"),
            ("is killed", "kill -9 $$"),
            ("reads, prints and is killed", "cat; kill -9 $$"),
            ("is not executable", "exit 0"),
        ];
        let (name, script) = ways[way % ways.len()];
        let f = bin.join("rustfmt");
        if !script.is_empty() {
            use std::os::unix::fs::PermissionsExt;
            must(std::fs::write(&f, format!("#!/bin/sh\nPATH=/usr/bin:/bin\n{script}\n")), "stand-in");
            let mode = if name == "is not executable" { 0o644 } else { 0o755 };
            must(std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)), "stand-in");
        }
        name
    }
    fn update(&self, rustc: &Path) -> Output {
        let bin = std::env::var_os("CFGPROP_UPDATE").unwrap_or_else(|| unable("no update tool was built"));
        let mut c = Command::new(bin);
        c.current_dir(self.tree())
            .env("RUSTC", rustc)
            .env(PLAN, self.plan())
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null());
        let bin = self.0.join("bin");
        if bin.exists() {
            // the formatter is only looked for there
            c.env("PATH", bin);
        }
        c.output().unwrap_or_else(|e| unable(&format!("cannot run the update tool: {e}")))
    }
    fn update_ok(&self) -> R {
        let out = self.update(&self.plan().join("rustc"));
        if out.status.success() {
            return Ok(());
        }
        Err(format!("the update tool ended with {}: {}", out.status, clip(&String::from_utf8_lossy(&out.stderr), 600)))
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn must<T>(r: std::io::Result<T>, what: &str) -> T {
    r.unwrap_or_else(|e| unable(&format!("{what}: {e}")))
}

fn repo() -> PathBuf {
    std::env::var_os("CFGPROP_REPO").unwrap_or_else(|| "/repo".into()).into()
}

// ---------------------------------------------------------------------------
// C23

const DUMP: &str = r##"
use cfg_expr::targets::{ALL_BUILTINS, Endian, HasAtomic, rustc_version};
fn main() {
    println!("{:?}", rustc_version());
    for t in ALL_BUILTINS {
        let o = |x: Option<&str>| x.map_or("-".to_owned(), |x| format!("{x:?}"));
        println!(
            "{:?} os={} abi={} arch={:?} env={} vendor={} families={:?} width={} big={} atomics={:?} panic={:?}",
            t.triple.as_str(),
            o(t.os.as_ref().map(|x| x.as_str())),
            o(t.abi.as_ref().map(|x| x.as_str())),
            t.arch.as_str(),
            o(t.env.as_ref().map(|x| x.as_str())),
            o(t.vendor.as_ref().map(|x| x.as_str())),
            t.families.iter().map(|x| x.as_str()).collect::<Vec<_>>(),
            t.pointer_width,
            matches!(t.endian, Endian::big),
            t.has_atomics.iter().map(|x| match x { HasAtomic::IntegerSize(n) => n.to_string(), _ => "ptr".to_owned() }).collect::<Vec<_>>(),
            t.panic.as_str(),
        );
    }
}
"##;

fn expected(version: &str, reports: &[Report]) -> Vec<String> {
    let mut v = vec![format!("{version:?}")];
    for r in reports {
        let f = table_form(&r.facts);
        let o = |x: &Option<String>| x.as_ref().map_or("-".to_owned(), |x| format!("{x:?}"));
        v.push(format!(
            "{:?} os={} abi={} arch={:?} env={} vendor={} families={:?} width={} big={} atomics={:?} panic={:?}",
            f.triple,
            o(&f.os),
            o(&f.abi),
            f.arch,
            o(&f.env),
            o(&f.vendor),
            f.families,
            f.width,
            f.big,
            f.atomics.iter().map(|a| a.map_or("ptr".to_owned(), |n| n.to_string())).collect::<Vec<_>>(),
            f.panic
        ));
    }
    v
}

fn smallvec() -> &'static PathBuf {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let d = PathBuf::from(std::env::var_os("CFGPROP_VERIF").unwrap_or_else(|| "/verif".into()))
            .join("target/checked/deps");
        let mut v: Vec<_> = must(std::fs::read_dir(&d), "dependencies")
            .flatten()
            .filter(|e| {
                let n = e.file_name();
                let n = n.to_string_lossy();
                n.starts_with("libsmallvec-") && n.ends_with(".rlib")
            })
            .map(|e| (e.metadata().and_then(|m| m.modified()).ok(), e.path()))
            .collect();
        v.sort();
        v.pop().unwrap_or_else(|| unable("smallvec is not built")).1
    })
}

fn copy_sources(from: &Path, to: &Path) {
    must(std::fs::create_dir_all(to), "copy");
    for e in must(std::fs::read_dir(from), "sources").flatten() {
        let t = to.join(e.file_name());
        if e.path().is_dir() {
            copy_sources(&e.path(), &t);
        } else {
            must(std::fs::copy(e.path(), &t), "copy");
        }
    }
}

fn rustc(dir: &Path, args: &[&std::ffi::OsStr]) -> R {
    let out = Command::new("rustc")
        .current_dir(dir)
        .args(args)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| unable(&format!("cannot run rustc: {e}")));
    match out.status.code() {
        Some(0) => Ok(()),
        Some(_) => Err(clip(&String::from_utf8_lossy(&out.stderr), 1500)),
        None => unable(&format!("rustc: {}", out.status)),
    }
}

/// What the crate says with the table which lies in the scratch tree.
fn compiled_table(d: &Dir) -> Result<Vec<String>, String> {
    let b = d.0.join("build");
    copy_sources(&repo().join("src"), &b.join("src"));
    must(std::fs::copy(d.tree().join("src/targets/builtins.rs"), b.join("src/targets/builtins.rs")), "copy");
    must(std::fs::copy(repo().join("README.md"), b.join("README.md")), "copy");
    must(std::fs::write(b.join("dump.rs"), DUMP), "dump");
    let sv = smallvec();
    let ext = format!("smallvec={}", sv.display());
    let deps = format!("dependency={}", sv.parent().unwrap_or(Path::new("/")).display());
    let os = |x: &'static str| std::ffi::OsStr::new(x);
    rustc(
        &b,
        &[
            os("--edition"), os("2024"), os("--crate-name"), os("cfg_expr"), os("--crate-type"), os("rlib"),
            os("-Copt-level=0"), os("-Cdebuginfo=0"), os("--cap-lints"), os("allow"), os("--extern"), ext.as_ref(), os("src/lib.rs"),
        ],
    )
    .map_err(|e| format!("the crate does not compile with the generated table: {e}"))?;
    rustc(
        &b,
        &[
            os("--edition"), os("2021"), os("-Copt-level=0"), os("-Cdebuginfo=0"), os("-L"), deps.as_ref(), os("--extern"),
            os("cfg_expr=libcfg_expr.rlib"), os("dump.rs"),
        ],
    )
    .unwrap_or_else(|e| unable(&format!("the reader of the table does not compile: {e}")));
    let out = Command::new(b.join("dump"))
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| unable(&format!("cannot run the reader of the table: {e}")));
    if !out.status.success() {
        return Err(format!("reading the table: {}: {}", out.status, clip(&String::from_utf8_lossy(&out.stderr), 600)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(str::to_owned).collect())
}

fn reports(s: &mut Src, real: bool, most: usize) -> Vec<Report> {
    let mut v: Vec<Facts> = Vec::new();
    let mut names = Names::default();
    if real {
        if s.chance(50) {
            v.extend(tgt::table().iter().cloned());
        } else {
            v.extend(cover().iter().map(|i| tgt::table()[*i].clone()));
        }
        for f in &v {
            let pairs = [
                ("os", f.os.clone().filter(|x| x != "none")),
                ("abi", f.abi.clone()),
                ("env", f.env.clone()),
                ("vendor", f.vendor.clone()),
                ("arch", Some(f.arch.clone())),
                ("panic", Some(f.panic.clone())),
            ];
            for (k, x) in pairs {
                if let Some(x) = x.filter(|x| !x.is_empty()) {
                    names.0.entry(k).or_default().insert(x.replace('-', "_"), x);
                }
            }
            for x in &f.families {
                names.0.entry("family").or_default().insert(x.clone(), x.clone());
            }
        }
    }
    let n = s.below(most) + usize::from(!real);
    for i in 0..n {
        let f = made_up(s, &mut names, i);
        let at = if s.chance(100) { v.len() } else { s.below(v.len() + 1) };
        v.insert(at, f);
    }
    match s.weighted(&[4, 2, 2]) {
        0 => {}
        1 => v.sort_by(|a, b| a.triple.cmp(&b.triple)),
        _ => s.shuffle(&mut v),
    }
    let mut seen = BTreeSet::new();
    v.retain(|f| seen.insert(f.triple.clone()));
    v.into_iter()
        .map(|facts| {
            let lines = lines_of(s, &facts);
            Report { facts, lines }
        })
        .collect()
}

fn regenerate(s: &mut Src, o: &mut Obs) -> R {
    let (ver, said) = version(s);
    let reps = reports(s, true, 25);
    let news = reps.iter().filter(|r| !tgt::table().iter().any(|f| f.triple == r.facts.triple)).count();
    o.nt(news > 0);
    o.label_if(news == 0, "real targets only");
    o.label_if(reps.len() >= 287, "the whole list");
    o.case(format!(
        "{said:?}, {} targets, {news} made up: {}",
        reps.len(),
        reps.iter()
            .filter(|r| !tgt::table().iter().any(|f| f.triple == r.facts.triple))
            .map(|r| format!("[{}]", r.lines.join(" ")))
            .collect::<Vec<_>>()
            .join(" ")
    ));
    let d = Dir::new();
    let old = must(std::fs::read_to_string(repo().join("src/targets/builtins.rs")), "table");
    let readme = must(std::fs::read_to_string(repo().join("README.md")), "README");
    d.put(&old, &readme);
    d.describe(&said, &reps, "");
    d.update_ok()?;
    let first = d.state();
    let got = compiled_table(&d)?;
    let want = expected(&ver, &reps);
    o.compared += want.len() as u64;
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Err(format!(
                "entry {i} of the generated table reads {:?}, should be {:?}; reported: {:?}",
                g,
                w,
                i.checked_sub(1).and_then(|i| reps.get(i)).map(|r| &r.lines)
            ));
        }
    }
    d.update_ok()?;
    if d.state() != first {
        return Err("a second run with the same compiler changes the files".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C24

/// A README which mentions the old version; the link definition comes last.
fn readme(s: &mut Src, old: &str, new: &str) -> (String, String, usize) {
    let bits = [
        "# Title\n", "[![Rust](https://img.shields.io/x)](https://x)\n", "text ", "\n", "- [a]: b\n", "`1.0`", "é 日本 🦀 ",
        "rustc ", "1.2.3", "[other]: https://x\n", "]", "[", "[1.2]", "(", ")", " target list of ", "0.0.1", "v", ".", "\t", "\r\n",
    ];
    let mut a = String::new();
    let mut b = String::new();
    let mut mentions = 1;
    for _ in 0..s.below(20) {
        let before = (a.len(), b.len());
        if s.chance(90) {
            let (l, r) = *s.pick(&[("", ""), (" ", " "), ("`", "`"), ("[", "]"), ("(", ")"), ("**", "**"), ("v", ".")]);
            let _ = write!(a, "{l}{old}{r}");
            let _ = write!(b, "{l}{new}{r}");
            mentions += 1;
        } else {
            let t = *s.pick(&bits);
            a.push_str(t);
            b.push_str(t);
        }
        // two neighbours may read as one more mention
        if a.matches(old).count() != mentions - 1 {
            a.truncate(before.0);
            b.truncate(before.1);
            mentions = a.matches(old).count() + 1;
        }
    }
    a.push('\n');
    b.push('\n');
    let tail = *s.pick(&[" (https://forge.rust-lang.org/)\n", " https://x/\n", "", "\n\nmore text, no link\n"]);
    let _ = write!(a, "[{old}]:{tail}");
    let _ = write!(b, "[{new}]:{tail}");
    // the definition may name the release again, as in its address or title
    if s.chance(90) {
        for _ in 0..s.range(1, 5) {
            let (l, r) = *s.pick(&[(" https://x/", "/"), ("-", ".html"), (" \"Release ", "\""), ("#", "-"), (" ", "\n"), ("é", " ")]);
            let _ = write!(a, "{l}{old}{r}");
            let _ = write!(b, "{l}{new}{r}");
        }
        mentions = a.matches(old).count();
    }
    (a, b, mentions)
}

fn old_table(s: &mut Src) -> String {
    match s.below(3) {
        0 => "old contents\n".to_owned(),
        1 => must(std::fs::read_to_string(repo().join("src/targets/builtins.rs")), "table"),
        _ => "pub(crate) const RUSTC_VERSION: &str = \"1.2.3\";\n".to_owned(),
    }
}

fn old_version(s: &mut Src) -> String {
    loop {
        let v = format!("{}.{}.{}", s.range(1, 2), s.below(130), s.below(4));
        if v != "1.2.3" {
            return v;
        }
        if s.left() == 0 {
            return "1.86.0".into();
        }
    }
}

fn diff_at(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(30)..(i + 40).min(v.len())]).into_owned();
    format!("{:?} against {:?}", cut(a), cut(b))
}

fn check_success(d: &Dir, new_readme: &str) -> R {
    let (_, r) = d.state();
    let r = r.unwrap_or_default();
    if r != new_readme.as_bytes() {
        return Err(format!("the README differs from what it should be: {}", diff_at(&r, new_readme.as_bytes())));
    }
    Ok(())
}

fn readmes(s: &mut Src, o: &mut Obs) -> R {
    let (new, said) = version(s);
    let old = if s.chance(30) { new.clone() } else { old_version(s) };
    let (a, b, mentions) = readme(s, &old, &new);
    let reps = reports(s, false, 3);
    o.case(format!("{old} -> {new}: {a:?}"));
    o.nt(mentions >= 2);
    o.compared += 1;
    let d = Dir::new();
    d.put(&old_table(s), &a);
    d.describe(&said, &reps, "");
    d.update_ok()?;
    check_success(&d, &b)?;
    let first = d.state();
    d.update_ok()?;
    if d.state() != first {
        return Err("a second run with the same compiler changes the files".into());
    }
    Ok(())
}

const UNKNOWN_KEYS: &[&str] = &[
    "target_foo", "targetos", "target_o", "target_oss", "target_has_atomics", "target", "feature", "panics", "relocation",
    "relocation_models", "fmt", "fmt_debugs", "overflow_checks", "sanitize", "target_abi_", "Target_os", "target_object_format",
    "target_has_atomic_", "target_endia", "x", "version", "target_feature_", "target_os ",
];

fn failures(s: &mut Src, o: &mut Obs) -> R {
    // where and how first: short choice sequences have it all
    let kind = s.weighted(&[2, 8, 3, 4, 2, 3, 2, 3]);
    let (way, where_, which) = (s.u8() as usize, s.weighted(&[1, 1, 3]), s.u16() as usize);
    let (spot, key, again) = (s.u16() as usize, s.u8() as usize, s.chance(90));
    let (new, said) = version(s);
    let old = old_version(s);
    let (a, b, _) = readme(s, &old, &new);
    let reps = reports(s, false, 7);
    let table = old_table(s);
    let d = Dir::new();
    d.put(&table, &a);
    // the failure
    let mut bad = reps.clone();
    let mut fault = String::new();
    let mut rustc = d.plan().join("rustc");
    let mut bad_readme = None;
    let label: &'static str;
    match kind {
        0 => {
            let (l, p) = match way % 4 {
                0 => ("no such compiler", d.0.join("nowhere/rustc")),
                1 => ("a directory", d.tree()),
                2 => {
                    let p = d.0.join("plain");
                    must(std::fs::write(&p, "#!/bin/sh\nexit 0\n"), "file");
                    ("not executable", p)
                }
                _ => {
                    let p = d.0.join("dangling");
                    must(std::os::unix::fs::symlink(d.0.join("gone"), &p), "link");
                    ("dangling link", p)
                }
            };
            label = l;
            rustc = p;
        }
        1 => {
            let place = match where_ {
                0 => "version".to_owned(),
                1 => "list".to_owned(),
                _ => format!("t-{}", reps[which % reps.len()].facts.triple),
            };
            let how = ["silent", "stderr", "bytes", "full", "half", "killed"][way % 6];
            label = match place.as_str() {
                "version" => "version query fails",
                "list" => "list query fails",
                _ => "target query fails",
            };
            fault = format!("{place}\n{how}");
        }
        2 => {
            // the compiler is gone after answering, with targets left to ask about
            let k = which % reps.len();
            let place = if k == 0 { "list".to_owned() } else { format!("t-{}", reps[k - 1].facts.triple) };
            fault = format!("{place}\nvanish");
            label = "compiler vanishes";
        }
        3 => {
            let k = which % bad.len();
            let at = spot % (bad[k].lines.len() + 1);
            let key = UNKNOWN_KEYS[key % UNKNOWN_KEYS.len()];
            let val = ["linux", "", "8", "x y"][way % 4];
            bad[k].lines.insert(at, format!("{key}=\"{val}\""));
            fault = format!("unknown key {key} reported");
            label = "unknown key";
        }
        5 => {
            fault = format!("rustfmt {}", d.formatter(way));
            label = "formatter fails";
        }
        6 => {
            // a value which cannot be the name of a constant
            let k = which % bad.len();
            let key = ["target_os", "target_env", "target_abi", "target_vendor", "target_arch", "target_family", "panic"][key % 7];
            let val = ["fn", "loop", "a.b", "a b", "1x", "+", "a(", "é€", "\u{1f600}"][way % 9];
            bad[k].lines.retain(|l| !l.starts_with(&format!("{key}=")));
            let at = spot % (bad[k].lines.len() + 1);
            bad[k].lines.insert(at, format!("{key}=\"{val}\""));
            fault = format!("{key} = {val:?} reported");
            label = "unusable value";
        }
        7 => {
            // a report the table cannot be made from
            let k = which % bad.len();
            let at = |n: usize| spot % (n + 1);
            if way % 5 == 4 {
                let val = ["x", "", "-8", "65536", "8 ", "PTR", "ptr8", "3.2"][key % 8];
                let i = at(bad[k].lines.len());
                bad[k].lines.insert(i, format!("target_has_atomic=\"{val}\""));
                fault = format!("atomic width {val:?} reported");
            } else {
                let key = ["target_arch", "target_endian", "target_pointer_width", "panic"][way % 5];
                bad[k].lines.retain(|l| !l.starts_with(&format!("{key}=")));
                fault = format!("{key} not reported");
            }
            label = "unusable report";
        }
        _ => {
            let t = match way % 5 {
                0 => String::new(),
                1 => a.replace("]:", "] :"),
                2 => "]: 1.86.0".to_owned(),
                3 => format!("text {old}\n"),
                _ => a.replace('[', "("),
            };
            bad_readme = Some(t);
            label = "README without a version";
        }
    }
    o.label(label);
    o.case(format!(
        "{label}: {fault:?} {} targets, README {:?}",
        reps.len(),
        clip(bad_readme.as_deref().unwrap_or(&a), 200)
    ));
    o.nt(true);
    if let Some(r) = &bad_readme {
        d.put(&table, r);
    }
    d.describe(&said, &bad, &fault);
    let before = d.state();
    let out = d.update(&rustc);
    o.compared += 1;
    if out.status.success() {
        if kind == 6 {
            // taken all the same: nothing failed
            return Ok(());
        }
        return Err(format!("{label} ({fault:?}): the tool reports success"));
    }
    if d.state() != before {
        let (t, r) = d.state();
        return Err(format!(
            "{label} ({fault:?}): the table is {}, the README {}",
            if t == before.0 { "untouched" } else { "changed" },
            if r == before.1 { "untouched" } else { "changed" }
        ));
    }
    // again, with nothing in the way
    let _ = std::fs::remove_dir_all(d.0.join("bin"));
    d.put(&table, &a);
    if again || bad_readme.is_some() {
        d.describe(&said, &reps, "");
        d.update_ok()?;
        check_success(&d, &b)?;
        let fresh = Dir::new();
        fresh.put("", &a);
        fresh.describe(&said, &reps, "");
        fresh.update_ok()?;
        if d.state() != fresh.state() {
            return Err("a run after a failure writes something else than a fresh one".into());
        }
    }
    Ok(())
}
