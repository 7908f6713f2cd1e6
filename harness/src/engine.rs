//! Case generation, shrinking and reporting.

use crate::src::Src;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// What a case tells about itself.
#[derive(Default)]
pub struct Obs {
    pub text: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Comparisons against the oracle made within the case
    pub compared: u64,
    /// The case was outside the domain and decided nothing
    pub skipped: bool,
    /// How many choices were drawn
    pub used: usize,
}

impl Obs {
    pub fn case(&mut self, t: impl Into<String>) {
        self.text = t.into();
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nt(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
}

pub enum Kind {
    /// Random cases: how many in the quick tier, the factor for the thorough
    /// one, and the longest choice sequence.
    Rand { quick: u64, thorough: u64, len: usize },
    /// Every case of a finite list, by number.
    Enum { count: fn(thorough: bool) -> u64 },
}

pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    pub kind: Kind,
    /// Run by both build variants (otherwise by the one with all features)
    pub both: bool,
    /// What a case is and what makes one non-trivial
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Obs) -> R,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// The choice sequence of one case.
pub fn bytes_of(sub: &Sub, seed: u64, variant: &str, idx: u64) -> Vec<u8> {
    match sub.kind {
        Kind::Enum { .. } => idx.to_be_bytes().to_vec(),
        Kind::Rand { len, .. } => {
            let mut r = Rng::new(
                fnv(format!("{}/{}/{variant}/{seed}", sub.prop, sub.name).as_bytes())
                    ^ idx.wrapping_mul(0xd134_2543_de82_ef95),
            );
            let n = match r.next() % 8 {
                0 | 1 => 1 + r.next() as usize % 24.min(len),
                2..=5 => 1 + r.next() as usize % (len / 4).max(1),
                _ => 1 + r.next() as usize % len,
            };
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {at}: {m}")));
    }));
}

/// Run one case; a panic is a failure of the property under test.
pub fn run_case(sub: &Sub, b: &[u8], obs: &mut Obs) -> R {
    let mut src = Src::new(b);
    let r = catch_unwind(AssertUnwindSafe(|| (sub.run)(&mut src, obs)));
    obs.used = src.used();
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

/// Make a failing choice sequence as short and as small as possible.
pub fn shrink(start: &[u8], limit: Duration, mut fails: impl FnMut(&[u8]) -> bool) -> Vec<u8> {
    let t0 = Instant::now();
    let mut cur = start.to_vec();
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        // delete blocks
        let mut size = cur.len();
        while size > 0 {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < limit {
                let mut c = cur.clone();
                c.drain(i..(i + size).min(cur.len()));
                if fails(&c) {
                    cur = c;
                    progress = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        // zero blocks
        let mut size = cur.len();
        while size > 1 {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < limit {
                let e = (i + size).min(cur.len());
                if cur[i..e].iter().any(|b| *b != 0) {
                    let mut c = cur.clone();
                    c[i..e].fill(0);
                    if fails(&c) {
                        cur = c;
                        progress = true;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // lower single bytes
        for i in 0..cur.len() {
            if i >= cur.len() || t0.elapsed() >= limit {
                break;
            }
            let (mut lo, mut hi) = (0u16, u16::from(cur[i]));
            while lo < hi {
                let mid = (lo + hi) / 2;
                let mut c = cur.clone();
                c[i] = mid as u8;
                if fails(&c) {
                    cur = c;
                    hi = mid;
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
        while cur.last() == Some(&0) {
            let mut c = cur.clone();
            c.pop();
            if fails(&c) {
                cur = c;
                progress = true;
            } else {
                break;
            }
        }
    }
    cur
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(u8::is_ascii_hexdigit).collect();
    b.chunks(2)
        .filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
        .collect()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(&format!("... ({} bytes)", s.len()));
        t
    }
}

#[derive(Default)]
pub struct Stat {
    pub cases: u64,
    pub total: u64,
    pub nontrivial: u64,
    pub skipped: u64,
    pub compared: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub seen: HashSet<u64>,
    next_sample: u64,
}

impl Stat {
    pub fn note(&mut self, obs: &Obs) {
        self.cases += 1;
        self.compared += obs.compared;
        for l in &obs.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if obs.skipped {
            self.skipped += 1;
        } else if obs.nontrivial {
            let h = fnv(obs.text.as_bytes());
            if self.seen.len() < 6_000_000 && self.seen.insert(h) {
                self.nontrivial += 1;
                if self.nontrivial > self.next_sample && self.samples.len() < 6 {
                    self.samples.push(clip(&obs.text, 300));
                    self.next_sample = self.next_sample * 7 + 7;
                }
            }
        }
    }
}

/// Everything one worker does.
pub struct Job<'a> {
    pub subs: Vec<&'a Sub>,
    pub variant: &'a str,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub thorough: bool,
    pub scale: f64,
    pub out: &'a std::path::Path,
    /// Seconds for all of it
    pub deadline: f64,
}

pub fn count_of(sub: &Sub, thorough: bool, scale: f64, variant: &str) -> u64 {
    match sub.kind {
        Kind::Enum { count } => count(thorough),
        Kind::Rand {
            quick, thorough: f, ..
        } => {
            let n = if thorough { quick * f } else { quick };
            // the second build gets half as many
            let n = if variant == "B" { n.div_ceil(2) } else { n };
            ((n as f64 * scale).ceil() as u64).max(1)
        }
    }
}

pub enum Outcome {
    Clean,
    Violation,
}

pub fn work(job: &Job<'_>) -> Outcome {
    quiet_panics();
    let tag = format!("{}{}", job.variant, job.shard);
    let prog = std::fs::File::create(job.out.join(format!("{tag}.progress"))).expect("progress");
    let mut stats: Vec<(&Sub, Stat)> = job.subs.iter().map(|s| (*s, Stat::default())).collect();
    let nsubs = stats.len() as f64;
    let t0 = Instant::now();
    let mut violated = false;
    'subs: for (si, (sub, st)) in stats.iter_mut().enumerate() {
        let n = count_of(sub, job.thorough, job.scale, job.variant);
        st.total = n;
        let until = t0 + Duration::from_secs_f64(job.deadline * (si as f64 + 1.0) / nsubs);
        let mut i = job.shard;
        while i < n {
            let _ = prog.write_at(format!("{si:8} {i:20}\n").as_bytes(), 0);
            let b = bytes_of(sub, job.seed, job.variant, i);
            let mut obs = Obs::default();
            let r = run_case(sub, &b, &mut obs);
            st.note(&obs);
            if let Err(msg) = r {
                fail(job, sub, &b, msg, |_| {
                    let _ = prog.write_at(format!("{si:8} {i:20}s\n").as_bytes(), 0);
                });
                violated = true;
                break 'subs;
            }
            if Instant::now() > until {
                break;
            }
            i += job.shards;
        }
    }
    report(job, "", &stats);
    if violated {
        Outcome::Violation
    } else {
        Outcome::Clean
    }
}

/// Shrink a failing case and write it down.
pub fn fail(job: &Job<'_>, sub: &Sub, b: &[u8], msg: String, mut trying: impl FnMut(&[u8])) {
    let small = if matches!(sub.kind, Kind::Rand { .. }) {
        shrink(b, Duration::from_secs(20), |c| {
            trying(c);
            run_case(sub, c, &mut Obs::default()).is_err()
        })
    } else {
        b.to_vec()
    };
    let mut o2 = Obs::default();
    let (final_b, msg) = match run_case(sub, &small, &mut o2) {
        Err(m) => (small, m),
        // not reproducible in isolation: report the case as it was found
        Ok(()) => (b.to_vec(), msg),
    };
    write_replay(
        &job.out.join(format!("{}{}.violation", job.variant, job.shard)),
        sub,
        job.variant,
        &final_b,
        &o2.text,
        &msg,
    );
}

pub fn report(job: &Job<'_>, suffix: &str, stats: &[(&Sub, Stat)]) {
    let tag = format!("{}{}", job.variant, job.shard);
    let mut o = String::from("[");
    for (k, (sub, st)) in stats.iter().enumerate() {
        let name = format!("{}{suffix}", sub.name);
        if k > 0 {
            o.push(',');
        }
        o.push_str(&format!(
            "{{\"sub\":{},\"kind\":\"{}\",\"rule\":{},\"cases\":{},\"total\":{},\"skipped\":{},\"compared\":{},\"labels\":{{{}}},\"samples\":[{}]}}",
            json_str(&name),
            if !suffix.is_empty() {
                "guided"
            } else if matches!(sub.kind, Kind::Enum { .. }) {
                "enum"
            } else {
                "rand"
            },
            json_str(sub.rule),
            st.cases,
            st.total,
            st.skipped,
            st.compared,
            st.labels
                .iter()
                .map(|(l, n)| format!("{}:{n}", json_str(l)))
                .collect::<Vec<_>>()
                .join(","),
            st.samples
                .iter()
                .map(|s| json_str(s))
                .collect::<Vec<_>>()
                .join(",")
        ));
        let mut f = std::io::BufWriter::new(
            std::fs::File::create(job.out.join(format!("{tag}.{name}.seen"))).expect("seen"),
        );
        for h in &st.seen {
            let _ = f.write_all(&h.to_le_bytes());
        }
    }
    o.push(']');
    // all or nothing: this process may be ended at any time
    let tmp = job.out.join(format!("{tag}.stats.tmp"));
    std::fs::write(&tmp, o).expect("stats");
    std::fs::rename(&tmp, job.out.join(format!("{tag}.stats"))).expect("stats");
}

pub fn write_replay(
    path: &std::path::Path,
    sub: &Sub,
    variant: &str,
    b: &[u8],
    text: &str,
    msg: &str,
) {
    let s = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"variant\": {},\n \"bytes\": \"{}\",\n \"case\": {},\n \"message\": {}\n}}\n",
        json_str(sub.prop),
        json_str(sub.name),
        json_str(variant),
        hex(b),
        json_str(&clip(text, 4000)),
        json_str(&clip(msg, 4000)),
    );
    let _ = std::fs::write(path, s);
}
