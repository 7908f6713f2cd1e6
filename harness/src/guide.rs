//! Coverage-guided search: choice sequences which reach something new in the code under test
//! (or in the oracle) are kept and changed further.

use crate::engine::{Job, Kind, Obs, Outcome, Rng, Stat, Sub, bytes_of, fail, quiet_panics, report, run_case};
use std::os::unix::fs::FileExt as _;
use std::time::{Duration, Instant};

/// Those which start threads or processes, or measure, have no use for it, and a few large cases
/// gain nothing.
pub fn eligible(s: &Sub) -> bool {
    matches!(s.kind, Kind::Rand { .. })
        && !matches!(s.prop, "C19" | "C23" | "C24" | "C25")
        && !matches!(s.name, "fresh_process" | "threads" | "deep" | "wide")
}

struct Entry {
    bytes: Vec<u8>,
    tried: u32,
}

impl Entry {
    fn cost(&self) -> usize {
        (self.tried as usize + 1) * (self.bytes.len() + 16)
    }
}

struct Search {
    rng: Rng,
    corpus: Vec<Entry>,
    limit: usize,
}

impl Search {
    fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { (self.rng.next() % n as u64) as usize }
    }

    /// The less tried and shorter one of a few, new ones more often.
    fn choose(&mut self) -> usize {
        let n = self.corpus.len();
        let mut best = self.below(n);
        for _ in 0..2 {
            let c = if self.below(2) == 0 { n - 1 - self.below(n.div_ceil(8)) } else { self.below(n) };
            if self.corpus[c].cost() < self.corpus[best].cost() {
                best = c;
            }
        }
        best
    }

    fn span(&mut self, n: usize) -> (usize, usize) {
        let a = self.below(n + 1);
        let long = match self.below(4) {
            0 => 1,
            1 => 1 + self.below(4),
            2 => 1 + self.below(16),
            _ => 1 + self.below(n.max(1)),
        };
        (a, (a + long).min(n))
    }

    fn mutate(&mut self, of: usize) -> Vec<u8> {
        let mut b = self.corpus[of].bytes.clone();
        let times = 1 << self.below(5);
        for _ in 0..times {
            let n = b.len();
            match self.below(12) {
                0 | 1 if n > 0 => {
                    let i = self.below(n);
                    b[i] = self.rng.next() as u8;
                }
                2 if n > 0 => {
                    let i = self.below(n);
                    b[i] = [0, 255, 128, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ (1 << self.below(8))][self.below(6)];
                }
                3 | 4 => {
                    // insert random choices
                    let at = self.below(n + 1);
                    let k = 1 + self.below(8);
                    let new: Vec<u8> = (0..k).map(|_| self.rng.next() as u8).collect();
                    b.splice(at..at, new);
                }
                5 | 6 => {
                    let (s, e) = self.span(n);
                    b.drain(s..e);
                }
                7 => {
                    // repeat a block, once or many times
                    let (s, e) = self.span(n);
                    let block = b[s..e].to_vec();
                    let k = if self.below(4) == 0 { 1 + self.below(20) } else { 1 };
                    for _ in 0..k {
                        if b.len() + block.len() <= self.limit {
                            b.splice(e..e, block.iter().copied());
                        }
                    }
                }
                8 => {
                    // move a block
                    let (s, e) = self.span(n);
                    let block: Vec<u8> = b.drain(s..e).collect();
                    let at = self.below(b.len() + 1);
                    b.splice(at..at, block);
                }
                9 | 10 => {
                    // a block of another one, inserted or over what is there
                    let o = self.below(self.corpus.len());
                    let m = self.corpus[o].bytes.len();
                    let (s, e) = self.span(m);
                    let block = self.corpus[o].bytes[s..e].to_vec();
                    let at = self.below(n + 1);
                    let end = if self.below(2) == 0 { at } else { (at + block.len()).min(n) };
                    b.splice(at..end, block);
                }
                _ => {
                    // the rest from another one
                    let o = self.below(self.corpus.len());
                    let at = self.below(n + 1);
                    let from = self.below(self.corpus[o].bytes.len() + 1);
                    b.truncate(at);
                    b.extend_from_slice(&self.corpus[o].bytes[from..]);
                }
            }
        }
        b.truncate(self.limit);
        b
    }
}

pub fn guide(job: &Job<'_>) -> Outcome {
    quiet_panics();
    assert!(covrt::instrumented(), "built without coverage counters");
    let tag = format!("{}{}", job.variant, job.shard);
    let prog = std::fs::File::create(job.out.join(format!("{tag}.progress"))).expect("progress");
    let cur = std::fs::File::create(job.out.join(format!("{tag}.bytes"))).expect("bytes");
    let at = |sub: &Sub, i: u64, b: &[u8]| {
        let mut v = (b.len() as u32).to_le_bytes().to_vec();
        v.extend_from_slice(b);
        let _ = cur.write_at(&v, 0);
        let _ = prog.write_at(format!("{:30} {i:20}\n", sub.name).as_bytes(), 0);
    };
    let subs: Vec<&Sub> = job.subs.iter().copied().filter(|s| eligible(s)).collect();
    // of many, each worker takes half: longer searches
    let subs: Vec<&Sub> = if subs.len() > 2 {
        subs.iter().copied().enumerate().filter(|(i, _)| (*i as u64 + job.shard) % 2 == 0).map(|(_, s)| s).collect()
    } else {
        subs
    };
    let mut stats: Vec<(&Sub, Stat)> = subs.iter().map(|s| (*s, Stat::default())).collect();
    let nsubs = stats.len() as f64;
    let t0 = Instant::now();
    let mut violated = false;
    'subs: for (si, (sub, st)) in stats.iter_mut().enumerate() {
        let Kind::Rand { len, .. } = sub.kind else { continue };
        let until = t0 + Duration::from_secs_f64(job.deadline * (si as f64 + 1.0) / nsubs);
        let mut known = vec![false; covrt::features()];
        let mut s = Search {
            rng: Rng::new(job.seed ^ (job.shard << 32) ^ 0x67_7569_6465),
            corpus: Vec::new(),
            limit: len + len / 2,
        };
        let (mut i, mut fresh) = (0u64, 0u64);
        while Instant::now() < until {
            let of = if i < 150 || s.corpus.is_empty() || s.below(16) == 0 { None } else { Some(s.choose()) };
            let mut b = match of {
                None => {
                    fresh += 1;
                    bytes_of(sub, job.seed, &tag, fresh)
                }
                Some(k) => {
                    s.corpus[k].tried += 1;
                    s.mutate(k)
                }
            };
            at(sub, i, &b);
            let mut obs = Obs::default();
            covrt::start();
            let r = run_case(sub, &b, &mut obs);
            let mut new = 0u32;
            covrt::stop(|f| {
                if let Some(k) = known.get_mut(f)
                    && !*k
                {
                    *k = true;
                    new += 1;
                }
            });
            st.note(&obs);
            if let Err(msg) = r {
                fail(job, sub, &b, msg, |c| at(sub, i, c));
                violated = true;
                break 'subs;
            }
            if new > 0 && s.corpus.len() < 50_000 {
                b.truncate(obs.used);
                s.corpus.push(Entry { bytes: b, tried: 0 });
            }
            i += 1;
        }
        st.total = st.cases;
        *st.labels.entry("kept as new").or_default() += s.corpus.len() as u64;
    }
    report(job, " (guided)", &stats);
    if violated { Outcome::Violation } else { Outcome::Clean }
}
