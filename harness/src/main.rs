//! One program: worker, replayer, and the stand-ins the checks need.

use cfgprop::engine::{self, Job, Obs, Outcome, Sub};
use std::process::ExitCode;

#[global_allocator]
static METER: cfgprop::meter::Meter = cfgprop::meter::Meter;

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn find<'a>(subs: &'a [Sub], prop: &str, name: &str) -> &'a Sub {
    subs.iter()
        .find(|s| s.prop == prop && s.name == name)
        .unwrap_or_else(|| {
            eprintln!("no case generator {prop}/{name}");
            std::process::exit(3);
        })
}

fn main() -> ExitCode {
    if std::env::var_os("CFGPROP_FAKE_RUSTC").is_some() {
        return cfgprop::props::tools::fake_rustc();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("list") => {
            for s in cfgprop::props::all() {
                let kind = if matches!(s.kind, engine::Kind::Enum { .. }) { "enum" } else { "rand" };
                let g = cfgprop::guide::eligible(&s);
                println!("{}\t{}\t{}\t{kind}\t{g}", s.prop, s.name, s.both);
            }
            ExitCode::SUCCESS
        }
        Some("answers") => {
            for a in &args[1..] {
                let t = String::from_utf8(engine::unhex(a)).expect("text");
                println!("{}", engine::hex(cfgprop::props::hist::answers(&t).as_bytes()));
            }
            ExitCode::SUCCESS
        }
        Some("worker") => big_stack(move || {
            let all = cfgprop::props::all();
            let prop = opt(&args, "--prop").expect("--prop");
            let variant = opt(&args, "--variant").expect("--variant");
            let only = opt(&args, "--sub");
            let num = |n: &str, d: f64| opt(&args, n).map_or(d, |v| v.parse().expect("number"));
            let subs: Vec<&Sub> = all
                .iter()
                .filter(|s| s.prop == prop && (variant != "B" || s.both))
                .filter(|s| only.as_deref().is_none_or(|o| o == s.name))
                .collect();
            let out = opt(&args, "--out").expect("--out");
            let job = Job {
                subs,
                variant: &variant,
                seed: num("--seed", 1.0) as u64,
                shard: num("--shard", 0.0) as u64,
                shards: num("--shards", 1.0) as u64,
                thorough: args.iter().any(|a| a == "--thorough"),
                scale: num("--scale", 1.0),
                out: std::path::Path::new(&out),
                deadline: num("--deadline", 60.0),
            };
            let r = if args.iter().any(|a| a == "--guided") {
                cfgprop::guide::guide(&job)
            } else {
                engine::work(&job)
            };
            match r {
                Outcome::Clean => ExitCode::SUCCESS,
                Outcome::Violation => ExitCode::from(1),
            }
        }),
        // how many different hashes the files hold
        Some("distinct") => {
            let mut v: Vec<u64> = Vec::new();
            for f in &args[1..] {
                let b = std::fs::read(f).expect("read");
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().expect("8"))));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            ExitCode::SUCCESS
        }
        // the name and choice sequence of a numbered case
        Some("bytes") => {
            let all = cfgprop::props::all();
            let variant = opt(&args, "--variant").expect("--variant");
            let prop = opt(&args, "--prop").expect("--prop");
            let subs: Vec<&Sub> = all
                .iter()
                .filter(|s| s.prop == prop && (variant == "A" || s.both))
                .collect();
            let si: usize = opt(&args, "--index").expect("--index").parse().expect("number");
            let seed: u64 = opt(&args, "--seed").expect("--seed").parse().expect("number");
            let idx: u64 = opt(&args, "--case").expect("--case").parse().expect("number");
            println!("{} {}", subs[si].name, engine::hex(&engine::bytes_of(subs[si], seed, &variant, idx)));
            ExitCode::SUCCESS
        }
        // run one case: exit 0 if the property holds for it, 1 if not
        Some("one") => big_stack(move || {
            let all = cfgprop::props::all();
            let sub = find(&all, &args[1], &args[2]);
            let mut h = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut h).expect("read");
            let b = engine::unhex(&h);
            engine::quiet_panics();
            let mut o = Obs::default();
            let r = engine::run_case(sub, &b, &mut o);
            println!("case: {}", o.text);
            match r {
                Ok(()) => {
                    println!("holds{}", if o.skipped { " (outside the domain)" } else { "" });
                    ExitCode::SUCCESS
                }
                Err(m) => {
                    println!("FAILS: {m}");
                    ExitCode::from(1)
                }
            }
        }),
        _ => {
            eprintln!("usage: cfgprop list | worker ... | bytes ... | one PROP SUB < hex | answers HEX...");
            ExitCode::from(2)
        }
    }
}
