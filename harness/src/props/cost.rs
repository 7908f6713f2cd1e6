//! C25: cost grows no faster than the text.

use crate::engine::{Kind, Obs, R, Sub, clip};
use crate::meter::{Cost, measure};
use crate::mk::{self, Dialect};
use crate::src::Src;
use cfg_expr::Expression;
use cfg_expr::error::ParseError;
use cfg_expr::expr::lexer::Lexer;

pub fn subs() -> Vec<Sub> {
    vec![Sub {
        prop: "C25",
        name: "growth",
        kind: Kind::Rand { quick: 3_000, thorough: 25, len: 200 },
        both: true,
        rule: "a text made of a head, a unit repeated n times, a middle, another unit repeated n times and an end (27 known shapes, accepted and rejected, and units made at random), for a small n and one 64 times as large: the processor time of tokenising, parsing, listing, evaluating, cloning, comparing, printing and dropping grows at most 16 times faster than the text (three attempts), and the memory in use and asked for stays below a constant times the text; non-trivial: the larger text has 20 000 bytes or more",
        run: growth,
    }]
}

struct Shape {
    head: String,
    unit: String,
    mid: String,
    tail: String,
    end: String,
}

impl Shape {
    fn text(&self, n: usize) -> String {
        let mut t = String::with_capacity(n * (self.unit.len() + self.tail.len()) + 64);
        t.push_str(&self.head);
        for _ in 0..n {
            t.push_str(&self.unit);
        }
        t.push_str(&self.mid);
        for _ in 0..n {
            t.push_str(&self.tail);
        }
        t.push_str(&self.end);
        t
    }
}

const KNOWN: &[[&str; 5]] = &[
    ["all(", "a,", "b", "", ")"],
    ["any(", "a = \"b\", ", "c", "", ",)"],
    ["", "all(", "a", ")", ""],
    ["", "not(", "a", ")", ""],
    ["", "not(any(a, ", "b", "))", ""],
    ["", "any(", "a", ", b)", ""],
    ["", "all(x = \"y\",", "a", ")", ""],
    ["all(", "not(a),", "b", "", ")"],
    ["all(", "any(),a,all(c),", "b", "", ")"],
    ["any(", "target_os = \"linux\",", "unix", "", ")"],
    ["any(", "target_has_atomic = \"8\",target_pointer_width=\"64\",", "unix", "", ")"],
    ["", "a", "", "", ""],
    ["a = \"", "b", "", "", "\""],
    ["a = \"", "é(,", "", "", ""],
    ["", " \n", "a", "\t ", ""],
    ["cfg(", " ", "a", " ", ")"],
    ["all(", "a,", "", "", ""],
    ["", "not(", "", "", ""],
    ["", "(", "", "", ""],
    ["a", ")", "", "", ""],
    ["", "a,", "b", "", ""],
    ["not(", "a,", "b", "", ")"],
    ["all(", "a,", "unix = \"x\"", "", ")"],
    ["= ", "a b ", "", "", ""],
    ["all(", "a,", "b #", "c d ", ")"],
    ["", "any(all(a), ", "feature = \"x\"", ", not(b))", ""],
    ["any(", "all(a,b,c,d,e,f),any(not(g)),", "h", "", ")"],
];

fn shape(s: &mut Src, o: &mut Obs) -> Shape {
    if s.chance(150) {
        // repeated pieces made at random
        o.label("random unit");
        let mut piece = |n: usize| -> String {
            match s.weighted(&[4, 3, 2]) {
                0 => {
                    let mut op = mk::opts(Dialect::Full);
                    op.budget = n;
                    op.max_depth = 3;
                    format!("{},", mk::case(s, op).text.inner)
                }
                1 => {
                    let mut t: String = mk::soup(s, Dialect::Full).iter().map(|t| format!("{} ", t.text())).collect();
                    t.truncate(t.char_indices().nth(40).map_or(t.len(), |x| x.0));
                    t
                }
                _ => mk::any_text(s).chars().take(24).collect(),
            }
        };
        let (unit, mid) = (piece(4), piece(2));
        let (f, tail) = match s.below(4) {
            0 => ("all(", String::new()),
            1 => ("", ")".to_owned()),
            2 => ("any(", " ".into()),
            _ => ("", String::new()),
        };
        let (unit, tail) = if tail == ")" { (format!("{}({unit}", ["all", "any"][s.below(2)]), tail) } else { (unit, tail) };
        return Shape { head: f.into(), unit, mid, tail, end: if f.is_empty() { String::new() } else { ")".into() } };
    }
    o.label("known shape");
    let k = s.pick(KNOWN);
    let [head, unit, mid, tail, end] = k.map(str::to_owned);
    Shape { head, unit, mid, tail, end }
}

enum Made {
    Yes(Expression),
    No(ParseError),
}

/// Everything one does with a text, step by step.
fn steps(t: &str) -> Vec<(&'static str, Cost)> {
    let mut v = Vec::new();
    let (n, c) = measure(|| Lexer::new(t).take_while(Result::is_ok).count());
    std::hint::black_box(n);
    v.push(("tokenising", c));
    let (e, c) = measure(|| match Expression::parse(t) {
        Ok(e) => Made::Yes(e),
        Err(e) => Made::No(e),
    });
    v.push(("parsing", c));
    match e {
        Made::Yes(e) => {
            let (n, c) = measure(|| e.predicates().count());
            v.push(("listing", c));
            let mut i = 0u64;
            let (b, c) = measure(|| {
                e.eval(|p| {
                    std::hint::black_box(p);
                    i += 1;
                    i % 3 == 0
                })
            });
            v.push(("evaluating", c));
            let (k, c) = measure(|| e.eval(|_| None::<bool>));
            v.push(("evaluating the unknown", c));
            let (d, c) = measure(|| e.clone());
            v.push(("cloning", c));
            let (q, c) = measure(|| d == e);
            v.push(("comparing", c));
            let (p, c) = measure(|| e.original().len());
            v.push(("original", c));
            let ((), c) = measure(|| drop(d));
            v.push(("dropping", c));
            let (dbg, c) = measure(|| format!("{e:?}").len());
            v.push(("printing", c));
            std::hint::black_box((n, b, k, q, p, dbg));
        }
        Made::No(e) => {
            let (n, c) = measure(|| e.to_string().len());
            v.push(("rendering the error", c));
            std::hint::black_box(n);
        }
    }
    v
}

/// Bytes per byte of text which are plenty.
const PEAK: u64 = 2_000;
const TOTAL: u64 = 5_000;
const FACTOR: usize = 64;

fn growth(s: &mut Src, o: &mut Obs) -> R {
    let sh = shape(s, o);
    let per = sh.unit.len() + sh.tail.len();
    if per == 0 {
        return o.skip();
    }
    let small_len = *s.pick(&[6_000, 3_000, 12_000]);
    // a shorter pair first, so that what is very slow is found without waiting for it
    for len in [800, small_len] {
        compare(&sh, (len / per).max(20), o)?;
    }
    Ok(())
}

fn compare(sh: &Shape, n: usize, o: &mut Obs) -> R {
    let (a, b) = (sh.text(n), sh.text(n * FACTOR));
    o.case(format!(
        "{:?} + {n} or {} x {:?} + {:?} + as many {:?} + {:?}",
        sh.head,
        n * FACTOR,
        clip(&sh.unit, 200),
        clip(&sh.mid, 200),
        sh.tail,
        sh.end
    ));
    o.nt(b.len() >= 20_000);
    o.label_if(n > 20 && Expression::parse(&a).is_ok(), "accepted");
    let mut late = String::new();
    for attempt in 0..3 {
        let (mut lo, hi) = (steps(&a), steps(&b));
        for _ in 0..2 {
            for (x, y) in lo.iter_mut().zip(steps(&a)) {
                x.1.nanos = x.1.nanos.max(y.1.nanos);
            }
        }
        o.compared += hi.len() as u64;
        late.clear();
        for (i, (what, c)) in hi.iter().enumerate() {
            let len = b.len() as u64;
            if c.peak > PEAK * len + 100_000 || c.total > TOTAL * len + 100_000 {
                return Err(format!(
                    "{what} a text of {len} bytes needs {} bytes at a time and {} in all",
                    c.peak, c.total
                ));
            }
            // what the small text costs, with 20 microseconds for the clock
            let (was, base) = lo.get(i).map_or((*what, 0), |x| (x.0, x.1.nanos));
            if was != *what {
                // only one of the two is accepted: nothing to compare
                break;
            }
            let allowed = (base + 20_000) * FACTOR as u64 * 16 + 100_000_000;
            if c.nanos > allowed {
                late = format!(
                    "{what} takes {} us for {} bytes, but {} us for {} bytes",
                    base / 1000,
                    a.len(),
                    c.nanos / 1000,
                    b.len()
                );
            }
        }
        if late.is_empty() {
            return Ok(());
        }
        if attempt == 2 {
            break;
        }
    }
    Err(late)
}
