//! Words, texts, characters and numbers found in the sources under test, which the
//! generators mix into what they make: a case distinction in the code is then likely to be
//! met from both sides. Nothing depends on them being there.

use crate::engine::unhex;
use crate::src::Src;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    texts: Vec<String>,
    words: Vec<String>,
    chars: Vec<char>,
    nums: Vec<usize>,
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Some(p) = std::env::var_os("CFGPROP_DICT") else { return d };
        let Ok(t) = std::fs::read_to_string(p) else { return d };
        for l in t.lines() {
            let Some((k, h)) = l.split_once(' ') else { continue };
            let Ok(x) = String::from_utf8(unhex(h)) else { continue };
            match k {
                "s" => d.texts.push(x),
                "w" => d.words.push(x),
                "c" => d.chars.extend(x.chars()),
                "n" => d.nums.extend(x.parse::<usize>()),
                _ => {}
            }
        }
        d
    })
}

const TAIL: &[u8] = b"abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ";

fn vary(s: &mut Src, pool: &[String], w: &str) -> String {
    match s.weighted(&[10, 2, 2, 1, 1, 1, 2]) {
        0 => w.to_owned(),
        1 => format!("{w}{}", char::from(*s.pick(TAIL))),
        2 => format!("{}{w}", char::from(*s.pick(b"abcxyz_ABCXYZ"))),
        3 => w.to_uppercase(),
        4 => {
            let mut c = w.chars();
            c.next().map_or_else(String::new, |f| f.to_uppercase().chain(c).collect())
        }
        5 => {
            let mut v: Vec<char> = w.chars().collect();
            v.pop();
            v.into_iter().collect()
        }
        _ => format!("{w}{}", s.pick(pool)),
    }
}

/// An identifier, most times as found.
pub fn word(s: &mut Src) -> Option<String> {
    let d = dict();
    if d.words.is_empty() {
        return None;
    }
    let w = s.pick(&d.words).clone();
    let w = vary(s, &d.words, &w);
    (!w.is_empty() && !w.starts_with(|c: char| c.is_ascii_digit())).then_some(w)
}

/// A text, most times as found.
pub fn text(s: &mut Src) -> Option<String> {
    let d = dict();
    let from = if s.bool() { &d.texts } else { &d.words };
    if from.is_empty() {
        return None;
    }
    let w = s.pick(from).clone();
    Some(vary(s, from, &w))
}

/// All identifiers and texts, as found.
pub fn all() -> impl Iterator<Item = &'static str> {
    dict().words.iter().chain(&dict().texts).map(String::as_str)
}

/// A character, or a neighbour of one.
pub fn chr(s: &mut Src) -> Option<char> {
    let d = dict();
    if d.chars.is_empty() {
        return None;
    }
    let c = *s.pick(&d.chars) as u32;
    char::from_u32(match s.weighted(&[4, 1, 1]) {
        0 => c,
        1 => c + 1,
        _ => c.saturating_sub(1),
    })
}

/// A number at or next to one.
pub fn num(s: &mut Src) -> Option<usize> {
    let d = dict();
    if d.nums.is_empty() {
        return None;
    }
    Some((*s.pick(&d.nums) + s.below(3)).saturating_sub(1))
}

/// A size below `max` at which something might change: next to a power of two, or to a
/// number found in the sources.
pub fn size(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[2, 2, 1]) {
        0 => (1usize << s.range(1, 17)).saturating_sub(1) + s.below(3),
        1 => num(s).unwrap_or(10),
        _ => s.below(max),
    };
    n.min(max)
}
