pub mod cost;
pub mod errs;
pub mod hist;
pub mod ident;
pub mod lang;
pub mod logic;
pub mod peers;
pub mod tgt;
pub mod tools;
#[cfg(feature = "targets")]
pub mod triples;

use crate::engine::Sub;

pub fn all() -> Vec<Sub> {
    let mut v = Vec::new();
    v.extend(lang::subs());
    v.extend(logic::subs());
    v.extend(errs::subs());
    v.extend(hist::subs());
    v.extend(cost::subs());
    v.extend(tgt::subs());
    v.extend(ident::subs());
    v.extend(peers::subs());
    v.extend(tools::subs());
    #[cfg(feature = "targets")]
    v.extend(triples::subs());
    v
}
