pub mod dict;
pub mod engine;
pub mod guide;
pub mod meter;
pub mod mk;
pub mod props;
pub mod refp;
pub mod src;
