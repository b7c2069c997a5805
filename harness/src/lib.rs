//! Shared machinery of the property checks: the runner (deterministic seeded
//! proptest generation, parallel workers, shrinking, replay files, evidence),
//! reference models and generators.

pub mod deep;
pub mod forest;
pub mod gen;
pub mod hist;
pub mod model;
pub mod render;
pub mod runner;

pub use runner::{Check, Ctx, TR};

/// Fail the case with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)*) => {
        if !($cond) {
            return Err(format!($($fmt)*));
        }
    };
}

/// Fail the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), a, b));
        }
    }};
}

/// Collects an iterator, failing if it yields more than `max` items: a
/// deterministic bound that turns an endless iterator into a failure.
pub fn bounded<T>(it: impl IntoIterator<Item = T>, max: usize, what: &str) -> Result<Vec<T>, String> {
    let mut out = Vec::new();
    for x in it {
        if out.len() >= max {
            return Err(format!("{what}: iterator yields more than {max} items"));
        }
        out.push(x);
    }
    Ok(out)
}

/// Pick an element by an arbitrary selector.
pub fn pick<T: Copy>(v: &[T], sel: usize) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[sel % v.len()])
    }
}

/// An index that selects a bit of a mask.
pub trait Bit {
    fn bit(self) -> usize;
}
impl Bit for usize {
    fn bit(self) -> usize {
        self
    }
}
impl Bit for &usize {
    fn bit(self) -> usize {
        *self
    }
}
impl Bit for &&usize {
    fn bit(self) -> usize {
        **self
    }
}

/// Bit `i` of a mask; beyond its width the mask repeats, rotated each time so
/// that the pattern has no period of 16.
pub fn bit16(mask: u16, i: impl Bit) -> bool {
    let i = i.bit();
    mask.rotate_left((i / 16 * 7 % 16) as u32) >> (i % 16) & 1 == 1
}

/// The same for a mask of 32 bits.
pub fn bit32(mask: u32, i: impl Bit) -> bool {
    let i = i.bit();
    mask.rotate_left((i / 32 * 7 % 32) as u32) >> (i % 32) & 1 == 1
}
