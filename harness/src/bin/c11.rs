//! C11: index and offset types hold every value up to their limit and no other.
use std::fmt::Debug;

use pgv::runner::{no_panic, Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::index::{MaybeNodeIndex, MaybePortIndex, Unsigned};
use portgraph::multiportgraph::SubportIndex;
use portgraph::{Direction, NodeIndex, PortIndex, PortOffset};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

/// A value around the interesting places, resolved by the limit of the type.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum V {
    Small(u8),
    Max(i8),
    /// Around a power of two.
    Pow(u8, i8),
    Any(u64),
}

fn v() -> impl Strategy<Value = V> {
    prop_oneof![
        2 => any::<u8>().prop_map(V::Small),
        4 => (-3i8..6).prop_map(V::Max),
        4 => (0u8..64, -2i8..3).prop_map(|(a, b)| V::Pow(a, b)),
        2 => any::<u64>().prop_map(V::Any),
    ]
}

impl V {
    fn value(self, max: usize) -> usize {
        match self {
            V::Small(x) => x as usize,
            V::Max(d) => max.wrapping_add_signed(d as isize),
            V::Pow(p, d) => (1usize << p).wrapping_add_signed(d as isize),
            V::Any(x) => x as usize,
        }
    }
}

fn bits<U: Unsigned>() -> u32 {
    std::mem::size_of::<U>() as u32 * 8
}

macro_rules! index_checks {
    ($name:ident, $index:ident, $maybe:ident) => {
        fn $name<U>(xs: &[V], ctx: &mut Ctx) -> TR
        where
            U: Unsigned + Serialize + DeserializeOwned + std::hash::Hash,
        {
            let max = $index::<U>::max_index();
            // As documented: one bit and one value are reserved.
            ensure_eq!(max, ((1u128 << (bits::<U>() - 1)) - 2) as usize, "max_index");
            ensure_eq!(std::mem::size_of::<$maybe<U>>(), std::mem::size_of::<U>(), "size of the optional index");
            let vals: Vec<usize> = xs.iter().map(|x| x.value(max)).collect();
            for &x in &vals {
                let t = $index::<U>::try_from(x);
                let n = no_panic(|| $index::<U>::new(x));
                let json = serde_json::from_str::<$index<U>>(&x.to_string());
                let pack = rmp_serde::from_slice::<$index<U>>(&rmp_serde::to_vec(&x).unwrap());
                let mjson = serde_json::from_str::<$maybe<U>>(&x.to_string());
                if x > max {
                    ctx.label("above the limit");
                    ctx.nontrivial();
                    ensure!(t.is_err(), "try_from({x}) is {t:?}, the limit is {max}");
                    ensure!(t.unwrap_err().to_string().contains(&x.to_string()), "try_from error does not name {x}");
                    ensure!(n.is_err(), "new({x}) gives {n:?}, the limit is {max}");
                    ensure!(json.is_err() && pack.is_err() && mjson.is_err(), "{x} was read back as an index");
                    continue;
                }
                ctx.label("within the limit");
                let n = n?;
                ensure_eq!(t, Ok(n), "try_from({x})");
                ensure_eq!(n.index(), x, "index of new({x})");
                ensure_eq!(usize::from(n), x, "usize of new({x})");
                ensure_eq!(json.ok(), Some(n), "JSON {x}");
                ensure_eq!(pack.ok(), Some(n), "MessagePack {x}");
                ensure_eq!(serde_json::to_string(&n).unwrap(), x.to_string(), "JSON of {n:?}");
                ensure!(format!("{n:?}").contains(&x.to_string()), "debug text {n:?} of {x}");
                // The optional index.
                let mut m = $maybe::new(Some(n));
                ensure_eq!(m, $maybe::from(n), "optional of {x}");
                ensure_eq!(mjson.ok(), Some(m), "optional JSON {x}");
                ensure!(m.is_some() && !m.is_none(), "optional of {x} is none");
                ensure_eq!(m.to_option(), Some(n), "optional of {x}");
                ensure_eq!(m.into_iter().collect::<Vec<_>>(), vec![n], "items of the optional of {x}");
                ensure_eq!((m.unwrap(), m.expect("some")), (n, n), "unwrap of {x}");
                ensure_eq!(Option::<$index<U>>::from(m), Some(n), "option of {x}");
                ensure_eq!(serde_json::to_string(&m).unwrap(), x.to_string(), "JSON of the optional {x}");
                let y = $index::<U>::new(max - x);
                ensure_eq!(m.replace(y).to_option(), Some(n), "replace of {x}");
                ensure_eq!(m.to_option(), Some(y), "after replace by {y:?}");
                *m.as_mut().ok_or("as_mut is None")? = n;
                ensure_eq!(m.take().to_option(), Some(n), "take of {x}");
                ensure!(m.is_none() && !m.is_some() && m.as_mut().is_none(), "after take");
                ensure_eq!(m, $maybe::<U>::default(), "default optional");
                ensure_eq!(m, $maybe::from(None), "optional of None");
                ensure!(m.to_option().is_none() && m.into_iter().next().is_none(), "empty optional");
                ensure!(no_panic(|| m.unwrap()).is_err(), "unwrap of an empty optional");
                ensure_eq!(serde_json::to_string(&m).unwrap(), "null", "JSON of the empty optional");
                ensure_eq!(serde_json::from_str::<$maybe<U>>("null").ok(), Some(m), "empty optional read back");
                ensure!(m != $maybe::new(Some(n)), "optional of {x} equals the empty one");
            }
            // Order and equality are those of the numbers.
            for &a in vals.iter().filter(|x| **x <= max) {
                for &b in vals.iter().filter(|x| **x <= max) {
                    let (x, y) = ($index::<U>::new(a), $index::<U>::new(b));
                    ensure_eq!(x.cmp(&y), a.cmp(&b), "order of {a} and {b}");
                    ensure_eq!(x == y, a == b, "equality of {a} and {b}");
                }
            }
            Ok(())
        }
    };
}
index_checks!(node_index, NodeIndex, MaybeNodeIndex);
index_checks!(port_index, PortIndex, MaybePortIndex);

fn offset<U>(xs: &[V], ctx: &mut Ctx) -> TR
where
    U: Unsigned + Serialize + DeserializeOwned + Debug,
{
    let max = PortOffset::<U>::max_offset();
    ensure_eq!(max, ((1u128 << (bits::<U>() - 1)) - 2) as usize, "max_offset");
    for &v in xs {
        let x = v.value(max);
        for d in Direction::BOTH {
            let name = if d == Direction::Incoming { "Incoming" } else { "Outgoing" };
            let n = no_panic(|| PortOffset::<U>::new(d, x));
            let n2 = no_panic(|| match d {
                Direction::Incoming => PortOffset::<U>::new_incoming(x),
                Direction::Outgoing => PortOffset::<U>::new_outgoing(x),
            });
            let text = format!("{{\"index\":{x},\"direction\":\"{name}\"}}");
            let json = no_panic(|| serde_json::from_str::<PortOffset<U>>(&text))?;
            if x > max {
                ctx.nontrivial();
                ensure!(n.is_err() && n2.is_err(), "new({d:?},{x}) gives {n:?}, {n2:?}, the limit is {max}");
                ensure!(json.is_err(), "{text} was read back as an offset");
                continue;
            }
            let n = n?;
            ensure_eq!(n2?, n, "the two constructors");
            ensure_eq!((n.direction(), n.index()), (d, x), "new({d:?},{x})");
            let o = n.opposite();
            ensure_eq!((o.direction(), o.index()), (d.reverse(), x), "opposite of {n:?}");
            ensure_eq!(o.opposite(), n, "opposite twice");
            ensure!(o != n, "{n:?} equals its opposite");
            ensure_eq!(json.ok(), Some(n), "JSON {text}");
            let back: PortOffset<U> = rmp_serde::from_slice(&rmp_serde::to_vec(&n).unwrap()).map_err(|e| e.to_string())?;
            ensure_eq!(back, n, "MessagePack of {n:?}");
            let back: PortOffset<U> = serde_json::from_str(&serde_json::to_string(&n).unwrap()).map_err(|e| e.to_string())?;
            ensure_eq!(back, n, "JSON of {n:?}");
            if x < max {
                ensure!(PortOffset::<U>::new(d, x + 1) > n, "{n:?} is not below its successor");
            }
        }
    }
    Ok(())
}

fn subport(xs: &[(V, u16)], ctx: &mut Ctx) -> TR {
    let max = PortIndex::<u32>::max_index();
    for &(v, o) in xs {
        let x = v.value(max) % (max + 1);
        let p: PortIndex = PortIndex::new(x);
        // The documentation and the code disagree by one on the limit itself.
        let over = 65537 + o as usize * (1 + x % 70_000);
        ensure!(no_panic(|| SubportIndex::new_multi(p, over)).is_err(), "subport offset {over} accepted");
        if o == u16::MAX {
            continue;
        }
        let s = SubportIndex::new_multi(p, o as usize);
        ensure_eq!((s.port(), s.offset()), (p, o as usize), "subport ({x},{o})");
        ensure_eq!(PortIndex::from(s), p, "port of subport ({x},{o})");
        let u = SubportIndex::new_unique(p);
        ensure_eq!((u.port(), u.offset()), (p, 0), "unique subport of {x}");
        ensure_eq!(s == u, o == 0, "subport {o} and the unique one");
        ctx.nontrivial_if(o > 0);
    }
    for d in Direction::BOTH {
        ensure_eq!(Direction::try_from(usize::from(d)).ok(), Some(d), "direction through usize");
        ensure!(d.reverse() != d && d.reverse().reverse() == d, "reverse of {d:?}");
    }
    for (x, o) in xs {
        for y in [x.value(max), *o as usize, (*o as usize) << 8, (*o as usize) << 32 | 1] {
            let want = [Direction::Incoming, Direction::Outgoing].get(y).copied();
            ensure_eq!(Direction::try_from(y).ok(), want, "direction from {y}");
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C11",
        "values around zero, the powers of two and the documented maximum, for node and port indices, optional indices \
         and port offsets of every width: values up to the maximum survive every conversion and encoding, larger ones \
         are refused everywhere; non-trivial: contains a value above the maximum",
    );
    let st = |_| prop::collection::vec(v(), 1..8);
    type C = Vec<V>;
    macro_rules! widths {
        ($($t:ty, $n:literal, $p:literal, $o:literal);*) => {$(
            c.run($n, 12_000, 300_000, st, |x: &C, ctx| node_index::<$t>(x, ctx));
            c.run($p, 12_000, 300_000, st, |x: &C, ctx| port_index::<$t>(x, ctx));
            c.run($o, 12_000, 300_000, st, |x: &C, ctx| offset::<$t>(x, ctx));
        )*}
    }
    widths!(u8, "node_u8", "port_u8", "offset_u8"; u16, "node_u16", "port_u16", "offset_u16";
            u32, "node_u32", "port_u32", "offset_u32"; u64, "node_u64", "port_u64", "offset_u64";
            usize, "node_usize", "port_usize", "offset_usize");
    c.run(
        "subport",
        30_000,
        500_000,
        |_| prop::collection::vec((v(), any::<u16>()), 1..8),
        |x: &Vec<(V, u16)>, ctx| subport(x, ctx),
    );
    c.finish()
}
