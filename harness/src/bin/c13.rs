//! C13: every secondary map is a total map with a default value.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;

use bitvec::vec::BitVec;
use pgv::model::ends;
use pgv::runner::{Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq};
use portgraph::{NodeIndex, PortIndex, SecondaryMap, UnmanagedDenseMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum MOp {
    Set(u16, u8),
    Take(u16),
    Remove(u16),
    Rekey(u16, Option<u16>),
    Swap(u16, u16),
    Capacity(u16),
    Clone,
}

fn mops(len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<MOp>> {
    let s = || any::<u16>();
    prop::collection::vec(
        prop_oneof![
            10 => (s(), any::<u8>()).prop_map(|(a, b)| MOp::Set(a, b)),
            3 => s().prop_map(MOp::Take),
            2 => s().prop_map(MOp::Remove),
            6 => (s(), prop::option::weighted(0.8, s())).prop_map(|(a, b)| MOp::Rekey(a, b)),
            5 => (s(), s()).prop_map(|(a, b)| MOp::Swap(a, b)),
            2 => prop_oneof![0u16..200, any::<u16>().prop_map(|x| x % 700)].prop_map(MOp::Capacity),
            1 => Just(MOp::Clone),
        ],
        len,
    )
}

/// The iterator yields exactly the non-default entries, once each.
fn check_iter<K, V, M>(m: &M, want: &BTreeMap<usize, V>, def: &V, dense: bool, ctx: &mut Ctx) -> TR
where
    K: Into<usize> + Copy,
    V: Clone + PartialEq + Debug,
    M: SecondaryMap<K, V>,
{
    let mut got: BTreeMap<usize, V> = BTreeMap::new();
    let mut it = m.iter();
    let mut hints = vec![];
    loop {
        hints.push(it.size_hint());
        let Some((k, v)) = it.next() else { break };
        ensure!(got.insert(k.into(), v.clone()).is_none(), "iter yields key {} twice", k.into());
        ensure!(hints.len() < 100_000, "iter does not end");
    }
    let n = got.len();
    for (i, (lo, hi)) in hints.iter().enumerate() {
        ensure!(*lo <= n - i && hi.is_none_or(|h| h >= n - i), "iter: size_hint {:?} with {} items left", (lo, hi), n - i);
    }
    ensure_eq!(m.iter().count(), n, "count of iter");
    for k in [0, 1, n / 2, n] {
        let want: Option<(usize, V)> = m.iter().skip(k).next().map(|(a, b)| (a.into(), b.clone()));
        let x: Option<(usize, V)> = m.iter().nth(k).map(|(a, b)| (a.into(), b.clone()));
        ensure_eq!(x, want, "nth({k}) of iter");
    }
    if got.values().any(|v| v == def) {
        // The dense map has no way to tell (its values need not be comparable).
        let sig = "dense-iter-yields-defaults";
        let known = dense && ctx.known(sig, || "UnmanagedDenseMap::iter yields entries that hold the default value".into());
        ensure!(known, "iter yields an entry with the default value: {got:?}");
        got.retain(|_, v| v != def);
    }
    ensure_eq!(&got, want, "entries of iter");
    Ok(())
}

fn go<K, V, M>(ops: &[MOp], uni: usize, key: impl Fn(usize) -> K, val: impl Fn(u8) -> V, dense: bool, with_cap: bool, ends: impl Fn(&M, u32) -> TR, ctx: &mut Ctx) -> TR
where
    K: Into<usize> + Copy,
    V: Clone + PartialEq + Debug,
    M: SecondaryMap<K, V> + Clone,
{
    let mut m: M = if with_cap { M::with_capacity(7) } else { M::new() };
    if with_cap {
        ensure!(m.capacity() >= 7, "with_capacity(7) has capacity {}", m.capacity());
    }
    let def = m.default_value();
    let mut want: BTreeMap<usize, V> = BTreeMap::new();
    // Mostly small keys, some far away, a few past sixteen bits.
    let r = |s: u16| if s % 2048 == 2047 { 65_520 + s as usize / 2048 } else if s % 16 == 15 { 100 + s as usize % 900 } else { s as usize % uni };
    let put = |w: &mut BTreeMap<usize, V>, k: usize, v: V| {
        if v == def {
            w.remove(&k);
        } else {
            w.insert(k, v);
        }
    };
    let lookup = |w: &BTreeMap<usize, V>, k: usize| w.get(&k).cloned().unwrap_or(def.clone());
    for (i, op) in ops.iter().enumerate() {
        // Often one of the keys that hold a value.
        let r_set = |s: u16| match (s % 3, want.len()) {
            (0, 1..) => *want.keys().nth(s as usize / 3 % want.len()).unwrap(),
            _ => r(s),
        };
        let mut touched: Vec<usize> = vec![];
        match *op {
            MOp::Set(k, v) => {
                m.set(key(r(k)), val(v));
                put(&mut want, r(k), val(v));
                touched.push(r(k));
            }
            MOp::Take(k) => {
                let k = r_set(k);
                let got = m.take(key(k));
                let w = lookup(&want, k);
                ensure_eq!(got, w, "step {i}: take({k})");
                want.remove(&k);
                ctx.label_if(w != def, "take of a set key");
                touched.push(k);
            }
            MOp::Remove(k) => {
                m.remove(key(r(k)));
                want.remove(&r(k));
                touched.push(r(k));
            }
            MOp::Rekey(a, b) => {
                let (a, b) = (r_set(a), b.map(r));
                m.rekey(key(a), b.map(&key));
                let v = lookup(&want, a);
                ctx.label_if(v != def && b.is_some() && b != Some(a), "rekey of a set key");
                ctx.label_if(v == def && b.is_some_and(|b| want.contains_key(&b)), "rekey of an unset key onto a set one");
                want.remove(&a);
                touched.push(a);
                if let Some(b) = b {
                    put(&mut want, b, v);
                    touched.push(b);
                }
            }
            MOp::Swap(a, b) => {
                let (a, b) = (r_set(a), r(b));
                m.swap(key(a), key(b));
                let (x, y) = (lookup(&want, a), lookup(&want, b));
                ctx.label_if(x != y, "swap of different values");
                put(&mut want, a, y);
                put(&mut want, b, x);
                touched.extend([a, b]);
            }
            MOp::Capacity(c) => {
                let before = m.capacity();
                m.ensure_capacity(c as usize);
                ensure!(m.capacity() >= c as usize, "step {i}: ensure_capacity({c}) leaves capacity {}", m.capacity());
                ensure!(m.capacity() >= before, "step {i}: ensure_capacity({c}) lowers the capacity from {before}");
                ctx.label("ensure_capacity");
            }
            MOp::Clone => m = m.clone(),
        }
        touched.extend(want.keys().copied());
        touched.extend(0..uni + 2);
        for k in touched {
            ensure_eq!(m.get(key(k)), &lookup(&want, k), "step {i} ({op:?}): get({k})");
        }
        ensure_eq!(m.default_value(), def, "default value");
        if i % 3 == 0 || i + 1 == ops.len() {
            ends(&m, (i as u32).wrapping_mul(0x9e37_79b9)).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
        }
        check_iter(&m, &want, &def, dense, ctx).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
    }
    ctx.nontrivial_if(ctx.count("rekey of a set key") > 0 && ctx.count("swap of different values") > 0);
    Ok(())
}

fn both<K: TryFrom<usize> + Into<usize> + Copy + Debug + PartialEq, V: Default + Clone + Debug + PartialEq>(m: &UnmanagedDenseMap<K, V>, k: u32) -> TR {
    ends(m.iter(), 100_000, k, "iter")
}

fn main() {
    let mut c = Check::start(
        "C13",
        "histories of set, take, remove, rekey, swap, capacity and clone on every secondary map type; after each step \
         lookups and iteration are compared with an ordered map of the non-default entries; non-trivial: a set key was \
         rekeyed and two different values were swapped",
    );
    let len = |t: Tier| if t == Tier::Quick { 4..30 } else { 4..100 };
    let b = |x: u8| x % 3 != 0;
    type C = (Vec<MOp>, bool);
    let st = |t: Tier| (mops(len(t)), any::<bool>());
    c.run("bitvec", 30_000, 1_000_000, st, |o: &C, ctx| go::<NodeIndex, bool, BitVec>(&o.0, 8, NodeIndex::new, b, false, o.1, |m, k| ends(<BitVec as SecondaryMap<NodeIndex, bool>>::iter(m), 100_000, k, "iter"), ctx));
    c.run("bitvec_port", 15_000, 500_000, st, |o: &C, ctx| go::<PortIndex, bool, BitVec>(&o.0, 70, PortIndex::new, b, false, o.1, |m, k| ends(<BitVec as SecondaryMap<PortIndex, bool>>::iter(m), 100_000, k, "iter"), ctx));
    c.run("hashset", 30_000, 1_000_000, st, |o: &C, ctx| {
        go::<NodeIndex, bool, HashSet<NodeIndex>>(&o.0, 8, NodeIndex::new, b, false, o.1, |_, _| Ok(()), ctx)
    });
    c.run("hashset_usize", 15_000, 500_000, st, |o: &C, ctx| go::<usize, bool, HashSet<usize>>(&o.0, 70, |x| x, b, false, o.1, |_, _| Ok(()), ctx));
    c.run("dense_bool", 25_000, 1_000_000, st, |o: &C, ctx| {
        go::<NodeIndex, bool, UnmanagedDenseMap<NodeIndex, bool>>(&o.0, 8, NodeIndex::new, b, true, o.1, both, ctx)
    });
    c.run("dense_int", 25_000, 1_000_000, st, |o: &C, ctx| {
        go::<PortIndex, u8, UnmanagedDenseMap<PortIndex, u8>>(&o.0, 12, PortIndex::new, |x| x % 5, true, o.1, both, ctx)
    });
    c.run("dense_string", 12_000, 600_000, st, |o: &C, ctx| {
        go::<usize, String, UnmanagedDenseMap<usize, String>>(
            &o.0,
            12,
            |x| x,
            |x| if x % 4 == 0 { String::new() } else { x.to_string() },
            true,
            o.1,
            both,
            ctx,
        )
    });
    c.finish()
}
