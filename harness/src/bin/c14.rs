//! C14: the dense map: custom defaults, borrows, shrinking, equality.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use pgv::runner::{Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq};
use portgraph::{NodeIndex, PortIndex, SecondaryMap, UnmanagedDenseMap, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum DOp {
    Index(u16, u8),
    GetMut(u16, u8),
    TryGetMut(u16, u8),
    Disjoint(u16, u16, u16, u8),
    Take(u16),
    Rekey(u16, Option<u16>),
    Swap(u16, u16),
    Capacity(u16),
    Shrink(u16),
    /// Compare with a map built from scratch.
    Rebuild(bool),
    Serde(bool),
}

fn dops(len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<DOp>> {
    let s = || any::<u16>();
    let b = || any::<u8>();
    prop::collection::vec(
        prop_oneof![
            6 => (s(), b()).prop_map(|(a, b)| DOp::Index(a, b)),
            4 => (s(), b()).prop_map(|(a, b)| DOp::GetMut(a, b)),
            2 => (s(), b()).prop_map(|(a, b)| DOp::TryGetMut(a, b)),
            4 => (s(), s(), s(), b()).prop_map(|(a, b, c, d)| DOp::Disjoint(a, b, c, d)),
            3 => s().prop_map(DOp::Take),
            6 => (s(), prop::option::weighted(0.8, s())).prop_map(|(a, b)| DOp::Rekey(a, b)),
            4 => (s(), s()).prop_map(|(a, b)| DOp::Swap(a, b)),
            1 => (0u16..120).prop_map(DOp::Capacity),
            2 => (0u16..20).prop_map(DOp::Shrink),
            2 => any::<bool>().prop_map(DOp::Rebuild),
            1 => any::<bool>().prop_map(DOp::Serde),
        ],
        len,
    )
}

fn go<V>(ops: &[DOp], uni: usize, start: u8, val: impl Fn(u8) -> V, ctx: &mut Ctx) -> TR
where
    V: Clone + Debug + PartialEq + Default + Serialize + for<'a> Deserialize<'a>,
{
    let def = val(start);
    let mut m: UnmanagedDenseMap<NodeIndex, V> = match start % 3 {
        0 => UnmanagedDenseMap::with_capacity_and_default(start as usize % 11, def.clone()),
        _ => UnmanagedDenseMap::with_default(def.clone()),
    };
    ensure_eq!(m.default_value(), def, "default_value");
    let mut want: BTreeMap<usize, V> = BTreeMap::new();
    let r = |s: u16| if s % 2048 == 2047 { 65_520 + s as usize / 2048 } else if s % 16 == 15 { 40 + s as usize % 100 } else { s as usize % uni };
    let key = NodeIndex::new;
    let lookup = |w: &BTreeMap<usize, V>, k: usize| w.get(&k).cloned().unwrap_or(def.clone());
    for (i, op) in ops.iter().enumerate() {
        match *op {
            DOp::Index(k, v) => {
                m[key(r(k))] = val(v);
                want.insert(r(k), val(v));
            }
            DOp::GetMut(k, v) => {
                let x = m.get_mut(key(r(k)));
                ensure_eq!(*x, lookup(&want, r(k)), "step {i}: get_mut({})", r(k));
                *x = val(v);
                want.insert(r(k), val(v));
            }
            DOp::TryGetMut(k, v) => {
                let w = lookup(&want, r(k));
                let before = m.capacity();
                match m.try_get_mut(key(r(k))) {
                    Some(x) => {
                        ensure_eq!(*x, w, "step {i}: try_get_mut({})", r(k));
                        *x = val(v);
                        want.insert(r(k), val(v));
                        ctx.label("try_get_mut hit");
                    }
                    None => ensure!(w == def, "step {i}: try_get_mut({}) is None, the value is {w:?}", r(k)),
                }
                ensure_eq!(m.capacity(), before, "capacity after try_get_mut");
            }
            DOp::Disjoint(a, b, c, v) => {
                let ks = [r(a), r(b), r(c)];
                let distinct = ks[0] != ks[1] && ks[1] != ks[2] && ks[0] != ks[2];
                match m.get_disjoint_mut(ks.map(key)) {
                    Some(xs) => {
                        ensure!(distinct, "step {i}: get_disjoint_mut({ks:?}) succeeded");
                        for (j, x) in xs.into_iter().enumerate() {
                            ensure_eq!(*x, lookup(&want, ks[j]), "step {i}: get_disjoint_mut({ks:?})[{j}]");
                            *x = val(v.wrapping_add(j as u8));
                        }
                        for (j, k) in ks.iter().enumerate() {
                            want.insert(*k, val(v.wrapping_add(j as u8)));
                        }
                        ctx.label("disjoint borrow");
                    }
                    None => ensure!(!distinct, "step {i}: get_disjoint_mut({ks:?}) is None"),
                }
            }
            DOp::Take(k) => {
                ensure_eq!(m.take(key(r(k))), lookup(&want, r(k)), "step {i}: take({})", r(k));
                want.remove(&r(k));
            }
            DOp::Rekey(a, b) => {
                let (a, b) = (r(a), b.map(r));
                m.rekey(key(a), b.map(key));
                let v = lookup(&want, a);
                ctx.label_if(v != def, "rekey of a set key");
                want.remove(&a);
                if let Some(b) = b {
                    want.insert(b, v);
                }
            }
            DOp::Swap(a, b) => {
                let (a, b) = (r(a), r(b));
                m.swap(key(a), key(b));
                let (x, y) = (lookup(&want, a), lookup(&want, b));
                want.insert(a, y);
                want.insert(b, x);
            }
            DOp::Capacity(c) => {
                m.ensure_capacity(c as usize);
                ensure!(m.capacity() >= c as usize, "step {i}: ensure_capacity({c}) leaves capacity {}", m.capacity());
            }
            DOp::Shrink(c) => {
                let before = m.capacity();
                m.shrink_to(c as usize);
                ensure!(m.capacity() <= before, "step {i}: shrink_to({c}) raised the capacity");
                ctx.label_if(want.keys().any(|k| *k >= c as usize), "shrink drops values");
                want.retain(|k, _| *k < c as usize);
            }
            DOp::Rebuild(rev) => {
                let mut o: UnmanagedDenseMap<NodeIndex, V> = UnmanagedDenseMap::with_default(def.clone());
                let mut ks: Vec<_> = want.iter().filter(|(_, v)| **v != def).collect();
                if rev {
                    ks.reverse();
                }
                for (k, v) in &ks {
                    o.set(key(**k), (*v).clone());
                }
                ensure!(o == m && m == o, "step {i}: maps with the same values differ: {m:?} / {o:?}");
                // One changed value makes them different, wherever it is.
                let k = key(r(i as u16 * 7));
                let other = (0..=255).map(&val).find(|v| v != o.get(k)).unwrap();
                o.set(k, other);
                ensure!(o != m && m != o, "step {i}: maps that differ at {k:?} are equal");
                // Another default makes them different: so is every key not set.
                let mut o: UnmanagedDenseMap<NodeIndex, V> =
                    UnmanagedDenseMap::with_default((0..=255).map(&val).find(|v| *v != def).unwrap());
                for k in 0..m.capacity() {
                    o.set(key(k), m.get(key(k)).clone());
                }
                ensure!(o != m && m != o, "step {i}: maps with different defaults are equal");
                ctx.label("equality");
            }
            DOp::Serde(json) => {
                let o: UnmanagedDenseMap<NodeIndex, V> = if json {
                    serde_json::from_str(&serde_json::to_string(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?
                } else {
                    rmp_serde::from_slice(&rmp_serde::to_vec(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?
                };
                ensure!(o == m, "step {i}: deserialised map differs");
                m = o;
            }
        }
        for k in (0..uni + 2).chain(want.keys().copied()) {
            ensure_eq!(m.get(key(k)), &lookup(&want, k), "step {i} ({op:?}): get({k})");
            ensure_eq!(m[key(k)], lookup(&want, k), "step {i} ({op:?}): [{k}]");
        }
        // Forward and backward iteration agree and report true values.
        let f: Vec<(usize, V)> = m.iter().map(|(k, v)| (k.index(), v.clone())).collect();
        let mut b: Vec<(usize, V)> = m.iter().rev().map(|(k, v)| (k.index(), v.clone())).collect();
        b.reverse();
        ensure_eq!(b, f, "step {i} ({op:?}): reversed iteration");
        let seen: BTreeMap<usize, V> = f.iter().cloned().collect();
        ensure_eq!(seen.len(), f.len(), "step {i} ({op:?}): distinct keys of iter");
        for (k, v) in &seen {
            ensure_eq!(v, &lookup(&want, *k), "step {i} ({op:?}): iter at {k}");
        }
        for (k, v) in &want {
            ensure!(*v == def || seen.contains_key(k), "step {i} ({op:?}): iter misses {k}");
        }
    }
    ctx.nontrivial_if(ctx.count("rekey of a set key") > 0 && ctx.count("disjoint borrow") > 0);
    Ok(())
}

/// Node and port weights are two independent maps with their types' defaults.
fn go_weights(o: &[(bool, u16, u8)], ctx: &mut Ctx) -> TR {
    let mut w: Weights<u8, String> = if o.len() % 2 == 0 { Weights::new() } else { Weights::with_capacity(3, o.len()) };
    let (mut n, mut p): (BTreeMap<usize, u8>, BTreeMap<usize, String>) = Default::default();
    for &(node, k, v) in o {
        let k = k as usize % 20;
        if node {
            w[NodeIndex::new(k)] = v;
            n.insert(k, v);
        } else {
            w[PortIndex::new(k)] = v.to_string();
            p.insert(k, v.to_string());
        }
    }
    for k in 0..25 {
        ensure_eq!(w[NodeIndex::new(k)], n.get(&k).copied().unwrap_or_default(), "node weight {k}");
        ensure_eq!(w[PortIndex::new(k)], p.get(&k).cloned().unwrap_or_default(), "port weight {k}");
        ensure_eq!(w.nodes.get(NodeIndex::new(k)), &w[NodeIndex::new(k)], "nodes map at {k}");
        ensure_eq!(w.ports.get(PortIndex::new(k)), &w[PortIndex::new(k)], "ports map at {k}");
    }
    ctx.nontrivial_if(n.len() > 1 && p.len() > 1);
    Ok(())
}

/// A user's key: an index with a mark that is not part of it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Marked {
    mark: u8,
    index: usize,
}

impl From<Marked> for usize {
    fn from(k: Marked) -> usize {
        k.index
    }
}

impl TryFrom<usize> for Marked {
    type Error = ();
    fn try_from(index: usize) -> Result<Self, ()> {
        Ok(Marked { mark: 0, index })
    }
}

/// Mutable borrows of keys that name the same place are never handed out together.
fn go_marked(o: &[([u8; 3], [u8; 3])], ctx: &mut Ctx) -> TR {
    let mut m: UnmanagedDenseMap<Marked, u32> = UnmanagedDenseMap::with_default(7);
    let mut want: BTreeMap<usize, u32> = BTreeMap::new();
    for (i, (mark, at)) in o.iter().enumerate() {
        let ks = [0, 1, 2].map(|j| Marked { mark: mark[j] % 3, index: at[j] as usize % 6 });
        let distinct: BTreeSet<usize> = ks.iter().map(|k| k.index).collect();
        let same = distinct.len() < 3;
        match m.get_disjoint_mut(ks) {
            Some(xs) => {
                ensure!(!same, "step {i}: get_disjoint_mut({ks:?}) lends one value twice");
                for (j, x) in xs.into_iter().enumerate() {
                    ensure_eq!(*x, want.get(&ks[j].index).copied().unwrap_or(7), "step {i}: value at {:?}", ks[j]);
                    *x = (i * 3 + j) as u32;
                    want.insert(ks[j].index, *x);
                }
                ctx.label("disjoint borrow");
            }
            None => ensure!(same, "step {i}: get_disjoint_mut({ks:?}) is None"),
        }
        for k in 0..6 {
            for mark in 0..3 {
                ensure_eq!(*m.get(Marked { mark, index: k }), want.get(&k).copied().unwrap_or(7), "step {i}: get({k})");
            }
        }
    }
    ctx.nontrivial_if(ctx.count("disjoint borrow") > 0);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C14",
        "histories on a dense map with an arbitrary default value: indexing, mutable and disjoint borrows, take, rekey, \
         swap, capacity, shrinking, equality with a map built from scratch and serialisation, compared with an ordered \
         map; non-trivial: a set key was rekeyed and a disjoint borrow succeeded",
    );
    let len = |t: Tier| if t == Tier::Quick { 4..30 } else { 4..100 };
    type C = (Vec<DOp>, u8);
    let st = |t: Tier| (dops(len(t)), any::<u8>());
    c.run("int", 90_000, 3_000_000, st, |o: &C, ctx| go::<i8>(&o.0, 9, o.1, |x| (x % 6) as i8 - 2, ctx));
    c.run("string", 50_000, 1_500_000, st, |o: &C, ctx| {
        go::<String>(&o.0, 14, o.1, |x| if x % 5 == 0 { String::new() } else { format!("v{}", x % 9) }, ctx)
    });
    c.run(
        "weights",
        20_000,
        500_000,
        |_| prop::collection::vec((any::<bool>(), any::<u16>(), any::<u8>()), 0..30),
        |o: &Vec<(bool, u16, u8)>, ctx| go_weights(o, ctx),
    );
    c.run(
        "marked",
        20_000,
        500_000,
        |_| prop::collection::vec((any::<[u8; 3]>(), any::<[u8; 3]>()), 1..8),
        |o: &Vec<([u8; 3], [u8; 3])>, ctx| go_marked(o, ctx),
    );
    c.finish()
}
