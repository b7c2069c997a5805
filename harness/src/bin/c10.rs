//! C10: serialising and reading back loses nothing, now and later.
use std::fmt::Debug;

use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq};
use portgraph::multiportgraph::SubportIndex;
use portgraph::{
    Direction, Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortOffset, SecondaryMap, UnmanagedDenseMap,
    Weights,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};

/// Through one of four encodings.
fn trip<T: Serialize + DeserializeOwned>(x: &T, how: u8) -> Result<T, String> {
    let e = |what: &str, e: &dyn std::fmt::Display| format!("{what}: {e}");
    match how % 4 {
        0 => {
            let s = serde_json::to_string(x).map_err(|x| e("to_string", &x))?;
            serde_json::from_str(&s).map_err(|x| e("from_str", &x))
        }
        1 => {
            let s = rmp_serde::to_vec(x).map_err(|x| e("to_vec", &x))?;
            rmp_serde::from_slice(&s).map_err(|x| e("from_slice", &x))
        }
        2 => {
            let s = rmp_serde::to_vec_named(x).map_err(|x| e("to_vec_named", &x))?;
            rmp_serde::from_slice(&s).map_err(|x| e("from_slice (named)", &x))
        }
        _ => {
            let s = serde_json::to_value(x).map_err(|x| e("to_value", &x))?;
            let text = serde_json::to_string_pretty(&s).map_err(|x| e("to_string_pretty", &x))?;
            serde_json::from_str(&text).map_err(|x| e("from_str (pretty)", &x))
        }
    }
}

type C = (Vec<Op>, Vec<Op>, u8);

fn graph<G: TestGraph>(c: &C, ctx: &mut Ctx) -> TR {
    graph_from::<G>(Driver::new(G::default()), c, ctx)
}

fn graph_large<G: TestGraph>(c: &(Spec, C), ctx: &mut Ctx) -> TR {
    graph_from::<G>(build(&c.0, ctx)?, &c.1, ctx)
}

fn graph_from<G: TestGraph>(mut d: Driver<G>, c: &C, ctx: &mut Ctx) -> TR {
    d.check_each = false;
    for op in &c.0 {
        d.step(op, ctx)?;
    }
    let copy: G = trip(&d.g, c.2)?;
    ensure!(copy == d.g && d.g == copy, "the graph read back differs");
    let again: G = trip(&copy, c.2 / 4)?;
    ensure!(again == d.g, "the graph read back twice differs");
    let mut e = Driver::new(copy);
    e.check_each = false;
    e.m = d.m.clone();
    e.slots = d.slots;
    e.node_tag = d.node_tag.clone();
    e.port_tag = d.port_tag.clone();
    e.next_tag = d.next_tag;
    e.verify().map_err(|e| format!("the graph read back: {e}"))?;
    // The same operations from here on have the same results.
    let mut quiet = Ctx::default();
    for (i, op) in c.1.iter().enumerate() {
        d.step(op, ctx).map_err(|e| format!("original, step {i} ({op:?}): {e}"))?;
        e.step(op, &mut quiet).map_err(|e| format!("copy, step {i} ({op:?}): {e}"))?;
        ensure!(d.g == e.g, "original and copy differ after step {i} ({op:?})");
        ensure_eq!(e.m, d.m, "indices handed out by the copy after step {i} ({op:?})");
    }
    e.verify().map_err(|e| format!("the copy at the end: {e}"))?;
    ctx.nontrivial_if(ctx.count("link") > 0 && ctx.count("remove_node") > 0);
    Ok(())
}

fn values(v: &[(u8, u32, u16)], how: u8, ctx: &mut Ctx) -> TR {
    fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: T, how: u8) -> TR {
        let y = trip(&x, how)?;
        ensure_eq!(y, x, "value read back (encoding {})", how % 4);
        Ok(())
    }
    for &(k, a, b) in v {
        let a31 = (a as usize) % NodeIndex::<u32>::max_index().wrapping_add(1);
        let near = NodeIndex::<u32>::max_index() - (a % 3) as usize;
        let i = if k % 5 == 0 { near } else { a31 };
        let o16 = b as usize % (PortOffset::<u16>::max_offset() + 1);
        let d = if k % 2 == 0 { Direction::Incoming } else { Direction::Outgoing };
        same(NodeIndex::<u32>::new(i), how)?;
        same(PortIndex::<u32>::new(i), how)?;
        same(Some(NodeIndex::<u32>::new(i)), how)?;
        same(PortOffset::<u16>::new(d, o16), how)?;
        same(PortOffset::<u32>::new(d, i), how)?;
        same(PortOffset::<u8>::new(d, o16 % (PortOffset::<u8>::max_offset() + 1)), how)?;
        same(d, how)?;
        same(SubportIndex::new_multi(PortIndex::new(i), b.min(65_534) as usize), how)?;
        same(SubportIndex::new_unique(PortIndex::new(i)), how)?;
    }
    ctx.nontrivial_if(v.len() > 1);
    Ok(())
}

fn maps(c: &(Vec<HOp>, Vec<(bool, u16, i32)>, u8), ctx: &mut Ctx) -> TR {
    let (mut h, mut f) = (Hierarchy::new(), Forest::default());
    for op in &c.0 {
        hstep(&mut h, &mut f, op, 9, ctx)?;
    }
    let g = trip(&h, c.2)?;
    ensure!(g == h && h == g, "the hierarchy read back differs");
    check_forest(&g, &f, 10).map_err(|e| format!("the hierarchy read back: {e}"))?;
    // And it goes on working.
    let (mut g, mut f2) = (g, f.clone());
    for op in c.0.iter().rev() {
        hstep(&mut g, &mut f2, op, 9, ctx).map_err(|e| format!("the hierarchy read back, {op:?}: {e}"))?;
    }
    check_forest(&g, &f2, 10).map_err(|e| format!("the hierarchy read back, later: {e}"))?;

    let mut w: Weights<i32, Option<String>> = Weights::new();
    let mut u: UnmanagedDenseMap<PortIndex, i32> = UnmanagedDenseMap::with_default(c.2 as i32);
    for &(n, k, v) in &c.1 {
        let k = k as usize % 40;
        if n {
            w[NodeIndex::new(k)] = v;
            u.set(PortIndex::new(k), v % 4);
        } else {
            w[PortIndex::new(k)] = (v % 3 != 0).then(|| v.to_string());
        }
    }
    let x = trip(&w, c.2)?;
    let y = trip(&u, c.2)?;
    ensure!(y == u, "the map read back differs");
    ensure_eq!(y.default_value(), u.default_value(), "default value of the map read back");
    ensure!(x.nodes == w.nodes && x.ports == w.ports, "the weights read back differ");
    for k in 0..45 {
        ensure_eq!(x[NodeIndex::new(k)], w[NodeIndex::new(k)], "node weight {k} read back");
        ensure_eq!(x[PortIndex::new(k)], w[PortIndex::new(k)], "port weight {k} read back");
        ensure_eq!(y[PortIndex::new(k)], u[PortIndex::new(k)], "map at {k} read back");
    }
    ctx.nontrivial_if(f.parent.len() > 2);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C10",
        "graphs after random histories, hierarchies, weights and index values through JSON and MessagePack (compact, \
         named and pretty): equal to the original, and a further random history has the same results on both; \
         non-trivial: at least one link and one node removal (graphs), several values (others)",
    );
    c.assume("formats other than JSON and MessagePack are not exercised");
    let len = |t: Tier| if t == Tier::Quick { 3..30 } else { 3..100 };
    let mix = Mix { remove: 7, swap: 4, ..Mix::default() };
    let multi = Mix { multi: true, sub: 8, ..mix };
    let st = move |mix: Mix| move |t: Tier| (ops(mix, len(t)), ops(mix, len(t)), any::<u8>());
    c.run("single", 25_000, 800_000, st(mix), |c: &C, ctx| graph::<PortGraph>(c, ctx));
    c.run("single_u8", 10_000, 300_000, st(mix), |c: &C, ctx| graph::<PortGraph<u32, u32, u8>>(c, ctx));
    c.run("single_u32", 10_000, 300_000, st(mix), |c: &C, ctx| graph::<PortGraph<u32, u32, u32>>(c, ctx));
    c.run("multi", 25_000, 800_000, st(multi), |c: &C, ctx| graph::<MultiPortGraph>(c, ctx));
    let big = move |mix: Mix| (large(None), (ops(mix, 1..10), ops(mix, 1..10), any::<u8>()));
    c.run("large_single", 800, 30_000, |_| big(mix), |c: &(Spec, C), ctx| graph_large::<PortGraph>(c, ctx));
    c.run("large_multi", 800, 30_000, |_| big(multi), |c: &(Spec, C), ctx| graph_large::<MultiPortGraph>(c, ctx));
    let out = move |mix: Mix| (far(None), (ops(mix, 1..10), ops(mix, 1..10), any::<u8>()));
    c.run("far_single", 24, 1_000, |_| out(mix), |c: &(Spec, C), ctx| graph_large::<PortGraph>(c, ctx));
    c.run("far_multi", 24, 1_000, |_| out(multi), |c: &(Spec, C), ctx| graph_large::<MultiPortGraph>(c, ctx));
    c.run(
        "values",
        20_000,
        500_000,
        |_| (prop::collection::vec((any::<u8>(), any::<u32>(), any::<u16>()), 0..6), any::<u8>()),
        |c: &(Vec<(u8, u32, u16)>, u8), ctx| values(&c.0, c.1, ctx),
    );
    c.run(
        "maps",
        30_000,
        800_000,
        |t| {
            (
                hops(len(t)),
                prop::collection::vec((any::<bool>(), any::<u16>(), any::<i32>()), 0..20),
                any::<u8>(),
            )
        },
        |c: &(Vec<HOp>, Vec<(bool, u16, i32)>, u8), ctx| maps(c, ctx),
    );
    c.finish()
}
