//! C09: inserting a graph or view adds an exact copy and nothing else.
use std::collections::{BTreeMap, BTreeSet};

use pgv::bit16;
use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region, Subgraph};
use portgraph::{LinkError, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    dst: Spec,
    src: Spec,
    forest: Vec<(u16, u8)>,
    sel: u16,
    view: u8,
    twice: bool,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, None, spec(SpecParams { nodes: 5, ..SpecParams::default() })),
        spec(SpecParams::default()),
        prop::collection::vec((any::<u16>(), any::<u8>()), 8),
        any::<u16>(),
        0u8..9,
        any::<bool>(),
    )
        .prop_map(|(dst, src, forest, sel, view, twice)| Case { dst, src, forest, sel, view, twice })
}

type End = (usize, usize, usize);

/// The links of a model as (node, direction, offset) ends, ignoring subports.
fn ends(m: &Model) -> Vec<(End, End)> {
    let mut v: Vec<_> = m.edges().into_iter().map(|(a, b)| (m.ports[&a.0], m.ports[&b.0])).collect();
    v.sort();
    v
}

/// Insert `src` (whose content is `sm`) and compare.
fn insert<G: TestGraph, S: LinkView<PortOffsetBase = G::O>>(d: &mut Driver<G>, src: &S, sm: &Model, ctx: &mut Ctx) -> TR {
    let old = d.m.clone();
    let multi = sm.ports.keys().any(|p| sm.port_links(*p).len() > 1);
    ctx.label_if(sm.edges().iter().any(|(a, b)| sm.owner(*a) == sm.owner(*b)), "copied self-link");
    let res = d.g.insert_graph(src);
    let now = Model::read(&d.g);
    let kept = now.induced(|n| old.nodes.contains_key(&n));
    match res {
        Err(e) => {
            ensure!(!G::MULTI && multi, "insert_graph failed with {e:?}");
            ensure!(matches!(e, LinkError::AlreadyLinked { .. }), "insert_graph failed with {e:?}");
            ensure_eq!(kept, old, "existing content after a failed insertion");
            ctx.label("rejected");
            return Ok(());
        }
        Ok(map) => {
            ensure!(G::MULTI || !multi, "insert_graph put several links on a port");
            let map: BTreeMap<usize, usize> = map.iter().map(|(a, b)| (a.index(), b.index())).collect();
            let keys: Vec<usize> = map.keys().copied().collect();
            ensure_eq!(keys, sm.node_ids(), "keys of the returned map");
            let vals: BTreeSet<usize> = map.values().copied().collect();
            ensure_eq!(vals.len(), map.len(), "distinct new nodes");
            ensure!(vals.iter().all(|v| !old.nodes.contains_key(v)), "new nodes {vals:?} overlap with the old ones");
            ensure_eq!(now.nodes.len(), old.nodes.len() + map.len(), "node count after the insertion");
            ensure_eq!(kept, old, "existing content after the insertion");
            for (a, b) in &map {
                for k in 0..2 {
                    let (x, y) = (sm.nodes[a].ports[k].len(), now.nodes.get(b).map_or(0, |n| n.ports[k].len()));
                    ensure_eq!(y, x, "ports of the copy of {a} in direction {k}");
                }
            }
            let mut want = ends(sm);
            for (x, y) in want.iter_mut() {
                x.0 = map[&x.0];
                y.0 = map[&y.0];
            }
            want.extend(ends(&old));
            want.sort();
            ensure_eq!(ends(&now), want, "links after the insertion");
            ctx.label("inserted");
            ctx.nontrivial_if(sm.link_count() > 1 && old.nodes.len() > 1);
        }
    }
    // The result is a sound graph.
    d.m = now;
    d.verify()
}

fn bit(sel: u16, k: usize) -> bool {
    bit16(sel, k)
}

fn go<D: TestGraph<O = u16>, S: TestGraph<O = u16>>(c: &Case, ctx: &mut Ctx) -> TR {
    let mut d = build::<D>(&c.dst, ctx)?;
    let s = build::<S>(&c.src, ctx)?;
    let ids = s.m.node_ids();
    let (h, f) = make_forest(&ids, &c.forest);
    let root = pgv::pick(&ids, c.sel as usize);
    for _ in 0..=c.twice as usize {
        let g = &s.g;
        match (c.view, root) {
            (3, Some(r)) => {
                ctx.label("region");
                let m = s.m.induced(|n| f.within(n, r));
                insert(&mut d, &Region::new(g, &h, ni(r)), &m, ctx)?;
            }
            (4, Some(r)) => {
                ctx.label("flat region");
                let m = s.m.induced(|n| n == r || f.parent.get(&n) == Some(&r));
                insert(&mut d, &FlatRegion::new_with_root(g, &h, ni(r)), &m, ctx)?;
            }
            (5, Some(r)) => {
                ctx.label("flat region");
                let m = s.m.induced(|n| f.parent.get(&n) == Some(&r));
                insert(&mut d, &FlatRegion::new_without_root(g, &h, ni(r)), &m, ctx)?;
            }
            (6, _) => {
                ctx.label("filtered");
                let v: FilteredGraph<_, NodeFilter<u16>, LinkFilter<u16>, u16> = FilteredGraph::new(
                    g,
                    |n: NodeIndex, c: &u16| n.index() % 5 != (*c % 7) as usize,
                    |p: PortIndex, c: &u16| p.index() % 6 != (*c / 7 % 8) as usize,
                    c.sel,
                );
                let mut m = s.m.induced(|n| n % 5 != (c.sel % 7) as usize);
                m.links.retain(|a, b| [a, b].iter().all(|x| x.0 % 6 != (c.sel / 7 % 8) as usize));
                insert(&mut d, &v, &m, ctx)?;
            }
            (7, _) => {
                ctx.label("subgraph");
                let keep: Vec<_> = ids.iter().enumerate().filter(|(k, _)| bit(c.sel, *k)).map(|(_, n)| ni(*n)).collect();
                let m = s.m.induced(|n| keep.contains(&ni(n)));
                insert(&mut d, &Subgraph::with_nodes(g, keep), &m, ctx)?;
            }
            (8, _) => {
                ctx.label("own clone");
                let (g, m) = (d.g.clone(), d.m.clone());
                insert(&mut d, &g, &m, ctx)?;
            }
            _ => {
                ctx.label("whole graph");
                insert(&mut d, g, &s.m, ctx)?;
            }
        }
    }
    ensure_eq!(Model::read(&s.g), s.m, "the source graph");
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C09",
        "a random graph, or a view of one (region, flat region, filtered, subgraph), inserted once or twice into a \
         random graph: the result is the disjoint union, through the returned node map; non-trivial: at least two \
         links inserted next to at least two existing nodes",
    );
    c.run("single_into_single", 70_000, 3_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph, PortGraph>(c, ctx));
    c.run("single_into_multi", 30_000, 1_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph, PortGraph>(c, ctx));
    c.run("multi_into_multi", 60_000, 3_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph, MultiPortGraph>(c, ctx));
    c.run("multi_into_single", 30_000, 1_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph, MultiPortGraph>(c, ctx));
    c.run("large_single_into_single", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<PortGraph, PortGraph>(c, ctx));
    c.run("large_single_into_multi", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph, PortGraph>(c, ctx));
    c.run("large_multi_into_multi", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph, MultiPortGraph>(c, ctx));
    c.run("large_multi_into_single", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<PortGraph, MultiPortGraph>(c, ctx));
    c.finish()
}
