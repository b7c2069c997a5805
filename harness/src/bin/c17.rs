//! C17: regions show exactly the nodes below their root.
use std::borrow::Cow;

use pgv::deep::*;
use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region};
use portgraph::{Hierarchy, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortView};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    forest: Vec<(u16, u8)>,
    root: u16,
    inner: u16,
    /// Order of membership queries made before everything else (fills the
    /// cache in different ways).
    probe: Vec<u16>,
    kind: u8,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, None, spec(SpecParams { nodes: 10, links: 18, ..SpecParams::default() })),
        prop::collection::vec((any::<u16>(), any::<u8>()), 10),
        any::<u16>(),
        any::<u16>(),
        prop::collection::vec(any::<u16>(), 0..8),
        0u8..12,
    )
        .prop_map(|(g, forest, root, inner, probe, kind)| Case { g, forest, root, inner, probe, kind })
}

const OPTS: ViewOpts = ViewOpts { absent: true, pairs: true, ports: true };

fn one<V: LinkView<LinkEndpoint: Ep>>(v: &V, base: &Model, m: &Model) -> TR {
    check_view(v, m, OPTS)?;
    check_outside(v, base, m, true)
}

/// The sub-check for what differs between plain and multiport graphs.
trait Sub: TestGraph {
    fn region(_v: &Region<'_, &Self>, _base: &Model, _m: &Model) -> TR {
        Ok(())
    }
    fn flat(_v: &FlatRegion<'_, &Self>, _base: &Model, _m: &Model) -> TR {
        Ok(())
    }
}
impl Sub for PortGraph {}
impl Sub for MultiPortGraph {
    fn region(v: &Region<'_, &Self>, base: &Model, m: &Model) -> TR {
        check_subports(v, m)?;
        check_outside_subports(v, base, m)
    }
    fn flat(v: &FlatRegion<'_, &Self>, base: &Model, m: &Model) -> TR {
        check_subports(v, m)?;
        check_outside_subports(v, base, m)
    }
}

fn probe<V: PortView>(v: &V, c: &Case, base: &Model, m: &Model) -> TR {
    let (ids, ports) = (base.node_ids(), base.port_ids());
    for &s in &c.probe {
        if let (true, Some(p)) = (s % 3 == 0, pgv::pick(&ports, s as usize)) {
            ensure_eq!(v.contains_port(pi(p)), m.ports.contains_key(&p), "contains_port({p}) first");
        } else if let Some(n) = pgv::pick(&ids, s as usize) {
            ensure_eq!(v.contains_node(ni(n)), m.nodes.contains_key(&n), "contains_node({n}) first");
        }
    }
    Ok(())
}

/// The children of the root in hierarchy order: the order in which the nodes are listed.
fn order(v: &impl PortView, want: Vec<usize>) -> TR {
    let got: Vec<usize> = v.nodes_iter().map(|n| n.index()).collect();
    ensure_eq!(got, want, "order of nodes_iter");
    Ok(())
}

/// Mostly a node with children.
fn pick_root(ids: &[usize], f: &Forest, sel: u16) -> Option<usize> {
    let inner: Vec<usize> = ids.iter().copied().filter(|n| !f.kids(*n).is_empty()).collect();
    if sel % 5 == 0 || inner.is_empty() {
        pgv::pick(ids, sel as usize)
    } else {
        pgv::pick(&inner, sel as usize / 5)
    }
}

fn go<G: Sub>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let (g, base) = (&d.g, &d.m);
    let ids = base.node_ids();
    let (h, f): (Hierarchy, Forest) = make_forest(&ids, &c.forest);
    let Some(r) = pick_root(&ids, &f, c.root) else { return Ok(()) };
    let below: Vec<usize> = f.bfs(r);
    let deep = base.induced(|n| below.contains(&n));
    let label = |m: &Model, ctx: &mut Ctx| {
        ctx.label_if(m.nodes.len() == 1, "single node");
        ctx.label_if(f.parent.contains_key(&r), "root has a parent");
        let crossing = base.edges().iter().any(|(a, b)| {
            m.nodes.contains_key(&base.owner(*a)) != m.nodes.contains_key(&base.owner(*b))
        });
        ctx.label_if(crossing, "crossing link");
        ctx.nontrivial_if(crossing && m.link_count() > 0);
    };
    match c.kind {
        0..=3 => {
            label(&deep, ctx);
            let v = Region::new(g, &h, ni(r));
            ensure_eq!(v.region_root(), ni(r), "region_root");
            probe(&v, c, base, &deep)?;
            for n in &ids {
                ensure_eq!(v.is_descendant(ni(*n)), below.contains(n), "is_descendant({n})");
            }
            one(&v, base, &deep)?;
            order(&v, below.clone())?;
            G::region(&v, base, &deep)?;
            // A clone starts from the cache of the original.
            let w = v.clone();
            ensure!(w == v, "a clone differs from the region");
            one(&w, base, &deep)?;
            if let Some(other) = pgv::pick(&ids, c.inner as usize) {
                ensure_eq!(v == Region::new(g, &h, ni(other)), other == r, "equality of regions at {r} and {other}");
            }
            ctx.label_if(below.iter().any(|n| f.depth(*n) > f.depth(r) + 1), "grandchildren");
        }
        4 => {
            // A region of a region, at a descendant.
            let inner = below[c.inner as usize % below.len()];
            let m = base.induced(|n| f.within(n, inner));
            label(&m, ctx);
            let outer = Region::new(g, &h, ni(r));
            probe(&outer, c, base, &deep)?;
            let v = Region::new(&outer, &h, ni(inner));
            one(&v, base, &m)?;
            one(&v, &deep, &m)?;
            let kids = base.induced(|n| n == inner || f.parent.get(&n) == Some(&inner));
            one(&FlatRegion::new_with_root(&outer, &h, ni(inner)), base, &kids)?;
            ctx.label("nested");
        }
        5 => {
            // Below a node filter that keeps the region.
            let fg: FilteredGraph<_, NodeFilter<Vec<usize>>, LinkFilter<Vec<usize>>, Vec<usize>> =
                FilteredGraph::new(g, |n: NodeIndex, c: &Vec<usize>| c.contains(&n.index()), |_, _| true, below.clone());
            label(&deep, ctx);
            one(&Region::new(&fg, &h, ni(r)), base, &deep)?;
        }
        6..=9 => {
            let m = base.induced(|n| n == r || f.parent.get(&n) == Some(&r));
            label(&m, ctx);
            ctx.label("flat with root");
            let h: Cow<Hierarchy> = if c.inner % 2 == 0 { Cow::Borrowed(&h) } else { Cow::Owned(h.clone()) };
            let v = FlatRegion::new_with_root(g, h.clone(), ni(r));
            ensure!(v.includes_root() && v.region_root() == ni(r), "includes_root or region_root");
            probe(&v, c, base, &m)?;
            one(&v, base, &m)?;
            let mut want = vec![r];
            want.extend(f.kids(r));
            order(&v, want)?;
            G::flat(&v, base, &m)?;
            one(&v.clone(), base, &m)?;
            #[allow(deprecated)]
            one(&FlatRegion::new(g, &h, ni(r)), base, &m)?;
        }
        _ => {
            let m = base.induced(|n| f.parent.get(&n) == Some(&r));
            label(&m, ctx);
            ctx.label("flat without root");
            ctx.label_if(m.nodes.is_empty(), "empty region");
            let v = FlatRegion::new_without_root(g, &h, ni(r));
            ensure!(!v.includes_root() && v.region_root() == ni(r), "includes_root or region_root");
            probe(&v, c, base, &m)?;
            one(&v, base, &m)?;
            order(&v, f.kids(r).to_vec())?;
            G::flat(&v, base, &m)?;
            ensure!(v != FlatRegion::new_with_root(g, &h, ni(r)), "regions with and without the root are equal");
            ensure!(v == v.clone(), "a clone differs from the region");
        }
    }
    Ok(())
}

/// Several threads use one region and clones of it at the same time.
fn threads(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<PortGraph>(&c.g, ctx)?;
    let ids = d.m.node_ids();
    let (h, f) = make_forest(&ids, &c.forest);
    let Some(r) = pick_root(&ids, &f, c.root) else { return Ok(()) };
    let below: Vec<usize> = f.bfs(r);
    for round in 0..6 {
        let v = Region::new(&d.g, &h, ni(r));
        let (v, ids, below) = (&v, &ids, &below);
        let start = std::sync::Barrier::new(3);
        let start = &start;
        let work = move |k: usize| -> TR {
            start.wait();
            for j in 0..2 * ids.len() {
                let n = ids[(j * (k + 1) + round) % ids.len()];
                let got = if (j + k) % 3 == 0 {
                    // The clone answers for all nodes.
                    let w = v.clone();
                    ids.iter().all(|n| w.contains_node(ni(*n)) == below.contains(n)) && w.contains_node(ni(n)) == below.contains(&n)
                } else {
                    v.is_descendant(ni(n)) == below.contains(&n)
                };
                ensure!(got, "thread {k} of 3 got a wrong answer about node {n} (or from a clone), region {below:?}");
            }
            Ok(())
        };
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|k| s.spawn(move || work(k))).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "a thread panicked".to_string())?).collect::<Result<Vec<()>, String>>()
        })?;
    }
    ctx.nontrivial_if(below.len() > 2 && below.len() < ids.len());
    Ok(())
}

/// A region of a hierarchy of one long branch.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = c.graph::<PortGraph>()?;
    let h = c.hierarchy()?;
    let at = c.at();
    let a = at[at.len() / 2];
    let r = Region::new(&g, &h, order[a]);
    for k in at.iter().rev() {
        ensure_eq!(r.contains_node(order[*k]), *k >= a, "contains_node({k}) of the region below {a} of a branch of {}", c.n);
    }
    for (k, n) in order.iter().enumerate().rev() {
        ensure!(r.contains_node(*n) == (k >= a), "contains_node({k}) of the region below {a} of a branch of {}", c.n);
    }
    let r = Region::new(&g, &h, order[a]);
    ensure_eq!(r.node_count(), order.len() - a, "node_count of the region below {a} of a branch of {}", c.n);
    let mut seen: Vec<NodeIndex> = r.nodes_iter().take(order.len() + 1).collect();
    let mut want = order[a..].to_vec();
    seen.sort();
    want.sort();
    ensure!(seen == want, "nodes of the region below {a} of a branch of {}", c.n);
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C17",
        "a random graph with a random hierarchy, a region, nested region or flat region (with or without root) at a \
         random node, membership queried in random order first; every query equals the model restricted to the \
         region; non-trivial: links inside and links crossing the border",
    );
    c.run("single", 200_000, 5_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("threads", 2_000, 60_000, |_| case(false), threads);
    c.run("large_single", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
