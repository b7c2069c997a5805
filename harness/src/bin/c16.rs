//! C16: a filtered graph is the base graph restricted to what passes the filters.
use pgv::{bit16, bit32};
use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::ensure_eq;
use portgraph::view::{FilteredGraph, LinkFilter, NodeFilter, NodeFiltered, Region, Subgraph};
use portgraph::{LinkView, MultiPortGraph, MultiView, NodeIndex, PortGraph, PortIndex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Bit masks by index (modulo 32), and salts: the filters read their context.
type Cx = (u32, u32);
type FG<G> = FilteredGraph<G, NodeFilter<Cx>, LinkFilter<Cx>, Cx>;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    f1: Cx,
    f2: Cx,
    kind: u8,
    forest: Vec<(u16, u8)>,
    sel: u16,
}

fn mask() -> impl Strategy<Value = u32> {
    prop_oneof![1 => Just(u32::MAX), 4 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b), 2 => any::<u32>()]
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, None, spec(SpecParams { nodes: 8, links: 18, ..SpecParams::default() })),
        (mask(), mask()),
        (mask(), mask()),
        0u8..6,
        prop::collection::vec((any::<u16>(), any::<u8>()), 8),
        any::<u16>(),
    )
        .prop_map(|(g, f1, f2, kind, forest, sel)| Case { g, f1, f2, kind, forest, sel })
}

fn nf(n: NodeIndex, c: &Cx) -> bool {
    bit32(c.0, n.index())
}
fn pf(p: PortIndex, c: &Cx) -> bool {
    bit32(c.1, p.index())
}
fn filt<G: LinkView + Clone>(g: G, c: Cx) -> FG<G> {
    FilteredGraph::new(g, nf, pf, c)
}
fn restrict(m: &Model, c: Cx, links: bool) -> Model {
    let mut r = m.induced(|n| nf(ni(n), &c));
    if links {
        r.links.retain(|a, b| pf(pi(a.0), &c) && pf(pi(b.0), &c));
    }
    r
}

const OPTS: ViewOpts = ViewOpts { absent: true, pairs: true, ports: true };

fn one<V: LinkView<LinkEndpoint: Ep>>(v: &V, base: &Model, m: &Model) -> TR {
    check_view(v, m, OPTS)?;
    for n in base.nodes.keys().filter(|n| !m.nodes.contains_key(n)) {
        for d in 0..2 {
            ensure_eq!(v.neighbours(ni(*n), dir(d)).count(), 0, "neighbours({n}) of a node that is filtered out");
        }
        ensure_eq!(v.all_neighbours(ni(*n)).count(), 0, "all_neighbours({n}) of a node that is filtered out");
    }
    check_outside(v, base, m, true)
}

fn label(base: &Model, m: &Model, ctx: &mut Ctx) {
    let hidden = base.nodes.len() - m.nodes.len();
    let cut = base.induced(|n| m.nodes.contains_key(&n)).link_count() - m.link_count();
    ctx.label_if(hidden > 0, "node filtered out");
    ctx.label_if(cut > 0, "link filtered out by a port");
    ctx.label_if(m.edges().iter().any(|(a, b)| m.owner(*a) == m.owner(*b)), "visible self-link");
    ctx.nontrivial_if(m.link_count() > 0 && base.link_count() > m.link_count());
}

fn single(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<PortGraph>(&c.g, ctx)?;
    run(c, &d, ctx)
}

fn multi(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<MultiPortGraph>(&c.g, ctx)?;
    run(c, &d, ctx)?;
    let m = restrict(&d.m, c.f1, true);
    check_subports(&filt(&d.g, c.f1), &m)?;
    check_outside_subports(&filt(&d.g, c.f1), &d.m, &m)?;
    let m2 = restrict(&m, c.f2, true);
    check_subports(&filt(filt(&d.g, c.f1), c.f2), &m2)?;
    // Links out of the view, by subport.
    let v = filt(&d.g, c.f1);
    for n in m.node_ids() {
        for e in v.all_subports(ni(n)) {
            ensure_eq!(v.subport_link(e).map(|x| x.ep()), m.links.get(&e.ep()).copied(), "subport_link({:?})", e.ep());
        }
    }
    Ok(())
}

fn run<G: TestGraph>(c: &Case, d: &Driver<G>, ctx: &mut Ctx) -> TR {
    let (g, base) = (&d.g, &d.m);
    match c.kind {
        // Only a node filter.
        0 => {
            let v: NodeFiltered<_, NodeFilter<Cx>, Cx> = NodeFiltered::new_node_filtered(g, nf, c.f1);
            let m = restrict(base, c.f1, false);
            label(base, &m, ctx);
            ensure_eq!(*v.context(), c.f1, "context");
            one(&v, base, &m)
        }
        // A filtered filtered graph.
        1 => {
            let m = restrict(&restrict(base, c.f1, true), c.f2, true);
            label(base, &m, ctx);
            one(&filt(filt(g, c.f1), c.f2), base, &m)
        }
        // A filtered region.
        2 if !base.nodes.is_empty() => {
            let ids = base.node_ids();
            let (h, f) = make_forest(&ids, &c.forest);
            let r = ids[c.sel as usize % ids.len()];
            let m = restrict(&base.induced(|n| f.within(n, r)), c.f1, true);
            label(base, &m, ctx);
            ctx.label("filtered region");
            one(&filt(Region::new(g, &h, ni(r)), c.f1), base, &m)
        }
        // A filtered subgraph.
        3 => {
            let keep: Vec<NodeIndex> = base.node_ids().into_iter().filter(|n| bit16(c.sel, n)).map(ni).collect();
            let m = restrict(&base.induced(|n| keep.contains(&ni(n))), c.f1, true);
            label(base, &m, ctx);
            ctx.label("filtered subgraph");
            one(&filt(Subgraph::with_nodes(g, keep), c.f1), base, &m)
        }
        // A copy of the view by value, and by reference.
        4 => {
            let m = restrict(base, c.f1, true);
            label(base, &m, ctx);
            let v = filt(d.g.clone(), c.f1);
            one(&&v, base, &m)?;
            one(&v.clone(), base, &m)
        }
        _ => {
            let m = restrict(base, c.f1, true);
            label(base, &m, ctx);
            one(&filt(g, c.f1), base, &m)
        }
    }
}

fn main() {
    let mut c = Check::start(
        "C16",
        "a random graph under random node and port filters (context-dependent), also filtered twice, over a region \
         and over a subgraph: every query equals the model restricted by the filters; non-trivial: some links \
         visible and some hidden",
    );
    c.run("single", 400_000, 10_000_000, |_| case(false), single);
    c.run("multi", 300_000, 8_000_000, |_| case(false), multi);
    c.run("large_single", 5_000, 200_000, |_| case(true), single);
    c.run("large_multi", 5_000, 200_000, |_| case(true), multi);
    c.finish()
}
