//! C18: subgraphs show exactly their nodes and the links between them, and know their boundary.
use std::collections::BTreeSet;

use portgraph::{Direction, PortView};
use pgv::deep::*;
use pgv::{bit16, bit32};
use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::algorithms::{ConvexChecker, LineConvexChecker, TopoConvexChecker};
use portgraph::boundary::{Boundary, HasBoundary};
use portgraph::view::{Region, Subgraph};
use portgraph::{LinkView, MultiPortGraph, NodeIndex, PortGraph};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    sel: u16,
    shuffle: Vec<u16>,
    kind: u8,
    forest: Vec<(u16, u8)>,
    /// Free ports added to an explicit boundary, order of its ports.
    extra: u32,
    rot: u8,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, None, spec(SpecParams { nodes: 9, links: 18, ..SpecParams::default() })),
        prop_oneof![(any::<u16>(), any::<u16>()).prop_map(|(a, b)| a | b), any::<u16>()],
        prop::collection::vec(any::<u16>(), 9),
        0u8..6,
        prop::collection::vec((any::<u16>(), any::<u8>()), 9),
        any::<u32>(),
        any::<u8>(),
    )
        .prop_map(|(g, sel, shuffle, kind, forest, extra, rot)| Case { g, sel, shuffle, kind, forest, extra, rot })
}

const OPTS: ViewOpts = ViewOpts { absent: true, pairs: true, ports: true };

fn one<V: LinkView<LinkEndpoint: Ep>>(v: &V, base: &Model, m: &Model) -> TR {
    check_view(v, m, OPTS)?;
    check_outside(v, base, m, false)
}

trait Sub: TestGraph {
    fn subs(_v: &Subgraph<&Self>, _m: &Model) -> TR {
        Ok(())
    }
}
impl Sub for PortGraph {}
impl Sub for MultiPortGraph {
    fn subs(v: &Subgraph<&Self>, m: &Model) -> TR {
        check_subports(v, m)
    }
}
fn crosses(base: &Model, keep: &BTreeSet<usize>, p: usize) -> bool {
    base.port_links(p).iter().any(|(_, b)| !keep.contains(&base.owner(*b)))
}

/// Nodes that lie on a path that leaves the set and comes back.
fn convex(base: &Model, keep: &BTreeSet<usize>) -> bool {
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = keep.iter().flat_map(|n| base.succ(*n)).filter(|n| !keep.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if keep.contains(&n) {
            return false;
        }
        if seen.insert(n) {
            todo.extend(base.succ(n));
        }
    }
    true
}

fn go<G: Sub>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let (g, base) = (&d.g, &d.m);
    let mut ids: Vec<usize> = base.node_ids().into_iter().filter(|n| bit16(c.sel, n)).collect();
    for (i, s) in c.shuffle.iter().enumerate().take(ids.len()) {
        let j = i + *s as usize % (ids.len() - i);
        ids.swap(i, j);
    }
    let keep: BTreeSet<usize> = ids.iter().copied().collect();
    let m = base.induced(|n| keep.contains(&n));
    let nodes: Vec<NodeIndex> = ids.iter().map(|n| ni(*n)).collect();
    let cut: Vec<usize> = base.port_ids().into_iter().filter(|p| m.ports.contains_key(p) && crosses(base, &keep, *p)).collect();
    // Ports with links on both sides have no clear place in a boundary.
    let mixed = cut.iter().any(|p| base.port_links(*p).len() > m.port_links(*p).len() && !m.port_links(*p).is_empty());
    ctx.label_if(mixed, "port with links on both sides");
    ctx.nontrivial_if(!cut.is_empty() && m.link_count() > 0);
    match c.kind {
        0..=2 => {
            let v = Subgraph::with_nodes(g, nodes.clone());
            one(&v, base, &m)?;
            G::subs(&v, &m)?;
            // The boundary: crossing ports in the given order of the nodes.
            let want = |d: usize| -> Vec<usize> {
                ids.iter().flat_map(|n| base.nodes[n].ports[d].iter().copied()).filter(|p| cut.contains(p)).collect()
            };
            let b = v.port_boundary().into_owned();
            let got: Vec<usize> = b.input_indices().iter().map(|p| p.index()).collect();
            ensure_eq!(got, want(IN), "boundary inputs");
            let got: Vec<usize> = b.output_indices().iter().map(|p| p.index()).collect();
            ensure_eq!(got, want(OUT), "boundary outputs");
            // Convexity, also with given checkers.
            if c.g.acyclic && !mixed {
                let want = convex(base, &keep);
                ensure_eq!(v.is_convex(), want, "is_convex of {keep:?}");
                ensure_eq!(v.is_convex_with_checker(&TopoConvexChecker::new(g)), want, "is_convex of {keep:?}, topological checker");
                ensure_eq!(v.is_convex_with_checker(&LineConvexChecker::new(g)), want, "is_convex of {keep:?}, line checker");
                ctx.label(if want { "convex" } else { "not convex" });
                let t = TopoConvexChecker::new(g);
                ensure_eq!(t.is_convex(nodes.iter().copied(), b.input_indices().to_vec(), b.output_indices().to_vec()), want, "checker");
            }
            let w = v.clone();
            ensure!(v == w, "a clone differs from the subgraph");
            // Inside another view.
            if c.kind == 2 && !base.nodes.is_empty() {
                let all = base.node_ids();
                let (h, f) = make_forest(&all, &c.forest);
                let r = all[c.extra as usize % all.len()];
                let region = Region::new(g, &h, ni(r));
                let inside: Vec<usize> = ids.iter().copied().filter(|n| f.within(*n, r)).collect();
                let m = base.induced(|n| inside.contains(&n));
                ctx.label("subgraph of a region");
                one(&Subgraph::with_nodes(&region, inside.iter().map(|n| ni(*n))), base, &m)?;
                // A subgraph of a subgraph.
                let v2 = Subgraph::with_nodes(&v, inside.iter().map(|n| ni(*n)));
                one(&v2, base, &m)?;
                let cut2: BTreeSet<usize> = v2.port_boundary().port_indices().map(|p| p.index()).collect();
                let set: BTreeSet<usize> = inside.iter().copied().collect();
                let base2 = base.induced(|n| keep.contains(&n));
                let want: BTreeSet<usize> = m.port_ids().into_iter().filter(|p| crosses(&base2, &set, *p)).collect();
                ensure_eq!(cut2, want, "boundary of the inner subgraph");
            }
        }
        _ => {
            // By an explicit boundary: the crossing ports and some free ones.
            // Only components of the set that touch the boundary count.
            if mixed {
                return Ok(());
            }
            let mut bports: Vec<usize> = cut.clone();
            for (k, p) in m.port_ids().into_iter().enumerate() {
                if base.port_links(p).is_empty() && bit32(c.extra, k) {
                    bports.push(p);
                    ctx.label("free boundary port");
                }
            }
            if !bports.is_empty() {
                let r = c.rot as usize % bports.len();
                bports.rotate_left(r);
            }
            let mut inside: BTreeSet<usize> = bports.iter().map(|p| base.ports[p].0).collect();
            let mut todo: Vec<usize> = inside.iter().copied().collect();
            while let Some(n) = todo.pop() {
                for x in m.succ(n).into_iter().chain(m.pred(n)) {
                    if inside.insert(x) {
                        todo.push(x);
                    }
                }
            }
            if bports.is_empty() {
                ctx.label("empty boundary");
                inside = base.nodes.keys().copied().collect();
            }
            ctx.label_if(inside.len() > bports.iter().map(|p| base.ports[p].0).collect::<BTreeSet<_>>().len(), "interior node");
            let m = base.induced(|n| inside.contains(&n));
            let b = Boundary::from_ports(g, bports.iter().map(|p| pi(*p)));
            let v = Subgraph::new_subgraph(g, b.clone());
            one(&v, base, &m)?;
            G::subs(&v, &m)?;
            ensure!(*v.port_boundary() == b, "port_boundary is not the given one");
            if c.g.acyclic {
                ensure_eq!(v.is_convex(), convex(base, &inside), "is_convex of {inside:?}");
            }
        }
    }
    Ok(())
}

/// A long stretch of a chain as a subgraph, given by its boundary.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = Deep { skip: None, ..c.clone() }.graph::<PortGraph>()?;
    let at = c.at();
    let (a, b) = (at[0], at[at.len() - 1]);
    let (i, o) = (port(&g, order[a], Direction::Incoming, 0), port(&g, order[b], Direction::Outgoing, 0));
    let s = Subgraph::new_subgraph(&g, Boundary::new([i], [o]));
    ensure_eq!(s.node_count(), b + 1 - a, "nodes between {a} and {b} of a chain of {}", c.n);
    let mut seen: Vec<NodeIndex> = s.nodes_iter().take(order.len() + 1).collect();
    let mut want = order[a..=b].to_vec();
    seen.sort();
    want.sort();
    ensure!(seen == want, "nodes between {a} and {b} of a chain of {}", c.n);
    ensure!(s.is_convex(), "nodes between {a} and {b} of a chain of {} are not convex", c.n);
    let o = s.port_boundary().port_ordering(&g);
    ensure!(o.is_stronger_than(&o), "port ordering of a long chain");
    ctx.nontrivial_if(a < b);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C18",
        "a random node set (in random order) or boundary of a random graph, also within a region or another subgraph: \
         every query equals the induced model, the boundary is the set of crossing ports, is_convex (acyclic graphs) \
         means no path leaves and returns; non-trivial: links inside and links crossing the boundary",
    );
    c.run("single", 300_000, 6_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 200_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
