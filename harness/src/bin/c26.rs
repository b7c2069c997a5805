//! C26: convexity checkers.
use std::collections::BTreeSet;

use pgv::deep::*;
use pgv::{bit16, bit32};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::algorithms::{ConvexChecker, CreateConvexChecker, LineConvexChecker, TopoConvexChecker};
use portgraph::view::Subgraph;
use portgraph::{LinkView, MultiPortGraph, NodeIndex, PortGraph};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Query {
    /// Selected by index, by position in a topological order window, or both.
    sel: u32,
    window: Option<(u8, u8)>,
    perm: u8,
    ins: u32,
    outs: u32,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    view: u16,
    queries: Vec<Query>,
}

fn query() -> impl Strategy<Value = Query> {
    let sparse = || prop_oneof![2 => Just(0u32), 2 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a & b & c), 2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)];
    (
        prop_oneof![(any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b), (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b), any::<u32>(), Just(u32::MAX)],
        prop_oneof![1 => Just(None), 2 => (any::<u8>(), 1u8..7).prop_map(Some)],
        any::<u8>(),
        sparse(),
        sparse(),
    )
        .prop_map(|(sel, window, perm, ins, outs)| Query { sel, window, perm, ins, outs })
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, Some(true), prop_oneof![
            3 => spec(SpecParams { nodes: 9, links: 16, acyclic: Some(true), ..SpecParams::default() }),
            1 => spec(SpecParams { nodes: 20, links: 34, acyclic: Some(true), ..SpecParams::default() }),
        ]),
        prop_oneof![3 => Just(u16::MAX), 1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a | b)],
        prop::collection::vec(query(), 1..=5),
    )
        .prop_map(|(g, view, queries)| Case { g, view, queries })
}

/// Is there a path between two nodes of the set through a node outside?
fn node_convex(m: &Model, keep: &BTreeSet<usize>) -> bool {
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = keep.iter().flat_map(|n| m.succ(*n)).filter(|n| !keep.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if keep.contains(&n) {
            return false;
        }
        if seen.insert(n) {
            todo.extend(m.succ(n));
        }
    }
    true
}

fn depth_order(m: &Model) -> Vec<usize> {
    let mut left: Vec<usize> = m.node_ids();
    let mut out: Vec<usize> = vec![];
    while !left.is_empty() {
        let (now, later): (Vec<usize>, Vec<usize>) = left.iter().partition(|n| m.pred(**n).iter().all(|p| out.contains(p)));
        if now.is_empty() {
            return out;
        }
        out.extend(now);
        left = later;
    }
    out
}

fn ask<G: LinkView + Clone>(g: G, m: &Model, c: &Case, ctx: &mut Ctx) -> TR {
    let topo = TopoConvexChecker::new(g.clone());
    let line = LineConvexChecker::new(g.clone());
    let made: TopoConvexChecker<G> = CreateConvexChecker::new_convex_checker(g.clone());
    #[allow(deprecated)]
    let own = made.graph();
    ensure_eq!(own.node_count(), m.nodes.len(), "graph of the checker");
    let also: LineConvexChecker<G> = CreateConvexChecker::new_convex_checker(g.clone());
    ensure_eq!(CreateConvexChecker::graph(&also).node_count(), m.nodes.len(), "graph of the checker");
    ensure_eq!(CreateConvexChecker::graph(&made).node_count(), m.nodes.len(), "graph of the checker");
    let order = depth_order(m);
    for q in &c.queries {
        let mut ids: Vec<usize> = match q.window {
            Some((from, len)) if !order.is_empty() => {
                let from = from as usize % order.len();
                let to = (from + len as usize).min(order.len());
                order[from..to].iter().copied().filter(|n| bit32(q.sel, n)).collect()
            }
            _ => m.node_ids().into_iter().filter(|n| bit32(q.sel, n)).collect(),
        };
        if !ids.is_empty() {
            let r = q.perm as usize % ids.len();
            ids.rotate_left(r);
        }
        let keep: BTreeSet<usize> = ids.iter().copied().collect();
        let nodes: Vec<NodeIndex> = ids.iter().map(|n| ni(*n)).collect();
        let want = node_convex(m, &keep);
        ensure_eq!(topo.is_node_convex(nodes.iter().copied()), want, "TopoConvexChecker::is_node_convex of {ids:?}");
        ensure_eq!(line.is_node_convex(nodes.iter().copied()), want, "LineConvexChecker::is_node_convex of {ids:?}");

        // A lazy iterator whose closure asks the same checker.
        let asked = |f: &dyn Fn(NodeIndex) -> bool, n: NodeIndex, bad: &mut bool| {
            *bad |= !f(n);
            n
        };
        let mut bad = false;
        let got = topo.is_node_convex(nodes.iter().map(|n| asked(&|n| topo.is_node_convex([n]), *n, &mut bad)));
        ensure!(!bad && got == want, "TopoConvexChecker::is_node_convex of {ids:?} with nested queries: {got}");
        let got = line.is_node_convex(nodes.iter().map(|n| asked(&|n| line.is_node_convex([n]), *n, &mut bad)));
        ensure!(!bad && got == want, "LineConvexChecker::is_node_convex of {ids:?} with nested queries: {got}");

        let ports = |d: usize, mask: u32| -> Vec<usize> {
            ids.iter().flat_map(|n| m.nodes[n].ports[d].iter().copied()).enumerate().filter(|(k, _)| bit32(mask, k)).map(|x| x.1).collect()
        };
        let (ins, outs) = (ports(IN, q.ins), ports(OUT, q.outs));
        let loops = outs.iter().any(|o| m.port_links(*o).iter().any(|(_, i)| ins.contains(&i.0)));
        let want2 = want && !loops;
        let (pins, pouts) = (|| ins.iter().map(|p| pi(*p)), || outs.iter().map(|p| pi(*p)));
        ensure_eq!(topo.is_convex(nodes.iter().copied(), pins(), pouts()), want2, "TopoConvexChecker::is_convex of {ids:?}, {ins:?}, {outs:?}");
        ensure_eq!(line.is_convex(nodes.iter().copied(), pins(), pouts()), want2, "LineConvexChecker::is_convex of {ids:?}, {ins:?}, {outs:?}");
        ctx.label(if want { "convex" } else { "not convex" });
        ctx.label_if(want && loops, "only an output linked to an input");
        ctx.nontrivial_if(keep.len() > 1 && keep.len() < m.nodes.len() && m.link_count() > 3);
    }
    Ok(())
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    if c.view == u16::MAX {
        ask(&d.g, &d.m, c, ctx)
    } else {
        let keep: BTreeSet<usize> = d.m.node_ids().into_iter().filter(|n| bit16(c.view, n)).collect();
        let m = d.m.induced(|n| keep.contains(&n));
        let v = Subgraph::with_nodes(&d.g, keep.iter().map(|n| ni(*n)));
        ctx.label("in a subgraph");
        ask(v, &m, c, ctx)
    }
}

/// Stretches of a chain are convex, unless a node is missing.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = c.graph::<PortGraph>()?;
    let topo = TopoConvexChecker::new(&g);
    let line = LineConvexChecker::new(&g);
    let at = c.at();
    let (a, b) = (at[0], at[at.len() - 1]);
    let all = || order[a..=b].iter().copied();
    ensure!(topo.is_node_convex(all()), "TopoConvexChecker: nodes {a} to {b} of a chain of {}", c.n);
    ensure!(line.is_node_convex(all()), "LineConvexChecker: nodes {a} to {b} of a chain of {}", c.n);
    for k in &at {
        let want = *k == a || *k == b;
        let some = || all().filter(|n| *n != order[*k]);
        ensure_eq!(topo.is_node_convex(some()), want, "TopoConvexChecker: nodes {a} to {b} of a chain of {} without {k}", c.n);
        ensure_eq!(line.is_node_convex(some()), want, "LineConvexChecker: nodes {a} to {b} of a chain of {} without {k}", c.n);
    }
    if a + 1 < b {
        ensure!(!topo.is_node_convex([order[a], order[b]]), "TopoConvexChecker: nodes {a} and {b} of a chain of {}", c.n);
        ensure!(!line.is_node_convex([order[a], order[b]]), "LineConvexChecker: nodes {a} and {b} of a chain of {}", c.n);
    }
    ctx.nontrivial_if(a + 1 < b);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C26",
        "several random queries (node set in any order, subsets of its ports) to one checker over a random acyclic \
         graph or subgraph; both checkers must agree with path search; non-trivial: a proper subset of more than one \
         node in a graph with more than three links",
    );
    c.run("single", 250_000, 7_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 250_000, 7_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
