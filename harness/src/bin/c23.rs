//! C23: post-order traversal.
use std::collections::BTreeSet;

use portgraph::{Direction, NodeIndex};
use pgv::deep::*;
use pgv::bit32;
use pgv::gen::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{bounded, ensure, ensure_eq};
use portgraph::algorithms::{postorder, postorder_filtered};
use portgraph::PortGraph;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    incoming: bool,
    sources: Vec<u16>,
    nodes: u32,
    ports: u32,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    let mask = || prop_oneof![1 => Just(u32::MAX), 3 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a | b | c), 1 => any::<u32>()];
    (
        sized(big, None, prop_oneof![
            spec(SpecParams { nodes: 9, links: 18, ..SpecParams::default() }),
            spec(SpecParams { nodes: 16, links: 40, ports: 4, ..SpecParams::default() }),
        ]),
        any::<bool>(),
        prop_oneof![3 => prop::collection::vec(any::<u16>(), 1..=1), 2 => prop::collection::vec(any::<u16>(), 0..=4)],
        mask(),
        mask(),
    )
        .prop_map(|(g, incoming, sources, nodes, ports)| Case { g, incoming, sources, nodes, ports })
}

/// Recursive depth-first search that follows the ports in order.
fn dfs(m: &Model, d: usize, n: usize, seen: &mut BTreeSet<usize>, out: &mut Vec<usize>) {
    if !seen.insert(n) {
        return;
    }
    for p in &m.nodes[&n].ports[d] {
        for (_, b) in m.port_links(*p) {
            dfs(m, d, m.owner(b), seen, out);
        }
    }
    out.push(n);
}

fn drained(mut it: portgraph::algorithms::PostOrder<'_>, max: usize) -> Result<Vec<usize>, String> {
    let mut hints = vec![it.size_hint()];
    let mut out = vec![];
    while let Some(n) = it.next() {
        out.push(n.index());
        hints.push(it.size_hint());
        ensure!(out.len() <= max, "the traversal yields more than {max} nodes");
    }
    ensure!(bounded(it, 3, "traversal after its end")?.is_empty(), "the traversal yields nodes after its end");
    for (i, (lo, hi)) in hints.into_iter().enumerate() {
        let left = out.len() - i;
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "size_hint {:?} with {left} nodes left", (lo, hi));
    }
    Ok(out)
}

fn go(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<PortGraph>(&c.g, ctx)?;
    let (g, m) = (&d.g, &d.m);
    let ids = m.node_ids();
    if ids.is_empty() {
        return Ok(());
    }
    let di = if c.incoming { IN } else { OUT };
    let sources: Vec<usize> = c.sources.iter().filter_map(|s| m.start(di, *s)).collect();
    let model = |m: &Model, from: &[usize]| {
        let (mut seen, mut out) = (BTreeSet::new(), vec![]);
        for &s in from {
            dfs(m, di, s, &mut seen, &mut out);
        }
        out
    };
    let want = model(m, &sources);
    let got = drained(postorder(g, sources.iter().map(|n| ni(*n)), dir(di)), ids.len())?;
    ensure_eq!(got, want, "postorder from {sources:?}");

    let nf = |n: usize| bit32(c.nodes, n);
    let pf = |p: usize| bit32(c.ports, p);
    let mut fm = m.induced(nf);
    fm.links.retain(|a, b| pf(a.0) && pf(b.0));
    let fsrc: Vec<usize> = sources.iter().copied().filter(|n| nf(*n)).collect();
    let fwant = model(&fm, &fsrc);
    let bad = std::cell::Cell::new(None);
    let got = drained(
        postorder_filtered(
            g,
            sources.iter().map(|n| ni(*n)),
            dir(di),
            |n| nf(n.index()),
            |n, p| {
                if m.ports.get(&p.index()).map(|x| x.0) != Some(n.index()) {
                    bad.set(Some((n, p)));
                }
                pf(p.index())
            },
        ),
        ids.len(),
    )?;
    ensure!(bad.get().is_none(), "the port filter was called with {:?}", bad.get());
    ensure_eq!(got, fwant, "postorder_filtered from {sources:?}");
    ctx.label_if(!fwant.is_empty() && fwant.len() < want.len(), "filter hides reachable nodes");
    ctx.label_if(c.incoming, "incoming");
    ctx.label_if(sources.len() > 1, "several sources");
    ctx.nontrivial_if(want.len() > 3);
    Ok(())
}

/// The traversal of a chain runs to its end and back, whatever its length.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = c.graph::<PortGraph>()?;
    for s in c.at() {
        let mut got: Vec<NodeIndex> = postorder(&g, [order[s]], Direction::Outgoing).take(order.len() + 1).collect();
        got.reverse();
        ensure!(got == order[s..], "postorder along a chain of {} nodes from node {s}", c.n);
        let got: Vec<NodeIndex> = postorder(&g, [order[s]], Direction::Incoming).take(order.len() + 1).collect();
        ensure!(got == order[..=s], "postorder against a chain of {} nodes from node {s}", c.n);
    }
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C23",
        "a random plain graph (cyclic or not, self-loops, parallel links) traversed from random sources in either \
         direction, with and without random node and port filters; the sequence must equal that of a recursive \
         depth-first search in port order; non-trivial: more than three nodes reached",
    );
    c.run("order", 900_000, 30_000_000, |_| case(false), go);
    c.run("large_order", 5_000, 200_000, |_| case(true), go);
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
