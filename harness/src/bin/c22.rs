//! C22: topological sorting.
use std::collections::{BTreeSet, HashSet};

use bitvec::vec::BitVec;
use pgv::deep::*;
use pgv::{bit16, bit32};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::algorithms::{toposort, toposort_filtered, TopoSort};
use portgraph::view::Subgraph;
use portgraph::{Direction, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex, SecondaryMap, UnmanagedDenseMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    incoming: bool,
    /// 0: all roots, 1: any nodes, 2: roots, some of them added later.
    sources: u8,
    sel: u16,
    later: u16,
    /// Filter masks.
    nodes: u32,
    ports: u32,
    map: u8,
    view: u16,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    let mask = || prop_oneof![2 => Just(u32::MAX), 3 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a | b | c), 1 => any::<u32>()];
    (
        sized(big, Some(true), prop_oneof![
            3 => spec(SpecParams { nodes: 9, links: 18, acyclic: Some(true), ..SpecParams::default() }),
            1 => spec(SpecParams { nodes: 9, links: 14, acyclic: None, ..SpecParams::default() }),
        ]),
        any::<bool>(),
        0u8..4,
        any::<u16>(),
        any::<u16>(),
        mask(),
        mask(),
        0u8..4,
        prop_oneof![3 => Just(u16::MAX), 1 => any::<u16>()],
    )
        .prop_map(|(g, incoming, sources, sel, later, nodes, ports, map, view)| Case {
            g,
            incoming,
            sources,
            sel,
            later,
            nodes,
            ports,
            map,
            view,
        })
}

/// A set stored by what it does not contain: its default is `true`.
struct Inverted<K>(HashSet<K>);
impl<K: std::hash::Hash + Eq + Clone> SecondaryMap<K, bool> for Inverted<K> {
    type Iter<'a>
        = std::iter::Map<std::collections::hash_set::Iter<'a, K>, fn(&'a K) -> (K, &'a bool)>
    where
        K: 'a;
    fn new() -> Self {
        Inverted(HashSet::new())
    }
    fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn default_value(&self) -> bool {
        true
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        usize::MAX
    }
    fn get(&self, key: K) -> &bool {
        if self.0.contains(&key) {
            &false
        } else {
            &true
        }
    }
    fn set(&mut self, key: K, val: bool) {
        if val {
            self.0.remove(&key);
        } else {
            self.0.insert(key);
        }
    }
    fn take(&mut self, key: K) -> bool {
        !self.0.remove(&key)
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        K: 'a,
    {
        self.0.iter().map(|k| (k.clone(), &false))
    }
}

/// What Kahn's algorithm can reach: sources, and nodes all of whose
/// predecessors (at least one) are reached.
fn closure(m: &Model, d: usize, sources: &[usize]) -> BTreeSet<usize> {
    let mut out: BTreeSet<usize> = sources.iter().copied().collect();
    loop {
        let more: Vec<usize> = m
            .node_ids()
            .into_iter()
            .filter(|n| !out.contains(n))
            .filter(|n| {
                let p = preds(m, d, *n);
                !p.is_empty() && p.iter().all(|x| out.contains(x))
            })
            .collect();
        if more.is_empty() {
            return out;
        }
        out.extend(more);
    }
}
fn preds(m: &Model, d: usize, n: usize) -> Vec<usize> {
    m.links_of(n, 1 - d).into_iter().map(|(_, b)| m.owner(b)).collect()
}

fn drain_topo<G: LinkView, M: SecondaryMap<PortIndex, bool>>(t: &mut TopoSort<'_, G, M>, max: usize) -> Result<Vec<usize>, String> {
    let mut out = vec![];
    let mut hints = vec![];
    loop {
        hints.push(t.size_hint());
        match t.next() {
            None => break,
            Some(n) => out.push(n.index()),
        }
        ensure!(out.len() <= max, "the sort yields more than {max} nodes: {out:?}");
    }
    ensure!(t.next().is_none(), "the sort yields nodes after None");
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let rest = out.len() - i;
        ensure!(*lo <= rest && hi.map_or(true, |h| rest <= h), "size_hint {:?} with {rest} nodes left", (lo, hi));
    }
    Ok(out)
}

fn sorted_right(m: &Model, d: usize, seq: &[usize], sources: &BTreeSet<usize>) -> TR {
    let set: BTreeSet<usize> = seq.iter().copied().collect();
    ensure_eq!(set.len(), seq.len(), "nodes yielded once: {seq:?}");
    let pos = |n: usize| seq.iter().position(|x| *x == n);
    for (i, &n) in seq.iter().enumerate().filter(|(_, n)| !sources.contains(n)) {
        for p in preds(m, d, n) {
            ensure!(pos(p).is_some_and(|j| j < i), "node {n} comes before its predecessor {p} in {seq:?}");
        }
    }
    Ok(())
}

fn with_map<G: LinkView, M: SecondaryMap<PortIndex, bool>>(c: &Case, g: &G, m: &Model, ctx: &mut Ctx) -> Result<Vec<usize>, String> {
    let d = if c.incoming { IN } else { OUT };
    let ids = m.node_ids();
    let max = 2 * ids.len() + 2;
    let bit = |sel: u16, k: usize| bit16(sel, k);
    let roots: Vec<usize> = ids.iter().copied().filter(|n| preds(m, d, *n).is_empty()).collect();
    let sources: Vec<usize> = match c.sources {
        0 | 3 => roots.clone(),
        1 => ids.iter().copied().filter(|n| bit(c.sel, *n)).collect(),
        _ => roots.iter().copied().filter(|n| bit(c.sel, *n)).collect(),
    };
    let src = || sources.iter().map(|n| ni(*n));
    if c.sources == 3 {
        // Filtered.
        let mut fm = m.induced(|n| bit32(c.nodes, n));
        fm.links.retain(|a, b| [a, b].iter().all(|x| bit32(c.ports, x.0)));
        let froots: Vec<usize> = fm.node_ids().into_iter().filter(|n| preds(&fm, d, *n).is_empty()).collect();
        // Sources that the filter must drop are given too.
        let given: Vec<usize> = ids.iter().copied().filter(|n| froots.contains(n) || !fm.nodes.contains_key(n)).collect();
        let bad = std::cell::Cell::new(None);
        // Some of them only after the first ones are sorted.
        let late = c.later % 2 == 1;
        let (now, then): (Vec<usize>, Vec<usize>) = given.iter().partition(|n| !late || bit(c.sel, **n));
        let mut t: TopoSort<_, M> = toposort_filtered(
            g,
            now.iter().map(|n| ni(*n)),
            dir(d),
            |n| bit32(c.nodes, n.index()),
            |n, p| {
                if m.ports.get(&p.index()).map(|x| x.0) != Some(n.index()) {
                    bad.set(Some((n, p)));
                }
                bit32(c.ports, p.index())
            },
        );
        let mut seq = drain_topo(&mut t, max)?;
        if late {
            t.add_sources(then.iter().map(|n| ni(*n)));
            let rest = drain_topo(&mut t, max)?;
            ctx.label_if(!rest.is_empty(), "added sources to a filtered sort");
            seq.extend(rest);
        }
        // Nodes without ports leave no trace that the sort could remember.
        let lost: Vec<usize> = then.iter().copied().filter(|n| fm.nodes.contains_key(n) && m.nodes[n].ports.iter().all(|p| p.is_empty())).collect();
        seq.extend(lost.iter().filter(|n| !seq.contains(n)).copied().collect::<Vec<_>>());
        drop(t);
        ensure!(bad.get().is_none(), "the port filter was called with {:?}", bad.get());
        let set: BTreeSet<usize> = froots.iter().copied().collect();
        sorted_right(&fm, d, &seq, &set)?;
        let got: BTreeSet<usize> = seq.iter().copied().collect();
        ensure_eq!(got, closure(&fm, d, &froots), "nodes of the filtered sort");
        ctx.label("filtered");
        ctx.nontrivial_if(fm.link_count() > 1 && fm.link_count() < m.link_count());
        return Ok(seq);
    }
    let mut t: TopoSort<_, M> = toposort(g, src(), dir(d));
    let mut seq = drain_topo(&mut t, max)?;
    let mut all: BTreeSet<usize> = sources.iter().copied().collect();
    sorted_right(m, d, &seq, &all)?;
    ensure_eq!(seq.iter().copied().collect::<BTreeSet<_>>(), closure(m, d, &sources), "nodes of the sort from {sources:?}");
    if c.sources == 2 {
        // More sources, some of which were visited. Nodes without ports leave
        // no trace that the sort could remember.
        let more: Vec<usize> = ids
            .iter()
            .copied()
            .filter(|n| bit(c.later, *n) && (roots.contains(n) || seq.contains(n)))
            .filter(|n| !m.nodes[n].ports.iter().all(|p| p.is_empty()))
            .collect();
        t.add_sources(more.iter().map(|n| ni(*n)));
        let rest = drain_topo(&mut t, max)?;
        ctx.label_if(!rest.is_empty(), "added sources");
        seq.extend(rest);
        all.extend(more);
        sorted_right(m, d, &seq, &all)?;
        let v: Vec<usize> = all.iter().copied().collect();
        ensure_eq!(seq.iter().copied().collect::<BTreeSet<_>>(), closure(m, d, &v), "nodes of the sort after adding {v:?}");
    }
    if c.sources == 0 {
        let left = t.ports_remaining().count();
        if seq.len() == ids.len() {
            ensure_eq!(left, 0, "ports remaining after a complete sort");
        } else {
            ensure!(left > 0, "no ports remaining although only {seq:?} were visited");
            ctx.label("cycle");
        }
    }
    ctx.label_if(m.links.keys().any(|h| m.ports[&h.0].1 != d && m.port_links(h.0).len() > 1), "several links into one port");
    ctx.nontrivial_if(seq.len() > 3 && m.link_count() > 3);
    Ok(seq)
}

fn with_graph<G: LinkView>(c: &Case, g: &G, m: &Model, ctx: &mut Ctx) -> TR {
    let a = with_map::<G, BitVec>(c, g, m, ctx)?;
    let b = match c.map {
        0 => with_map::<G, HashSet<PortIndex>>(c, g, m, ctx)?,
        1 => with_map::<G, UnmanagedDenseMap<PortIndex, bool>>(c, g, m, ctx)?,
        2 => with_map::<G, Inverted<PortIndex>>(c, g, m, ctx)?,
        _ => with_map::<G, BitVec>(c, g, m, ctx)?,
    };
    ensure_eq!(b, a, "order with another visited map");
    Ok(())
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let _ = Direction::Incoming;
    if c.view == u16::MAX {
        with_graph(c, &d.g, &d.m, ctx)
    } else {
        let keep: Vec<NodeIndex> = d.m.node_ids().into_iter().filter(|n| bit16(c.view, n)).map(ni).collect();
        let m = d.m.induced(|n| keep.contains(&ni(n)));
        ctx.label("subgraph");
        with_graph(c, &Subgraph::with_nodes(&d.g, keep), &m, ctx)
    }
}

/// A chain has one topological order, whatever its length.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = c.graph::<PortGraph>()?;
    let got: Vec<NodeIndex> = toposort::<_, std::collections::HashSet<portgraph::PortIndex>>(&g, [order[0]], Direction::Outgoing).take(order.len() + 1).collect();
    ensure!(got == order, "toposort of a chain of {} nodes", c.n);
    let mut got: Vec<NodeIndex> = toposort::<_, std::collections::HashSet<portgraph::PortIndex>>(&g, [order[order.len() - 1]], Direction::Incoming).take(order.len() + 1).collect();
    got.reverse();
    ensure!(got == order, "toposort against a chain of {} nodes", c.n);
    if c.skip.is_none() {
        let cut = c.at()[0];
        let got: Vec<NodeIndex> =
            toposort_filtered::<_, std::collections::HashSet<portgraph::PortIndex>>(&g, [order[0]], Direction::Outgoing, |n| n != order[cut], |_, _| true).take(order.len() + 1).collect();
        ensure!(got == order[..cut], "toposort of a chain of {} nodes without node {cut}", c.n);
    }
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C22",
        "a random graph or subgraph (mostly acyclic), sorted in either direction from all roots, arbitrary nodes, in \
         two steps, or under node and port filters, with four kinds of visited map: the nodes are those Kahn's \
         algorithm can reach, once each, after all their predecessors; non-trivial: more than three nodes and links \
         sorted, or a filter that hides some but not all links",
    );
    c.run("single", 400_000, 12_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 400_000, 12_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
