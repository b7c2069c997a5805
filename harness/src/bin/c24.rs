//! C24: dominator trees.
use std::collections::{BTreeMap, BTreeSet};

use portgraph::Direction;
use pgv::deep::*;
use pgv::bit32;
use pgv::gen::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::algorithms::{dominators, dominators_filtered, DominatorTree};
use portgraph::index::MaybeNodeIndex;
use portgraph::{NodeIndex, PortGraph, SecondaryMap, UnmanagedDenseMap};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    incoming: bool,
    entry: u16,
    nodes: u32,
    ports: u32,
    map: u8,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    let mask = || prop_oneof![1 => Just(u32::MAX), 3 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a | b | c), 1 => any::<u32>()];
    (
        sized(big, None, prop_oneof![
            spec(SpecParams { nodes: 8, links: 16, ..SpecParams::default() }),
            spec(SpecParams { nodes: 14, links: 32, ports: 4, ..SpecParams::default() }),
        ]),
        any::<bool>(),
        any::<u16>(),
        mask(),
        mask(),
        0u8..3,
    )
        .prop_map(|(g, incoming, entry, nodes, ports, map)| Case { g, incoming, entry, nodes, ports, map })
}

/// A sparse map, as the documentation suggests for sparse indices.
#[derive(Default)]
struct Sparse(BTreeMap<NodeIndex, MaybeNodeIndex<u32>>, MaybeNodeIndex<u32>);
impl SecondaryMap<NodeIndex, MaybeNodeIndex<u32>> for Sparse {
    type Iter<'a> = Box<dyn Iterator<Item = (NodeIndex, &'a MaybeNodeIndex<u32>)> + 'a>;
    fn new() -> Self {
        Self::default()
    }
    fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    fn default_value(&self) -> MaybeNodeIndex<u32> {
        Default::default()
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        usize::MAX
    }
    fn get(&self, key: NodeIndex) -> &MaybeNodeIndex<u32> {
        self.0.get(&key).unwrap_or(&self.1)
    }
    fn set(&mut self, key: NodeIndex, val: MaybeNodeIndex<u32>) {
        self.0.insert(key, val);
    }
    fn take(&mut self, key: NodeIndex) -> MaybeNodeIndex<u32> {
        self.0.remove(&key).unwrap_or_default()
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        NodeIndex: 'a,
    {
        Box::new(self.0.iter().map(|(k, v)| (*k, v)))
    }
}

fn reach(m: &Model, d: usize, from: usize, without: Option<usize>) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if Some(n) != without && seen.insert(n) {
            todo.extend(m.links_of(n, d).into_iter().map(|(_, b)| m.owner(b)));
        }
    }
    seen
}

/// Immediate dominators by definition: `a` dominates `n` when removing `a`
/// makes `n` unreachable; the immediate one is dominated by all the others.
fn idoms(m: &Model, d: usize, entry: usize) -> BTreeMap<usize, usize> {
    let all = reach(m, d, entry, None);
    let mut doms: BTreeMap<usize, BTreeSet<usize>> = all.iter().map(|n| (*n, BTreeSet::new())).collect();
    for a in &all {
        let left = reach(m, d, entry, Some(*a));
        for n in all.iter().filter(|n| *n != a && !left.contains(n)) {
            doms.get_mut(n).unwrap().insert(*a);
        }
    }
    all.iter()
        .filter(|n| **n != entry)
        .map(|n| {
            let i = doms[n].iter().copied().max_by_key(|a| doms[a].len()).unwrap();
            (*n, i)
        })
        .collect()
}

fn compare<M: SecondaryMap<NodeIndex, MaybeNodeIndex<u32>>>(t: &DominatorTree<M>, m: &Model, entry: usize, want: &BTreeMap<usize, usize>, what: &str) -> TR {
    ensure_eq!(t.root(), ni(entry), "{what}: root");
    let top = m.node_ids().last().copied().unwrap_or(0) + 3;
    for n in 0..top {
        let got = t.immediate_dominator(ni(n)).map(|x| x.index());
        ensure_eq!(got, want.get(&n).copied(), "{what} from {entry}: immediate dominator of {n}");
    }
    Ok(())
}

fn with_map<M: SecondaryMap<NodeIndex, MaybeNodeIndex<u32>>>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<PortGraph>(&c.g, ctx)?;
    let (g, m) = (&d.g, &d.m);
    let ids = m.node_ids();
    if ids.is_empty() {
        return Ok(());
    }
    let di = if c.incoming { IN } else { OUT };
    let Some(entry) = m.start(di, c.entry) else { return Ok(()) };
    let want = idoms(m, di, entry);
    let t: DominatorTree<M> = dominators(g, ni(entry), dir(di));
    compare(&t, m, entry, &want, "dominators")?;
    ctx.nontrivial_if(want.len() > 3);
    ctx.label_if(want.values().any(|v| *v != entry), "deep tree");
    ctx.label_if(
        want.keys().any(|n| m.links_of(*n, 1 - di).iter().any(|(_, b)| m.owner(*b) != entry && !want.contains_key(&m.owner(*b)))),
        "unreachable predecessor",
    );

    let nf = |n: usize| n == entry || bit32(c.nodes, n);
    let pf = |p: usize| bit32(c.ports, p);
    let mut fm = m.induced(nf);
    fm.links.retain(|a, b| pf(a.0) && pf(b.0));
    let fwant = idoms(&fm, di, entry);
    let bad = std::cell::Cell::new(None);
    let t: DominatorTree<M> = dominators_filtered(
        g,
        ni(entry),
        dir(di),
        |n| nf(n.index()),
        |n, p| {
            if m.ports.get(&p.index()).map(|x| x.0) != Some(n.index()) {
                bad.set(Some((n, p)));
            }
            pf(p.index())
        },
    );
    ensure!(bad.get().is_none(), "the port filter was called with {:?}", bad.get());
    compare(&t, m, entry, &fwant, "dominators_filtered")?;
    ctx.label_if(fwant != want && !fwant.is_empty(), "filter changes the tree");
    Ok(())
}

fn go(c: &Case, ctx: &mut Ctx) -> TR {
    match c.map {
        0 | 1 => with_map::<UnmanagedDenseMap<NodeIndex, MaybeNodeIndex<u32>>>(c, ctx),
        _ => with_map::<Sparse>(c, ctx),
    }
}

/// Dominators along a chain, whatever its length.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (g, order) = c.graph::<PortGraph>()?;
    let from = c.at()[0] / 2;
    let t: DominatorTree<UnmanagedDenseMap<NodeIndex, MaybeNodeIndex<u32>>> = dominators(&g, order[from], Direction::Outgoing);
    for k in from..order.len() {
        // A node passed over does not dominate.
        let want = match k {
            _ if k == from => None,
            _ if k >= from + 2 && c.skips(k - 2) => Some(order[k - 2]),
            _ => Some(order[k - 1]),
        };
        ensure!(t.immediate_dominator(order[k]) == want, "dominator of node {k} of a chain of {} nodes from {from}", c.n);
    }
    ctx.nontrivial_if(from + 2 < order.len());
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C24",
        "a random plain graph (cyclic or not), entry node, direction, node and port filters and map type; immediate \
         dominators must be those of the definition (removing the dominator makes the node unreachable); non-trivial: \
         more than three nodes reached",
    );
    c.run("tree", 500_000, 15_000_000, |_| case(false), go);
    c.run("large_tree", 5_000, 200_000, |_| case(true), go);
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
