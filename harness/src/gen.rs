//! Generated graphs: a specification that shrinks well and builds into a plain
//! or a multiport graph together with its model.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::hist::{ops, Driver, Mix, Op, TestGraph};
use crate::Ctx;

/// Specification of a graph. Selectors are resolved modulo what exists.
#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    /// (inputs, outputs) per node.
    pub nodes: Vec<(u16, u16)>,
    /// (output port, input port) selectors.
    pub links: Vec<(u16, u16)>,
    /// Nodes removed after linking (leaves gaps in the indices).
    pub removed: Vec<u16>,
    /// Only link from earlier to later nodes.
    pub acyclic: bool,
    /// Pairs of nodes to swap at the end, so that the index order carries no
    /// information.
    pub swaps: Vec<(u16, u16)>,
    /// Subports to unlink at the end (multiport graphs).
    pub unlinked: Vec<u16>,
    /// Nodes added first and removed before linking: the copies of multiport
    /// graphs take their indices, below those of the nodes.
    pub ballast: u32,
}

#[derive(Clone, Copy)]
pub struct SpecParams {
    pub nodes: usize,
    pub ports: u16,
    pub links: usize,
    pub removed: usize,
    /// None: both kinds.
    pub acyclic: Option<bool>,
}

impl Default for SpecParams {
    fn default() -> Self {
        SpecParams { nodes: 8, ports: 3, links: 14, removed: 3, acyclic: None }
    }
}

pub fn spec(p: SpecParams) -> impl Strategy<Value = Spec> + Clone {
    let s = || any::<u16>();
    // Mostly graphs near the size limit: shrinking finds the small ones.
    let size = |n: usize| prop_oneof![1 => 0..=n, 3 => n / 2..=n];
    let ports = p.ports;
    (
        size(p.nodes).prop_flat_map(move |n| prop::collection::vec((0..=ports, 0..=ports), n)),
        size(p.links).prop_flat_map(move |n| prop::collection::vec((any::<u16>(), any::<u16>()), n)),
        prop_oneof![3 => prop::collection::vec(s(), 0..=0), 2 => prop::collection::vec(s(), 0..=p.removed)],
        match p.acyclic {
            None => any::<bool>().boxed(),
            Some(b) => Just(b).boxed(),
        },
        prop::collection::vec((s(), s()), 0..=3),
        prop::collection::vec(s(), 0..=2),
        prop_oneof![2 => Just(0u32), 1 => 1u32..=3],
    )
        .prop_map(|(nodes, links, removed, acyclic, swaps, unlinked, ballast)| Spec {
            nodes,
            links,
            removed,
            acyclic,
            swaps,
            unlinked,
            ballast,
        })
}

/// Graphs an order of magnitude beyond the usual ones, in one dimension at a
/// time: many nodes, nodes with many ports, ports with many links, deep chains.
pub fn large(acyclic: Option<bool>) -> BoxedStrategy<Spec> {
    let p = |nodes, ports, links, removed| SpecParams { nodes, ports, links, removed, acyclic };
    let chain = (prop::collection::vec((any::<u16>(), any::<u16>()), 0..20), spec(p(80, 2, 0, 8))).prop_map(|(extra, mut s)| {
        // Nodes with two ports each way, every one linked to the next.
        for n in &mut s.nodes {
            *n = (2, 2);
        }
        let k = s.nodes.len() as u16;
        s.links = (0..k.saturating_sub(1)).map(|i| (2 * i, 0)).collect();
        s.links.extend(extra);
        s.acyclic = true;
        s
    });
    (
        prop_oneof![
            3 => spec(p(70, 3, 130, 12)),
            2 => spec(p(5, 90, 150, 1)),
            2 => spec(p(5, 2, 150, 1)),
            1 => chain,
            2 => vast(acyclic),
        ],
        prop_oneof![2 => Just(0u32), 1 => 1u32..=70],
    )
        .prop_map(|(mut s, ballast)| {
            s.ballast = s.ballast.max(ballast);
            s
        })
        .boxed()
}

/// Graphs past the capacity of a byte in one dimension: nodes, ports of a
/// node, or links of a port.
fn vast(acyclic: Option<bool>) -> BoxedStrategy<Spec> {
    let p = |nodes, ports, links, removed| SpecParams { nodes, ports, links, removed, acyclic };
    let pad = |v: &mut Vec<(u16, u16)>, n: usize, x: (u16, u16)| {
        while v.len() < n {
            v.push(x);
        }
    };
    let nodes = (spec(p(40, 3, 60, 4)), 250usize..300, any::<bool>()).prop_map(move |(mut s, n, front)| {
        let own = std::mem::take(&mut s.nodes);
        if front {
            s.nodes = own;
            pad(&mut s.nodes, n, (1, 1));
        } else {
            pad(&mut s.nodes, n - own.len(), (1, 1));
            s.nodes.extend(own);
        }
        s
    });
    let ports = (spec(p(4, 20, 120, 0)), 0usize..4, 0u16..320, 250u16..320).prop_map(move |(mut s, k, i, o)| {
        pad(&mut s.nodes, 3, (12, 12));
        let k = k % s.nodes.len();
        s.nodes[k] = if i % 2 == 0 { (i, o) } else { (o, i) };
        s
    });
    let links = (spec(p(4, 2, 10, 0)), prop::collection::vec((any::<u16>(), any::<u16>()), 280..350), any::<bool>()).prop_map(|(mut s, mut ls, fan_out)| {
        // Nearly all links leave one port, or all links reach one.
        s.nodes.insert(0, (0, 1));
        if fan_out {
            s.nodes.push((2, 0));
            for (i, l) in ls.iter_mut().enumerate() {
                l.0 *= (i % 20 == 0) as u16;
            }
        } else {
            s.nodes.iter_mut().for_each(|n| n.0 = 0);
            s.nodes.push((1, 0));
        }
        s.links = ls;
        s.removed.clear();
        s
    });
    prop_oneof![nodes, ports, links].boxed()
}

/// `large` or the usual strategy.
pub fn sized(big: bool, acyclic: Option<bool>, usual: impl Strategy<Value = Spec> + 'static) -> BoxedStrategy<Spec> {
    if big {
        prop_oneof![80 => large(acyclic), 1 => far(acyclic)].boxed()
    } else {
        usual.boxed()
    }
}

/// Build the graph and its model.
pub fn build<G: TestGraph>(s: &Spec, ctx: &mut Ctx) -> Result<Driver<G>, String> {
    let mut d: Driver<G> = Driver::new(G::default());
    d.check_each = false;
    build_into(&mut d, s, ctx)?;
    Ok(d)
}

/// Add the specified nodes and links to an existing graph; removals and swaps
/// only touch the new nodes.
pub fn build_into<G: TestGraph>(d: &mut Driver<G>, s: &Spec, ctx: &mut Ctx) -> Result<(), String> {
    let mut order = vec![];
    let mut ballast = vec![];
    for _ in 0..s.ballast {
        ballast.push(d.add_node(1, 1)?);
    }
    for &(i, o) in &s.nodes {
        order.push(d.add_node(i as usize, o as usize)?);
    }
    for n in ballast {
        d.remove_node(n);
    }
    let mut outs = vec![];
    let mut ins = vec![];
    for (k, n) in order.iter().enumerate() {
        ins.extend(d.m.nodes[n].ports[0].iter().map(|p| (k, *p)));
        outs.extend(d.m.nodes[n].ports[1].iter().map(|p| (k, *p)));
    }
    for &(a, b) in &s.links {
        if outs.is_empty() || ins.is_empty() {
            break;
        }
        let (ka, pa) = outs[a as usize % outs.len()];
        let mut cand: Vec<usize> = ins
            .iter()
            .filter(|(kb, _)| !s.acyclic || *kb > ka)
            .map(|(_, p)| *p)
            .collect();
        if !G::MULTI {
            cand.retain(|p| d.m.port_links(*p).is_empty());
            if !d.m.port_links(pa).is_empty() {
                continue;
            }
        }
        if cand.is_empty() {
            continue;
        }
        d.link(pa, cand[b as usize % cand.len()], ctx)?;
    }
    for &r in &s.removed {
        if order.len() > 1 {
            let n = order.remove(r as usize % order.len());
            d.remove_node(n);
        }
    }
    for &(a, b) in &s.swaps {
        if !order.is_empty() {
            let (x, y) = (order[a as usize % order.len()], order[b as usize % order.len()]);
            d.swap(x, y);
        }
    }
    if G::MULTI {
        for &u in &s.unlinked {
            let hs: Vec<_> = d.m.links.keys().copied().collect();
            if !hs.is_empty() {
                let h = hs[u as usize % hs.len()];
                d.g.unlink_sub(h);
                d.m.unlink(h);
            }
        }
    }
    Ok(())
}

/// A short history on a large graph.
pub type LargeHistory = (Spec, Vec<Op>);

pub fn large_history(mix: Mix, len: std::ops::Range<usize>) -> impl Strategy<Value = LargeHistory> {
    (large(None), ops(mix, len))
}

/// A small graph whose indices need more than sixteen bits.
pub fn far(acyclic: Option<bool>) -> BoxedStrategy<Spec> {
    (spec(SpecParams { acyclic, ..SpecParams::default() }), 65_530u32..65_560)
        .prop_map(|(mut s, ballast)| {
            s.ballast = ballast;
            s
        })
        .boxed()
}

/// A history on a small graph whose indices need more than sixteen bits.
pub fn far_history(mix: Mix, len: std::ops::Range<usize>) -> impl Strategy<Value = LargeHistory> {
    (far(None), ops(mix, len))
}

pub fn run_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> Result<Driver<G>, String> {
    let mut d: Driver<G> = build(&c.0, ctx)?;
    d.check_each = true;
    d.verify()?;
    for (i, op) in c.1.iter().enumerate() {
        d.step(op, ctx).map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
    }
    Ok(d)
}
