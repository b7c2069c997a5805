//! Very long chains: behaviour must not depend on the size of the graph.

use portgraph::{Direction, Hierarchy, LinkMut, NodeIndex, PortIndex, PortMut, PortView};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::model::ni;

/// A chain of `n` nodes, whose k-th node has index `k * stride % n`. Node k
/// also links to node k+2 where `k % skip` is 0.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Deep {
    pub n: u32,
    pub stride: u32,
    pub skip: Option<u8>,
    /// Positions to ask about.
    pub at: Vec<u32>,
}

pub fn deep() -> impl Strategy<Value = Deep> {
    (15_000u32..90_000, any::<u32>(), prop::option::of(2u8..9), prop::collection::vec(any::<u32>(), 2..9))
        .prop_map(|(n, stride, skip, at)| Deep { n, stride, skip, at })
}

impl Deep {
    /// The nodes along the chain.
    pub fn order(&self) -> Vec<NodeIndex> {
        fn gcd(a: u64, b: u64) -> u64 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let n = self.n as u64;
        let mut s = self.stride as u64 % n;
        while gcd(s, n) != 1 {
            s += 1;
        }
        (0..n).map(|k| ni((k * s % n) as usize)).collect()
    }
    /// Positions to ask about, sorted.
    pub fn at(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.at.iter().map(|x| (*x % self.n) as usize).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn skips(&self, k: usize) -> bool {
        self.skip.is_some_and(|s| k % s as usize == 0) && k + 2 < self.n as usize
    }
    /// The graph: two inputs and two outputs per node, offset 0 along the chain.
    pub fn graph<G: PortMut + LinkMut + Default>(&self) -> Result<(G, Vec<NodeIndex>), String> {
        let mut g = G::default();
        for k in 0..self.n {
            let x = g.add_node(2, 2);
            crate::ensure_eq!(x.index(), k as usize, "index of a node of a new graph");
        }
        let order = self.order();
        for k in 0..order.len() {
            if k + 1 < order.len() {
                link(&mut g, order[k], 0, order[k + 1], 0)?;
            }
            if self.skips(k) {
                link(&mut g, order[k], 1, order[k + 2], 1)?;
            }
        }
        Ok((g, order))
    }
    /// The hierarchy in which every node is the only child of the one before.
    pub fn hierarchy(&self) -> Result<Hierarchy, String> {
        let mut h = Hierarchy::new();
        let order = self.order();
        for k in (1..order.len()).rev() {
            h.push_child(order[k], order[k - 1]).map_err(|e| e.to_string())?;
        }
        Ok(h)
    }
}

pub fn link<G: LinkMut>(g: &mut G, a: NodeIndex, o: usize, b: NodeIndex, i: usize) -> Result<(), String> {
    g.link_nodes(a, o, b, i).map_err(|e| format!("link_nodes({a:?}, {o}, {b:?}, {i}): {e}"))?;
    Ok(())
}

/// The port of a node.
pub fn port<G: PortView>(g: &G, n: NodeIndex, d: Direction, k: usize) -> PortIndex {
    g.ports(n, d).nth(k).unwrap()
}
