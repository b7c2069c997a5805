//! The reference model of a port graph and the full comparison of a graph (or
//! a view) against it.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use portgraph::multiportgraph::SubportIndex;
use portgraph::{Direction, LinkView, MultiView, NodeIndex, PortIndex, PortOffset};

use crate::{ensure, ensure_eq, TR};

/// A link endpoint as plain numbers: (port index, subport offset).
pub type Hd = (usize, usize);

/// Conversion of link endpoints to plain numbers.
pub trait Ep: Copy {
    fn ep(self) -> Hd;
}
impl Ep for PortIndex {
    fn ep(self) -> Hd {
        (self.index(), 0)
    }
}
impl Ep for SubportIndex {
    fn ep(self) -> Hd {
        (self.port().index(), self.offset())
    }
}

pub fn ni(i: usize) -> NodeIndex {
    NodeIndex::new(i)
}
pub fn pi(i: usize) -> PortIndex {
    PortIndex::new(i)
}

/// Ports of a node: [incoming, outgoing] lists of port indices in order.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct MNode {
    pub ports: [Vec<usize>; 2],
}

pub const IN: usize = 0;
pub const OUT: usize = 1;

pub fn dir(d: usize) -> Direction {
    if d == IN {
        Direction::Incoming
    } else {
        Direction::Outgoing
    }
}

/// The reference model: nodes with ordered port lists, and a symmetric
/// endpoint pairing.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub nodes: BTreeMap<usize, MNode>,
    pub links: BTreeMap<Hd, Hd>,
    /// port -> (node, dir, offset)
    pub ports: BTreeMap<usize, (usize, usize, usize)>,
}

impl Model {
    pub fn insert_node(&mut self, n: usize, ins: Vec<usize>, outs: Vec<usize>) {
        for (d, l) in [&ins, &outs].into_iter().enumerate() {
            for (o, &p) in l.iter().enumerate() {
                self.ports.insert(p, (n, d, o));
            }
        }
        self.nodes.insert(n, MNode { ports: [ins, outs] });
    }
    /// Rebuild the port lookup from the node table.
    pub fn reindex(&mut self) {
        self.ports.clear();
        for (&n, mn) in &self.nodes {
            for d in 0..2 {
                for (o, &p) in mn.ports[d].iter().enumerate() {
                    self.ports.insert(p, (n, d, o));
                }
            }
        }
    }
    pub fn node_ids(&self) -> Vec<usize> {
        self.nodes.keys().copied().collect()
    }
    pub fn port_ids(&self) -> Vec<usize> {
        self.ports.keys().copied().collect()
    }
    pub fn add_link(&mut self, a: Hd, b: Hd) {
        self.links.insert(a, b);
        self.links.insert(b, a);
    }
    pub fn unlink(&mut self, a: Hd) -> Option<Hd> {
        let b = self.links.remove(&a)?;
        self.links.remove(&b);
        Some(b)
    }
    /// Handles of `p` that are linked, with their peers.
    pub fn port_links(&self, p: usize) -> Vec<(Hd, Hd)> {
        self.links
            .range((p, 0)..=(p, usize::MAX))
            .map(|(a, b)| (*a, *b))
            .collect()
    }
    pub fn link_count(&self) -> usize {
        self.links.len() / 2
    }
    pub fn remove_node(&mut self, n: usize) {
        let Some(mn) = self.nodes.remove(&n) else { return };
        for p in mn.ports.iter().flatten() {
            for (a, _) in self.port_links(*p) {
                self.unlink(a);
            }
            self.ports.remove(p);
        }
    }
    /// Any node; most selectors give one with links in the direction.
    pub fn start(&self, d: usize, sel: u16) -> Option<usize> {
        let mut ids = self.node_ids();
        if sel % 8 != 0 && ids.iter().any(|n| !self.links_of(*n, d).is_empty()) {
            ids.retain(|n| !self.links_of(*n, d).is_empty());
        }
        crate::pick(&ids, sel as usize)
    }
    /// All links of node `n` in direction `d`, grouped by port in order.
    pub fn links_of(&self, n: usize, d: usize) -> Vec<(Hd, Hd)> {
        self.nodes
            .get(&n)
            .map(|mn| mn.ports[d].iter().flat_map(|&p| self.port_links(p)).collect())
            .unwrap_or_default()
    }
    pub fn owner(&self, h: Hd) -> usize {
        self.ports[&h.0].0
    }
    /// (source node, target node) per link.
    pub fn edges(&self) -> Vec<(Hd, Hd)> {
        self.links
            .iter()
            .filter(|(a, _)| self.ports[&a.0].1 == OUT)
            .map(|(a, b)| (*a, *b))
            .collect()
    }
    pub fn succ(&self, n: usize) -> Vec<usize> {
        self.links_of(n, OUT).into_iter().map(|(_, b)| self.owner(b)).collect()
    }
    pub fn pred(&self, n: usize) -> Vec<usize> {
        self.links_of(n, IN).into_iter().map(|(_, b)| self.owner(b)).collect()
    }
    /// Rename nodes and ports.
    pub fn rename(&self, fnode: impl Fn(usize) -> usize, fport: impl Fn(usize) -> usize) -> Model {
        let mut m = Model::default();
        for (&n, mn) in &self.nodes {
            let f = |l: &Vec<usize>| l.iter().map(|&p| fport(p)).collect::<Vec<_>>();
            m.insert_node(fnode(n), f(&mn.ports[0]), f(&mn.ports[1]));
        }
        for (a, b) in &self.links {
            m.links.insert((fport(a.0), a.1), (fport(b.0), b.1));
        }
        m
    }
    /// The sub-model induced by a node set (links with both ends inside).
    pub fn induced(&self, keep: impl Fn(usize) -> bool) -> Model {
        let mut m = Model::default();
        for (&n, mn) in &self.nodes {
            if keep(n) {
                m.insert_node(n, mn.ports[0].clone(), mn.ports[1].clone());
            }
        }
        for (a, b) in &self.links {
            if m.ports.contains_key(&a.0) && m.ports.contains_key(&b.0) {
                m.links.insert(*a, *b);
            }
        }
        m
    }
    /// Read the structure of a graph through its elementary queries.
    pub fn read<G: LinkView>(g: &G) -> Model
    where
        G::LinkEndpoint: Ep,
    {
        let mut m = Model::default();
        for n in g.nodes_iter() {
            let ins = g.inputs(n).map(|p| p.index()).collect();
            let outs = g.outputs(n).map(|p| p.index()).collect();
            m.insert_node(n.index(), ins, outs);
        }
        for p in m.port_ids() {
            for (a, b) in g.port_links(pi(p)) {
                m.links.insert(a.ep(), b.ep());
            }
        }
        m
    }
}

/// Drain an iterator, checking its size hint at every step, that a clone taken
/// at the start yields the same items, and that it stays exhausted.
pub fn drain<T: Debug + PartialEq, I: Iterator<Item = T> + Clone>(
    it: I,
    max: usize,
    what: &str,
) -> Result<Vec<T>, String> {
    let copy = it.clone();
    let mut it = it;
    let mut hints = Vec::new();
    let mut out = Vec::new();
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(x) => {
                out.push(x);
                if out.len() > max {
                    return Err(format!("{what}: more than {max} items"));
                }
            }
            None => break,
        }
    }
    ensure!(it.next().is_none(), "{what}: yields items after None");
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let rest = out.len() - i;
        ensure!(
            *lo <= rest && hi.map_or(true, |h| rest <= h),
            "{what}: size_hint {:?} with {rest} items left",
            (lo, hi)
        );
    }
    ensure_eq!(copy.count(), out.len(), "{what}: count()");
    Ok(out)
}

/// An iterator taken from both ends in any interleaving yields what it yields
/// forwards, and then stays empty.
pub fn ends<T: Debug + PartialEq, I: DoubleEndedIterator<Item = T> + Clone>(it: I, max: usize, picks: u32, what: &str) -> TR {
    let all = drain(it.clone(), max, what)?;
    let mut it = it;
    let (mut lo, mut hi) = (0, all.len());
    while lo < hi {
        let back = picks >> ((all.len() - (hi - lo)) % 32) & 1 == 1;
        let (lb, ub) = it.size_hint();
        ensure!(lb <= hi - lo && ub.map_or(true, |u| u >= hi - lo), "{what}: size_hint {:?} with {} items left", (lb, ub), hi - lo);
        let x = if back { it.next_back() } else { it.next() };
        let want = if back { &all[hi - 1] } else { &all[lo] };
        ensure_eq!(x.as_ref(), Some(want), "{what}: {} of the rest {:?}", if back { "next_back" } else { "next" }, &all[lo..hi]);
        if back {
            hi -= 1;
        } else {
            lo += 1;
        }
        if hi - lo > 1 && picks & 0x8000_0000 != 0 && (all.len() < 40 || (hi - lo) % 97 == 0) {
            let k = 1 + picks as usize % (hi - lo - 1);
            let (nb, nf, last) = (it.clone().nth_back(k), it.clone().nth(k), it.clone().last());
            ensure_eq!(nb.as_ref(), Some(&all[hi - 1 - k]), "{what}: nth_back({k}) of the rest {:?}", &all[lo..hi]);
            ensure_eq!(nf.as_ref(), Some(&all[lo + k]), "{what}: nth({k}) of the rest {:?}", &all[lo..hi]);
            ensure_eq!(it.clone().count(), hi - lo, "{what}: count of the rest {:?}", &all[lo..hi]);
            ensure_eq!(last.as_ref(), Some(&all[hi - 1]), "{what}: last of the rest {:?}", &all[lo..hi]);
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: items after the end");
    Ok(())
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// What to compare in [`check_view`].
#[derive(Clone, Copy)]
pub struct ViewOpts {
    /// Query indices that do not exist too (base graphs only).
    pub absent: bool,
    /// Compare `get_connections` for every pair of nodes.
    pub pairs: bool,
    /// Compare the number of ports and the ports iterator.
    pub ports: bool,
}

impl Default for ViewOpts {
    fn default() -> Self {
        ViewOpts { absent: true, pairs: true, ports: true }
    }
}

/// Compare every query of a graph or view with the model.
pub fn check_view<G: LinkView>(g: &G, m: &Model, o: ViewOpts) -> TR
where
    G::LinkEndpoint: Ep,
{
    let nodes: BTreeSet<usize> = m.nodes.keys().copied().collect();
    let big = 100_000;

    let it = drain(g.nodes_iter(), big, "nodes_iter")?;
    let got: BTreeSet<usize> = it.iter().map(|n| n.index()).collect();
    ensure_eq!(it.len(), got.len(), "nodes_iter distinct");
    ensure_eq!(got, nodes, "nodes_iter");
    ensure_eq!(g.node_count(), nodes.len(), "node_count");
    ensure_eq!(g.is_empty(), nodes.is_empty(), "is_empty");
    if o.ports {
        let it = drain(g.ports_iter(), big, "ports_iter")?;
        let got: BTreeSet<usize> = it.iter().map(|n| n.index()).collect();
        ensure_eq!(it.len(), got.len(), "ports_iter distinct");
        ensure_eq!(got, m.ports.keys().copied().collect::<BTreeSet<_>>(), "ports_iter");
        ensure_eq!(g.port_count(), m.ports.len(), "port_count");
        ensure!(g.port_capacity() >= m.ports.len(), "port_capacity {} for {} ports", g.port_capacity(), m.ports.len());
    }
    ensure!(g.node_capacity() >= nodes.len(), "node_capacity {} for {} nodes", g.node_capacity(), nodes.len());
    ensure_eq!(g.link_count(), m.link_count(), "link_count");

    for (&n, mn) in &m.nodes {
        let nd = ni(n);
        ensure!(g.contains_node(nd), "contains_node({n}) is false");
        let mut all_ports = vec![];
        let mut all_offs = vec![];
        for d in 0..2 {
            let want = &mn.ports[d];
            let got: Vec<usize> = drain(g.ports(nd, dir(d)), big, "ports")?
                .iter()
                .map(|p| p.index())
                .collect();
            ensure_eq!(&got, want, "ports({n},{d})");
            let got: Vec<usize> = if d == IN {
                g.inputs(nd).map(|p| p.index()).collect()
            } else {
                g.outputs(nd).map(|p| p.index()).collect()
            };
            ensure_eq!(&got, want, "inputs/outputs({n},{d})");
            let cnt = if d == IN { g.num_inputs(nd) } else { g.num_outputs(nd) };
            ensure_eq!(cnt, want.len(), "num_inputs/outputs({n},{d})");
            ensure_eq!(g.num_ports(nd, dir(d)), want.len(), "num_ports({n},{d})");
            let offs: Vec<PortOffset<G::PortOffsetBase>> =
                (0..want.len()).map(|i| PortOffset::new(dir(d), i)).collect();
            let got = drain(g.port_offsets(nd, dir(d)).map(|x| (x.direction(), x.index())), big, "port_offsets")?;
            let want_o: Vec<_> = offs.iter().map(|x| (x.direction(), x.index())).collect();
            ensure_eq!(got, want_o, "port_offsets({n},{d})");
            let got: Vec<_> = if d == IN {
                g.input_offsets(nd).map(|x| (x.direction(), x.index())).collect()
            } else {
                g.output_offsets(nd).map(|x| (x.direction(), x.index())).collect()
            };
            ensure_eq!(got, want_o, "in/output_offsets({n},{d})");
            for (i, &p) in want.iter().enumerate() {
                ensure_eq!(g.port_index(nd, offs[i]), Some(pi(p)), "port_index({n},{d},{i})");
                let got = if d == IN { g.input(nd, i) } else { g.output(nd, i) };
                ensure_eq!(got, Some(pi(p)), "input/output({n},{d},{i})");
                ensure_eq!(g.port_direction(pi(p)), Some(dir(d)), "port_direction({p})");
                ensure_eq!(g.port_node(pi(p)), Some(nd), "port_node({p})");
                let po = g.port_offset(pi(p)).map(|x| (x.direction(), x.index()));
                ensure_eq!(po, Some((dir(d), i)), "port_offset({p})");
                ensure!(g.contains_port(pi(p)), "contains_port({p}) is false");
                // Links of the port.
                let want_l = m.port_links(p);
                let got = drain(
                    g.port_links(pi(p)).map(|(a, b)| (a.ep(), b.ep())),
                    big,
                    "port_links",
                )?;
                ensure_eq!(sorted(got.clone()), want_l, "port_links({p})");
                let pl = g.port_link(pi(p)).map(|e| e.ep());
                match pl {
                    None => ensure!(want_l.is_empty(), "port_link({p}) is None, links {want_l:?}"),
                    Some(e) => ensure!(
                        want_l.iter().any(|(_, b)| *b == e),
                        "port_link({p}) = {e:?}, links {want_l:?}"
                    ),
                }
            }
            if want.len() < PortOffset::<G::PortOffsetBase>::max_offset() {
                let off = PortOffset::new(dir(d), want.len());
                ensure_eq!(g.port_index(nd, off), None, "port_index past the end ({n},{d})");
                let got = if d == IN { g.input(nd, want.len()) } else { g.output(nd, want.len()) };
                ensure_eq!(got, None, "input/output past the end ({n},{d})");
            }
            // Links and neighbours of the node in this direction.
            let want_l = m.links_of(n, d);
            let got = drain(g.links(nd, dir(d)).map(|(a, b)| (a.ep(), b.ep())), big, "links")?;
            ensure_eq!(sorted(got.clone()), sorted(want_l.clone()), "links({n},{d})");
            let seq: Vec<usize> = got.iter().map(|(a, _)| a.0).collect();
            let want_seq: Vec<usize> = want_l.iter().map(|(a, _)| a.0).collect();
            ensure_eq!(seq, want_seq, "order of the ports in links({n},{d})");
            let got2: Vec<_> = if d == IN {
                g.input_links(nd).map(|(a, b)| (a.ep(), b.ep())).collect()
            } else {
                g.output_links(nd).map(|(a, b)| (a.ep(), b.ep())).collect()
            };
            ensure_eq!(got2, got, "input/output_links({n},{d})");
            let want_n: Vec<usize> = got.iter().map(|(_, b)| m.owner(*b)).collect();
            let got_n: Vec<usize> = drain(g.neighbours(nd, dir(d)), big, "neighbours")?
                .iter()
                .map(|x| x.index())
                .collect();
            ensure_eq!(sorted(got_n.clone()), sorted(want_n.clone()), "neighbours({n},{d})");
            // Same order as the links when every port has one link.
            if got.windows(2).all(|w| w[0].0 .0 != w[1].0 .0) {
                ensure_eq!(got_n, want_n, "order of neighbours({n},{d})");
            }
            let got2: Vec<usize> = if d == IN {
                g.input_neighbours(nd).map(|x| x.index()).collect()
            } else {
                g.output_neighbours(nd).map(|x| x.index()).collect()
            };
            ensure_eq!(got2, got_n, "input/output_neighbours({n},{d})");
            all_ports.extend(want.iter().copied());
            all_offs.extend(want_o);
        }
        let got: Vec<usize> = drain(g.all_ports(nd), big, "all_ports")?
            .iter()
            .map(|p| p.index())
            .collect();
        ensure_eq!(got, all_ports, "all_ports({n})");
        let got = drain(
            g.all_port_offsets(nd).map(|x| (x.direction(), x.index())),
            big,
            "all_port_offsets",
        )?;
        ensure_eq!(got, all_offs, "all_port_offsets({n})");
        // all_links: every link of the node once, self-links once in total.
        let got = drain(g.all_links(nd).map(|(a, b)| (a.ep(), b.ep())), big, "all_links")?;
        let mut want: Vec<(Hd, Hd)> = vec![];
        let mut self_links = 0;
        for d in 0..2 {
            for (a, b) in m.links_of(n, d) {
                if m.owner(b) == n {
                    self_links += 1;
                } else {
                    want.push((a, b));
                }
            }
        }
        let (selfs, others): (Vec<_>, Vec<_>) =
            got.iter().copied().partition(|(a, b)| m.ports.get(&a.0).map(|x| x.0) == Some(n) && m.ports.get(&b.0).map(|x| x.0) == Some(n));
        ensure_eq!(sorted(others), sorted(want.clone()), "all_links({n}) to other nodes");
        ensure_eq!(selfs.len() * 2, self_links, "self-links in all_links({n}) (counted once)");
        let mut keys: BTreeSet<Hd> = BTreeSet::new();
        for (a, b) in &selfs {
            ensure_eq!(m.links.get(a), Some(b), "self-link in all_links({n})");
            ensure!(keys.insert(*a) && keys.insert(*b), "self-link twice in all_links({n})");
        }
        let pos = |p: usize| all_ports.iter().position(|x| *x == p).unwrap();
        ensure!(
            got.windows(2).all(|w| pos(w[0].0 .0) <= pos(w[1].0 .0)),
            "all_links({n}) not in port order: {got:?}"
        );
        let want_n: Vec<usize> = got.iter().map(|(_, b)| m.owner(*b)).collect();
        let got_n: Vec<usize> = drain(g.all_neighbours(nd), big, "all_neighbours")?
            .iter()
            .map(|x| x.index())
            .collect();
        ensure_eq!(sorted(got_n), sorted(want_n), "all_neighbours({n})");
        if o.pairs {
            let out = m.links_of(n, OUT);
            for &t in m.nodes.keys() {
                let want: Vec<_> = out.iter().copied().filter(|(_, b)| m.owner(*b) == t).collect();
                let got = drain(
                    g.get_connections(nd, ni(t)).map(|(a, b)| (a.ep(), b.ep())),
                    big,
                    "get_connections",
                )?;
                ensure_eq!(sorted(got.clone()), sorted(want.clone()), "get_connections({n},{t})");
                let ord: Vec<usize> = got.iter().map(|x| x.0 .0).collect();
                let word: Vec<usize> = want.iter().map(|x| x.0 .0).collect();
                ensure_eq!(ord, word, "port order of get_connections({n},{t})");
                let c = g.get_connection(nd, ni(t)).map(|(a, b)| (a.ep(), b.ep()));
                ensure_eq!(c, got.first().copied(), "get_connection({n},{t})");
                ensure_eq!(g.connected(nd, ni(t)), !want.is_empty(), "connected({n},{t})");
            }
        }
    }
    if o.absent {
        let maxn = m.nodes.keys().last().map_or(0, |x| x + 1);
        for n in (0..maxn + 3).filter(|n| !m.nodes.contains_key(n)) {
            let nd = ni(n);
            ensure!(!g.contains_node(nd), "contains_node({n}) for a missing node");
        }
        let maxp = m.ports.keys().last().map_or(0, |x| x + 1);
        for p in (0..maxp + 3).filter(|p| !m.ports.contains_key(p)) {
            ensure!(!g.contains_port(pi(p)), "contains_port({p}) for a missing port");
        }
    }
    Ok(())
}

/// Checks on missing nodes and ports of a plain graph: empty answers.
pub fn check_absent<G: LinkView>(g: &G, m: &Model) -> TR
where
    G::LinkEndpoint: Ep,
{
    let maxn = m.nodes.keys().last().map_or(0, |x| x + 1);
    for n in (0..maxn + 3).filter(|n| !m.nodes.contains_key(n)) {
        let nd = ni(n);
        for d in Direction::BOTH {
            ensure_eq!(g.num_ports(nd, d), 0, "num_ports of missing node {n}");
            ensure_eq!(g.ports(nd, d).count(), 0, "ports of missing node {n}");
            ensure_eq!(g.port_offsets(nd, d).count(), 0, "port_offsets of missing node {n}");
            ensure_eq!(g.links(nd, d).count(), 0, "links of missing node {n}");
            ensure_eq!(g.neighbours(nd, d).count(), 0, "neighbours of missing node {n}");
            ensure_eq!(g.port_index(nd, PortOffset::new(d, 0)), None, "port_index of missing node {n}");
        }
        ensure_eq!(g.all_ports(nd).count(), 0, "all_ports of missing node {n}");
        ensure_eq!(g.all_links(nd).count(), 0, "all_links of missing node {n}");
        ensure_eq!(g.node_port_capacity(nd), 0, "node_port_capacity of missing node {n}");
    }
    let maxp = m.ports.keys().last().map_or(0, |x| x + 1);
    for p in (0..maxp + 3).filter(|p| !m.ports.contains_key(p)) {
        ensure_eq!(g.port_node(pi(p)), None, "port_node of missing port {p}");
        ensure_eq!(g.port_direction(pi(p)), None, "port_direction of missing port {p}");
        ensure!(g.port_offset(pi(p)).is_none(), "port_offset of missing port {p}");
    }
    for (&n, mn) in &m.nodes {
        let total = mn.ports[0].len() + mn.ports[1].len();
        let cap = g.node_port_capacity(ni(n));
        ensure!(cap >= total, "node_port_capacity({n}) = {cap} < {total}");
    }
    ensure!(g.node_capacity() >= g.node_count(), "node_capacity");
    ensure!(g.port_capacity() >= g.port_count(), "port_capacity");
    Ok(())
}

/// Subport queries of a multiport graph or view against the model.
pub fn check_subports<G: MultiView>(g: &G, m: &Model) -> TR
where
    G::LinkEndpoint: Ep,
{
    let big = 100_000;
    for (&n, mn) in &m.nodes {
        let mut all = vec![];
        for d in 0..2 {
            let eps = drain(
                g.subports(ni(n), dir(d)).map(|e| e.ep()),
                big,
                "subports",
            )?;
            let set: BTreeSet<Hd> = eps.iter().copied().collect();
            ensure_eq!(set.len(), eps.len(), "subports({n},{d}) distinct");
            // Grouped by port, in port order, at least one per port.
            let mut seq: Vec<usize> = eps.iter().map(|e| e.0).collect();
            seq.dedup();
            ensure_eq!(seq, mn.ports[d].clone(), "ports of subports({n},{d})");
            for &p in &mn.ports[d] {
                for (a, _) in m.port_links(p) {
                    ensure!(set.contains(&a), "linked subport {a:?} missing from subports({n},{d})");
                }
            }
            for e in g.subports(ni(n), dir(d)) {
                let got = g.subport_link(e).map(|x| x.ep());
                ensure_eq!(got, m.links.get(&e.ep()).copied(), "subport_link({:?})", e.ep());
            }
            let alt: Vec<Hd> = if d == IN {
                g.subport_inputs(ni(n)).map(|e| e.ep()).collect()
            } else {
                g.subport_outputs(ni(n)).map(|e| e.ep()).collect()
            };
            ensure_eq!(alt, eps, "subport_inputs/outputs({n},{d})");
            all.extend(eps);
        }
        let got = drain(g.all_subports(ni(n)).map(|e| e.ep()), big, "all_subports")?;
        ensure_eq!(got, all, "all_subports({n})");
    }
    Ok(())
}

/// Nodes outside a view have no subports in it.
pub fn check_outside_subports<G: MultiView>(g: &G, base: &Model, m: &Model) -> TR {
    for n in base.nodes.keys().filter(|n| !m.nodes.contains_key(n)) {
        for d in Direction::BOTH {
            ensure_eq!(g.subports(ni(*n), d).count(), 0, "subports({n},{d:?}) of a node outside the view");
        }
        ensure_eq!(g.all_subports(ni(*n)).count(), 0, "all_subports({n}) of a node outside the view");
    }
    Ok(())
}

/// What a view must say about the nodes and ports of the base graph that it
/// does not show: they are not contained, and nothing visible is connected to
/// them.
pub fn check_outside<G: LinkView>(g: &G, base: &Model, m: &Model, conns: bool) -> TR {
    for n in base.nodes.keys().filter(|n| !m.nodes.contains_key(n)) {
        ensure!(!g.contains_node(ni(*n)), "contains_node({n}) of a node outside the view");
        for d in Direction::BOTH {
            ensure_eq!(g.links(ni(*n), d).count(), 0, "links({n},{d:?}) of a node outside the view");
        }
        ensure_eq!(g.all_links(ni(*n)).count(), 0, "all_links({n}) of a node outside the view");
        if conns {
            for x in m.nodes.keys() {
                for (a, b) in [(*x, *n), (*n, *x)] {
                    ensure_eq!(g.get_connections(ni(a), ni(b)).count(), 0, "get_connections({a},{b}) out of the view");
                    ensure!(!g.connected(ni(a), ni(b)), "connected({a},{b}) out of the view");
                    ensure!(g.get_connection(ni(a), ni(b)).is_none(), "get_connection({a},{b}) out of the view");
                }
            }
        }
    }
    for p in base.ports.keys().filter(|p| !m.ports.contains_key(p)) {
        ensure!(!g.contains_port(pi(*p)), "contains_port({p}) of a port outside the view");
        ensure_eq!(g.port_links(pi(*p)).count(), 0, "port_links({p}) of a port outside the view");
    }
    let n = base.nodes.keys().last().map_or(0, |x| x + 1) + 1000;
    let p = base.ports.keys().last().map_or(0, |x| x + 1) + 1000;
    ensure!(!g.contains_node(ni(n)), "contains_node({n}) of a node that does not exist");
    ensure!(!g.contains_port(pi(p)), "contains_port({p}) of a port that does not exist");
    Ok(())
}
