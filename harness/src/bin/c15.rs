//! C15: data and hierarchies kept in step through the callbacks follow their nodes and ports.
use std::collections::{BTreeMap, HashSet};

use bitvec::vec::BitVec;
use pgv::forest::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, Tier, TR};
use pgv::ensure_eq;
use portgraph::portgraph::PortOperation;
use portgraph::{Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, SecondaryMap, UnmanagedDenseMap, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    G(Op),
    /// Attach a root node below another node: kind, node, parent.
    Attach(u8, u16, u16),
    Detach(u16),
    /// Rewrite the data of a node and its ports.
    Write(u16, u16),
    /// Let the containers drop what they do not need.
    Shrink,
}

/// A history on a graph with many nodes.
fn large(multi: bool) -> impl Strategy<Value = Vec<Act>> {
    let s = || any::<u16>();
    let add = prop_oneof![20 => (0u8..3, 0u8..3), 1 => (0u8..50, 0u8..50)].prop_map(|(a, b)| Act::G(Op::AddNode(a, b)));
    let link = (s(), s()).prop_map(|(a, b)| Act::G(Op::Link(a, b)));
    let attach = (any::<u8>(), s(), s()).prop_map(|(k, a, b)| Act::Attach(k, a, b));
    use prop::collection::vec as v;
    (v(add, 30..75), v(link, 10..40), v(attach, 5..40), acts(multi, 5..25)).prop_map(|(mut a, b, c, d)| {
        a.extend(b);
        a.extend(c);
        a.extend(d);
        a
    })
}

fn acts(multi: bool, len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<Act>> {
    let mix = Mix { multi, add: 12, remove: 5, set: 9, compact: 7, swap: 5, reject: 0, link: 8, unlink: 2, sub: 2 * multi as u32, misc: 2, ..Mix::default() };
    let g = ops(mix, 1..2).prop_map(|mut v| Act::G(v.pop().unwrap()));
    let s = || any::<u16>();
    let add = (0u8..4, 0u8..4).prop_map(|(a, b)| Act::G(Op::AddNode(a, b)));
    let one = prop_oneof![
        10 => g,
        4 => (any::<u8>(), s(), s()).prop_map(|(k, a, b)| Act::Attach(k, a, b)),
        1 => s().prop_map(Act::Detach),
        2 => (s(), s()).prop_map(|(a, b)| Act::Write(a, b)),
        1 => Just(Act::Shrink),
    ];
    (prop::collection::vec(add, 2..7), prop::collection::vec(one, len)).prop_map(|(mut a, b)| {
        a.extend(b);
        a
    })
}

type Node = NodeIndex;
type Port = PortIndex;

/// What a user keeps next to the graph, updated as the documentation says.
struct Client {
    /// Rekeyed on every report.
    w: Weights<u64, u64>,
    /// Ports updated by swapping, as in the documentation of `Weights`.
    sw: Weights<u64, u64>,
    nset: HashSet<Node>,
    bits: BitVec,
    dense: UnmanagedDenseMap<Port, u64>,
    h: Hierarchy,
}

impl Client {
    fn write(&mut self, nt: &BTreeMap<usize, u64>, pt: &BTreeMap<usize, u64>, n: usize, ports: &[usize]) {
        self.w[ni(n)] = nt[&n];
        self.sw[ni(n)] = nt[&n];
        if nt[&n] % 2 == 1 {
            SecondaryMap::set(&mut self.nset, ni(n), true);
        }
        for &p in ports {
            self.w[pi(p)] = pt[&p];
            self.sw[pi(p)] = pt[&p];
            SecondaryMap::<Port, bool>::set(&mut self.bits, pi(p), pt[&p] % 2 == 1);
            self.dense.set(pi(p), pt[&p]);
        }
    }
    fn port(&mut self, old: usize, new: Option<usize>) {
        let (o, n) = (pi(old), new.map(pi));
        self.w.ports.rekey(o, n);
        SecondaryMap::<Port, bool>::rekey(&mut self.bits, o, n);
        SecondaryMap::rekey(&mut self.dense, o, n);
        if let Some(n) = n {
            self.sw.ports.swap(o, n);
        }
    }
    fn node(&mut self, old: usize, new: usize) {
        self.w.nodes.rekey(ni(old), Some(ni(new)));
        self.sw.nodes.swap(ni(old), ni(new));
        SecondaryMap::rekey(&mut self.nset, ni(old), Some(ni(new)));
        self.h.rekey(ni(old), ni(new));
    }
}

fn check<G: TestGraph>(d: &Driver<G>, c: &Client, f: &Forest) -> TR {
    let top = d.g.node_capacity() + 3;
    for n in 0..top {
        let want = d.node_tag.get(&n).copied();
        ensure_eq!(c.w[ni(n)], want.unwrap_or(0), "rekeyed weight of node {n}");
        ensure_eq!(*SecondaryMap::get(&c.nset, ni(n)), want.unwrap_or(0) % 2 == 1, "flag of node {n}");
        if let Some(t) = want {
            ensure_eq!(c.sw[ni(n)], t, "swapped weight of node {n}");
        }
    }
    for p in 0..d.g.port_capacity() + 3 {
        let want = d.port_tag.get(&p).copied();
        ensure_eq!(c.w[pi(p)], want.unwrap_or(0), "rekeyed weight of port {p}");
        ensure_eq!(*SecondaryMap::get(&c.dense, pi(p)), want.unwrap_or(0), "dense entry of port {p}");
        ensure_eq!(*SecondaryMap::<Port, bool>::get(&c.bits, pi(p)), want.unwrap_or(0) % 2 == 1, "flag of port {p}");
        if let Some(t) = want {
            ensure_eq!(c.sw[pi(p)], t, "swapped weight of port {p}");
        }
    }
    // The forest is kept by tag: translate to the current indices.
    let at: BTreeMap<usize, usize> = d.node_tag.iter().map(|(n, t)| (*t as usize, *n)).collect();
    check_forest(&c.h, &f.rename(|t| at[&t]), top)
}

fn go<G: TestGraph>(acts: &[Act], ctx: &mut Ctx) -> TR {
    let mut d: Driver<G> = Driver::new(G::default());
    d.check_each = false;
    let mut c = Client {
        w: Weights::new(),
        sw: Weights::with_capacity(3, 5),
        nset: HashSet::new(),
        bits: BitVec::new(),
        dense: UnmanagedDenseMap::with_capacity(2),
        h: Hierarchy::new(),
    };
    let mut f = Forest::default();
    for (i, a) in acts.iter().enumerate() {
        step(&mut d, &mut c, &mut f, a, ctx).map_err(|e| format!("after step {i} ({a:?}): {e}"))?;
        check(&d, &c, &f).map_err(|e| format!("after step {i} ({a:?}): {e}"))?;
    }
    d.verify()?;
    let moved = ctx.count("compaction moved a node") + ctx.count("compaction moved a port") + ctx.count("port moved");
    ctx.label_if(!f.parent.is_empty(), "hierarchy in use");
    ctx.nontrivial_if(moved > 1 && ctx.count("attach") > 0);
    Ok(())
}

fn step<G: TestGraph>(d: &mut Driver<G>, c: &mut Client, f: &mut Forest, a: &Act, ctx: &mut Ctx) -> TR {
    let ids = d.m.node_ids();
    let node = |s: u16| pgv::pick(&ids, s as usize);
    match *a {
        Act::G(Op::AddNode(i, o)) => {
            let n = d.add_node(i as usize, o as usize)?;
            let ps: Vec<usize> = d.m.nodes[&n].ports.iter().flatten().copied().collect();
            c.write(&d.node_tag, &d.port_tag, n, &ps);
        }
        Act::G(Op::RemoveNode(s)) => {
            if let Some(n) = node(s) {
                let ps: Vec<usize> = d.m.nodes[&n].ports.iter().flatten().copied().collect();
                let t = d.node_tag[&n] as usize;
                d.remove_node(n);
                f.detach(t);
                f.detach_children(t);
                c.h.remove(ni(n));
                c.w.nodes.rekey(ni(n), None);
                SecondaryMap::rekey(&mut c.nset, ni(n), None);
                for p in ps {
                    c.port(p, None);
                }
                ctx.label("remove");
            }
        }
        Act::G(Op::SetPorts(s, i, o)) => {
            if let Some(n) = node(s) {
                let before = d.port_tag.clone();
                let ev = d.set_ports(n, i as usize, o as usize, ctx)?;
                for (p, op) in ev.ports {
                    let new = op.new_index().map(|x| x.index());
                    ensure_eq!(new.is_some(), matches!(op, PortOperation::Moved { .. }), "new_index of {op:?}");
                    c.port(p, new);
                }
                // Data of the added ports.
                let old: HashSet<u64> = before.into_values().collect();
                let ps: Vec<usize> =
                    d.m.nodes[&n].ports.iter().flatten().copied().filter(|p| !old.contains(&d.port_tag[p])).collect();
                for &p in &ps {
                    ensure_eq!(c.w[pi(p)], 0, "weight of the new port {p}");
                }
                c.write(&d.node_tag, &d.port_tag, n, &ps);
            }
        }
        Act::G(Op::CompactNodes) => {
            for (a, b) in d.compact_nodes(ctx)?.moved_nodes {
                c.node(a, b);
            }
        }
        Act::G(Op::CompactPorts) => {
            for (a, b) in d.compact_ports(ctx)?.moved_ports {
                c.port(a, Some(b));
            }
        }
        Act::G(Op::Swap(a, b)) => {
            let (x, y) = if G::MULTI {
                match (node(a), node(b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(()),
                }
            } else if d.slots > 0 {
                (a as usize % d.slots, b as usize % d.slots)
            } else {
                return Ok(());
            };
            d.swap(x, y);
            c.w.nodes.swap(ni(x), ni(y));
            c.sw.nodes.swap(ni(x), ni(y));
            SecondaryMap::swap(&mut c.nset, ni(x), ni(y));
            c.h.swap_nodes(ni(x), ni(y));
            ctx.label("swap");
        }
        Act::G(Op::Clear) => {
            d.step(&Op::Clear, ctx)?;
            *f = Forest::default();
            c.h = Hierarchy::new();
            c.w = Weights::new();
            c.nset.clear();
            c.bits.clear();
            c.dense = UnmanagedDenseMap::new();
        }
        Act::G(ref op) => d.step(op, ctx)?,
        Act::Attach(k, a, b) => {
            if let (Some(x), Some(y)) = (node(a), node(b)) {
                let (tx, ty) = (d.node_tag[&x] as usize, d.node_tag[&y] as usize);
                if f.parent.contains_key(&tx) || f.within(ty, tx) {
                    return Ok(());
                }
                ctx.label("attach");
                match (k % 3, f.parent.get(&ty).copied()) {
                    (0, _) => {
                        c.h.push_front_child(ni(x), ni(y)).map_err(|e| format!("push_front_child: {e:?}"))?;
                        f.attach(tx, ty, 0);
                    }
                    (1, Some(p)) => {
                        c.h.insert_after(ni(x), ni(y)).map_err(|e| format!("insert_after: {e:?}"))?;
                        let at = f.kids(p).iter().position(|z| *z == ty).unwrap();
                        f.attach(tx, p, at + 1);
                    }
                    _ => {
                        c.h.push_child(ni(x), ni(y)).map_err(|e| format!("push_child: {e:?}"))?;
                        let at = f.kids(ty).len();
                        f.attach(tx, ty, at);
                    }
                }
            }
        }
        Act::Detach(s) => {
            if let Some(n) = node(s) {
                c.h.detach(ni(n));
                f.detach(d.node_tag[&n] as usize);
            }
        }
        Act::Write(s, v) => {
            if let Some(n) = node(s) {
                // New data: new tags.
                let ps: Vec<usize> = d.m.nodes[&n].ports.iter().flatten().copied().collect();
                for &p in &ps {
                    d.port_tag.insert(p, 1_000_000 + d.next_tag * 8 + v as u64 % 8);
                    d.next_tag += 1;
                }
                c.write(&d.node_tag, &d.port_tag, n, &ps);
            }
        }
        Act::Shrink => {
            let n = d.m.node_ids().last().map_or(0, |x| x + 1);
            let p = d.m.port_ids().last().map_or(0, |x| x + 1);
            c.w.nodes.shrink_to(n);
            c.w.ports.shrink_to(p);
            c.dense.shrink_to(p);
            c.h.shrink_to(n);
            ctx.label("shrink");
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C15",
        "a graph with a Weights (rekeyed and swapped), hash set, bit vector, dense map and hierarchy kept \
         next to it as documented, under random histories; each datum must stay with its node or port; non-trivial: \
         nodes or ports moved at least twice with a hierarchy in use",
    );
    let len = |t: Tier| if t == Tier::Quick { 6..30 } else { 6..90 };
    c.run("single", 60_000, 2_000_000, |t| acts(false, len(t)), |o: &Vec<Act>, ctx| go::<PortGraph>(o, ctx));
    c.run("multi", 40_000, 1_500_000, |t| acts(true, len(t)), |o: &Vec<Act>, ctx| go::<MultiPortGraph>(o, ctx));
    c.run("large_single", 1_000, 40_000, |_| large(false), |o: &Vec<Act>, ctx| go::<PortGraph>(o, ctx));
    c.run("large_multi", 1_000, 40_000, |_| large(true), |o: &Vec<Act>, ctx| go::<MultiPortGraph>(o, ctx));
    c.finish()
}
