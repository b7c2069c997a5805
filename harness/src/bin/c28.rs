//! C28: the dynamic convexity checker behaves as a graph that stays acyclic.
use std::collections::BTreeSet;

use portgraph::{Direction, NodeIndex};
use pgv::deep::*;
use pgv::{bit16, bit32};
use pgv::hist::TestGraph;
use pgv::model::*;
use pgv::runner::{no_panic, Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq, pick};
use portgraph::algorithms::{ConvexChecker, DynamicTopoConvexChecker};
use portgraph::{LinkMut, MultiPortGraph, PortGraph, PortMut, PortOffset};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Add(u8, u8),
    Remove(u16),
    RemoveMissing(u16),
    /// Link an output to an input (in either order of the arguments) so that
    /// the graph stays acyclic.
    Link(u16, u16, bool),
    /// Link any output to any input.
    LinkAny(u16, u16, bool),
    /// Link any two port indices.
    LinkBad(u16, u16),
    LinkNodes(u16, u8, u16, u8),
    Unlink(u16),
    SetPorts(u16, u8, u8),
    Swap(u16, u16, bool),
    CompactNodes,
    CompactPorts,
    Insert(u16),
    Shrink,
    Clear,
    Ask(Query),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Query {
    sel: u32,
    ins: u32,
    outs: u32,
    unknown: bool,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// Operations done before the checker is made.
    before: Vec<Op>,
    ops: Vec<Op>,
}

fn query() -> impl Strategy<Value = Query> {
    let sparse = || prop_oneof![2 => Just(0u32), 2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)];
    (
        prop_oneof![3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b), 1 => any::<u32>(), 2 => (any::<u32>(), any::<u32>(), any::<u32>()).prop_map(|(a, b, c)| a & b & c)],
        sparse(),
        sparse(),
        prop::bool::weighted(0.05),
    )
        .prop_map(|(sel, ins, outs, unknown)| Query { sel, ins, outs, unknown })
}

fn op() -> impl Strategy<Value = Op> {
    let s = || any::<u16>();
    let p = || 0u8..4;
    prop_oneof![
        60 => (p(), p()).prop_map(|(a, b)| Op::Add(a, b)),
        20 => s().prop_map(Op::Remove),
        4 => s().prop_map(Op::RemoveMissing),
        180 => (s(), s(), any::<bool>()).prop_map(|(a, b, c)| Op::Link(a, b, c)),
        20 => (s(), s(), any::<bool>()).prop_map(|(a, b, c)| Op::LinkAny(a, b, c)),
        8 => (s(), s()).prop_map(|(a, b)| Op::LinkBad(a, b)),
        20 => (s(), p(), s(), p()).prop_map(|(a, b, c, d)| Op::LinkNodes(a, b, c, d)),
        30 => s().prop_map(Op::Unlink),
        15 => (s(), p(), p()).prop_map(|(a, b, c)| Op::SetPorts(a, b, c)),
        15 => (s(), s(), any::<bool>()).prop_map(|(a, b, c)| Op::Swap(a, b, c)),
        10 => Just(Op::CompactNodes),
        10 => Just(Op::CompactPorts),
        8 => s().prop_map(Op::Insert),
        4 => Just(Op::Shrink),
        1 => Just(Op::Clear),
        60 => query().prop_map(Op::Ask),
    ]
}

fn case(len: usize, big: bool) -> impl Strategy<Value = Case> {
    let (nodes, links) = if big { (30..70, 20..90) } else { (0..9, 0..10) };
    let pre = move || {
        (
            prop::collection::vec((0u8..4, 0u8..4).prop_map(|(a, b)| Op::Add(a, b)), nodes.clone()),
            prop::collection::vec((any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(a, b, c)| Op::Link(a, b, c)), links.clone()),
        )
            .prop_map(|(mut a, b)| {
                a.extend(b);
                a
            })
    };
    (prop_oneof![Just(vec![]).boxed(), pre().boxed()], pre(), prop::collection::vec(op(), 1..len)).prop_map(|(before, mut a, b)| {
        a.extend(b);
        Case { before, ops: a }
    })
}

fn reach(m: &Model, from: usize, to: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if n == to {
            return true;
        }
        if seen.insert(n) {
            todo.extend(m.succ(n));
        }
    }
    false
}

fn node_convex(m: &Model, keep: &BTreeSet<usize>) -> bool {
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = keep.iter().flat_map(|n| m.succ(*n)).filter(|n| !keep.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if keep.contains(&n) {
            return false;
        }
        if seen.insert(n) {
            todo.extend(m.succ(n));
        }
    }
    true
}

/// Link two ports in a graph where all effects are allowed, or check that the
/// cycle is refused.
fn would_cycle<G: TestGraph>(m: &Model, a: usize, b: usize) -> bool {
    let (Some(x), Some(y)) = (m.ports.get(&a), m.ports.get(&b)) else { return false };
    let (src, dst) = match (x.1, y.1) {
        (OUT, IN) => (x.0, y.0),
        (IN, OUT) => (y.0, x.0),
        _ => return false,
    };
    reach(m, dst, src)
}

fn taken<G: TestGraph>(m: &Model, a: usize, b: usize) -> bool {
    !G::MULTI && (!m.port_links(a).is_empty() || !m.port_links(b).is_empty())
}

struct Pair<G> {
    c: DynamicTopoConvexChecker<G>,
    /// The same graph without the checker.
    g: G,
    m: Model,
    /// `None` while the checker has not been made yet.
    made: bool,
    /// Indices `swap_nodes` may be given.
    slots: usize,
    against: u64,
}

impl<G: TestGraph> Pair<G> {
    /// One mutation on both graphs.
    fn both<R>(&mut self, f: impl Fn(&mut G) -> R, h: impl Fn(&mut DynamicTopoConvexChecker<G>) -> R) -> (R, R) {
        let old = (!self.made).then(|| self.g.clone());
        let x = f(&mut self.g);
        let y = match old {
            Some(mut g) => f(&mut g),
            None => h(&mut self.c),
        };
        self.m = Model::read(&self.g);
        (x, y)
    }

    fn link(&mut self, a: usize, b: usize, ctx: &mut Ctx) -> TR {
        if would_cycle::<G>(&self.m, a, b) {
            if !self.made {
                return Ok(());
            }
            let c = &mut self.c;
            match no_panic(|| c.link_ports(pi(a), pi(b))) {
                Ok(Ok(x)) => return Err(format!("link_ports({a},{b}) closed a cycle and returned {x:?}")),
                Ok(Err(e)) => {
                    let mut g = self.g.clone();
                    ensure!(taken::<G>(&self.m, a, b) && g.link_ports(pi(a), pi(b)) == Err(e.clone()), "link_ports({a},{b}), which would close a cycle, returned {e:?}");
                }
                Err(_) => ctx.label("cycle refused"),
            }
            return Ok(());
        }
        if self.made {
            if let (Some(x), Some(y)) = (self.m.ports.get(&a), self.m.ports.get(&b)) {
                let (s, t) = if x.1 == OUT { (x.0, y.0) } else { (y.0, x.0) };
                if s > t {
                    self.against += 1;
                }
                ctx.label_if(s > t, "link against the index order");
            }
        }
        let (x, y) = self.both(|g| g.link_ports(pi(a), pi(b)), |c| c.link_ports(pi(a), pi(b)));
        ensure_eq!(y, x, "link_ports({a},{b})");
        ctx.label(if x.is_ok() { "link" } else { "rejected link" });
        Ok(())
    }

    fn verify(&self, ctx: &mut Ctx) -> TR {
        if !self.made {
            return Ok(());
        }
        check_view(&self.c, &self.m, ViewOpts { absent: !G::MULTI, pairs: false, ports: true })?;
        let ids = self.m.node_ids();
        // Every pair and one sliding window after each step.
        for w in [2, 3] {
            for s in ids.windows(w) {
                self.ask(s, &[], &[], ctx)?;
                if w == 3 {
                    self.ask(&[s[0], s[2]], &[], &[], ctx)?;
                }
            }
        }
        Ok(())
    }

    fn ask(&self, ids: &[usize], ins: &[usize], outs: &[usize], ctx: &mut Ctx) -> TR {
        let keep: BTreeSet<usize> = ids.iter().copied().collect();
        let known = ids.iter().all(|n| self.m.nodes.contains_key(n));
        let want = known && node_convex(&self.m, &keep);
        let loops = outs.iter().any(|o| self.m.port_links(*o).iter().any(|(_, i)| ins.contains(&i.0)));
        let got = self.c.is_convex(ids.iter().map(|n| ni(*n)), ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p)));
        ensure_eq!(got, want && !loops, "is_convex of {ids:?}, {ins:?}, {outs:?}");
        ctx.label(if want { "convex" } else { "not convex" });
        Ok(())
    }

    fn step(&mut self, op: &Op, ctx: &mut Ctx) -> TR {
        let ids = self.m.node_ids();
        let node = |s: u16| pick(&ids, s as usize);
        let of = |d: usize| -> Vec<usize> { self.m.ports.iter().filter(|(_, t)| t.1 == d).map(|(p, _)| *p).collect() };
        match *op {
            Op::Add(i, o) => {
                let (x, y) = self.both(|g| g.add_node(i as usize, o as usize), |c| c.add_node(i as usize, o as usize));
                ensure_eq!(y, x, "add_node");
                self.slots = self.slots.max(x.index() + 1);
            }
            Op::Remove(s) => {
                if let Some(n) = node(s) {
                    self.both(|g| g.remove_node(ni(n)), |c| c.remove_node(ni(n)));
                }
            }
            Op::RemoveMissing(s) => {
                let n = if G::MULTI { self.g.node_capacity() + 64 + s as usize } else { s as usize % (self.slots + 3) };
                if !ids.contains(&n) && !G::MULTI {
                    self.both(|g| g.remove_node(ni(n)), |c| c.remove_node(ni(n)));
                }
            }
            Op::Link(a, b, rev) => {
                let mut outs = of(OUT);
                if !G::MULTI {
                    outs.retain(|p| self.m.port_links(*p).is_empty());
                }
                let Some(o) = pick(&outs, a as usize) else { return Ok(()) };
                let mut ins = of(IN);
                ins.retain(|i| (G::MULTI || self.m.port_links(*i).is_empty()) && !would_cycle::<G>(&self.m, o, *i));
                let Some(i) = pick(&ins, b as usize) else { return Ok(()) };
                let (x, y) = if rev { (i, o) } else { (o, i) };
                self.link(x, y, ctx)?;
            }
            Op::LinkAny(a, b, rev) => {
                if let (Some(o), Some(i)) = (pick(&of(OUT), a as usize), pick(&of(IN), b as usize)) {
                    let (x, y) = if rev { (i, o) } else { (o, i) };
                    self.link(x, y, ctx)?;
                }
            }
            Op::LinkBad(a, b) => {
                let top = self.m.port_ids().last().map_or(0, |x| x + 1);
                // Indices past all ports; hidden ports of a multiport graph lie before that.
                let mut ps = self.m.port_ids();
                if !G::MULTI {
                    ps.extend([top, top + 7]);
                }
                if let (Some(x), Some(y)) = (pick(&ps, a as usize), pick(&ps, b as usize)) {
                    self.link(x, y, ctx)?;
                }
            }
            Op::LinkNodes(a, i, b, j) => {
                if let (Some(x), Some(y)) = (node(a), node(b)) {
                    let ports = (
                        self.m.nodes[&x].ports[OUT].get(i as usize).copied(),
                        self.m.nodes[&y].ports[IN].get(j as usize).copied(),
                    );
                    if let (Some(p), Some(q)) = ports {
                        if would_cycle::<G>(&self.m, p, q) {
                            return Ok(());
                        }
                    }
                    let (i, j) = (i as usize, j as usize);
                    let (r, s) = self.both(|g| g.link_nodes(ni(x), i, ni(y), j), |c| c.link_nodes(ni(x), i, ni(y), j));
                    ensure_eq!(s, r, "link_nodes({x},{i},{y},{j})");
                    if ids.len() > 1 {
                        let o = PortOffset::new_outgoing(9);
                        let (r, s) = self.both(|g| g.link_offsets(ni(x), o, ni(y), o), |c| c.link_offsets(ni(x), o, ni(y), o));
                        ensure_eq!(s, r, "link_offsets");
                    }
                }
            }
            Op::Unlink(s) => {
                let mut ps = self.m.port_ids();
                if s % 4 != 0 {
                    ps.retain(|p| !self.m.port_links(*p).is_empty());
                }
                if let Some(p) = pick(&ps, s as usize) {
                    let (x, y) = self.both(|g| g.unlink_port(pi(p)), |c| c.unlink_port(pi(p)));
                    ensure_eq!(y, x, "unlink_port({p})");
                    ctx.label_if(x.is_some(), "unlink");
                }
            }
            Op::SetPorts(s, i, o) => {
                if let Some(n) = node(s) {
                    let (mut a, mut b) = (vec![], vec![]);
                    self.g.set_num_ports(ni(n), i as usize, o as usize, |p, e| a.push((p, e)));
                    if self.made {
                        self.c.set_num_ports(ni(n), i as usize, o as usize, |p, e| b.push((p, e)));
                        ensure_eq!(b, a, "reports of set_num_ports({n},{i},{o})");
                    }
                    self.m = Model::read(&self.g);
                }
            }
            Op::Swap(a, b, free) => {
                let all: Vec<usize> = if free && !G::MULTI { (0..self.slots).collect() } else { ids.clone() };
                if let (Some(x), Some(y)) = (pick(&all, a as usize), pick(&all, b as usize)) {
                    self.both(|g| g.swap_nodes(ni(x), ni(y)), |c| c.swap_nodes(ni(x), ni(y)));
                    ctx.label_if(x != y, "swap");
                    ctx.label_if(ids.contains(&x) != ids.contains(&y), "swap with a free index");
                }
            }
            Op::CompactNodes => {
                let (mut a, mut b) = (vec![], vec![]);
                self.g.compact_nodes(|x, y| a.push((x, y)));
                if self.made {
                    self.c.compact_nodes(|x, y| b.push((x, y)));
                    ensure_eq!(b, a, "reports of compact_nodes");
                    ctx.label_if(a.iter().any(|(x, y)| x != y), "compaction moved a node");
                }
                self.m = Model::read(&self.g);
                self.slots = self.m.node_ids().last().map_or(0, |x| x + 1);
            }
            Op::CompactPorts => {
                let (mut a, mut b) = (vec![], vec![]);
                self.g.compact_ports(|x, y| a.push((x, y)));
                if self.made {
                    self.c.compact_ports(|x, y| b.push((x, y)));
                    ensure_eq!(b, a, "reports of compact_ports");
                }
                self.m = Model::read(&self.g);
            }
            Op::Insert(s) => {
                // A copy of this graph, without some nodes.
                if ids.len() > 12 {
                    return Ok(());
                }
                let mut other = self.g.clone();
                for n in &ids {
                    if !bit16(s, n) {
                        other.remove_node(ni(*n));
                    }
                }
                let before: BTreeSet<usize> = ids.iter().copied().collect();
                let m = Model::read(&other);
                if !self.made {
                    return Ok(());
                }
                // The iteration order of plain graphs and checkers may differ,
                // so follow the map of the checker.
                let map = self.c.insert_graph(&other).map_err(|e| format!("insert_graph failed with {e:?}"))?;
                ensure_eq!(map.len(), m.nodes.len(), "nodes mapped by insert_graph");
                let now = Model::read(&self.c);
                ensure_eq!(now.nodes.len(), before.len() + map.len(), "nodes after insert_graph");
                for (old, new) in &map {
                    ensure!(!before.contains(&new.index()), "insert_graph reused node {new:?}");
                    let x: Vec<_> = m.links_of(old.index(), OUT).iter().map(|(a, b)| (m.ports[&a.0].2, map[&ni(m.owner(*b))].index(), m.ports[&b.0].2)).collect();
                    let y: Vec<_> = now.links_of(new.index(), OUT).iter().map(|(a, b)| (now.ports[&a.0].2, now.owner(*b), now.ports[&b.0].2)).collect();
                    let sort = |mut v: Vec<(usize, usize, usize)>| {
                        v.sort();
                        v
                    };
                    ensure_eq!(sort(y), sort(x), "links of the copy of {old:?}");
                }
                ctx.label_if(m.link_count() > 0, "insert_graph");
                // Repeat on the plain graph and expect the same indices.
                let map2 = self.g.insert_graph(&other).map_err(|e| format!("insert_graph failed with {e:?}"))?;
                ensure!(map2 == map, "insert_graph of the checker returned {map:?}, of the graph {map2:?}");
                self.m = Model::read(&self.g);
                self.slots = self.slots.max(self.m.node_ids().last().map_or(0, |x| x + 1));
            }
            Op::Shrink => {
                self.both(|g| g.shrink_to_fit(), |c| c.shrink_to_fit());
                self.both(|g| g.reserve(5, 9), |c| c.reserve(5, 9));
            }
            Op::Clear => {
                self.both(|g| g.clear(), |c| c.clear());
                self.slots = 0;
            }
            Op::Ask(ref q) => {
                if !self.made {
                    return Ok(());
                }
                let mut sel: Vec<usize> = ids.iter().copied().filter(|n| bit32(q.sel, n)).collect();
                let ports = |d: usize, mask: u32| -> Vec<usize> {
                    sel.iter().flat_map(|n| self.m.nodes[n].ports[d].iter().copied()).enumerate().filter(|(k, _)| bit32(mask, k)).map(|x| x.1).collect()
                };
                let (ins, outs) = (ports(IN, q.ins), ports(OUT, q.outs));
                if q.unknown {
                    sel.push(self.g.node_capacity() + 40);
                }
                self.ask(&sel, &ins, &outs, ctx)?;
                ctx.label_if(!ins.is_empty() && !outs.is_empty(), "asked with ports");
            }
        }
        self.verify(ctx)
    }
}

fn go<G: TestGraph>(case: &Case, ctx: &mut Ctx) -> TR {
    let mut p = Pair { c: DynamicTopoConvexChecker::new(G::default()), g: G::default(), m: Model::default(), made: false, slots: 0, against: 0 };
    for o in &case.before {
        p.step(o, ctx)?;
    }
    p.c = DynamicTopoConvexChecker::new(p.g.clone());
    p.made = true;
    ctx.label_if(p.m.link_count() > 0, "made from a graph with links");
    p.verify(ctx)?;
    for (k, o) in case.ops.iter().enumerate() {
        p.step(o, ctx).map_err(|e| format!("step {k} {o:?}: {e}"))?;
    }
    ctx.nontrivial_if(p.against > 0 && p.m.link_count() > 1);
    Ok(())
}

/// Links that move whole chains in the topological order.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let (mut g, order) = c.graph::<PortGraph>()?;
    let (x, y) = (g.add_node(2, 2), g.add_node(2, 2));
    let mut k = DynamicTopoConvexChecker::new(g);
    let at = c.at();
    let (a, b, last) = (at[0], at[at.len() - 1], order.len() - 1);
    let check = |k: &DynamicTopoConvexChecker<PortGraph>, when: &str| -> TR {
        let ask = |v: Vec<NodeIndex>| k.is_convex(v, [], []);
        ensure!(ask(order[a..=b].to_vec()), "{when}: nodes {a} to {b} of a chain of {}", c.n);
        ensure_eq!(ask(vec![order[a], order[b]]), b - a < 2, "{when}: nodes {a} and {b} of a chain of {}", c.n);
        Ok(())
    };
    check(&k, "new")?;
    // Behind the last node and before the first.
    link(&mut k, order[last], 0, x, 0)?;
    check(&k, "after a link from the end")?;
    link(&mut k, y, 0, order[0], 0)?;
    check(&k, "after a link to the start")?;
    ensure!(!k.is_convex([y, x], [], []), "the ends of a chain of {}", c.n);
    // A link that would close the cycle.
    let (o, i) = (port(&k, x, Direction::Outgoing, 0), port(&k, y, Direction::Incoming, 0));
    ensure!(no_panic(|| k.link_ports(o, i).is_ok()).is_err(), "a cycle of {} nodes was accepted", c.n + 2);
    // Cut the chain and turn the halves around.
    let cut = port(&k, order[b], Direction::Outgoing, 0);
    if c.skip.is_none() && b < last && k.unlink_port(cut).is_some() {
        let (o, i) = (port(&k, x, Direction::Outgoing, 0), port(&k, y, Direction::Incoming, 0));
        k.link_ports(o, i).map_err(|e| e.to_string())?;
        check(&k, "after turning the halves around")?;
        ensure!(k.is_convex([x, y], [], []), "the turned ends of a chain of {}", c.n);
        ensure_eq!(k.is_convex([order[b + 1], order[b]], [], []), false, "the cut ends of a chain of {}", c.n);
    }
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C28",
        "random histories of mutations of a DynamicTopoConvexChecker, made from an empty or a random acyclic graph, in step with the \
         bare graph; after every operation all queries agree and is_convex of all windows of two and three nodes equals path search; \
         non-trivial: some link went against the index order and links remain at the end",
    );
    c.run("single", 14_000, 500_000, |t| case(if t == Tier::Thorough { 70 } else { 40 }, false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 14_000, 500_000, |t| case(if t == Tier::Thorough { 70 } else { 40 }, false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 150, 6_000, |_| case(15, true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 150, 6_000, |_| case(15, true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("deep", 12, 300, |_| deep(), go_deep);
    c.finish()
}
