//! C05: indices stay stable and unique, and freed ones are used again.
use std::collections::{BTreeMap, BTreeSet};

use portgraph::{LinkView, MultiPortGraph, PortGraph, PortView};
use pgv::gen::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A round of work that ends by removing everything it added.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Churn {
    base: Spec,
    /// (kind, a, b, c)
    round: Vec<(u8, u16, u8, u8)>,
    order: u16,
    swap: bool,
    rounds: u8,
}

fn churn() -> impl Strategy<Value = Churn> {
    (
        spec(SpecParams { nodes: 4, ..SpecParams::default() }),
        prop::collection::vec((0u8..10, any::<u16>(), 0u8..6, 0u8..6), 1..25),
        any::<u16>(),
        any::<bool>(),
        6u8..11,
    )
        .prop_map(|(base, round, order, swap, rounds)| Churn { base, round, order, swap, rounds })
}

/// `top` reads the extent of the node and port indices in use, implicit ones
/// and the ports a node has room for included.
fn go_churn<G: TestGraph>(c: &Churn, top: impl Fn(&G) -> (usize, usize), ctx: &mut Ctx) -> TR {
    let mut d = build::<G>(&c.base, ctx)?;
    let base = d.m.clone();
    let mut bound = (0, 0);
    for r in 0..c.rounds {
        let mut mine: Vec<usize> = vec![];
        let mut high = top(&d.g);
        for &(k, a, x, y) in &c.round {
            let sel = |v: &[usize], s: u16| v.get(s as usize % v.len().max(1)).copied();
            match k {
                0..=2 => mine.push(d.add_node(x as usize, y as usize)?),
                3 => {
                    if let Some(n) = sel(&mine, a) {
                        mine.retain(|m| *m != n);
                        d.remove_node(n);
                    }
                }
                4 | 5 => {
                    if let Some(n) = sel(&mine, a) {
                        d.set_ports(n, x as usize, y as usize, ctx)?;
                    }
                }
                _ => {
                    // Link ports of the round's own nodes, chosen by position.
                    if let (Some(n), Some(m)) = (sel(&mine, a), sel(&mine, a / 7)) {
                        let (o, i) = (&d.m.nodes[&n].ports[1], &d.m.nodes[&m].ports[0]);
                        if !o.is_empty() && !i.is_empty() {
                            let (p, q) = (o[x as usize % o.len()], i[y as usize % i.len()]);
                            if G::MULTI || (d.m.port_links(p).is_empty() && d.m.port_links(q).is_empty()) {
                                d.link(p, q, ctx)?;
                            }
                        }
                    }
                }
            }
            let t = top(&d.g);
            high = (high.0.max(t.0), high.1.max(t.1));
        }
        if c.swap && mine.len() > 1 {
            d.swap(mine[0], mine[mine.len() - 1]);
        }
        // Remove the rest, in an order that varies between rounds.
        let mut k = c.order as usize;
        while !mine.is_empty() {
            k = k.wrapping_mul(5).wrapping_add(r as usize + 1);
            let n = mine.remove(k % mine.len());
            d.remove_node(n);
        }
        ensure_eq!(d.m.links.len(), base.links.len(), "model error: links of the base");
        if r < c.rounds / 2 {
            bound = (bound.0.max(high.0), bound.1.max(high.1));
        } else {
            ensure!(
                high.0 <= bound.0 && high.1 <= bound.1,
                "round {r} of the same work uses up to {} nodes and {} ports; the first half of the rounds used {} and {}",
                high.0,
                high.1,
                bound.0,
                bound.1
            )
        }
        // The base is untouched: same indices, same links.
        d.verify().map_err(|e| format!("after round {r}: {e}"))?;
        ensure_eq!(d.m, base, "untouched nodes, ports and links after round {r}");
    }
    ctx.nontrivial_if(ctx.count("link") > 0 && c.round.iter().any(|x| x.0 < 3) && !base.nodes.is_empty());
    Ok(())
}

fn top_plain<PO: portgraph::index::Unsigned>(g: &PortGraph<u32, u32, PO>) -> (usize, usize) {
    (
        g.nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0),
        g.nodes_iter()
            .filter_map(|n| {
                let first = g.all_ports(n).map(|p| p.index()).min()?;
                Some(first + g.node_port_capacity(n))
            })
            .max()
            .unwrap_or(0),
    )
}

/// Removing every node leaves nothing behind, implicit nodes included.
fn go_drain<G: TestGraph>(ops: &[Op], order: u16, empty: impl Fn(&G) -> bool, ctx: &mut Ctx) -> TR {
    let mut d = Driver::new(G::default());
    d.check_each = false;
    drain(&mut d, ops, order, empty, ctx)
}

fn drain<G: TestGraph>(d: &mut Driver<G>, ops: &[Op], order: u16, empty: impl Fn(&G) -> bool, ctx: &mut Ctx) -> TR {
    for op in ops {
        d.step(op, ctx)?;
    }
    let mut k = order as usize;
    let total = d.m.nodes.len();
    while !d.m.nodes.is_empty() {
        k = k.wrapping_mul(5).wrapping_add(1);
        let ids = d.m.node_ids();
        d.remove_node(ids[k % ids.len()]);
        if ids.len() % 3 == 0 {
            d.verify()?;
        }
    }
    ensure!(d.g.is_empty() && empty(&d.g), "something is left after removing every node: {:?}", d.g);
    d.verify()?;
    ctx.nontrivial_if(total >= 2 && ctx.count("link") > 1);
    // The emptied graph works like a new one.
    let a = d.add_node(2, 3)?;
    let b = d.add_node(1, 1)?;
    let p = d.m.nodes[&a].ports[1][2];
    let q = d.m.nodes[&b].ports[0][0];
    d.link(p, q, ctx)?;
    d.verify()
}

/// Peak live node count bounds the node indices of a plain graph.
fn go_peak(ops: &[Op], ctx: &mut Ctx) -> TR {
    let mut d: Driver<PortGraph> = Driver::new(PortGraph::new());
    d.check_each = false;
    let mut peak = 0;
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut reused = false;
    for (i, op) in ops.iter().enumerate() {
        d.step(op, ctx)?;
        peak = peak.max(d.m.nodes.len());
        if matches!(op, Op::Clear) {
            peak = 0;
            used.clear();
        }
        let top = d.m.node_ids().last().map_or(0, |x| x + 1);
        ensure!(
            top <= peak,
            "step {i} ({op:?}): node index {} in use although at most {peak} nodes were live at once",
            top - 1
        );
        if let Op::AddNode(..) = op {
            reused |= used.len() >= d.m.nodes.len();
        }
        used.extend(d.m.node_ids());
    }
    ctx.nontrivial_if(reused && ctx.count("remove_node") > 0);
    d.verify()
}

/// A port lists no more subports than it had links at once: those that were
/// unlinked are used again. Work that renumbers ports starts a new count.
fn go_subports(ops: &[Op], ctx: &mut Ctx) -> TR {
    let mut d: Driver<MultiPortGraph> = Driver::new(MultiPortGraph::new());
    d.check_each = false;
    let mut peak: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        let before = d.m.clone();
        d.step(op, ctx)?;
        let same = before.port_ids() == d.m.port_ids() && before.nodes == d.m.nodes;
        let links = matches!(
            op,
            Op::Link(..) | Op::LinkRev(..) | Op::LinkNodes(..) | Op::LinkOffsets(..) | Op::LinkAny(..) | Op::LinkSub(..) | Op::LinkSubAny(..)
                | Op::Unlink(..) | Op::UnlinkAny(..) | Op::UnlinkSub(..) | Op::UnlinkSubAny(..)
        );
        let mut count: BTreeMap<usize, usize> = BTreeMap::new();
        for n in d.m.node_ids() {
            for e in 0..2 {
                for h in d.g.list_subports(n, e) {
                    *count.entry(h.0).or_insert(0) += 1;
                }
            }
        }
        if !(same && links) {
            peak = count;
            continue;
        }
        for (p, c) in count {
            let now = d.m.port_links(p).len();
            let most = peak.entry(p).or_insert(1);
            if before.port_links(p).is_empty() && now == 1 {
                ctx.label("first link");
            }
            if now > before.port_links(p).len() && now <= *most {
                ctx.label("link to a free subport");
            }
            *most = (*most).max(now);
            ensure!(c <= *most, "step {i} ({op:?}): port {p} has {c} subports although it had at most {most} links at once");
        }
    }
    ctx.nontrivial_if(ctx.count("link to a free subport") > 0);
    d.verify()
}

fn empty_multi(g: &MultiPortGraph) -> bool {
    let f = g.as_portgraph();
    g.port_count() == 0 && g.link_count() == 0 && f.node_count() == 0 && f.port_count() == 0 && f.link_count() == 0
}

fn main() {
    let mut c = Check::start(
        "C05",
        "a round of insertions, links, resizes and removals next to a fixed base graph, repeated in varying removal \
         order: indices of the base stay put, indices used by the rounds do not grow; histories drained to empty; \
         node indices bounded by the peak number of live nodes, and the subports of a port by the peak number of its links; non-trivial: links present and nodes reused",
    );
    c.run("churn", 40_000, 1_000_000, |_| churn(), |o: &Churn, ctx| go_churn::<PortGraph>(o, top_plain, ctx));
    c.run("churn_multi", 25_000, 800_000, |_| churn(), |o: &Churn, ctx| {
        go_churn::<MultiPortGraph>(o, |g| top_plain(g.as_portgraph()), ctx)
    });
    let len = |t: Tier| if t == Tier::Quick { 3..30 } else { 3..100 };
    let mix = Mix { reject: 0, ..Mix::default() };
    c.run("drain", 30_000, 600_000, |t| (ops(mix, len(t)), any::<u16>()), |o: &(Vec<Op>, u16), ctx| {
        go_drain::<PortGraph>(&o.0, o.1, |g| g.port_count() == 0 && g.link_count() == 0, ctx)
    });
    c.run(
        "drain_multi",
        40_000,
        800_000,
        |t| (ops(Mix { multi: true, sub: 6, max_ports: 3, ..mix }, len(t)), any::<u16>()),
        |o: &(Vec<Op>, u16), ctx| {
            go_drain::<MultiPortGraph>(&o.0, o.1, empty_multi, ctx)
        },
    );
    c.run(
        "peak",
        40_000,
        800_000,
        |t| ops(Mix { remove: 14, add: 16, swap: 6, compact: 2, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go_peak(o, ctx),
    );
    c.run(
        "subports",
        40_000,
        800_000,
        |t| ops(Mix { multi: true, sub: 30, unlink: 2, set: 1, max_ports: 2, add: 4, remove: 1, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go_subports(o, ctx),
    );
    let far = || (far(None), ops(mix, 0..10), any::<u16>());
    c.run("drain_far", 30, 2_000, |_| far(), |o: &(Spec, Vec<Op>, u16), ctx| {
        let mut d = build(&o.0, ctx)?;
        drain(&mut d, &o.1, o.2, |g: &PortGraph| g.port_count() == 0 && g.link_count() == 0, ctx)
    });
    c.run("drain_far_multi", 30, 2_000, |_| far(), |o: &(Spec, Vec<Op>, u16), ctx| {
        let mut d = build(&o.0, ctx)?;
        drain(&mut d, &o.1, o.2, empty_multi, ctx)
    });
    let large = || (large(None), ops(mix, 0..10), any::<u16>());
    c.run("drain_large", 1_000, 40_000, |_| large(), |o: &(Spec, Vec<Op>, u16), ctx| {
        let mut d = build(&o.0, ctx)?;
        drain(&mut d, &o.1, o.2, |g: &PortGraph| g.port_count() == 0 && g.link_count() == 0, ctx)
    });
    c.run("drain_large_multi", 1_000, 40_000, |_| large(), |o: &(Spec, Vec<Op>, u16), ctx| {
        let mut d = build(&o.0, ctx)?;
        drain(&mut d, &o.1, o.2, empty_multi, ctx)
    });
    c.finish()
}
