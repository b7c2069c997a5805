//! C19: boundaries and the order of their ports.
use std::collections::{BTreeMap, BTreeSet};

use pgv::{bit16, bit32};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{no_panic, Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::boundary::{Boundary, BoundaryPort, HasBoundary, PortOrdering};
use portgraph::view::Subgraph;
use portgraph::{Direction, LinkView, MultiPortGraph, PortGraph};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    sel: u16,
    shuffle: Vec<u16>,
    /// Links dropped from the second graph.
    drop: u32,
    extra: Vec<(u16, u16)>,
    /// Explicit boundary on free ports of the whole graph.
    free: bool,
    pick: u32,
    perm: Vec<u16>,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, Some(true), spec(SpecParams { nodes: 9, links: 18, acyclic: Some(true), ..SpecParams::default() })),
        prop_oneof![(any::<u16>(), any::<u16>()).prop_map(|(a, b)| a | b), any::<u16>(), Just(u16::MAX)],
        prop::collection::vec(any::<u16>(), 9),
        prop_oneof![(any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b), Just(0)],
        prop::collection::vec((any::<u16>(), any::<u16>()), 0..=2),
        any::<bool>(),
        (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b),
        prop::collection::vec(any::<u16>(), 0..=8),
    )
        .prop_map(|(g, sel, shuffle, drop, extra, free, pick, perm)| Case { g, sel, shuffle, drop, extra, free, pick, perm })
}

fn reach(m: &Model, from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            todo.extend(m.succ(n));
        }
    }
    seen
}

type Pairs = BTreeSet<(usize, usize)>;

/// Positions (input, output) in the boundary such that the output is reachable.
fn pairs(m: &Model, b: &Boundary) -> Pairs {
    let mut out = Pairs::new();
    for (i, p) in b.input_indices().iter().enumerate() {
        let r = reach(m, m.ports[&p.index()].0);
        for (o, q) in b.output_indices().iter().enumerate() {
            if r.contains(&m.ports[&q.index()].0) {
                out.insert((i, o));
            }
        }
    }
    out
}

fn api(b: &Boundary, ins: &[usize], outs: &[usize]) -> TR {
    let idx = |v: &[portgraph::PortIndex]| v.iter().map(|p| p.index()).collect::<Vec<_>>();
    ensure_eq!(idx(b.input_indices()), ins, "input_indices");
    ensure_eq!(idx(b.output_indices()), outs, "output_indices");
    ensure_eq!(idx(&b.port_indices().collect::<Vec<_>>()), [ins, outs].concat(), "port_indices");
    ensure_eq!(b.num_ports(), ins.len() + outs.len(), "num_ports");
    let mut all: Vec<BoundaryPort> = vec![];
    for (d, want) in [(Direction::Incoming, ins), (Direction::Outgoing, outs)] {
        let bp: Vec<BoundaryPort> = b.ports(d).collect();
        let same: Vec<BoundaryPort> = if d == Direction::Incoming { b.inputs().collect() } else { b.outputs().collect() };
        ensure_eq!(bp, same, "ports({d:?}) and its shortcut");
        let got: Vec<usize> = bp.iter().map(|p| b.port_index(p).index()).collect();
        ensure_eq!(got, want, "port_index of ports({d:?})");
        for p in &bp {
            ensure_eq!(b.find_port(b.port_index(p), d), *p, "find_port");
        }
        all.extend(bp);
    }
    let distinct: BTreeSet<BoundaryPort> = all.iter().copied().collect();
    ensure_eq!(distinct.len(), all.len(), "distinct boundary ports");
    Ok(())
}

fn ordering(o: &PortOrdering, b: &Boundary, want: &Pairs, what: &str) -> TR {
    let (ins, outs): (Vec<_>, Vec<_>) = (b.inputs().collect(), b.outputs().collect());
    let (mut fwd, mut bwd) = (Pairs::new(), Pairs::new());
    for (i, p) in ins.iter().enumerate() {
        for q in o.reachable_ports(*p) {
            let k = outs.iter().position(|x| x == q).ok_or_else(|| format!("{what}: {q:?} is not an output of the boundary"))?;
            fwd.insert((i, k));
        }
    }
    for (k, q) in outs.iter().enumerate() {
        for p in o.reaching_ports(*q) {
            let i = ins.iter().position(|x| x == p).ok_or_else(|| format!("{what}: {p:?} is not an input of the boundary"))?;
            bwd.insert((i, k));
        }
    }
    ensure_eq!(fwd, *want, "{what}: reachable_ports of {b:?}");
    ensure_eq!(bwd, *want, "{what}: reaching_ports of {b:?}");
    Ok(())
}

fn stronger<A: LinkView, B: LinkView>(
    (ba, ga, wa): (&Boundary, &A, &Pairs),
    (bb, gb, wb): (&Boundary, &B, &Pairs),
    ctx: &mut Ctx,
) -> TR {
    let (oa, ob) = (ba.port_ordering(ga), bb.port_ordering(gb));
    let want = wa.is_superset(wb);
    ensure_eq!(oa.is_stronger_than(&ob), want, "is_stronger_than of {wa:?} and {wb:?}");
    ensure_eq!(ba.is_stronger_than(bb, ga, gb), want, "Boundary::is_stronger_than of {wa:?} and {wb:?}");
    let (ins, outs): (Vec<_>, Vec<_>) = (bb.inputs().collect(), bb.outputs().collect());
    let mut miss: Vec<(usize, usize)> = vec![];
    for (p, q) in oa.missing_pairs(&ob) {
        let i = ins.iter().position(|x| *x == p).ok_or("missing_pairs: first is not an input")?;
        let k = outs.iter().position(|x| *x == q).ok_or("missing_pairs: second is not an output")?;
        miss.push((i, k));
    }
    miss.sort();
    ensure_eq!(miss, wb.difference(wa).copied().collect::<Vec<_>>(), "missing_pairs of {wa:?} and {wb:?}");
    ctx.label(match (want, wa == wb) {
        (_, true) => "same order",
        (true, _) => "stronger",
        _ => "not stronger",
    });
    Ok(())
}

/// Relations over different sets of ports cannot be compared.
fn refused<G: LinkView>(a: &Boundary, b: &Boundary, g: &G) -> TR {
    let (oa, ob) = (a.port_ordering(g), b.port_ordering(g));
    for (x, y) in [(&oa, &ob), (&ob, &oa)] {
        ensure!(no_panic(|| x.is_stronger_than(y)).is_err(), "is_stronger_than answers for orderings over different ports: {a:?} / {b:?}");
        ensure!(no_panic(|| x.missing_pairs(y).count()).is_err(), "missing_pairs answers for orderings over different ports: {a:?} / {b:?}");
    }
    Ok(())
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let (g, base) = (&d.g, &d.m);
    if c.free {
        // Free ports of the whole graph, in any order.
        let mut ps: Vec<usize> =
            base.port_ids().into_iter().filter(|p| base.port_links(*p).is_empty()).enumerate().filter(|(k, _)| bit32(c.pick, k)).map(|x| x.1).collect();
        for (i, s) in c.perm.iter().enumerate().take(ps.len()) {
            let j = i + *s as usize % (ps.len() - i);
            ps.swap(i, j);
        }
        let (ins, outs): (Vec<usize>, Vec<usize>) = ps.iter().copied().partition(|p| base.ports[p].1 == IN);
        let b = Boundary::from_ports(g, ps.iter().map(|p| pi(*p)));
        ensure!(b == Boundary::new(ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p))), "from_ports and new");
        api(&b, &ins, &outs)?;
        let want = pairs(base, &b);
        ordering(&b.port_ordering(g), &b, &want, "whole graph")?;
        ctx.label_if(!want.is_empty(), "free ports");
        // The same ports in another order, and a boundary one port smaller.
        let b2 = Boundary::new(ins.iter().rev().map(|p| pi(*p)), outs.iter().rev().map(|p| pi(*p)));
        ensure!(b.is_compatible(&b2), "is_compatible");
        let w2 = pairs(base, &b2);
        stronger((&b, g, &want), (&b2, g, &w2), ctx)?;
        if !ins.is_empty() {
            let fewer = Boundary::new(ins[1..].iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p)));
            ensure!(!b.is_compatible(&fewer), "compatible with fewer inputs");
            if c.pick % 8 == 0 {
                refused(&b, &fewer, g)?;
            }
            if outs.len() != ins.len() {
                let turned = Boundary::new(outs.iter().map(|p| pi(*p)), ins.iter().map(|p| pi(*p)));
                ensure!(!b.is_compatible(&turned), "compatible with inputs and outputs exchanged");
            }
        }
        if !outs.is_empty() && c.pick % 8 == 1 {
            let fewer = Boundary::new(ins.iter().map(|p| pi(*p)), outs[1..].iter().map(|p| pi(*p)));
            ensure!(!b.is_compatible(&fewer), "compatible with fewer outputs");
            refused(&b, &fewer, g)?;
        }
        // A graph with some links dropped and others added, same boundary.
        let mut e = build::<G>(&c.g, ctx)?;
        let edges = e.m.edges();
        for (k, (a, _)) in edges.iter().enumerate() {
            if bit32(c.drop, k) {
                e.g.unlink_port(pi(a.0));
                for (x, _) in e.m.port_links(a.0) {
                    e.m.unlink(x);
                    if G::MULTI {
                        break;
                    }
                }
            }
        }
        if G::MULTI {
            // unlink_port picks a link by itself.
            e.m = Model::read(&e.g);
        }
        let frees: Vec<usize> = e.m.port_ids().into_iter().filter(|p| e.m.port_links(*p).is_empty() && !ps.contains(p)).collect();
        for &(x, y) in &c.extra {
            if frees.is_empty() {
                break;
            }
            let (x, y) = (frees[x as usize % frees.len()], frees[y as usize % frees.len()]);
            let (nx, ny) = (e.m.ports[&x], e.m.ports[&y]);
            if nx.1 == OUT && ny.1 == IN && e.m.port_links(x).is_empty() && e.m.port_links(y).is_empty() && !reach(&e.m, ny.0).contains(&nx.0) {
                e.link(x, y, ctx)?;
            }
        }
        let we = pairs(&e.m, &b);
        ordering(&b.port_ordering(&e.g), &b, &we, "second graph")?;
        stronger((&b, g, &want), (&b, &e.g, &we), ctx)?;
        stronger((&b, &e.g, &we), (&b, g, &want), ctx)?;
        ctx.nontrivial_if(want.len() > 1 && want.len() < ins.len() * outs.len());
        return Ok(());
    }
    let mut ids: Vec<usize> = base.node_ids().into_iter().filter(|n| bit16(c.sel, n)).collect();
    for (i, s) in c.shuffle.iter().enumerate().take(ids.len()) {
        let j = i + *s as usize % (ids.len() - i);
        ids.swap(i, j);
    }
    let keep: BTreeSet<usize> = ids.iter().copied().collect();
    let m = base.induced(|n| keep.contains(&n));
    let v = Subgraph::with_nodes(g, ids.iter().map(|n| ni(*n)));
    let b = v.port_boundary().into_owned();
    let idx = |v: &[portgraph::PortIndex]| v.iter().map(|p| p.index()).collect::<Vec<_>>();
    let (ins, outs) = (idx(b.input_indices()), idx(b.output_indices()));
    api(&b, &ins, &outs)?;
    ensure!(Boundary::from_ports(g, b.port_indices()) == b, "from_ports of the boundary's own ports");
    // The boundary does not tell which links of a port with links on both
    // sides belong inside; a node known only through such links is not found.
    let cut: BTreeSet<usize> = ins.iter().chain(&outs).copied().collect();
    let mut inside: BTreeSet<usize> = cut.iter().map(|p| base.ports[p].0).collect();
    let mut todo: Vec<usize> = inside.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for d in 0..2 {
            for (a, z) in m.links_of(n, d) {
                if !cut.contains(&a.0) && !cut.contains(&z.0) && inside.insert(m.owner(z)) {
                    todo.push(m.owner(z));
                }
            }
        }
    }
    if inside.iter().any(|n| m.succ(*n).into_iter().chain(m.pred(*n)).any(|x| !inside.contains(&x))) {
        ctx.label("skipped: node only reachable through boundary ports");
        return Ok(());
    }
    let want = pairs(&m, &b);
    ordering(&b.port_ordering(&v), &b, &want, "subgraph")?;
    ordering(&b.port_ordering(g), &b, &want, "whole graph")?;
    let mixed = cut.iter().any(|p| !m.port_links(*p).is_empty());
    ctx.label_if(mixed, "port with links on both sides");
    ctx.label_if(inside.len() > cut.iter().map(|p| base.ports[p].0).collect::<BTreeSet<_>>().len(), "interior node");
    // Against the boundary with its ports in another order.
    let r = |v: &Vec<usize>, k: usize| -> Vec<portgraph::PortIndex> {
        let mut v = v.clone();
        if !v.is_empty() {
            let k = k % v.len();
            v.rotate_left(k);
        }
        v.into_iter().map(pi).collect()
    };
    let b2 = Boundary::new(r(&ins, c.pick as usize % 7), r(&outs, c.pick as usize / 7 % 5));
    let w2 = pairs(&m, &b2);
    stronger((&b, &v, &want), (&b2, &v, &w2), ctx)?;
    ctx.nontrivial_if(want.len() > 1 && want.len() < ins.len() * outs.len());
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C19",
        "the boundary of a random node set of an acyclic graph (ordered over the subgraph and over the whole graph), or \
         of random free ports of a graph and of a modified copy: the port API round-trips, port_ordering is \
         reachability, is_stronger_than and missing_pairs are inclusion and difference; non-trivial: some but not all \
         pairs ordered",
    );
    c.run("single", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.finish()
}
