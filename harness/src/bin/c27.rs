//! C27: line partitions and their intervals.
use std::collections::{BTreeMap, BTreeSet};

use pgv::{bit16, bit32};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{bounded, ensure, ensure_eq};
use portgraph::algorithms::convex::LineIntervals;
use portgraph::algorithms::LineConvexChecker;
use portgraph::boundary::HasBoundary;
use portgraph::view::Subgraph;
use portgraph::{LinkView, MultiPortGraph, PortGraph};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    view: u16,
    sets: Vec<(u32, u16)>,
    grow: Vec<u16>,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, Some(true), prop_oneof![
            3 => spec(SpecParams { nodes: 9, links: 16, acyclic: Some(true), ..SpecParams::default() }),
            1 => spec(SpecParams { nodes: 24, links: 40, ports: 2, acyclic: Some(true), ..SpecParams::default() }),
        ]),
        prop_oneof![3 => Just(u16::MAX), 1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a | b)],
        prop::collection::vec((prop_oneof![any::<u32>(), (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b), (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a | b)], any::<u16>()), 1..=4),
        prop::collection::vec(any::<u16>(), 0..=10),
    )
        .prop_map(|(g, view, sets, grow)| Case { g, view, sets, grow })
}

/// The lines as read from the checker: nodes by position.
struct Lines {
    pos: BTreeMap<usize, u32>,
    lines: BTreeMap<u32, Vec<usize>>,
    of: BTreeMap<usize, Vec<u32>>,
}

type Iv = BTreeMap<u32, (u32, u32)>;

impl Lines {
    fn intervals(&self, set: &BTreeSet<usize>) -> Option<Iv> {
        let mut out = Iv::new();
        for (l, nodes) in &self.lines {
            let at: Vec<usize> = (0..nodes.len()).filter(|k| set.contains(&nodes[*k])).collect();
            if let (Some(a), Some(b)) = (at.first(), at.last()) {
                if b - a + 1 != at.len() {
                    return None;
                }
                out.insert(*l, (self.pos[&nodes[*a]], self.pos[&nodes[*b]]));
            }
        }
        Some(out)
    }
}

fn read(iv: &LineIntervals) -> Result<Iv, String> {
    let mut out = Iv::new();
    for (l, i) in iv.iter() {
        ensure!(out.insert(l.0, (i.min.0, i.max.0)).is_none(), "line {l:?} occurs twice in {iv:?}");
        ensure_eq!(iv.get(l), Some(i), "get of line {l:?}");
    }
    ensure_eq!(iv.is_empty(), out.is_empty(), "is_empty of {iv:?}");
    ensure_eq!(iv.values().count(), out.len(), "values of {iv:?}");
    Ok(out)
}

fn check<G: LinkView + Clone>(g: G, m: &Model, c: &Case, ctx: &mut Ctx) -> TR {
    let mut k = LineConvexChecker::new(g.clone());
    let ids = m.node_ids();
    let mut ls = Lines { pos: BTreeMap::new(), lines: BTreeMap::new(), of: BTreeMap::new() };
    for &n in &ids {
        ls.pos.insert(n, k.get_position(ni(n)).0);
        let l: Vec<u32> = k.get_lines(ni(n)).iter().map(|l| l.0).collect();
        ensure!(!l.is_empty(), "node {n} is on no line");
        ensure_eq!(l.iter().collect::<BTreeSet<_>>().len(), l.len(), "distinct lines of {n}: {l:?}");
        for x in &l {
            ls.lines.entry(*x).or_default().push(n);
        }
        ls.of.insert(n, l);
    }
    for (l, v) in ls.lines.iter_mut() {
        v.sort_by_key(|n| ls.pos[n]);
        ensure!(v.windows(2).all(|w| ls.pos[&w[0]] < ls.pos[&w[1]]), "two nodes at the same position of line {l}: {v:?}");
    }
    // Positions grow along every link.
    for (a, b) in m.edges() {
        let (x, y) = (m.owner(a), m.owner(b));
        ensure!(ls.pos[&x] < ls.pos[&y], "link from {x} to {y}, but the positions are {:?}", ls.pos);
    }
    // The lines partition the links into paths: every step of a line uses a
    // link whose ports both name the line, and every link is used once.
    let at = |p: usize| -> Vec<u32> { k.lines_at_port(pi(p)).iter().map(|l| l.0).collect() };
    let mut on_port: BTreeMap<usize, Vec<u32>> = BTreeMap::new();
    for &p in m.ports.keys() {
        let v = at(p);
        ensure_eq!(v.len(), m.port_links(p).len(), "number of lines at port {p}");
        ensure!(v.iter().all(|l| ls.of[&m.ports[&p].0].contains(l)), "lines {v:?} of port {p} are not all lines of its node");
        on_port.insert(p, v);
    }
    let mut used: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (l, v) in &ls.lines {
        for w in v.windows(2) {
            let find = |n: usize, d: usize| -> Vec<usize> { m.nodes[&n].ports[d].iter().copied().filter(|p| on_port[p].contains(l)).collect() };
            let (o, i) = (find(w[0], OUT), find(w[1], IN));
            ensure!(o.len() == 1 && i.len() == 1, "line {l} leaves {} by {o:?} and enters {} by {i:?}", w[0], w[1]);
            *used.entry((o[0], i[0])).or_default() += 1;
        }
        let (first, last) = (v[0], v[v.len() - 1]);
        ensure!(m.nodes[&first].ports[IN].iter().all(|p| !on_port[p].contains(l)), "line {l} starts at {first} but is at one of its inputs");
        ensure!(m.nodes[&last].ports[OUT].iter().all(|p| !on_port[p].contains(l)), "line {l} ends at {last} but is at one of its outputs");
    }
    let mut links: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b) in m.edges() {
        *links.entry((a.0, b.0)).or_default() += 1;
    }
    ensure_eq!(used, links, "links covered by the lines");
    ctx.nontrivial_if(ls.lines.values().any(|v| v.len() > 2) && m.link_count() > 4);

    for (sel, rot) in &c.sets {
        let set: BTreeSet<usize> = ids.iter().copied().filter(|n| bit32(*sel, n)).collect();
        let mut order: Vec<usize> = set.iter().copied().collect();
        if !order.is_empty() {
            let r = *rot as usize % order.len();
            order.rotate_left(r);
        }
        let want = ls.intervals(&set);
        let got = k.get_intervals_from_nodes(order.iter().map(|n| ni(*n)));
        ensure_eq!(got.as_ref().map(read).transpose()?, want, "get_intervals_from_nodes({order:?})");
        if let Some(iv) = &got {
            let mut sorted = order.clone();
            sorted.sort_by_key(|n| (ls.pos[n], *n));
            let nodes: Vec<usize> = bounded(k.nodes_in_intervals(iv), ids.len(), "nodes_in_intervals")?.into_iter().map(|n| n.index()).collect();
            ensure_eq!(nodes, sorted, "nodes_in_intervals of {order:?}");
            ensure_eq!(k.is_convex_by_intervals(iv), k.is_node_convex(order.iter().map(|n| ni(*n))), "convexity of {order:?}");
            ctx.label("intervals");
        } else {
            ctx.label("no intervals");
        }
        // Nodes from an iterator which itself asks the checker: the inner
        // queries and the outer one do not disturb each other.
        let mut inner_bad = None;
        let got = k.get_intervals_from_nodes(order.iter().enumerate().map(|(i, n)| {
            let inner: BTreeSet<usize> = order.iter().take(i + 1).copied().collect();
            let got = k.get_intervals_from_nodes(inner.iter().map(|n| ni(*n))).as_ref().map(read);
            if got.clone().and_then(Result::ok) != ls.intervals(&inner) {
                inner_bad.get_or_insert(format!("get_intervals_from_nodes({inner:?}) inside another query gave {got:?}"));
            }
            ni(*n)
        }));
        if let Some(e) = inner_bad {
            return Err(e);
        }
        ensure_eq!(got.as_ref().map(read).transpose()?, want, "get_intervals_from_nodes({order:?}) with nested queries");
        // By boundary: the nodes reachable inside it.
        let v = Subgraph::with_nodes(&g, order.iter().map(|n| ni(*n)));
        let b = v.port_boundary().into_owned();
        let inner = m.induced(|n| set.contains(&n));
        let bp: BTreeSet<usize> = b.port_indices().map(|p| p.index()).collect();
        if bp.iter().all(|p| inner.port_links(*p).is_empty()) {
            let mut inside: BTreeSet<usize> = bp.iter().map(|p| m.ports[p].0).collect();
            let mut todo: Vec<usize> = inside.iter().copied().collect();
            while let Some(n) = todo.pop() {
                for x in inner.succ(n).into_iter().chain(inner.pred(n)) {
                    if inside.insert(x) {
                        todo.push(x);
                    }
                }
            }
            if bp.is_empty() {
                inside = ids.iter().copied().collect();
            }
            let want = ls.intervals(&inside);
            ensure_eq!(k.get_intervals_from_boundary(&b).as_ref().map(read).transpose()?, want, "get_intervals_from_boundary of {inside:?}");
            ensure_eq!(k.get_intervals_from_boundary_ports(b.port_indices()).as_ref().map(read).transpose()?, want, "get_intervals_from_boundary_ports of {inside:?}");
        }
        k.shrink_to_fit();
    }
    // Growing a set node by node.
    let mut set: BTreeSet<usize> = BTreeSet::new();
    let mut iv = LineIntervals::default();
    for s in &c.grow {
        if ids.is_empty() {
            break;
        }
        // Prefer nodes next to the set.
        let next: Vec<usize> = ids.iter().copied().filter(|n| !set.contains(n) && m.succ(*n).into_iter().chain(m.pred(*n)).any(|x| set.contains(&x))).collect();
        let n = if next.is_empty() || s % 5 == 0 { ids[*s as usize % ids.len()] } else { next[*s as usize % next.len()] };
        let before = read(&iv)?;
        let mut more = set.clone();
        more.insert(n);
        let want = ls.intervals(&more);
        let ok = k.try_extend_intervals(&mut iv, ni(n));
        ensure_eq!(ok, want.is_some(), "try_extend_intervals of {set:?} by {n}");
        match want {
            Some(w) => {
                ensure_eq!(read(&iv)?, w, "intervals of {set:?} extended by {n}");
                set = more;
                ctx.label_if(set.len() > 3, "extended above three nodes");
            }
            None => {
                ensure_eq!(read(&iv)?, before, "intervals of {set:?} after refusing {n}");
                ctx.label("refused extension");
            }
        }
    }
    Ok(())
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    if c.view == u16::MAX {
        check(&d.g, &d.m, c, ctx)
    } else {
        let keep: BTreeSet<usize> = d.m.node_ids().into_iter().filter(|n| bit16(c.view, n)).collect();
        let m = d.m.induced(|n| keep.contains(&n));
        ctx.label("in a subgraph");
        check(Subgraph::with_nodes(&d.g, keep.iter().map(|n| ni(*n))), &m, c, ctx)
    }
}

fn main() {
    let mut c = Check::start(
        "C27",
        "a random acyclic graph or subgraph, random node sets and growing sets: the lines partition the links into paths \
         with increasing positions, intervals exist exactly for sets contiguous on every line and give back the set, \
         extension equals recomputation and a refused one changes nothing; non-trivial: a line of more than two nodes \
         and more than four links",
    );
    c.run("single", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.finish()
}
