//! C31: the petgraph traits present the same directed graph.
use std::collections::{BTreeMap, BTreeSet};

use petgraph::algo;
use petgraph::visit::{
    Bfs, Data, Dfs, DfsPostOrder, EdgeCount, EdgeRef, GetAdjacencyMatrix, GraphBase, GraphProp, IntoEdgeReferences, IntoEdges,
    IntoEdgesDirected, IntoNeighbors, IntoNeighborsDirected, IntoNodeIdentifiers, IntoNodeReferences, NodeCount, NodeIndexable, NodeRef,
    Reversed, Topo, VisitMap, Visitable,
};
use pgv::bit16;
use pgv::forest::make_forest;
use pgv::gen::*;
use pgv::model::*;
use pgv::render::View;
use pgv::runner::{Check, Ctx, TR};
use pgv::{bounded, ensure, ensure_eq, pick};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region, Subgraph};
use portgraph::{MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortMut, PortView};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    forest: Vec<(u16, u8)>,
    view: View,
    start: u16,
    shrink: bool,
    visits: Vec<(u16, u8)>,
}

fn case(big: bool, views: bool) -> impl Strategy<Value = Case> {
    let view = if views {
        prop_oneof![
            1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| View::Subgraph(a | b)),
            1 => any::<u16>().prop_map(View::Region),
            1 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| View::Flat(a, b)),
            1 => (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c, d)| View::Filtered(a | b, c | d)),
        ]
        .boxed()
    } else {
        Just(View::Whole).boxed()
    };
    let forest = prop::collection::vec((any::<u16>(), 2u8..8), if views { 0..=10 } else { 0..=0 });
    (sized(big, None, spec(SpecParams { nodes: 9, links: 18, ..SpecParams::default() })), forest, view, any::<u16>(), any::<bool>(), prop::collection::vec((any::<u16>(), any::<u8>()), 0..12))
        .prop_map(|(g, forest, view, start, shrink, visits)| Case { g, forest, view, start, shrink, visits })
}

type Id = (Hd, Hd);

/// Walk from a node until the end; the nodes seen must be the sorted list given.
macro_rules! walk {
    ($walk:ident, $over:expr, $from:expr, $limit:expr, $all:expr) => {{
        let over = $over;
        let mut w = $walk::new(over, ni($from));
        let mut v: Vec<usize> = vec![];
        while let Some(n) = w.next(over) {
            ensure!(v.len() < $limit, "endless {}", stringify!($walk));
            v.push(n.index());
        }
        v.sort();
        ensure_eq!(v, $all, "{} from {}", stringify!($walk), $from);
    }};
}

/// Everything the algorithms need of a graph reference.
macro_rules! check_all {
    ($g:expr, $c:expr, $ctx:expr) => {{
        let g = $g;
        let c: &Case = $c;
        let ctx: &mut Ctx = $ctx;
        let m = Model::read(g);
        let ids: BTreeSet<usize> = m.node_ids().into_iter().collect();
        let big = m.link_count() + ids.len() + 2;
        let id = |e: &(_, _)| -> Id { (Ep::ep(e.0), Ep::ep(e.1)) };

        // The same graph in petgraph's own type.
        let mut pg: petgraph::Graph<usize, Id> = petgraph::Graph::new();
        let at: BTreeMap<usize, petgraph::graph::NodeIndex> = ids.iter().map(|n| (*n, pg.add_node(*n))).collect();
        for (a, b) in m.edges() {
            pg.add_edge(at[&m.owner(a)], at[&m.owner(b)], (a, b));
        }

        // Directions.
        for (a, b) in [
            (portgraph::Direction::Incoming, petgraph::Direction::Incoming),
            (portgraph::Direction::Outgoing, petgraph::Direction::Outgoing),
        ] {
            ensure_eq!(petgraph::Direction::from(a), b, "direction converted to petgraph's");
            ensure_eq!(portgraph::Direction::from(b), a, "direction converted from petgraph's");
        }

        // Nodes.
        ensure_eq!(NodeCount::node_count(g), ids.len(), "NodeCount");
        ensure_eq!(EdgeCount::edge_count(g), m.link_count(), "EdgeCount");
        ensure!(g.is_directed(), "the graph is not directed");
        let sorted = |v: Vec<usize>| {
            let mut v = v;
            v.sort();
            v
        };
        let want: Vec<usize> = ids.iter().copied().collect();
        let v: Vec<usize> = bounded(g.node_identifiers(), big, "node_identifiers")?.iter().map(|n| n.index()).collect();
        ensure_eq!(sorted(v), want, "node_identifiers");
        let v: Vec<usize> = bounded(g.node_references(), big, "node_references")?.iter().map(|n| n.id().index()).collect();
        ensure_eq!(sorted(v), want, "node_references");
        let bound = g.node_bound();
        for n in &ids {
            ensure!(*n < bound, "node {n} is not below node_bound {bound}");
            let k = g.to_index(ni(*n));
            ensure!(k < bound, "to_index({n}) = {k} is not below node_bound {bound}");
            ensure_eq!(NodeIndexable::from_index(g, k), ni(*n), "from_index of to_index({n})");
        }
        ctx.label_if(ids.iter().next_back().is_some_and(|x| x + 1 > ids.len()), "gaps in the node indices");

        // Edges.
        let full = |it: Vec<(Id, usize, usize)>| {
            let mut v = it;
            v.sort();
            v
        };
        let edge = |a: Hd, b: Hd| ((a, b), m.owner(a), m.owner(b));
        let mut refs = g.edge_references();
        let mut got = vec![];
        loop {
            let left = m.link_count().saturating_sub(got.len());
            let (lo, hi) = refs.size_hint();
            ensure!(lo <= left && hi.map_or(true, |h| left <= h), "size_hint of edge_references {:?} with {left} left", (lo, hi));
            let Some(e) = refs.next() else { break };
            got.push((id(&e.id()), e.source().index(), e.target().index()));
            ensure!(got.len() < big, "too many edge_references");
        }
        ensure_eq!(full(got), full(m.edges().into_iter().map(|(a, b)| edge(a, b)).collect()), "edge_references");
        ensure_eq!(g.edge_references().count(), m.link_count(), "count of edge_references");
        for &n in &ids {
            let read = |it: Vec<(Id, usize, usize)>| full(it);
            let out: Vec<_> = m.links_of(n, OUT).into_iter().map(|(a, b)| edge(a, b)).collect();
            let inc: Vec<_> = m.links_of(n, IN).into_iter().map(|(b, a)| edge(a, b)).collect();
            let v = bounded(g.edges(ni(n)), big, "edges")?.into_iter().map(|e| (id(&e.id()), e.source().index(), e.target().index())).collect();
            ensure_eq!(read(v), full(out.clone()), "edges({n})");
            for (d, w) in [(petgraph::Direction::Outgoing, &out), (petgraph::Direction::Incoming, &inc)] {
                let v = bounded(g.edges_directed(ni(n), d), big, "edges_directed")?.into_iter().map(|e| (id(&e.id()), e.source().index(), e.target().index())).collect();
                ensure_eq!(read(v), full(w.clone()), "edges_directed({n}, {d:?})");
                ensure_eq!(g.edges_directed(ni(n), d).count(), w.len(), "count of edges_directed({n}, {d:?})");
                let other = if d == petgraph::Direction::Outgoing { m.succ(n) } else { m.pred(n) };
                let v: Vec<usize> = bounded(g.neighbors_directed(ni(n), d), big, "neighbors_directed")?.iter().map(|x| x.index()).collect();
                ensure_eq!(sorted(v), sorted(other), "neighbors_directed({n}, {d:?})");
            }
            let v: Vec<usize> = bounded(g.neighbors(ni(n)), big, "neighbors")?.iter().map(|x| x.index()).collect();
            ensure_eq!(sorted(v), sorted(m.succ(n)), "neighbors({n})");
        }

        // Adjacency.
        let adj = g.adjacency_matrix();
        for &a in &ids {
            let next = m.succ(a);
            for &b in &ids {
                ensure_eq!(g.is_adjacent(&adj, ni(a), ni(b)), next.contains(&b), "is_adjacent({a}, {b})");
            }
        }

        // Visit maps against a set.
        let mut map = g.visit_map();
        let mut set: BTreeSet<usize> = BTreeSet::new();
        for &(s, what) in &c.visits {
            let Some(n) = pick(&want, s as usize) else { break };
            match what % 8 {
                0..=3 => ensure_eq!(map.visit(ni(n)), set.insert(n), "visit({n})"),
                4 | 5 => ensure_eq!(map.unvisit(ni(n)), set.remove(&n), "unvisit({n})"),
                6 => {
                    for k in &want {
                        ensure_eq!(map.is_visited(&ni(*k)), set.contains(k), "is_visited({k})");
                    }
                }
                _ => {
                    g.reset_map(&mut map);
                    set.clear();
                }
            }
        }
        for k in &want {
            ensure_eq!(map.is_visited(&ni(*k)), set.contains(k), "is_visited({k})");
        }

        // Algorithms on both.
        ensure_eq!(algo::is_cyclic_directed(g), algo::is_cyclic_directed(&pg), "is_cyclic_directed");
        let classes = |v: Vec<Vec<usize>>| -> BTreeSet<BTreeSet<usize>> { v.into_iter().map(|x| x.into_iter().collect()).collect() };
        let ours = |v: Vec<Vec<NodeIndex>>| classes(v.into_iter().map(|x| x.into_iter().map(|n| n.index()).collect()).collect());
        let scc = classes(algo::tarjan_scc(&pg).into_iter().map(|x| x.into_iter().map(|n| pg[n]).collect()).collect());
        ensure_eq!(ours(algo::tarjan_scc(g)), scc, "tarjan_scc");
        ensure_eq!(ours(algo::kosaraju_scc(g)), scc, "kosaraju_scc");
        ctx.label_if(scc.iter().any(|x| x.len() > 1), "cycle of several nodes");
        match algo::toposort(g, None) {
            Ok(order) => {
                ensure!(!algo::is_cyclic_directed(&pg), "toposort of a cyclic graph");
                let pos: BTreeMap<usize, usize> = order.iter().enumerate().map(|(k, n)| (n.index(), k)).collect();
                ensure_eq!(pos.keys().copied().collect::<Vec<_>>(), want, "nodes of toposort");
                ensure_eq!(order.len(), want.len(), "length of toposort");
                for (a, b) in m.edges() {
                    ensure!(pos[&m.owner(a)] < pos[&m.owner(b)], "toposort order of {a:?} -> {b:?}");
                }
                let mut topo = Topo::new(g);
                let mut order = vec![];
                while let Some(n) = topo.next(g) {
                    ensure!(order.len() < big, "endless Topo");
                    order.push(n.index());
                }
                let pos: BTreeMap<usize, usize> = order.iter().enumerate().map(|(k, n)| (*n, k)).collect();
                ensure_eq!(sorted(order), want, "nodes of Topo");
                for (a, b) in m.edges() {
                    ensure!(pos[&m.owner(a)] < pos[&m.owner(b)], "Topo order of {a:?} -> {b:?}");
                }
                ctx.label("acyclic");
            }
            Err(e) => {
                let n = e.node_id().index();
                ensure!(scc.iter().any(|s| s.contains(&n) && (s.len() > 1 || m.succ(n).contains(&n))), "toposort blames {n}, which is on no cycle");
            }
        }
        if let Some(s) = m.start(OUT, c.start) {
            let reach = {
                let mut seen = BTreeSet::new();
                let mut todo = vec![s];
                while let Some(n) = todo.pop() {
                    if seen.insert(n) {
                        todo.extend(m.succ(n));
                    }
                }
                seen
            };
            let back: BTreeSet<usize> = {
                let mut seen = BTreeSet::new();
                let mut todo = vec![s];
                while let Some(n) = todo.pop() {
                    if seen.insert(n) {
                        todo.extend(m.pred(n));
                    }
                }
                seen
            };
            let list: Vec<usize> = reach.iter().copied().collect();
            walk!(Dfs, g, s, big, list);
            walk!(Bfs, g, s, big, list);
            walk!(DfsPostOrder, g, s, big, list);
            let blist: Vec<usize> = back.iter().copied().collect();
            walk!(Bfs, Reversed(g), s, big, blist);
            let d = algo::dijkstra(g, ni(s), None, |_| 1usize);
            let e = algo::dijkstra(&pg, at[&s], None, |_| 1usize);
            let d: BTreeMap<usize, usize> = d.into_iter().map(|(n, x)| (n.index(), x)).collect();
            let e: BTreeMap<usize, usize> = e.into_iter().map(|(n, x)| (pg[n], x)).collect();
            ensure_eq!(d, e, "dijkstra from {s}");
            for t in &want {
                ensure_eq!(algo::has_path_connecting(g, ni(s), ni(*t), None), reach.contains(t), "has_path_connecting({s}, {t})");
            }
            let dom = algo::dominators::simple_fast(g, ni(s));
            let dom2 = algo::dominators::simple_fast(&pg, at[&s]);
            for t in &want {
                let x = dom.immediate_dominator(ni(*t)).map(|n| n.index());
                let y = dom2.immediate_dominator(at[t]).map(|n| pg[n]);
                ensure_eq!(x, y, "petgraph dominator of {t} from {s}");
            }
            ctx.nontrivial_if(reach.len() > 2 && m.link_count() > 3);
        }
        let fas: usize = algo::min_spanning_tree(g).filter(|e| matches!(e, petgraph::data::Element::Edge { .. })).count();
        let fas2: usize = algo::min_spanning_tree(&petgraph::Graph::<usize, ()>::from_edges(m.edges().iter().map(|(a, b)| (at[&m.owner(*a)], at[&m.owner(*b)])))).filter(|e| matches!(e, petgraph::data::Element::Edge { .. })).count();
        ensure_eq!(fas, fas2, "edges of min_spanning_tree");
        Ok::<(), String>(())
    }};
}

/// A visit map or a traversal used on one graph, reset and used on another of
/// the same type.
fn carry<'a, G>(a: &'a G, b: &'a G, ctx: &mut Ctx) -> TR
where
    G: GraphBase<NodeId = NodeIndex> + Visitable + PortView,
    &'a G: GraphBase<NodeId = NodeIndex> + Visitable<Map = G::Map> + IntoNeighbors,
{
    let nodes = |g: &G| -> Vec<NodeIndex> { PortView::nodes_iter(g).collect() };
    let (an, bn) = (nodes(a), nodes(b));
    let mut map = a.visit_map();
    for n in &an {
        ensure!(map.visit(*n), "first visit of {n:?}");
    }
    b.reset_map(&mut map);
    for n in an.iter().chain(&bn) {
        ensure!(!map.is_visited(n), "{n:?} is visited after reset_map for another graph");
    }
    for n in &bn {
        ensure!(map.visit(*n), "first visit of {n:?} after reset_map for another graph");
        ensure!(!map.visit(*n), "second visit of {n:?} after reset_map for another graph");
    }
    // A traversal started on one and continued on the other.
    let mut dfs = Dfs::empty(a);
    for n in an {
        dfs.move_to(n);
        while dfs.next(a).is_some() {}
    }
    dfs.reset(b);
    for n in &bn {
        let mut fresh = Dfs::new(b, *n);
        dfs.reset(b);
        dfs.move_to(*n);
        loop {
            let (x, y) = (dfs.next(b), fresh.next(b));
            ensure_eq!(x, y, "Dfs reset for another graph, from {n:?}");
            if x.is_none() {
                break;
            }
        }
    }
    ctx.label_if(bn.len() > 1, "visit map carried over");
    Ok(())
}

fn assert_traits<G>()
where
    G: GraphBase<NodeId = NodeIndex> + Data<NodeWeight = (), EdgeWeight = ()>,
{
}

type Keep = (BTreeSet<usize>, u16);

macro_rules! views {
    ($name:ident, $t:ty) => {
        fn $name(c: &Case, ctx: &mut Ctx) -> TR {
            let mut d = build::<$t>(&c.g, ctx)?;
            if c.shrink {
                d.g.shrink_to_fit();
            }
            let ids = d.m.node_ids();
            let sel = |s: u16| -> BTreeSet<usize> { ids.iter().copied().filter(|n| bit16(s, n)).collect() };
            let (h, _) = make_forest(&ids, &c.forest);
            assert_traits::<$t>();
            match c.view {
                View::Whole => {
                    if let Some(r) = pick(&ids, c.start as usize) {
                        let mut o = d.g.clone();
                        o.remove_node(ni(r));
                        carry(&d.g, &o, ctx)?;
                        carry(&o, &d.g, ctx)?;
                    }
                    check_all!(&d.g, c, ctx)
                }
                View::Subgraph(s) => {
                    ctx.label("subgraph");
                    let v = Subgraph::with_nodes(&d.g, sel(s).into_iter().map(ni));
                    let o = Subgraph::with_nodes(&d.g, sel(!s | c.start).into_iter().map(ni));
                    carry(&o, &v, ctx)?;
                    check_all!(&v, c, ctx)
                }
                View::Region(s) => {
                    let Some(r) = pick(&ids, s as usize % ids.len().clamp(1, 3)) else { return Ok(()) };
                    ctx.label("region");
                    let v = Region::new(&d.g, &h, ni(r));
                    let o = Region::new(&d.g, &h, ni(ids[c.start as usize % ids.len()]));
                    carry(&o, &v, ctx)?;
                    check_all!(&v, c, ctx)
                }
                View::Flat(s, root) => {
                    let Some(r) = pick(&ids, s as usize % ids.len().clamp(1, 3)) else { return Ok(()) };
                    ctx.label("flat region");
                    let v = if root { FlatRegion::new_with_root(&d.g, &h, ni(r)) } else { FlatRegion::new_without_root(&d.g, &h, ni(r)) };
                    let o = FlatRegion::new_with_root(&d.g, &h, ni(ids[c.start as usize % ids.len()]));
                    carry(&o, &v, ctx)?;
                    check_all!(&v, c, ctx)
                }
                View::Filtered(s, p) => {
                    ctx.label("filtered");
                    let keep: Keep = (sel(s), p);
                    let nf: NodeFilter<Keep> = |n: NodeIndex, k: &Keep| k.0.contains(&n.index());
                    let lf: LinkFilter<Keep> = |p: PortIndex, k: &Keep| bit16(k.1, p.index());
                    let o = FilteredGraph::new(&d.g, nf, lf, (sel(c.start), !0));
                    let v = FilteredGraph::new(&d.g, nf, lf, keep);
                    carry(&o, &v, ctx)?;
                    check_all!(&v, c, ctx)
                }
            }
        }
    };
}

views!(single, PortGraph);
views!(multi, MultiPortGraph);

fn main() {
    let mut c = Check::start(
        "C31",
        "a random plain or multiport graph or a view of one; all petgraph traits must present the nodes and links of the model, and petgraph's \
         traversals and algorithms must agree with the same graph held in a petgraph::Graph; non-trivial: more than three links, three nodes reached",
    );
    c.run("single", 60_000, 2_000_000, move |_| case(false, false), single);
    c.run("multi", 60_000, 2_000_000, move |_| case(false, false), multi);
    c.run("single_views", 150_000, 4_000_000, move |_| case(false, true), single);
    c.run("multi_views", 150_000, 4_000_000, move |_| case(false, true), multi);
    c.run("large_single", 4_000, 150_000, |_| case(true, false), single);
    c.run("large_multi", 4_000, 150_000, |_| case(true, false), multi);
    c.run("large_single_views", 4_000, 150_000, |_| case(true, true), single);
    c.run("large_multi_views", 4_000, 150_000, |_| case(true, true), multi);
    c.finish()
}
