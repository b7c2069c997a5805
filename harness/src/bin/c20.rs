//! C20: the same calls give the same results.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Write};

use pgv::bit16;
use pgv::forest::*;
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{no_panic, Check, Ctx, TR};
use pgv::{ensure, ensure_eq, pick};
use portgraph::algorithms::{
    dominators, lca, postorder, toposort, ConvexChecker, DominatorTree, DynamicTopoConvexChecker, LineConvexChecker, TopoConvexChecker, TopoSort,
};
use portgraph::boundary::HasBoundary;
use portgraph::render::{DotFormat, EdgeStyle, MermaidFormat, NodeStyle};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region, Subgraph};
use portgraph::{Direction, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortView, Weights};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    ops: Vec<Op>,
    h: Vec<(u16, u8)>,
    root: u16,
    keep: u16,
    other: u16,
    /// Further operations, on the graph and on a clone of it.
    more: Vec<Op>,
}

fn case(big: bool, multi: bool) -> impl Strategy<Value = Case> {
    let mix = Mix { multi, sub: if multi { 4 } else { 0 }, serde: 1, ..Mix::default() };
    (
        sized(big, None, spec(SpecParams { nodes: 9, links: 16, ..SpecParams::default() })),
        ops(mix, 0..12),
        prop::collection::vec((any::<u16>(), any::<u8>()), 0..12),
        any::<u16>(),
        any::<u16>(),
        any::<u16>(),
        ops(mix, 0..12),
    )
        .prop_map(|(g, ops, h, root, keep, other, more)| Case { g, ops, h, root, keep, other, more })
}

type Trace = Vec<(&'static str, String)>;

/// Everything a view lists, in the order it lists it.
fn list<V: LinkView>(v: &V) -> String
where
    V::LinkEndpoint: Debug,
{
    let mut s = String::new();
    let _ = write!(s, "ports {:?};", v.ports_iter().collect::<Vec<_>>());
    for n in v.nodes_iter() {
        let _ = write!(
            s,
            "{n:?}: {:?} {:?} {:?} {:?};",
            v.all_ports(n).collect::<Vec<_>>(),
            v.all_links(n).collect::<Vec<_>>(),
            v.all_neighbours(n).collect::<Vec<_>>(),
            v.output_links(n).collect::<Vec<_>>()
        );
    }
    s
}

/// All of the graph, free lists included.
fn text<G: TestGraph>(g: &G) -> String {
    serde_json::to_string(g).unwrap_or_else(|e| e.to_string())
}

/// The answers of everything that only looks at a graph.
fn look<G: TestGraph>(g: &G, c: &Case) -> Trace
where
    G::E: Debug,
{
    let ids: Vec<usize> = g.nodes_iter().map(|n| n.index()).collect();
    let (h, _) = make_forest(&ids, &c.h);
    let mut t: Trace = vec![("graph", text(g)), ("lists", list(g)), ("hierarchy", format!("{h:?}"))];
    let keep: Vec<NodeIndex> = ids.iter().filter(|n| bit16(c.keep, n)).map(|n| ni(*n)).collect();
    let sub = Subgraph::with_nodes(g, keep.iter().copied());
    t.push(("subgraph", list(&sub)));
    let b = sub.port_boundary().into_owned();
    t.push(("boundary", format!("{b:?}")));
    t.push(("subgraph of the boundary", list(&Subgraph::new_subgraph(g, b.clone()))));
    if let Some(r) = pick(&ids, c.root as usize) {
        t.push(("region", list(&Region::new(g, &h, ni(r)))));
        t.push(("flat region", list(&FlatRegion::new_with_root(g, &h, ni(r)))));
        t.push(("children", list(&FlatRegion::new_without_root(g, &h, ni(r)))));
    }
    let v: FilteredGraph<_, NodeFilter<u16>, LinkFilter<u16>, u16> =
        FilteredGraph::new(g, |n, c| bit16(*c, n.index()), |p: PortIndex, c| bit16(*c, p.index() + 3), c.other);
    t.push(("filtered", list(&v)));
    for d in Direction::BOTH {
        let sources: Vec<NodeIndex> = g.nodes_iter().filter(|n| g.links(*n, d.reverse()).next().is_none()).collect();
        let topo: TopoSort<_, std::collections::HashSet<PortIndex>> = toposort(g, sources, d);
        t.push(("toposort", format!("{:?}", topo.collect::<Vec<_>>())));
    }
    let l = lca(g, &h);
    t.push(("lca", format!("{:?}", ids.iter().flat_map(|a| ids.iter().map(|b| (*a, *b))).take(400).map(|(a, b)| l.lca(ni(a), ni(b))).collect::<Vec<_>>())));
    // The path checkers want an acyclic graph.
    let all: TopoSort<_, std::collections::HashSet<PortIndex>> =
        toposort(g, g.nodes_iter().filter(|n| g.input_neighbours(*n).next().is_none()).collect::<Vec<_>>(), Direction::Outgoing);
    if all.count() == ids.len() && ids.len() < 60 {
        let topo = TopoConvexChecker::new(g);
        let line = LineConvexChecker::new(g);
        let dynamic = DynamicTopoConvexChecker::new(g.clone());
        t.push((
            "convexity",
            format!("{} {} {}", topo.is_node_convex(keep.iter().copied()), line.is_node_convex(keep.iter().copied()), dynamic.is_convex(keep.iter().copied(), [], [])),
        ));
        t.push(("lines", format!("{:?}", ids.iter().map(|n| (line.get_lines(ni(*n)).to_vec(), line.get_position(ni(*n)))).collect::<Vec<_>>())));
        let iv = line.get_intervals_from_nodes(keep.iter().copied());
        t.push(("intervals", format!("{iv:?}")));
        if let Some(iv) = &iv {
            t.push(("nodes in intervals", format!("{:?}", line.nodes_in_intervals(iv).collect::<Vec<_>>())));
        }
        // Not every boundary has an ordering.
        let sets = no_panic(|| {
            let o = b.port_ordering(g);
            b.inputs().map(|p| o.reachable_ports(p).iter().map(|x| format!("{x:?}")).collect()).collect::<Vec<BTreeSet<String>>>()
        });
        t.push(("port ordering", format!("{:?}", sets.ok())));
    }
    // Rendered with and without hierarchy, styles and weights.
    t.push(("dot", g.dot_format().with_hierarchy(&h).finish()));
    t.push(("dot_string", g.dot_format().finish()));
    t.push(("mermaid", g.mermaid_format().with_hierarchy(&h).finish()));
    t.push(("mermaid_string", g.mermaid_format().finish()));
    let region_root = ids.first().map_or(ni(0), |n| ni(*n));
    let inside = Region::new(g, &h, region_root);
    t.push(("mermaid of a region", inside.mermaid_format().with_hierarchy(&h).with_edge_style(|_, _| EdgeStyle::Dashed).finish()));
    t.push(("mermaid of a subgraph", sub.mermaid_format().with_hierarchy(&h).with_node_style(|n| NodeStyle::boxed(format!("{}", n.index() % 3))).finish()));
    t.push(("dot of a subgraph", sub.dot_format().with_hierarchy(&h).finish()));
    let mut w: Weights<String, String> = Weights::new();
    for n in &ids {
        w[ni(*n)] = format!("w{n}");
    }
    t.push(("mermaid with weights", g.mermaid_format().with_hierarchy(&h).with_weights(&w).finish()));
    t.push(("weights", format!("{w:?}")));
    t
}

/// Everything done with a graph, from scratch.
fn trace<G: TestGraph>(c: &Case, ctx: &mut Ctx, flat: impl Fn(&G, &Case) -> Trace) -> Result<Trace, String>
where
    G::E: Debug,
{
    let mut d = build::<G>(&c.g, ctx)?;
    d.check_each = false;
    for (i, op) in c.ops.iter().enumerate() {
        d.step(op, ctx).map_err(|e| format!("step {i} ({op:?}): {e}"))?;
    }
    let before = d.g.clone();
    let mut t = look(&d.g, c);
    t.extend(flat(&d.g, c));
    // Looking changes nothing, and a clone answers alike.
    ensure!(d.g == before, "the graph changed when it was read");
    same("asked again", &t, &[look(&d.g, c), flat(&d.g, c)].concat())?;
    let mut e = Driver { g: d.g.clone(), m: d.m.clone(), node_tag: d.node_tag.clone(), port_tag: d.port_tag.clone(), slots: d.slots, next_tag: d.next_tag, check_each: false, opts: d.opts };
    same("of a clone", &t, &[look(&e.g, c), flat(&e.g, c)].concat())?;
    // Changes.
    let ids = d.m.node_ids();
    let keep: Vec<NodeIndex> = ids.iter().filter(|n| bit16(c.keep, n)).map(|n| ni(*n)).collect();
    let other: Vec<NodeIndex> = ids.iter().filter(|n| bit16(c.other, n)).map(|n| ni(*n)).collect();
    let mut g = d.g.clone();
    let map = |r: Result<std::collections::HashMap<NodeIndex, NodeIndex>, String>| format!("{:?}", r.map(|m| m.into_iter().collect::<BTreeMap<_, _>>()));
    let r = Subgraph::with_nodes(&mut g, keep).copy_in_parent();
    t.push(("copy_in_parent", map(r.map_err(|e| format!("{e:?}")))));
    t.push(("graph after copy_in_parent", format!("{} {}", text(&g), list(&g))));
    let r = g.insert_graph(&Subgraph::with_nodes(&d.g, other));
    t.push(("insert_graph", map(r.map_err(|e| format!("{e:?}")))));
    t.push(("graph after insert_graph", format!("{} {}", text(&g), list(&g))));
    // The clone and the original go on alike.
    for (i, op) in c.more.iter().enumerate() {
        d.step(op, ctx).map_err(|e| format!("further step {i} ({op:?}): {e}"))?;
        e.step(op, ctx).map_err(|e| format!("further step {i} ({op:?}), on a clone: {e}"))?;
        ensure!(d.g == e.g, "a graph and its clone differ after step {i} ({op:?})");
    }
    t.push(("graph after further steps", text(&d.g)));
    ensure_eq!(text(&e.g), text(&d.g), "a clone after the same further steps");
    Ok(t)
}

fn same(what: &str, a: &[(&'static str, String)], b: &[(&'static str, String)]) -> TR {
    for ((name, x), (other, y)) in a.iter().zip(b) {
        ensure!(name == other && x == y, "{name} {what} differs:\n{x}\n{y}");
    }
    ensure_eq!(a.len(), b.len(), "answers {what}");
    Ok(())
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx, flat: impl Fn(&G, &Case) -> Trace) -> TR
where
    G::E: Debug,
{
    let t = trace::<G>(c, ctx, &flat)?;
    ctx.nontrivial_if(t[0].1.len() > 600);
    for round in 0..3 {
        let u = trace::<G>(c, &mut Ctx::default(), &flat)?;
        same(if round == 0 { "made again" } else { "made once more" }, &t, &u)?;
    }
    Ok(())
}

/// Algorithms for plain graphs only.
fn plain(g: &PortGraph, c: &Case) -> Trace {
    let ids: Vec<NodeIndex> = g.nodes_iter().collect();
    let Some(r) = pick(&ids, c.root as usize) else { return vec![] };
    let mut t = vec![];
    for d in Direction::BOTH {
        t.push(("postorder", format!("{:?}", postorder(g, [r], d).collect::<Vec<_>>())));
        let tree: DominatorTree = dominators(g, r, d);
        t.push(("dominators", format!("{:?}", ids.iter().map(|n| tree.immediate_dominator(*n)).collect::<Vec<_>>())));
    }
    t
}

fn main() {
    let mut c = Check::start(
        "C20",
        "a random graph, after a random history, with hierarchy and node sets: the whole sequence of calls is made four times from \
         scratch, and on clones; all results, indices and orders of iteration are the same each time; non-trivial: the serialised \
         form of the graph has more than 600 characters",
    );
    c.run("single", 10_000, 600_000, |_| case(false, false), |c: &Case, ctx| go::<PortGraph>(c, ctx, plain));
    c.run("multi", 10_000, 600_000, |_| case(false, true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx, |_, _| vec![]));
    c.run("large_single", 400, 20_000, |_| case(true, false), |c: &Case, ctx| go::<PortGraph>(c, ctx, plain));
    c.run("large_multi", 400, 20_000, |_| case(true, true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx, |_, _| vec![]));
    c.finish()
}
