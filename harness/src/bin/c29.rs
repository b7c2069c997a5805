//! C29: the dot rendering describes exactly the graph.
use std::collections::{BTreeMap, BTreeSet};

use pgv::bit16;
use pgv::forest::*;
use pgv::gen::build;
use pgv::hist::TestGraph;
use pgv::model::*;
use pgv::render::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq, pick};
use portgraph::render::{DotFormat, EdgeStyle, PortStyle};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region, Subgraph};
use portgraph::{Hierarchy, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex, Weights};

fn show<G: LinkView>(g: &G, c: &Case, h: Option<(&Hierarchy, &Forest)>, ctx: &mut Ctx) -> TR
where
    G::LinkEndpoint: Ep,
{
    let m = Model::read(g);
    let st = Styles(c);
    let mut w: Weights<String, String> = Weights::new();
    let mut fmt = g.dot_format();
    if let Some((h, _)) = h {
        fmt = fmt.with_hierarchy(h);
    }
    if !c.edge.is_empty() {
        fmt = fmt.with_edge_style(|a, b| st.edge(a.ep(), b.ep()));
    }
    let default = c.node.is_empty();
    if let Some(k) = c.weights {
        for n in m.node_ids() {
            w[ni(n)] = weight(k, n);
        }
        for p in m.port_ids() {
            w[pi(p)] = weight(k, p);
        }
        fmt = fmt.with_weights(&w);
    } else {
        if !default {
            fmt = fmt.with_node_style(|n| st.node(n.index()));
        }
        if !c.port.is_empty() {
            fmt = fmt.with_port_style(|p| st.port(p.index()));
        }
    }
    let text = fmt.finish();
    check(g, &m, c, h.map(|x| x.1), &text, ctx).map_err(|e| format!("{e}\n{text}"))?;
    if c.node.is_empty() && c.port.is_empty() && c.edge.is_empty() && c.weights.is_none() && h.is_none() {
        ensure_eq!(g.dot_string(), text, "dot_string");
        ctx.label("default style");
    }
    Ok(())
}

fn check<G: LinkView>(g: &G, m: &Model, c: &Case, f: Option<&Forest>, text: &str, ctx: &mut Ctx) -> TR
where
    G::LinkEndpoint: Ep,
{
    let st = Styles(c);
    let dot = parse_dot(text)?;
    let unstyled = c.node.is_empty() && c.weights.is_none();
    let (nodes, links) = if unstyled { (m.node_ids().into_iter().collect(), m.edges()) } else { visible(m, &st) };
    ctx.label_if(nodes.len() < m.nodes.len(), "hidden nodes");
    ctx.label_if(links.len() < m.link_count(), "links of hidden nodes");

    let mut seen = BTreeSet::new();
    let mut hseen = BTreeSet::new();
    for (id, attrs) in &dot.nodes {
        if let Some(x) = id.strip_prefix("hier") {
            let n: usize = x.parse().map_err(|_| format!("node {id}"))?;
            ensure!(f.is_some(), "hierarchy node {id} without a hierarchy");
            ensure!(m.nodes.contains_key(&n), "hierarchy node {id} is not in the graph");
            ensure!(hseen.insert(n), "hierarchy node {id} listed twice");
            ensure_eq!(attrs.get("label").map(|v| v.text()), Some(x), "label of {id}");
            continue;
        }
        let n: usize = id.parse().map_err(|_| format!("node {id}"))?;
        ensure!(nodes.contains(&n), "node {n} must not be drawn");
        ensure!(seen.insert(n), "node {n} is listed twice");
        let (label, pres) = if unstyled { (n.to_string(), Default::default()) } else { st.node_parts(n).unwrap() };
        let got: BTreeMap<&str, &str> = attrs.iter().filter(|(k, _)| ["fontcolor", "fillcolor", "color", "penwidth"].contains(&k.as_str())).map(|(k, v)| (k.as_str(), v.text())).collect();
        let want: BTreeMap<&str, &str> = [("fontcolor", &pres.color), ("fillcolor", &pres.fill), ("color", &pres.stroke), ("penwidth", &pres.stroke_width)]
            .into_iter()
            .filter_map(|(k, v)| v.as_deref().map(|v| (k, v)))
            .collect();
        ensure_eq!(got, want, "attributes of {n}");
        ctx.label_if(!want.is_empty(), "node with attributes");
        let Some(Val::Html(table)) = attrs.get("label") else { return Err(format!("node {n} has no table")) };
        let rows = parse_table(table)?;
        // Expected cells: (port, text, boxed).
        let port_cells = |d: usize| -> Vec<(String, String, bool)> {
            let name = if d == IN { "in" } else { "out" };
            m.nodes[&n].ports[d]
                .iter()
                .enumerate()
                .filter_map(|(k, p)| {
                    let style = if c.port.is_empty() && c.weights.is_none() { PortStyle::default() } else { st.port_parts(*p) };
                    let (l, show, boxed) = match style {
                        PortStyle::Hidden => return None,
                        PortStyle::Plain(l, s) => (l, s, false),
                        PortStyle::Boxed(l, s) => (l, s, true),
                        s => panic!("unknown style {s:?}"),
                    };
                    let text = match (show, l.is_empty()) {
                        (false, _) => l,
                        (true, true) => k.to_string(),
                        (true, false) => format!("{k}: {l}"),
                    };
                    Some((format!("{name}{k}"), text, boxed))
                })
                .collect()
        };
        let (ins, outs) = (port_cells(IN), port_cells(OUT));
        let mut want: Vec<Vec<(Option<String>, String, bool)>> = vec![];
        let wrap = |v: &[(String, String, bool)]| v.iter().map(|(a, b, c)| (Some(a.clone()), b.clone(), *c)).collect::<Vec<_>>();
        if !ins.is_empty() {
            want.push(wrap(&ins));
        }
        want.push(vec![(None, label, false)]);
        if !outs.is_empty() {
            want.push(wrap(&outs));
        }
        let got: Vec<Vec<(Option<String>, String, bool)>> = rows
            .iter()
            .map(|r| r.iter().map(|x| (x.attrs.get("port").cloned(), x.text.clone(), x.attrs.get("border").map(|s| s.as_str()) != Some("0"))).collect())
            .collect();
        ensure_eq!(got, want, "cells of node {n}");
        let widths: Vec<usize> = rows.iter().map(|r| r.iter().map(|x| x.attrs.get("colspan").and_then(|s| s.parse().ok()).unwrap_or(1)).sum()).collect();
        ensure!(widths.iter().all(|w| *w == widths[0]), "rows of node {n} have widths {widths:?}");
        ctx.label_if(ins.len() + outs.len() < m.nodes[&n].ports.iter().flatten().count(), "hidden ports");
    }
    ensure_eq!(seen, nodes, "nodes drawn");

    type Edge = (usize, Option<usize>, usize, Option<usize>, String);
    let mut got: Vec<Edge> = vec![];
    let mut hgot = vec![];
    for (a, b, attrs) in &dot.edges {
        if let (Some(x), Some(y)) = (a.0.strip_prefix("hier"), b.0.strip_prefix("hier")) {
            ensure_eq!(attrs.get("style").map(|v| v.text()), Some("dashed"), "style of a hierarchy edge");
            hgot.push((x.parse::<usize>().map_err(|e| e.to_string())?, y.parse::<usize>().map_err(|e| e.to_string())?));
            continue;
        }
        let num = |s: &str| s.parse::<usize>().map_err(|_| format!("edge end {s}"));
        let side = |p: &Option<String>, name: &str| -> Result<Option<usize>, String> {
            match p {
                None => Ok(None),
                Some(p) => Ok(Some(p.strip_prefix(name).and_then(|s| s.parse().ok()).ok_or(format!("edge port {p}"))?)),
            }
        };
        got.push((num(&a.0)?, side(&a.1, "out")?, num(&b.0)?, side(&b.1, "in")?, attrs.get("style").map_or(String::new(), |v| v.text().to_string())));
    }
    let off = |h: Hd| m.ports[&h.0].2;
    let hidden = |p: usize| c.weights.is_none() && !c.port.is_empty() && matches!(st.port(p), PortStyle::Hidden);
    let mut want: Vec<Edge> = links
        .iter()
        .map(|(a, b)| {
            let style = if c.edge.is_empty() { EdgeStyle::Solid } else { st.edge(*a, *b) };
            let style = match edge_parts(&style).1 {
                EdgeStyle::Solid => "",
                EdgeStyle::Dotted => "dotted",
                EdgeStyle::Dashed => "dashed",
                _ => "==>",
            };
            (m.owner(*a), Some(off(*a)), m.owner(*b), Some(off(*b)), style.to_string())
        })
        .collect();
    // A hidden port has no cell to connect to: it may be named or not.
    for e in &mut got {
        if let (Some(n), Some(t)) = (m.nodes.get(&e.0), m.nodes.get(&e.2)) {
            if e.1.is_some_and(|k| n.ports[OUT].get(k).is_some_and(|p| hidden(*p))) {
                e.1 = None;
            }
            if e.3.is_some_and(|k| t.ports[IN].get(k).is_some_and(|p| hidden(*p))) {
                e.3 = None;
            }
        }
    }
    for (e, (a, b)) in want.iter_mut().zip(&links) {
        if hidden(a.0) {
            e.1 = None;
        }
        if hidden(b.0) {
            e.3 = None;
        }
    }
    got.sort();
    want.sort();
    ensure_eq!(got, want, "edges");
    let _ = g;

    // The hierarchy; whether hidden nodes are part of it is not specified.
    if let Some(f) = f {
        for n in &nodes {
            ensure!(hseen.contains(n), "node {n} is missing from the hierarchy");
        }
        let n = hgot.len();
        hgot.sort();
        hgot.dedup();
        ensure_eq!(hgot.len(), n, "duplicate hierarchy edges: number");
        for (p, k) in &hgot {
            ensure_eq!(f.parent.get(k), Some(p), "parent of {k}, drawn below {p}");
            ensure!(hseen.contains(p) && hseen.contains(k), "hierarchy edge {p} -> {k} between undrawn nodes");
        }
        for k in &nodes {
            if let Some(p) = f.parent.get(k) {
                ensure!(!nodes.contains(p) || hgot.contains(&(*p, *k)), "hierarchy edge {p} -> {k} is missing");
            }
        }
        ctx.label_if(!hgot.is_empty(), "hierarchy edges");
    } else {
        ensure!(hgot.is_empty(), "hierarchy edges without a hierarchy");
    }
    ctx.nontrivial_if(links.len() > 1 && nodes.len() > 2);
    Ok(())
}

type Keep = (BTreeSet<usize>, u16);

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let mut ids = d.m.node_ids();
    if let Some((r, _)) = &c.forest {
        let n = ids.len().max(1);
        ids.rotate_left(*r as usize % n);
        if r & 128 != 0 {
            ids.reverse();
        }
    }
    let made = c.forest.as_ref().map(|(_, f)| make_forest(&ids, f));
    let h = made.as_ref().map(|(h, f)| (h, f));
    let none = Hierarchy::new();
    let hier = h.map_or(&none, |x| x.0);
    let sel = |s: u16| -> BTreeSet<usize> { ids.iter().copied().filter(|n| bit16(s, n)).collect() };
    match c.view {
        View::Whole => show(&d.g, c, h, ctx),
        View::Subgraph(s) => {
            ctx.label("subgraph");
            show(&Subgraph::with_nodes(&d.g, sel(s).into_iter().map(ni)), c, h, ctx)
        }
        View::Region(s) => match pick(&ids, s as usize) {
            Some(r) => {
                ctx.label("region");
                show(&Region::new(&d.g, hier, ni(r)), c, h, ctx)
            }
            None => Ok(()),
        },
        View::Flat(s, root) => match pick(&ids, s as usize) {
            Some(r) => {
                ctx.label("flat region");
                let v = if root { FlatRegion::new_with_root(&d.g, hier, ni(r)) } else { FlatRegion::new_without_root(&d.g, hier, ni(r)) };
                show(&v, c, h, ctx)
            }
            None => Ok(()),
        },
        View::Filtered(s, p) => {
            ctx.label("filtered");
            let keep: Keep = (sel(s), p);
            let nf: NodeFilter<Keep> = |n: NodeIndex, k: &Keep| k.0.contains(&n.index());
            let lf: LinkFilter<Keep> = |p: PortIndex, k: &Keep| bit16(k.1, p.index());
            show(&FilteredGraph::new(&d.g, nf, lf, keep), c, h, ctx)
        }
    }
}

fn main() {
    let mut c = Check::start(
        "C29",
        "a random graph or view of it, hierarchy, and styles or weights for nodes, ports and edges; the dot text is parsed and must describe \
         exactly the drawn nodes, ports, links and hierarchy; non-trivial: more than two nodes and one link drawn",
    );
    c.run("single", 300_000, 8_000_000, |_| case(false, false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 300_000, 8_000_000, |_| case(true, false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(false, true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true, true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.finish()
}
