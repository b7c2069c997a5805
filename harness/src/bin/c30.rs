//! C30: the mermaid rendering describes exactly the graph and its hierarchy.
use std::collections::{BTreeMap, BTreeSet};

use pgv::bit16;
use pgv::forest::*;
use pgv::gen::build;
use pgv::hist::TestGraph;
use pgv::model::*;
use pgv::render::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq, pick};
use portgraph::render::{EdgeStyle, MermaidFormat};
use portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, NodeFilter, Region, Subgraph};
use portgraph::{Hierarchy, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex, Weights};

fn show<G: LinkView>(g: &G, c: &Case, h: Option<(&Hierarchy, &Forest)>, ctx: &mut Ctx) -> TR
where
    G::LinkEndpoint: Ep,
{
    let m = Model::read(g);
    let st = Styles(c);
    let mut w: Weights<String, String> = Weights::new();
    let mut fmt = g.mermaid_format();
    if let Some((h, _)) = h {
        fmt = fmt.with_hierarchy(h);
    }
    if !c.edge.is_empty() {
        fmt = fmt.with_edge_style(|a, b| st.edge(a.ep(), b.ep()));
    }
    if let Some(k) = c.weights {
        for n in m.node_ids() {
            w[ni(n)] = weight(k, n);
        }
        fmt = fmt.with_weights(&w);
    } else if !c.node.is_empty() {
        fmt = fmt.with_node_style(|n| st.node(n.index()));
    }
    let text = fmt.finish();
    let whole = matches!(c.view, View::Whole);
    check(&m, c, h.map(|x| x.1), whole, &text, ctx).map_err(|e| format!("{e}\n{text}"))?;
    if c.node.is_empty() && c.edge.is_empty() && c.weights.is_none() && h.is_none() {
        ensure_eq!(g.mermaid_string(), text, "mermaid_string");
    }
    Ok(())
}

/// Leading number of a line.
fn number(s: &str) -> Option<(usize, &str)> {
    let k = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..k].parse().ok().map(|n| (n, &s[k..]))
}

/// What one line of the diagram defines.
#[derive(Debug)]
struct Def {
    /// Enclosing subgraph.
    parent: Option<usize>,
    subgraph: bool,
    hidden: bool,
    label: String,
}

fn check(m: &Model, c: &Case, f: Option<&Forest>, whole: bool, text: &str, ctx: &mut Ctx) -> TR {
    let st = Styles(c);
    let empty = Forest::default();
    let f = f.unwrap_or(&empty);
    let mut defs: BTreeMap<usize, Def> = BTreeMap::new();
    let mut styles: BTreeMap<usize, String> = BTreeMap::new();
    let mut edges: Vec<(usize, usize, String)> = vec![];
    let mut stack: Vec<usize> = vec![];
    let mut at: Vec<(usize, usize, Option<usize>)> = vec![];
    let mut lines = text.lines();
    ensure_eq!(lines.next().map(|l| l.trim()), Some("graph LR"), "first line");
    for l in lines {
        let l = l.trim();
        if l.is_empty() {
            continue;
        }
        if let Some(r) = l.strip_prefix("subgraph ") {
            let (n, r) = number(r).ok_or(format!("line {l:?}"))?;
            let r = r.trim().strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or(format!("line {l:?}"))?;
            let d = Def { parent: stack.last().copied(), subgraph: true, hidden: r.trim().is_empty(), label: r.to_string() };
            ensure!(defs.insert(n, d).is_none(), "node {n} is defined twice");
            stack.push(n);
        } else if l == "end" {
            ensure!(stack.pop().is_some(), "end without a subgraph");
        } else if l.starts_with("direction ") {
            ensure!(!stack.is_empty(), "direction outside of a subgraph");
        } else if let Some(r) = l.strip_prefix("style ") {
            let (n, r) = number(r).ok_or(format!("line {l:?}"))?;
            ensure!(styles.insert(n, r.trim().to_string()).is_none(), "two styles for node {n}");
            ensure!(defs.contains_key(&n), "style before the definition of node {n}");
        } else {
            let (n, r) = number(l).ok_or(format!("line {l:?}"))?;
            if r == ":::hidden" {
                let d = Def { parent: stack.last().copied(), subgraph: false, hidden: true, label: String::new() };
                ensure!(defs.insert(n, d).is_none(), "node {n} is defined twice");
            } else if let Some(r) = r.strip_prefix('[') {
                let r = r.strip_suffix(']').ok_or(format!("line {l:?}"))?;
                let d = Def { parent: stack.last().copied(), subgraph: false, hidden: false, label: r.to_string() };
                ensure!(defs.insert(n, d).is_none(), "node {n} is defined twice");
            } else {
                let k = r.rfind(|c: char| !c.is_ascii_digit()).ok_or(format!("line {l:?}"))? + 1;
                let t: usize = r[k..].parse().map_err(|_| format!("line {l:?}"))?;
                edges.push((n, t, r[..k].trim().to_string()));
                at.push((n, t, stack.last().copied()));
            }
        }
    }
    ensure!(stack.is_empty(), "subgraphs left open: {stack:?}");

    // Nodes.
    let ids: BTreeSet<usize> = m.node_ids().into_iter().collect();
    ensure_eq!(defs.keys().copied().collect::<BTreeSet<_>>(), ids, "nodes of the diagram");
    let unstyled = c.node.is_empty() && c.weights.is_none();
    let parts = |n: usize| if unstyled { Some((String::new(), Default::default())) } else { st.node_parts(n) };
    for (n, d) in &defs {
        let parent = f.parent.get(n).copied().filter(|p| ids.contains(p));
        ensure_eq!(d.parent, parent, "subgraph around node {n}");
        let kids = f.kids(*n).iter().any(|k| ids.contains(k));
        ensure_eq!(d.subgraph, kids, "node {n} is drawn as a subgraph");
        let want = parts(*n);
        ensure_eq!(d.hidden, want.is_none(), "node {n} is hidden");
        if let Some((l, a)) = want {
            let l = if l.is_empty() { n.to_string() } else { encode(&l) };
            ensure_eq!(d.label, l, "label of node {n}");
            let a: Vec<String> = [("color", a.color), ("fill", a.fill), ("stroke", a.stroke), ("stroke-width", a.stroke_width)]
                .into_iter()
                .filter_map(|(k, v)| v.map(|v| format!("{k}:{v}")))
                .collect();
            let got: Vec<String> = styles.get(n).map_or(vec![], |s| s.split(',').map(|x| x.trim().to_string()).collect());
            ensure_eq!(got, a, "style of node {n}");
            ctx.label_if(!a.is_empty(), "node with attributes");
        } else {
            ensure!(!styles.contains_key(n), "style for the hidden node {n}");
        }
        ctx.label_if(kids && d.hidden, "hidden subgraph");
        ctx.label_if(kids && parent.is_some(), "nested subgraphs");
        ctx.label_if(f.parent.contains_key(n) && parent.is_none(), "parent outside of the view");
    }

    // Edges.
    let links: Vec<(Hd, Hd)> = m.edges().into_iter().filter(|(a, b)| parts(m.owner(*a)).is_some() && parts(m.owner(*b)).is_some()).collect();
    ctx.label_if(links.len() < m.link_count(), "links of hidden nodes");
    let mut want: Vec<(usize, usize, String)> = links
        .iter()
        .map(|(a, b)| {
            let e = if c.edge.is_empty() { EdgeStyle::Solid } else { st.edge(*a, *b) };
            (m.owner(*a), m.owner(*b), arrow(&e))
        })
        .collect();
    let mut got = edges.clone();
    for e in &mut got {
        // Longer forms of the same arrows, used for an empty label.
        if e.2 == "---->" {
            e.2 = "-->".to_string();
        } else if e.2 == "-..->" {
            e.2 = "-.->".to_string();
        }
    }
    got.sort();
    want.sort();
    ensure_eq!(got, want, "edges");

    // An edge may stand in a subgraph only if both ends belong there. In a
    // complete graph it stands in the innermost one.
    for (a, b, inside) in &at {
        if let Some(s) = inside {
            ensure!(f.within(*a, *s) && f.within(*b, *s), "edge {a} -> {b} is drawn in subgraph {s}");
        }
        if whole {
            let mut n = *a;
            let common = loop {
                if f.within(*b, n) {
                    break Some(n);
                }
                match f.parent.get(&n) {
                    Some(p) => n = *p,
                    None => break None,
                }
            };
            match common {
                Some(x) if f.kids(x).is_empty() => {} // a self-link of a leaf
                _ => ensure_eq!(*inside, common, "subgraph around the edge {a} -> {b}"),
            }
        }
        ctx.label_if(inside.is_some(), "edge in a subgraph");
    }
    ctx.nontrivial_if(links.len() > 1 && defs.values().any(|d| d.subgraph));
    Ok(())
}

fn encode(l: &str) -> String {
    format!("\"{}\"", l.replace('"', "#quot;").replace('\n', "<br>"))
}

fn arrow(e: &EdgeStyle) -> String {
    let (l, base) = edge_parts(e);
    // An empty label draws nothing.
    match (l.filter(|l| !l.is_empty()).map(|l| encode(&l)), base) {
        (_, EdgeStyle::Custom(s)) => s,
        (None, EdgeStyle::Solid) => "-->".to_string(),
        (None, _) => "-.->".to_string(),
        (Some(l), EdgeStyle::Solid) => format!("--{l}-->"),
        (Some(l), _) => format!("-.{l}.->"),
    }
}

type Keep = (BTreeSet<usize>, u16);

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let d = build::<G>(&c.g, ctx)?;
    let mut ids = d.m.node_ids();
    if let Some((r, _)) = &c.forest {
        let n = ids.len().max(1);
        ids.rotate_left(*r as usize % n);
        if r & 128 != 0 {
            ids.reverse();
        }
    }
    let made = c.forest.as_ref().map(|(_, f)| make_forest(&ids, f));
    let h = made.as_ref().map(|(h, f)| (h, f));
    let none = Hierarchy::new();
    let hier = h.map_or(&none, |x| x.0);
    let sel = |s: u16| -> BTreeSet<usize> { ids.iter().copied().filter(|n| bit16(s, n)).collect() };
    match c.view {
        View::Whole => show(&d.g, c, h, ctx),
        View::Subgraph(s) => {
            ctx.label("subgraph");
            show(&Subgraph::with_nodes(&d.g, sel(s).into_iter().map(ni)), c, h, ctx)
        }
        View::Region(s) => match pick(&ids, s as usize) {
            Some(r) => {
                ctx.label("region");
                show(&Region::new(&d.g, hier, ni(r)), c, h, ctx)
            }
            None => Ok(()),
        },
        View::Flat(s, root) => match pick(&ids, s as usize) {
            Some(r) => {
                ctx.label("flat region");
                let v = if root { FlatRegion::new_with_root(&d.g, hier, ni(r)) } else { FlatRegion::new_without_root(&d.g, hier, ni(r)) };
                show(&v, c, h, ctx)
            }
            None => Ok(()),
        },
        View::Filtered(s, p) => {
            ctx.label("filtered");
            let keep: Keep = (sel(s), p);
            let nf: NodeFilter<Keep> = |n: NodeIndex, k: &Keep| k.0.contains(&n.index());
            let lf: LinkFilter<Keep> = |p: PortIndex, k: &Keep| bit16(k.1, p.index());
            show(&FilteredGraph::new(&d.g, nf, lf, keep), c, h, ctx)
        }
    }
}

fn main() {
    let mut c = Check::start(
        "C30",
        "a random graph or view of it, hierarchy, and styles or weights for nodes and edges; the mermaid text is parsed and must describe \
         exactly the nodes, nested as in the hierarchy, and the links; non-trivial: more than one link and some subgraph drawn",
    );
    c.run("single", 300_000, 8_000_000, |_| case(false, false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 300_000, 8_000_000, |_| case(true, false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 5_000, 200_000, |_| case(false, true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 5_000, 200_000, |_| case(true, true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.finish()
}
