//! C25: lowest common ancestors.
use portgraph::NodeIndex;
use pgv::deep::*;
use pgv::bit32;
use pgv::forest::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::ensure_eq;
use portgraph::algorithms::{lca, LCA};
use portgraph::view::{Region, Subgraph};
use portgraph::{Hierarchy, MultiPortGraph, PortGraph, PortMut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    n: usize,
    /// Parent of each node but the first: distance back, 0 for a new root.
    back: Vec<u8>,
    /// Order of the siblings and renaming of nodes.
    perm: Vec<u16>,
    removed: Vec<u16>,
    multi: bool,
    /// Build it for a view of the graph: kept nodes or a region.
    view: Option<(u32, Option<u16>)>,
    /// Detached again after building.
    cut: Vec<u16>,
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    (1usize..=max).prop_flat_map(|n| {
        (
            prop_oneof![
                // Chains with few branches, bushes, forests.
                4 => prop::collection::vec(prop_oneof![12 => Just(1u8), 2 => 1u8..6, 1 => any::<u8>()], n - 1),
                2 => prop::collection::vec(any::<u8>(), n - 1),
                2 => prop::collection::vec(prop_oneof![6 => 1u8..4, 1 => Just(0u8)], n - 1),
            ],
            prop::collection::vec(any::<u16>(), n),
            prop_oneof![2 => prop::collection::vec(any::<u16>(), 0..=0), 1 => prop::collection::vec(any::<u16>(), 0..=3)],
            any::<bool>(),
            prop_oneof![3 => Just(None), 1 => (any::<u32>(), prop::option::of(any::<u16>())).prop_map(Some)],
            prop_oneof![2 => prop::collection::vec(any::<u16>(), 0..=0), 1 => prop::collection::vec(any::<u16>(), 0..=2)],
        )
            .prop_map(move |(back, perm, removed, multi, view, cut)| Case { n, back, perm, removed, multi, view, cut })
    })
}

fn go(c: &Case, ctx: &mut Ctx) -> TR {
    // Node ids with gaps: `removed` positions of a larger graph.
    let total = c.n + c.removed.len();
    let mut ids: Vec<usize> = (0..total).collect();
    for r in &c.removed {
        let i = *r as usize % ids.len();
        ids.remove(i);
    }
    let used = ids.clone();
    for (i, s) in c.perm.iter().enumerate() {
        let j = i + *s as usize % (ids.len() - i);
        ids.swap(i, j);
    }
    let mut g = PortGraph::new();
    for _ in 0..total {
        g.add_node(0, 0);
    }
    for n in (0..total).filter(|n| !used.contains(n)) {
        g.remove_node(ni(n));
    }
    let mut h = Hierarchy::new();
    let mut f = Forest::default();
    for (k, b) in c.back.iter().enumerate() {
        let child = k + 1;
        if *b == 0 {
            continue;
        }
        let parent = ids[child - 1 - (*b as usize - 1) % child];
        h.push_child(ni(ids[child]), ni(parent)).map_err(|e| e.to_string())?;
        let at = f.kids(parent).len();
        f.attach(ids[child], parent, at);
    }
    for s in &c.cut {
        let n = ids[*s as usize % ids.len()];
        h.detach(ni(n));
        f.detach(n);
    }
    // The nodes of the view, if any; only their answers are compared.
    let mut asked = ids.clone();
    let l: LCA = if let Some((sel, region)) = c.view {
        ctx.label("view");
        match region {
            Some(r) => {
                let r = ids[r as usize % ids.len()];
                asked = f.bfs(r);
                ctx.label_if(f.parent.contains_key(&r), "view without a root");
                lca(&Region::new(&g, &h, ni(r)), &h)
            }
            None => {
                asked.retain(|n| bit32(sel, n));
                ctx.label_if(asked.iter().any(|n| f.parent.get(n).is_some_and(|p| !asked.contains(p))), "view without a root");
                lca(&Subgraph::with_nodes(&g, asked.iter().map(|n| ni(*n))), &h)
            }
        }
    } else if c.multi { LCA::new(&MultiPortGraph::from(g.clone()), &h) } else { lca(&g, &h) };
    let up = |mut n: usize| {
        let mut v = vec![n];
        while let Some(p) = f.parent.get(&n) {
            n = *p;
            v.push(n);
        }
        v
    };
    let paths: std::collections::BTreeMap<usize, Vec<usize>> = ids.iter().map(|n| (*n, up(*n))).collect();
    for &a in &asked {
        ensure_eq!(l.root(ni(a)).index(), *paths[&a].last().unwrap(), "root of {a}");
        for &b in &asked {
            ensure_eq!(l.is_ancestor(ni(a), ni(b)), paths[&b].contains(&a), "is_ancestor({a}, {b})");
            let want = paths[&a].iter().copied().find(|x| paths[&b].contains(x));
            ensure_eq!(l.lca(ni(a), ni(b)).map(|x| x.index()), want, "lca({a}, {b})");
        }
    }
    // Indices that no node uses have no relatives.
    let gone: Vec<usize> = (0..total + 2).filter(|n| !used.contains(n)).collect();
    for &x in &gone {
        ensure_eq!(l.root(ni(x)).index(), x, "root of the unused index {x}");
        for &b in asked.iter().chain(&gone) {
            let want = (b == x).then_some(x);
            for (p, q) in [(x, b), (b, x)] {
                ensure_eq!(l.is_ancestor(ni(p), ni(q)), want.is_some(), "is_ancestor({p}, {q}), where {x} is unused");
                ensure_eq!(l.lca(ni(p), ni(q)).map(|x| x.index()), want, "lca({p}, {q}), where {x} is unused");
            }
        }
    }
    let depth = paths.values().map(|p| p.len()).max().unwrap_or(0);
    ctx.label_if(depth > 8, "depth above 8");
    ctx.label_if(depth > 16, "depth above 16");
    ctx.label_if(depth > 32, "depth above 32");
    ctx.label_if(paths.values().filter(|p| p.len() == 1).count() > 1, "several trees");
    ctx.nontrivial_if(depth > 4 && f.children.values().any(|v| v.len() > 1));
    Ok(())
}

/// A hierarchy of one long branch.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let mut g: PortGraph = PortGraph::new();
    for _ in 0..c.n {
        g.add_node(0, 0);
    }
    let mut h = c.hierarchy()?;
    let order = c.order();
    // A leaf on the side of every position asked about.
    let mut leaves = vec![];
    for k in c.at() {
        let l = g.add_node(0, 0);
        h.insert_after(l, order[(k + 1).min(order.len() - 1)]).map_err(|e| e.to_string())?;
        leaves.push((l, k.min(order.len() - 2)));
    }
    let t = lca(&g, &h);
    let mut nodes: Vec<(NodeIndex, usize, bool)> = leaves.iter().map(|(l, k)| (*l, *k, true)).collect();
    nodes.extend(c.at().into_iter().map(|k| (order[k], k, false)));
    for (a, j, x) in &nodes {
        ensure_eq!(t.root(*a), order[0], "root of a node of a branch of {} nodes", c.n);
        for (b, k, y) in &nodes {
            let anc = a == b || !*x && j <= k;
            ensure_eq!(t.is_ancestor(*a, *b), anc, "is_ancestor in a branch of {} nodes: {j} {x} {k} {y}", c.n);
            let want = if a == b { *a } else { order[*j.min(k)] };
            ensure_eq!(t.lca(*a, *b), Some(want), "lca in a branch of {} nodes: {j} {x} {k} {y}", c.n);
        }
    }
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C25",
        "a random forest (chains with branches, bushes, several trees, detached subtrees, gaps in the node indices), for the graph or a view of it; \
         root, is_ancestor and lca of every pair must be those of the ancestor lists; non-trivial: depth above four \
         and some node with two children",
    );
    c.run("small", 250_000, 6_000_000, |_| case(14), go);
    c.run("deep", 40_000, 1_500_000, |_| case(48), go);
    c.run("huge", 150, 8_000, |_| case(400), go);
    c.run("branch", 24, 600, |_| deep(), go_deep);
    c.finish()
}
