//! C21: copying a subgraph within its graph.
use std::collections::{BTreeMap, BTreeSet};

use pgv::{bit16, bit32};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::boundary::{Boundary, HasBoundary};
use portgraph::view::{CopySubgraphError, Subgraph};
use portgraph::{MultiPortGraph, PortGraph, PortView};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: Spec,
    sel: u16,
    /// Extend the selection to whole components.
    whole: bool,
    twice: bool,
    by_boundary: bool,
    free: u32,
}

fn case(big: bool) -> impl Strategy<Value = Case> {
    (
        sized(big, None, spec(SpecParams { nodes: 8, links: 14, ..SpecParams::default() })),
        prop_oneof![(any::<u16>(), any::<u16>()).prop_map(|(a, b)| a & b), any::<u16>()],
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        any::<u32>(),
    )
        .prop_map(|(g, sel, whole, twice, by_boundary, free)| Case { g, sel, whole, twice, by_boundary, free })
}

/// Links as (port, port), each once, with multiplicity.
fn edges(m: &Model) -> BTreeMap<(usize, usize), usize> {
    let mut out = BTreeMap::new();
    for (a, b) in m.edges() {
        *out.entry((a.0, b.0)).or_default() += 1;
    }
    out
}

fn go<G: TestGraph>(c: &Case, ctx: &mut Ctx) -> TR {
    let mut d = build::<G>(&c.g, ctx)?;
    let base = d.m.clone();
    let mut keep: BTreeSet<usize> = base.node_ids().into_iter().filter(|n| bit16(c.sel, n)).collect();
    let mut b = None;
    if c.by_boundary {
        // Free ports: the subgraph is their components.
        let ps: Vec<usize> = base.port_ids().into_iter().filter(|p| base.port_links(*p).is_empty() && bit32(c.free, p)).collect();
        keep = ps.iter().map(|p| base.ports[p].0).collect();
        if ps.is_empty() {
            keep = base.nodes.keys().copied().collect();
        }
        b = Some(Boundary::from_ports(&d.g, ps.iter().map(|p| pi(*p))));
    }
    if c.whole || c.by_boundary {
        let mut todo: Vec<usize> = keep.iter().copied().collect();
        while let Some(n) = todo.pop() {
            for x in base.succ(n).into_iter().chain(base.pred(n)) {
                if keep.insert(x) {
                    todo.push(x);
                }
            }
        }
    }
    let m = base.induced(|n| keep.contains(&n));
    let crossing: BTreeSet<(usize, usize)> =
        base.links.iter().filter(|(a, z)| keep.contains(&base.owner(**a)) && !keep.contains(&base.owner(**z))).map(|(a, z)| (a.0, z.0)).collect();
    ctx.label_if(m.edges().iter().any(|(a, z)| m.owner(*a) == m.owner(*z)), "self-link");
    ctx.nontrivial_if(m.link_count() > 1);
    let mut before = base.clone();
    // An empty boundary means the whole graph, copies included.
    let twice = c.twice && b.as_ref().map_or(true, |b| b.num_ports() > 0);
    for round in 0..1 + twice as usize {
        let mut v = match &b {
            Some(b) => Subgraph::new_subgraph(&mut d.g, b.clone()),
            None => Subgraph::with_nodes(&mut d.g, keep.iter().map(|n| ni(*n))),
        };
        let bound = v.port_boundary().into_owned();
        let res = v.copy_in_parent();
        let nodes: BTreeSet<usize> = v.nodes_iter().map(|n| n.index()).collect();
        ensure_eq!(nodes, keep, "nodes of the subgraph after the copy");
        ensure!(*v.port_boundary() == bound, "the boundary changed");
        drop(v);
        let now = Model::read(&d.g);
        let kept = now.induced(|n| before.nodes.contains_key(&n));
        match res {
            Err(CopySubgraphError::CantCopyBoundary { internal, external }) => {
                ensure!(!G::MULTI && !crossing.is_empty(), "copy of {keep:?} refused");
                ensure!(crossing.contains(&(internal.index(), external.index())), "the error names {internal:?} and {external:?}, boundary links are {crossing:?}");
                ensure_eq!(now, before, "graph after a refused copy");
                ctx.label("refused");
            }
            Err(e) => return Err(format!("copy failed with {e:?}")),
            Ok(map) => {
                ensure!(G::MULTI || crossing.is_empty(), "links across the boundary {crossing:?} were not refused");
                let map: BTreeMap<usize, usize> = map.iter().map(|(a, z)| (a.index(), z.index())).collect();
                ensure_eq!(map.keys().copied().collect::<BTreeSet<_>>(), keep, "keys of the returned map");
                let vals: BTreeSet<usize> = map.values().copied().collect();
                ensure_eq!(vals.len(), map.len(), "distinct copies");
                ensure!(vals.iter().all(|x| !before.nodes.contains_key(x)), "copies {vals:?} are old nodes");
                ensure_eq!(now.nodes.len(), before.nodes.len() + map.len(), "node count");
                ensure_eq!(kept, before, "old nodes and links");
                let mut pmap: BTreeMap<usize, usize> = BTreeMap::new();
                for (a, z) in &map {
                    for k in 0..2 {
                        let (x, y) = (&base.nodes[a].ports[k], &now.nodes[z].ports[k]);
                        ensure_eq!(y.len(), x.len(), "ports of the copy of {a} in direction {k}");
                        pmap.extend(x.iter().copied().zip(y.iter().copied()));
                    }
                }
                let to = |p: usize| pmap.get(&p).copied().unwrap_or(p);
                let mut want = edges(&before);
                for (a, z) in base.edges() {
                    if keep.contains(&base.owner(a)) || keep.contains(&base.owner(z)) {
                        *want.entry((to(a.0), to(z.0))).or_default() += 1;
                    }
                }
                ensure_eq!(edges(&now), want, "links after the copy of {keep:?}");
                check_view(&d.g, &now, ViewOpts { absent: true, pairs: true, ports: true })?;
                ctx.label_if(!crossing.is_empty(), "copied boundary links");
                ctx.label_if(round == 1, "second copy");
                // Copies add links at external ports: a second copy still
                // copies only the original ones.
                before = now;
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C21",
        "a random node set, set of components, or free-port boundary copied once or twice within its graph: copies with \
         the same ports, inner links and (multiport) boundary links, nothing else changed; a plain graph refuses exactly \
         the sets with boundary links, naming one, with no effect; non-trivial: more than one link inside",
    );
    c.run("single", 200_000, 5_000_000, |_| case(false), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("multi", 150_000, 4_000_000, |_| case(false), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.run("large_single", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<PortGraph>(c, ctx));
    c.run("large_multi", 1_000, 40_000, |_| case(true), |c: &Case, ctx| go::<MultiPortGraph>(c, ctx));
    c.finish()
}
