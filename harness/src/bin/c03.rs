//! C03: set_num_ports keeps surviving ports and links and reports every move and removal exactly.
use portgraph::{MultiPortGraph, PortGraph, PortOffset};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{no_panic, Check, Ctx, Tier, TR};
use pgv::{ensure, ensure_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A node resized through large counts, with a few links.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Big {
    start: (u32, u32),
    links: Vec<(u16, u16)>,
    sizes: Vec<(u32, u32)>,
}

fn big(limit: u32) -> impl Strategy<Value = Big> {
    let near = move |x: u32| (x.saturating_sub(3)..=x + 3).boxed();
    let size = move || {
        let mut v = vec![(4, (0..40u32).boxed()), (2, (0..=limit).boxed()), (2, near(limit)), (2, near(limit + 1)), (1, near(2 * limit + 2))];
        for p in [128u32, 256, 1024, 16384, 32768, 65535] {
            if p < 3 * limit {
                v.push((1, near(p)));
                v.push((1, near(p / 2)));
            }
        }
        proptest::strategy::Union::new_weighted(v)
    };
    (
        (size(), size()),
        prop::collection::vec((any::<u16>(), any::<u16>()), 0..6),
        prop::collection::vec((size(), size()), 1..5),
    )
        .prop_map(|(start, links, sizes)| Big { start, links, sizes })
}

/// Port counts are either accepted and exact, or rejected by the documented
/// panic without touching the graph.
fn go_big<G: TestGraph>(c: &Big, multi_links: bool, ctx: &mut Ctx) -> TR {
    // Counts that must be accepted, and counts that must be rejected; a count
    // of exactly u16::MAX may go either way.
    let max = PortOffset::<G::O>::max_offset();
    let may = |i: usize, o: usize| i <= max && o <= max && i + o <= u16::MAX as usize;
    let must = |i: usize, o: usize| may(i, o) && i.max(o) < u16::MAX as usize;
    let mut g = G::default();
    let peer = g.add_node(7, 7);
    let peer_ports: Vec<Vec<usize>> =
        [g.inputs(peer).map(|p| p.index()).collect(), g.outputs(peer).map(|p| p.index()).collect()].into();
    let (i0, o0) = (c.start.0 as usize, c.start.1 as usize);
    let before = g.clone();
    let n = match no_panic(|| g.add_node(i0, o0)) {
        Ok(n) => {
            ensure!(may(i0, o0), "add_node({i0},{o0}) accepted counts beyond the limit");
            n
        }
        Err(e) => {
            ensure!(!must(i0, o0), "add_node({i0},{o0}) rejected: {e}");
            ensure!(g == before, "rejected add_node({i0},{o0}) changed the graph");
            ctx.label("rejected add_node");
            g.add_node(1, 1)
        }
    };
    let mut counts = [g.num_inputs(n), g.num_outputs(n)];
    // links: (direction on n, offset on n) -> peer port
    let mut links: std::collections::BTreeMap<(usize, usize), Vec<usize>> = Default::default();
    for &(a, b) in &c.links {
        let d = (a % 2) as usize;
        if counts[d] == 0 {
            continue;
        }
        let off = if b % 3 == 0 { counts[d] - 1 } else { b as usize % counts[d] };
        let p = if d == IN { g.input(n, off) } else { g.output(n, off) }.ok_or(format!("no port at ({d},{off})"))?;
        let q = peer_ports[1 - d][b as usize % 7];
        let taken = links.values().flatten().any(|x| *x == q) || links.contains_key(&(d, off));
        if taken && !multi_links {
            continue;
        }
        g.link_ports(p, pi(q)).map_err(|e| format!("link: {e:?}"))?;
        links.entry((d, off)).or_default().push(q);
    }
    for &(i, o) in &c.sizes {
        let (i, o) = (i as usize, o as usize);
        let before = g.clone();
        let mut events = 0usize;
        match no_panic(|| g.set_num_ports(n, i, o, |_, _| events += 1)) {
            Ok(()) => ensure!(may(i, o), "set_num_ports({i},{o}) accepted counts beyond the limit"),
            Err(e) => {
                ensure!(!must(i, o), "set_num_ports({i},{o}) rejected: {e}");
                ensure!(g == before && events == 0, "rejected set_num_ports({i},{o}) changed the graph");
                ctx.label("rejected set_num_ports");
                continue;
            }
        }
        ctx.label("accepted");
        ctx.label_if(i + o > 32768, "over 32768 ports");
        ctx.nontrivial_if(!links.is_empty());
        counts = [i, o];
        links.retain(|(d, off), _| *off < counts[*d]);
        ensure_eq!((g.num_inputs(n), g.num_outputs(n)), (i, o), "counts after set_num_ports({i},{o})");
        ensure_eq!(g.port_count(), 14 + i + o, "port_count after set_num_ports({i},{o})");
        ensure_eq!(g.all_ports(n).count(), i + o, "all_ports after set_num_ports({i},{o})");
        ensure!(g.node_port_capacity(n) >= i + o, "node_port_capacity after set_num_ports({i},{o})");
        ensure_eq!(g.link_count(), links.values().map(|v| v.len()).sum::<usize>(), "link_count");
        for d in 0..2 {
            let ports: Vec<_> = g.ports(n, dir(d)).collect();
            ensure_eq!(ports.len(), counts[d], "ports({d})");
            let offs: Vec<_> = g.port_offsets(n, dir(d)).collect();
            ensure_eq!(offs.len(), counts[d], "port_offsets({d})");
            let step = (counts[d] / 200).max(1);
            let probe = (0..counts[d]).filter(|k| k % step == 0 || k + 3 > counts[d] || links.contains_key(&(d, *k)));
            for k in probe {
                let p = ports[k];
                ensure_eq!((offs[k].direction(), offs[k].index()), (dir(d), k), "port_offsets({d})[{k}]");
                ensure_eq!(g.port_node(p), Some(n), "port_node of ({d},{k})");
                ensure_eq!(g.port_direction(p), Some(dir(d)), "port_direction of ({d},{k})");
                let off = g.port_offset(p).map(|x| (x.direction(), x.index()));
                ensure_eq!(off, Some((dir(d), k)), "port_offset of ({d},{k})");
                ensure_eq!(g.port_index(n, PortOffset::new(dir(d), k)), Some(p), "port_index of ({d},{k})");
                let mut got: Vec<usize> = g.port_links(p).map(|(_, b)| b.ep().0).collect();
                got.sort();
                let mut want = links.get(&(d, k)).cloned().unwrap_or_default();
                want.sort();
                ensure_eq!(got, want, "links of ({d},{k})");
            }
        }
    }
    // The node can go, and the rest is intact.
    g.remove_node(n);
    ensure_eq!((g.node_count(), g.port_count(), g.link_count()), (1, 14, 0), "counts after removing the node");
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C03",
        "histories dense in set_num_ports (every report checked against the outcome, and followed by a client \
         table) plus single nodes resized to and beyond the representable port counts; non-trivial: a linked \
         port was removed or a port moved while links existed",
    );
    let len = |t: Tier| if t == Tier::Quick { 3..25 } else { 3..80 };
    fn tally(ctx: &mut Ctx) -> TR {
        ctx.nontrivial_if(ctx.count("link") > 0 && ctx.count("linked port removed") + ctx.count("port moved") > 0);
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    let mix = Mix { set: 24, link: 24, add: 6, compact: 2, swap: 1, reject: 0, unlink: 2, misc: 1, max_ports: 6, ..Mix::default() };
    c.run("single", 40_000, 2_000_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<PortGraph>(o, ctx));
    c.run(
        "wide",
        5_000,
        400_000,
        |t| ops(Mix { max_ports: 40, add: 3, link: 40, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go::<PortGraph<u32, u32, u8>>(o, ctx),
    );
    c.run(
        "multi",
        40_000,
        2_000_000,
        |t| ops(Mix { multi: true, sub: 3, max_ports: 4, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx),
    );
    c.run("big_u8", 10_000, 400_000, |_| big(126), |o: &Big, ctx| go_big::<PortGraph<u32, u32, u8>>(o, false, ctx));
    c.run("big_u8_multi", 5_000, 200_000, |_| big(126), |o: &Big, ctx| {
        go_big::<MultiPortGraph<u32, u32, u8>>(o, true, ctx)
    });
    c.run("big_u16", 1_500, 30_000, |_| big(32766), |o: &Big, ctx| go_big::<PortGraph>(o, false, ctx));
    c.run("big_u16_multi", 750, 15_000, |_| big(32766), |o: &Big, ctx| go_big::<MultiPortGraph>(o, true, ctx));
    c.run("big_u32", 1_500, 30_000, |_| big(65534), |o: &Big, ctx| go_big::<PortGraph<u32, u32, u32>>(o, false, ctx));
    c.run("large", 1_200, 40_000, |_| large_history(Mix { max_ports: 40, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(Mix { max_ports: 40, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("large_multi", 1_200, 40_000, |_| large_history(Mix { multi: true, sub: 3, max_ports: 40, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.run("far_multi", 30, 2_000, |_| far_history(Mix { multi: true, sub: 3, max_ports: 40, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.finish()
}
