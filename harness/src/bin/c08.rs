//! C08: every query of a graph, through any reference, tells the same story.
use portgraph::{Direction, LinkMut, LinkView, MultiPortGraph, MultiView, PortGraph};
use pgv::gen::*;
use pgv::hist::*;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use proptest::prelude::*;

/// Answers of an iterator from any point on do not depend on how it got there.
fn resume<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T> + Clone>(it: I, what: &str) -> TR {
    let all: Vec<T> = it.clone().collect();
    for k in 0..=all.len() {
        let mut i = it.clone();
        for _ in 0..k {
            i.next();
        }
        let rest: Vec<T> = i.clone().collect();
        ensure!(rest[..] == all[k..], "{what}: clone after {k} steps yields {rest:?} of {all:?}");
        ensure_eq!(i.clone().count(), all.len() - k, "{what}: count after {k} steps");
        let (last, nth) = (i.clone().last(), it.clone().nth(k));
        ensure_eq!(last.as_ref(), all[k..].last(), "{what}: last after {k} steps");
        ensure_eq!(nth.as_ref(), all.get(k), "{what}: nth({k})");
        let folded = i.fold(0, |a, _| a + 1);
        ensure_eq!(folded, all.len() - k, "{what}: fold after {k} steps");
    }
    Ok(())
}

fn iters<G: LinkView>(g: &G, m: &Model) -> TR
where
    G::LinkEndpoint: Ep,
{
    resume(g.nodes_iter(), "nodes_iter")?;
    resume(g.ports_iter(), "ports_iter")?;
    let e = |(a, b): (G::LinkEndpoint, G::LinkEndpoint)| (a.ep(), b.ep());
    for &n in m.nodes.keys() {
        let n = ni(n);
        resume(g.all_ports(n), "all_ports")?;
        resume(g.all_port_offsets(n), "all_port_offsets")?;
        resume(g.all_links(n).map(e), "all_links")?;
        resume(g.all_neighbours(n), "all_neighbours")?;
        for d in Direction::BOTH {
            resume(g.ports(n, d), "ports")?;
            resume(g.port_offsets(n, d), "port_offsets")?;
            resume(g.links(n, d).map(e), "links")?;
            resume(g.neighbours(n, d), "neighbours")?;
        }
        for &t in m.nodes.keys() {
            resume(g.get_connections(n, ni(t)).map(e), "get_connections")?;
        }
    }
    for &p in m.ports.keys() {
        resume(g.port_links(pi(p)).map(e), "port_links")?;
    }
    Ok(())
}

/// Drive the trait methods through `&mut G` only.
fn via_mut<G: LinkMut<LinkEndpoint = <H as LinkView>::LinkEndpoint>, H: TestGraph>(mut g: G, h: &mut H, ops: u16) -> TR
where
    G::LinkEndpoint: Ep + PartialEq + std::fmt::Debug,
{
    // The same mutations on the reference and directly on `h`.
    let nodes: Vec<_> = h.nodes_iter().collect();
    g.reserve(3, 5);
    h.reserve(3, 5);
    let a = g.add_node(2, 2);
    ensure_eq!(a, h.add_node(2, 2), "add_node through a reference");
    let b = nodes.get(ops as usize % nodes.len().max(1)).copied().unwrap_or(a);
    let r = g.link_nodes(a, 0, b, 0).ok();
    ensure!(r == h.link_nodes(a, 0, b, 0).ok(), "link_nodes through a reference");
    let p = h.inputs(b).next();
    let r2 = p.and_then(|p| g.link_ports(h.output(a, 1).unwrap(), p).ok());
    ensure!(r2 == p.and_then(|p| h.link_ports(h.output(a, 1).unwrap(), p).ok()), "link_ports through a reference");
    let (mut e1, mut e2) = (vec![], vec![]);
    let (i, o) = ((ops % 4) as usize, (ops / 4 % 4) as usize);
    g.set_num_ports(b, i, o, |p, q| e1.push((p, q)));
    h.set_num_ports(b, i, o, |p, q| e2.push((p, q)));
    ensure!(e1 == e2, "set_num_ports through a reference: {e1:?} / {e2:?}");
    if ops % 3 == 0 {
        g.remove_node(b);
        h.remove_node(b);
    }
    if ops % 5 == 0 {
        g.swap_nodes(a, b);
        h.swap_nodes(a, b);
    }
    for p in h.ports_iter().collect::<Vec<_>>() {
        if (p.index() + ops as usize) % 3 == 0 {
            let x = g.unlink_port(p);
            ensure!(x == h.unlink_port(p), "unlink_port through a reference");
        }
    }
    let (mut e1, mut e2) = (vec![], vec![]);
    g.compact_nodes(|p, q| e1.push((p, q)));
    h.compact_nodes(|p, q| e2.push((p, q)));
    ensure!(e1 == e2, "compact_nodes through a reference");
    let (mut e1, mut e2) = (vec![], vec![]);
    g.compact_ports(|p, q| e1.push((p, q)));
    h.compact_ports(|p, q| e2.push((p, q)));
    ensure!(e1 == e2, "compact_ports through a reference");
    g.shrink_to_fit();
    h.shrink_to_fit();
    if ops % 11 == 0 {
        g.clear();
        h.clear();
    }
    Ok(())
}

fn common<G: TestGraph>(d: &mut Driver<G>, ctx: &mut Ctx) -> TR {
    d.verify()?;
    iters(&d.g, &d.m)?;
    let o = ViewOpts::default();
    check_view(&&d.g, &d.m, o).map_err(|e| format!("through &G: {e}"))?;
    check_absent(&&d.g, &d.m).or_else(|e| if G::MULTI { Ok(()) } else { Err(format!("through &G: {e}")) })?;
    check_view(&&mut d.g, &d.m, o).map_err(|e| format!("through &mut G: {e}"))?;
    if d.m.ports.len() % 8 == 3 {
        ensure!(!format!("{:?}{:#?}", d.g, d.g).is_empty(), "empty debug output");
    }
    ctx.nontrivial_if(d.m.link_count() >= 2);
    ctx.label_if(d.m.edges().iter().any(|(a, b)| d.m.owner(*a) == d.m.owner(*b)), "has self-link");
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C08",
        "random graphs: all structural queries agree with the model and with each other, every iterator has a \
         truthful size hint, is fused and resumes from a clone, and answers through &G and &mut G are the same; \
         non-trivial: at least two links",
    );
    c.assume("iterator order is only compared where the documentation fixes it (ports in offset order)");
    fn case(big: bool) -> impl Strategy<Value = (Spec, u16)> {
        (sized(big, None, spec(SpecParams::default())), any::<u16>())
    }
    let single = |(s, k): &(Spec, u16), ctx: &mut Ctx| {
        let mut d = build::<PortGraph>(s, ctx)?;
        common(&mut d, ctx)?;
        let mut r = d.g.clone();
        via_mut(&mut r, &mut d.g, *k)?;
        ensure!(r == d.g, "mutations through &mut G give a different graph");
        Ok(())
    };
    let multi = |(s, k): &(Spec, u16), ctx: &mut Ctx| {
        let mut d = build::<MultiPortGraph>(s, ctx)?;
        common(&mut d, ctx)?;
        for &n in d.m.nodes.keys() {
            resume(d.g.all_subports(ni(n)), "all_subports")?;
            for dd in Direction::BOTH {
                resume(d.g.subports(ni(n), dd), "subports")?;
            }
        }
        check_subports(&&d.g, &d.m).map_err(|e| format!("through &G: {e}"))?;
        check_subports(&&mut d.g, &d.m).map_err(|e| format!("through &mut G: {e}"))?;
        let mut r = d.g.clone();
        via_mut(&mut r, &mut d.g, *k)?;
        ensure!(r == d.g, "mutations through &mut G give a different graph");
        Ok(())
    };
    c.run("single", 150_000, 6_000_000, |_| case(false), single);
    c.run("multi", 100_000, 4_000_000, |_| case(false), multi);
    c.run("large_single", 500, 20_000, |_| case(true), single);
    c.run("large_multi", 500, 20_000, |_| case(true), multi);
    c.finish()
}
