//! C12: the hierarchy is an ordered forest.
use pgv::{ensure, ensure_eq};
use pgv::deep::*;
use pgv::forest::*;
use pgv::runner::{Check, Ctx, Tier, TR};
use portgraph::Hierarchy;
use proptest::prelude::*;

fn go(ops: &[HOp], uni: usize, start: Hierarchy, ctx: &mut Ctx) -> TR {
    let (mut h, mut m) = (start, Forest::default());
    for (i, op) in ops.iter().enumerate() {
        hstep(&mut h, &mut m, op, uni, ctx)
            .and_then(|_| check_forest(&h, &m, uni + 2))
            .map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
    }
    let deep = m.parent.keys().map(|n| m.depth(*n)).max().unwrap_or(0);
    ctx.label_if(deep >= 3, "depth of at least 3");
    ctx.nontrivial_if(ctx.count("attach") >= 3 && (ctx.count("swap") + ctx.count("detach") + ctx.count("rekey")) > 0);
    Ok(())
}

/// A node per entry, each below one of few parents, and a history on those.
fn go_wide(c: &(Vec<(u16, bool)>, u16, Vec<HOp>), ctx: &mut Ctx) -> TR {
    let (kids, parents, ops) = c;
    let (mut h, mut m) = (Hierarchy::new(), Forest::default());
    let uni = kids.len() + *parents as usize;
    for (i, (p, front)) in kids.iter().enumerate() {
        let (n, p) = (i as u16 + parents, p % parents);
        hstep(&mut h, &mut m, &if *front { HOp::PushFront(n, p) } else { HOp::Push(n, p) }, uni, ctx)?;
    }
    check_forest(&h, &m, uni + 2)?;
    for (i, op) in ops.iter().enumerate() {
        hstep(&mut h, &mut m, op, uni, ctx)
            .and_then(|_| check_forest(&h, &m, uni + 2))
            .map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
    }
    ctx.nontrivial_if(ctx.count("swap") + ctx.count("detach") + ctx.count("rekey") > 0);
    Ok(())
}

/// One long branch.
fn go_deep(c: &Deep, ctx: &mut Ctx) -> TR {
    let mut h = c.hierarchy()?;
    let order = c.order();
    for k in 0..order.len() {
        ensure!(h.parent(order[k]) == k.checked_sub(1).map(|j| order[j]), "parent of node {k} of a branch of {}", c.n);
        ensure!(h.children(order[k]).eq(order.get(k + 1).copied()), "children of node {k} of a branch of {}", c.n);
    }
    // The root below the last node would be a cycle.
    ensure!(h.push_child(order[0], order[order.len() - 1]).is_err(), "cycle of {} nodes accepted", c.n);
    for k in c.at() {
        if k > 0 {
            ensure_eq!(h.detach(order[k]), Some(order[k - 1]), "detach node {k} of a branch of {}", c.n);
            h.push_child(order[k], order[k - 1]).map_err(|e| e.to_string())?;
        }
    }
    ensure!(h.push_child(order[0], order[order.len() - 1]).is_err(), "cycle of {} nodes accepted", c.n);
    ctx.nontrivial_if(true);
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C12",
        "histories of attachments (four kinds), detachments, swaps, renumberings, capacity changes and serialisation on \
         a small set of indices; after each step every query is compared with an ordered forest; non-trivial: at least \
         three attachments and a swap, detachment or renumbering",
    );
    let len = |t: Tier| if t == Tier::Quick { 5..40 } else { 5..120 };
    c.run("small", 90_000, 3_000_000, |t| hops(len(t)), |o: &Vec<HOp>, ctx| go(o, 6, Hierarchy::new(), ctx));
    c.run("medium", 50_000, 1_500_000, |t| hops(len(t)), |o: &Vec<HOp>, ctx| {
        go(o, 14, Hierarchy::with_capacity(5), ctx)
    });
    c.run("wide", 1_500, 50_000, |_| (prop::collection::vec(any::<(u16, bool)>(), 200..340), 1u16..4, hops(1..15)), go_wide);
    c.run("deep", 24, 600, |_| deep(), go_deep);
    c.finish()
}
