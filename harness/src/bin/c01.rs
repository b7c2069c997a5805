//! C01: a PortGraph agrees with the reference model after every operation.
use portgraph::{PortGraph, PortView};
use pgv::ensure;
use pgv::gen::*;
use proptest::prelude::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};

fn main() {
    let mut c = Check::start(
        "C01",
        "random mutation histories of a PortGraph, compared with a reference model after every operation; \
         non-trivial: at least two links, one removal or resize of a linked node, and a later insertion",
    );
    let len = |t: Tier| if t == Tier::Quick { 1..40 } else { 1..120 };
    fn tally(ctx: &mut Ctx) -> TR {
        ctx.nontrivial_if(
            ctx.count("link") >= 2
                && ctx.count("linked node removed") + ctx.count("linked port removed") + ctx.count("port moved") > 0,
        );
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    // Starting with capacity for some nodes and ports.
    fn go_cap(c: &(u8, u16, Vec<Op>), ctx: &mut Ctx) -> TR {
        let g = <PortGraph>::with_capacity(c.0 as usize, c.1 as usize % 600);
        ensure!(g.node_capacity() >= c.0 as usize, "with_capacity({}, _) has capacity for {} nodes", c.0, g.node_capacity());
        ensure!(g.port_capacity() >= c.1 as usize % 600, "with_capacity(_, {}) has capacity for {} ports", c.1 % 600, g.port_capacity());
        ensure!(g == <PortGraph>::default() && g.is_empty(), "with_capacity({}, {}) is not empty", c.0, c.1);
        run_history(g, &c.2, ctx)?;
        tally(ctx)
    }
    let mix = Mix::default();
    c.run("u16", 30_000, 600_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<PortGraph>(o, ctx));
    c.run("u8", 15_000, 300_000, |t| ops(Mix { max_ports: 9, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<PortGraph<u32, u32, u8>>(o, ctx)
    });
    c.run("u32", 15_000, 300_000, |t| ops(Mix { remove: 8, set: 10, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<PortGraph<u32, u32, u32>>(o, ctx)
    });
    c.run("capacity", 3_000, 80_000, |t| (any::<u8>(), any::<u16>(), ops(mix, len(t))), |o: &(u8, u16, Vec<Op>), ctx| go_cap(o, ctx));
    c.run("large", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("large_u32", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph<u32, u32, u32>>(o, ctx));
    c.run("far_u32", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph<u32, u32, u32>>(o, ctx));
    c.finish()
}
