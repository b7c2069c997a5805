//! C06: a MultiPortGraph agrees with the reference model after every operation.
use portgraph::{MultiPortGraph, PortGraph, PortView};
use pgv::ensure;
use pgv::gen::*;
use proptest::prelude::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};

fn main() {
    let mut c = Check::start(
        "C06",
        "random mutation histories of a MultiPortGraph, compared with a reference model of ports with any \
         number of links after every operation; non-trivial: a port with several links existed and a later \
         operation removed, moved or unlinked something linked",
    );
    let len = |t: Tier| if t == Tier::Quick { 1..35 } else { 1..100 };
    fn tally(ctx: &mut Ctx) -> TR {
        ctx.nontrivial_if(
            ctx.count("link to an already linked port") >= 1
                && ctx.count("linked node removed")
                    + ctx.count("linked port removed")
                    + ctx.count("port moved")
                    + ctx.count("unlink") + ctx.count("unlink_subport")
                    > 0,
        );
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    // Starting with capacity for some nodes and ports.
    fn go_cap(c: &(u8, u16, Vec<Op>), ctx: &mut Ctx) -> TR {
        let g = <MultiPortGraph>::with_capacity(c.0 as usize, c.1 as usize % 600);
        ensure!(g.node_capacity() >= c.0 as usize, "with_capacity({}, _) has capacity for {} nodes", c.0, g.node_capacity());
        ensure!(g.port_capacity() >= c.1 as usize % 600, "with_capacity(_, {}) has capacity for {} ports", c.1 % 600, g.port_capacity());
        ensure!(g == <MultiPortGraph>::default() && g.is_empty(), "with_capacity({}, {}) is not empty", c.0, c.1);
        let d = run_history(g, &c.2, ctx)?;
        ensure!(PortGraph::from(d.g.clone()) == *d.g.as_portgraph(), "PortGraph::from differs from as_portgraph");
        tally(ctx)
    }
    let mix = Mix { multi: true, sub: 4, link: 24, max_ports: 3, ..Mix::default() };
    c.run("u16", 20_000, 400_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx));
    c.run("nosub", 10_000, 200_000, |t| ops(Mix { sub: 0, reject: 0, set: 10, max_ports: 2, ..mix }, len(t)), |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx));
    c.run("u8", 10_000, 200_000, |t| ops(Mix { max_ports: 5, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<MultiPortGraph<u32, u32, u8>>(o, ctx)
    });
    c.run("capacity", 3_000, 80_000, |t| (any::<u8>(), any::<u16>(), ops(mix, len(t))), |o: &(u8, u16, Vec<Op>), ctx| go_cap(o, ctx));
    c.run("large", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.finish()
}
