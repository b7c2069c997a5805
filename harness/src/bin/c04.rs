//! C04: compaction, swapping, reserving, shrinking and cloning only renumber, as reported.
use portgraph::{MultiPortGraph, PortGraph};
use pgv::gen::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};

fn main() {
    let mut c = Check::start(
        "C04",
        "histories dense in compact_nodes, compact_ports, swap_nodes (free slots included), reserve, shrink and \
         clone over fragmented graphs; the reported renumbering applied to the model must give the graph read \
         back, and the graph must keep working; non-trivial: a compaction moved something and a link existed",
    );
    let len = |t: Tier| if t == Tier::Quick { 4..30 } else { 4..100 };
    fn tally(ctx: &mut Ctx) -> TR {
        ctx.nontrivial_if(
            ctx.count("link") > 0
                && ctx.count("compaction moved a node") + ctx.count("compaction moved a port") > 0,
        );
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    let mix = Mix { compact: 8, swap: 9, misc: 4, remove: 9, set: 8, add: 14, reject: 0, ..Mix::default() };
    c.run("single", 50_000, 2_000_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<PortGraph>(o, ctx));
    c.run("single_u32", 20_000, 800_000, |t| ops(Mix { max_ports: 7, set: 3, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<PortGraph<u32, u32, u32>>(o, ctx)
    });
    c.run(
        "multi",
        40_000,
        1_600_000,
        |t| ops(Mix { multi: true, sub: 3, max_ports: 3, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx),
    );
    c.run("large", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("large_multi", 1_200, 40_000, |_| large_history(Mix { multi: true, sub: 3, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.run("far_multi", 30, 2_000, |_| far_history(Mix { multi: true, sub: 3, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.finish()
}
