//! C02: rejected operations leave the graph as it was and blame the right thing.
use portgraph::{MultiPortGraph, PortGraph};
use pgv::gen::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};

fn main() {
    let mut c = Check::start(
        "C02",
        "histories dense in link, subport and offset requests that must be rejected (unknown, linked, same \
         direction, missing offset); each error must be a true statement about the request and the graph must \
         be unchanged; non-trivial: at least three rejections, of two kinds, after a successful link",
    );
    let len = |t: Tier| if t == Tier::Quick { 4..30 } else { 4..90 };
    fn tally(ctx: &mut Ctx) -> TR {
        let k = ["rejected link", "rejected offset", "rejected link_subports"].map(|l| ctx.count(l));
        ctx.nontrivial_if(
            ctx.count("link") > 0 && k.iter().sum::<u64>() >= 3 && k.iter().filter(|x| **x > 0).count() >= 2,
        );
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    let mix = Mix { reject: 16, link: 12, add: 5, ..Mix::default() };
    c.run("single", 50_000, 2_000_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<PortGraph>(o, ctx));
    c.run("single_u8", 20_000, 800_000, |t| ops(Mix { max_ports: 6, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<PortGraph<u32, u32, u8>>(o, ctx)
    });
    c.run(
        "multi",
        40_000,
        1_600_000,
        |t| ops(Mix { multi: true, sub: 10, max_ports: 3, ..mix }, len(t)),
        |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx),
    );
    c.run("large", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<PortGraph>(o, ctx));
    c.run("large_multi", 1_200, 40_000, |_| large_history(Mix { multi: true, sub: 10, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.run("far_multi", 30, 2_000, |_| far_history(Mix { multi: true, sub: 10, ..mix }, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.finish()
}
