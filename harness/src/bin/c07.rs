//! C07: subport handles name one link slot each and stay valid.
use portgraph::MultiPortGraph;
use pgv::gen::*;
use pgv::hist::*;
use pgv::runner::{Check, Ctx, Tier, TR};

fn main() {
    let mut c = Check::start(
        "C07",
        "MultiPortGraph histories dense in link_subports, unlink_subport, subport_link and listing, including \
         handles that do not exist; every handle in use keeps naming its link while other links come and go; \
         non-trivial: a subport was unlinked and a subport of a multiply linked port was linked again",
    );
    let len = |t: Tier| if t == Tier::Quick { 5..35 } else { 5..120 };
    fn tally(ctx: &mut Ctx) -> TR {
        ctx.nontrivial_if(ctx.count("unlink_subport") > 0 && ctx.count("link_subports of a copy subport") > 0);
        Ok(())
    }
    fn go<G: TestGraph>(ops: &Vec<Op>, ctx: &mut Ctx) -> TR {
        run_history(G::default(), ops, ctx)?;
        tally(ctx)
    }
    fn go_large<G: TestGraph>(c: &LargeHistory, ctx: &mut Ctx) -> TR {
        run_large::<G>(c, ctx)?;
        tally(ctx)
    }
    let mix = Mix {
        multi: true,
        sub: 20,
        link: 28,
        max_ports: 2,
        add: 5,
        remove: 2,
        reject: 1,
        unlink: 3,
        set: 4,
        compact: 2,
        swap: 2,
        ..Mix::default()
    };
    c.run("u16", 40_000, 2_000_000, |t| ops(mix, len(t)), |o: &Vec<Op>, ctx| go::<MultiPortGraph>(o, ctx));
    c.run("u8", 20_000, 1_000_000, |t| ops(Mix { sub: 10, set: 8, ..mix }, len(t)), |o: &Vec<Op>, ctx| {
        go::<MultiPortGraph<u32, u32, u8>>(o, ctx)
    });
    c.run("large", 1_200, 40_000, |_| large_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.run("far", 30, 2_000, |_| far_history(mix, 1..15), |o: &LargeHistory, ctx| go_large::<MultiPortGraph>(o, ctx));
    c.finish()
}
