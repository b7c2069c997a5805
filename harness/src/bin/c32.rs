//! C32: the proptest strategies generate valid graphs within their bounds.
use std::fmt::Debug;

use pgv::hist::TestGraph;
use pgv::model::*;
use pgv::runner::{Check, Ctx, TR};
use pgv::{ensure, ensure_eq};
use portgraph::proptest::{gen_multiportgraph, gen_node_index, gen_portgraph, GenPortGraphParams};
use portgraph::{MultiPortGraph, PortGraph, PortMut, PortView};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    nodes: usize,
    ports: usize,
    edges: usize,
    seed: u64,
    /// Simplify while the bit says so, complicate otherwise.
    shrink: Vec<bool>,
    arbitrary: bool,
}

fn case(nodes: usize, ports: usize, edges: usize) -> impl Strategy<Value = Case> {
    (1..=nodes, 0..=ports, 0..=edges, any::<u64>(), prop::collection::vec(prop::bool::weighted(0.8), 0..40), any::<bool>())
        .prop_map(|(nodes, ports, edges, seed, shrink, arbitrary)| Case { nodes, ports, edges, seed, shrink, arbitrary })
}

fn runner(seed: u64) -> TestRunner {
    let mut s = [7u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

fn valid<G: TestGraph>(g: &G, c: &Case, what: &str) -> Result<Model, String> {
    let m = Model::read(g);
    check_view(g, &m, ViewOpts { pairs: m.node_ids().len() <= 12, ..ViewOpts::default() }).map_err(|e| format!("{what}: {e}"))?;
    let n = g.node_count();
    ensure!(n >= 1, "{what}: empty graph");
    ensure!(n <= c.nodes, "{what}: {n} nodes of at most {}", c.nodes);
    ensure!(g.link_count() <= c.edges, "{what}: {} edges of at most {}", g.link_count(), c.edges);
    for x in g.nodes_iter() {
        ensure!(g.num_inputs(x) <= c.ports, "{what}: {} inputs of at most {}", g.num_inputs(x), c.ports);
        ensure!(g.num_outputs(x) <= c.ports, "{what}: {} outputs of at most {}", g.num_outputs(x), c.ports);
    }
    Ok(m)
}

fn run<G: TestGraph + Debug, S: Strategy<Value = G>>(s: S, c: &Case, ctx: &mut Ctx) -> TR {
    let tree = |seed| s.new_tree(&mut runner(seed)).map_err(|e| format!("no value: {e}"));
    let mut t = tree(c.seed)?;
    let first = t.current();
    let m = valid(&first, c, "first value")?;
    ctx.nontrivial_if(m.link_count() > 1 && m.node_ids().len() > 1);
    ctx.label_if(m.node_ids().len() == c.nodes, "all nodes used");
    let show = |g: &G| -> Result<String, String> { serde_json::to_string(g).map_err(|e| e.to_string()) };
    let text = show(&first)?;
    ensure_eq!(show(&t.current())?, text, "the current value twice");
    ensure_eq!(show(&tree(c.seed)?.current())?, text, "the value of the same seed");
    let mut again = tree(c.seed)?;
    let mut last = text;
    for (k, &b) in c.shrink.iter().enumerate() {
        let moved = if b { t.simplify() } else { t.complicate() };
        ensure_eq!(if b { again.simplify() } else { again.complicate() }, moved, "step {k} of shrinking the same seed");
        let g = t.current();
        valid(&g, c, "shrunk value")?;
        let text = show(&g)?;
        ensure_eq!(show(&again.current())?, text, "step {k} of shrinking the same seed");
        ctx.label_if(text != last, "shrink step");
        last = text;
    }
    // Simplifying ends.
    let mut left = 10_000;
    while t.simplify() {
        left -= 1;
        ensure!(left > 0, "endless shrinking");
    }
    valid(&t.current(), c, "fully shrunk value")?;
    Ok(())
}

fn params(c: &Case) -> GenPortGraphParams {
    GenPortGraphParams { max_n_nodes: c.nodes, max_n_ports: c.ports, max_n_edges: c.edges }
}

fn single(c: &Case, ctx: &mut Ctx) -> TR {
    if c.arbitrary {
        run(PortGraph::arbitrary_with(params(c)), c, ctx)
    } else {
        run(gen_portgraph(c.nodes, c.ports, c.edges), c, ctx)
    }
}

fn multi(c: &Case, ctx: &mut Ctx) -> TR {
    if c.arbitrary {
        run(MultiPortGraph::arbitrary_with(params(c)), c, ctx)
    } else {
        run(gen_multiportgraph(c.nodes, c.ports, c.edges), c, ctx)
    }
}

/// Without parameters: those documented for the default.
fn defaults(c: &Case, ctx: &mut Ctx) -> TR {
    if c.arbitrary {
        run(PortGraph::arbitrary(), c, ctx)
    } else {
        run(MultiPortGraph::arbitrary(), c, ctx)
    }
}

fn node(c: &Case, ctx: &mut Ctx) -> TR {
    let keep = c.shrink.clone();
    let removing = c.arbitrary;
    // Any strategy of graphs will do, also one of graphs with free indices.
    let graphs = gen_portgraph(c.nodes, c.ports, c.edges).prop_map(move |mut g| {
        let nodes: Vec<_> = g.nodes_iter().collect();
        for (k, n) in nodes.iter().enumerate() {
            if removing && g.node_count() > 1 && !keep.get(k).copied().unwrap_or(false) {
                g.remove_node(*n);
            }
        }
        g
    });
    let s = gen_node_index(graphs);
    let tree = |seed| s.new_tree(&mut runner(seed)).map_err(|e| format!("no value: {e}"));
    let mut t = tree(c.seed)?;
    let mut again = tree(c.seed)?;
    let mut k = 0;
    loop {
        let (g, n) = t.current();
        let m = valid(&g, c, "graph of gen_node_index")?;
        ensure!(g.contains_node(n), "{n:?} is not a node of the graph {g:?}");
        let (g2, n2) = again.current();
        ensure_eq!(n2, n, "node of the same seed");
        ensure!(g2 == g, "graph of the same seed");
        ctx.nontrivial_if(m.node_ids().len() > 1);
        ctx.label_if(g.node_count() < g.node_capacity(), "free nodes");
        let Some(&b) = c.shrink.get(k) else { break };
        k += 1;
        if b {
            t.simplify();
            again.simplify();
        } else {
            t.complicate();
            again.complicate();
        }
    }
    Ok(())
}

/// What the values of many seeds show.
#[derive(Default)]
struct Seen {
    nodes: usize,
    ports: usize,
    links: usize,
    one: bool,
    unlinked: bool,
    cross: bool,
    looped: bool,
    parallel: bool,
}

fn look<G: TestGraph>(s: impl Strategy<Value = G>, c: &Case) -> Result<Seen, String> {
    let mut seen = Seen::default();
    for k in 0..300 {
        let g = s.new_tree(&mut runner(c.seed.wrapping_add(k))).map_err(|e| format!("no value: {e}"))?.current();
        let m = valid(&g, c, "value")?;
        seen.nodes = seen.nodes.max(m.node_ids().len());
        seen.links = seen.links.max(m.link_count());
        seen.one |= m.node_ids().len() == 1;
        for n in g.nodes_iter() {
            seen.ports = seen.ports.max(g.num_inputs(n)).max(g.num_outputs(n));
        }
        seen.unlinked |= m.port_ids().iter().any(|p| m.port_links(*p).is_empty());
        seen.parallel |= m.port_ids().iter().any(|p| m.port_links(*p).len() > 1);
        for (a, b) in m.edges() {
            seen.cross |= m.owner(a) != m.owner(b);
            seen.looped |= m.owner(a) == m.owner(b);
        }
    }
    Ok(seen)
}

/// The bounds are reached; misses of a sound generator have probability below 1e-20.
fn reach(c: &Case, ctx: &mut Ctx) -> TR {
    let c = &Case { edges: c.nodes * 4, ..c.clone() };
    ctx.nontrivial_if(c.nodes > 1 && c.ports > 1);
    for multi in [false, true] {
        let w = if multi { "multiportgraph" } else { "portgraph" };
        let seen = if multi { look(gen_multiportgraph(c.nodes, c.ports, c.edges), c)? } else { look(gen_portgraph(c.nodes, c.ports, c.edges), c)? };
        let links = c.ports > 0;
        ensure!(seen.one, "{w}: no graph of one node");
        if links {
            ensure_eq!(seen.nodes, c.nodes, "{w}: largest number of nodes");
            ensure_eq!(seen.ports, c.ports, "{w}: largest number of ports of a node");
            ensure!(seen.links > 0, "{w}: no links");
            ensure!(seen.looped, "{w}: no link from a node to itself");
            ensure_eq!(seen.cross, c.nodes > 1, "{w}: links between nodes");
            ensure!(seen.unlinked || c.ports == 1, "{w}: no unlinked ports");
            ensure_eq!(seen.parallel, multi, "{w}: ports with several links");
        } else {
            ensure_eq!(seen.links, 0, "{w}: links without ports");
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C32",
        "random bounds, a seed and a sequence of shrinking steps; each value of the portgraph and multiportgraph strategies must be a valid non-empty \
         graph within the bounds and the same for the same seed; over 300 seeds the bounds are reached; non-trivial: a graph with several nodes and links",
    );
    c.run("single", 15_000, 400_000, |_| case(12, 5, 25), single);
    c.run("multi", 15_000, 400_000, |_| case(12, 5, 25), multi);
    c.run("large", 300, 10_000, |_| case(120, 8, 250), single);
    c.run("large_multi", 300, 10_000, |_| case(120, 8, 250), multi);
    let default = |_| case(1, 0, 0).prop_map(|c| Case { nodes: 100, ports: 4, edges: 200, ..c });
    c.run("default", 300, 10_000, default, defaults);
    c.run("node", 15_000, 400_000, |_| case(8, 4, 15), node);
    c.run("reach", 120, 4_000, |_| case(5, 3, 0), reach);
    c.finish()
}
