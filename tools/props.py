#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, technique=technique, state=state or []))

HIST = "stateful model-based property testing (proptest generators, seeded, shrinking) against a reference graph model"

prop("C01", "PortGraph behaves as a node/port/link model under any history",
     "After any sequence of node insertions and removals, port links and unlinks, port-count changes, swaps, compactions, "
     "clones and clears, every query of a plain port graph (nodes, ports, offsets, directions, links, neighbours, "
     "connections, counts) gives exactly what a simple model of nodes with ordered ports and one-to-one links gives. "
     "Each port has at most one link and links are symmetric between an outgoing and an incoming port.",
     ["histories", "inputs"], "all finite sequences of mutations with any arguments, for every port-offset width",
     "The tests run a few fixed sequences; state depends on free lists, slab reuse and relocation that only long mixed histories reach.",
     ["src/portgraph.rs", "src/portgraph/iter.rs", "src/view.rs"],
     [("node and port tables with free lists", "src/portgraph.rs"), ("port iterators over metadata", "src/portgraph/iter.rs")],
     ["every LinkView/PortView query after each step"],
     "Random search: histories up to about 40 steps (100+ thorough), 3 offset widths; holds on what was generated, nothing is proved.", HIST)

prop("C02", "Rejected links change nothing and report the true reason",
     "Linking two ports, by index or by node and offset, succeeds exactly when both exist, have opposite directions and "
     "are free (a multiport accepts any number of links). A rejected request leaves the graph exactly as it was and the "
     "error names an offending port or offset of that request, with the real reason.",
     ["inputs", "histories"], "every pair of port indices or node/offset pairs, existing or not, in every reachable graph",
     "Tests try a handful of rejected links in small fresh graphs and compare few error fields; they never compare the graph before and after.",
     ["src/portgraph.rs", "src/multiportgraph.rs", "src/view.rs"],
     [("validation in link_ports/link_nodes/link_offsets", "src/portgraph.rs, src/view.rs"), ("LinkError", "src/portgraph.rs")],
     ["Result of the link operations", "equality of the graph with a clone taken before"],
     "Random search over histories rich in invalid requests, both graph types.", HIST)

prop("C03", "Changing port counts keeps the surviving ports, links and order",
     "Changing a node's numbers of ports keeps the first ports of each direction with their links and offsets, removes "
     "exactly the excess ones and unlinks their peers, adds unlinked ports at the end, and reports each removed port "
     "(with the link it had) and each moved port (with its new index) exactly once, so that data kept by index can follow. "
     "Port counts up to the documented limit of the offset type work and larger ones are refused with a panic before anything changes.",
     ["inputs", "histories"], "every pair of old and new port counts up to the limits, in every reachable graph",
     "Tests use small counts and few transitions; in-place shifting, slab relocation and the limits of the offset type are only reached by specific count pairs.",
     ["src/portgraph.rs", "src/multiportgraph.rs"],
     [("in-place resize and reallocation", "src/portgraph.rs"), ("PortOperation callback", "src/portgraph.rs"), ("multiport rekeying", "src/multiportgraph.rs")],
     ["queries after the call", "sequence of callback events"],
     "Random search; counts up to the limits of u8, u16 and u32 offsets are generated.", HIST)

prop("C04", "Compaction and swapping renumber consistently and announce every move",
     "Compacting nodes or ports makes the indices dense, changes nothing else, and announces a set of moves that maps "
     "every old index to its new one when applied in the order announced. Swapping two nodes exchanges their indices "
     "with all their ports and links, also when one of the two indices is free, and later insertions never return an "
     "index in use. Capacity changes and clones change nothing that can be observed.",
     ["histories", "inputs"], "every reachable graph, with or without gaps, and every pair of node indices",
     "Tests compact one or two small graphs; errors need particular gap patterns, free slots in swaps, or insertions after the renumbering.",
     ["src/portgraph.rs", "src/multiportgraph.rs"],
     [("compact_nodes/compact_ports/swap_nodes", "src/portgraph.rs, src/multiportgraph.rs")],
     ["queries after the call", "rekey callbacks"],
     "Random search over histories rich in compactions and swaps.", HIST)

prop("C05", "Indices stay stable while in use and are reused after removal",
     "Node and port indices of untouched nodes never change by work on other nodes, and no two live nodes or ports share "
     "an index. Repeating the same insertions and removals, of links too, does not use ever more indices or subports, and removing every node "
     "leaves a graph without nodes, ports or links, internal bookkeeping nodes of multiports included.",
     ["histories"], "all histories of insertions, links, resizes and removals, repeated any number of times",
     "Leaks and aliasing show only after repeated removal and reinsertion in particular orders; the tests reuse one or two indices.",
     ["src/portgraph.rs", "src/multiportgraph.rs"],
     [("node free list and per-size port slabs", "src/portgraph.rs"), ("release of copy nodes on unlink/remove", "src/multiportgraph.rs")],
     ["indices returned by insertions", "queries on untouched nodes", "node and port counts of the underlying flat graph"],
     "Random search; growth is judged by comparing the first and second half of 6 to 10 identical rounds.",
     "stateful property testing: metamorphic (repeated rounds) and model-based oracles")

prop("C06", "MultiPortGraph behaves as a model with many links per port",
     "After any sequence of mutations, every query of a multiport graph gives exactly what a model with ordered ports and "
     "any number of links per port gives. The internal nodes that implement this are never visible in its queries, and "
     "contracting them in the underlying plain graph gives exactly the links of the model.",
     ["histories", "inputs"], "all finite sequences of mutations with any arguments",
     "The tests cover short sequences; the implicit copy nodes interact with removal, resizing, compaction and swapping in combinations they do not reach.",
     ["src/multiportgraph.rs", "src/multiportgraph/iter.rs"],
     [("copy nodes and subport bookkeeping", "src/multiportgraph.rs"), ("subport iterators", "src/multiportgraph/iter.rs")],
     ["every LinkView/PortView query after each step", "as_portgraph and pg_main_node"],
     "Random search over histories, two offset widths.", HIST)

prop("C07", "Subports address individual links of a multiport reliably",
     "Each port lists at least one subport, distinct, in port order; a linked subport answers with its peer and the peer "
     "answers with it. Linking two given subports links exactly those two or is rejected without effect and with the true "
     "reason, unlinking a subport removes exactly its link and returns the peer, and both succeed exactly when the model says so.",
     ["histories", "inputs"], "every existing or non-existing subport in every reachable multiport graph",
     "Tests use one or two subports of fresh ports; wrong subports appear after unlinks, reuse, resizing and compaction.",
     ["src/multiportgraph.rs", "src/multiportgraph/iter.rs"],
     [("link_subports/unlink_subport/subport_link", "src/multiportgraph.rs")],
     ["MultiView/MultiMut queries and results"],
     "Random search; the number of free subports a port offers is not prescribed.", HIST)

prop("C08", "Queries agree with each other, also through iterators and references",
     "In any graph all structural queries are mutually consistent: per-direction, per-node and whole-graph answers, counts "
     "and iterators describe one and the same graph. Every iterator has a truthful size hint, stays exhausted, continues "
     "identically from a clone, and counts, skips and ends consistently. Using a graph through shared or mutable "
     "references gives the same answers and effects as using it directly.",
     ["inputs", "histories"], "every generated graph and every position within each iterator",
     "Tests collect a few iterators from start to end; hints, nth, clones in the middle and the forwarding implementations are untested.",
     ["src/portgraph/iter.rs", "src/multiportgraph/iter.rs", "src/view.rs", "src/view/refs.rs"],
     [("iterator implementations", "src/portgraph/iter.rs, src/multiportgraph/iter.rs"), ("reference forwarding", "src/view/refs.rs")],
     ["iterator protocol", "LinkView/LinkMut through &G and &mut G"],
     "Random search over generated graphs; graph histories are covered by C01 and C06.",
     "property-based testing: generated graphs, model and cross-query consistency oracle")

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness/src/bin")) if f.endswith(".rs")}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}",
               thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
               technique=p["technique"], level="exploration", level_note=p["note"])
          for p in P if p["id"] in built]
na = [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in built]
json.dump(dict(version=1,
               setup_cmd="./setup.sh",
               hooks=dict(guard="none (the public API suffices)", enable="nothing to enable; the checks build /repo as it is", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="One binary per property in harness/; check.sh builds it against /repo and runs it. "
                     "PGV_SCALE multiplies the case counts; check.sh ID --replay FILE runs one saved case."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    s = p["statement"]
    if s.count(". ") > 2: print("too many sentences", p["id"])
