prop("C09", "Inserting a graph or view adds an exact copy and nothing else",
     "insert_graph adds one new node per node of the inserted graph or view, with the same numbers of ports and exactly "
     "the links between the visible nodes, and returns the map from old to new nodes. Everything that was in the graph "
     "before stays as it was and the source is untouched. It fails only when the links cannot be represented, which a plain graph "
     "receiving several links on one port reports as an error.",
     ["inputs"], "every pair of graphs, every kind of view, any free indices in the destination",
     "The tests insert one small graph; views with self-links, multiple links and gaps in the indices are untested.",
     ["src/view.rs", "src/portgraph.rs", "src/multiportgraph.rs"],
     [("LinkMut::insert_graph", "src/view.rs")], ["the returned map", "queries of the result"],
     "Random search over pairs of graphs and five kinds of source view.",
     "property-based testing: disjoint-union model oracle")

prop("C10", "Serialisation preserves graphs, hierarchies and data exactly",
     "Writing any graph, multiport graph, hierarchy, secondary map, weights container or index and reading it back gives "
     "an equal value with the same behaviour under every later operation. This holds for human-readable and binary formats alike.",
     ["inputs", "histories"], "every reachable value, in JSON and MessagePack, followed by any operations",
     "The tests round-trip a few fresh graphs through JSON; free lists, multiport bookkeeping and empty slots matter only after histories.",
     ["src/portgraph.rs", "src/multiportgraph.rs", "src/hierarchy.rs", "src/index.rs", "src/weights.rs", "src/unmanaged.rs"],
     [("serde implementations", "src/portgraph.rs, src/index.rs, src/hierarchy.rs")],
     ["deserialised values and their later behaviour"],
     "Random search; JSON and MessagePack stand for the two families of formats.",
     "property-based testing: round-trip and lock-step behavioural equivalence")

prop("C11", "Index and offset types represent values exactly or refuse them",
     "Node indices, port indices, optional indices and port offsets of every integer width give back every value up to "
     "the documented maximum unchanged, through conversions, comparison, hashing, display and serialisation, and never "
     "confuse a value with none. Values above the maximum are refused at construction, conversion and deserialisation.",
     ["inputs"], "every integer value, index type and width",
     "Tests try a few values of the default width; the other widths and the values around the limits are not tried.",
     ["src/index.rs"],
     [("bit-packed index representation", "src/index.rs")], ["constructors, conversions, serde of the index types"],
     "Random search biased to the limits; the u8 and u16 widths are covered nearly exhaustively.",
     "property-based testing: round-trip and refusal oracles over boundary-biased values")

prop("C12", "Hierarchy is an ordered forest under any history",
     "After any sequence of attachments, detachments, swaps, renumberings and serialisation, every hierarchy query gives "
     "what an ordered forest gives: parents, ordered children from both ends, siblings, counts, descendants. Requests "
     "that would break the forest (already attached, own ancestor, unrelated sibling) are refused with the true reason and no effect.",
     ["histories"], "all finite sequences of hierarchy operations on any indices",
     "Tests run a few operations on a few nodes; sibling lists break only in particular positions and orders of operations.",
     ["src/hierarchy.rs"],
     [("linked lists of siblings", "src/hierarchy.rs"), ("rekey and swap_nodes", "src/hierarchy.rs")],
     ["every Hierarchy query after each step"],
     "Random search over histories on 6 and 14 indices.",
     "stateful model-based property testing against an ordered forest")

prop("C13", "Secondary maps behave as total maps with a default",
     "Every implementation of SecondaryMap behaves as a total map from index to value that gives the default where "
     "nothing was set: set, take, remove, swap, rekey, resize, mutable access and iteration touch exactly the keys they name "
     "and never fail on a key without an entry. Implementations agree with each other on the same history.",
     ["histories"], "all finite sequences of map operations, for the three implementations with several key and value types",
     "Tests exercise single operations on one map; interactions of growth, holes and rekeying with entries at or past the end are untested.",
     ["src/secondary.rs", "src/unmanaged.rs"],
     [("SecondaryMap trait and default methods", "src/secondary.rs"), ("UnmanagedDenseMap", "src/unmanaged.rs")],
     ["every SecondaryMap method after each step"],
     "Random search; one open finding (dense iteration yields default entries) is recorded in known_findings.txt.",
     "stateful differential property testing of all implementations against a total-map model")

prop("C14", "Dense maps and weights hold exactly what was stored",
     "UnmanagedDenseMap and Weights give back, for every index, the value last stored or the container's own default, "
     "through indexing, mutable indexing, swap, rekey, resize, shrink, clear and iteration. Node and port data of "
     "Weights are independent of each other.",
     ["histories"], "all finite sequences of operations with any indices, defaults and initial capacities",
     "Tests set and read a few weights; custom defaults and operations beyond the current length are untested.",
     ["src/unmanaged.rs", "src/weights.rs"],
     [("dense storage with implicit tail", "src/unmanaged.rs"), ("Weights as a pair of maps", "src/weights.rs")],
     ["values read back after each step"],
     "Random search.",
     "stateful model-based property testing")


prop("C15", "Data kept in step through the callbacks follows its nodes and ports",
     "Weights, hierarchies and secondary maps updated only through the documented callbacks (rekeying on swap and "
     "compaction, port operations on port-count changes, removal of nodes) keep every value attached to the same node or "
     "port, and the hierarchy attached to the same nodes, under any history of the graph.",
     ["histories"], "all finite histories that mix graph mutation, data updates and hierarchy changes",
     "Each part is tested alone; a move announced in the wrong order or missed only shows as data attached to the wrong node later.",
     ["src/portgraph.rs", "src/multiportgraph.rs", "src/weights.rs", "src/hierarchy.rs", "src/unmanaged.rs"],
     [("rekey callbacks", "src/portgraph.rs"), ("Weights/Hierarchy/maps rekey", "src/weights.rs, src/hierarchy.rs, src/secondary.rs")],
     ["values and parents read through current indices"],
     "Random search over histories; identities are tracked by the model.",
     "stateful model-based property testing with identity tracking")

prop("C16", "A filtered graph is the base graph restricted to what passes the filters",
     "Every query of a FilteredGraph, on plain and multiport graphs and on other views, gives exactly what it gives on the "
     "base graph without the rejected nodes and without the links at a rejected port or node, for any filter functions. Wrappers by reference agree with "
     "the value they wrap.",
     ["inputs"], "every graph, node filter and port filter",
     "Tests use one fixed graph with simple filters; counting and lookup queries with filters on one end of a link only are untested.",
     ["src/view/filter.rs", "src/view/refs.rs", "src/view.rs"],
     [("FilteredGraph queries", "src/view/filter.rs"), ("delegation by reference", "src/view/refs.rs")],
     ["every PortView/LinkView/MultiView query of the view"],
     "Random search over graphs of up to nine nodes, filters as random bit sets.",
     "property-based testing: oracle is the reference model restricted by the filters")

prop("C17", "Regions show exactly the nodes below their root",
     "A Region shows exactly the root's descendants (with or without the root as its variant promises) and a FlatRegion exactly the root and its children; "
     "ports, links, neighbours and counts are those of the base graph between shown nodes. Answers do not depend on the order of earlier "
     "queries, on clones or on queries from other threads.",
     ["inputs", "histories", "schedules"], "every graph, hierarchy, root and query order",
     "The descendant cache makes answers depend on previous queries; tests issue few queries in one order on one tree.",
     ["src/view/region.rs", "src/view/flat_region.rs"],
     [("descendant cache", "src/view/region.rs"), ("flat regions", "src/view/flat_region.rs")],
     ["every view query in random orders, clones, threads"],
     "Random search; thread interleavings are only those the scheduler happens to produce.",
     "property-based testing: induced-subgraph oracle with random query orders")

prop("C18", "Subgraphs show exactly their nodes and know their boundary",
     "A Subgraph made from nodes shows exactly those nodes, their ports and the links between them, and its boundary is exactly the "
     "ports with a link leaving the set, in the order the nodes were given. A Subgraph made from a boundary contains exactly the nodes "
     "reachable from its ports without crossing it; is_convex holds iff no path leaves the set and returns.",
     ["inputs"], "every graph, node set (any order) and consistent boundary, on graphs and on other views",
     "Tests use one or two fixed graphs; multiports, self-loops, nested views and port order give many cases no test samples.",
     ["src/view/subgraph.rs", "src/boundary.rs"],
     [("boundary collection", "src/view/subgraph.rs"), ("traversal inside a boundary", "src/boundary.rs")],
     ["every view query", "port_boundary", "is_convex"],
     "Random search; convexity is decided on acyclic graphs and boundaries without ports that have links on both sides.",
     "property-based testing: induced-subgraph and reachability oracles")

prop("C22", "Topological sorting yields each reachable node once, after its predecessors",
     "toposort yields every node reachable from the sources whose predecessors are all yielded, each exactly once and after all of "
     "them, in either direction, and on acyclic graphs started from all sources yields every node. With filters it behaves as on the graph without the rejected nodes "
     "and ports; ports_remaining names exactly the ports of links not yet traversed.",
     ["inputs"], "every graph (cyclic ones too), direction, source order and filter",
     "Tests sort a few fixed graphs; the ready-counting needs parallel links, multiports, partial filters and cycles to go wrong.",
     ["src/algorithms/toposort.rs"],
     [("remaining-port set", "src/algorithms/toposort.rs")],
     ["sequence yielded", "ports_remaining", "add_sources"],
     "Random search; sources that are already yielded or have no ports are not passed to add_sources.",
     "property-based testing: order invariants and a fixed-point oracle")


prop("C19", "Boundaries keep their ports apart and order them by reachability",
     "A boundary numbers its input and output ports in the given order, and conversions between ports and boundary ports "
     "round-trip. port_ordering relates an input to an output exactly when a path inside the subgraph connects them, also with multiports that have links on both sides; "
     "is_stronger_than and missing_pairs are inclusion and difference of these relations.",
     ["inputs"], "every acyclic graph, boundary and pair of compatible boundaries",
     "Tests order a few fixed boundaries; dangling nodes, multiports across the boundary and whole graphs larger than the subgraph need generated shapes.",
     ["src/boundary.rs"],
     [("port_ordering traversal", "src/boundary.rs"), ("PortOrdering relation", "src/boundary.rs")],
     ["reachable_ports/reaching_ports", "is_stronger_than", "missing_pairs"],
     "Random search; excluded: nodes inside that only links at boundary ports connect.",
     "property-based testing: path-search oracle, relation algebra")

prop("C20", "The same calls give the same results",
     "Every result is a function of the calls made: repeating a history gives the same indices, equal graphs and serialised forms; views, "
     "boundaries, algorithms, renderings, copy_in_parent and insert_graph list and produce the same things in the same order each time, also after a refused copy. A clone "
     "answers like the original and stays equal to it under the same further operations; queries change no later answer. Only "
     "collections of std with a random order (HashMap, HashSet) are exempt, as to their own order.",
     ["histories", "inputs"], "every history and every later sequence of queries and operations, in every process",
     "A test that fixes an expected order passes or fails at random when a hash map decides it; only repeated whole histories show that no answer depends on hashing.",
     ["src/view/subgraph.rs", "src/render/mermaid.rs", "src/view.rs", "src/portgraph.rs", "src/multiportgraph.rs"],
     [("copying in a fixed order", "src/view/subgraph.rs"), ("edges drawn in a fixed order", "src/render/mermaid.rs"), ("allocation and free lists", "src/portgraph.rs")],
     ["serialised graph", "sequences of iterators", "rendered text", "returned maps"],
     "Random search over graphs and histories; each is repeated four times with other hash keys.",
     "property-based testing: metamorphic relation between repetitions and clones")

prop("C21", "Copying a subgraph in its graph adds an exact copy or changes nothing",
     "copy_in_parent adds one new node per subgraph node with the same ports, copies every inner link (self-links and parallel links included) "
     "and, on multiport graphs, every boundary link with its external end, touches nothing else and returns the map. On plain graphs it fails exactly "
     "if a link crosses the boundary, names such a link, and leaves nodes and links unchanged.",
     ["inputs"], "every graph and node set or boundary, copied repeatedly",
     "Tests copy two or three fixed subgraphs; self-links, parallel links and late failures need specific shapes and iteration orders.",
     ["src/view/subgraph.rs"],
     [("copy_in_parent", "src/view/subgraph.rs")], ["graph after the call", "returned map or error"],
     "Random search.",
     "property-based testing: reference model of the copied graph")

prop("C23", "Post-order traversal yields depth-first finishing order",
     "postorder yields exactly the nodes reachable from the sources in the given direction, each once, in the finishing order of a depth-first "
     "search that follows sources and ports in order; postorder_filtered does so on the graph without the rejected nodes and ports.",
     ["inputs"], "every plain graph, source list, direction and filter",
     "Tests traverse a few small trees; shared descendants, cycles and repeated sources decide whether the stack is handled right.",
     ["src/algorithms/post_order.rs"],
     [("explicit stack", "src/algorithms/post_order.rs")], ["sequence yielded"],
     "Random search on graphs of up to sixteen nodes.",
     "property-based testing: differential against recursive depth-first search")

prop("C24", "Dominator trees give the immediate dominators",
     "For every node reachable from the entry, immediate_dominator is the closest other node that lies on every path from the entry to it; the entry and "
     "unreachable nodes have none. Direction, node and port filters, and the map type are respected.",
     ["inputs"], "every plain graph, entry, direction and filter",
     "Tests check a few small graphs; predecessors that are unreachable or filtered, and loops that need more than one pass, are hardly sampled.",
     ["src/algorithms/dominators.rs"],
     [("iterative fixed point over post-order indices", "src/algorithms/dominators.rs")], ["immediate_dominator of every index"],
     "Random search on graphs of up to fourteen nodes.",
     "property-based testing: oracle by definition (node removal and reachability)")

prop("C25", "Lowest common ancestors are those of the hierarchy",
     "LCA gives for any two nodes of the graph or view their deepest common ancestor in the hierarchy, or none in different trees, and the right root and ancestor answers, for any forest. An index that no node uses is related to nothing but itself.",
     ["inputs"], "every hierarchy, pair of nodes, with gaps in the node indices",
     "Tests query one fixed forest of depth five; binary lifting goes wrong at particular depths and depth differences.",
     ["src/algorithms/lca.rs"],
     [("binary lifting tables", "src/algorithms/lca.rs")], ["lca, root, is_ancestor of every pair"],
     "Random search; trees up to depth of hundreds.",
     "property-based testing: oracle from ancestor lists")

prop("C26", "Convexity checkers agree with the definition",
     "On acyclic graphs, is_node_convex holds exactly if no path between two nodes of the set passes outside it, and is_convex exactly if in addition "
     "no link runs from one of the output ports to one of the input ports. The topological and the line checker agree on every query, whatever was asked before, and also while the iterator that lists the nodes asks the checker itself.",
     ["inputs"], "every acyclic graph or view, node set, port sets and query order",
     "Tests ask about twenty fixed queries on one graph; pruning by positions or intervals fails only on particular shapes.",
     ["src/algorithms/convex.rs", "src/algorithms/convex/topo_convex_checker.rs", "src/algorithms/convex/line_convex_checker.rs"],
     [("topological window search", "src/algorithms/convex/topo_convex_checker.rs"), ("interval check and future search", "src/algorithms/convex/line_convex_checker.rs")],
     ["answers of both checkers"],
     "Random search on graphs of up to twenty nodes.",
     "property-based testing: path-search oracle and differential between implementations")

prop("C27", "Lines partition the links, and intervals describe contiguous sets",
     "The lines of a LineConvexChecker are paths that use every link exactly once, with positions that grow along links. Intervals exist exactly for "
     "node sets contiguous on all their lines and give back the set; extending them by a node equals recomputing them, and a refused extension changes nothing. Queries nested in one another, through a lazy iterator of nodes, do not disturb each other.",
     ["inputs", "histories"], "every acyclic graph or view, node set and order of extensions",
     "Tests use two graphs; the lookup of positions by interpolation and the sharing of lines at multiports depend on the shape.",
     ["src/algorithms/convex/line_convex_checker.rs"],
     [("line partition", "src/algorithms/convex/line_convex_checker.rs"), ("intervals", "src/algorithms/convex/line_convex_checker.rs")],
     ["get_lines, get_position, lines_at_port, intervals"],
     "Random search on graphs of up to 24 nodes.",
     "property-based testing: invariants over the partition and a set-based oracle")

prop("C28", "The dynamic convexity checker is the same graph, kept acyclic",
     "A DynamicTopoConvexChecker answers every query and mutation like the graph it wraps, with the same results, errors and reports, except that a link "
     "that would close a cycle panics and changes nothing. After any history is_convex agrees with the definition over the current graph; sets with an "
     "unknown node are not convex.",
     ["histories", "inputs"], "all histories of mutations from any acyclic start graph, then any query",
     "Tests reorder a few nodes once; the order kept by the checker goes stale only after particular sequences of links, removals and renumberings.",
     ["src/algorithms/dynamic.rs"],
     [("Pearce-Kelly order", "src/algorithms/dynamic.rs"), ("delegated graph traits", "src/algorithms/dynamic.rs")],
     ["results of the mutations", "all view queries", "is_convex"],
     "Random search over histories of up to 40 (thorough 70) operations; the private DynamicTopoSort is observed only through the checker.",
     "stateful property testing: differential against the bare graph and a path-search oracle")

prop("C29", "The dot rendering describes exactly the graph",
     "The dot text is well formed and has each visible node of the graph or view once, with its label, attributes and visible ports in order, each link between "
     "visible nodes once with its direction, port offsets and style, and the parent-child pairs of the hierarchy within the view. Hidden nodes and their links do not appear.",
     ["inputs"], "every graph or view, hierarchy, style functions and weights",
     "Tests snapshot four small graphs; hidden nodes and ports, views, multiports and removed nodes are not rendered.",
     ["src/render/dot.rs", "src/render.rs"],
     [("DotFormatter", "src/render/dot.rs"), ("styles", "src/render.rs")], ["text of dot_format().finish(), parsed"],
     "Random search; labels that are themselves HTML are the user's responsibility and not generated.",
     "property-based testing: round trip through a dot parser against the reference model")

prop("C30", "The mermaid rendering describes exactly the graph and its hierarchy",
     "The mermaid text has each node of the graph or view once, nested in the subgraph of its parent, with its label and style, and each link between nodes that are "
     "not hidden once, with its arrow. Links never stand in a subgraph that does not contain both ends; in a whole graph they stand in the innermost one that does.",
     ["inputs"], "every graph or view, hierarchy, style functions and weights",
     "Tests snapshot five small graphs; views that cut the hierarchy, hidden nodes and labelled edges are hardly rendered.",
     ["src/render/mermaid.rs", "src/render.rs"],
     [("MermaidFormatter", "src/render/mermaid.rs"), ("styles", "src/render.rs")], ["text of mermaid_format().finish(), parsed"],
     "Random search on graphs of up to eight nodes; order of edges is only required to be the same each time (C20).",
     "property-based testing: round trip through a mermaid parser against the reference model")

prop("C31", "The petgraph traits present the same directed graph",
     "Through the petgraph traits a graph or view has exactly its nodes, each link once as an edge from its outgoing to its incoming end, and consistent indices, bounds, "
     "neighbours, adjacency and visit maps. So petgraph's traversals and algorithms give the answers they give on the same graph in petgraph's own type.",
     ["inputs"], "every plain or multiport graph and view, with gaps in the indices",
     "Tests run three algorithms on small whole graphs; views, gaps in the indices and copy nodes are not covered.",
     ["src/view/petgraph.rs"],
     [("trait implementations", "src/view/petgraph.rs"), ("edge references", "src/view/petgraph.rs")],
     ["results of the petgraph trait methods and algorithms"],
     "Random search on graphs of up to nine nodes; order of edges is not specified.",
     "property-based testing: differential against petgraph::Graph and the reference model")

prop("C32", "The proptest strategies generate valid graphs within their bounds",
     "For every bound of at least one node, every value of the strategies, also while shrinking, is a valid non-empty graph with at most the given numbers of nodes, "
     "ports per side and edges, and gen_node_index picks a node of it. A seed always gives the same values, and the bounds can be reached.",
     ["inputs", "histories"], "every choice of bounds, seed and sequence of shrinking steps",
     "Tests sample one choice of bounds and only compare the counts of the first values.",
     ["src/proptest.rs"],
     [("edge strategies", "src/proptest.rs"), ("graph_from_edges", "src/proptest.rs")],
     ["current() of the value trees along shrinking"],
     "Random search over bounds of up to 120 nodes; reaching the bounds is judged over 300 seeds.",
     "property-based testing of generators: invariants and determinism over seeds and shrink sequences")
