prop('C01', 'Dijkstra-based servers return shortest distances and shortest paths',
     'For every graph, every non-negative metric and every pair of nodes, unidirectional, bidirectional and goal-directed (admissible potential) Dijkstra queries report the length of a shortest path, and report "no path" exactly when the target is unreachable. The node path and the edge path they return start and end at the queried nodes, consist of links of the graph, and have exactly the reported length. One server gives these answers for any sequence of queries.',
     ['inputs', 'histories'], 'all graphs, metrics, node pairs and query sequences on one server',
     'The unit tests run a handful of pairs on one 6-node graph; the claim is over all graphs, metrics and reuse sequences.',
     [A + 'dijkstra.rs', A + 'dijkstra/generic_dijkstra.rs', A + 'dijkstra/query/dijkstra.rs', A + 'dijkstra/query/bidirectional_dijkstra.rs', A + 'a_star.rs', D + 'index_heap.rs', D + 'timestamped_vector.rs'],
     [('label setting with decrease key', A + 'dijkstra/generic_dijkstra.rs'), ('stopping criterion and meeting node of the bidirectional search', A + 'dijkstra/query/bidirectional_dijkstra.rs'), ('balanced potentials and pruning', A + 'a_star.rs')],
     observe=['distance, node path and edge path of a query result'], check=W)

prop('C02', 'Contraction hierarchies are exact for every graph and node order',
     'For every graph, metric and contraction order, a contraction hierarchy (built by the library, or taken over from an already contracted graph) answers every query with the shortest distance and an unpacked path of exactly that length in the original graph. Contracting only the lowest nodes leaves an overlay in which all distances between the remaining nodes are those of the original graph.',
     ['inputs', 'configurations'], 'all graphs, metrics, contraction orders, overlay sizes and node pairs',
     'There is one small unit test graph; witness search and shortcut unpacking depend on the order, ties and parallel links.',
     [A + 'contraction_hierarchy.rs', A + 'contraction_hierarchy/query.rs'],
     [('witness search and shortcut insertion', A + 'contraction_hierarchy.rs'), ('upward search and shortcut unpacking', A + 'contraction_hierarchy/query.rs')],
     observe=['distance and node path', 'overlay graph'], check=W)

prop('C03', 'Customizable contraction hierarchies are exact for every order and metric',
     'For every graph, node order and metric (including zero weights, closed roads and parallel links), a customizable contraction hierarchy answers every query with the shortest distance of the metric and a path of exactly that length, and reports "no path" exactly for unreachable targets. This holds for undirected and directed hierarchies, with basic and with perfect customization, after removing edges that can never be finite, and for every number of worker threads.',
     ['inputs', 'configurations'], 'all graphs, node orders, metrics, customization variants, thread counts and node pairs',
     'Two unit tests run one 6-node graph with one order.',
     [CCHD + 'mod.rs', CCHD + 'contraction.rs', CCHD + 'customization.rs', CCHD + 'customization/directed.rs', CCHD + 'query.rs', CCHD + 'query/stepped_elimination_tree.rs', CCHD + 'reorder.rs', CCHD + 'separator_decomposition.rs'],
     [('chordal completion', CCHD + 'contraction.rs'), ('lower triangle relaxation', CCHD + 'customization.rs'), ('perfect customization and rebuild', CCHD + 'customization.rs'), ('elimination tree query and unpacking', CCHD + 'query.rs')],
     observe=['distance and node path'], check=W)

prop('C06', 'One-to-many and distance table algorithms are exact for every selection',
     'For every hierarchy, metric and selection of sources or targets, hub labels, RPHAST (forward and backward), the vectorized RPHAST and bucket based distance tables report exactly the shortest distance for every source and every selected target, and infinity for unreachable ones. The answers do not depend on which selections and which queries were run before on the same object.',
     ['inputs', 'histories'], 'all graphs, orders, target selections and sequences of selections and queries on one object',
     'The selections and the state left behind by earlier queries are not sampled by any unit test.',
     [A + 'hl.rs', A + 'rphast.rs', A + 'ch_potentials.rs'],
     [('hub label construction and merging', A + 'hl.rs'), ('restricted downward sweep', A + 'rphast.rs'), ('buckets', A + 'ch_potentials.rs')],
     observe=['distance per target'], check=W)

prop('C07', 'k-nearest-neighbor queries return the k closest reachable targets',
     'For every graph, hierarchy, set of distinct targets, source and k >= 1, each nearest neighbor algorithm (separator based, lazy RPHAST, bucket CCH, Dijkstra based) returns min(k, number of reachable targets) targets with their exact distances, and no target left out is closer than one returned - for any sequence of selections and queries on one server.',
     ['inputs', 'histories'], 'all graphs, orders, target sets, sources, k and sequences of selections and queries',
     'No unit tests exist for these servers; stopping criteria depend on the cell structure, ties and unreachable targets.',
     [CCHD + 'query/nearest_neighbor.rs'],
     [('cell bounds and pruning', CCHD + 'query/nearest_neighbor.rs')],
     observe=['returned (distance, target) list'], check=W)

prop('C08', 'Hierarchy based potentials are exact in any evaluation order',
     'For every graph, order and metric, CH and CCH potentials report for every node exactly its shortest distance to the current target (or from it, for backward potentials), and "unreachable" exactly when there is no path, no matter in which order nodes are evaluated, how often the target changes, or whether the potential was cloned or recycled from another one. The path potentials moreover unpack trees whose paths are shortest paths, also with zero weights.',
     ['inputs', 'histories'], 'all graphs, orders, metrics, target sequences and evaluation orders',
     'Lazy evaluation is memoized across evaluations; only full exploration of evaluation orders covers the partial states.',
     [A + 'ch_potentials.rs'],
     [('lazy RPHAST evaluation with timestamps', A + 'ch_potentials.rs')],
     observe=['potential(node) per target', 'unpacked tree'], check=W)

prop('C18', 'Priority queues and resettable vectors behave like their specification',
     'For every sequence of operations, the addressable 4-ary heap contains exactly the elements pushed and not yet popped (each id at most once), always pops an element with the smallest key, and honours every key increase and decrease; the non-addressable heap that keeps popped elements does the same and its retain keeps exactly the selected elements in heap order. The timestamped, clear-list and atomic vectors return the last value written since the last reset and the default otherwise - also when the timestamp counter wraps around.',
     ['histories'], 'all operation sequences, including counter wrap-around',
     'Unit tests run a few fixed sequences; the heap order depends on the shape of the tree and the wrap-around occurs after 2^32 resets.',
     [D + 'index_heap.rs', D + 'heap.rs', D + 'timestamped_vector.rs', D + 'clearlist_vector.rs'],
     [('sift up/down with position index', D + 'index_heap.rs'), ('timestamp overflow handling', D + 'timestamped_vector.rs')],
     observe=['results of pop, peek, contains_index, get'], check=W)

prop('C19', 'Bit vectors, id mappings and node orders are exact',
     'For every set of ids, the rank/select map gives every contained id its rank, reports other ids as absent, and its inversion maps every rank back to its id - for sets of any density, with long gaps and across word, cache line and group boundaries. Bit vectors report exactly the bits set since the last clear, and count exactly those inside their length. The tail of every link of a graph is found for any degree sequence; node orders and ranks are inverse permutations; nested lists and coordinated sweeps enumerate exactly their inputs.',
     ['inputs', 'histories'], 'all id sets, bit operations sequences, degree sequences and permutations',
     'Tests check one set of 7 ids and one regular pattern; the block and group arithmetic depends on gaps and boundaries.',
     [D + 'rank_select_map.rs', D + 'graph/link_id_to_tail_mapper.rs', D + 'node_order.rs', 'engine/src/util.rs'],
     [('block prefix sums', D + 'rank_select_map.rs'), ('group index of the inversion', D + 'rank_select_map.rs'), ('tail lookup', D + 'graph/link_id_to_tail_mapper.rs')],
     observe=['get/at/inverse', 'count_ones', 'link_id_to_tail'], check=W)

prop('C09', 'A* on the topological core is exact',
     'For every graph (with dead ends, components attached over a single node, islands, one-way roads, parallel links and hubs), every admissible potential and every query, the A* servers on the topological core - unidirectional with any combination of the component, degree-2 and degree-3 optimizations, bidirectional with zero, symmetric or averaged potentials and either direction strategy, with and without distance cap, and one-to-all - report the shortest distance and valid shortest node and edge paths, and "no path" exactly for unreachable targets (or, with a cap, for targets not closer than the cap). One server answers any sequence of queries.',
     ['inputs', 'configurations', 'histories'], 'all graphs, potentials, optimization flags, caps and query sequences',
     'No unit tests exist; the low degree node skipping and the core/component split depend on the shape of the graph.',
     [A + 'ch_potentials/query.rs', A + 'topocore.rs', A + 'dijkstra/gen_topo_dijkstra.rs', A + 'a_star.rs'],
     [('skipping of low degree nodes', A + 'dijkstra/gen_topo_dijkstra.rs'), ('biggest biconnected component and reordering', A + 'topocore.rs'), ('core passage, pruning and stopping', A + 'ch_potentials/query.rs')],
     observe=['distance, node path and edge path'], check=W)

prop('C10', 'The parallel bidirectional search is exact under every interleaving',
     'The multi-threaded bidirectional core search, whose two threads exchange tentative distances, search progress and the best known path through atomics, terminates and returns the shortest distance and valid shortest node and edge paths under every schedule of its two threads (with sequentially consistent memory and with store buffers as on x86), for every graph, admissible potential, cap and query history.',
     ['schedules', 'inputs', 'histories'], 'all interleavings (and store buffer delays) of the two search threads within stated preemption bounds, for enumerated graphs, potentials and caps',
     'A test observes one schedule; wrong stopping and lost meeting nodes depend on the interleaving.',
     [A + 'ch_potentials/query.rs', A + 'dijkstra/gen_topo_dijkstra.rs', A + 'a_star.rs', D + 'timestamped_vector.rs'],
     [('exchange of progress, tentative distance and meeting node', A + 'ch_potentials/query.rs'), ('atomic distance labels', D + 'timestamped_vector.rs'), ('one sided stopping and pruning', A + 'a_star.rs')],
     observe=['distance, node and edge path, termination'], check=W)

prop('C05', 'Parallel preprocessing is independent of the task schedule',
     'For every graph, separator order and metric, the weights and edges of the customized (basic, perfect, directed, zero-metric) hierarchy are the same for every number of worker threads and every order, nesting and stealing of the tasks, and equal to the sequential result that answers all queries exactly; unpacking information always describes a lower triangle of the same weight. Merging metrics gives the greedy clustering (smallest squared difference first) whatever the schedule of the difference computations, also for closed edges.',
     ['schedules', 'inputs'], 'all task schedules of the worker pool with at most 1 to 3 deviations from the default one, for enumerated graphs, orders, metrics and thread counts',
     'The thread pool runs some schedule in a test, and the graphs of the tests are too small to be split into tasks at all.',
     [CCHD + 'customization/parallelization.rs', CCHD + 'customization.rs', CCHD + 'customization/directed.rs', A + 'metric_merging.rs'],
     [('cells in parallel, then separators', CCHD + 'customization/parallelization.rs'), ('raw pointer access from parallel cells', CCHD + 'customization.rs'), ('parallel rebuild in chunks', CCHD + 'customization.rs'), ('early termination against a shared bound', A + 'metric_merging.rs')],
     observe=['weights, edges and unpacking information of the result', 'groups'], check=W)

prop('C04', 'One preprocessing serves every history of metrics',
     'For every graph, order and sequence of metrics, a server that is updated with newly customized metrics (basic or perfect, undirected or directed) answers every query exactly for the metric of its latest update, whatever metrics it had and whatever queries and path reconstructions it performed before; links closed by one metric are available again with the next. Customizations and potentials of different metrics on the same metric independent preprocessing do not influence each other.',
     ['histories', 'inputs'], 'all interleavings of updates and queries up to the stated depth, over enumerated graphs, orders and metrics',
     'Tests customize once per server; stale distances, parents or unpacking data only show after an update.',
     [CCHD + 'query.rs', CCHD + 'customization.rs', CCHD + 'customization/directed.rs', CCHD + 'mod.rs', A + 'ch_potentials.rs'],
     [('update of the customized metric', CCHD + 'query.rs'), ('respecting phase', CCHD + 'customization.rs'), ('resetting of distances during the walk', CCHD + 'query.rs')],
     observe=['distance and node path after each step'], check=W)

prop('C12', 'Time-dependent travel times are FIFO and queries find earliest arrivals',
     'For every FIFO travel time function given by interpolation points, evaluation is periodic, exact at the points, off by less than one unit in between, and never lets a later departure arrive earlier - also across midnight and with (optimistic or pessimistic) live traffic on top; lower and upper bounds (global, in time ranges, with live traffic) and averages are sound for every range, extreme slopes are those between neighboring points. Pessimistic live values hold until they approach the prediction at their end with slope one (and never go below the prediction); when that starts, when they end, whether they are slower than all predictions and which ones are impossibly fast is reported accordingly. Time-dependent Dijkstra on such graphs reports for every query the exact travel time of a fastest path and that path; permuted graphs and turn-expanded graphs have the same travel times.',
     ['inputs'], 'all functions with interpolation points and values from stated sets, all instants around them, ranges, departure times, live reports and small graphs',
     'Unit tests check a handful of evaluations of two functions with a mocked period.',
     [D + 'graph/time_dependent/piecewise_linear_function.rs', D + 'graph/time_dependent/graph.rs', D + 'graph/time_dependent/geometry/line.rs', A + 'dijkstra/query/td_dijkstra.rs', A + 'dijkstra/query/dijkstra.rs'],
     [('interpolation of arrival times', D + 'graph/time_dependent/geometry/line.rs'), ('bounds in ranges and averages', D + 'graph/time_dependent/piecewise_linear_function.rs'), ('switch between live and predicted travel times', D + 'graph/time_dependent/graph.rs')],
     observe=['travel time at instants', 'bounds', 'travel time and path of queries'], check=W)

prop('C16', 'Time-dependent sampling returns real paths that beat its samples',
     'For every time-dependent network (constant functions included), node order and departure time, the sampling heuristic reports a path exactly if the target is reachable, its reported travel time is the time-dependent travel time of the reported path, it is never better than the optimum, and never worse than any path that is the unique shortest one for the average travel times of one of its time windows; if these are unique for all windows, it is the fastest path that uses links of these paths (or parallel ones), whatever was asked before.',
     ['inputs', 'histories'], 'all small graphs with functions from a pool, orders and departure times; all pairs on random road networks',
     'There is no test of this server; windows over midnight and constant functions are needed to even construct it.',
     [A + 'time_dependent_sampling.rs', D + 'graph/time_dependent/piecewise_linear_function.rs'],
     [('window averages', D + 'graph/time_dependent/piecewise_linear_function.rs'), ('search on the union of the window paths', A + 'time_dependent_sampling.rs')],
     observe=['travel time and node path'], check=W)

prop('C15', 'Time-dependent A* finds earliest arrivals with every potential',
     'For every network of FIFO travel time functions, node order, departure time and pair of nodes, time-dependent A* - on the whole graph and on the topological core - with the zero potential, lower bound CCH potentials, multi metric potentials (any set of time ranges, merged to any number of metrics, recycled between queries) and interval minimum potentials reports exactly the earliest arrival and a path that arrives then, also with live traffic for queries leaving at the time of the report. Multi metric potentials never exceed the remaining travel time on a shortest path, in whatever order nodes and instants are asked for.',
     ['inputs', 'histories'], 'all small graphs with functions from a pool, sets of time ranges, orders, departure times and live reports; graphs with components attached to the core',
     'Potentials are reused lazily across nodes and instants, so errors need particular orders of requests, ranges and departures; there are no tests of them.',
     [A + 'td_astar.rs', A + 'ch_potentials/td_query.rs', CCHD + 'customization/validity.rs', CCHD + 'customization/ftd_for_pot.rs', A + 'dijkstra/gen_topo_dijkstra.rs'],
     [('selection of metrics for a query', A + 'td_astar.rs'), ('lazy potentials per metric', A + 'td_astar.rs'), ('queries inside of components', A + 'ch_potentials/td_query.rs')],
     observe=['travel time and node path', 'potential of nodes at instants'], check=W)

FTD = D + 'graph/floating_time_dependent/'
prop('C13', 'Floating point travel time functions are linked, merged and bounded exactly',
     'For all FIFO travel time functions, the linked function gives the travel time of traversing one after the other, the merged function the better one at each instant together with which one it is (for the whole day and for every part of it), copied ranges and ranges put together at an instant where functions meet have the values of their functions (over midnight as well), the inverse finds the departure for every arrival on every day, approximations deviate by at most the stated error, bounds never cross the function, and all results stay sorted, periodic and FIFO. With live data, the live value holds until its end, then approaches the prediction with slope one and stays FIFO.',
     ['inputs'], 'all functions and pairs of functions from families of interpolation points (up to 1500 functions per family), all ranges between stated instants, all live values of a grid',
     'The unit tests check a handful of functions; switching of segments, wrapping over midnight and touching functions depend on the alignment of the points.',
     [FTD + 'piecewise_linear_function.rs', FTD + 'piecewise_linear_function/cursor.rs', FTD + 'geometry.rs', FTD + 'graph.rs'],
     [('sweep over both functions', FTD + 'piecewise_linear_function.rs'), ('wrapping of cursors', FTD + 'piecewise_linear_function/cursor.rs'), ('lines and intersections', FTD + 'geometry.rs'), ('construction of live functions', FTD + 'graph.rs')],
     observe=['values of resulting functions', 'which one is better from when on'], check=W)
prop('C14', 'CATCHUp: exact time-dependent travel times, profiles and paths',
     'For every network with FIFO travel time functions, every contraction order and every assignment of customization work to threads, CATCHUp queries report the earliest arrival at the target for every pair and departure (or that there is no path) and a path of existing links with the departure at each node that really arrives then; profile queries report for every departure of the day the exact travel time, and, for each instant, a path that takes exactly that long, switching in order of time. Queries on one server and customizations one after another do not influence each other. Dijkstra on the same functions finds the same arrivals and paths, and reports them as the ranks of nodes in order of arrival.',
     ['inputs', 'orders', 'histories', 'schedules'], 'all graphs with 3 nodes and 3 functions, all topologies with 4 nodes, undirected ones with 5, all orders, all pairs, departures around changes of the functions; thousands of road networks; sequences of queries; schedules of the parallel customization',
     'No test covers CATCHUp; which shortcuts stay relevant depends on the interplay of bounds, functions and order.',
     [CCHD + 'customization/ftd.rs', A + 'dijkstra/query/floating_td_dijkstra.rs', A + 'catchup.rs', A + 'catchup/profiles.rs', A + 'catchup/profiles_naive.rs', FTD + 'shortcut.rs', FTD + 'shortcut_graph.rs', FTD + 'shortcut_source.rs'],
     [('bounds, functions and perfect customization', CCHD + 'customization/ftd.rs'), ('relevant edges and unpacking', A + 'catchup.rs'), ('reconstruction of profiles', A + 'catchup/profiles.rs'), ('switching times of paths', FTD + 'shortcut_source.rs')],
     observe=['travel times', 'paths', 'profiles', 'paths of profiles'], check=W)
prop('C26', 'CATCHUp stays exact when travel time functions are simplified',
     'When shortcut functions with many points are replaced by simplified lower and upper bounds during customization, queries still report the exact travel times and paths, and profiles, which reconstruct the original functions where bounds overlap, are still exact at every instant with paths that take exactly that long.',
     ['inputs', 'orders'], 'customization that simplifies every function with more than 3 points (the default is 1000): all graphs with 3 nodes and 3 functions, all topologies with 4 nodes, orders, all pairs, departures around changes; thousands of road networks',
     'No test runs the customization with simplified functions at all, and networks of test size have too few points for it.',
     [CCHD + 'customization/ftd.rs', A + 'catchup/profiles.rs', FTD + 'travel_time_function.rs', FTD + 'shortcut.rs', FTD + 'shortcut_source.rs'],
     [('merging of approximated functions', FTD + 'travel_time_function.rs'), ('reconstruction', FTD + 'shortcut_source.rs'), ('approximation', FTD + 'shortcut.rs')],
     observe=['travel times', 'paths', 'profiles', 'paths of profiles'], check=W)
prop('C29', 'Profiles of a part of the day are exact within it',
     'In builds with the feature tdcch-profiles-with-holes, for every network whose links all have varying FIFO travel times, every contraction order, every pair of nodes and every range of departures whose routes arrive on the same day, partial profile queries of CATCHUp report for every departure of the range the exact travel time and, for each instant, a path of existing links that takes exactly that long, switching in order of time, and nothing exactly if the target is not reachable; queries on one server do not influence each other.',
     ['inputs', 'orders', 'histories'], 'all graphs with 3 nodes and 3 functions, all topologies with 4 nodes, undirected ones with 5, orders, all pairs, 7 ranges of departures; all sequences of 3 queries on 4 networks; a thousand road networks',
     'Nothing runs partial profiles in tests; which parts of which shortcuts are rebuilt in which order depends on functions, order and range.',
     [A + 'catchup/partial_profiles.rs', FTD + 'partial_shortcut.rs', FTD + 'shortcut_graph.rs', FTD + 'travel_time_function.rs'],
     [('corridor and requested parts', A + 'catchup/partial_profiles.rs'), ('rebuilding parts of shortcuts in order', FTD + 'shortcut_graph.rs'), ('linking and merging parts', FTD + 'partial_shortcut.rs')],
     observe=['profiles', 'paths of profiles'], check=W)
prop('C11', 'Landmark potentials never overestimate, so ALT queries stay exact',
     'For every graph, every set of landmarks, however chosen (given, farthest from each other, or by the avoid heuristic, which always terminates), and every metric that is not below the one of the preprocessing, landmark potentials are lower bounds on the distance in both directions and consistent along every link, and unidirectional and bidirectional A* queries with them (averaged or symmetric, with and without improved pruning, in all orders of the two searches) report shortest distances and paths, also for unreachable targets.',
     ['inputs', 'configurations'], 'all graphs with 3 nodes and 2 weights and loops x all landmark sets, all topologies with 4 nodes, traffic on top of the preprocessed metric, road networks with landmarks chosen by every start or seed',
     'No test uses landmarks; weak lower bounds exercise limits of potentials which exact ones never reach.',
     [A + 'alt.rs', A + 'a_star.rs', A + 'dijkstra/query/bidirectional_dijkstra.rs'],
     [('triangle inequality on landmark distances, selection of landmarks', A + 'alt.rs'), ('balanced potentials and stop criterion', A + 'a_star.rs')],
     observe=['potentials', 'distances and paths'], check=W)
prop('C20', 'What is stored loads as the same data; faults of files are reported',
     'Vectors, bit vectors, graphs, orders, customizable contraction hierarchies, customizations, time-dependent graphs, CATCHUp customizations and all storable potentials behave the same after they are stored and loaded again, also when stored over older data: equal contents, the same query results, the same potentials. If a file cannot be written, or only partly, storing reports an error; if a file is missing, or is cut off in a way that can be told, loading is refused; after a crash at any byte while storing a graph into an empty directory, loading is refused or gives the graph. Calls of the system that read or write less than asked for or are interrupted change nothing, those that fail are reported.',
     ['inputs', 'crash points', 'faults'], 'every byte at which storing a graph can be interrupted, every file that cannot be written or is missing, every length a file can be cut off to; all pairs of system calls that read or write files with 5 outcomes each; all graphs with 3 nodes, all topologies with 4 nodes for hierarchies, with 3 nodes and functions for time-dependent data',
     'No test stores anything; a wrong file name, order of columns or lost part only shows when loaded data is used.',
     ['engine/src/io.rs', D + 'graph/first_out_graph.rs', D + 'node_order.rs', D + 'rank_select_map.rs', CCHD + 'mod.rs', FTD + 'shortcut_graph.rs', A + 'td_astar.rs', A + 'traffic_aware/td_traffic_pots.rs', CCHD + 'customization/ftd_for_pot.rs', A + 'ch_potentials.rs'],
     [('raw files', 'engine/src/io.rs'), ('consistency checks on graphs', D + 'graph/first_out_graph.rs'), ('reconstruction of derived data', CCHD + 'mod.rs')],
     observe=['loaded contents', 'query results', 'errors'], check=W)
prop('C17', 'Traffic aware routes avoid every unreasonable detour and are fastest among those',
     'For every network with usual and current travel times (fixed, predicted or live), every pair, every tolerance and every sequence of queries, all checks of a path find exactly its minimal subpaths that are longer by usual travel times than the tolerance allows (and statistics and repaired paths agree with them); the exact algorithm finds a path without such subpaths of minimal current travel time or that there is none, blocked paths are never used while any cheaper path without them is found; detour blocking starts with the fastest path, never tries a path again and ends with a path without such subpaths.',
     ['inputs', 'configurations', 'histories'], 'all graphs with 3 nodes, all topologies with 4 nodes, all simple paths, all sequences of forbidden paths up to 3, traffic on subsets of links, road networks, travel time functions, all pairs, 3 departures, 4 potentials',
     'The unit tests check three label merges; which paths are forbidden and which labels dominate depends on the traffic.',
     [A + 'traffic_aware.rs', A + 'minimal_nonshortest_subpaths.rs', A + 'traffic_aware/td_live.rs', A + 'traffic_aware/time_dependent.rs', A + 'traffic_aware/td_traffic_pots.rs'],
     [('labels with active forbidden paths, detour blocking', A + 'traffic_aware.rs'), ('search for violating subpaths', A + 'minimal_nonshortest_subpaths.rs'), ('bounds by usual paths', A + 'traffic_aware/td_traffic_pots.rs')],
     observe=['violating ranges of paths', 'paths and their travel times', 'whether a path is found'], check=W)
prop('C21', 'Derived graphs, turn expansions, orders and merged metrics are faithful',
     'For every graph (parallel links, loops, isolated nodes) and order: all iterators and ids agree about the same links and tails; reversed, renumbered, filtered, split and turn expanded graphs have exactly the corresponding links with their weights, travel time functions, live times and original ids (turn costs added); unified parallel links carry their minimum, closed links are filtered; orders and ranks are inverse; resettable vectors, lists of lists and sweeps behave as plain ones; metrics are merged greedily by least squared difference into a partition of the demanded size, on every task schedule.',
     ['inputs', 'histories', 'schedules'], 'all graphs and multigraphs with 3 nodes, topologies with 4 and 5 nodes, all orders, all filters on 3 nodes, all turn tables on 2 nodes, functions and live times per link, all write sequences of length 6, schedules of merging',
     'One unit test reverses one graph; ids, functions and live times that follow the wrong link only show for particular shapes.',
     [D + 'graph.rs', D + 'graph/first_out_graph.rs', D + 'graph/time_dependent/graph.rs', D + 'graph/link_id_to_tail_mapper.rs', D + 'node_order.rs', D + 'clearlist_vector.rs', A + 'metric_merging.rs', 'engine/src/util.rs'],
     [('reversal with edge ids, permutation', D + 'graph/first_out_graph.rs'), ('turn expansion, parallel links', D + 'graph.rs'), ('permutation and turn expansion with functions and live data', D + 'graph/time_dependent/graph.rs'), ('greedy merging', A + 'metric_merging.rs')],
     observe=['links, ids and functions of derived graphs', 'groups of metrics'], check=W)
prop('C27', 'A CCH is the chordal completion; its trees separate; reordering keeps it',
     'For every graph and order, a customizable contraction hierarchy has an arc between two nodes exactly if a path joins them over nodes of lower rank only; every arc knows exactly the links of the network it stands for; the elimination tree leads to the lowest upper neighbor; the separator tree has every node once, cells below their separators and no arcs between cells; the reduced and directed hierarchies keep exactly the arcs usable in some, or that, direction; the orders produced for parallelization and breadth first layout keep the shortcuts, the former is laid out as parallel customization demands, geographic reordering keeps cells below separators.',
     ['inputs', 'configurations'], 'all graphs with 3 to 4 nodes, all graphs with 5 and 6 nodes up to directions, all orders (12 for 6 nodes in the quick tier), paths, cycles, stars, grids, road graphs, forests',
     'The unit tests contract one or two graphs; a missing shortcut only matters for some order and metric.',
     [CCHD + 'mod.rs', CCHD + 'contraction.rs', CCHD + 'separator_decomposition.rs', CCHD + 'reorder.rs'],
     [('contraction by merging neighbors into the parent', CCHD + 'contraction.rs'), ('separator tree from chains of the elimination tree', CCHD + 'separator_decomposition.rs'), ('reduction by infinity customization', CCHD + 'mod.rs')],
     observe=['arcs, links and trees of hierarchies', 'orders'], check=W)
prop('C23', 'Speed estimates from positions reproduce the trip',
     'For every trip over links with reported positions (on some of the links, including the first and last one), the estimator gives one estimate per link in the order of the trip; the time a link is entered and the speed on it agree, up to rounding, with interpolating between the positions proportionally to free flow times (extrapolating back from the first two positions, on the last link up to the last position); qualities are between 0 and 1, and 1 for links observed from start to end. Without links or positions an error is returned.',
     ['inputs'], 'trips over up to 4 links of 3 kinds, all subsets of 3 to 5 positions per link, 4 patterns of slowdowns, links used twice',
     'The unit tests check a few trips; each combination of observed and unobserved links takes other states and formulas.',
     ['engine/src/link_speed_estimates/link_speed_estimator.rs', 'engine/src/link_speed_estimates/event_iterator.rs', 'engine/src/link_speed_estimates/mod.rs'],
     [('state machine over links and positions', 'engine/src/link_speed_estimates/link_speed_estimator.rs'), ('merging links and positions', 'engine/src/link_speed_estimates/event_iterator.rs')],
     observe=['estimates'], check=W)
prop('C24', 'Alternative routes are short, different routes and independent of history',
     'For every network with positive travel times, every pair and every sequence of queries on the same server: alternatives found by the penalty method are simple paths of the network in its own node ids, with the ends of the query (or where trees that hold them are attached), at most a quarter longer than the fastest path between their ends, and more than a fifth of each is neither on that path nor on an alternative before; there are at most five; they are those of a fresh server, under every interleaving of the search threads they keep these guarantees; in networks without attached trees nothing is found exactly if there is no path; in networks of disjoint routes those at most 4 % longer than the fastest are all found (five at most).',
     ['inputs', 'histories', 'schedules'], 'every topology with 4 nodes and undirected with 5 nodes, complete graphs with weights from 4 values, parallel routes of 5 lengths, grids, all pairs back and forth on one server; interleavings of the two search threads with up to 1 preemption',
     'No unit test covers them; penalties that stay behind or paths in other ids only show for further queries and particular networks.',
     [A + 'ch_potentials/penalty.rs', A + 'ch_potentials/query.rs'],
     [('penalizing, acceptance and reset', A + 'ch_potentials/penalty.rs'), ('capped bidirectional core queries', A + 'ch_potentials/query.rs')],
     observe=['alternative paths'], check=W)
prop('C25', 'Imported HERE maps are the described network under the right link ids',
     'For every set of HERE tables (nodes, links, navigation attributes, geometry, split over files in any order) and bounds: the imported network has exactly one link per direction of travel of every link with navigation attributes and both ends inside the bounds, between the right nodes (numbered by id, with their coordinates), with the length along the points in their numbered order (straight if there are none, heights included), the functional class, and the travel time at the speed of its category or the lower limit of that direction; HERE link ids and directions translate to local links and back exactly for these, anything else is not found; stored files and the table of links agree.',
     ['inputs', 'configurations'], 'up to 3 (4) links between 3 nodes in all directions, ids around word and block boundaries in every order, missing rows, all bounds around a grid, all categories and limits, all orders of points; the two import programs on 1024 maps',
     'There are no unit tests; directions, boundaries and ids only matter for particular rows.',
     ['conversion/src/here/mod.rs', 'conversion/src/here/csv_source.rs', 'conversion/src/here/link_id_mapper.rs', 'conversion/src/bin/import_here.rs', D + 'rank_select_map.rs'],
     [('reading of the network', 'conversion/src/here/mod.rs'), ('translation of link ids', 'conversion/src/here/link_id_mapper.rs'), ('parsing of the tables', 'conversion/src/here/csv_source.rs')],
     observe=['imported network', 'translated ids', 'files'], check=W)
prop('C28', 'Speed profiles become the travel times of driving at these speeds',
     'For every daily profile of speeds (changing at multiples of five minutes) and every length of a link that can be driven within a day, the travel time profile covers the day, repeats, never lets later drivers arrive earlier, and between any two of its points interpolates to the time of driving the link at the speeds in effect, up to rounding of meters and milliseconds at the changes.',
     ['inputs'], '2 to 4 (5) speeds from 5 values, changes at 4 distances and at the end of the day, 10 lengths around the distances driven between changes',
     'There are no unit tests; which changes of speed are met on a link depends on length, speeds and times.',
     ['conversion/src/lib.rs'],
     [('sweep over changes of speed entered and left', 'conversion/src/lib.rs')],
     observe=['travel time profiles'], check=W)
prop('C22', 'The server answers by current travel times; customizations keep their order',
     'For every sequence of requests and every order in which customization threads run: geo queries between the nearest nodes and HERE queries between links are answered with the shortest travel time, a path of that length and nothing exactly if there is none, by the travel times after some prefix of the requested customizations that includes all up to the last finished one (all of them in the end); a customization sets exactly the named existing links in their direction, null closes a link, unknown links are ignored and values carry over; invalid customizations are refused without effect; HERE queries for unknown links fail with status 500; neither keeps the server from answering later requests.',
     ['histories', 'schedules', 'inputs'], '2 maps; all interleavings of request, start and end of up to 2 customizations of 6 kinds (3 customizations of 1 to 3 kinds) with all queries in between; all sequences of 3 from finishing and invalid customizations and failing queries',
     'There are no tests of the server; lost or reordered customizations need several requests and particular timing.',
     ['server/src/main.rs', 'conversion/src/here/link_id_mapper.rs', CCHD + 'query.rs', CCHD + 'customization.rs', D + 'graph/link_id_to_tail_mapper.rs'],
     [('request loop, customization threads', 'server/src/main.rs'), ('parsing of weights', 'server/src/main.rs'), ('replacing the customized hierarchy', CCHD + 'query.rs')],
     observe=['answers to HTTP requests'], check=W)
