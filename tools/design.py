#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, properties.jsonl, evidence/*.json (quick runs), known_findings.txt and tools/design_tail.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {
'C01': ('every distance against Floyd-Warshall on the same metric (capped path enumeration for huge weights); node and edge paths are walked link by link and summed; one server answers all pairs one after the other',
        'ties, zero weights, loops, parallel links, unreachable targets, weights close to the infinity constant and the state left by earlier queries are all enumerated'),
'C02': ('Floyd-Warshall; unpacked paths walked in the original graph; the overlay of a partial contraction has the same distances between its nodes as the graph',
        'witness searches fail only for particular combinations of contraction order and ties'),
'C03': ('Floyd-Warshall for all pairs and path walks, for basic, perfect, directed, pruned (always infinite edges removed) and zero-weight prepared customizations',
        'customization errors need a particular lower triangle structure, i.e. a particular order; all orders of up to 5 nodes are executed, plus families reaching parallel cells'),
'C04': ('a freshly built structure for the last metric is the oracle: after any history of customizations, queries and replaced metrics the answers must be the same',
        'histories: leftovers of an earlier metric are invisible to tests that customize once'),
'C05': ('the sequential execution; all schedules of the rayon stand-in with up to 3 deviations from the default order must give the same weights; unpacking information is checked as a lower triangle of that weight',
        'schedules cannot be controlled by a test at all'),
'C06': ('Floyd-Warshall for each source and selected target, across sequences of selections on one object', 'stale selection state; every subset in every order'),
'C07': ('the k smallest distances of Floyd-Warshall (ties: any node of that distance, each node once)', 'cells of the separator tree, ties at the k-th distance, unreachable targets'),
'C08': ('lower bound / exactness against Floyd-Warshall for each potential, in any order of evaluation; unpacked paths walked', 'lazily evaluated potentials depend on the order of evaluation and on earlier targets'),
'C09': ('Floyd-Warshall; path walks, all core A* servers and all potentials', 'the core structure (bridges, attached trees, chains of degree 2) must be enumerated to reach the entry/exit cases'),
'C10': ('Floyd-Warshall for each interleaving: both search threads run as coroutines whose accesses to shared state are scheduling points; all interleavings up to a preemption bound under sequential consistency and under TSO store buffers',
        'races of the stop criterion need one particular interleaving'),
'C11': ('Floyd-Warshall: lower bounds, consistency, A* results; landmark selection terminates', 'asymmetric and unreachable parts, ties, loops'),
'C12': ('independent integer evaluation of the piecewise linear functions, brute force earliest arrival by label correcting over all links; turn expansion against explicit enumeration', 'wrap-around at midnight, overtaking slopes, live intervals and empty functions'),
'C13': ('exact rational arithmetic sampling at all breakpoints, crossing points and midpoints', 'branches of the sweep depend on the relative position of breakpoints, crossings, and the period end; all positions on a small grid'),
'C14': ('brute force earliest arrival over the same functions for all departures of a grid incl. all breakpoints; paths evaluated link by link', 'shortcut data (sources, validity intervals) is built by a long chain of merges'),
'C15': ('time-dependent Dijkstra (checked in C12) and brute force; lower bounds of the potentials at every node', 'departure dependent bounds, live data, metric buckets'),
'C16': ('independent evaluation of the sampled metric and travel time of the returned path', 'boundaries of intervals, midnight'),
'C17': ('brute force over all simple paths with the definition of forbidden/blocked detours; travel times by independent evaluation', 'requires several blocked subpaths to interact; histories of blockings'),
'C18': ('a map as model of the queue, a plain vector as model of the resettable vectors; complete reachable state spaces', 'state space exploration instead of sampled operation sequences; the 2^32 reset wrap-around is executed in full'),
'C19': ('straightforward bit vectors / maps / permutations', 'word and block boundaries are enumerated around every multiple of the block sizes'),
'C20': ('what was written is what is read back; every truncation point, each wrong length, missing and foreign file is rejected or harmless', 'the outcomes of the system calls that read and write are chosen by the explorer, all fault positions of the files are enumerated; the tests only round-trip'),
'C21': ('definitions executed on edge lists', 'small graphs with loops, parallel links and isolated nodes are enumerated'),
'C22': ('a sequential model of the metric; an answer must fit to a prefix of the requested customizations that includes the last finished one', 'the real server process runs with a gated thread start and end of each customization, all interleavings of requests with them are executed'),
'C23': ('each estimated speed obeys the measurements of its own paths', 'degenerate and colliding measurements'),
'C24': ('alternatives are simple paths in the graph, first is shortest, stretch and overlap limits from independent path sums', 'ties between alternatives'),
'C25': ('an independent model of the imported links', 'combinations of missing rows, bounds and link directions'),
'C29': ('brute force earliest arrivals over the same functions at all breakpoints, switching times and instants between them in the range; paths evaluated link by link', 'parts of shortcuts are rebuilt on demand, in an order that depends on the functions met'),
'C26': ('brute force earliest arrival over the original functions; paths evaluated link by link', 'networks of test size never have functions with enough points to be simplified'),
'C27': ('chordal completion by the definition (fill path theorem), elimination tree, separator tree and orders as permutations with the required nesting', 'all orders of all graphs up to 4 nodes'),
'C28': ('independent summation of link travel times under a stepwise speed profile', 'speed changes relative to the departure'),
}
def main():
    out = open(V+'/tools/design_head.md').read().rstrip()+'\n\n## Properties\n\nThe bounds and numbers below are those of the quick checks (thorough: the same scenarios with larger bounds, noted in the bounds where they differ).\n'
    for l in open(V+'/properties.jsonl'):
        p = json.loads(l); i = p['id']
        oracle, why = O[i]
        e = json.load(open(f'{V}/evidence/{i}.json'))
        out += f"\n### {i}: {p['title']}\n\nOracle: {oracle}.\n\nBeyond tests: {why}.\n\n"
        out += '| scenario | bounds | executions |\n|---|---|---|\n'
        for s in e['coverage']['scenarios']:
            out += f"| {s['name']} | {s['bounds'].replace('|','/')} | {s['executions']} |\n"
        a = e.get('assumptions') or []
        if a: out += '\nAssumes: ' + '; '.join(a) + '.\n'
        out += f"\nCost of the quick check: about {max(1,round(e['wall_s']))} s with 8 cores.\n"
        if e['tier'] != 'quick': print('note:', i, 'evidence is of tier', e['tier'])
    seeds = '| bug | check | needs |\n|---|---|---|\n'
    for d in sorted(os.listdir(V+'/seeded')):
        m = json.load(open(f'{V}/seeded/{d}/meta.json'))
        seeds += f"| {d} | {m['property']} | {m['needs'].replace('|','/')} |\n"
    out += '\n' + open(V+'/tools/design_tail.md').read().replace('@SEEDS@\n', seeds)
    open(V+'/DESIGN.md','w').write(out)
main()
