"""The property catalogue: `python3 tools/catalog.py` writes properties.jsonl and MANIFEST.json from it."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    bad = [f for f in files if not os.path.exists('/repo/' + f)]
    assert not bad, bad
    ns = len([x for x in ' '.join(statement.split()).replace('i.i.d.', 'iid').split('. ') if x])
    assert ns <= 3, (id, ns)
    P.append(dict(rec=dict(id=id, title=title, statement=' '.join(statement.split()),
                           quantifier=dict(over=over, text=text), why_tests_cant=' '.join(why.split()), anchors=a),
                  technique=technique, note=' '.join(note.split())))


prop('G01', 'Graph containers behave as one edge store seen through many views',
     '''For every history of public operations on a Graph, DiGraph or PDAG (adding, overwriting and removing nodes and
     edges, refused and no-op calls, copies), the node list, adjacency, edge list, marks, fully-directed /
     fully-undirected queries, equality of edges and the adjacency-matrix and edge-list round trips all describe the
     same set of nodes and at most one edge per pair with the endpoint marks last written. Operations the container
     does not allow are refused and leave it unchanged. A copy shares no state with its original.''',
     ['histories', 'inputs'], 'every finite sequence of public graph operations over nodes of any hashable type',
     '''The tests build one fixed graph and look at one view at a time; which view goes stale depends on the history of
     overwrites and removals.''',
     ['cdmir/graph/graph.py', 'cdmir/graph/digraph.py', 'cdmir/graph/pdag.py', 'cdmir/graph/edge.py',
      'cdmir/graph/mark.py'],
     [('edge store', 'cdmir/graph/graph.py: Graph'), ('directed overrides', 'cdmir/graph/digraph.py: DiGraph'),
      ('mark restrictions', 'cdmir/graph/pdag.py: PDAG')],
     'runtime monitor: operation histories against an executable dictionary model',
     '''Every public view is compared with a 60-line model after each operation of thousands of random histories. Says
     nothing about histories not driven; self-loops and the Null mark are outside.''')

prop('G02', 'Directed-graph ancestry and ordering queries are exact',
     '''On every directed graph, parents, children and degrees are exactly those given by the current edges, the
     acyclicity test is true if and only if there is no directed cycle, and the topological order of an acyclic graph
     lists every node once with each node after all of its parents. Asking does not change the graph.''',
     ['inputs', 'histories'], 'every directed graph, cyclic or not, reached through any edits',
     'The tests use one 5-node graph; ordering errors need particular shapes and node insertion orders.',
     ['cdmir/graph/digraph.py'], [('topological sort and ancestry', 'cdmir/graph/digraph.py: DiGraph')],
     'runtime monitor: set-based reference definitions evaluated along edit histories',
     'Thousands of random graphs up to 12 nodes, plus edit histories; sampling, not exhaustive above 4 nodes.')

prop('G03', 'd-separation answers agree with the graphical criterion',
     '''For every directed acyclic graph, every pair of distinct nodes and every conditioning set that contains neither,
     the d-separation query answers true exactly when every path between the two is blocked given the conditioning set,
     whatever iterable holds that set and whether it is empty or omitted. The answer is symmetric, and asking changes
     neither the graph nor the conditioning set.''',
     ['inputs'], 'all DAGs, node pairs and conditioning sets',
     'The tests ask a handful of queries on one graph; collider ancestry and multi-path cases are never reached.',
     ['cdmir/graph/digraph.py'], [('reachability (Bayes ball)', 'cdmir/graph/digraph.py: is_d_separate')],
     'runtime monitor: every answer compared with the moralised-ancestral-graph oracle',
     'All queries on all DAGs of up to 4 nodes, sampled DAGs up to 12 nodes.')

prop('G04', 'A DAG is converted to exactly its Markov equivalence class',
     '''For every DAG, dag2cpdag returns a graph on the same nodes with the same skeleton in which an edge is directed if
     and only if it has that direction in every Markov-equivalent DAG, so equivalent DAGs give equal results. The input
     is left unchanged, and the result does not depend on node labels, node order or edge insertion order.''',
     ['inputs'], 'every DAG within the size the algorithm can handle',
     'The existing test fails on the unchanged tree for unrelated reasons and covers one graph.',
     ['cdmir/graph/dag2cpdag.py', 'cdmir/graph/pdag.py', 'cdmir/graph/digraph.py'],
     [('v-structures', 'cdmir/graph/pdag.py: rule0'), ('Meek rules', 'cdmir/graph/pdag.py: rule1-4'),
      ('conversion', 'cdmir/graph/dag2cpdag.py: dag2cpdag')],
     'runtime monitor: output compared with the brute-force Markov equivalence class',
     'All DAGs on up to 4 nodes and sampled DAGs to 8; equivalence classes enumerated by brute force.')

prop('G05', 'Collider and Meek orientation is sound, complete and terminating',
     '''Collider orientation turns a - b - c with a, c non-adjacent into a -> b <- c exactly when b is outside the
     recorded separating set, and each Meek rule orients only edges its premises force. On every pattern of a DAG with any consistent background
     orientation, repeated application terminates and directs exactly the edges shared by all consistent extensions,
     adding no collider, cycle or adjacency, and it is idempotent.''',
     ['inputs'], 'every PDAG made of a DAG pattern plus consistent background orientations',
     'The tests exercise each rule on its own textbook triple; wrong extra premises and interactions never show.',
     ['cdmir/graph/pdag.py'], [('orientation rules', 'cdmir/graph/pdag.py: rule0, rule1, rule2, rule3, rule4')],
     'runtime monitor: closure compared with the intersection of all consistent extensions',
     'Every orientation produced by thousands of closures is judged by brute-force extension enumeration (<= 7 nodes).')

prop('G06', 'A consistent DAG extension is found whenever one exists, and refused otherwise',
     '''For every PDAG that has a consistent extension, pdag2dag returns an acyclic fully directed graph on the same
     nodes with the same skeleton, the same directed edges and no collider the PDAG lacks. For every PDAG without one
     it terminates with an error instead. The input is left unchanged.''',
     ['inputs'], 'every PDAG, extendable or not',
     'The existing test fails for unrelated reasons; extendable and non-extendable inputs beyond one are not tried.',
     ['cdmir/graph/pdag2dag.py'], [('sink elimination (Dor and Tarsi)', 'cdmir/graph/pdag2dag.py: pdag2dag')],
     'runtime monitor: output validated against the definition, extendability by brute force',
     'Random CPDAGs, MPDAGs, patterns and arbitrary PDAGs to 8 nodes; CPU-time watchdog for non-termination.')

prop('C01', 'PC with a perfect independence oracle returns the true equivalence class',
     '''For every DAG, running PC with exact d-separation answers returns the CPDAG of that DAG over the given variable
     names, whatever adjacency search, variable order, names and data container are used. Each oracle query is
     about two distinct variables and a conditioning set drawn from the current neighbours of one of them, and caller data
     are left unchanged; a second fit gives the same answer.''',
     ['inputs', 'configurations'], 'all DAGs, both adjacency searches, arrays and data frames, any variable names',
     'The tests run PC on one data set with one search and check one graph.',
     ['cdmir/discovery/constraint/pc.py', 'cdmir/discovery/constraint/adjacency_search.py', 'cdmir/utils/adapters.py',
      'cdmir/utils/independence/dsep.py'],
     [('fit pipeline', 'cdmir/discovery/constraint/pc.py: PC.fit'),
      ('input adapter', 'cdmir/utils/adapters.py: data_form_converter')],
     'runtime monitor: query log plus CPDAG oracle over exhaustive small and sampled larger DAGs',
     'All DAGs to 4 nodes, sampled to 9; finite-sample test errors are outside (see C02 for arbitrary answers).')

prop('C02', 'Adjacency searches follow their specification for any test answers',
     '''Whatever answers the independence test gives, an edge is removed only after a query on that pair, with a set
     of current neighbours of one endpoint, returned a p-value of at least alpha, the recorded separating set is the union of
     the sets so accepted for that pair, in both directions, and every remaining edge had every set of final neighbours of one endpoint tested and
     rejected. Searching by the stable variant gives the same adjacencies under any variable order, and the search
     terminates.''',
     ['inputs', 'configurations'], 'all (including contradictory) answer tables, alphas and both searches',
     'Tests use one data set; contradictory answers and boundary p-values are never produced.',
     ['cdmir/discovery/constraint/adjacency_search.py', 'cdmir/discovery/constraint/pc.py'],
     [('original search', 'cdmir/discovery/constraint/adjacency_search.py: pc_adjacency_search'),
      ('stable search', 'cdmir/discovery/constraint/adjacency_search.py: stable_pc_adjacency_search')],
     'runtime monitor: offline trace checker over the recorded sequence of test calls',
     'Each run is judged on its full query log by an independent specification of the search.')

prop('T01', 'Fisher-Z and d-separation tests give the reference answer in every query history',
     '''For every data set, every query (pair, conditioning set in any iterable and order) answers the Fisher-Z p-value and
     statistic of the sample partial correlation, symmetric in the pair, and the d-separation test answers exactly by the graph. The answer does not depend on earlier
     queries, on caching, on other test objects or on the container and variable names, and the data are left unchanged.''',
     ['inputs', 'histories'], 'all data sets and query histories',
     'The tests ask a few fixed queries once each; caching faults show only on repeats and on colliding keys.',
     ['cdmir/utils/independence/fisherz.py', 'cdmir/utils/independence/_base.py',
      'cdmir/utils/independence/dsep.py'],
     [('statistic', 'cdmir/utils/independence/fisherz.py'),
      ('query memo', 'cdmir/utils/independence/_base.py: itest')],
     'runtime monitor: query histories against a reference computed from the raw data',
     'Reference by inverse correlation / regression residuals; exactly collinear data are outside.',
     state=[('query memo', 'cached answers by variable pair and conditioning set')])

prop('T02', 'Kernel independence tests give reference answers in every query history',
     '''For every data set and configuration, the kernel (conditional) independence tests KCI and HSIC answer the published
     statistic and p-value (gamma approximation, or the simulated null within Monte-Carlo error), lie in [0, 1], are
     symmetric in the pair, and do not depend on earlier queries, other test objects or cached kernel matrices. Data
     passed in are left unchanged.''',
     ['inputs', 'histories', 'configurations'], 'all data sets, kernels, approximation modes and query histories',
     'The tests compare a few p-values on one data set; stale kernel caches and rarely used modes are not reached.',
     ['cdmir/utils/independence/kernel_based.py', 'cdmir/utils/independence/kci.py', 'cdmir/utils/independence/functional/kci.py', 'cdmir/utils/independence/functional/HSIC.py', 'cdmir/utils/kernel'],
     [('KCI', 'cdmir/utils/independence/kci.py'), ('HSIC', 'cdmir/utils/independence/functional/HSIC.py')],
     'runtime monitor: query histories against independently written statistics',
     'References written from the published formulas; null simulation compared within 5.5 standard errors.')

prop('K01', 'Kernel matrices equal their closed form whatever was computed before',
     '''For every finite data matrix (or pair), every kernel returns the matrix of its closed form for that data and its current
     parameters: entry (i, j) is the kernel of record i of one argument and record j of the other; Gram matrices are
     symmetric, and positive semi-definite where the kernel is. The result never depends on earlier calls, other kernel objects or
     later in-place edits, and arguments are left unchanged.''',
     ['inputs', 'histories'], 'all data matrices and call histories on shared kernel objects',
     'The tests call each kernel once on fixed data, so cache keys are never confused.',
     ['cdmir/utils/kernel'], [('kernel cache', 'cdmir/utils/kernel/_base.py')],
     'runtime monitor: call histories on confusable data compared with closed forms',
     'Histories deliberately re-use near-identical arrays, permuted rows and equal borders to expose cache keys.')
EXTRA = os.path.join(HERE, 'tools', 'catalog2.py')
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, 'exec'))

NOT_APPLICABLE = []

if __name__ == '__main__':
    P.sort(key=lambda p: p['rec']['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec']) + '\n')
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['rec']['id'] + '.py'))]
    na = list(NOT_APPLICABLE) + [dict(property=p['rec']['id'], reason='check not built yet') for p in P if p not in have]
    m = dict(version=1, setup_cmd='bash tools/setup.sh',
             hooks=dict(guard='CDMIR_VERIF', enable='No hooks were needed: all monitoring wraps the public API from '
                        'outside; the guard name is reserved and unused.', source_commits=[]),
             checks=[dict(property=p['rec']['id'], quick_cmd=f'./check.sh {p["rec"]["id"]} --tier quick',
                          thorough_cmd=f'./check.sh {p["rec"]["id"]} --tier thorough',
                          technique=p['technique'], level='exploration', level_note=p['note']) for p in have],
             not_applicable=na,
             notes='Pure Python project: monitors observe the real package through its public API; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(have), 'checks')
