LS = 'cdmir/utils/local_score/'
prop('S01', 'BIC and BDeu local scores are their definitions in every query history',
     '''For every data set and every history of queries, the BIC score of a variable given parents is the Gaussian
     log-likelihood of its least-squares regression minus the penalty, and the BDeu score is the Dirichlet marginal
     likelihood plus structure prior, whatever iterable, order, container or data type carries the parents and the data.
     Markov-equivalent graphs get equal total scores, and neither earlier queries, other score objects, the order of the
     records nor the coding of categories changes an answer.''',
     ['inputs', 'histories', 'configurations'], 'all data sets, parameters, parent iterables and query histories',
     'The tests compare a few scores for one data set, each asked once, so stale or confused memo entries never show.',
     [LS + '_base.py', LS + 'bic_score.py', LS + 'bdeu_score.py'],
     [('score memo', LS + '_base.py: BaseLocalScoreFunction'), ('BIC', LS + 'bic_score.py'), ('BDeu', LS + 'bdeu_score.py')],
     'runtime monitor: query histories against scores counted or regressed independently',
     'References: lstsq residuals and hand-counted contingency tables; collinear data are outside.',
     state=[('score memo', 'scores already answered, by variable and parents')])

prop('S02', 'Kernel scores equal an independent derivation of their likelihoods',
     '''For every data set, the cross-validated kernel scores equal the mean held-out likelihood of the kernel ridge
     regression they describe for the declared folds and regularisation, and the marginal-likelihood scores equal the
     exact Gaussian-process likelihood at a noise level that no nearby level improves on, whatever the order of the parents. Variable-to-column labels select exactly
     the columns of each variable, repeated queries agree, and the data are left unchanged.''',
     ['inputs', 'histories', 'configurations'], 'all continuous data sets, folds, block labels and query histories',
     'The tests pin one value of two classes on one data set; other folds, labels, no-parent and repeat paths are unseen.',
     [LS + 'cross_validated_base.py', LS + 'marginal_base.py', LS + 'score_utils.py'],
     [('cross-validated likelihood', LS + 'cross_validated_base.py'), ('marginal likelihood', LS + 'marginal_base.py'),
      ('numerical helpers', LS + 'score_utils.py')],
     'runtime monitor: scores against independent re-derivations; helpers against numpy/scipy',
     'The marginal score may be any local optimum of the exact likelihood in the noise level; constants included.')

prop('S03', 'Greedy equivalence search is greedy over equivalence classes and ends in one',
     '''For every data set and score, the search result is the CPDAG of some DAG over the variables, respects the parent
     limit, has a score equal to the total of its local scores and not below the empty graph, and is the class that the greedy
     forward-backward search over whole equivalence classes reaches. With an exact population score it is the true CPDAG.
     Scores are only asked for a variable and a set of other variables.''',
     ['inputs', 'configurations'], 'all data sets, local scores and parent limits',
     'Tests run it on fixed data sets and look at one output each; operator validity over states is never examined.',
     ['cdmir/discovery/score_based/greedy_equivalence_search.py', 'cdmir/discovery/score_based/__init__.py'],
     [('insert and delete operators', 'cdmir/discovery/score_based/greedy_equivalence_search.py: GES')],
     'runtime monitor: logged search against brute-force greedy reference and population recovery',
     'Brute force up to 5 variables, population recovery up to 7; ties between classes are skipped.')

prop('E01', 'Graph metrics count what they say',
     '''For every pair of graphs on the same nodes, skeleton, arrowhead and directed-edge precision, recall and F1, the
     structural Hamming distance and graph equality equal their counts over node pairs, independently of the order in which
     nodes and edges were entered and of which endpoint was named first. Swapping the graphs swaps precision and recall, the
     distance is symmetric and zero exactly for equal graphs, and performance of weight matrices equals the counts of
     thresholded off-diagonal entries.''',
     ['inputs'], 'all pairs of graphs of each class and weight matrices',
     'Each metric is tested on one pair of graphs, where transposed roles or double counting can cancel.',
     ['cdmir/utils/metrics/graph_evaluation.py'], [('metrics', 'cdmir/utils/metrics/graph_evaluation.py')],
     'runtime monitor: metrics against counting definitions over node pairs',
     'Random edited and unrelated graph pairs up to 8 nodes in all mark classes.')

SIM = 'cdmir/datasets/simlulators.py'
prop('D01', 'Simulated i.i.d. data satisfy the structural equations requested',
     '''For every DAG, model family, noise law and seed, the simulated table obeys the declared structural equations: each
     variable is the declared function of exactly its parents plus independent noise of the declared law and scale, in the
     declared columns. A population (infinite-sample) request returns the implied covariance factor, cyclic graphs and wrong scales are
     refused, the same seed repeats the data and different seeds do not, and the arguments are left unchanged.''',
     ['inputs', 'configurations'], 'all DAGs in any variable order, families, noise laws, scales and seeds',
     '''The tests check shapes and that data are produced; a wrong noise law, a dropped parent or rows mixed up pass them.''',
     [SIM, 'cdmir/datasets/utils.py'], [('i.i.d. simulators', SIM + ': IIDSimulator')],
     'runtime monitor: generated tables replayed as execution traces against the equations',
     'Linear, noise-free and additive models are exact; laws are tested statistically below false-alarm 1e-9.')

prop('D02', 'Simulated time series satisfy the lagged equations requested',
     '''For every set of lag matrices, family, noise law and seed, every record of the simulated series obeys one fixed
     lagged structural equation per variable with independent noise of the declared law and scale, and the first records are
     pure noise. A change in one variable reaches exactly the variables and later records the lag graph allows, the same seed
     repeats the series, and the arguments are left unchanged.''',
     ['inputs', 'configurations'], 'all lag matrices, families, noise laws, scales and seeds',
     'The tests check shapes only; lag order, mechanisms drifting over time and wrong noise stay invisible.',
     [SIM], [('time-lag simulators', SIM + ': TimeLagSimulator')],
     'runtime monitor: generated series replayed as execution traces against the equations',
     'Linear and noise-free models are exact; laws are tested statistically below false-alarm 1e-9.')

prop('D03', 'Point-process simulators and graph generators produce what they declare',
     '''For every setting and seed, simulated event tables follow the intensities, thinning, background rates and causal edges they
     return with them, generated graphs are acyclic with the declared density, weight range and no preferred variable order, and lag
     transition matrices have unit columns and bounded conditioning. The same seed repeats the output.''',
     ['inputs', 'configurations'], 'all parameter settings and seeds',
     'Tests check that something is returned; intensities and distributions are properties of many runs.',
     [SIM, 'cdmir/datasets/utils.py'],
     [('event simulators', SIM + ': HawkesSimulator'), ('generators', 'cdmir/datasets/utils.py')],
     'runtime monitor: event logs judged by the compensator of the declared model; structure exact',
     'Structure is exact; intensities by time-change and z-tests below false-alarm 1e-9.')

EXPM = 'cdmir/discovery/score_based/entropy_based/pytorch_expm/'
prop('N02', 'The matrix exponential and its gradient are exact',
     '''For every square matrix, or batch of them, whose exponential is representable, each implementation returns the matrix
     exponential to working precision, each batch member as if alone, and back-propagation returns its exact derivative.
     The trace exponential of a weighted DAG is its number of nodes, in every variable order. The argument is left unchanged
     and non-square input is refused.''',
     ['inputs'], 'all matrices, scales, batch shapes and both precisions',
     'Nothing tests it; scaling branches and batches with mixed scales need particular norms.',
     [EXPM + 'expm32.py', EXPM + 'expm64.py', EXPM + 'expm_pade.py', EXPM + 'expm_taylor.py'],
     [('Pade', EXPM + 'expm_pade.py'), ('Taylor', EXPM + 'expm_taylor.py')],
     'runtime monitor: values against scipy, gradients against the Frechet derivative',
     'Norms from 1e-9 to 20 (single precision) and structured matrices; accuracy thresholds follow the condition.')

EB = 'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/'
prop('D04', 'Entropy-based benchmarks generate, intervene and score as declared',
     '''For every graph type, size, seed and parameter range, the entropy toolbox generates acyclic graphs of the declared
     shape with weights in the declared ranges, and linear, nonlinear, interventional and pairwise data that satisfy the
     declared equations, noise law and scale. Its variable scores and causal orders, accuracy counts and structure measures equal
     their definitions, and the same seed repeats every output without changing its arguments.''',
     ['inputs', 'configurations'], 'all graph kinds, mechanisms, noise laws, intervention targets and seeds',
     'Nothing in the suite runs it; wrong columns, laws or counts need many draws to be seen.',
     [EB + 'utils.py'], [('benchmark tools', EB + 'utils.py')],
     'runtime monitor: generated data replayed against the equations; counts against definitions',
     'Structure and equations are exact; laws are tested statistically below false-alarm 1e-9.')

prop('N01', 'Entropy-based learners optimise the loss they declare and return DAGs',
     '''For every data set and setting, each entropy learner evaluates the declared loss, penalty and acyclicity value with
     their exact derivatives, each node's model depends on its declared inputs only, and the bounded optimiser keeps
     bounds and never ends above its start. A run returns a thresholded weighted graph that is acyclic whenever it claims convergence,
     recovers clear mechanisms, is repeatable and leaves the data unchanged.''',
     ['inputs', 'configurations'], 'all data sets, losses, penalties, network shapes and seeds',
     'Nothing tests them; a wrong sign, penalty term or derivative still returns a graph.',
     [EB + 'linear.py', EB + 'linear_ent.py', EB + 'nonlinear.py', EB + 'nonlinear_ent.py', EB + 'lbfgsb_scipy.py',
      EB + 'locally_connected.py'],
     [('linear', EB + 'linear_ent.py'), ('nonlinear', EB + 'nonlinear_ent.py'), ('optimiser', EB + 'lbfgsb_scipy.py')],
     'runtime monitor: losses, derivatives and optimiser steps against independent references',
     'Small networks and up to 6 variables; CUDA-only code is not run.')

ICA = 'cdmir/discovery/funtional_based/lingam_based/ica_lingam.py'
prop('F01', 'ICA-LiNGAM reports the generating linear model in the order of the data',
     '''For every linear non-Gaussian data set, ICA-LiNGAM returns an acyclic graph that is the support of its coefficients,
     whose rows are the regressions of each variable on its reported parents, in the order of the data columns, and that
     recovers the generating order, edges and weights in any variable order. A larger level only adds edges (level one keeps a complete order),
     results depend on the data values alone, not on their container, offsets or earlier fits, and the data are unchanged.''',
     ['inputs', 'configurations'], 'all linear acyclic models in any variable order, noise laws, levels and containers',
     'The only test fits one model whose variables are already in causal order, with a lenient level.',
     [ICA], [('ICA-LiNGAM', ICA)],
     'runtime monitor: estimates against the generating model, least squares and metamorphic refits',
     'Consistency is exact; recovery is pooled over 12 easy data sets. Two known findings: offsets and calibration of the Wald test.')

ANM = 'cdmir/discovery/funtional_based/anm/ANM.py'
prop('F02', 'Additive-noise scores are the dependence left by the regression, either way',
     '''For every pair of variables, the two scores of the additive noise model are the HSIC between input and residual of
     the declared Gaussian-process regression in each direction. Exchanging the variables exchanges the scores, and record order, units, offsets,
     container and earlier calls do not change them, nor is the data changed. The generating direction of clear additive models scores
     lower, and the kernels, median widths, subsampling and HSIC equal their definitions.''',
     ['inputs'], 'all paired samples, units, orders and containers, sizes above the subsampling limit',
     'The only test is skipped by the suite as too slow, and compares two scores of one sample.',
     [ANM], [('ANM', ANM)],
     'runtime monitor: scores against an eigenvalue formula and metamorphic reruns',
     'Scores agree with the reference within 2 % (ill-conditioned regression); direction pooled over 10 samples.')

OLC = 'cdmir/discovery/funtional_based/one_component/olc.py'
prop('F03', 'OLC returns a coherent mixed graph and finds latent confounders',
     '''For every data set, OLC returns marks and coefficients of equal shape in which latent variables are parents only, with
     at least three children, no pair has two kinds of edge, and coefficients stand only on edges. One latent variable behind
     three to six measures is found with its loadings up to sign, and an edge between measures keeps its direction, in most data sets.
     Its cumulant, Fisher and surrogate-regression statistics are exact, results repeat, and the data are unchanged.''',
     ['inputs', 'configurations'], 'all data sets, levels, number types and units',
     'No test runs it.',
     [OLC], [('OLC', OLC)],
     'runtime monitor: form of every result, pooled recovery, exact statistic references',
     'Pools of 6 to 8 data sets of 400-500 records. Three known findings concern unconfounded pairs.')

SHP = 'cdmir/discovery/point_process/SHP.py'
prop('H01', 'Structural Hawkes scores are maximised likelihoods and the search climbs them',
     '''For every event table, decay, interval, penalty and structure, the reported score is the declared penalised log-likelihood
     at the reported non-negative parameters, which lie on the structure and within the stopping rule of the maximum, whatever was scored before and
     however rows, types and sequences are named, ordered or shifted. Hill climbing ends in an acyclic structure, no worse than its
     start, that no single edge change improves, and finds clear cascades; the table is unchanged.''',
     ['inputs', 'histories', 'configurations'], 'all event tables, structures, penalties, intervals and orders of calls',
     'The tests print a result on one table and assert nothing.',
     [SHP], [('SHP', SHP)],
     'runtime monitor: event tables replayed through an independent likelihood and concave optimiser',
     'Up to 4 event types; the EM stopping rule allows a gap of at most 2 in log-likelihood per type.')

LH = 'cdmir/discovery/funtional_based/LearningHierarchicalStructure/'
prop('L01', 'Latent hierarchies are decided by calibrated tetrad tests and recovered',
     '''For every four variables the tetrad p-value is the Wishart test of exactly that tetrad, uniform when it vanishes, and does not depend
     on units or offsets. Cluster and purity decisions are the declared conjunctions of those tests over the given data, each learned
     cluster is used once, merges follow the rules, and surrogate data keep their columns under the right names. On any data the learner
     returns, with a forest over measured and numbered latent variables and the data unchanged; with exact covariances it recovers the
     measured clusters of measurement models and two-layer hierarchies.''',
     ['inputs', 'configurations'], 'all data frames, levels, column names and orders, latent measurement and hierarchy models',
     'No stable test imports it: the modules could not be imported from the package.',
     [LH + f for f in ('Causal_Discovery_in_LHM.py', 'FindCausalCluster.py', 'MergeCluster.py', 'TetradMethod.py', 'UpdataData.py',
                       'VanishedTest.py', 'Overlap_Merge.py', 'Utils.py')],
     [('tetrad test', LH + 'VanishedTest.py'), ('clusters', LH + 'FindCausalCluster.py'), ('merging', LH + 'MergeCluster.py'),
      ('recursion', LH + 'Causal_Discovery_in_LHM.py')],
     'runtime monitor: decisions replayed through a Wishart reference, recovery on exact covariances',
     'Up to 8 columns of arbitrary data, 4 latents; drawing is replaced (needs graphviz). Orientation is not claimed.')

prop('L02', 'HSIC, information and GIN estimators of latent learners are as defined',
     '''For every paired sample the HSIC statistics, gamma, permutation, spectral and block tests, and k-nearest-neighbour entropies and mutual
     informations of the latent learners equal their definitions, tests are calibrated under independence and powerful under
     dependence, and record order, units or argument order change nothing they should not. GIN accepts exactly when the surrogate is
     judged independent of the conditioning set at the level, the causal order and its root are those the decisions imply, and
     the data are unchanged.''',
     ['inputs', 'configurations'], 'all paired samples, kernels, sizes, levels, null-variance methods and cluster lists',
     'No stable test imports these modules.',
     [LH + 'HSIC.py', LH + 'GIN2.py', LH + 'mutual.py', LH + 'independence.py', LH + 'Infer_Causal_Order.py', LH + 'indTest/'],
     [('HSIC objects', LH + 'indTest/'), ('GIN', LH + 'GIN2.py'), ('mutual information', LH + 'mutual.py'),
      ('causal order', LH + 'Infer_Causal_Order.py')],
     'runtime monitor: estimates against independent formulas, null distributions and metamorphic reruns',
     'Kernels are supplied by the check: the kernel package is not installed. Two known findings in unbiased modes.')

VIS = 'cdmir/visual/'
prop('V01', 'Drawn graphs show every node, latent filling, edge and end mark and nothing else',
     '''For every graph, node names, layout, radius and set of latent nodes, the drawn figure has one circle with the node's text at each
     layout position, white if the node is latent and grey otherwise, and for each edge a line from border to border with an arrow
     head, an empty circle or nothing at each end exactly as the mark of that end says; pairs without an edge are not joined. The circular
     layout puts the nodes evenly clockwise from the top in graph or sorted order. The graph is unchanged.''',
     ['inputs', 'configurations'], 'all graphs, node names, marks, layouts, sizes and latent sets',
     'The tests draw three graphs of strings and look at nothing.',
     [VIS + 'plot_graph.py', VIS + 'graph_layout.py'],
     [('drawing', VIS + 'plot_graph.py: plot_graph'), ('layout', VIS + 'graph_layout.py: circular_layout')],
     'runtime monitor: rendered figures sampled pixel by pixel against the graph drawn',
     'Up to 7 nodes; points near another edge or node are not judged. Nodes of equal text are out of scope.')
