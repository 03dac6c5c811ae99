E = D + 'score_based/entropy_based/entropy_based_discovery/'
X = D + 'score_based/entropy_based/pytorch_expm/'
prop('C16', 'Random structures are well formed and reproducible for every seed',
     'A randomly generated graph, lag transition or parameter matrix always has the requested kind, size, density, acyclicity and '
     'parameter range, and every graph the request allows can occur. The same seed always yields the same structure whatever was drawn '
     'before, impossible requests are refused, and conversions between representations lose nothing.',
     ['inputs', 'configurations'], 'every node count, edge count and graph type up to the bound, over a consecutive range of seeds',
     'tests draw one unseeded structure per type; a malformed one appears only for some seeds, sizes or densities',
     ['cdmir/datasets/utils.py', E + 'utils.py'],
     [('Erdos-Renyi generator', 'cdmir/datasets/utils.py'), ('lag transition generator', 'cdmir/datasets/utils.py'), ('simulate_dag', E + 'utils.py')],
     'exhaustive enumeration of requests and a seed range; every structure checked against its specification',
     'Seeds are the environment choice: an initial segment of them is explored completely for every request; for graphs on at most 3 nodes '
     'it is also shown that all admissible graphs are reached.')
prop('C17', 'Event sequences and the Hawkes structure search agree with what they report',
     'Simulated event tables are well formed and generated with the rates, edges and parameters that are returned with them. For every '
     'event table and every structure the Hawkes likelihood and parameters are those of the stated expectation-maximisation, independent '
     'of what was evaluated before and of row, column and type naming, and the search returns a structure no single change improves.',
     ['inputs', 'configurations', 'histories'], 'every small event table, structure, decay, interval and penalty within bounds',
     'tests fit one simulated table and only look at the size of the result',
     ['cdmir/datasets/simlulators.py', D + 'point_process/SHP.py'],
     [('expectation-maximisation', D + 'point_process/SHP.py'), ('hill climbing', D + 'point_process/SHP.py'),
      ('thinning and cluster simulators', 'cdmir/datasets/simlulators.py')],
     'exhaustive enumeration of event tables and structures against an independent evaluation of the likelihood and search',
     'All event tables with counts up to the bound on two types and few intervals, all structures on two and three types; larger tables by rule.')
prop('C18', 'Continuous structure learning penalises exactly cycles and returns DAGs',
     'The acyclicity penalty of every model vanishes exactly on acyclic weights, equals its definition with its gradient elsewhere, and '
     'refers to the adjacency matrix the model reports. Bounds given to the optimiser are respected, it never ends above its starting '
     'value, and the learned graph is acyclic, has the requested threshold and is the generating one on exact equal-variance moments.',
     ['inputs', 'configurations'], 'every zero pattern of weights, every DAG up to the bound, model, loss and penalty',
     'tests train on one random data set and check nothing about penalty, gradient or optimality',
     [E + 'linear.py', E + 'linear_ent.py', E + 'nonlinear.py', E + 'nonlinear_ent.py', E + 'lbfgsb_scipy.py', E + 'locally_connected.py'],
     [('acyclicity function', E + 'linear.py'), ('bounded optimiser', E + 'lbfgsb_scipy.py'), ('augmented Lagrangian loop', E + 'linear.py')],
     'exhaustive enumeration of weight patterns, DAGs and optimiser problems against definitions',
     'Every zero/non-zero weight pattern and every DAG on at most 3 nodes (4 strided); recovery is required only where it is provable '
     '(exact second moments, equal variances).')
prop('C19', 'Matrix exponential and its gradient are exact for every small matrix',
     'For every matrix and every norm regime the torch exponentials equal the true matrix exponential, alone or in any batch, in single '
     'and double precision, and their gradients are the Frechet derivatives. Inputs are left unchanged, and arguments that are not '
     'square are refused.',
     ['inputs'], 'every sign pattern of small matrices at scales that reach every branch of the degree selection, and every batch of them',
     'tests evaluate one random matrix; the degree and scaling branches depend on the norm and on the other members of a batch',
     [X + 'expm32.py', X + 'expm64.py', X + 'expm_pade.py', X + 'expm_taylor.py'],
     [('degree selection by norm', X + 'expm64.py'), ('batch dispatch', X + 'expm_pade.py')],
     'exhaustive enumeration of matrix patterns, scales and batches against a reference implementation',
     'Complete for all 2x2 patterns over {-1,0,1} times a fixed pattern at every listed scale; 3x3 and 4x4 strided.')
F = D + 'funtional_based/'
prop('C20', 'ICA-LiNGAM recovers every linear non-Gaussian model in any variable order',
     'From data with exactly independent non-Gaussian noise ICA-LiNGAM returns the weights of the generating model, whatever the order of '
     'the columns, and for every answer of the component analysis it chooses the row permutation, causal order, edges and coefficients '
     'its criteria define. The result is always a DAG with the regression coefficients of its own parents, an edge is kept exactly if its '
     'Wald p-value does not exceed wald_alpha, and the form of the data, earlier fits and the order of the components do not matter.',
     ['inputs', 'configurations'], 'every DAG up to the bound in every variable order, every order and sign of the components, levels of alpha',
     'tests use one model whose columns are already in causal order',
     [F + 'lingam_based/ica_lingam.py'],
     [('row permutation', F + 'lingam_based/ica_lingam.py'), ('causal order', F + 'lingam_based/ica_lingam.py'), ('Wald pruning', F + 'lingam_based/ica_lingam.py')],
     'exhaustive enumeration of models and of the answers of the component analysis (stubbed environment) against a reference pipeline',
     'Every DAG on at most 3 nodes with all orders and signs of the components; every DAG on 4 nodes for recovery. The Wald p-values '
     'themselves are a known finding.')
prop('C21', 'Additive noise scores are the dependence of regression residual and cause',
     'For every pair of variables the two scores of the additive noise model are the kernel dependence between the residual of regressing '
     'effect on cause and the cause, in each direction, so the score is zero in the causal direction when the noise is exactly independent. '
     'Exchanging, rescaling, mirroring or reordering the data changes the scores accordingly, and the data are left unchanged.',
     ['inputs'], 'every small data set over a grid, every function and noise design within bounds, every form of the data',
     'the test compares the two scores of one large sample',
     [F + 'anm/ANM.py'], [('anm_score', F + 'anm/ANM.py'), ('FastHsicTestGamma', F + 'anm/ANM.py')],
     'exhaustive enumeration of small data sets with the regression as a controlled environment, against the definition',
     'All multisets of 4 and (half of) 5 grid points; functions from up to 4 values; the real regression is compared coarsely because it is '
     'ill-conditioned on repeated points.')

H = F + 'LearningHierarchicalStructure/'
prop('C22', 'Latent hierarchies are recovered from vanishing tetrads',
     'The tetrad test is the Wishart test of exactly the tetrad it is asked about, so it does not depend on how the four variables are arranged, '
     'and clusters, purity and merge decisions are exactly those its outcomes define. Whenever the population tetrads identify the latent clusters, '
     'the hierarchical search returns each latent with exactly its own children, for every column order, keeps the data of every variable '
     'under its own name, terminates, and leaves the input unchanged; independent-noise tests use the combination orthogonal to Z.',
     ['inputs', 'configurations'], 'every small latent model and hierarchy, every argument order, every grouping of active variables',
     'the only tests need simulation code that is not in the repository',
     [H + 'VanishedTest.py', H + 'TetradMethod.py', H + 'FindCausalCluster.py', H + 'MergeCluster.py', H + 'Overlap_Merge.py', H + 'UpdataData.py',
      H + 'Causal_Discovery_in_LHM.py', H + 'GIN2.py', H + 'Infer_Causal_Order.py', H + 'Utils.py', H + 'MakeGraph.py', H + 'mutual.py'],
     [('tetrad test', H + 'VanishedTest.py'), ('cluster search', H + 'FindCausalCluster.py'), ('merge rules', H + 'MergeCluster.py'),
      ('active data update', H + 'UpdataData.py'), ('GIN', H + 'GIN2.py')],
     'exhaustive enumeration of latent models and hierarchies on exact covariances against definitions and the generating model',
     'Measurement models with at most 4 latents and 14 columns and trees with at most 10 measured variables in the class where tetrads identify the clusters; '
     'data are built to have the exact model covariance.')

V = 'cdmir/visual/'
prop('C23', 'Drawings show exactly the nodes, edges and marks of the graph',
     'Drawing a graph places every node once, at the position its layout gives, with its name as label and the fill of its latent status, whatever '
     'the type of the node names. Every edge is one line between the borders of its two nodes with an arrowhead at exactly the ends marked Arrow '
     'and a circle at exactly the ends marked Circle; the circular layout spaces the nodes evenly clockwise from the top; the graph is unchanged.',
     ['inputs'], 'every graph with every pair of marks within bounds, node names of mixed types, latent sets and layouts',
     'tests draw three graphs and look at nothing that was drawn',
     [V + 'plot_graph.py', V + 'graph_layout.py'], [('node and edge artists', V + 'plot_graph.py'), ('circular layout', V + 'graph_layout.py')],
     'exhaustive enumeration of small graphs; the drawn artists are read back and compared with the graph',
     'Complete for <= 2 nodes (3 thorough), strided on 4 and 5; artists are read, not pixels.')
I = H + 'indTest/'
prop('C24', 'Dependence measures and their tests follow their definitions',
     'Kernel dependence statistics equal their definitions for every kernel matrix and leave the matrices unchanged, and the permutation, '
     'spectral, block and gamma tests report the p-value of that statistic under their null distribution for every outcome of the random draws. '
     'Stored data, given data and several columns are treated alike; nearest-neighbour, discrete, histogram and Gaussian entropies, mutual '
     'information, fourth cumulants, surrogate regressions and combined p-values equal their definitions whatever the order of rows, columns or labels.',
     ['inputs', 'schedules'], 'every small data set over a grid and every outcome of the shuffles and normal draws within bounds',
     'no test in the repository touches these modules',
     [H + 'mutual.py', H + 'independence.py', H + 'HSIC.py', I + 'HSICTestObject.py', I + 'HSICPermutationTestObject.py', I + 'HSICSpectralTestObject.py',
      I + 'HSICBlockTestObject.py', I + 'FisherTest.py', I + 'TestObject.py', I + 'independence.py', I + 'HSIC.py',
      F + 'one_component/olc.py'],
     [('HSIC statistics', I + 'HSICTestObject.py'), ('permutation null', I + 'HSICPermutationTestObject.py'), ('spectral null', I + 'HSICSpectralTestObject.py'),
      ('block null', I + 'HSICBlockTestObject.py'), ('mutual information', H + 'mutual.py')],
     'exhaustive enumeration of small data sets and of the outcomes of the random draws (stubbed environment) against the definitions',
     'Kernels are given by the caller, random features and induced sets included; streaming blocks and the tests that need an absent package are outside.')
prop('C25', 'Discovery from data recovers the model class, however the data are presented',
     'From data whose covariance is exactly that of a faithful linear model, PC with partial correlations and GES with BIC return the essential '
     'graph, which equals the converted true graph, extends to an equivalent DAG of the same score, and is that of the ICA-LiNGAM result when the '
     'noise is non-Gaussian; order, names and units of the columns, order of the rows and the container do not matter. For any data PC returns '
     'the skeleton and separating sets the answers of its test define, the colliders these ask for, and their closure.',
     ['inputs', 'configurations'], 'every model and every small data set up to the bounds, in every presentation of the data',
     'tests run each part alone on a few random samples and cannot demand the exact result',
     ['cdmir/discovery/constraint/pc.py', 'cdmir/discovery/constraint/adjacency_search.py', 'cdmir/discovery/score_based/greedy_equivalence_search.py',
      'cdmir/utils/independence/fisherz.py', 'cdmir/utils/independence/basic_independence.py', 'cdmir/utils/adapters.py',
      'cdmir/utils/local_score/bic_score.py', 'cdmir/graph/pdag.py', 'cdmir/graph/dag2cpdag.py', 'cdmir/graph/pdag2dag.py',
      'cdmir/utils/metrics/graph_evaluation.py'],
     [('PC from data', 'cdmir/discovery/constraint/pc.py'), ('forms of data', 'cdmir/utils/adapters.py'),
      ('GES from data', 'cdmir/discovery/score_based/greedy_equivalence_search.py')],
     'exhaustive enumeration of models (exact covariances) and small data sets; the whole pipeline is run and compared with the reference',
     'Models with at most 5 variables; where colliders contradict each other only the skeleton and separating sets are fixed.')
