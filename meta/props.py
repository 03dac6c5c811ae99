"""Single source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'cdmir/graph/'
D = 'cdmir/discovery/'
U = 'cdmir/utils/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop('C01', 'Graph objects are a faithful mixed graph under every operation history',
     'After any sequence of node and edge additions, replacements and removals, every query on a graph object answers as '
     'the mathematical mixed graph that sequence describes, and an operation that is rejected leaves the graph unchanged. '
     'The answer does not depend on the order in which nodes or edges were listed, on which end of an edge is named first, '
     'or on how the state was reached.',
     ['histories', 'inputs'], 'every operation sequence, every node order, every mark combination of the three graph classes',
     'tests apply a handful of fixed sequences to one node order; the statement is about every history and every rejected operation',
     [G + 'graph.py', G + 'pdag.py', G + 'digraph.py', G + 'edge.py', G + 'mark.py'],
     [('adjacency dictionary kept symmetric by add/remove', G + 'graph.py'), ('mark checks before mutation', G + 'pdag.py'),
      ('topological order maintained with the edges', G + 'digraph.py')],
     'explicit-state enumeration of operation histories on the real classes against a reference graph',
     'Complete for graphs of at most 3 nodes with every mark pair and every operation from every state, all sequences to the depth '
     'bound, and all single operations on every 4-node digraph and partially directed graph.')
prop('C02', 'Directed-graph structure queries and topological order are exact',
     'For every directed graph, acyclicity, ancestors, descendants, parents, children, paths and the topological order are those of '
     'graph theory, whatever the node names and the order of construction.',
     ['inputs'], 'every digraph and every node order up to the bound',
     'tests check one or two graphs; acyclicity and reachability are universally quantified over graphs',
     [G + 'digraph.py', G + 'graph.py'], [('graph traversal queries', G + 'digraph.py'), ('topological sort', G + 'digraph.py')],
     'exhaustive enumeration of digraphs run through the real queries against a reference model',
     'Complete for every digraph on at most 5 labelled nodes (with every node order to 4); 6-node acyclic shapes in the thorough tier.')
prop('C03', 'd-separation queries are exact for every DAG and conditioning set',
     'For every directed acyclic graph, every pair of variables and every conditioning set, the d-separation query returns true '
     'exactly when every path between the two is blocked. The container that holds the conditioning set (list, tuple, set, '
     'generator, array, none at all) makes no difference.',
     ['inputs'], 'every DAG, pair and conditioning set; every container form',
     'tests query a few triples of a few graphs; colliders with conditioned descendants at a distance are not among them',
     [G + 'digraph.py'], [('ancestral reachability walk', G + 'digraph.py')],
     'exhaustive enumeration of graphs and queries against two independent definitions of d-separation',
     'Complete for every labelled DAG on at most 4 nodes in every container form, every shape on 5 (every labelled 5-node DAG and '
     '6-node shapes in the thorough tier).')
prop('C04', 'A DAG converts to exactly the essential graph of its equivalence class',
     'Converting a directed acyclic graph yields the graph whose directed edges are exactly those shared by all Markov equivalent '
     'graphs. Equivalent graphs convert to the same result, and the argument is left unchanged.',
     ['inputs'], 'every DAG, node order and node naming up to the bound',
     'tests compare five stored examples; the compelled-edge labelling has order-dependent branches only other graphs reach',
     [G + 'dag2cpdag.py'], [('edge ordering and compelled/reversible labelling', G + 'dag2cpdag.py')],
     'exhaustive enumeration of DAGs against brute-force equivalence classes',
     'Complete for every labelled DAG on at most 4 nodes under every node order and every shape on 5 (thorough: every labelled 5-node '
     'DAG, every 6-node shape).')
prop('C05', 'A PDAG extends to a consistent DAG whenever possible, and is rejected otherwise',
     'Extending a partially directed graph returns an acyclic orientation with the same adjacencies, the same directed edges and no '
     'new or lost collider whenever one exists. When none exists the call ends with an error instead of looping or answering.',
     ['inputs'], 'every partially directed graph, extendable or not',
     'tests extend five stored examples, all extendable; the failure case and most sink choices are never reached',
     [G + 'pdag2dag.py'], [('sink elimination', G + 'pdag2dag.py')],
     'exhaustive enumeration of partially directed graphs against brute-force extensions',
     'Complete for every PDAG on at most 4 nodes under several node orders, all 5-node essential graphs (thorough: every 5-node PDAG).')
prop('C06', 'Orientation rules orient exactly the edges every extension agrees on',
     'Applying the orientation rules to a partially directed graph terminates, never changes adjacencies or existing directions, and '
     'on an extendable graph directs only edges on which all consistent extensions agree; from a pattern, with or without background '
     'orientations, it directs all of them. Each rule on its own is sound, and the collider rule orients exactly the unshielded triples '
     'whose middle node is missing from the separating set.',
     ['inputs', 'configurations'], 'every partially directed graph up to the bound; every pattern with background orientations',
     'tests check no rule in isolation; rules 3 and 4 need four nodes in a specific arrangement',
     [G + 'pdag.py'], [('Meek rules 1-4 and their fixpoint', G + 'pdag.py'), ('collider orientation (rule0)', G + 'pdag.py')],
     'exhaustive enumeration of partially directed graphs against the intersection of all consistent extensions',
     'Complete for every PDAG on at most 4 nodes and 5-node patterns with up to two background orientations (thorough: every 5-node PDAG).')
prop('C07', 'PC with exact independence information recovers exactly the equivalence class',
     'Given a perfect independence oracle for a directed acyclic graph, the PC search returns the essential graph of that graph with '
     'either adjacency search, for every order of the variables, every form of data and every significance level. The separating sets '
     'it reports do separate, and refitting the same object forgets the previous run.',
     ['inputs', 'histories', 'configurations'], 'every DAG, variable order, data form, threshold, and pair of successive fits',
     'the shipped tests run one five-variable example; orientation depends on the graph and on the order of the variables',
     [D + 'constraint/pc.py', D + 'constraint/adjacency_search.py', U + 'independence/dsep.py', U + 'adapters.py'],
     [('level-wise edge removal', D + 'constraint/adjacency_search.py'), ('collider and Meek orientation', D + 'constraint/pc.py'),
      ('data form conversion', U + 'adapters.py')],
     'exhaustive enumeration of causal graphs; the real search runs against the d-separation oracle of each',
     'Complete for every labelled DAG on at most 4 nodes and every shape on 5 with both searches (thorough: every labelled 5-node DAG, '
     '6-node shapes).')
prop('C08', 'The adjacency search obeys its tests exactly, whatever they answer',
     'For arbitrary, even contradictory, answers of the independence tests, the search removes exactly the edges a level-wise search '
     'would remove, records as separating set the variables its accepting tests conditioned on, asks only admissible questions, and terminates. The result '
     'of the order-independent variant does not depend on the order of the variables.',
     ['inputs', 'fault_sequences'], 'every table of test answers on three variables; bounded deviations on four',
     'finite-sample tests err; no shipped test drives the search with inconsistent answers',
     [D + 'constraint/adjacency_search.py'], [('level-wise search with frozen neighbourhoods', D + 'constraint/adjacency_search.py')],
     'exhaustive enumeration of environment answers (test oracles) against a reference search',
     'Complete for every answer table on 3 variables and every variable order; on 4 variables all tables within bounded deviations of '
     'the consistent ones and every level-1 table.')
prop('C09', 'Independence tests answer by the variables alone, with the right value',
     'The partial-correlation test returns the textbook p-value for every pair and conditioning set, symmetric in the two variables and '
     'independent of the order and container of the conditioning set and of every earlier query on the same object. The graph-based '
     'test answers exactly by d-separation.',
     ['inputs', 'histories'], 'every query up to the bound, every ordered pair of queries on one object, every container form',
     'tests check the type of one p-value; caching and index handling show only across queries',
     [U + 'independence/fisherz.py', U + 'independence/dsep.py', U + 'independence/_base.py', U + 'independence/functional/fisherz.py',
      U + 'independence/basic_independence.py'],
     [('correlation sub-matrix inversion', U + 'independence/functional/fisherz.py'), ('query dispatch', U + 'independence/_base.py')],
     'exhaustive enumeration of queries and query histories against closed formulas',
     'Deterministic data sets (including every small grid data set); every query on up to 5 variables, pairs of queries on 4.')
prop('C10', 'Kernel values and kernel tests depend only on the current data and parameters',
     'A kernel object returns the matrix of its formula for the arguments and parameters of this very call, however it was used before '
     'and whatever was done with matrices it returned. The kernel independence tests return the value of their statistic for the given '
     'variables, independent of earlier queries and of other test objects.',
     ['histories', 'inputs'], 'every history of evaluations, parameter changes and reuse of results up to the depth bound',
     'tests evaluate a kernel once; a stale or shared cached matrix shows only in a sequence of calls',
     [U + 'kernel/_base.py', U + 'kernel/gaussian.py', U + 'kernel/polynomial.py', U + 'kernel/linear.py', U + 'independence/kci.py',
      U + 'independence/kernel_based.py', U + 'independence/functional/kci.py', U + 'independence/functional/HSIC.py'],
     [('kernel matrix cache', U + 'kernel/_base.py'), ('centering and width selection', U + 'kernel/gaussian.py'),
      ('conditional kernel statistic', U + 'independence/functional/kci.py')],
     'exhaustive enumeration of call histories on the real objects against the formulas and fresh objects',
     'All histories of three (four) operations over a small alphabet of arrays and parameters; every ordered pair of test queries.')
prop('C11', 'A local score depends only on variable and parent set, with the right value',
     'Each local score returns the value its formula gives for the variable and the set of parents (the marginal-likelihood scores: the '
     'largest likelihood over the noise level), independent of the order and container of the parents and of every earlier call. The Bayesian and information scores give Markov equivalent graphs the same '
     'total, and the score of a graph is the sum over its nodes.',
     ['inputs', 'histories'], 'every variable, ordered parent set and container; every ordered pair of calls; every equivalent pair of DAGs',
     'tests compare one stored number per score; the memo shows only across calls',
     [U + 'local_score/_base.py', U + 'local_score/bic_score.py', U + 'local_score/bdeu_score.py', U + 'local_score/cross_validated_base.py',
      U + 'local_score/marginal_base.py', U + 'local_score/score_utils.py', D + 'score_based/greedy_equivalence_search.py'],
     [('score memo', U + 'local_score/_base.py'), ('count tables and regression', U + 'local_score/bdeu_score.py')],
     'exhaustive enumeration of score queries and call histories against independent formulas',
     'Deterministic data sets; all parent sets of 4 variables; all pairs of equivalent DAGs on at most 4 nodes. Marginal-likelihood values '
     'are compared with the maximum over the noise level.')
prop('C12', 'Greedy equivalence search climbs exactly the space of equivalence classes',
     'For every score that treats Markov equivalent graphs alike, the search ends at a class the two-phase greedy walk over equivalence '
     'classes can end at, and reports the score of the graph it returns. With a consistent score it returns the essential graph of the '
     'true model; the result is always a valid essential graph, and fitting again gives the same result.',
     ['inputs', 'histories'], 'every score in the enumerated families; every small data set; every DAG up to the bound',
     'tests run two data sets; operator validity and score bookkeeping depend on the graph and on the score',
     [D + 'score_based/greedy_equivalence_search.py', G + 'pdag2dag.py', G + 'dag2cpdag.py'],
     [('insert/delete validity and score change', D + 'score_based/greedy_equivalence_search.py')],
     'exhaustive enumeration of score functions, data sets and models; the real search against a nondeterministic reference walk',
     'All integer set-function scores on 3 nodes and all sign patterns on 4; all binary data sets of up to 5 rows on 3 variables; all '
     '4-node DAGs and 5-node shapes.')
prop('C13', 'Graph comparison metrics are exact counts for every pair of graphs',
     'Precision, recall and F1 of adjacencies, arrow heads and directed edges, the structural Hamming distance, graph equality and the '
     'matrix-based accuracy figures equal the counts defined for them, for every pair of graphs. Comparing graphs of different kind or '
     'with different nodes is refused, and the arguments are left unchanged.',
     ['inputs'], 'every ordered pair of graphs up to the bound, every construction order',
     'tests compare three pairs; reversed, missing, undirected and empty cases combine differently',
     [U + 'metrics/graph_evaluation.py', D + 'score_based/entropy_based/entropy_based_discovery/utils.py'],
     [('pairwise comparison', U + 'metrics/graph_evaluation.py')],
     'exhaustive enumeration of graph pairs against counts from the definition',
     'Complete for every ordered pair of PDAGs and DAGs on at most 3 nodes and every 3-node matrix estimate; 4-node pairs strided.')
prop('C14', 'Simulated data obey the given causal graph for every realisation of the noise',
     'Every simulated variable equals its structural equation applied to its parents plus noise of its own scale: noise reaches exactly '
     'the descendants, with the total effects of a linear model, and without noise a variable is a function of its parents of the '
     'requested form. Cyclic graphs are refused, inputs are left unchanged, and the same seed reproduces the data whatever happened before.',
     ['inputs', 'configurations'], 'every DAG up to the bound, noise type, noise source and mechanism',
     'tests check only the shape of the result',
     ['cdmir/datasets/simlulators.py', 'cdmir/datasets/utils.py', D + 'score_based/entropy_based/entropy_based_discovery/utils.py'],
     [('topological generation loop', 'cdmir/datasets/simlulators.py'), ('mechanism construction', 'cdmir/datasets/simlulators.py')],
     'exhaustive enumeration of graphs and noise sources; data checked against the structural equations',
     'Every DAG on at most 4 nodes (part of the simulators strided at 4); equations are solved exactly for each realisation, so no '
     'statistics are involved.')
prop('C15', 'Simulated time series obey the given lagged graph at every step',
     'At every time step each variable of a simulated series equals the lagged structural equation applied to the preceding window plus '
     'its own noise, with one mechanism for the whole series. Longer series extend shorter ones, the same seed reproduces the series, and '
     'lag counts that do not match the graph are refused.',
     ['inputs', 'configurations'], 'every lagged graph up to the bound, noise type, noise source and mechanism',
     'tests check only the shape of the result',
     ['cdmir/datasets/simlulators.py'], [('lag window shift', 'cdmir/datasets/simlulators.py')],
     'exhaustive enumeration of lagged graphs and noise sources; series checked against the lagged equations',
     'Every lagged graph with up to 3 lags on one variable and 2 lags on two variables; larger ones strided.')
EXTRA = os.path.join(ROOT, 'meta', 'more.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P + [q for q, _ in NOT_APPLICABLE]:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd=f'bash run.sh {p["id"]} --tier quick',
                          thorough_cmd=f'bash run.sh {p["id"]} --tier thorough', technique=p['technique'], level='model_checking',
                          level_note=p['note']) for p in P],
             not_applicable=[dict(property=q['id'], reason=r) for q, r in NOT_APPLICABLE],
             notes='No hooks are needed: every check drives the public interface of the unmodified sources in /repo. '
                   'Defects repaired and known findings are listed in known_findings.jsonl.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'claimed,', len(NOT_APPLICABLE), 'not applicable')


main()
