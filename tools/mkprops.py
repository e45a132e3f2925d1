#!/usr/bin/env python3
"""Writes properties.jsonl (single place where the property texts live)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

I = 'include/tnco/'
prop('C01', 'A subtree exchange keeps the contraction tree a genuine binary tree',
 "Exchanging a node with its uncle turns every valid contraction tree into another valid full binary tree: parent and child links stay mutually consistent, every node is reachable from the single root, the leaves keep their positions and the number of nodes is unchanged. Exactly the two named subtrees change place and every other link stays as it was. When the move is undefined (the root, a child of the root, a position past the end) the tree is left exactly as it was.",
 ['inputs'], 'every valid tree of the bounded size, with any labelling of its internal nodes and any order of children, and every position passed to the move',
 'Tests swap random nodes of a few random trees; the guarantee is for every tree and position, and a link bug can hide in one child order or labelling.',
 [I+'tree.hpp', I+'node.hpp'], [('Tree::swap_with_nn', I+'tree.hpp'), ('Node', I+'node.hpp')], observe=['tnco_core.Tree.swap_with_nn', 'Tree.nodes'])
prop('C02', 'Tree validation accepts exactly the genuine contraction trees',
 "Constructing a tree, or asking whether one is valid, succeeds exactly when the nodes form one full binary tree: leaves first, a single root in last place, every child pointing back to the parent that lists it, no cycles, everything reachable from the root. A contraction tree is accepted only if in addition every intermediate tensor keeps all indices that only one of its two operands has and introduces none that neither has, the numbers of index sets and dimensions match, no dimension is zero and, when requested, all contracted operands share an index.",
 ['inputs'], 'every list of nodes up to the bounded length with arbitrary parent and child fields, and every assignment of index sets to a bounded tree',
 'Tests feed a handful of hand-made invalid trees; almost all malformed node tables (crossed links, detached cycles) are never tried.',
 [I+'tree.hpp', I+'node.hpp', I+'ctree.hpp'], [('Tree::is_valid', I+'tree.hpp'), ('ContractionTree::is_valid', I+'ctree.hpp'), ('Node::is_valid', I+'node.hpp')], observe=['tnco_core.Tree(nodes)', 'tnco_core.ContractionTree(...)'])
prop('C03', 'An optimizer step never changes the tensor network being contracted',
 "After any number of optimization steps, under any cost model, any acceptance rule and any random draws, the current tree and the best tree still describe a contraction of the same tensor network: the leaf tensors and the output indices are unchanged, and each intermediate tensor carries precisely those indices of its leaves that also occur outside its subtree or are output indices, including hyper-indices. No step throws, hangs or leaves the tree malformed.",
 ['histories', 'inputs'], 'every sequence of steps (by induction over one step from any valid state), every tensor network over the bounded tree, every sequence of random draws and every acceptance outcome',
 'Tests run seeded random walks; the step must be right for every tree, index pattern (hyper-indices shared by three or more tensors) and accept/reject history.',
 [I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/optimizer.hpp'], [('Optimizer::update', I+'optimize/infinite_memory/optimizer.hpp'), ('get_ctree_nn', I+'optimize/optimizer.hpp'), ('HyperCache', I+'optimize/infinite_memory/utils.hpp')], observe=['Optimizer.ctree', 'Optimizer.min_ctree'])
prop('C04', 'Reported costs are the true costs, and the best cost never gets worse',
 "At every moment the optimizer's total cost equals the sum of the contraction costs of its current tree, and its minimum total cost equals the cost of the best tree it stores. A step never raises the minimum; the minimum is never above the cost of the tree the step ended on; and the best tree changes only when the cost strictly improves.",
 ['histories', 'inputs'], 'every sequence of steps by induction, for an arbitrary non-negative cost model, every acceptance outcome and random draw, over bounded trees',
 'Incremental bookkeeping (partial sums up the tree) can be wrong only after particular accept/reject sequences on particular shapes; tests follow a few seeded runs and compare with a tolerance.',
 [I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/infinite_memory/utils.hpp'], [('CostCache, get_cost', I+'optimize/infinite_memory/utils.hpp'), ('update', I+'optimize/infinite_memory/optimizer.hpp')], state=[('partial_cost', 'cost of the subtree below a node', I+'optimize/infinite_memory/utils.hpp')], observe=['Optimizer.total_cost', 'Optimizer.min_total_cost'])
prop('C05', 'Connected contractions stay connected unless sharing is disabled',
 "If every contraction of the initial tree involves two tensors that share an index, and the option that disables this guarantee is off, then every contraction of the current and best trees shares an index after any number of steps. The optimizer then always has a legal move: it never fails because two neighbouring tensors have nothing in common.",
 ['histories', 'inputs'], 'every connected bounded tree with arbitrary index sets, every step and every acceptance outcome',
 'Whether a swap can disconnect a pair depends on index patterns tests do not enumerate.',
 [I+'optimize/optimizer.hpp', I+'optimize/infinite_memory/optimizer.hpp'], [('get_ctree_nn', I+'optimize/optimizer.hpp')], observe=['Optimizer.ctree', 'ContractionTree.is_valid(check_shared_inds=True)'])
prop('C06', 'The acceptance rules are genuine probabilities and are obeyed',
 "The greedy rule gives 1 when the cost does not increase and 0 otherwise; the Metropolis-Hastings rule gives 1 when the cost does not increase and otherwise (new cost / old cost) to the power -beta, a value between 0 and 1 that falls with the cost increase and with beta; the base rule gives 1. An optimizer step never performs a move to which the rule assigns probability zero and always performs a move with probability one, so under the greedy rule the total cost never increases.",
 ['inputs', 'histories'], 'every old cost, cost change and non-negative beta, every value the uniform draw can take including zero, every bounded tree',
 'A draw of exactly zero and borderline cost changes practically never occur in sampled runs.',
 [I+'optimize/prob/mh.hpp', I+'optimize/prob/greedy.hpp', I+'optimize/prob/base.hpp', I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp'], [('Probability::operator()', I+'optimize/prob/mh.hpp'), ('acceptance test in update', I+'optimize/infinite_memory/optimizer.hpp')], observe=['prob(delta_cost, old_cost)', 'Optimizer.update'])
prop('C07', 'No tensor exceeds the allowed width once the chosen indices are sliced',
 "In finite-width optimization, from construction on and after every step, every tensor of the current tree has width at most the maximum once the current slices are removed, and the same holds for the best tree with its own slices. Indices the caller asked never to slice are never sliced. A step with any number of allowed new slices completes without an error.",
 ['histories', 'inputs'], 'every bounded tree, index sets, slices and forbidden slices, any maximum width, dimensions, random draws and acceptance outcomes; dense and sparse width models',
 'The limit can be broken only by particular combinations of skipped indices, sparse indices and random slice choices that seeded runs do not reach.',
 [I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/finite_width/greedy/utils.hpp', I+'optimize/finite_width/utils.hpp'], [('update', I+'optimize/finite_width/greedy/optimizer.hpp'), ('get_slices', I+'optimize/finite_width/greedy/utils.hpp')], observe=['Optimizer.ctree', 'Optimizer.slices', 'Optimizer.min_slices'])
prop('C08', 'Finite-width costs, slices and trees stay mutually consistent',
 "In finite-width optimization the total cost always equals the cost of the current tree under the current slices, and the minimum total cost equals the cost of the stored best tree under the stored best slices. The minimum never rises, is never above the cost the step ended on, and the best tree, best slices and minimum cost change together and only on strict improvement. Re-slicing replaces the slices only when that strictly lowers the cost.",
 ['histories', 'inputs'], 'every step from any valid state of a bounded tree, for an arbitrary cost model depending on tensors and slices, with and without slice updates, every acceptance outcome',
 'The slices and the tree are updated on several different branches; only some histories take each of them.',
 [I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/finite_width/utils.hpp'], [('update', I+'optimize/finite_width/greedy/optimizer.hpp'), ('CostCache', I+'optimize/finite_width/utils.hpp')], observe=['Optimizer.total_cost', 'Optimizer.min_total_cost', 'Optimizer.slices'])
prop('C09', 'Chosen slices suffice, and slicing stops when they do',
 "Given any contraction tree, maximum width and set of forbidden indices for which a solution exists, choosing slices returns indices that bring every tensor within the maximum width and contain no forbidden index. Every chosen index belongs to some tensor that was too wide, no more indices are chosen than needed (with the last one left out some tensor would still be too wide), and if no tensor is too wide no index is sliced.",
 ['inputs'], 'every bounded tree and index sets, dimensions, maximum width, forbidden set and shuffle outcome',
 'Tie-breaking is random and the order of tensors matters; tests look at few trees.',
 [I+'optimize/finite_width/greedy/utils.hpp'], [('get_slices', I+'optimize/finite_width/greedy/utils.hpp')], observe=['Optimizer.slices after construction'])
prop('C10', 'Contraction cost follows the documented formula',
 "The cost of contracting two tensors is the product of the dimensions of all indices on either of them; with sparse indices the product over sparse ones is capped at the number of projections; with slices each sliced index counts whether or not the operands carry it. The value is the same whether dimensions are given as one number or one per index, and does not depend on the order of operands.",
 ['inputs'], 'every index sets, sparse set, slices, dimensions and projection count over a bounded number of indices, for native and extended-precision cost types',
 'The formula must hold for all combinations of overlap, sparsity and slicing; tests compare a few random ones.',
 [I+'optimize/infinite_memory/cost_model/simple.hpp', I+'optimize/infinite_memory/cost_model/simple_sparse_inds.hpp', I+'optimize/finite_width/cost_model/simple.hpp', I+'optimize/finite_width/cost_model/simple_sparse_inds.hpp'], [('get_cost, contraction_cost', I+'optimize/infinite_memory/cost_model/simple.hpp')], observe=['cost_model.contraction_cost'])
prop('C11', 'Tensor width and its increments are consistent',
 "The width of a tensor is the sum of the base-2 logarithms of its dimensions, with the share of the sparse indices capped at the logarithm of the number of projections. Adding an absent index or removing a present one changes the width by exactly the reported increment.",
 ['inputs'], 'every index set, sparse set, index position, dimensions and projection count over a bounded number of indices',
 'The increment is computed by separate code from the width; agreement at the cap must hold for every combination.',
 [I+'optimize/finite_width/cost_model/simple.hpp', I+'optimize/finite_width/cost_model/simple_sparse_inds.hpp'], [('get_width, get_delta_width', I+'optimize/finite_width/cost_model/simple.hpp')], observe=['cost_model.width', 'cost_model.delta_width'])
prop('C12', 'Bitsets behave as sets of positions',
 "A bitset built from positions contains exactly those positions; intersection, union, symmetric difference, difference, complement, equality, disjointness, the subset and superset comparisons, proper or not, counting, indexing, listing of positions and conversion to and from text all agree with the mathematical sets of positions. A position that does not fit is rejected.",
 ['inputs'], 'every pair of bitsets of the bounded size, as exposed to Python',
 'Operators are bound one by one, so an error in one of them shows only on particular pairs of sets.',
 [I+'bitset.hpp', 'tnco/bitset.py'], [('Bitset and its bindings', I+'bitset.hpp')], observe=['tnco_core.Bitset'])
prop('C13', 'Extended-precision numbers follow ordinary float semantics',
 "The extended-precision float supports the arithmetic, in-place, reflected and comparison operators with the operands in the right order; infinity, not-a-number and sign tests answer what their names say; not-a-number compares unequal to everything; and copying or saving and restoring a value preserves it.",
 ['inputs'], 'every pair of operand values including zeros of either sign, infinities and not-a-number, for each exposed operator and overload',
 'Each operator is a separate binding; tests compare random finite values only.',
 [I+'fixed_float.hpp'], [('FixedFloat and its bindings', I+'fixed_float.hpp')], observe=['tnco_core.float1024'])
prop('C14', 'Tree traversal visits each node once, children first',
 "Traversing a contraction tree calls back exactly once for every node, never before both of its children, and ends at the root. The list of contractions derived from it has one entry per internal node, naming its two children and itself, in an order in which operands already exist.",
 ['inputs'], 'every valid tree of the bounded size with any labelling of internal nodes',
 'After many exchanges internal nodes are numbered arbitrarily; tests mostly traverse freshly built trees.',
 [I+'utils.hpp', 'tnco/ctree.py'], [('traverse, get_contraction', I+'utils.hpp')], observe=['tnco_core.utils.traverse', 'tnco_core.utils.get_contraction'])
prop('C15', 'Closeness tests say exactly what they promise',
 "Two numbers are close when they differ by at most the tolerance; two positive numbers are log-close when their logarithms do, zero is log-close only to zero and negative numbers to nothing; two arrays are (log-)close when they have the same length and all their elements are.",
 ['inputs'], 'every pair of real numbers and tolerance, every pair of arrays of bounded and possibly different lengths',
 'These helpers guard every consistency check of the optimizers, and tests try random pairs only.',
 [I+'utils.hpp'], [('is_close, is_logclose, all_close, all_logclose', I+'utils.hpp')], observe=['tnco_core.utils'])
prop('C16', 'A saved and restored optimizer continues as the original would',
 "Saving and restoring an optimizer, at any moment and with any settings, restores its trees, slices, costs, settings and random state, so that further steps do exactly what they would have done in the original. The same holds for contraction trees, cost models and acceptance rules.",
 ['configurations', 'histories'], 'every combination of optimizer settings and state fields',
 'Tests compare a restored optimizer with default settings; a setting left out of the saved state changes behaviour only later.',
 ['tnco/optimize/finite_width/optimizer.py', 'tnco/optimize/infinite_memory/optimizer.py', 'tnco/ctree.py'], [('Optimizer.__reduce__ / __build__', 'tnco/optimize/finite_width/optimizer.py')], observe=['pickle, copy'])
prop('C17', 'A contraction tree built from a path computes the right indices',
 "A contraction tree built from a linear contraction path has one leaf per contracted tensor and one node per contraction joining the tensors the path names; each intermediate tensor carries exactly the indices of its leaves that occur in tensors outside its subtree or are requested outputs, and the last carries the output indices. Inconsistent input, such as hyper-indices without declared outputs, or non-sharing operands when sharing is demanded, is rejected.",
 ['inputs'], 'every path over a bounded number of tensors given in any accepted form, every pattern of shared, hyper- and output indices',
 'Tests use random networks with few index patterns and only list paths.',
 ['tnco/ctree.py'], [('ContractionTree.__init__', 'tnco/ctree.py')], observe=['ContractionTree.inds', 'ContractionTree.nodes', 'output_inds'])
prop('C18', 'The path read back from a tree performs the same contractions',
 "Reading the linear path of a contraction tree, whether freshly built or after any number of exchanges, gives a valid path over the original list of tensors whose contractions are exactly those of the tree; building a tree from that path again gives an equivalent tree. Tensors that the tree does not involve are left untouched.",
 ['inputs', 'histories'], 'every tree over a bounded number of tensors, including trees over a subset of the tensors and any internal labelling',
 'Position bookkeeping depends on the order of contractions and on untouched tensors, which tests rarely vary together.',
 ['tnco/ctree.py', I+'utils.hpp'], [('ContractionTree.path', 'tnco/ctree.py')], observe=['ContractionTree.path()'])
prop('C19', 'Merging and splitting contraction paths preserve what is contracted',
 "Merging paths of disconnected groups of tensors yields one path that performs the same pairwise contractions of the same tensors and, when asked, ends with a single tensor. Splitting a path yields one path per connected group which together perform the same contractions, and the groups partition the tensors. Merging paths that reuse a tensor is rejected.",
 ['inputs'], 'every path and group structure over a bounded number of tensors',
 'Linear positions shift with each contraction; tests sample random paths.',
 ['tnco/utils/tn.py'], [('merge_contraction_paths, split_contraction_path', 'tnco/utils/tn.py')], observe=['tnco.utils.tn'])
prop('C20', 'Random contraction paths are complete and only join connected tensors',
 "A random contraction path is always a valid path; without merging there is one path per connected component, each contracts its whole component to one tensor, and every step contracts two tensors that share an index, including through hyper-indices. Merged with completion, it contracts all tensors to one.",
 ['inputs'], 'every index pattern over a bounded number of tensors and indices, and every outcome of the random choices',
 'Tests draw a few seeds; the guarantee is for every random outcome and for hyper-index patterns.',
 ['tnco/utils/tn.py'], [('get_random_contraction_path', 'tnco/utils/tn.py')], observe=['get_random_contraction_path'])
prop('C21', 'Contraction gives the full sum, whatever the path',
 "Contracting a tensor network along any valid path gives, for every value of the arrays, the sum over all non-output indices of the product of all tensors, with the axes in the order of the reported indices; the pairwise product agrees with the same definition including hyper-indices. Indices reported without arrays agree with those reported with arrays.",
 ['inputs'], 'all array values (symbolic entries), every bounded network and path, including hyper- and output indices',
 'Tests compare with einsum on random arrays for a few networks.',
 ['tnco/utils/tn.py', 'tnco/utils/tensor.py'], [('contract', 'tnco/utils/tn.py'), ('tensordot', 'tnco/utils/tensor.py')], observe=['tnco.utils.tn.contract', 'tnco.utils.tensor.tensordot'])
prop('C22', 'Decomposing hyper-indices loses no information',
 "The tensor returned by the decomposition into hyper-indices, together with the map of merged indices, reproduces the original tensor: merged indices are equal wherever it is non-zero within the tolerance given, and no index is dropped without a record. For a network the merged names are consistent over all tensors and the value of the network is preserved.",
 ['inputs'], 'all array values with symbolic entries and zero patterns, bounded rank and dimension, any tolerance',
 'Diagonality depends on values and on the tolerance; tests use random or textbook gates with the default tolerance.',
 ['tnco/utils/tensor.py', 'tnco/utils/tn.py'], [('decompose_hyper_inds', 'tnco/utils/tensor.py')], observe=['decompose_hyper_inds'])
prop('C23', 'Fusing never exceeds the width and never touches excluded indices',
 "The path proposed to fuse tensors is valid, contracts only tensors sharing an index, never produces a tensor wider than the limit and never contracts tensors carrying an excluded index; output indices survive. The reported fused indices are those of the contracted tensors.",
 ['inputs'], 'every index pattern over a bounded number of tensors, dimensions, limits, excluded and output indices, and every random choice',
 'Depends on random choices and hyper-index patterns beyond what seeded tests reach.',
 ['tnco/utils/tn.py'], [('fuse', 'tnco/utils/tn.py')], observe=['tnco.utils.tn.fuse'])
prop('C24', 'Ordered frozen sets are sets that keep first-insertion order',
 "An ordered frozen set holds each distinct element once, in order of first insertion; union, intersection, difference, symmetric difference and all comparisons agree with ordinary sets, and results keep the order of the left operand followed by new elements of the right. Equal sets have equal hashes.",
 ['inputs'], 'all sequences of bounded length of arbitrary elements, whatever their equality pattern',
 'Tests use random integers; every pattern of coinciding elements matters.',
 ['tnco/ordered_frozenset.py'], [('OrderedFrozenSet', 'tnco/ordered_frozenset.py')], observe=['OrderedFrozenSet'])
prop('C25', 'Index symbols are unique and index lists are read faithfully',
 "Distinct index numbers get distinct valid characters that are letters or printable code points and never surrogates, so einsum expressions are unambiguous. Reading a list of indices gives each tensor exactly the indices that name it, in order, with the stated dimensions and the marked output and sparse indices.",
 ['inputs'], 'every pair of index numbers in the supported range, every bounded list of index descriptions',
 'Uniqueness is over more than a million numbers; tests check a few.',
 ['tnco/utils/tn.py'], [('get_symbol, get_einsum_subscripts, read_inds', 'tnco/utils/tn.py')], observe=['get_symbol', 'read_inds'])
prop('C26', 'Gate comparison and commutation tests are sound',
 "Two gates are reported as commuting only if applying them in either order gives the same operator within the tolerance, and always when they act on different qubits; two gates are reported as the same exactly when they act on the same qubits and their matrices agree up to a constant factor, whatever the order in which the qubits are listed.",
 ['inputs'], 'all matrix entries (symbolic), every arrangement of qubits for one- and two-qubit gates',
 'Tests use textbook gates; soundness is over all matrices and qubit orders.',
 ['tnco/utils/circuit.py'], [('commute, same', 'tnco/utils/circuit.py')], observe=['commute', 'same'])
prop('C27', 'A loaded circuit has the amplitude of the circuit',
 "The tensor network loaded from a circuit evaluates, for every gate matrix and initial or final state, to the circuit's amplitude (or operator, for open qubits), in whatever way gates are simplified, hyper-indices decomposed or tensors fused; when gates cancel only up to a constant factor, that factor is the only difference. Open qubits appear as output indices.",
 ['inputs', 'programs'], 'all gate entries (symbolic) in bounded circuits over at most three qubits, all listed options and states',
 'Tests compare random circuits numerically; cancellations and diagonal structure depend on the values.',
 ['tnco/utils/circuit.py'], [('load', 'tnco/utils/circuit.py')], observe=['tnco.utils.circuit.load'])
prop('C28', 'Sampling follows the probabilities of the circuit',
 "At each non-classical gate the sampler flips its qubit with probability |new amplitude|^2 / (|old amplitude|^2 + |new amplitude|^2) of the circuit so far, at each classical gate it maps the bits as the gate does, and gates that are neither are refused. Reported frequencies count exactly the sampled bitstrings, and every supported kind of circuit is sampled.",
 ['inputs', 'programs'], 'all amplitudes and random draws in bounded circuits',
 'Distribution errors are only visible statistically in tests; the step rule must hold for all amplitudes.',
 ['tnco/app/circuit/sampling.py'], [('sample, is_classical_operation', 'tnco/app/circuit/sampling.py')], observe=['Sampler.sample'])
prop('C29', 'Application results describe one consistent contraction',
 "For every run of the application optimizer the reported total cost and slices are the sum and the union over the connected components, each component's path contracts that component and the merged path contracts the whole network consistently with them; one result per run is returned, sorted by cost, never worse than its initial path.",
 ['inputs', 'histories'], 'every component structure and outcome of the underlying optimizer in bounded networks',
 'Tests run single connected networks mostly and inspect results loosely.',
 ['tnco/app/infinite_memory/sa.py', 'tnco/app/finite_width/sa.py'], [('Optimizer.optimize', 'tnco/app/finite_width/sa.py')], observe=['Optimizer.optimize'])
prop('C30', 'Tensors and tensor networks are validated consistently',
 "A tensor is accepted exactly when it has one positive integer dimension per index, consistent with its array if given; a network exactly when all its tensors agree on each index's dimension, hyper-indices come with declared outputs, and outputs and sparse indices exist. Default outputs are the indices that occur once, and reported indices and dimensions are those of the tensors.",
 ['inputs'], 'all dimension values, all patterns of index names over bounded networks',
 'Tests try few malformed networks.',
 ['tnco/app/tn.py'], [('Tensor, TensorNetwork', 'tnco/app/tn.py')], observe=['tnco.app.Tensor', 'tnco.app.TensorNetwork'])
prop('C31', 'Output options are honoured or refused up front',
 "Invalid output options (unknown format or compression, an existing file without permission to overwrite, explicit compression with no file name) are refused when the optimizer is created, before any work is done; valid ones give the documented output. Command-line arguments reach the optimizer unchanged, with JSON as default format.",
 ['configurations'], 'every combination of output options',
 'Tests cover a few combinations.',
 ['tnco/app/app.py', 'tnco/app/cli.py'], [('dump_results', 'tnco/app/app.py'), ('Main', 'tnco/app/cli.py')], observe=['Optimizer(...)', 'tnco command'])
prop('C32', 'Loading a tensor network preserves it',
 "Loading a tensor network, with or without decomposition and fusion, preserves its value, output indices (up to recorded merges), sparse indices and dimensions; fused tensors respect the fuse limit, each tag stays with its tensor, and a list of index descriptions yields the network it describes. A valid network is never refused.",
 ['inputs', 'configurations'], 'all array values, bounded networks and options',
 'Option combinations (partial arrays, sparse indices, diagonal arrays) are many; tests sample a few.',
 ['tnco/app/app.py'], [('load_tn', 'tnco/app/app.py')], observe=['load_tn'])
prop('C33', 'Singular value decomposition reconstructs the tensor',
 "The three tensors returned by the singular value decomposition contract back to the original tensor within the threshold, with the new index in the documented places.",
 ['inputs'], 'all array values of bounded rank', 'Tests use random arrays.',
 ['tnco/utils/tensor.py'], [('svd', 'tnco/utils/tensor.py')], observe=['svd'])
prop('C34', 'Parallel runs return every result in order, and stop on timeout',
 "Running a function in parallel over a list of arguments returns one result per argument in order, whatever the number of workers; after the timeout every worker is asked to stop; shared buffers are released even if a worker fails.",
 ['schedules', 'fault_sequences'], 'every interleaving of the workers and every worker failure', 'Tests run a few schedules.',
 ['tnco/parallel.py'], [('Parallel', 'tnco/parallel.py')], observe=['Parallel'])
prop('C35', 'Stored files load back as the object that was stored',
 "A file in any of the supported encodings and compressions loads as the object that was stored in it, and a missing file is reported as missing.",
 ['inputs'], 'all contents and formats', 'Tests store a few objects.',
 ['tnco/app/app.py'], [('load_file', 'tnco/app/app.py')], observe=['load_file'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
