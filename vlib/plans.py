"""What each property's check runs, per tier."""
from .runner import Job, Plan

PLANS = {}


def plan(prop):
    def f(g):
        PLANS[prop] = g
        return g
    return f


def _cfg(kind, **k):
    return kind + ''.join(f':{a}={b}' for a, b in k.items())


NSHAPES = {(3, 2): 12, (3, 1): 12, (3, 0): 3, (4, 2): 240, (4, 1): 144, (4, 0): 18, (5, 0): 180}
ND = ('-DNDEBUG',)


def chunks(n, full, size):
    t = NSHAPES[(n, full)]
    return [(a, min(a + size, t)) for a in range(0, t, size)]


# One tree of either form on 4 tensors: a balanced one and a chain. The index
# sets of the tensors are arbitrary, so the others differ in naming only.
FORMS = [(0, 1), (7, 8)]


def inf(N, I, full, size, flags=ND, budget=120, forms=False, **k):
    return [Job('cxx', 'opt', _cfg('inf', N=N, I=I, full=full, lo=a, hi=b, **k), flags, budget) for a, b in (FORMS if forms else chunks(N, full, size))]


def fin(N, I, full, size, flags=ND, budget=120, kind='fin', dsi=0, hom=0, mns=0, sparse=0, skip=0, upd=0, forms=False, **k):
    return [Job('cxx', 'opt', _cfg(kind, N=N, I=I, full=full, lo=a, hi=b, dsi=dsi, hom=hom, mns=mns, sparse=sparse, skip=skip, upd=upd, **k), flags, budget)
            for a, b in (FORMS if forms else chunks(N, full, size))]


OPT_INF = ['tnco::optimize::optimizer::Optimizer (constructor, get_ctree_nn, is_valid)', 'tnco::optimize::infinite_memory::optimizer::Optimizer (constructor, update)',
           'infinite_memory::utils::CostCache, HyperCache, get_cost', 'ContractionTree constructor and is_valid', 'Tree::swap_with_nn, Tree::is_valid', 'Bitset']
OPT_FIN = ['finite_width::greedy::optimizer::Optimizer (constructor, update)', 'finite_width::greedy::utils::get_slices', 'finite_width::utils caches'] + OPT_INF[:1] + OPT_INF[2:]
OPT_ASSUME = ['costs and widths are exact real numbers (no rounding, no overflow)',
              'the cost model is an arbitrary positive function of the indices involved (and of the slices)',
              'the acceptance rule returns an arbitrary number in [0,1]; every random draw is arbitrary',
              'one step from an arbitrary state whose caches agree with its trees (the state a step must leave behind, which is checked), so the result carries over to any number of steps',
              'every index occurs on some tensor, and an index of a single tensor is an output (the constructor demands it)']


def _opt_bounds(tier, fin_too):
    b = {'infinite memory': 'every tree on 3 tensors in every numbering and child order, 2 indices; a tree of either form on 4 tensors (the others differ in naming only), 2 and 3 indices'
         + ('; every tree on 4 tensors in every numbering and order, 2 and 3 indices; 5 tensors, 2 indices' if tier == 'thorough' else ''),
         'steps': 'one step (any start), and two consecutive steps on 3 tensors',
         'random draws': 'all'}
    if fin_too:
        b['finite width'] = 'trees on 3 tensors (re-slicing), on 3 and 4 tensors (no re-slicing), 2 indices, up to 2 new slices per move, forbidden and sparse indices, one dimension or one per index'
    return b


def fin_jobs(tier, small=False):
    j = []
    q = tier != 'thorough'
    j += fin(4, 2, 0, 1, dsi=1, mns=2, sparse=1, skip=1, forms=q, budget=300)
    for d in (1, 0):
        j += fin(4, 2, 0, 1, dsi=d, mns=0, sparse=0, skip=0, forms=q, budget=300)
        j += fin(3, 2, 0, 3, dsi=d, mns=2 * d, sparse=1 - d, skip=d)
    j += fin(3, 2, 0, 3, dsi=1, mns=1, sparse=1, skip=1, flags=())
    j += fin(3, 2, 0, 1, dsi=1, hom=1, mns=0, upd=1)
    if not small:
        j += fin(3, 2, 0, 3, dsi=1, mns=1, sparse=0, skip=0, min=1)
        j += fin(3, 2, 0, 3, dsi=1, mns=2, sparse=2, skip=0)
    if tier == 'thorough':
        for d in (0, 1):
            j += fin(3, 2, 2, 1, dsi=d, mns=2, sparse=1, skip=d, upd=1, budget=600)
            j += fin(3, 2, 2, 1, dsi=d, mns=1, hom=1, skip=1, upd=1, min=1, budget=600)
            j += fin(4, 2, 0, 1, dsi=d, mns=2, sparse=1, skip=1, budget=900)
            j += fin(4, 2, 1, 4, dsi=d, mns=1, budget=900)
            j += fin(3, 3, 0, 1, dsi=d, mns=2, sparse=1, skip=1, budget=900)
            j += fin(4, 2, 0, 1, dsi=d, hom=1, mns=1, upd=1, budget=900)
    return j


def inf_jobs(tier, minimum=False):
    m = dict(min=1) if minimum else {}
    j = inf(4, 2, 0, 1, forms=tier != 'thorough', budget=300) + inf(4, 3, 0, 1, budget=200, forms=True) + inf(3, 2, 2, 6, **m) + inf(3, 2, 0, 1, steps=2)
    if minimum:
        j += inf(3, 2, 0, 1, steps=2, budget=100, **m)[:1]
    if tier == 'thorough':
        j += inf(3, 3, 2, 2, budget=900, min=1) + inf(4, 2, 2, 8, budget=900, min=1) + inf(4, 3, 0, 1, budget=1200, min=1) + inf(5, 2, 0, 4, budget=900)
        j += inf(4, 2, 0, 2, flags=(), budget=900)
    return j


@plan('C03')
def c03(tier):
    return Plan(inf_jobs(tier) + inf(3, 2, 2, 6, flags=()) + fin_jobs(tier, True), OPT_INF + OPT_FIN, _opt_bounds(tier, True), OPT_ASSUME,
                ['tree changed', 'tree unchanged', 'shared'], ['C03 current intermediate indices wrong', 'C03 best leaf indices changed'])


@plan('C04')
def c04(tier):
    return Plan(inf_jobs(tier, True), OPT_INF, _opt_bounds(tier, False), OPT_ASSUME, ['tree changed', 'tree unchanged', 'shared'],
                ['C04 minimum rose', 'C04 total cost is not the cost of the tree'])


@plan('C05')
def c05(tier):
    return Plan(inf_jobs(tier) + inf(3, 2, 2, 6, flags=()) + fin_jobs(tier, True), OPT_INF + OPT_FIN, _opt_bounds(tier, True), OPT_ASSUME, ['tree changed', 'shared'],
                ['C05 current tree contracts tensors that share nothing', 'C05 best tree contracts tensors that share nothing'])


@plan('C07')
def c07(tier):
    j = fin_jobs(tier) + fin(3, 2, 0, 1, kind='ctor', dsi=1, skip=1) + fin(3, 2, 0, 1, kind='ctor', dsi=1, sparse=1) + fin(3, 2, 0, 1, kind='ctor', dsi=1, hom=1, flags=())
    return Plan(j, OPT_FIN, _opt_bounds(tier, True), OPT_ASSUME, ['tree changed', 'tree unchanged', 'constructed'],
                ['C07 a tensor of the current tree is too wide', 'C07 a forbidden index is sliced'])


@plan('C08')
def c08(tier):
    j = fin_jobs(tier) + fin(3, 2, 0, 3, dsi=1, mns=1, min=1) + fin(3, 2, 0, 1, kind='ctor', dsi=1, skip=1)
    return Plan(j, OPT_FIN, _opt_bounds(tier, True), OPT_ASSUME, ['tree changed', 'tree unchanged'],
                ['C08 minimum rose', 'C08 total cost is not that of tree and slices', 'C08 best tree or slices replaced without improvement'])


@plan('C09')
def c09(tier):
    j = []
    for sk in (0, 1):
        for sp in (0, 1, 2):
            j += fin(3, 2, 2 if sp == 0 else 0, 1 if sp else 3, kind='ctor', dsi=1, skip=sk, sparse=sp)
    j += fin(3, 2, 0, 1, kind='ctor', dsi=1, hom=1) + fin(4, 1, 0, 6, kind='ctor', dsi=1, skip=0) + fin(3, 2, 0, 1, kind='ctor', dsi=0, skip=1, flags=())
    if tier == 'thorough':
        j += fin(3, 3, 0, 1, kind='ctor', dsi=1, budget=1500) + fin(3, 3, 0, 1, kind='ctor', dsi=1, hom=1, budget=1500) + fin(4, 2, 0, 1, kind='ctor', dsi=1, skip=1, budget=1500)
    return Plan(j, OPT_FIN[:3], {'trees': '3 tensors with 2 indices, 4 tensors with 1 index' + ('; 3 tensors with 3 indices, 4 tensors with 2 indices' if tier == 'thorough' else ''), 'random order': 'every shuffle'},
                OPT_ASSUME[:3] + ['slicing every allowed index brings every tensor within the width'], ['constructed'],
                ['C09 more indices are sliced than needed', 'C09 an index was sliced that is in no tensor that is too wide', 'C09 sliced although everything fits', 'C09 a tensor is too wide'])


def model(*cfgs, flags=ND, budget=120):
    return [Job('cxx', 'model', c, flags, budget) for c in cfgs]


@plan('C06')
def c06(tier):
    j = model('base', 'greedy', 'mh', 'mono') + model('base', 'greedy', 'mh', flags=())
    for r in (1, 2):
        q = tier != 'thorough'
        j += inf(4, 2, 0, 1, rule=r, forms=q, budget=300) + fin(4, 2, 0, 1, dsi=0, rule=r, forms=q, budget=300) + inf(3, 2, 2, 6, rule=r) + fin(3, 2, 0, 1, dsi=1, mns=1, sparse=1, skip=1, rule=r)
        if tier == 'thorough':
            j += inf(4, 2, 2, 12, rule=r, budget=900) + inf(4, 3, 0, 1, rule=r, budget=900) + fin(3, 2, 2, 2, dsi=1, mns=2, rule=r, upd=1, budget=900) + fin(4, 2, 0, 1, dsi=1, mns=2, skip=1, rule=r, budget=900)
    return Plan(j, ['prob::base, prob::greedy and prob::mh::Probability::operator()'] + OPT_INF[:2] + OPT_FIN[:1], _opt_bounds(tier, True),
                ['costs are exact real numbers, the old cost is positive', 'exp and log are known only by sign, monotonicity and log(1/x) = -log x (pow is exp(b log a))'] + OPT_ASSUME[3:5],
                ['higher', 'lower'], ['C06 greedy rule is wrong', 'C06 Metropolis-Hastings value', 'C06 Metropolis-Hastings rises with the cost'])


MODEL_ASSUME = ['costs and widths are exact real numbers (no rounding, no overflow of the cost type)', 'dimensions are positive integers of any size; their base-2 logarithms are known only by order, log2(1)=0 and log2(2)=1',
                'all bit sets have one size']


@plan('C10')
def c10(tier):
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    j = model('refuse')
    for n in ns:
        for f in (0, 1):
            for u in (0, 1):
                for s in (0, 1):
                    j += model(f'cost:n={n}:uni={u}:fin={f}:sparse={s}', budget=900 if n > 3 else 120)
    j += model('cost:n=2:uni=0:fin=1:sparse=1', 'cost:n=2:uni=0:fin=0:sparse=1', 'cost:n=2:uni=1:fin=1:sparse=1', flags=()) + model('cost:n=2:uni=0:fin=1:longer=1')
    return Plan(j, ['infinite_memory::cost_model::simple and simple_sparse_inds: get_cost, CostModel::contraction_cost, clone', 'the same of finite_width::cost_model', 'Bitset'],
                {'indices': f'up to {ns[-1]}', 'index sets, sparse set, slices': 'all', 'dimensions, projections': 'all positive integers'}, MODEL_ASSUME,
                ['uniform', 'vector', 'sparse cost'], ['C10 contraction cost is not the product of the dimensions', 'C10 cost differs between one dimension and one per index'])


@plan('C11')
def c11(tier):
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    j = model('refuse')
    for n in ns:
        for u in (0, 1):
            for s in (0, 1):
                j += model(f'width:n={n}:uni={u}:sparse={s}', budget=900 if n > 3 else 120)
    j += model('width:n=2:uni=0:sparse=1', 'width:n=2:uni=1:sparse=1', flags=()) + model('width:n=2:uni=0:longer=1')
    return Plan(j, ['finite_width::cost_model::simple and simple_sparse_inds: get_width, get_delta_width, CostModel::width, delta_width, clone', 'Bitset'],
                {'indices': f'up to {ns[-1]}', 'index sets, sparse set, positions': 'all', 'dimensions, projections': 'all positive integers'}, MODEL_ASSUME,
                ['index added', 'index removed'], ['C11 width is not the sum of the logarithms', 'C11 increment differs from the change of width'])


def tree(*cfgs, flags=ND, budget=200):
    return [Job('cxx', 'tree', c, flags, budget) for c in cfgs]


@plan('C01')
def c01(tier):
    j = tree('swap:N=1', 'swap:N=3', 'swap:N=5', 'swap:N=7', 'swap:N=9') + tree('swap:N=1', 'swap:N=3', 'swap:N=5', flags=())
    if tier == 'thorough':
        j += tree('swap:N=11', budget=2500) + tree('swap:N=7', flags=(), budget=2500)
    return Plan(j, ['Tree::swap_with_nn', 'Node', 'Tree::is_valid (build with assertions)'],
                {'nodes': 'up to 9 (5 leaves)' + ('; 11 (6 leaves)' if tier == 'thorough' else ''), 'links': 'every valid table of links, any numbering and order of children', 'position': 'any from -2 to two past the end'},
                ['the tree is valid before the exchange'], ['exchange', 'undefined move'],
                ['C01 the children of a node are not as the exchange demands', 'C01 an undefined move changed the tree', 'C01 the result is not a full binary tree'])


@plan('C02')
def c02(tier):
    j = tree('valid:N=1', 'valid:N=2', 'valid:N=3', 'valid:N=4') + [x for p in range(5) for q in range(5) for x in tree(f'valid:N=5:tight=1:pin={p}:pin2={q}')]
    for how in (0, 1):
        j += tree(f'ctree:n=1:I=2:how={how}', f'ctree:n=2:I=2:how={how}') + [x for d in (1, 2, 3, 4) for x in tree(f'ctree:n=2:I=1:how={how}:odd={d}') if not (how and d < 3)]
    j += tree('ctree:n=3:I=2:how=0', 'ctree:n=3:I=1:how=1') + tree('valid:N=3', 'ctree:n=2:I=2:how=0', flags=())
    if tier == 'thorough':
        j += [x for p in range(-1, 6) for x in tree(f'valid:N=5:pin={p}', budget=1500)] + [x for k in (0, 37, 91, 143, 201, 239) for x in tree(f'valid:N=7:shape={k}', budget=1500)]
        j += tree('ctree:n=3:I=3:how=0', 'ctree:n=3:I=2:how=1', 'ctree:n=4:I=2:how=0', budget=1500)
    return Plan(j, ['Node constructor and is_valid', 'Tree constructor and is_valid', 'ContractionTree constructors and is_valid', 'Bitset'],
                {'node tables': 'every table of up to 4 nodes with any fields, of 5 nodes with fields naming a node or none' + ('; 7 nodes: valid trees in which any two nodes are replaced by anything' if tier == 'thorough' else ''),
                 'contraction trees': 'up to 3 tensors and 2 indices, any index sets, dimensions 0 to 2, wrong numbers of sets, indices or dimensions'},
                ['index sets, dimensions and links are arbitrary; a negative link means none'], ['accepted', 'refused'],
                ['C02 a malformed tree is accepted', 'C02 a genuine tree is refused', 'C02 a genuine contraction tree is refused', 'C02 a contraction tree that does not fit is accepted'])


@plan('C14')
def c14(tier):
    j = tree('trav:N=1', 'trav:N=3', 'trav:N=5', 'trav:N=7') + tree('trav:N=5', flags=()) + (tree('trav:N=9', budget=1500) if tier == 'thorough' else [])
    return Plan(j, ['utils::traverse', 'utils::get_contraction'], {'nodes': 'up to 7 (4 leaves)' + (', 9 (5 leaves)' if tier == 'thorough' else ''), 'links': 'every valid table of links, any numbering and order of children'},
                ['the tree is valid'], ['traversed'], ['C14 a node is visited before its children', 'C14 a contraction does not name the children of its node'])


XF = ('-DXFLOAT', '-DPYB_CAPTURE', '-DNDEBUG')


def bind(*cfgs, budget=120):
    return [Job('cxx', 'bind', c, XF, budget) for c in cfgs]


@plan('C12')
def c12(tier):
    ns = (0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6)
    return Plan(bind(*[f'bitset:n={n}' for n in ns], budget=1200 if tier == 'thorough' else 120) + py('h_sets', *[f'bitset:k={k}' for k in ((0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4))], budget=600),
                ['tnco.bitset.Bitset', 'every callable bound for Bitset in bitset.hpp (constructors, operators, comparisons, listing, text, pickling)', 'Bitset'],
                {'size': f'up to {ns[-1]}', 'sets': 'every pair of sets of one size'}, ['boost::dynamic_bitset is replaced by a model with solver terms as bits'], ['sets compared', 'positions refused', 'positions accepted'],
                ['C12 wrong elements: __and__', 'C12 wrong answer: __lt__', 'C12 a position that does not fit is accepted', 'C12 positions changed'], need_core=True)


@plan('C13')
def c13(tier):
    j = bind('arith:how=0', 'arith:how=1', 'cmp:how=0', 'cmp:how=1', 'one', 'pow')
    return Plan(j, ['every callable bound for FixedFloat in fixed_float.hpp except formatting', 'FixedFloat constructors, assignments and operators'],
                {'operands': 'every pair of extended real numbers: finite, zeros of either sign, infinities, not-a-number; both operand types'},
                ['the MPFR functions are replaced by a model of exact arithmetic on extended real numbers, results below 1024 bits being arbitrary; rounding and formatting are outside', 'powers: positive base, finite non-zero exponent'],
                ['arithmetic', 'not-a-number compared', 'one number', 'power'], ['C13 wrong result: __rsub__', 'C13 wrong answer: __ge__', 'C13 saving and restoring gives another number', 'C13 wrong answer: isinf'])


@plan('C15')
def c15(tier):
    n = 2 if tier == 'quick' else 3
    j = bind('close', 'log', f'close:n={n}', f'log:n={n}', budget=1500 if tier == 'thorough' else 120)
    return Plan(j, ['utils::is_close, is_logclose, compare, all_close, all_logclose and their bindings'], {'numbers': 'all finite real numbers and non-negative tolerances', 'arrays': f'up to {n} elements, lengths may differ'},
                ['numbers are exact reals; log is known only by sign, monotonicity and log(1/x) = -log x'], ['close', 'not close', 'arrays close', 'arrays not close'],
                ['C15 wrong answer: is_close', 'C15 wrong answer: is_logclose', 'C15 wrong answer: all_close', 'C15 wrong answer: all_logclose'])


# ------------------------------------------------------------------ Python
def py(module, *cfgs, budget=120):
    return [Job('py', 'pysym.' + module, c, (), budget) for c in cfgs]


NAMES = 'index names are arbitrary (any of infinitely many, with any pattern of equality)'


@plan('C24')
def c24(tier):
    j = py('h_sets', 'self:n=3:m=3', 'set:n=3:m=3', 'frozenset:n=3:m=3', 'list:n=3:m=3', 'iter:n=3:m=3', 'dup:n=3:m=3', 'all:n=3:m=2', 'self:n=0:m=2', 'self:n=2:m=0')
    if tier == 'thorough':
        j += py('h_sets', 'self:n=4:m=4', 'list:n=4:m=4', 'set:n=4:m=4', 'dup:n=4:m=3', 'self:n=5:m=3', 'self:n=3:m=5', budget=1200)
    return Plan(j, ['every operation of tnco.ordered_frozenset.OrderedFrozenSet'], {'elements': 'up to 3 on either side' + (' (5 in the thorough tier)' if tier == 'thorough' else ''), 'operand': 'another ordered set, a set, a frozen set, a list, an iterator, a list with repetitions'},
                ['elements are arbitrary hashable objects with any pattern of equality'], ['equal sets', 'sets compared'], ['C24 equal sets with different hashes', 'C24 wrong result: ^', 'C24 wrong answer: <='], need_core=True)


@plan('C17')
def c17(tier):
    j = py('h_paths', 'tree:s=222', 'tree:s=22:out=1', 'tree:s=21:out=2', 'tree:s=222:out=1', 'tree:s=2121', 'tree:s=121:out=1:share', 'tree:s=12:share:flip', 'tree:s=212:x=1:out=1', 'tree:s=111:x=1:flip', 'tree:s=1111')
    if tier == 'thorough':
        j += py('h_paths', 'tree:s=1111:flip', 'tree:s=222:out=2', 'tree:s=2222', 'tree:s=2222:out=1', 'tree:s=332', 'tree:s=1111:x=2:out=1:flip', 'tree:s=2121:out=1:share', 'tree:s=11111:out=1', 'tree:s=21111', budget=1500)
    return Plan(j, ['tnco.ctree.ContractionTree.__init__ and inds, output_inds, all_inds, dims', 'tnco.utils.tn helpers used by it', 'C++ Node, Tree and ContractionTree constructors, on concrete links'],
                {'tensors': 'up to 4' + (' (5)' if tier == 'thorough' else ''), 'indices': 'up to 2 per tensor' + (' (3)' if tier == 'thorough' else ''), 'paths': 'every pair of positions at every step, in either order; up to one tensor left alone', 'output indices': 'none given, or up to 2 arbitrary names'},
                [NAMES, 'a path has at least one contraction and names one group of tensors', 'an index carried by only one tensor of the tree stays open like an output'],
                ['tree built', 'hyper-index', 'input refused', 'tensors left alone'], ['C17 node carries wrong indices', 'C17 inconsistent input accepted', 'C17 wrong output indices'], need_core=True)


@plan('C18')
def c18(tier):
    j = py('h_paths', 'path:n=2', 'path:n=3:x=1:perm', 'path:n=4:x=1:perm', 'path:n=5:x=1')
    if tier == 'thorough':
        j += py('h_paths', 'path:n=5:x=2:perm', 'path:n=6:x=1', 'path:n=6:perm', budget=1500)
    return Plan(j, ['tnco.ctree.ContractionTree.path and __init__, __reduce__', 'C++ utils::get_contraction, traverse'],
                {'tensors': 'up to 5' + (' (6)' if tier == 'thorough' else ''), 'trees': 'every tree, every numbering of the inner nodes and order of children on up to 4 tensors' + (' (6)' if tier == 'thorough' else ''), 'tensors left alone': 'up to 1'},
                ['index names do not matter to a path and are fixed'], ['relabelled tree', 'path read', 'tensors left alone'], ['C18 path is not valid', 'C18 path does other contractions than the tree'], need_core=True)


@plan('C19')
def c19(tier):
    j = py('h_paths', 'merge:n=5:l=21', 'merge:n=5:l=11:flip', 'merge:n=4:l=11:flip', 'merge:n=4:l=2:flip', 'merge:n=6:l=111:fresh', 'split:n=5:l=3', 'split:n=4:l=3:flip', 'split:n=5:l=2:flip', 'split:n=4:l=0')
    if tier == 'thorough':
        j += py('h_paths', 'merge:n=5:l=22', 'merge:n=6:l=21:flip', 'merge:n=6:l=22', 'merge:n=6:l=111', 'merge:n=7:l=111:fresh', 'split:n=6:l=4', 'split:n=6:l=5', 'split:n=5:l=4:flip', budget=1500)
    return Plan(j, ['tnco.utils.tn.merge_contraction_paths, split_contraction_path'], {'tensors': 'up to 6' + (' (7)' if tier == 'thorough' else ''), 'paths': 'every path of the listed lengths: every pair of positions at every step; up to 3 paths merged'},
                [], ['paths merged', 'paths refused', 'path split'], ['C19 merged path does other contractions', 'C19 merged path is not complete', 'C19 split paths do other contractions'], need_core=True)


@plan('C20')
def c20(tier):
    j = py('h_paths', 'random:s=211', 'random:s=1111', 'random:s=2101', 'random:s=221', 'random:s=10', 'random:s=22')
    if tier == 'thorough':
        j += py('h_paths', *[f'random:s={s}:m={m}' for s in ('222', '2111', '11111', '2211') for m in (0, 1, 2)], budget=1500)
    return Plan(j, ['tnco.utils.tn.get_random_contraction_path, get_connected_components, merge_contraction_paths'], {'tensors': 'up to 4' + (' (5)' if tier == 'thorough' else ''), 'indices': 'up to 2 per tensor', 'random choices': 'every outcome'},
                [NAMES], ['random path', 'several components', 'hyper-index'], ['C20 tensors without a common index are contracted', 'C20 path is not complete', 'C20 a component is not contracted'], need_core=True)


@plan('C23')
def c23(tier):
    j = py('h_paths', 'fuse:s=222', 'fuse:s=211:out=1', 'fuse:s=111:out=1:ex=1', 'fuse:s=221:ex=1', 'fuse:s=1111:out=0', 'fuse:s=211:uni:out=0', 'fuse:s=22:out=1:ex=1')
    if tier == 'thorough':
        j += py('h_paths', 'fuse:s=222:out=1', 'fuse:s=2211', 'fuse:s=2111:out=1', 'fuse:s=1111:out=1:ex=1', 'fuse:s=222:ex=1', 'fuse:s=11111:out=0', 'fuse:s=222:uni:out=0', budget=1500)
    return Plan(j, ['tnco.utils.tn.fuse', 'tnco.utils.tensor helpers used by it'], {'tensors': 'up to 4' + (' (5)' if tier == 'thorough' else ''), 'indices': 'up to 2 per tensor', 'dimensions': '1 to 256, powers of two', 'limit': '0 to 40', 'outputs, excluded indices': 'up to 1 each, any name', 'random choices': 'every outcome'},
                [NAMES, 'logarithms of the dimensions are whole numbers'], ['tensors fused', 'nothing fused', 'hyper-index', 'input refused'], ['C23 fused tensor is too wide', 'C23 wrong indices reported', 'C23 tensor with an excluded index is contracted'], need_core=True)


ENTRIES = 'array entries are arbitrary real numbers (complex in some configurations); no rounding'


@plan('C21')
def c21(tier):
    j = py('h_tensor', 'contract:s=21', 'contract:s=22:out=1', 'contract:s=22:sub:out=0:cplx', 'contract:s=222:d=21', 'contract:s=211:out=1', 'contract:s=221:out=0:d=2', 'contract:s=111:out=1:flip', 'contract:s=1111:out=0:d=2',
           'contract:s=211:l=1:sub:out=0', 'dot:s=22', 'dot:s=32:d=213', 'dot:s=22:h=1', 'dot:s=33:d=21', 'dot:s=22:cplx', 'shapes:s=21')
    if tier == 'thorough':
        j += py('h_tensor', 'contract:s=221:out=1', 'contract:s=222:out=1', 'contract:s=2121:out=1:d=21', 'contract:s=222:sub:out=0:d=213', 'contract:s=1111:out=1', 'contract:s=2211:out=0:d=21', 'contract:s=332:d=2', 'contract:s=2111:l=2:sub:out=0', 'dot:s=43:d=21', 'dot:s=33:d=3', 'shapes:s=22', budget=1800)
    return Plan(j, ['tnco.utils.tn.contract', 'tnco.utils.tensor.tensordot', 'OrderedFrozenSet'], {'tensors': 'up to 4', 'indices': 'up to 3 per tensor', 'dimensions': '1 to 3', 'paths': 'every valid path', 'outputs': 'none given, up to 1 arbitrary name, or every subset of the indices'},
                [NAMES, ENTRIES, 'an index carried by only one tensor stays open like an output'], ['contracted', 'hyper-index', 'one tensor left', 'network refused', 'product', 'product refused'], ['C21 wrong value', 'C21 wrong value of a product', 'C21 indices differ without arrays'], need_core=True)


@plan('C22')
def c22(tier):
    j = py('h_tensor', 'dec:shape=22', 'dec:shape=23', 'dec:shape=222', 'dec:shape=212', 'dec:shape=33', 'dec:shape=22:cplx', 'dec:shape=2222:diag', 'dec:shape=11', 'dec:shape=322', 'dec:shape=232', 'net:s=22', 'net:s=22:k=dg:out', 'net:s=221:k=dcg', 'net:s=222:k=ccc',
           'net:s=22:k=cc:out', 'net:s=211:k=cgg:out', 'net:s=32:k=dg', 'net:s=221:k=ddg', 'net:s=22:k=cd:d=3')
    if tier == 'thorough':
        j += py('h_tensor', 'dec:shape=2222', 'dec:shape=333', 'dec:shape=222:cplx', 'dec:shape=2322', 'net:s=222:k=cdg', 'net:s=222:k=ccc:out', 'net:s=222:k=cdc:out', 'net:s=2222:k=cccc', 'net:s=322:k=ccg', 'net:s=33:k=cg', 'net:s=2221:k=ccdg', 'net:s=222:k=ggg', budget=1800)
    return Plan(j, ['tnco.utils.tensor.decompose_hyper_inds, is_diagonal', 'tnco.utils.tn.decompose_hyper_inds'], {'tensors': 'one of up to 8 entries (16 in the thorough tier), networks of up to 3', 'dimensions': '1 to 3', 'entries': 'all; in networks also diagonal tensors and multiples of a Kronecker delta', 'tolerance': 'every non-negative number; in networks zero'},
                [NAMES, ENTRIES, 'for networks closeness of numbers means equality'], ['merged', 'left as it is', 'reduced to a number', 'network with merged indices', 'network left as it is'],
                ['C22 decomposition differs from the tensor', 'C22 index dropped without a record', 'C22 value of the network changed', 'C22 index left open'], need_core=True)


@plan('C25')
def c25(tier):
    j = py('h_read', 'symbol', 'einsum:s=21', 'einsum:s=22', 'einsum:s=211', 'einsum:s=112', 'read:s=21', 'read:s=22', 'read:s=11')
    if tier == 'thorough':
        j += py('h_read', 'einsum:s=33', 'einsum:s=222', 'read:s=121', 'read:s=31', 'read:s=222', budget=1500)
    return Plan(j, ['tnco.utils.tn.get_symbol, get_einsum_subscripts, read_inds', 'tnco.utils.tensor.get_einsum_subscripts'], {'index numbers': 'every pair from 0 to 1111923', 'subscripts': 'up to 3 tensors, 2 indices each', 'lists of indices': 'up to 2 indices of 2 tensors' + (' (3 indices)' if tier == 'thorough' else '')},
                [NAMES, 'tensor names and tokens likewise', 'chr() is modelled by the code point'], ['symbols', 'subscripts', 'indices read', 'equal tokens refused'], ['C25 two indices have one symbol', 'C25 symbol is a surrogate', 'C25 wrong sparse indices read'], need_core=True)


@plan('C26')
def c26(tier):
    j = py('h_circ', 'refuse', 'commute:g=gg:q=2', 'commute:g=GG:q=1', 'commute:g=gg:q=1:tol', 'commute:g=tg:q=3', 'commute:g=gt:q=2', 'commute:g=tt:q=3', 'commute:g=Dd:q=2:tol', 'commute:g=dg:q=1:tol', 'commute:g=Tt:q=2',
           'same:g=gg:q=2', 'same:g=GG:q=1', 'same:g=gd:q=1', 'same:g=QQ:copy', 'same:g=Mg', 'same:g=DD', 'same:g=GG:copy:q=1', 'same:g=BB:q=3', 'commute:g=bt:q=3', 'commute:g=gb:q=3')
    if tier == 'thorough':
        j += py('h_circ', 'commute:g=TT:q=3', 'commute:g=tt:q=4', 'commute:g=gg:q=2:tol', 'commute:g=tg:q=2:tol', 'commute:g=tt:q=2:tol', 'commute:g=Gg:q=1:tol', 'same:g=MM', 'same:g=MM:copy', 'same:g=DD:copy', 'same:g=tt:copy', 'same:g=Dt', 'same:g=QM', 'same:g=dG:q=1', budget=1500)
    return Plan(j, ['tnco.utils.circuit.commute, same', 'tnco.utils.tensor.tensordot'], {'qubits': 'gates on 1 or 2 of up to 3 qubits, in any order and overlap', 'matrices': 'all entries: every real 2x2 and 4x4 matrix, every complex 2x2 matrix (4x4 for commuting); for sameness of 4x4 matrices those of the listed zero patterns'},
                [NAMES.replace('index', 'qubit'), 'no rounding; sameness is decided with tolerance zero, commutation with tolerance zero and with every tolerance', 'a gate compared for sameness is not the zero matrix'],
                ['gates compared', 'different qubits', 'tolerance', 'same compared', 'other qubits', 'gate refused'], ['C26 commuting gates and order of application', 'C26 same gates', 'C26 malformed gate accepted'], need_core=True)


@plan('C27')
def c27(tier):
    j = py('h_circ', 'norms', 'load:g=gg:q=1:i=n:f=n', 'load:g=gt:q=2:i=0:f=n', 'load:g=g:i=d:f=d', 'load:g=tg:q=2:dec:i=n:f=n', 'load:g=td:dec:at=100:i=+:f=n', 'load:g=ht:at=001:dec:i=-:f=n', 'load:g=hgh:q=1:i=+:f=-', 'load:g=d:q=1:dec:i=n:f=n',
           'load:g=DD:dec:i=n:f=n', 'load:g=D:dec:i=n:f=n:fuse=4', 'load:g=Dgc:at=10010:dec', 'load:g=DcD:dec', 'load:g=gtg:fuse=4:at=0101:i=n', 'load:g=wg:dec:i=n:f=n:it', 'load:g=d:q=1:i=d:f=d:dec', 'load:g=dG:q=1:i=n:f=1',
           'load:g=rr:q=2:simp:i=n:f=n', 'load:g=rcr:at=1011:simp:i=n:f=n', 'load:g=pcpc:at=101101:simp:i=n:f=n', 'load:g=hxhx:q=2:simp:i=n:f=n', 'load:g=PwP:q=2:simp:i=n:f=n', 'load:g=rr:q=1:simp:dec:fuse=3', 'load:g=hxh:q=2:simp:i=n:f=n:nomat', 'load:g=xcxc:at=010010:simp:i=0:f=n:dec',
           'conv:k=cirq:g=cx:q=2', 'conv:k=cirq:g=h+cx:q=2', 'conv:k=moment:g=swap+x:q=3', 'conv:k=qiskit:g=h+cz+s:q=2', 'conv:k=qiskit:g=cx:q=2')
    if tier == 'thorough':
        j += py('h_circ', 'load:g=gG:q=2:i=d:f=d', 'load:g=dd:i=d:f=d:dec', 'load:g=tdt:at=10110:dec', 'load:g=gtg:fuse=3:at=0101', 'load:g=Dgc:at=10010:dec:fuse=3', 'load:g=td:dec:at=100:i=n:f=n:fuse=4', 'load:g=DDg:dec:i=n:f=n', 'load:g=DDD:at=011202:dec:q=3',
                'load:g=tt:q=3:i=0:f=n:dec', 'load:g=rrr:q=1:simp:i=n:f=n', 'load:g=uu:q=1:simp:i=n:f=n', 'load:g=rcrc:q=2:simp:i=n:f=n', 'load:g=pup:q=1:simp', 'load:g=pppp:q=1:simp', 'load:g=PcPc:q=2:simp:i=n:f=n', 'load:g=rfrf:q=1:simp', 'load:g=hcxch:q=2:simp:i=n:f=n', 'load:g=gd:fuse=2:q=1:dec',
                'conv:k=cirq:g=h+ccx+s:q=3', 'load:g=xcxc:q=2:simp:i=0:f=n:dec:fuse=2', 'conv:k=cirq:g=cx+cx+h:q=2', 'conv:k=qiskit:g=h+swap+x:q=3', budget=1500)
    return Plan(j, ['tnco.utils.circuit.load, same, commute, cirq_to_arrays, qiskit_to_arrays', 'tnco.utils.tn.decompose_hyper_inds, fuse, contract'], {'circuits': 'up to 4 gates on up to 2 qubits (3 with gates on 3 qubits)', 'gates': 'every real 2x2 and 4x4 matrix, diagonal ones, complex 2x2; for simplification multiples of rotations, reflections, phases, CX, SWAP, H, X', 'states': 'tokens, open qubits, any normalised vector (with tolerance)', 'fusion': 'limits 2 to 4, every random choice'},
                [NAMES.replace('index', 'qubit'), 'no rounding (rounded constants such as 1/sqrt(2) aside); closeness of numbers means equality', 'when simplifying, gates are multiples of unitaries'],
                ['circuit loaded', 'open qubits', 'gates cancelled', 'nothing cancelled', 'state refused', 'library circuit'], ['C27 amplitude of the circuit', 'C27 amplitude up to a factor', 'C27 open qubits are not the outputs', 'C27 state that is not normalised accepted'], need_core=True)


@plan('C28')
def c28(tier):
    j = py('h_circ', 'classify:n=1', 'classify:n=2', 'classify:n=2:cplx', 'classify:n=3', 'classify:n=2:m=4', 'classify:n=4:m=2', 'sample:g=h:q=1:path', 'sample:g=g:q=1', 'sample:g=kcg:at=0011', 'sample:g=kcg:at=0010:dec', 'sample:g=knj:q=1',
           'sample:g=kckcj:at=0011011', 'sample:g=kcpc:at=001101', 'sample:g=kjp:q=1', 'sample:g=M', 'sample:g=hM:at=010', 'sample:g=gx:twice:order', 'sample:g=hx:q=2:n=3:hits', 'sample:g=hch:at=0010:n=2', 'sample:lib=qiskit:g=h+x:q=1', 'sample:lib=cirq:g=h+cx:q=2', 'sample:lib=moment:g=h+x:q=2', 'sample:g=xhx:at=010:simp:order')
    if tier == 'thorough':
        j += py('h_circ', 'sample:g=t', 'sample:g=kpkr:q=1', 'sample:g=kg:q=1', 'sample:g=gg:q=1', 'sample:g=hg:q=1', 'sample:lib=cirq:g=h+cx+ccx:q=3', 'sample:g=kckch:at=0011011:n=2', 'sample:g=kckj:at=00110:dec:path', 'classify:n=4', 'sample:g=kMj:at=0100', 'sample:g=koj:at=00121:q=3:order', budget=1500)
    return Plan(j, ['tnco.app.circuit.sampling.sample, is_classical_operation, SamplingIntermediateState', 'tnco.utils.circuit.load', 'tnco.utils.tn.contract', 'tnco.app.Tensor, TensorNetwork'], {'circuits': 'up to 5 gates on up to 2 qubits (3 in the thorough tier)', 'gates': 'every real 2x2 matrix, phases, fixed gates, classical gates', 'draws': 'every number from 0 to 1', 'samples': 'up to 3'},
                [NAMES.replace('index', 'qubit'), 'no rounding; draws within 1e-9 of a threshold that is a plain number are left out', 'the optimizer is replaced by one that returns any valid path', 'a state of amplitude zero (which a unitary circuit never reaches) has no probabilities to follow'],
                ['bits sampled', 'quantum gate', 'classical', 'not classical', 'circuit refused', 'wrong shape'], ['C28 wrong bits sampled', 'C28 classical gates', 'C28 wrong frequency', 'C28 gate neither classical nor on one qubit accepted'], need_core=True)
