"""C18: every split is the best admissible one, and only useful splits are made."""
import learning
import reflearn

RUNS = {'quick': 1000, 'thorough': 80000}
RULE = ('one evaluation = one history of 1 to 5 steps around one learner: fits to varying samples, some while other threads learn or query, rejected, '
        'interrupted and out-of-memory fits, other work, queries, storing and loading; after each step the tree is compared with what its last complete training data '
        'demand; distinct by (last steps, concurrent work, memory contents, what was judged); non-trivial = a tree was judged')
COMPONENTS = learning.COMPONENTS
ASSUMPTIONS = ['the gain of numeric targets is combined as the library does',
               'nodes whose gains are rounding errors and models with partial dependencies are not judged']
gen, shrink = learning.gen, learning.shrink


def judge(m, rows, w):
    d = reflearn.Data(m, rows)
    judged, skipped = reflearn.check_splits(m, d, w, *reflearn.check_tree(m, d, w))
    return {'nodes': judged, 'skipped': skipped}


def run(plan, env, stage, carry):
    out = learning.run(plan, env, judge)
    if 'preempt' in out:
        plan['preempt'] = out.pop('preempt')
    return out
