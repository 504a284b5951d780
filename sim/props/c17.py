"""C17: a learned tree represents its training data."""
import learning
import reflearn

RUNS = {'quick': 1200, 'thorough': 80000}
RULE = ('one evaluation = one history of 1 to 5 steps around one learner: fits to varying samples, some while other threads learn or query, rejected, '
        'interrupted and out-of-memory fits, other work, queries, storing and loading; after each step the tree is compared with what its last complete training data '
        'demand; distinct by (last steps, concurrent work, memory contents, what was judged); non-trivial = a tree was judged')
COMPONENTS = learning.COMPONENTS
ASSUMPTIONS = ['finite numbers only']
gen, shrink = learning.gen, learning.shrink


def judge(m, rows, w):
    d = reflearn.Data(m, rows)
    rows_of, inner = reflearn.check_tree(m, d, w)[:2]
    reflearn.check_dists(m, d, rows_of, w, numeric=False)
    reflearn.check_kept(m, rows_of, w)
    return {'leaves': len(rows_of), 'inner nodes': len(inner)}


def run(plan, env, stage, carry):
    out = learning.run(plan, env, judge)
    if 'preempt' in out:
        plan['preempt'] = out.pop('preempt')
    return out
