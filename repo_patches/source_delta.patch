From b84ff54a461642cb4a64904542bfdc8198693881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 01/61] fix: cropping a numeric distribution to a single value
 must not overwrite the distribution

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..79f5fc9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -394,7 +394,7 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From 99543f8bb303a28945ea0d6f044e721c1c3350f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 02/61] fix: posterior() must restrict an evidence variable in
 leaves that do not mention it in their path

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..0ca8f8d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1171,7 +1171,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From 602bbf23077b917023b4be55d3ce35adc24765a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 03/61] fix: deep copies of a VariableMap must not drop
 frozenset values (kmpe never terminated)

---
 src/jpt/inference/mpe.py | 2 +-
 src/jpt/variables.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..b83a324 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -177,7 +177,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            self.domains[var][solution.state.assignment[var]] for var in self.domains.keys()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..96ac8aa 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -691,7 +691,9 @@ class VariableMap:
         for vname, value in self.items():
             if isinstance(value, (numbers.Number, str)):
                 vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            elif isinstance(value, (tuple, frozenset)):
+                vmap[vname] = value
+            elif isinstance(value, (set, list, NumberSet)):
                 vmap[vname] = value.copy()
         return vmap
 
-- 
2.43.0


From 2266cf2a57ae50cfc8a544af3e1352702eb8536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 04/61] fix: kmpe() must yield its states in decreasing order
 of likelihood across all leaves

---
 src/jpt/trees.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 0ca8f8d..aabe176 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -10,7 +10,7 @@ import pickle
 import tempfile
 from collections import defaultdict, deque, ChainMap, OrderedDict
 from itertools import zip_longest
-from operator import attrgetter, itemgetter
+from operator import attrgetter
 from typing import Dict, List, Tuple, Any, Union, Iterable, Iterator, Optional, IO, Literal
 
 import numpy as np
@@ -1330,15 +1330,19 @@ class JPT:
                         likelihoods.append(likelihood_max)
         likelihood_max = ifnot(likelihoods, 1, max)
         mpe_solvers = [
-            MPESolver(
-                distributions=leaf.distributions,
-                likelihood_divisor=likelihood_max if likelihoods else None
-            ).solve() for leaf in conditional_jpt.leaves.values()
+            self._weighted_solutions(
+                MPESolver(
+                    distributions=leaf.distributions,
+                    likelihood_divisor=likelihood_max if likelihoods else None
+                ).solve(),
+                leaf.prior
+            ) for leaf in conditional_jpt.leaves.values()
         ]
 
+        # the heap pops its smallest item first, so the candidates are ordered by their negated likelihood
         mpe_candidates = Heap(
             data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            key=lambda candidate: -candidate[1]
         )
 
         count = 0
@@ -1358,6 +1362,17 @@ class JPT:
                 pass
             count += 1
 
+    @staticmethod
+    def _weighted_solutions(
+            solutions: Iterator[Tuple[VariableMap, float]],
+            prior: float
+    ) -> Iterator[Tuple[VariableMap, float]]:
+        """
+        Weight the likelihoods of the MPE ``solutions`` of a leaf by the ``prior`` of that leaf.
+        """
+        for solution, likelihood in solutions:
+            yield solution, likelihood * prior
+
     def _preprocess_query(
             self,
             query: Union[dict, VariableMap],
-- 
2.43.0


From 27ebeb46b7a20f868a1f8a4b37c950b74a29abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 05/61] fix: cropping to a RealSet must weight its parts by
 their probability mass

---
 src/jpt/distributions/univariate/numeric.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 79f5fc9..c6d04c6 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -373,16 +373,23 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
+            # (weighted by the probability mass that each of them carries)
+            masses = [self._p(continuous_set) for continuous_set in restriction.intervals]
+            if not any(masses):
+                masses = [1] * len(masses)
             distributions = []
+            weights = []
 
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
-                )
+            for continuous_set, mass in zip(restriction.intervals, masses):
+                if mass > 0:
+                    distributions.append(
+                        self._crop(continuous_set)
+                    )
+                    weights.append(mass)
 
             return self.merge(
                 distributions,
-                [1 / len(distributions)] * len(distributions)
+                normalized(weights)
             )
 
         elif isinstance(restriction, ContinuousSet):
-- 
2.43.0


From bd5df41cbae6dfca7a0f2b0f26727b16ba0b6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 06/61] fix: variables must keep their settings when they are
 restored from their serialised form

---
 src/jpt/variables.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 96ac8aa..0d31286 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -250,13 +250,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', data)
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -380,10 +381,11 @@ class IntegerVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'IntegerVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', data)
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -423,9 +425,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', data)
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From 49d73f0953c82f5620d650cd2a5a23237cc4ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:45 +0000
Subject: [PATCH 07/61] fix: a failing save must not destroy the model that is
 stored in the file already

---
 src/jpt/base/utils.py | 35 +++++++++++++++++++++++++++++++++++
 src/jpt/trees.py      |  9 ++++-----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..a007e91 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -450,6 +450,41 @@ def count(start: int = 0, inc: int = 1):
         value += inc
 
 
+def write_file(path: str, data: bytes) -> None:
+    """
+    Write ``data`` to the file at ``path`` such that the file holds either its
+    previous or the complete new content at any point in time, regardless of failures.
+
+    :param path: the location of the file
+    :param data: the new content of the file
+    """
+    path = os.path.realpath(path)
+    exists = os.path.exists(path)
+    directory = os.path.dirname(path)
+    if exists and not (os.path.isfile(path) and os.access(directory, os.W_OK)):
+        # devices, pipes etc. cannot be replaced
+        with open(path, 'wb') as f:
+            f.write(data)
+        return
+    tmp = os.path.join(directory, '.jpt-%s.tmp' % os.urandom(8).hex())
+    try:
+        with open(tmp, 'xb') as f:
+            if exists:
+                os.chmod(tmp, os.stat(path).st_mode & 0o7777)
+            f.write(data)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp, path)
+    except BaseException:
+        try:
+            os.unlink(tmp)
+        except OSError:
+            pass
+        raise
+
+
+# ----------------------------------------------------------------------------------------------------------------------
+
 class Heap:
     '''
     Implementation of a heap wrapper inspired by
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index aabe176..38529a4 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -21,7 +21,7 @@ from matplotlib import style, pyplot as plt
 
 from .base.constants import plotstyle, orange, green
 from .base.errors import Unsatisfiability
-from .base.utils import list2interval, format_path, normalized, Heap, list2intset, list2set
+from .base.utils import list2interval, format_path, normalized, Heap, list2intset, list2set, write_file
 from .base.utils import prod, setstr_int
 from .distributions import Integer
 from .distributions import Multinomial, Numeric
@@ -2150,8 +2150,7 @@ class JPT:
 
         :param fpath: the location for the pickled file
         """
-        with open(os.path.abspath(fpath), 'wb') as f:
-            pickle.dump(self, f)
+        write_file(fpath, pickle.dumps(self))
 
     # @staticmethod
     # def load(fpath) -> 'JPT':
@@ -2362,8 +2361,8 @@ class JPT:
             data = self
 
         if type(file) is str:
-            with open(file, {'json': 'w', 'pickle': 'wb'}[protocol]) as f:
-                writer.dump(data, f)
+            data = writer.dumps(data)
+            write_file(file, data.encode() if protocol == 'json' else data)
         else:
             writer.dump(data, file)
 
-- 
2.43.0


From 7d3393e2f3d86b27a3c5abc913294eed7936900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 08/61] fix: sampling from a quantile distribution must respect
 the jumps of its CDF

---
 src/jpt/distributions/quantile/quantiles.pyx | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..681475f 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -566,13 +566,21 @@ cdef class QuantileDistribution:
             return np.full(n, self.cdf.intervals[0].upper)
 
         # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+        interval_probabilities = [function.eval(interval.upper) - function.eval(interval.lower)
+                                  for function, interval in
+                                  zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])]
+
+        # the cdf may jump at the lower bound of a function part, i.e. that point carries probability mass itself
+        jumps = [interval.lower for interval in self.cdf.intervals[1:]]
+        jump_probabilities = [max(0., f2.eval(interval.lower) - f1.eval(interval.lower))
+                              for f1, f2, interval in
+                              zip(self.cdf.functions[:-1], self.cdf.functions[1:], self.cdf.intervals[1:])]
+
+        probabilities = np.array(interval_probabilities + jump_probabilities)
+        probabilities /= probabilities.sum()
 
         # sample in which function part the samples will be
-        sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
-                                            p=interval_probabilities)
+        sample_intervals = np.random.choice(len(probabilities), size=(n,), p=probabilities)
 
         # initialize result
         result = np.zeros((n, ))
@@ -589,6 +597,9 @@ cdef class QuantileDistribution:
             # write them into the result
             result[indices] = samples
 
+        for idx, value in enumerate(jumps, start=len(interval_probabilities)):
+            result[sample_intervals == idx] = value
+
         return result
 
     def to_json(self):
-- 
2.43.0


From 60dbf2d0f2a1cf9747cf0333576d140bd4c1039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 09/61] fix: the roulette wheel must not select an element of
 zero weight

---
 src/jpt/base/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..100c1f1 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,7 +29,7 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            if x <= bound and bound > 0:
                 return i
 
     def sample(self, n=1):
-- 
2.43.0


From d45b452211aaf749e156bd2cffee85cbe2fb87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 10/61] fix: the serialised form of variables and distributions
 must not share their settings

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 src/jpt/distributions/univariate/numeric.py     | 2 +-
 src/jpt/variables.py                            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..c74ab14 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -142,7 +142,7 @@ class Integer(Distribution):
         return {
             'class': type(self).__qualname__,
             'params': list(self._params),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     @staticmethod
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..ed20a33 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -492,7 +492,7 @@ class Multinomial(Distribution):
         return {
             'class': type(self).__qualname__,
             'params': list(self._params),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     to_json = type_to_json
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index c6d04c6..1c0e84a 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -419,7 +419,7 @@ class Numeric(Distribution):
     def inst_to_json(self):
         return {
             'class': type(self).__name__,
-            'settings': self.settings,
+            'settings': dict(self.settings),
             'quantile': self._quantile.to_json() if self._quantile is not None else None
         }
 
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 0d31286..f8a3b2d 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -164,7 +164,7 @@ class Variable:
         return {
             'name': self.name,
             'domain': None if self.domain is None else self.domain.to_json(),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     @staticmethod
-- 
2.43.0


From fa4f5b8bd036a798e8472d3097f59e4c29f78ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 11/61] fix: conditioning a conditional tree must reach the
 leaves below decision nodes with a single child

---
 src/jpt/trees.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 38529a4..ae59b1e 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2224,6 +2224,7 @@ class JPT:
 
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
+        expanded = set()
 
         while fringe:
             # get the next node to inspect
@@ -2247,8 +2248,10 @@ class JPT:
                     del conditional_jpt.innernodes[node.idx]
                     rm = True
 
-                # else recurse into its children
-                elif len(node.children) == 2:
+                # else recurse into its children, unless that has been done already (a decision node
+                # of a conditional tree may have a single child)
+                elif node.idx not in expanded:
+                    expanded.add(node.idx)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From 269802f75ab6d8be656b4667c85c75f5415bfaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 12/61] fix: pruning a conditional tree must not fail on
 decision nodes with a single child

---
 src/jpt/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index ae59b1e..041bc0a 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2625,13 +2625,14 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
-            left, right = node.children
             if (
                     node.idx not in jpt.innernodes
-                    or not isinstance(left, Leaf)
-                    or not isinstance(right, Leaf)
+                    # decision nodes of a conditional tree may have a single child
+                    or len(node.children) != 2
+                    or not all(isinstance(child, Leaf) for child in node.children)
             ):
                 continue
+            left, right = node.children
 
             similarities = []
             for variable in (set(self.variables) - {node.variable}):
-- 
2.43.0


From 8d90334df53c3da3c633f18b60b8ef5b86eda834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 13/61] fix: an impurity improvement of exactly -1 must not be
 taken for a raised exception

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..f985898 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -775,7 +775,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -957,7 +957,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From 2b9de369ad2372f720342d6b3c94e952d2409f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 14/61] fix: a failing learn() must not destroy the model that
 was learnt before

---
 src/jpt/trees.py | 57 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 041bc0a..4d48ab8 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -777,11 +777,12 @@ class JPT:
 
     def _reset(self) -> None:
         """ Delete all parameters of this model (not the hyperparameters)"""
-        self.innernodes.clear()
-        self.leaves.clear()
-        self.priors = VariableMap(variables=self.variables) # .clear()
+        self.innernodes = {}
+        self.leaves = {}
+        self.priors = VariableMap(variables=self.variables)
+        self.minimal_distances = VariableMap(variables=self.variables)
         self.root = None
-        self.c45queue.clear()
+        self.c45queue = deque()
 
     @property
     def allnodes(self):
@@ -1776,15 +1777,42 @@ class JPT:
         # Check and prepare the data
         _data = self._preprocess_data(data=data, rows=rows, columns=columns)
 
-        for idx, variable in enumerate(self.variables):
-            if variable.numeric:
-                samples = np.unique(_data[:, idx])
-                distances = np.diff(samples)
-                self.minimal_distances[variable] = min(distances) if len(distances) > 0 else 2.
-
         if not _data.shape[0]:
             raise ValueError('No data for learning.')
 
+        # --------------------------------------------------------------------------------------------------------------
+        # The model stays as it is unless learning succeeds
+        state = {
+            attr: getattr(self, attr) for attr in (
+                'innernodes',
+                'leaves',
+                'priors',
+                'minimal_distances',
+                'root',
+                'c45queue',
+                'indices',
+                'impurity',
+                '_keep_samples'
+            )
+        }
+        try:
+            self._learn(_data, keep_samples, close_convex_gaps)
+        except BaseException:
+            self.__dict__.update(state)
+            raise
+        return self
+
+    fit = learn
+
+    def _learn(
+            self,
+            _data: np.ndarray,
+            keep_samples: bool,
+            close_convex_gaps: bool
+    ) -> None:
+        """
+        Replace all parameters of this model by those learnt from the preprocessed ``_data``.
+        """
         self.indices = np.ones(shape=(_data.shape[0],), dtype=np.int64)
         self.indices[0] = 0
         np.cumsum(self.indices, out=self.indices)
@@ -1795,6 +1823,12 @@ class JPT:
         # Initialize the internal data structures
         self._reset()
 
+        for idx, variable in enumerate(self.variables):
+            if variable.numeric:
+                samples = np.unique(_data[:, idx])
+                distances = np.diff(samples)
+                self.minimal_distances[variable] = min(distances) if len(distances) > 0 else 2.
+
         # --------------------------------------------------------------------------------------------------------------
         # Determine the prior distributions
         started = datetime.datetime.now()
@@ -1864,9 +1898,6 @@ class JPT:
         # Print the statistics
         JPT.logger.info('Learning took %s' % (datetime.datetime.now() - started))
         JPT.logger.debug(self)
-        return self
-
-    fit = learn
 
     @property
     def min_samples_leaf(self):
-- 
2.43.0


From f80064c770ec20ebf31563792d2c38e54aa41be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 15/61] fix: the serialised form of a RealSet must hold all of
 its intervals

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..edd7cd3 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From 2aac7ba87ed662716955b3dce17650eb6f411910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 16/61] fix: label assignments with numbers or unions of
 intervals must be restorable from their serialised form

---
 src/jpt/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index f8a3b2d..a710b36 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -761,7 +761,10 @@ class VariableAssignment(VariableMap):
             if variable.symbolic or variable.integer:
                 value_ = set(value)
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                else:
+                    value_ = (RealSet if 'intervals' in value else ContinuousSet).from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
-- 
2.43.0


From 5b44ea704d1f95d21afccb7810c0518ef86cc51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 17/61] fix: a completed save must survive a power failure

---
 src/jpt/base/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index a007e91..6c393b6 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -481,6 +481,12 @@ def write_file(path: str, data: bytes) -> None:
         except OSError:
             pass
         raise
+    # make the replacement itself durable
+    fd = os.open(directory, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From d7212ef02516e765eafa9342184733d3ead7874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:49 +0000
Subject: [PATCH 18/61] fix: rounding residuals of the CDF must not be sampled
 as jumps

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 681475f..187fd9f 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -575,6 +575,8 @@ cdef class QuantileDistribution:
         jump_probabilities = [max(0., f2.eval(interval.lower) - f1.eval(interval.lower))
                               for f1, f2, interval in
                               zip(self.cdf.functions[:-1], self.cdf.functions[1:], self.cdf.intervals[1:])]
+        # differences that are due to rounding are not jumps
+        jump_probabilities = [p if p > 1e-12 else 0. for p in jump_probabilities]
 
         probabilities = np.array(interval_probabilities + jump_probabilities)
         probabilities /= probabilities.sum()
-- 
2.43.0


From e525e456d8819600a19056f405f402ec8fbf1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 19/61] fix: cropping a numeric distribution must keep the
 jumps of its CDF

---
 src/jpt/base/functions.pyx                   | 10 ++++++++++
 src/jpt/distributions/quantile/quantiles.pyx | 14 ++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..30c5999 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1063,6 +1063,16 @@ cdef class PiecewiseFunction(Function):
             return self.functions[idx]
         return None
 
+    def jump_at(self, x: float) -> float:
+        """
+        The height of the upward jump of this function at ``x``. Differences that are due to rounding are not jumps.
+        """
+        for i, f, f_ in zip(self.intervals[1:], self.functions[1:], self.functions):
+            if i.lower == x:
+                jump = f.eval(x) - f_.eval(x)
+                return jump if jump > 1e-12 else 0.
+        return 0.
+
     cpdef int idx_at(self, DTYPE_t x):
         """
         Return the index of the function segment at position ``x``.
diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 187fd9f..d5aec04 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -270,8 +270,9 @@ cdef class QuantileDistribution:
         # I: crop
         cdf_ = self.cdf.crop(interval)
 
-        # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        # II: add constant to move to. If the cdf jumps at the lower bound, the
+        # probability mass of that jump belongs to the interval.
+        cdf_ += -(self._cdf.eval(interval.lowermost()) - self._cdf.jump_at(interval.lowermost()))
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -281,13 +282,18 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
-        f_ = cdf_.functions[0]
+        if alpha <= 0:
+            if interval.size() > 1:
+                raise Unsatisfiability('CDF has zero Probability in %s' % interval)
+            alpha = 1
+
+        f_ = ConstantFunction(0.)
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
-- 
2.43.0


From 47876bc659e448974e968c5c5e7e22d83e4ea0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 20/61] fix: the probability of an interval must include the
 jumps of the CDF at its bounds

---
 src/jpt/distributions/univariate/numeric.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 1c0e84a..c88f414 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -23,7 +23,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import EXC, INC, R, ContinuousSet, RealSet, NumberSet
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -274,16 +274,18 @@ class Numeric(Distribution):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
             return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+        if value.isempty():
             return 0
         probmass = (
                 (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
                 (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
         )
-        if not probmass:
-            return probspace in value
-        return probmass
+        # single points carry probability mass, if the cdf jumps there
+        if value.left == INC:
+            probmass += self.cdf.jump_at(value.lower)
+        if value.right == EXC:
+            probmass -= self.cdf.jump_at(value.upper)
+        return max(0, probmass)
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
-- 
2.43.0


From 1a13ac04e050466c6f70ea4c7b751068affba2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 21/61] fix: merging numeric distributions must keep the jumps
 inside their CDFs

---
 src/jpt/distributions/quantile/quantiles.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index d5aec04..8219694 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -469,11 +469,15 @@ cdef class QuantileDistribution:
             )
 
         # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
+        # We preprocess the points, in which the CDFs "jump"
         jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
+        for w, d in zip(weights, distributions):
+            for i, f, f_ in zip(d.cdf.intervals[1:], d.cdf.functions[1:], d.cdf.functions):
+                jump = f.eval(i.lower) - f_.eval(i.lower)
+                # differences that are due to rounding are not jumps
+                if jump > 1e-12:
+                    jumps[i.lower] = jumps.get(i.lower, Jump(i.lower, 1, 0))
+                    jumps.get(i.lower).weight += w * jump
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From f735adce69d8c5f83fb897587ec9e9315da2cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 22/61] fix: the cost of a set of labels in kmpe() is the
 likelihood of the set's level, not of all of its labels

---
 src/jpt/inference/mpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index b83a324..4c7e82d 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -147,7 +147,7 @@ class MPESolver:
                             -np.log(
                                 (dist.pdf / likelihood_divisor).eval(val.any_point())
                                 if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                else self.domains[var][val]
                             )
                         )
                         for val in self.domains[var]],
-- 
2.43.0


From bf3460b010eb9721d7215b8c79d7bf4c3a6f5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 23/61] fix: kmpe() must not fail in leaves whose numeric
 columns are all constant

---
 src/jpt/inference/mpe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index 4c7e82d..07c6f42 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -129,7 +129,8 @@ class MPESolver:
 
             if isinstance(dist, Numeric):
                 _, likelihood_max = dist._mpe()
-                likelihoods.append(likelihood_max)
+                if np.isfinite(likelihood_max):
+                    likelihoods.append(likelihood_max)
 
         # Build the unary constraints given by the log of
         # an events probability
-- 
2.43.0


From 9fc2a888a89b2477d0a58069209b40106512d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 24/61] fix: evidence on an integer variable that lies outside
 its domain must be reported as unsatisfiable

---
 src/jpt/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index a710b36..173540e 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -369,7 +369,8 @@ class IntegerVariable(Variable):
             elif fmt == 'logic':
                 return ' v '.join([self.str(a, fmt=fmt) for a in assignment])
         if isinstance(assignment, numbers.Number):
-            return '%s = %s' % (self.name, self.domain.labels[assignment])
+            # evidence may hold labels instead of values
+            return '%s = %s' % (self.name, self.domain.labels[assignment] if assignment in self.domain.labels else assignment)
         else:
             return '%s = %s' % (self.name, str(assignment))
 
-- 
2.43.0


From 8e7d82c25beeccb96848aac92ecd0d927e0172a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 25/61] fix: cropping a numeric distribution to a negligible
 mass must yield a well-formed CDF

---
 src/jpt/base/functions.pyx                   |  7 ++++---
 src/jpt/distributions/quantile/quantiles.pyx | 21 +++++++++++++++-----
 src/jpt/distributions/univariate/numeric.py  |  2 +-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 30c5999..05ca2fa 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1063,14 +1063,15 @@ cdef class PiecewiseFunction(Function):
             return self.functions[idx]
         return None
 
-    def jump_at(self, x: float) -> float:
+    def jump_at(self, x: float, threshold: float = 1e-12) -> float:
         """
-        The height of the upward jump of this function at ``x``. Differences that are due to rounding are not jumps.
+        The height of the upward jump of this function at ``x``. Differences of less than ``threshold`` are due
+        to rounding and no jumps.
         """
         for i, f, f_ in zip(self.intervals[1:], self.functions[1:], self.functions):
             if i.lower == x:
                 jump = f.eval(x) - f_.eval(x)
-                return jump if jump > 1e-12 else 0.
+                return jump if jump > threshold else 0.
         return 0.
 
     cpdef int idx_at(self, DTYPE_t x):
diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 8219694..3621432 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -282,10 +282,20 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
-        if alpha <= 0:
-            if interval.size() > 1:
-                raise Unsatisfiability('CDF has zero Probability in %s' % interval)
-            alpha = 1
+        if alpha <= 0 and interval.size() > 1:
+            raise Unsatisfiability('CDF has zero Probability in %s' % interval)
+
+        # the probability mass cannot be told from rounding errors: it is located in a single point
+        if alpha <= 1e-14:
+            x0 = first([
+                i.lower for i, f in zip(cdf_.intervals, cdf_.functions) if not isinstance(f, ConstantFunction)
+            ] + [interval.lowermost()])
+            cdf.intervals[-1].upper = x0
+            cdf.intervals.append(ContinuousSet(x0, np.PINF, INC, EXC))
+            cdf.functions.append(ConstantFunction(1.))
+            result = QuantileDistribution(self.epsilon, min_samples_mars=self.min_samples_mars)
+            result.cdf = cdf
+            return result
 
         f_ = ConstantFunction(0.)
         for i, f in zip(cdf_.intervals, cdf_.functions):
@@ -293,7 +303,8 @@ cdef class QuantileDistribution:
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
+            c = f.eval(i.lower) - f_.eval(i.lower)
+            c = c / alpha if c > 1e-12 else 0  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index c88f414..4e6f603 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -284,7 +284,7 @@ class Numeric(Distribution):
         if value.left == INC:
             probmass += self.cdf.jump_at(value.lower)
         if value.right == EXC:
-            probmass -= self.cdf.jump_at(value.upper)
+            probmass -= self.cdf.jump_at(value.upper, 0)
         return max(0, probmass)
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
-- 
2.43.0


From ee36162d2911a1f30b79e4d04414985f7c2e8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 26/61] fix: the density of a complete assignment must not
 translate values of symbolic and integer variables twice

---
 src/jpt/trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 4d48ab8..c877db4 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1005,7 +1005,8 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value) if var.numeric
+                                      else leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 8e38b9f3bb0193d5d06939a295fd9edff585568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 27/61] fix: infer() must not count a variable twice that
 occurs in both the query and the evidence

---
 src/jpt/trees.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index c877db4..5d9dd22 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1077,11 +1077,21 @@ class JPT:
             p_m *= w
             p_e += p_m
 
-            if leaf.applies(query_):
+            if p_m and leaf.applies(query_):
                 for var in set(query_.keys()):
                     query_val = query_[var]
                     if var in leaf.path:
                         query_val = query_val.intersection(leaf.path[var])
+                    if var in evidence_:
+                        # the joint event of query and evidence replaces the evidence
+                        evidence_val = evidence_[var]
+                        if var in leaf.path:
+                            evidence_val = evidence_val.intersection(leaf.path[var])
+                        p_m /= leaf.distributions[var]._p(evidence_val)
+                        if isinstance(evidence_val, RealSet):
+                            query_val = evidence_val.intersection(query_val)
+                        else:
+                            query_val = query_val.intersection(evidence_val)
                     p_m *= leaf.distributions[var]._p(query_val)
                 p_q += p_m
 
-- 
2.43.0


From 0644e6ce19fb4565f62f26b7fc688ae724d83230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 28/61] fix: multiply_by_leaf_prior() must change all leaves or
 none

---
 src/jpt/trees.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5d9dd22..3d9779d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2369,8 +2369,13 @@ class JPT:
 
         :return: self
         """
+        priors = {idx: leaf.prior * prior[idx] for idx, leaf in self.leaves.items()}
+        if not sum(priors.values()):
+            raise Unsatisfiability(
+                'JPT is unsatisfiable (all %s leaves have 0 prior probability).' % len(self.leaves)
+            )
         for idx, leaf in self.leaves.items():
-            self.leaves[idx].prior *= prior[idx]
+            leaf.prior = priors[idx]
         self.normalize()
         return self
 
-- 
2.43.0


From 28000dc99212b0b2c9cc07f62ac4215cb6ebf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 29/61] fix: moments of numeric distributions must include the
 mass of single points

---
 src/jpt/distributions/univariate/numeric.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 4e6f603..f3f91b7 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -562,17 +562,14 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
-        result = 0
+        # The probability mass of single points, i.e. the jumps of the CDF
+        result = sum(
+            self.cdf.jump_at(i.lower) * pow(value_transform(i.lower) - center, order)
+            for i in self.cdf.intervals[1:]
+        )
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
-            if interval_.width == 0:
+            if interval_.width == 0 or np.isinf(function.value):
                 continue
             # We have to "stretch" the pdf value over the interval in label space:
             function_value = function.value * interval.width / interval_.width
-- 
2.43.0


From b2396bcdbc2d8d0b0d10a5bb9a836446ff3647cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 30/61] fix: merging numeric distributions must not drop pieces
 of small density

---
 src/jpt/distributions/quantile/quantiles.pyx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 3621432..f76f174 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -517,6 +517,7 @@ cdef class QuantileDistribution:
 
         m = 0
         c = 0
+        active = 0  # the number of linear functions that the current interval is made of
 
         while lower or upper:
             pivot = None
@@ -534,6 +535,7 @@ cdef class QuantileDistribution:
                     offset += w
                 if isinstance(f, LinearFunction):
                     m_ += f.m * w
+                    active += 1
                 pivot = l
 
             # Do the same for the upper bounds...
@@ -543,13 +545,14 @@ cdef class QuantileDistribution:
                 if isinstance(f, (ConstantFunction, Jump)) or u == np.PINF or isinstance(f, LinearFunction) and f.m == 0:
                     continue
                 m_ -= f.m * w
+                active -= 1
                 pivot = u
 
             if pivot is None:
                 continue
 
             y = m * pivot + c
-            m = m_ if abs(m_) > 1e-8 else 0
+            m = max(m_, 0) if active else 0  # anything else is due to numerical imprecision
             c = y - m * pivot + offset
 
             intervals[-1].upper = pivot
@@ -557,13 +560,7 @@ cdef class QuantileDistribution:
                 # Split the last interval at the pivot point
                 intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
                 # Evaluate the old function at the new pivot point to get the intercept
-                functions.append(LinearFunction(m, c) if abs(m) > 1e-8 else ConstantFunction(c))
-
-        # If the merging ends with an "approximate" constant function
-        # remove it. This may happen for numerical imprecision.
-        while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
-            del intervals[-1]
-            del functions[-1]
+                functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
-- 
2.43.0


From 248096f76d370316929dfcdebac2ff360512a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 31/61] fix: pruning must cope with leaves of zero probability

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3d9779d..790b93d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2716,7 +2716,7 @@ class JPT:
             for variable in self.variables:
                 leaf.distributions[variable] = variable.domain.merge(
                     [left.distributions[variable], right.distributions[variable]],
-                    normalized([left.prior, right.prior])
+                    normalized([left.prior, right.prior]) if left.prior or right.prior else [.5, .5]
                 )
                 if variable in approximate:
                     leaf.distributions[variable] = (
-- 
2.43.0


From 957058ca41587ac9eeaa4de42c1b42bbd8ef8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 32/61] fix: the mass of an interval must agree with the mass
 that cropping to it finds

---
 src/jpt/base/functions.pyx                  | 16 ++++++++++++----
 src/jpt/distributions/univariate/numeric.py | 14 ++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 05ca2fa..b1adb98 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1063,15 +1063,23 @@ cdef class PiecewiseFunction(Function):
             return self.functions[idx]
         return None
 
-    def jump_at(self, x: float, threshold: float = 1e-12) -> float:
+    def left_limit(self, x: float) -> float:
         """
-        The height of the upward jump of this function at ``x``. Differences of less than ``threshold`` are due
-        to rounding and no jumps.
+        The limit of this function at ``x`` from the left.
+        """
+        for i, f_ in zip(self.intervals[1:], self.functions):
+            if i.lower == x:
+                return f_.eval(x)
+        return self.eval(x)
+
+    def jump_at(self, x: float) -> float:
+        """
+        The height of the upward jump of this function at ``x``. Differences that are due to rounding are not jumps.
         """
         for i, f, f_ in zip(self.intervals[1:], self.functions[1:], self.functions):
             if i.lower == x:
                 jump = f.eval(x) - f_.eval(x)
-                return jump if jump > threshold else 0.
+                return jump if jump > 1e-12 else 0.
         return 0.
 
     cpdef int idx_at(self, DTYPE_t x):
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index f3f91b7..b2f4570 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -276,15 +276,13 @@ class Numeric(Distribution):
             return sum(self._p(i) for i in value.intervals)
         if value.isempty():
             return 0
-        probmass = (
-                (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
-                (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
-        )
         # single points carry probability mass, if the cdf jumps there
-        if value.left == INC:
-            probmass += self.cdf.jump_at(value.lower)
-        if value.right == EXC:
-            probmass -= self.cdf.jump_at(value.upper, 0)
+        if value.upper == np.PINF:
+            probmass = 1.
+        else:
+            probmass = (self.cdf.left_limit if value.right == EXC else self.cdf.eval)(value.upper)
+        if value.lower != np.NINF:
+            probmass -= self.cdf.eval(value.lowermost()) - self.cdf.jump_at(value.lowermost())
         return max(0, probmass)
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
-- 
2.43.0


From 3b8f828e98d0f4ed8500994ebe5c9f3ab53122d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 33/61] fix: posterior() must not use densities where evidence
 and path merely share a bound

---
 src/jpt/trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 790b93d..83af75f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1157,7 +1157,11 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
+                # the density is used for single values only, not for the bound an interval shares with a path
+                if (
+                        isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1
+                        and isinstance(evidence_[var], ContinuousSet) and evidence_[var].size() == 1
+                ):
                     l_var = leaf.distributions[var].pdf(evidence_set.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
-- 
2.43.0


From e639ae75a6f257435f9972e19c265087cc9db510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:12 +0000
Subject: [PATCH 34/61] fix: merged quantile distributions must cover the real
 axis to +inf

---
 src/jpt/distributions/quantile/quantiles.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index f76f174..65d1251 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -555,9 +555,9 @@ cdef class QuantileDistribution:
             m = max(m_, 0) if active else 0  # anything else is due to numerical imprecision
             c = y - m * pivot + offset
 
-            intervals[-1].upper = pivot
             if (c or m) and (m != functions[-1].m or c != functions[-1].c):
                 # Split the last interval at the pivot point
+                intervals[-1].upper = pivot
                 intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
                 # Evaluate the old function at the new pivot point to get the intercept
                 functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
-- 
2.43.0


From 79e79cb7ee9147ef379fd5d8dea0a497c157a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:09 +0000
Subject: [PATCH 35/61] fix: blurring a value must look up the quantile
 function by its own pieces

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 83af75f..f8b5934 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1455,7 +1455,7 @@ class JPT:
                         upper = transformer(quantile + var.blur / 2)
                         query_[var] = ContinuousSet(
                             transformer(
-                                prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
+                                prior.ppf.functions[max(1, min(len(prior.ppf) - 2, prior.ppf.idx_at(lower)))].eval(
                                     lower
                                 )
                             ),
-- 
2.43.0


From 8fa94fd9daab840049efdafb1f3f9e7d4855d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 36/61] fix: a cropped CDF must not end with a jump that is due
 to rounding

---
 src/jpt/distributions/quantile/quantiles.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 65d1251..4866cc2 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -315,6 +315,10 @@ cdef class QuantileDistribution:
                 cdf.intervals[-1].lower = cdf.intervals[-2].upper
                 cdf.functions.append(LinearFunction.from_points((i.lower, y + c),
                                                                 (upper_, (f.m / alpha) * (upper_ - i.lower) + y + c)))
+        # the CDF ends at 1 up to rounding
+        if isinstance(cdf.functions[-1], ConstantFunction) and abs(cdf.functions[-1].c - 1) <= 1e-12:
+            cdf.functions[-1] = ConstantFunction(1.)
+
         if cdf.functions[-1] == ConstantFunction(1.):
             cdf.intervals[-1].upper = np.PINF
             cdf.intervals[-1].right = EXC
-- 
2.43.0


From 110ab48ad8484425274d3595a87ec869c0884376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 37/61] fix: a refitted sequence model must not keep leaves and
 distances of its previous tree

---
 src/jpt/sequential_trees.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..22f36d8 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -86,6 +86,8 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        # the leaves of a previous fit must not survive
+        self.template_tree.leaves = {}
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
@@ -97,6 +99,13 @@ class SequentialJPT:
             variables=self.template_tree.variables
         )
 
+        self.template_tree.minimal_distances = VariableMap({
+                v.name: distance for v, distance in expanded_template_tree.minimal_distances.items()
+                if v.name in self.template_tree.varnames
+            },
+            variables=self.template_tree.variables
+        )
+
         transition_data = None
 
         for sequence in sequences:
-- 
2.43.0


From 0dc674df1b0e2432ac99ab8ad62e8c7a3ba8cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 38/61] fix: marginals of long sequences must be propagated
 along the whole sequence

---
 src/jpt/sequential_trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 22f36d8..703e58c 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -319,7 +319,8 @@ class SequentialJPT:
 
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        # Messages travel one step per iteration and have to be normalized to be comparable
+        factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
         leaf_distribution = {
             var.name: normalized(dist, zeros=.1)
             for var, dist in factor_graph.rv_marginals()
-- 
2.43.0


From 427bd2b668ea8c836c09d0af5dff8425096e960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 39/61] fix: the answers for the steps of a sequence must be in
 the order of the steps

---
 src/jpt/sequential_trees.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 703e58c..4ffce5e 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -333,14 +332,11 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for timestep, tree in enumerate(altered_jpts):
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
+                    self.template_tree.leaves.keys(),
+                    leaf_distribution["t%s" % timestep]
                 )
             )
 
-- 
2.43.0


From ad6ba17a8902b65179e3e412e6f931bf948e3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 40/61] fix: encode() must find the leaf whose path contains
 the sample

---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index f8b5934..7b5a8ca 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -176,7 +176,9 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                values = samples[:, index]
+                result *= (values >= restriction.lower) if restriction.left == INC else (values > restriction.lower)
+                result *= (values <= restriction.upper) if restriction.right == INC else (values < restriction.upper)
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From 18870e5560f3b984c4bc795691adec17cb51ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 41/61] fix: the quantile function must invert jumps and flat
 slopes of the CDF

---
 src/jpt/base/functions.pyx                   |  2 +-
 src/jpt/distributions/quantile/quantiles.pyx | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index b1adb98..68afdda 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -668,7 +668,7 @@ cdef class LinearFunction(Function):
         Checks if this function can be inverted.
         :return: True if it is possible, False if not
         """
-        return abs(self.m) >= 1e-4
+        return self.m != 0
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y) except +:
         """
diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 4866cc2..ce3f81c 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -404,9 +404,9 @@ cdef class QuantileDistribution:
             self._assert_consistency()
 
             if len(self._cdf.functions) == 2:
-                ppf.intervals[-1].upper = 1
+                ppf.intervals[-1].upper = 0
                 ppf.functions.append(Undefined())
-                ppf.intervals.append(ContinuousSet(1, one_plus_eps, INC, EXC))
+                ppf.intervals.append(ContinuousSet(0, one_plus_eps, INC, EXC))
                 ppf.functions.append(ConstantFunction(self._cdf.intervals[-1].lower))
                 ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
                 ppf.functions.append(Undefined())
@@ -417,8 +417,17 @@ cdef class QuantileDistribution:
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
 
                 if f.is_invertible():
+                    # A jump of the CDF in front of this piece is a constant of the PPF
+                    y_lower = min(one_plus_eps, f(interval.lower))
+                    if y_lower > y_cdf:
+                        ppf.functions.append(ConstantFunction(interval.lower))
+                        ppf.intervals[-1].upper = y_lower
+                        ppf.intervals.append(ContinuousSet(y_lower, np.PINF, INC, EXC))
+                        y_cdf = y_lower
+                    # Pieces without any mass do not occur in the PPF
+                    if min(one_plus_eps, f(interval.upper)) <= y_cdf:
+                        continue
                     ppf.functions.append(f.invert())
-                    const = 0
                 elif not f.c:
                     ppf.functions.append(Undefined())
                 elif f(interval.lower) > y_cdf:
-- 
2.43.0


From 548d86362f34d3a8280c74bce4ff72932694558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 42/61] fix: errors inside compiled functions must be raised
 instead of ignored

---
 src/jpt/base/cutils.pxd                   |  4 +-
 src/jpt/base/functions.pxd                | 22 +++++-----
 src/jpt/base/functions.pyx                | 42 +++++++++----------
 src/jpt/base/intervals.pxd                | 50 +++++++++++------------
 src/jpt/base/intervals.pyx                | 50 +++++++++++------------
 src/jpt/distributions/quantile/cdfreg.pxd |  2 +-
 src/jpt/distributions/quantile/cdfreg.pyx |  2 +-
 src/jpt/learning/impurity.pyx             | 12 +++---
 8 files changed, 92 insertions(+), 92 deletions(-)

diff --git a/src/jpt/base/cutils.pxd b/src/jpt/base/cutils.pxd
index 61ea4fe..ab3e1f3 100644
--- a/src/jpt/base/cutils.pxd
+++ b/src/jpt/base/cutils.pxd
@@ -264,7 +264,7 @@ cdef inline SIZE_t bisect(DTYPE_t* Xf, DTYPE_t v, SIZE_t n) nogil:
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-cpdef inline DTYPE_t ifnan(DTYPE_t if_, DTYPE_t else_, transform=None):
+cpdef inline DTYPE_t ifnan(DTYPE_t if_, DTYPE_t else_, transform=None) except? -1:
     '''
     Returns the condition ``if_`` iff it is not ``Nan``, or if a transformation is
     specified, ``transform(if_)``. Returns ``else_`` if the condition is ``NaN``.
@@ -279,7 +279,7 @@ cpdef inline DTYPE_t ifnan(DTYPE_t if_, DTYPE_t else_, transform=None):
             return if_
 
 
-cdef inline np.int32_t equal(DTYPE_t x1, DTYPE_t x2, DTYPE_t tol=1e-7):
+cdef inline np.int32_t equal(DTYPE_t x1, DTYPE_t x2, DTYPE_t tol=1e-7) except? -1:
     """
     Check if two numbers are approximately equal.
     :param x1: the first number
diff --git a/src/jpt/base/functions.pxd b/src/jpt/base/functions.pxd
index 178532f..e65cdf6 100644
--- a/src/jpt/base/functions.pxd
+++ b/src/jpt/base/functions.pxd
@@ -27,7 +27,7 @@ cdef class Function:
     Abstract base type of functions.
     '''
 
-    cpdef DTYPE_t eval(self, DTYPE_t x)
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1
 
     cpdef DTYPE_t[::1] multi_eval(self, DTYPE_t[::1] x, DTYPE_t[::1] result=*)
 
@@ -84,7 +84,7 @@ cdef class Hinge(KnotFunction):
 
     cpdef Function differentiate(self)
 
-    cpdef np.int32_t is_invertible(self)
+    cpdef np.int32_t is_invertible(self) except? -1
 
 
 # ----------------------------------------------------------------------------------------------------------------------
@@ -115,7 +115,7 @@ cdef class Impulse(KnotFunction):
 
     cpdef Function differentiate(self)
 
-    cpdef np.int32_t is_invertible(self)
+    cpdef np.int32_t is_invertible(self) except? -1
 
 
 # ----------------------------------------------------------------------------------------------------------------------
@@ -133,7 +133,7 @@ cdef class ConstantFunction(Function):
 
     cpdef Function differentiate(self)
 
-    cpdef np.int32_t is_invertible(self)
+    cpdef np.int32_t is_invertible(self) except? -1
 
     cpdef np.int32_t intersects(self, Function f) except +
 
@@ -141,7 +141,7 @@ cdef class ConstantFunction(Function):
 
     cpdef Function copy(self)
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2)
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1
 
     cpdef ConstantFunction xshift(self, DTYPE_t delta)
 
@@ -171,11 +171,11 @@ cdef class LinearFunction(Function):
 
     cpdef Function differentiate(self)
 
-    cpdef np.int32_t is_invertible(self)
+    cpdef np.int32_t is_invertible(self) except? -1
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y) except +
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2)
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1
 
     cpdef LinearFunction xshift(self, DTYPE_t delta)
 
@@ -203,11 +203,11 @@ cdef class QuadraticFunction(Function):
 
     cpdef Function differentiate(self)
 
-    cpdef np.int32_t is_invertible(self)
+    cpdef np.int32_t is_invertible(self) except? -1
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y, DTYPE_t[::1] z) except +
 
-    cpdef DTYPE_t argvertex(self)
+    cpdef DTYPE_t argvertex(self) except? -1
 
 
 # ----------------------------------------------------------------------------------------------------------------------
@@ -231,7 +231,7 @@ cdef class PiecewiseFunction(Function):
 
     cpdef Function differentiate(self)
 
-    cpdef DTYPE_t integrate(self, ContinuousSet interval=*)
+    cpdef DTYPE_t integrate(self, ContinuousSet interval=*) except? -1
 
     cpdef ensure_left(self, Function left, DTYPE_t x)
 
@@ -255,6 +255,6 @@ cdef class PiecewiseFunction(Function):
 
     cpdef PiecewiseFunction crop(self, ContinuousSet interval)
 
-    cpdef int idx_at(self, DTYPE_t x)
+    cpdef int idx_at(self, DTYPE_t x) except? -1
 
     cpdef PiecewiseFunction xshift(self, DTYPE_t delta)
\ No newline at end of file
diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 68afdda..236b2b1 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -46,7 +46,7 @@ cdef class Function:
     Abstract base type of functions.
     """
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         """
         Evaluate this function at position ``x``
         :param x: the value where to eval this function 
@@ -223,7 +223,7 @@ cdef class Hinge(KnotFunction):
         assert alpha in (1, -1), 'alpha must be in {1,-1}'
         self.alpha = alpha
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return max(0, (self.knot - x) if self.alpha == 1 else (x - self.knot)) * self.weight
 
     def __str__(self):
@@ -240,7 +240,7 @@ cdef class Hinge(KnotFunction):
         """
         return Jump(self.knot, self.alpha, -self.weight if self.alpha == 1 else self.weight)
 
-    cpdef np.int32_t is_invertible(self):
+    cpdef np.int32_t is_invertible(self) except? -1:
         return False
 
 
@@ -256,7 +256,7 @@ cdef class Jump(KnotFunction):
         assert alpha in (1, -1), 'alpha must be in {1,-1}'
         self.alpha = alpha
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return max(0, (-1 if ((self.knot - x) if self.alpha == 1 else (x - self.knot)) < 0 else 1)) * self.weight
 
     def __str__(self):
@@ -285,13 +285,13 @@ cdef class Impulse(KnotFunction):
     def __init__(self, DTYPE_t knot, DTYPE_t weight):
         super(Impulse, self).__init__(knot, weight)
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return self.weight if x == self.knot else 0
 
     cpdef Function differentiate(self):
         return Impulse(self.knot, np.nan)
 
-    cpdef np.int32_t is_invertible(self):
+    cpdef np.int32_t is_invertible(self) except? -1:
         return False
 
     def __repr__(self):
@@ -320,13 +320,13 @@ cdef class ConstantFunction(Function):
     def __repr__(self):
         return '<ConstantFunction 0x%X: %s>' % (id(self), str(self.value))
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return self.value
 
     cpdef Function differentiate(self):
         return ConstantFunction(0)
 
-    cpdef np.int32_t is_invertible(self):
+    cpdef np.int32_t is_invertible(self) except? -1:
         return False
 
     cpdef Function copy(self):
@@ -429,7 +429,7 @@ cdef class ConstantFunction(Function):
     def to_json(self):
         return {'type': 'constant', 'value': self.value}
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2):
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1:
         if x2 < x1:
             raise ValueError(
                 'The x2 argument must be greater than x1. '
@@ -465,7 +465,7 @@ cdef class LinearFunction(Function):
     def __hash__(self):
         return hash((LinearFunction, self.m, self.c))
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return self.m * x + self.c
 
     def __str__(self):
@@ -663,7 +663,7 @@ cdef class LinearFunction(Function):
             'Fitting linear function from %s to %s resulted in m=%s, c=%s' % (p1, p2, m, c)
         return cls(m, c)
 
-    cpdef np.int32_t is_invertible(self):
+    cpdef np.int32_t is_invertible(self) except? -1:
         """
         Checks if this function can be inverted.
         :return: True if it is possible, False if not
@@ -694,7 +694,7 @@ cdef class LinearFunction(Function):
         else:
             raise TypeError('Unknown function type or type not given (%s)' % data.get('type'))
 
-    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2):
+    cpdef DTYPE_t integrate(self, DTYPE_t x1, DTYPE_t x2) except? -1:
         '''
         Compute the integral over this function within the bounds ``x1`` and ``x2``.
         '''
@@ -772,7 +772,7 @@ cdef class QuadraticFunction(Function):
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return self.a * x * x + self.b * x + self.c
 
     cpdef DTYPE_t[::1] roots(self):
@@ -811,7 +811,7 @@ cdef class QuadraticFunction(Function):
             return LinearFunction(self.b, self.c)
         return self.copy()
 
-    cpdef np.int32_t is_invertible(self):
+    cpdef np.int32_t is_invertible(self) except? -1:
         return False
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y, DTYPE_t[::1] z) except +:
@@ -842,7 +842,7 @@ cdef class QuadraticFunction(Function):
         z = np.array(list(p3), dtype=np.float64)
         return cls(np.nan, np.nan, np.nan).fit(x, y, z)
 
-    cpdef DTYPE_t argvertex(self):
+    cpdef DTYPE_t argvertex(self) except? -1:
         return self.differentiate().simplify().root()
 
     def __str__(self):
@@ -868,7 +868,7 @@ cdef class GaussianCDF(Function):
         self.mu = mu
         self.sigma = sigma
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return norm.cdf(x, loc=self.mu, scale=self.sigma)
 
 
@@ -885,7 +885,7 @@ cdef class GaussianPDF(Function):
         self.mu = mu
         self.sigma = sigma
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return norm.pdf(x, loc=self.mu, scale=self.sigma)
 
     def __str__(self):
@@ -905,7 +905,7 @@ cdef class GaussianPPF(Function):
         self.mu = mu
         self.sigma = sigma
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return norm.ppf(x, loc=self.mu, scale=self.sigma)
 
 
@@ -1026,7 +1026,7 @@ cdef class PiecewiseFunction(Function):
         plf.intervals[-1] = plf.intervals[-1].ends(right=EXC)
         return plf
 
-    cpdef DTYPE_t eval(self, DTYPE_t x):
+    cpdef DTYPE_t eval(self, DTYPE_t x) except? -1:
         return self.at(x).eval(x)
 
     def __call__(self, x: float or np.ndarray):
@@ -1082,7 +1082,7 @@ cdef class PiecewiseFunction(Function):
                 return jump if jump > 1e-12 else 0.
         return 0.
 
-    cpdef int idx_at(self, DTYPE_t x):
+    cpdef int idx_at(self, DTYPE_t x) except? -1:
         """
         Return the index of the function segment at position ``x``.
         :param x: The point
@@ -1305,7 +1305,7 @@ cdef class PiecewiseFunction(Function):
             diff.functions.append(f.differentiate())
         return diff
 
-    cpdef DTYPE_t integrate(self, ContinuousSet interval = None):
+    cpdef DTYPE_t integrate(self, ContinuousSet interval = None) except? -1:
         '''
         Compute the area under this ``PiecewiseFunction`` in the ``interval``.
         '''
diff --git a/src/jpt/base/intervals.pxd b/src/jpt/base/intervals.pxd
index f924323..dacb87a 100644
--- a/src/jpt/base/intervals.pxd
+++ b/src/jpt/base/intervals.pxd
@@ -36,19 +36,19 @@ cdef class RealSet(NumberSet):
     cdef public list intervals
 
     # Class Methods
-    cpdef DTYPE_t size(RealSet self)
+    cpdef DTYPE_t size(RealSet self) except? -1
 
     cpdef DTYPE_t[::1] sample(RealSet self, np.int32_t n=*, DTYPE_t[::1] result=*)
 
-    cpdef inline np.int32_t contains_value(RealSet self, DTYPE_t value)
+    cpdef inline np.int32_t contains_value(RealSet self, DTYPE_t value) except? -1
 
-    cpdef inline np.int32_t contains_interval(RealSet self, NumberSet other)
+    cpdef inline np.int32_t contains_interval(RealSet self, NumberSet other) except? -1
 
-    cpdef inline np.int32_t isempty(RealSet self)
+    cpdef inline np.int32_t isempty(RealSet self) except? -1
 
-    cpdef inline np.int32_t intersects(RealSet self, NumberSet other)
+    cpdef inline np.int32_t intersects(RealSet self, NumberSet other) except? -1
 
-    cpdef inline np.int32_t isdisjoint(RealSet self, NumberSet other)
+    cpdef inline np.int32_t isdisjoint(RealSet self, NumberSet other) except? -1
 
     cpdef inline NumberSet intersection(RealSet self, NumberSet other)
 
@@ -58,7 +58,7 @@ cdef class RealSet(NumberSet):
 
     cpdef inline NumberSet complement(RealSet self)
 
-    cpdef inline DTYPE_t fst(RealSet self)
+    cpdef inline DTYPE_t fst(RealSet self) except? -1
 
     cpdef inline NumberSet simplify(RealSet self)
 
@@ -66,11 +66,11 @@ cdef class RealSet(NumberSet):
 
     cpdef inline RealSet xmirror(self)
 
-    cpdef inline np.int32_t isninf(self)
+    cpdef inline np.int32_t isninf(self) except? -1
 
-    cpdef inline np.int32_t ispinf(self)
+    cpdef inline np.int32_t ispinf(self) except? -1
 
-    cpdef inline np.int32_t isinf(self)
+    cpdef inline np.int32_t isinf(self) except? -1
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -82,11 +82,11 @@ cdef class ContinuousSet(NumberSet):
         np.int32_t left, right
         DTYPE_t lower, upper
 
-    cpdef inline np.int32_t itype(ContinuousSet self)
+    cpdef inline np.int32_t itype(ContinuousSet self) except? -1
 
-    cpdef inline np.int32_t isempty(ContinuousSet self)
+    cpdef inline np.int32_t isempty(ContinuousSet self) except? -1
 
-    cpdef inline np.int32_t isclosed(ContinuousSet self)
+    cpdef inline np.int32_t isclosed(ContinuousSet self) except? -1
 
     @staticmethod
     cdef inline ContinuousSet c_emptyset()
@@ -100,15 +100,15 @@ cdef class ContinuousSet(NumberSet):
 
     cpdef inline ContinuousSet copy(ContinuousSet self)
 
-    cpdef inline np.int32_t contains_value(ContinuousSet self, DTYPE_t value)
+    cpdef inline np.int32_t contains_value(ContinuousSet self, DTYPE_t value) except? -1
 
-    cpdef inline np.int32_t contains_interval(ContinuousSet self, NumberSet other, int proper_containment=*)
+    cpdef inline np.int32_t contains_interval(ContinuousSet self, NumberSet other, int proper_containment=*) except? -1
 
-    cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other)
+    cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other) except? -1
 
-    cpdef inline np.int32_t intersects(ContinuousSet self, NumberSet other)
+    cpdef inline np.int32_t intersects(ContinuousSet self, NumberSet other) except? -1
 
-    cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other)
+    cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other) except? -1
 
     cpdef inline ContinuousSet intersection(ContinuousSet self, ContinuousSet other, int left=*, int right=*)
 
@@ -118,15 +118,15 @@ cdef class ContinuousSet(NumberSet):
 
     cpdef inline NumberSet complement(ContinuousSet self)
 
-    cpdef inline DTYPE_t size(ContinuousSet self)
+    cpdef inline DTYPE_t size(ContinuousSet self) except? -1
 
     cpdef DTYPE_t[::1] linspace(ContinuousSet self, np.int32_t num, DTYPE_t default_step=*, DTYPE_t[::1] result=*)
 
-    cpdef inline DTYPE_t fst(ContinuousSet self)
+    cpdef inline DTYPE_t fst(ContinuousSet self) except? -1
 
-    cpdef inline DTYPE_t uppermost(ContinuousSet self)
+    cpdef inline DTYPE_t uppermost(ContinuousSet self) except? -1
 
-    cpdef inline DTYPE_t lowermost(ContinuousSet self)
+    cpdef inline DTYPE_t lowermost(ContinuousSet self) except? -1
 
     cpdef inline ContinuousSet boundaries(ContinuousSet self, int left=*, int right=*)
 
@@ -136,8 +136,8 @@ cdef class ContinuousSet(NumberSet):
 
     cpdef inline ContinuousSet xmirror(self)
 
-    cpdef inline np.int32_t isninf(ContinuousSet self)
+    cpdef inline np.int32_t isninf(ContinuousSet self) except? -1
 
-    cpdef inline np.int32_t ispinf(ContinuousSet self)
+    cpdef inline np.int32_t ispinf(ContinuousSet self) except? -1
 
-    cpdef inline np.int32_t isinf(ContinuousSet self)
\ No newline at end of file
+    cpdef inline np.int32_t isinf(ContinuousSet self) except? -1
\ No newline at end of file
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index edd7cd3..53e2114 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -229,7 +229,7 @@ cdef class RealSet(NumberSet):
             intervals=[ContinuousSet.from_json(d) for d in data['intervals']]
         )
 
-    cpdef DTYPE_t size(RealSet self):
+    cpdef DTYPE_t size(RealSet self) except? -1:
         """
         This size of this ``RealSet``.
         
@@ -291,7 +291,7 @@ cdef class RealSet(NumberSet):
                     break
         return result
 
-    cpdef inline np.int32_t contains_value(RealSet self, DTYPE_t value):
+    cpdef inline np.int32_t contains_value(RealSet self, DTYPE_t value) except? -1:
         """
         Checks if `value` lies in this RealSet
         :param value: The value to check
@@ -303,7 +303,7 @@ cdef class RealSet(NumberSet):
                 return True
         return False
 
-    cpdef inline np.int32_t contains_interval(RealSet self, NumberSet other):
+    cpdef inline np.int32_t contains_interval(RealSet self, NumberSet other) except? -1:
         """
         Checks if ``value`` lies in interval
         :param other: The other interval
@@ -317,7 +317,7 @@ cdef class RealSet(NumberSet):
                 return True
         return False
 
-    cpdef inline np.int32_t isninf(RealSet self):
+    cpdef inline np.int32_t isninf(RealSet self) except? -1:
         """
         Check if this ``RealSet`` is infinite to the left (negative infty).
         :return: 
@@ -327,7 +327,7 @@ cdef class RealSet(NumberSet):
                 return True
         return False
 
-    cpdef inline np.int32_t ispinf(RealSet self):
+    cpdef inline np.int32_t ispinf(RealSet self) except? -1:
         """
         Check if this ``RealSet`` is infinite to the right (positive infty).
         :return: 
@@ -337,7 +337,7 @@ cdef class RealSet(NumberSet):
                 return True
         return False
 
-    cpdef inline np.int32_t isinf(RealSet self):
+    cpdef inline np.int32_t isinf(RealSet self) except? -1:
         """
         Check if this ``RealSet`` is infinite to the right OR the left (negative OR positive infty).
         :return: 
@@ -347,7 +347,7 @@ cdef class RealSet(NumberSet):
                 return True
         return False
 
-    cpdef inline np.int32_t isempty(RealSet self):
+    cpdef inline np.int32_t isempty(RealSet self) except? -1:
         """
         Checks whether this RealSet is empty or not.
 
@@ -368,7 +368,7 @@ cdef class RealSet(NumberSet):
                 return False
         return True
 
-    cpdef inline DTYPE_t fst(RealSet self):
+    cpdef inline DTYPE_t fst(RealSet self) except? -1:
         """
         Get the lowest value
         :return: the lowest value as number or math.nan if there are no values in this RealSet
@@ -384,7 +384,7 @@ cdef class RealSet(NumberSet):
     def min(self) -> numbers.Real:
         return self.fst()
 
-    cpdef inline np.int32_t intersects(RealSet self, NumberSet other):
+    cpdef inline np.int32_t intersects(RealSet self, NumberSet other) except? -1:
         """
         Checks whether the this interval intersects with ``other``.
 
@@ -402,7 +402,7 @@ cdef class RealSet(NumberSet):
                     return True
         return False
 
-    cpdef inline np.int32_t isdisjoint(RealSet self, NumberSet other):
+    cpdef inline np.int32_t isdisjoint(RealSet self, NumberSet other) except? -1:
         """
         Checks whether the this interval is disjoint with ``other``.
         Inverse methode of ``NumberSet.intersects``
@@ -652,14 +652,14 @@ cdef class ContinuousSet(NumberSet):
 
     parse = ContinuousSet.fromstring
 
-    cpdef inline np.int32_t itype(ContinuousSet self):
+    cpdef inline np.int32_t itype(ContinuousSet self) except? -1:
         """
         Get the interval type.
         :return: 2 for closed, 3 for half open, 4 for open
         """
         return self.right + self.left
 
-    cpdef inline np.int32_t isempty(ContinuousSet self):
+    cpdef inline np.int32_t isempty(ContinuousSet self) except? -1:
         """
         Check if this interval is empty.
         :return: boolean describing if this is empty or not.
@@ -670,28 +670,28 @@ cdef class ContinuousSet(NumberSet):
             return not self.isclosed()
         return self.lower + eps >= self.upper and self.itype() == OPEN
 
-    cpdef inline np.int32_t isclosed(ContinuousSet self):
+    cpdef inline np.int32_t isclosed(ContinuousSet self) except? -1:
         """
         Check if this interval is closed.
         :return: boolean describing is this is closed or not.
         """
         return self.itype() == CLOSED
 
-    cpdef inline np.int32_t isninf(ContinuousSet self):
+    cpdef inline np.int32_t isninf(ContinuousSet self) except? -1:
         """
         Check if this interval is infinite to the left (negative infty)
         :return: 
         """
         return np.isinf(self.lower)
 
-    cpdef inline np.int32_t ispinf(ContinuousSet self):
+    cpdef inline np.int32_t ispinf(ContinuousSet self) except? -1:
         """
         Check if this interval is infinite to the right (positive infty)
         :return: 
         """
         return np.isinf(self.upper)
 
-    cpdef inline np.int32_t isinf(ContinuousSet self):
+    cpdef inline np.int32_t isinf(ContinuousSet self) except? -1:
         """
         Check if this interval is infinite to the right (positive infty)
         :return: 
@@ -862,7 +862,7 @@ cdef class ContinuousSet(NumberSet):
         """
         return ContinuousSet(self.lower, self.upper, self.left, self.right)
 
-    cpdef inline np.int32_t contains_value(ContinuousSet self, DTYPE_t value):
+    cpdef inline np.int32_t contains_value(ContinuousSet self, DTYPE_t value) except? -1:
         """
         Checks if ``value`` lies in interval
         :param value: the value
@@ -874,7 +874,7 @@ cdef class ContinuousSet(NumberSet):
             ContinuousSet self,
             NumberSet other,
             int proper_containment=False
-    ):
+    ) except? -1:
         """
         Checks if ``other`` lies in interval.
        
@@ -904,7 +904,7 @@ cdef class ContinuousSet(NumberSet):
                 return False
         return True
 
-    cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other):
+    cpdef inline np.int32_t contiguous(ContinuousSet self, ContinuousSet other) except? -1:
         """
         Checks if this interval and the given interval are contiguous.
         :param other: the other interval
@@ -916,7 +916,7 @@ cdef class ContinuousSet(NumberSet):
             return True
         return False
 
-    cpdef inline np.int32_t intersects(ContinuousSet self, NumberSet other):
+    cpdef inline np.int32_t intersects(ContinuousSet self, NumberSet other) except? -1:
         """
         Checks whether the this interval intersects with ``other``.
 
@@ -937,7 +937,7 @@ cdef class ContinuousSet(NumberSet):
             return False
         return True
 
-    cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other):
+    cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other) except? -1:
         """
         Check if ``other`` and this are disjoint, i. e. do not intersect.
         :param other: the other NumberSet
@@ -1080,7 +1080,7 @@ cdef class ContinuousSet(NumberSet):
         """
         return R.difference(self)
 
-    cpdef inline DTYPE_t size(ContinuousSet self):
+    cpdef inline DTYPE_t size(ContinuousSet self) except? -1:
         """
         Alternative to __len__ but may return float (inf)
         :return: The amount of numbers in this ``ContinuousSet``
@@ -1091,7 +1091,7 @@ cdef class ContinuousSet(NumberSet):
             return 1
         return np.inf
 
-    cpdef inline DTYPE_t fst(ContinuousSet self):
+    cpdef inline DTYPE_t fst(ContinuousSet self) except? -1:
         """
         Get the lowest value in this interval or nan if it's empty.
         :return: the lowest value as float
@@ -1106,13 +1106,13 @@ cdef class ContinuousSet(NumberSet):
         else:
             return np.finfo(np.float64).min
 
-    cpdef inline DTYPE_t uppermost(ContinuousSet self):
+    cpdef inline DTYPE_t uppermost(ContinuousSet self) except? -1:
         """
         :return: The highest computer-representable value in this ``ContinuousSet``.
         """
         return self.upper if self.right == _INC else np.nextafter(self.upper, self.upper - 1)
 
-    cpdef inline DTYPE_t lowermost(ContinuousSet self):
+    cpdef inline DTYPE_t lowermost(ContinuousSet self) except? -1:
         """
         :return: The lowest computer-representable value in this ``ContinuousSet``.
         """
diff --git a/src/jpt/distributions/quantile/cdfreg.pxd b/src/jpt/distributions/quantile/cdfreg.pxd
index 594f327..23a575d 100644
--- a/src/jpt/distributions/quantile/cdfreg.pxd
+++ b/src/jpt/distributions/quantile/cdfreg.pxd
@@ -17,7 +17,7 @@ cdef class CDFRegressor:
     cdef deque[SIZE_t] points
     cdef deque[(SIZE_t, SIZE_t, DTYPE_t, SIZE_t)] _queue
 
-    cpdef void fit(self, DTYPE_t[:, ::1] data)
+    cpdef void fit(self, DTYPE_t[:, ::1] data) except *
 
     cdef inline void _forward(CDFRegressor self,
                               SIZE_t start,
diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index b461e30..2bd1849 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -25,7 +25,7 @@ cdef class CDFRegressor:
     def support_points(self):
         return np.array([self.data[:, i] for i in self.points])
 
-    cpdef void fit(self, DTYPE_t[:, ::1] data):
+    cpdef void fit(self, DTYPE_t[:, ::1] data) except *:
         self.data = data
         cdef SIZE_t n_samples = self.data.shape[1]
 
diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index f985898..9a23bbc 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -76,7 +76,7 @@ cpdef inline DTYPE_t _compute_var_improvements(
     SIZE_t samples_left,
     SIZE_t samples_right,
     SIZE_t skip_idx=-1
-):
+) except? -1:
     """Python-callable version for testing only."""
     return compute_var_improvements(
         variances_total,
@@ -121,7 +121,7 @@ cpdef inline void _sum_at(
     SIZE_t[::1] rows,
     SIZE_t[::1] cols,
     DTYPE_t[::1] result
-):
+) except *:
     """Python-callable version for testing only."""
     sum_at(M, rows, cols, result)
 
@@ -160,7 +160,7 @@ cpdef inline void _sq_sum_at(
     SIZE_t[::1] rows,
     SIZE_t[::1] cols,
     DTYPE_t[::1] result
-):
+) except *:
     """Python-callable version for testing only."""
     sq_sum_at(M, rows, cols, result)
 
@@ -206,7 +206,7 @@ cpdef inline void _variances(
     DTYPE_t[::1] sums,
     SIZE_t n_samples,
     DTYPE_t[::1] result
-):
+) except *:
     """Python-callable version for testing only."""
     variances(sq_sums, sums, n_samples, result)
 
@@ -671,7 +671,7 @@ cdef class Impurity:
             dtype=np.int64
         )
 
-    cpdef int has_numeric_vars_(Impurity self, SIZE_t except_var=-1):
+    cpdef int has_numeric_vars_(Impurity self, SIZE_t except_var=-1) except? -1:
         '''Python variant of ``has_numeric_vars()`` for testing purpose only.'''
         return self.has_numeric_vars(except_var)
 
@@ -745,7 +745,7 @@ cdef class Impurity:
             if self.invert_impurity[i]:
                 result[i] = 1 - result[i]
 
-    cpdef SIZE_t _col_is_constant(Impurity self, SIZE_t start, SIZE_t end, SIZE_t col):
+    cpdef SIZE_t _col_is_constant(Impurity self, SIZE_t start, SIZE_t end, SIZE_t col) except? -1:
         '''For testing only.'''
         return self.col_is_constant(start, end, col)
 
-- 
2.43.0


From a2ef1848dad4e3456fc377cd89989cb68b573d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:01 +0000
Subject: [PATCH 43/61] fix: a failing update or fit of a distribution must
 leave it as it was

---
 src/jpt/distributions/quantile/quantiles.pyx  | 36 +++++++++----------
 src/jpt/distributions/univariate/integer.py   | 12 +++----
 .../distributions/univariate/multinomial.py   | 12 +++----
 src/jpt/distributions/univariate/numeric.py   | 10 +++---
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index ce3f81c..1514223 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -212,34 +212,34 @@ cdef class QuantileDistribution:
         cdef DTYPE_t[::1] x, y
         n_samples = count
 
-        self._ppf = self._pdf = None
+        # The distribution stays as it is unless fitting succeeds
+        cdef PiecewiseFunction cdf = PiecewiseFunction()
         if n_samples > 1:
             regressor = CDFRegressor(eps=self.epsilon)
             regressor.fit(data_buffer)
-            self._cdf = PiecewiseFunction()
-            self._cdf.functions.append(ConstantFunction(0))
-            self._cdf.intervals.append(ContinuousSet(np.NINF, np.PINF, EXC, EXC))
+            cdf.functions.append(ConstantFunction(0))
+            cdf.intervals.append(ContinuousSet(np.NINF, np.PINF, EXC, EXC))
             for left, right in pairwise(regressor.support_points):
-                self._cdf.functions.append(LinearFunction.from_points(tuple(left), tuple(right)))
-                self._cdf.intervals[-1].upper = left[0]
-                self._cdf.intervals.append(ContinuousSet(left[0], right[0], 1, 2))
+                cdf.functions.append(LinearFunction.from_points(tuple(left), tuple(right)))
+                cdf.intervals[-1].upper = left[0]
+                cdf.intervals.append(ContinuousSet(left[0], right[0], 1, 2))
 
             # overwrite right most interval by an interval with an including right border
-            self._cdf.intervals[-1] = ContinuousSet(self._cdf.intervals[-1].lower,
-                                                    np.nextafter(self._cdf.intervals[-1].upper,
-                                                                 self._cdf.intervals[-1].upper + 1), INC, EXC)
+            cdf.intervals[-1] = ContinuousSet(cdf.intervals[-1].lower,
+                                                    np.nextafter(cdf.intervals[-1].upper,
+                                                                 cdf.intervals[-1].upper + 1), INC, EXC)
 
-            self._cdf.functions.append(ConstantFunction(1))
-            self._cdf.intervals.append(ContinuousSet(self._cdf.intervals[-1].upper, np.PINF, INC, EXC))
+            cdf.functions.append(ConstantFunction(1))
+            cdf.intervals.append(ContinuousSet(cdf.intervals[-1].upper, np.PINF, INC, EXC))
         else:
             x = data_buffer[0, :]
             y = data_buffer[1, :]
-            self._cdf = PiecewiseFunction()
-            self._cdf.intervals.append(ContinuousSet(np.NINF, x[0], EXC, EXC))
-            self._cdf.functions.append(ConstantFunction(0))
-            self._cdf.intervals.append(ContinuousSet(x[0], np.PINF, INC, EXC))
-            self._cdf.functions.append(ConstantFunction(1))
+            cdf.intervals.append(ContinuousSet(np.NINF, x[0], EXC, EXC))
+            cdf.functions.append(ConstantFunction(0))
+            cdf.intervals.append(ContinuousSet(x[0], np.PINF, INC, EXC))
+            cdf.functions.append(ConstantFunction(1))
 
+        self.cdf = cdf
         self._assert_consistency()
 
         return self
@@ -383,8 +383,8 @@ cdef class QuantileDistribution:
 
     @pdf.setter
     def pdf(self, pdf):
-        self._pdf = pdf
         self._cdf = QuantileDistribution.pdf_to_cdf(pdf)
+        self._pdf = pdf
         self._ppf = None
 
     @property
diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index c74ab14..6ae1c60 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -358,10 +358,9 @@ class Integer(Distribution):
         if not 0 <= weight <= 1:
             raise ValueError('Weight must be in [0, 1]')
 
-        if self._params is None:
-            self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        params = np.zeros(self.n_values) if self._params is None else self._params * (1 - weight)
+        params += dist._params * weight
+        self._params = params
 
         return self
 
@@ -390,14 +389,15 @@ class Integer(Distribution):
             rows: np.ndarray = None,
             col: int = None
     ) -> 'Integer':
-        self._params = np.zeros(
+        params = np.zeros(
             shape=self.n_values,
             dtype=np.float64
         )
         n_samples = ifnone(rows, len(data), len)
         col = ifnone(col, 0)
         for row in ifnone(rows, range(data.shape[0])):
-            self._params[int(data[row, col])] += 1 / n_samples
+            params[int(data[row, col])] += 1 / n_samples
+        self._params = params
 
         return self
 
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index ed20a33..27d39c2 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -406,11 +406,12 @@ class Multinomial(Distribution):
             col: int = None
         ) -> 'Multinomial':
 
-        self._params = np.zeros(shape=self.n_values, dtype=np.float64)
+        params = np.zeros(shape=self.n_values, dtype=np.float64)
         n_samples = ifnone(rows, len(data), len)
         col = ifnone(col, 0)
         for row in ifnone(rows, range(len(data))):
-            self._params[int(data[row, col])] += 1 / n_samples
+            params[int(data[row, col])] += 1 / n_samples
+        self._params = params
         return self
 
     def set(
@@ -440,10 +441,9 @@ class Multinomial(Distribution):
         '''
         if not 0 <= weight <= 1:
             raise ValueError('Weight must be in [0, 1], got %s' % weight)
-        if self._params is None:
-            self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        params = np.zeros(self.n_values) if self._params is None else self._params * (1 - weight)
+        params += dist._params * weight
+        self._params = params
 
         return self
 
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index b2f4570..70fc9cb 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -175,12 +175,13 @@ class Numeric(Distribution):
 
     def create_dirac_impulse(self, value):
         """Create a dirac impulse at the given value aus quantile distribution."""
-        self._quantile = QuantileDistribution()
-        self._quantile.fit(
+        quantile = QuantileDistribution()
+        quantile.fit(
             np.asarray([[value]], dtype=np.float64),
             rows=np.asarray([0], dtype=np.int64),
             col=0
         )
+        self._quantile = quantile
         return self
 
     def is_dirac_impulse(self) -> bool:
@@ -247,8 +248,8 @@ class Numeric(Distribution):
             rows: np.ndarray = None,
             col: numbers.Integral = None
     ) -> 'Numeric':
-        self._quantile = QuantileDistribution(epsilon=self.precision)
-        self._quantile.fit(
+        quantile = QuantileDistribution(epsilon=self.precision)
+        quantile.fit(
             data,
             rows=ifnone(
                 rows,
@@ -256,6 +257,7 @@ class Numeric(Distribution):
             ),
             col=ifnone(col, 0)
         )
+        self._quantile = quantile
         return self
 
     fit = _fit
-- 
2.43.0


From d3318e2c97575acb43b5b28b741612d1aa6c2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:12 +0000
Subject: [PATCH 44/61] fix: a failing fit must leave a sequence model as it
 was

---
 src/jpt/sequential_trees.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 4ffce5e..1b5f300 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -82,6 +82,26 @@ class SequentialJPT:
         # fit joint timesteps tree
         expanded_template_tree.learn(data=data)
 
+        # the model stays as it is unless fitting succeeds
+        state = {
+            attr: getattr(self.template_tree, attr) for attr in (
+                'root',
+                'innernodes',
+                'leaves',
+                'priors',
+                'minimal_distances'
+            )
+        }
+        try:
+            self._fit(expanded_template_tree, sequences)
+        except BaseException:
+            self.template_tree.__dict__.update(state)
+            raise
+
+    def _fit(self, expanded_template_tree: JPT, sequences: List[np.ndarray]):
+        """
+        Replace the template tree and the transition model by those of the expanded tree.
+        """
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
-- 
2.43.0


From 8d631a79e6ee463f5bb1b3f533a9e9ca2f7c7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:34 +0000
Subject: [PATCH 45/61] fix: impossible evidence on a variable with numeric
 labels must raise Unsatisfiability

Formatting the message took the labels of the evidence for values and
failed with a KeyError.
---
 src/jpt/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 173540e..fea450c 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -451,7 +451,8 @@ class SymbolicVariable(Variable):
             elif fmt == 'logic':
                 return ' v '.join([self.str(a, fmt=fmt) for a in assignment])
         if isinstance(assignment, numbers.Number):
-            return '%s = %s' % (self.name, self.domain.labels[assignment])
+            # evidence may hold labels instead of values
+            return '%s = %s' % (self.name, self.domain.labels[assignment] if assignment in self.domain.labels else assignment)
         else:
             return '%s = %s' % (self.name, str(assignment))
 
-- 
2.43.0


From 64e04223a01a747429bc8e1660ea950fc03f5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:43 +0000
Subject: [PATCH 46/61] fix: moments are those of labels, so must be the
 constants they are taken around

moment() converted the constants to the space of the values, but subtracted
them from labels.
---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 7b5a8ca..2a9dce7 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2613,9 +2613,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # The moments are those of the labels, convert c if necessary
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From 34f23fb8b559cf21c932e77eb104f6802a36e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 47/61] fix: the last merge of the backward CDF regression must
 count the points of its segment's start

---
 src/jpt/distributions/quantile/cdfreg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index 2bd1849..e4c60b7 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -155,7 +155,7 @@ cdef class CDFRegressor:
         self._points.pop()
 
         cdef:
-            SIZE_t pos = self._points.top(), start
+            SIZE_t pos = self.points.front(), start
             DTYPE_t lx, ly, rx, ry, m, c, err
             int keep_p
 
-- 
2.43.0


From 2d2006a2f17f51b759f5c17506c4a8c0284bb99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 48/61] fix: the Gini impurity of a discriminative tree must
 use the domain sizes of its symbolic targets

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 9a23bbc..30299f4 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From 2daf780509eaec01a4f42babb2ed656d9ddc5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:45 +0000
Subject: [PATCH 49/61] fix: sample counts of a split candidate must be reset
 also without symbolic targets

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 30299f4..b6a7278 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1133,6 +1133,7 @@ cdef class Impurity:
 
             # if this variable is symbolic
             if symbolic:
+                self.num_samples[...] = 0
 
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
@@ -1140,7 +1141,6 @@ cdef class Impurity:
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From 0eb4e7467c71a127fa2e6a8e1043819b16311050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 50/61] fix: leaves on whose bounds a value lies are judged by
 their half-open paths

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 2a9dce7..10132da 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -46,7 +46,7 @@ except ModuleNotFoundError:
     import pyximport
     pyximport.install()
 finally:
-    from .base.intervals import ContinuousSet as Interval, EXC, INC, R, ContinuousSet, RealSet
+    from .base.intervals import ContinuousSet as Interval, EXC, INC, R, ContinuousSet, RealSet, NumberSet
     from .learning.impurity import Impurity
     from .base.functions import PiecewiseFunction, Undefined
 
@@ -123,7 +123,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, NumberSet):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
@@ -131,7 +131,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if not restriction.contains_value(value):
                             return False
 
                 # if the variable is symbolic or integer
-- 
2.43.0


From b95e7385a3b833307ca349bf99df2f24034cb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 51/61] fix: simplifying a union of intervals leaves it alone
 and keeps all parts

---
 src/jpt/base/intervals.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 53e2114..7d408a5 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -468,7 +468,7 @@ cdef class RealSet(NumberSet):
         while tail:
             head, tail_ = first(chop(tail))
             if not head.isempty():
-                intervals.append(head)
+                intervals.append(head.copy())
             tail = []
             for subset in tail_:
                 diff = subset.difference(head)
@@ -477,8 +477,8 @@ cdef class RealSet(NumberSet):
                 else:
                     tail.extend(diff.intervals)
         if not intervals:
-            return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
+            return EMPTY.copy()
+        head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'upper'))))
         intervals = [head]
         for subset in tail:
             if intervals[-1].contiguous(subset):
@@ -611,7 +611,7 @@ cdef class ContinuousSet(NumberSet):
         :return: The corresponding ContinuousSet
         """
         if s == _EMPTYSET:
-            return EMPTY
+            return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
         tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
 
-- 
2.43.0


From ad08d3cee18877ef7af2fa50abd54b9f0c45db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 52/61] fix: equal sets of numbers hash alike

---
 src/jpt/base/intervals.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 7d408a5..417f02e 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,10 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1297,8 +1297,10 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
+        if self.isempty():
+            return hash(ContinuousSet)
         return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
+            (ContinuousSet, self.min, self.max)
         )
 
     def __getstate__(self):
-- 
2.43.0


From 97425eb590bce5889d9d36074ea95eafb6da730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 53/61] fix: sampling a union of intervals with empty parts

---
 src/jpt/base/intervals.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 417f02e..5c5b86a 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -274,8 +274,8 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
-        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+        nonempty = [i_ for i_ in self.intervals if i_.size()]
+        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower) for i_ in nonempty], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -287,7 +287,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    nonempty[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From 3b1deab09b94164ac8621f5e71186f2b6a9183ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 54/61] fix: a union of adjoining intervals contains what spans
 them

---
 src/jpt/base/intervals.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5c5b86a..2841c3c 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -311,8 +311,11 @@ cdef class RealSet(NumberSet):
         """
         if isinstance(other, RealSet):
             return all([self.contains_interval(i) for i in other.intervals])
+        cdef NumberSet simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return simplified.contains_interval(other)
         cdef ContinuousSet s
-        for s in self.intervals:
+        for s in simplified.intervals:
             if s.contains_interval(other):
                 return True
         return False
-- 
2.43.0


From 3495aeb9b5bf28632f8645e6784c8365bbac36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 55/61] fix: chopping a union of one interval, and at points
 given once

---
 src/jpt/base/intervals.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 2841c3c..6edee31 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -531,7 +531,9 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        points = list(points)
+        simplified = self.simplify()
+        for i in (simplified.intervals if isinstance(simplified, RealSet) else [simplified]):
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 4a2673cf131d77bfa9f819d7ac3946d5dc733f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 56/61] fix: an empty interval intersects nothing

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 6edee31..1584fae 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -930,7 +930,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
-- 
2.43.0


From 0d64a1a123a28e786270b8f1df0a1ce3b695f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 57/61] fix: simplified and rounded functions share nothing
 with their source

---
 src/jpt/base/functions.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 236b2b1..7a736c0 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1111,7 +1111,7 @@ cdef class PiecewiseFunction(Function):
             if x in interval:
                 return interval
         else:
-            return EMPTY
+            return EMPTY.copy()
 
     cpdef Function set(self, Function f):
         if not isinstance(f, PiecewiseFunction):
@@ -1536,8 +1536,8 @@ cdef class PiecewiseFunction(Function):
 
         plf = PiecewiseFunction()
         for interval, function in zip(self.intervals, self.functions):
+            interval = interval.copy()
             if include_intervals:
-                interval = interval.copy()
                 interval.lower = round_(interval.lower) if not np.isinf(interval.lower) else interval.lower
                 interval.upper = round_(interval.upper) if not np.isinf(interval.upper) else interval.upper
             plf.intervals.append(interval)
@@ -1568,14 +1568,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
         return plf
 
     @staticmethod
-- 
2.43.0


From abf00ee7e9de9bdc8427ff397ea1fce107596348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 58/61] fix: comparing an undefined with a linear function

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 7a736c0..b8513f2 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -176,7 +176,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and any((np.isnan(other.m), np.isnan(other.c))):
             return True
         return False
 
-- 
2.43.0


From 5c6add38d9e494eea3ef59be8e169e715564ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 59/61] fix: adding and multiplying functions of which one has
 a gap

---
 src/jpt/base/functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index b8513f2..5db740f 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1129,7 +1129,7 @@ cdef class PiecewiseFunction(Function):
             return result
         elif isinstance(f, PiecewiseFunction):
             domain = RealSet(self.intervals).intersections(RealSet(f.intervals))
-            undefined = self.domain().union(f.domain()).difference(domain)
+            undefined = RealSet(self.intervals).union(RealSet(f.intervals)).difference(domain)
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
             result = PiecewiseFunction.from_dict({
@@ -1165,8 +1165,8 @@ cdef class PiecewiseFunction(Function):
                 RealSet(f.intervals)
             )
 
-            undefined = self.domain().union(
-                f.domain()
+            undefined = RealSet(self.intervals).union(
+                RealSet(f.intervals)
             ).difference(domain)
 
             if not isinstance(undefined, RealSet):
-- 
2.43.0


From 5bbf6a5f677d145f7ddb6e9d20e964c291b1c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 60/61] fix: functions cropped to an unbounded interval stay
 open at infinity

---
 src/jpt/base/functions.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 5db740f..211abf5 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1499,6 +1499,8 @@ cdef class PiecewiseFunction(Function):
         for i, f in self.iter():
             if i.intersects(interval):
                 intersection = i.intersection(interval, left=INC, right=EXC)
+                if intersection.isninf():
+                    intersection.left = EXC
                 result.intervals.append(intersection)
                 result.functions.append(f.copy())
         return result
-- 
2.43.0


From ca069277e0b9b5e5e83f71287f77cec3eb70dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 61/61] fix: minimum and maximum of linear functions on
 unbounded intervals

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 211abf5..8809b96 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1595,7 +1595,10 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if i.isinf():  # Any inner point will do, as the functions do not cross within the interval
+                i_center = 0 if i.isninf() and i.ispinf() else (i.max - 1 if i.isninf() else i.min + 1)
+            else:
+                i_center = (i.min + i.max) * .5
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0

