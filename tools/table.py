S = 'seeded deterministic simulation'
PROPS = [
 dict(id='C01', title='Concurrent queries on a shared model answer as if each ran alone',
  statement='When several threads query the same model at the same time, every query returns exactly the answer it returns when it '
   'runs alone on that model, whatever way the threads interleave. The model itself is the same afterwards, no query hangs and none fails that would not fail alone.',
  over=['schedules', 'inputs', 'configurations'], text='all interleavings at byte-code boundaries of 2-4 clients issuing any mix of inference, conditioning, explanation, density, '
   'pruning, copying and serialisation queries on any learned or derived model',
  why='The suite never runs two queries at once; a test that did would sample one interleaving chosen by the operating system.',
  files=['src/jpt/trees.py', 'src/jpt/variables.py', 'src/jpt/inference/mpe.py', 'src/jpt/distributions/univariate/distribution.py'],
  mechanism=[('queries work on copies and build fresh results', 'src/jpt/trees.py: infer, posterior, conditional_jpt, kmpe, prune'),
             ('paths and densities are derived on demand', 'src/jpt/trees.py: Node.path; src/jpt/distributions/univariate/numeric.py: pdf')],
  observe=['answers of the public query methods', 'serialised form of the model'],
  technique=S + ' of client threads (controlled scheduler, preemption at byte-code events), answers compared with solo runs',
  note='Seeded search over interleavings; complete only for what was explored. Trusts that compiled parts keep the interpreter lock (no nogil code exists in the sources).'),
 dict(id='C02', title='Queries leave the model and the objects of the caller untouched',
  statement='No query changes the model it is asked of, nor any object its caller passed in, whether it succeeds, finds the evidence impossible, raises, is only partly consumed, '
   'or is cut short by an asynchronous exception. After any history of such queries the model is identical to before and answers every further query as the pristine model does.',
  over=['histories', 'fault_sequences', 'inputs'], text='all finite histories of queries over any evidence, each optionally interrupted at any event inside the library',
  why='Tests issue one query against an expected number; nobody looks at the model afterwards, after failures, or after an interruption at an arbitrary point.',
  files=['src/jpt/trees.py', 'src/jpt/variables.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py'],
  mechanism=[('cropping creates new distributions', 'src/jpt/distributions/univariate/*.py: _crop'), ('conditioning copies the tree first', 'src/jpt/trees.py: JPT.conditional_jpt, Leaf.conditional_leaf')],
  observe=['serialised form of the model', 'evidence objects', 'answers to probe queries'],
  technique=S + ' of query histories with asynchronous exceptions injected at arbitrary events; state and answers compared with the pristine model',
  note='Seeded search over histories and interruption points.'),
 dict(id='C03', title='Derived models and results are independent of their source',
  statement='A model obtained by copying, conditioning, pruning, saving and loading, or learning from the same variables, and everything a query returns, shares no changeable state with the model it came from. '
   'Changing either side in place (relearning, reweighting leaves, updating distributions, overwriting returned values), also when that change fails or is interrupted half-way or runs concurrently with queries, leaves the content and the answers of the other side as they were.',
  over=['histories', 'fault_sequences', 'schedules'], text='all derivations, both directions, all in-place changes, all interruption points and interleavings with queries on the other side',
  why='Tests compare a copy with its original once; none changes one side, in particular not by a failing or interrupted operation, and re-checks the other.',
  files=['src/jpt/trees.py', 'src/jpt/variables.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/functions.pyx'],
  mechanism=[('copies go through the serialised form', 'src/jpt/trees.py: JPT.copy, Leaf.copy'), ('distribution copies duplicate their parameters', 'src/jpt/distributions/univariate/*.py: copy, set')],
  observe=['serialised form and answers of the untouched side'],
  technique=S + ' of in-place changes (failing, interrupted, concurrent) on one side of a derivation; the other side compared with its snapshot',
  note='Seeded search over derivations, changes, interruption points and interleavings. Structure that no public operation can change in place is not judged.'),
 dict(id='C04', title='Learning is a function of the data and the settings alone',
  statement='Learning from the same data with the same variables and settings produces the same model in every process: the result does not depend on hash randomisation, memory contents, the clock, '
   'the state of random generators, what the process did before, or what other threads learn or query at the same time.',
  over=['schedules', 'configurations', 'histories'], text='all hash seeds, address layouts, contents of fresh memory, clock readings, generator states, earlier histories of the process and interleavings with other learners',
  why='The suite runs under one fixed hash seed with freshly zeroed memory and one thread, and compares learned models with constants from that configuration.',
  files=['src/jpt/trees.py', 'src/jpt/learning/impurity.pyx', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/distributions/quantile/cdfreg.pyx', 'src/jpt/variables.py'],
  mechanism=[('scratch buffers are set up before each split search', 'src/jpt/learning/impurity.pyx: Impurity.setup, compute_best_split'), ('work queue of the tree construction', 'src/jpt/trees.py: JPT.learn, c45')],
  observe=['serialised form of learned models'],
  technique=S + ': the same learning task in lanes with different hash seeds/address layouts, hostile fresh memory, jumping clock, seeded generators and interleaved learners; models compared',
  note='Seeded search; differences are sought between 2 lanes per run out of 8.'),
 dict(id='C05', title='Rejected or interrupted learning never corrupts a model or the data',
  statement='Learning never changes the data handed to it. If learning is rejected because the data does not fit the variables, the model keeps answering exactly as before; if learning is interrupted at any point, '
   'learning again gives exactly the model a fresh learner would give.',
  over=['fault_sequences', 'histories', 'inputs'], text='all interruption points and allocation failures during learning, all malformed data sets, all histories of earlier learning',
  why='No test interrupts learning or learns twice with the same object after a failure.',
  files=['src/jpt/trees.py', 'src/jpt/learning/impurity.pyx'],
  mechanism=[('data is validated and transformed before the tree is reset', 'src/jpt/trees.py: JPT._preprocess_data, JPT.learn, JPT._reset')],
  observe=['serialised form and answers after failure and after relearning', 'content of the caller\'s data'],
  technique=S + ' of learning with asynchronous exceptions, allocation failures and malformed data at seeded points; compared with a fresh learner',
  level='fault_enumeration', note='Seeded interruption points over line and byte-code events and allocations.'),
 dict(id='C06', title='A saved model loads as the same model in any process',
  statement='Loading what was saved gives a model with the same structure, variables, settings and parameters that answers every query the same, in any other process and with either protocol, from a path or a stream, '
   'and also when reads and writes are split up or interrupted by signals. Saving again reproduces an equivalent file, so any number of save and load generations loses nothing.',
  over=['inputs', 'configurations', 'fault_sequences'], text='all models (learned and derived), both protocols, path and stream targets, hash seeds and address layouts of the loading process, I/O fragmentation',
  why='Tests round-trip a few models within one process and compare with an equality that ignores most parameters.',
  files=['src/jpt/trees.py', 'src/jpt/variables.py', 'src/jpt/distributions/univariate/distribution.py', 'src/jpt/base/functions.pyx', 'src/jpt/base/intervals.pyx'],
  mechanism=[('serialised form', 'src/jpt/trees.py: to_json, from_json, __getstate__, __setstate__, save, load'), ('types are rebuilt from the file', 'src/jpt/distributions/univariate/*.py: type_to_json, type_from_json')],
  observe=['serialised form and answers of the loaded model'],
  technique=S + ' of save in one process and load in another (different hash seed and layout) over a simulated disk that fragments I/O; loaded model compared with the saved one',
  note='Seeded search over models, protocols and I/O fragmentation.'),
 dict(id='C07', title='A crash or failure while saving never loses the stored model',
  statement='At every moment during a save to a path, and whatever fails or crashes at that moment, the path holds either the complete previous model or the complete new one. '
   'A save that cannot be completed raises an error, changes nothing in memory and leaves no other file behind unless the process was killed; a save that returns has made the new model durable.',
  over=['crash_points', 'fault_sequences'], text='all crash points between and within file operations, torn writes, full disk, I/O errors on any operation, loss of unsynchronised data on power failure, for every target and protocol',
  why='Tests save to a healthy disk; a crash point or a full disk in the middle of a save never occurs there.',
  files=['src/jpt/trees.py', 'src/jpt/base/utils.py'],
  mechanism=[('content is written to a temporary file that replaces the target', 'src/jpt/base/utils.py: write_file; src/jpt/trees.py: JPT.save, JPT.pickle')],
  observe=['content of the target path and its directory after a crash, after a failure and after a simulated power loss'],
  technique=S + ' of the disk: every file operation of a save is a fault or crash point; surviving content checked against old and new model', level='fault_enumeration',
  note='Every operation of each sampled save is used as a crash point; torn lengths, errors and surviving unsynchronised writes are sampled by seed.'),
 dict(id='C08', title='Samples respect the model for every state of the random generators',
  statement='For every state of the random generators, also extreme ones, sampling returns rows whose every value is possible under the model (and under the evidence the model was conditioned on), in the order of the variables, and repeats exactly when the generators are in the same state. '
   'The model is not changed, and over many rows the frequencies match the probabilities the model assigns.',
  over=['inputs', 'configurations'], text='all generator states including those whose draws are 0 or the largest value below 1, all learned and derived models, all hash seeds',
  why='A test draws with one or two seeds; boundary draws have probability 2^-53 and never occur.',
  files=['src/jpt/trees.py', 'src/jpt/base/sampling.py', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/intervals.pyx'],
  mechanism=[('roulette wheel', 'src/jpt/base/sampling.py'), ('inverse sampling of the CDF pieces', 'src/jpt/distributions/quantile/quantiles.pyx: QuantileDistribution.sample')],
  observe=['sampled rows', 'probabilities of small sets around them'],
  technique=S + ' of the random generators (crafted states, scripted extreme draws) during sampling; rows checked against the model\'s own probabilities',
  note='Seeded search over generator states and models; the frequency test uses a distribution-free bound with error probability below 1e-9 per run.'),
 dict(id='C09', title='Most probable explanations stream in order, complete and without repeats',
  statement='Enumerating the k most probable explanations yields states of non-increasing likelihood without repetition; run to the end it yields every state of positive likelihood exactly once, asked for k it yields the first k of them, and its first likelihood is the highest there is. '
   'This holds for any number of consumers advancing at any pace, interleaved, paused or abandoned, and each next state arrives within a bounded number of steps.',
  over=['schedules', 'histories', 'inputs'], text='all interleavings of consumers of any number of enumerations over one model, with any evidence',
  why='The suite enumerates one single-leaf model from start to end with one consumer.',
  files=['src/jpt/inference/mpe.py', 'src/jpt/trees.py', 'src/jpt/base/utils.py'],
  mechanism=[('branch and bound over independent variables', 'src/jpt/inference/mpe.py: MPESolver'), ('merging the streams of the leaves', 'src/jpt/trees.py: JPT.kmpe')],
  observe=['sequence of (state, likelihood) seen by each consumer'],
  technique=S + ' of interleaved, paused and abandoned consumers; streams compared with a brute-force enumeration over the leaf distributions',
  note='Seeded search; the reference enumerates the product of the explanations of the individual distributions.'),
 dict(id='C10', title='Sequence models are a function of their sequences and respect step order',
  statement='Fitting a sequence model gives the same model whatever was fitted before with the same object and its template, in every process, and also after an interrupted fit. '
   'Every answer about step i of a sequence concerns exactly the i-th step, however long the sequence, and no query changes the model.',
  over=['histories', 'inputs', 'fault_sequences', 'configurations'], text='all histories of fits and queries, sequence lengths from 1 to beyond 10 steps, interruption points, hash seeds',
  why='Tests fit once and query sequences of two to three steps.',
  files=['src/jpt/sequential_trees.py'],
  mechanism=[('shared template tree and its transition factors', 'src/jpt/sequential_trees.py: SequentialJPT.fit'), ('naming of the unrolled steps', 'src/jpt/sequential_trees.py: ground, independent_marginals')],
  observe=['likelihoods and marginals', 'template model'],
  technique=S + ' of fit/query histories with interruptions in several lanes; compared with a fresh fit and with step-wise reference sums',
  note='Seeded search over histories.'),
 dict(id='C11', title='Conditioning composes: order, splitting and restarts do not matter',
  statement='Conditioning on evidence piece by piece, in any order, with copies, saves, loads and process restarts in between, yields a model that gives the same answers as conditioning once on all of it, and it is found impossible in one way exactly if it is in the other. '
   'The probability of the whole evidence equals the product of the probabilities of the pieces along the way.',
  over=['histories', 'inputs', 'configurations'], text='all ways to split and order evidence, all interleavings of derivation steps and restarts',
  why='Tests condition once; conditioning a conditional model is exercised nowhere.',
  files=['src/jpt/trees.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/quantile/quantiles.pyx'],
  mechanism=[('removal of impossible leaves and renormalisation', 'src/jpt/trees.py: JPT.conditional_jpt'), ('cropping', 'src/jpt/distributions/univariate/*.py: _crop')],
  observe=['answers of the resulting models', 'probability of the evidence'],
  technique=S + ' of derivation histories with process restarts (other lane); compared with conditioning once',
  note='Seeded search over evidence splits; numeric answers compared with tolerance 1e-6.'),
 dict(id='C12', title='In-place updates happen completely or not at all',
  statement='An operation that changes a model or a distribution in place and raises, because its arguments are bad, because the result would be impossible, or because memory runs out, leaves the object exactly as it was.',
  over=['fault_sequences', 'inputs'], text='all in-place operations, all bad arguments and all allocations that can fail during them',
  why='Tests check at most that an exception is raised, not what the object looks like afterwards.',
  files=['src/jpt/trees.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py'],
  mechanism=[('results are computed before they are assigned', 'src/jpt/trees.py: multiply_by_leaf_prior, normalize; src/jpt/distributions/univariate/*.py: set, update, fit')],
  observe=['serialised form before and after the failed operation'],
  technique=S + ' of failing updates (bad arguments, allocation failures at every point); object compared with its snapshot', level='fault_enumeration',
  note='Every allocation of each sampled update is failed once, plus seeded bad arguments.'),
 dict(id='C13', title='A saved model gives the same answers in every process',
  statement='The answers of a saved model to any query, including their order where the result is ordered, do not depend on the process that asks: hash randomisation, memory layout, contents of fresh memory and earlier queries make no difference.',
  over=['configurations', 'histories', 'inputs'], text='all hash seeds, address layouts and contents of fresh memory, all queries on all models',
  why='The suite runs under one hash seed.',
  files=['src/jpt/trees.py', 'src/jpt/variables.py', 'src/jpt/inference/mpe.py', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/functions.pyx'],
  mechanism=[('results are keyed and ordered by variables', 'src/jpt/variables.py: VariableMap'), ('numeric kernels initialise their buffers', 'src/jpt/base/functions.pyx, src/jpt/distributions/quantile/quantiles.pyx')],
  observe=['answers in different processes'],
  technique=S + ': one saved model queried in two processes with different hash seeds, layouts and hostile fresh memory; answers compared',
  note='Seeded search, 2 of 8 lanes per run.'),
 dict(id='C14', title='Running out of memory is an error, never a wrong answer',
  statement='If an allocation fails at any point of a query, of learning or of loading, the operation either raises or still returns the right result; it never returns a wrong one, never crashes the process, and the same operation succeeds afterwards.',
  over=['fault_sequences'], text='all operations and all array allocations within them, failing once or from then on',
  why='No test makes an allocation fail.',
  files=['src/jpt/learning/impurity.pyx', 'src/jpt/base/functions.pyx', 'src/jpt/base/intervals.pyx', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/distributions/quantile/cdfreg.pyx'],
  mechanism=[('errors propagate out of the compiled parts', '*.pyx: functions that return objects or declare an exception value')],
  observe=['answers and exceptions with a failing allocator', 'answers afterwards'],
  technique=S + ' of the array allocator: each allocation of an operation fails once; result compared with the undisturbed one', level='fault_enumeration',
  note='Allocations through numpy are injected; allocations by the interpreter itself are not.'),
 dict(id='C15', title='Every model in any history of operations stays a probability model',
  statement='After any history of learning, conditioning, pruning, reweighting, copying, saving, loading and restarting, also when some of these fail or derivations and queries are interrupted at any point, every model at hand is a probability model: its leaves have non-negative probabilities that sum to one and exactly one leaf applies to each complete row, '
   'every distribution assigns probability one to its whole domain and never decreases with growing sets, the quantile function of every numeric distribution inverts its cumulative distribution function, and every answered probability lies between zero and one.',
  over=['histories', 'fault_sequences', 'inputs'], text='all histories of operations and interruptions; invariants evaluated after each step on all live models',
  why='Tests check single results of single operations on fresh models, not what long histories do to them.',
  files=['src/jpt/trees.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/functions.pyx'],
  mechanism=[('renormalisation after conditioning and reweighting', 'src/jpt/trees.py: conditional_jpt, normalize'), ('merging and cropping of distributions', 'src/jpt/distributions/univariate/*.py')],
  observe=['leaf probabilities, paths, CDFs, masses and answers of all live models after every step'],
  technique=S + ' of long histories over a pool of live models with failures and interruptions; invariants checked after each step',
  note='Seeded search over histories; tolerance 1e-6.'),
 dict(id='C16', title='Along any history, answers and derived models are those of the mixture of leaves',
  statement='Whatever happened to a model before - conditioning, pruning, reweighting leaves, copying, saving, loading, restarting, relearning, queries, rejected and interrupted operations - its answers are those of the mixture its leaves denote: '
   'the probability of a query given evidence, posterior distributions, expectations and moments, densities of complete assignments, likelihoods of data, the leaves that apply to evidence and those that rows belong to, also on the very bounds of leaves. Conditioning and reweighting change that mixture by Bayes\' rule, pruning keeps its marginals, copies and reloads keep it entirely, and everything else leaves it as it was.',
  over=['histories', 'fault_sequences', 'inputs'], text='all histories of derivations, in-place changes, failures, interruptions and restarts over a pool of live models; every model concerned is compared with a reference model after each step',
  why='Tests compare a few answers of freshly learned models with constants; nobody computes what the answers must be after a long history.',
  files=['src/jpt/trees.py', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/base/functions.pyx', 'src/jpt/base/intervals.pyx'],
  mechanism=[('sum over the leaves that apply', 'src/jpt/trees.py: infer, posterior, expectation, pdf, apply'), ('conditioning, merging and reweighting', 'src/jpt/trees.py: conditional_jpt, prune, multiply_by_leaf_prior; src/jpt/distributions/univariate/*.py: _crop, merge')],
  observe=['answers of all live models', 'leaf probabilities and distributions of derived models'],
  technique=S + ' of long histories over a pool of live models with failures, interruptions and a process restart; refinement of an executable reference model checked after every step',
  note='Seeded search over histories; tolerance 1e-6; evidence of probability below 1e-6 and single values of continuous variables are not judged.'),
 dict(id='C17', title='Whatever happened before and meanwhile, a learned tree represents its training data',
  statement='After any history of learning attempts on a learner - complete, rejected, interrupted or out of memory, while other threads learn or query, whatever other work was done in the process, and after storing and loading - the tree that stands is that of the last complete training data: '
   'every training row belongs to exactly one leaf, leaf probabilities are the shares of rows, sample counts are the numbers of rows, every leaf respects the required number of rows, the depth respects its limit, '
   'and in each leaf the distributions of symbolic and integer variables are the relative frequencies of its rows.',
  over=['histories', 'fault_sequences', 'schedules', 'inputs'], text='all histories of learning attempts, schedules of concurrent work, memory contents, data sets and settings; the standing tree is compared with what its last training data demand',
  why='Tests learn a handful of data sets in a fresh process and compare a few numbers.',
  files=['src/jpt/trees.py', 'src/jpt/learning/impurity.pyx', 'src/jpt/distributions/univariate/multinomial.py', 'src/jpt/distributions/univariate/integer.py'],
  mechanism=[('recursive partitioning and leaf construction', 'src/jpt/trees.py: learn, c45'), ('partition of the sample indices', 'src/jpt/learning/impurity.pyx: compute_best_split, move_best_values_to_front')],
  observe=['paths, sizes, probabilities and distributions of the leaves after every learning attempt'],
  technique=S + ' of histories of learning with failures, concurrent learners and hostile memory; refinement of an executable reference of a learned tree',
  note='Seeded search; finite numbers only.'),
 dict(id='C18', title='Whatever happened before and meanwhile, every split is the best admissible one',
  statement='After any history of learning attempts on a learner - complete, rejected, interrupted or out of memory, while other threads learn or query, whatever other work was done in the process, and after storing and loading - at every inner node of the tree that stands no admissible split of its training rows '
   '(one leaving enough rows on either side, on a feature variable) gains more by the impurity of the targets than the chosen one, up to rounding; no node is split whose best gain is below the required one, and no node is left a leaf while the limits permit a split that gains enough. The gain combines the symbolic and the numeric targets as the library does.',
  over=['histories', 'fault_sequences', 'schedules', 'inputs'], text='all histories of learning attempts, schedules of concurrent work, memory contents, data sets and settings; every node of the standing tree is compared with all admissible splits of its rows',
  why='Tests compare a few splits of small data sets with constants.',
  files=['src/jpt/learning/impurity.pyx', 'src/jpt/trees.py'],
  mechanism=[('incremental statistics along the sorted rows of each feature', 'src/jpt/learning/impurity.pyx: evaluate_variable'), ('stopping rules', 'src/jpt/trees.py: c45')],
  observe=['decision variable and split value of every inner node, rows of every leaf'],
  technique=S + ' of histories of learning with failures, concurrent learners and hostile memory; every node compared with an exhaustive reference of its splits',
  note='Seeded search; models with partial dependencies and nodes whose gains are rounding errors are not judged.'),
 dict(id='C19', title='Whatever happened before and meanwhile, learned numeric distributions follow their samples',
  statement='After any history of learning attempts on a learner - complete, rejected, interrupted or out of memory, while other threads learn or query, whatever other work was done in the process, and after storing and loading - the cumulative distribution of every numeric variable in every leaf of the tree that stands runs from zero to one between the smallest and the largest sample of that leaf (where gaps are to be closed, one part in twice the number of training rows is spread over the gaps to neighbouring leaves instead), '
   'its corners are points of the empirical distribution of those samples, and on each of its stretches the mean squared deviation from the empirical distribution is within the required precision unless no single further corner would reduce it.',
  over=['histories', 'fault_sequences', 'schedules', 'inputs'], text='all histories of learning attempts, schedules of concurrent work, memory contents, samples and precisions; every numeric distribution of the standing tree is compared with the empirical one of its rows',
  why='Tests fit a few samples and compare the result with constants.',
  files=['src/jpt/distributions/quantile/cdfreg.pyx', 'src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/trees.py'],
  mechanism=[('forward and backward regression of the CDF', 'src/jpt/distributions/quantile/cdfreg.pyx'), ('empirical distribution of the rows of a leaf', 'src/jpt/distributions/quantile/quantiles.pyx: QuantileDistribution.fit')],
  observe=['pieces of the CDF of every numeric variable in every leaf'],
  technique=S + ' of histories of learning with failures, concurrent learners and hostile memory; comparison with the empirical distribution of the rows of each leaf',
  note='Seeded search; finite numbers only.'),
 dict(id='C20', title='Sets of numbers are right, unchanging and independent values along any history',
  statement='However intervals and unions of intervals came about and whatever was done with them before - computed from others by interleaved clients, edited in place, left overlapping or unsorted, stored, printed and read back, decomposed step by step while other work goes on, after failures of arguments or of memory - '
   'every operation on them (union, intersection, difference, complement, simplification, mirroring, chopping, containment, intersection tests, comparison, hashing, emptiness, extremes, size, points, samples) gives exactly what it means for the sets of reals they denote, open, closed, empty and infinite ones included. '
   'No operation changes its operands, any other set or the constants of the package, and editing a result changes nothing else.',
  over=['histories', 'fault_sequences', 'inputs'], text='all histories of operations, edits, suspensions, restarts and failures over a pool of live sets; the result of each step is compared with exact sets of cells of the real line, every other set with what it was',
  why='Tests compute single results from fresh, sorted sets; nobody looks at the operands afterwards, edits a result, or goes on with sets that have a history.',
  files=['src/jpt/base/intervals.pyx'],
  mechanism=[('case analysis on bounds', 'src/jpt/base/intervals.pyx: ContinuousSet'), ('unions kept as lists of intervals, simplified on demand', 'src/jpt/base/intervals.pyx: RealSet')],
  observe=['results, operands and all other live sets, bounds and kinds of ends included'],
  technique=S + ' of histories over a pool of live sets with interleaved clients, in-place edits, suspended iterations, failing arguments and allocations, extreme random numbers and restarts; results compared with exact sets of cells',
  note='Seeded search; bounds from a fixed grid of 21 numbers and infinity. linspace is judged up to rounding at its ends, infinite sets are not sampled.'),
 dict(id='C21', title='Piecewise functions are right, unchanging and independent values along any history',
  statement='However piecewise constant and linear functions came about and whatever was done with them before - computed from others by interleaved clients, edited in place, stored and read back, iterated step by step while other work goes on, after failures of arguments or of memory - '
   'adding, subtracting, multiplying, scaling, overwriting, cropping, splitting, shifting, mirroring, simplifying, rounding, differentiating, integrating, maximising, convolving, taking minimum, maximum and absolute value, looking up and evaluating them agrees point by point with the same operation on their values. '
   'No operation changes its operands (but for the in-place ones), any other function or the constants of the package, and editing a result changes nothing else.',
  over=['histories', 'fault_sequences', 'inputs'], text='all histories of operations, edits, suspensions, restarts and failures over a pool of live functions; each result is compared point by point with the values of its operands, every other function with what it was',
  why='Tests compute single results from fresh functions; nobody looks at the operands afterwards, edits a result, or goes on with functions that have a history.',
  files=['src/jpt/base/functions.pyx', 'src/jpt/base/intervals.pyx'],
  mechanism=[('lists of intervals and functions', 'src/jpt/base/functions.pyx: PiecewiseFunction'), ('arithmetic of pieces', 'src/jpt/base/functions.pyx: ConstantFunction, LinearFunction, Undefined')],
  observe=['values, pieces and domains of results, operands and all other live functions'],
  technique=S + ' of histories over a pool of live functions with interleaved clients, in-place edits, suspended iterations, failing arguments and allocations and restarts; results compared point by point with the operands',
  note='Seeded search; tolerance 1e-7; at most eight pieces; crossings are not evaluated exactly where they are. Convolution is judged for functions that are zero outside a bounded range.'),
]

PURE = 'It is a function of its input alone: no schedule, clock, I/O, random choice, failure or history takes part, so deterministic simulation has nothing to control. '
NA = [
 dict(id='C34', title='Inverted and approximated functions match the originals',
  statement='Inverting a linear function undoes it, and approximating a piecewise function stays within the requested error.',
  over=['inputs'], text='all piecewise linear functions', why='Tests enumerate examples.',
  files=['src/jpt/base/functions.pyx'], mechanism=[('piecewise representation', 'src/jpt/base/functions.pyx')], reason=PURE + 'It calls for input generation or proof.'),
 dict(id='C35', title='Labels and internal values correspond one to one',
  statement='Translating a label of a domain into its internal value and back gives the same label, for symbols, integers and scaled numbers and for sets of them, and labels outside the domain are rejected.',
  over=['inputs'], text='all domains and labels', why='Tests use small domains.',
  files=['src/jpt/variables.py', 'src/jpt/distributions/univariate'], mechanism=[('value maps', 'src/jpt/distributions/univariate/*.py: value2label, label2value')], reason=PURE + 'It calls for input generation.'),
 dict(id='C38', title='Plots and printed trees show the model',
  statement='The plotted or printed tree has the nodes, edges, probabilities and distributions of the model.',
  over=['inputs'], text='all models', why='Plots are only checked to be produced.', files=['src/jpt/trees.py'], mechanism=[('rendering', 'src/jpt/trees.py: plot')],
  reason=PURE + 'In addition the graphviz program that renders plots is not installed here.'),
]
