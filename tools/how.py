COST = dict(zip(["C%02d" % i for i in range(1, 31)], [52, 50, 69, 59, 65, 35, 31, 29, 31, 29, 60, 104, 32, 20, 9, 55, 48, 92, 92, 54, 11, 20, 3, 68, 53, 24, 60, 40, 60, 55]))
HOW = {
'C01': '''Datasets with symbolic cells; queries with symbolic comparison values over every column and operator. The solver shows that each row is in the result
iff the conjunction of comparisons (stated directly over the symbolic cells) holds, and that kept rows, ids, order and the source are unchanged. Same for
`select_one`, `exists`, chains and in-place selection. The in-memory engine and the SQL text built for the database are both executed (mini SQL evaluator).''',
'C02': '''Oracle `kit.Model`, a list of rows with the documented meaning of drop/keep/unique/count/min/max/len/values. Symbolic cells make "first of each distinct
combination" a solver question; id lists include repeats and unknown ids.''',
'C03': '''Every history of operations (choice variables) over a family of derived datasets, executed on real code, compared after every history to one `Model` per
dataset. Garbage collection and compaction points are choices too.''',
'C04': '''Raw ids are unknown integers (or strings/fractions in every repetition pattern): the solver forks on which ids coincide, and the numbering, its inverse,
the rows' numbers and their behaviour after filtering/reassignment/removal are asserted.''',
'C05': '''Interaction values are symbolic reals; the entries of every user and item vector are compared with the sum over the current rows before and after one or two
in-place changes, for every order of requests and cache limit, including the out-of-memory fall-back.''',
'C06': '''The same file is loaded in both backends, the same history applied to both; contents, counts, extremes, lookups, conversions, vectors, errors must be equal
for all cell values.''',
'C07': '''save/load round trips with symbolic cells printed as tokens into real files and read back; the reloaded content is equated with the saved one. Faults: the
k-th remove/rename/move/link of a save fails (audit hook), for each k: then the earlier content must still be there.''',
'C08': '''Text files whose numeric fields are symbolic tokens, all layouts, delimiters, headers, chunk sizes, terminators as choices; result must equal the written cells.''',
'C09': '''All histories of create/copy/filter/read/close/forget/collect over several database datasets; the registry file content is a choice. After each step: the
file of every open dataset exists; foreign and user files are untouched; after all are closed none is left.''',
'C10': '''Timestamps, share, k, minimum, draws and task order are unknowns; test rows per user, eligibility, disjointness and the union are asserted.''',
'C11': '''As C10 for random_split and matrix_split; for matrix the test set must be the block of some sample of the requested numbers of users and items.''',
'C12': '''Two runs inside one symbolic execution. The generator is an uninterpreted function of seed and call sequence, so "same result" can only be shown when the code
draws in an order that does not depend on schedule, thread count, verbosity, hash order or earlier global draws. Pre-emptive schedules explored.''',
'C13': '''Recommended ids are unknown integers (coincidences forked by z3), results equated with definitions written in the check. Exact rational arithmetic.''',
'C14': '''Relevances are unknown reals, gains over logs are exact constants; DCG/NDCG equated with definitions, NDCG within [0,1] and 1 for ideal orders.''',
'C15': '''The model under evaluation is scripted: each prediction is an unknown real, nothing or an exception. The metrics must equal those of the predictable rows.''',
'C16': '''Scripted model (arbitrary order of the candidates passed), scripted metrics (arbitrary values or failures), draws unknown; the candidates, ground truth, cut-offs
and averages seen by model and metrics are asserted for every draw and task order.''',
'C17': '''As C16 for recommendation_evaluation; default metrics are checked against the definitions.''',
'C18': '''A scripted recommender against the real base class with unknown or missing scores; real kNN models with unknown ratings, CDAE/Caser/DMF with unknown biases.
Order, completeness, scores, thresholds, novelty and n are asserted for all values.''',
'C19': '''Similarities are unknown reals (similarity function replaced) and ratings unknown; the prediction is equated with the weighted mean over the k most similar neighbours
that have the item, minimum support, shrinkage and fall-backs included. Built-in measures are executed on chosen ratings.''',
'C20': '''Every pattern of recorded entries with unknown values; each similarity equated with its definition (square roots are algebraic terms), symmetry and ranges.''',
'C21': '''The optimizer is scripted: it assigns arbitrary values to registered weights at each epoch; after training the weights must be those of the epoch selected by the
rule (or the last).''',
'C22': '''Every sequence of operations with unknown losses and results; reported means, histories, graphs compared with the recorded sequence.''',
'C23': '''Unknown results at unknown epochs: the epoch returned must be the first one with the maximum.''',
'C24': '''Permuted or string raw ids, unknown ids asked; each answer and error is compared with the contract; statistics exposed to models equated with the data.''',
'C25': '''Interactions and threshold unknown, draws unknown: sampled pairs must be positive / not positive, rows match queries; goals: each eligible row/pair can be drawn.''',
'C26': '''Unknown sort values (every order decided by z3), draws unknown: runs contiguous in sort order, targets follow, negatives unseen; goals for each group/run/negative.''',
'C27': '''The real CDAE, DMF and Caser are trained for one step on every draw of their samplers and of the corruption (unknowns), with fixed weights that identify the example
behind each prediction; the documented extension points (`_compute_batch_loss`, `_compute_reg_loss`, an early stopping rule) observe what the loss is given and what is recorded.
Each (prediction, target) must be an entry of the table of admissible examples computed from the definition, and goals ask that every example can be drawn.''',
'C28': '''The real request functions run on a stand-in for the network that serves published files with symbolic values; every sequence of requests in both backends and
every worker schedule of the generating split; each answer is compared with the published rows and with the earlier answers. The DATA_FOLDER is a scratch folder.''',
'C30': '''Real kNN models on symbolic ratings (and CDAE, DMF, Caser on fixed weights) over both backends; every activity done twice, every pair of activities in sequence. After each,
the datasets are compared with a list-of-rows model, the arguments with their copies and the model's answers with those before. The mini SQL engine also models the shared lock
a partially read result keeps on the database file.''',
'C29': '''Models with symbolic ratings or output biases are saved with the real `save` (pickling keeps symbolic values by reference) and loaded; all answers before, after
and of the loaded model are equated by z3 on every path of the rankings' comparisons. Counterexamples and witnesses run with real joblib and TensorFlow.''',
}
