"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py regenerates both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM, DB, ABC = 'DRecPy/Dataset/mem_dataset.py', 'DRecPy/Dataset/db_dataset.py', 'DRecPy/Dataset/dataset_abc.py'
FU, FAC = 'DRecPy/Dataset/file_utils.py', 'DRecPy/Dataset/dataset_factory.py'
LKO, RS, MS = ['DRecPy/Evaluation/Splits/%s.py' % n for n in ('leave_k_out', 'random_split', 'matrix_split')]
RK, RG, LT = 'DRecPy/Evaluation/Metrics/ranking.py', 'DRecPy/Evaluation/Metrics/regression.py', 'DRecPy/Evaluation/loss_tracker.py'
PE, RE, CE = ['DRecPy/Evaluation/Processes/%s_evaluation.py' % n for n in ('predictive', 'ranking', 'recommendation')]
REC = 'DRecPy/Recommender/recommender_abc.py'
KB, KU, KI, SIM, AGG = ['DRecPy/Recommender/Baseline/%s.py' % n for n in ('base_knn', 'user_knn', 'item_knn', 'similarity', 'aggregation')]
CDAE, DMF, CAS = ['DRecPy/Recommender/%s.py' % n for n in ('cdae', 'dmf', 'caser')]
ES1, ES2 = 'DRecPy/Recommender/EarlyStopping/early_stopping_rule_abc.py', 'DRecPy/Recommender/EarlyStopping/max_validation_value_rule.py'
PS, LS = 'DRecPy/Sampler/point_sampler.py', 'DRecPy/Sampler/list_sampler.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, state=state))


prop('C01', 'Selecting rows returns exactly the matching rows, unchanged',
     'For every dataset and every query (a conjunction of comparisons over any column), selecting keeps a row if and only if the row '
     'satisfies every comparison, with all its values and its record id unchanged, in the same order, on both the in-memory and the '
     'database-backed dataset. Looking up one row or asking whether a row exists agrees with that, and nothing but an in-place selection '
     'changes the dataset it is called on.',
     ['inputs', 'configurations'], 'all row values, columns, operators, comparison values, conjunctions and chains of selections, on both backends, with or without internal ids',
     'the tests select with a handful of literals on one small file; the value/operator/column/id-assignment product is unbounded',
     [MEM, DB, ABC], [('query evaluation in memory', MEM + ':_apply_query'), ('query translation to sql', DB + ':_parse_query'), ('state query composition', DB + ':_build_new_state')])
prop('C02', 'Dropping, keeping, deduplicating, counting and projecting are exact',
     'For every dataset, dropping (or keeping) a list of record ids leaves exactly the rows whose id is not (is) listed; deduplicating on a '
     'column combination keeps exactly one row, the first, per distinct combination and counts agree with it; the minimum, maximum, '
     'length and any column projection of the rows report exactly the stored values in the requested column order.',
     ['inputs', 'configurations'], 'all row values, id lists (with duplicates and unknown ids), column combinations, in place or copying, on both backends, on plain and on already filtered datasets',
     'the tests check a few id lists and column pairs on one file',
     [MEM, DB, ABC], [('drop', MEM + ':drop'), ('drop (sql)', DB + ':drop'), ('unique', MEM + ':unique'), ('unique (sql)', DB + ':unique'), ('projection', DB + ':_from_row_to_record')])
prop('C03', 'Datasets derived from one another never affect each other',
     'After any sequence of copies, selections, drops, deduplications, column transformations, internal id assignments or removals, closing '
     'and garbage collection, every live dataset still reports exactly the rows and columns it had, changed only by the in-place operations '
     'invoked on that very dataset. This holds although derived datasets share storage, and while other datasets are being iterated.',
     ['histories', 'schedules', 'inputs'], 'all histories of operations over a family of derived datasets, every garbage collection point, partially consumed row iterators, compaction thresholds',
     'storage sharing and compaction only go wrong under particular histories across several datasets; tests exercise one derived dataset at a time',
     [DB, MEM], [('table compaction', DB + ':_optimize_states'), ('table migration on transformation', DB + ':apply'), ('shared table registry', DB + ':close'), ('copy on write', MEM + ':assign_internal_ids')],
     state=['tables shared between instances', 'registry of instances per table', 'open row iterators'])
prop('C04', 'Internal ids are a bijection with the raw ids',
     'Assigning internal ids numbers the distinct users, and the distinct items, 0..n-1 in order of first appearance, gives every row the '
     'numbers of its user and item, and makes conversions in both directions mutually inverse; unknown raw or internal ids convert to '
     'nothing. Reassigning after filtering renumbers the remaining users and items contiguously, and removing internal ids restores the '
     'dataset without them.',
     ['inputs', 'histories'], 'all datasets with integer or string ids, any number of repeated users/items, assignment after filtering, reassignment, removal, on both backends',
     'tests look at fixed ids of one file; contiguity and inverse laws must hold for every dataset and filter history',
     [MEM, DB], [('id assignment', MEM + ':assign_internal_ids'), ('id assignment (sql)', DB + ':assign_internal_ids'), ('conversions', DB + ':user_to_uid')])
prop('C05', 'Interaction vectors contain exactly the current interactions',
     'The interaction vector of a user (item) has, at the position of each item (user) internal id, the sum of the interaction values '
     'recorded for that pair in the dataset at the moment of the call, and zero everywhere else. This stays true after interaction values '
     'are transformed, rows are removed in place, ids are reassigned, and for whatever order and number of vector requests, cache '
     'capacities included.',
     ['inputs', 'histories'], 'all datasets (duplicate pairs included), all sequences of vector requests and in-place changes, all cache limits, on both backends',
     'stale caches and fall-back paths show only for specific histories and dataset shapes (one user, full cache)',
     [MEM, DB], [('cached matrix', MEM + ':_build_interaction_matrix'), ('vector caches', DB + ':select_user_interaction_vec'), ('vector caches', DB + ':select_item_interaction_vec')],
     state=['cached interaction matrix / vectors'])
prop('C06', 'Both storage backends give the same answers',
     'For every dataset and every sequence of dataset operations, the in-memory and the database-backed implementation contain the same '
     'rows, columns and internal ids, and answer every query about them identically (same values, same counts, same errors for unknown '
     'columns), up to row order.',
     ['inputs', 'histories'], 'all datasets and operation sequences up to the bound, including transformations that change a column type and any compaction threshold',
     'the test suites exercise each backend separately with literals; equivalence over histories is never compared',
     [MEM, DB, FAC], [('in-memory implementation', MEM), ('database implementation', DB)])
prop('C07', 'Saving and loading a dataset loses nothing',
     'A dataset saved to a csv or sqlite file and loaded again has the same rows in the same order, restricted to the requested columns and '
     'without internal identifiers, and a dataset saved to another file is unchanged. A saved file stays intact whatever is later done with datasets '
     'loaded from it (filtering, transforming, closing) unless it is explicitly saved over, and a failing file operation during a '
     'save to a sqlite file never leaves the previously saved file missing or damaged.',
     ['inputs', 'histories', 'crash_points'], 'all row values and column types, filtered and transformed datasets, both file formats, repeated load/close cycles, failure at any file operation of a save',
     'destroying the user file happens only after a particular load/close history or failure point that tests never take',
     [DB, MEM, FAC], [('save', DB + ':save'), ('save', MEM + ':save'), ('load', DB + ':_load_from_db'), ('close', DB + ':close')],
     state=['the saved file on disk'])
prop('C08', 'Importing a text file reads every field of every line',
     'For every delimited file, importing yields one row per data line, in file order, with exactly the fields of the named columns, '
     'whatever the delimiter (one or several characters), header presence, skipped columns, column types and internal chunk size. Importing a data frame does the same under its column labels and leaves the frame unchanged.',
     ['inputs', 'configurations'], 'all files up to the bound, delimiters, header flag, skipped columns, chunk sizes, on both backends',
     'chunk boundaries, skip columns and delimiters combine; tests import two fixed files',
     [DB, MEM, FAC], [('chunked import', DB + ':_load_from_csv'), ('import', MEM + ':__init__')])
prop('C09', 'Temporary database files live exactly as long as they are needed',
     'A temporary database file exists and is registered as long as at least one dataset using it is open, and is removed and unregistered '
     'when the last of them is closed or collected, in whatever order datasets are closed and however often. Other registered files and '
     'files the user saved are never removed.',
     ['histories', 'fault_sequences'], 'all orders of creation, copying, closing and garbage collection of datasets over one or several files, pre-existing registry contents',
     'needs specific close orders and registry contents',
     [DB, FU], [('close', DB + ':close'), ('registry', FU + ':unregister_temp_file'), ('registry', FU + ':register_temp_file')],
     state=['temporary files', 'temporary file registry'])
prop('C10', 'Leave-k-out moves exactly k rows per eligible user',
     'For every dataset, seed, thread schedule and parameters, the train and test sets of leave-k-out are disjoint, contain only unchanged '
     'source rows, and for each user: all rows are dropped if the user has fewer rows than the minimum; exactly k rows (or the floor of '
     'the given share) are in the test set if the user has more than that; otherwise none. All remaining rows are in the train set, so no '
     'test user is missing from train, and the split always terminates. With last timestamps requested, the test rows of a user are its latest ones; otherwise any of its rows can be chosen.',
     ['inputs', 'configurations', 'schedules'], 'all datasets, k (count or share), minimum, random draws, number of threads and task orders, verbose or not, string or integer user ids',
     'per-user arithmetic, draws and schedules are sampled by the tests for a few values only',
     [LKO], [('per-user split', LKO + ':_leave_k_out_user')])
prop('C11', 'Random and matrix splits partition the rows as specified',
     'A random split puts exactly the floor of the requested share of rows in the test set and all other rows, unchanged, in the train set. '
     'A matrix split puts in the test set exactly the rows of the sampled share of users on the sampled share of items, skips users whose '
     'rows would all be moved, removes users below the minimum, and leaves every other row in train; for every dataset, draw and task order. Any row, user and item can be chosen for the test set.',
     ['inputs', 'configurations', 'schedules'], 'all datasets, ratios, seeds/draws, minimum interactions, task orders, string or integer ids',
     'floor arithmetic at the limits, skip rule and schedules depend on data the tests do not contain',
     [RS, MS], [('random split', RS + ':random_split'), ('matrix split', MS + ':_matrix_split_user')])
prop('C12', 'Same seed, same result, whatever the schedule',
     'Splits, evaluations and samplers called twice with the same data, parameters and seed return the same result, independently of the '
     'order in which worker threads run, of the number of threads, of the state of the global random generator and of earlier calls.',
     ['schedules', 'histories', 'configurations'], 'all draws as a function of the seed, all task orders and thread counts, arbitrary global generator state',
     'a schedule-dependent result shows only under a different thread order',
     [LKO, MS, RS, RE, CE, PS, LS], [('per-user generators', LKO + ':leave_k_out'), ('per-user generators', RE + ':ranking_evaluation')])
prop('C13', 'Set-based ranking metrics equal their definitions',
     'For every recommendation list, truncation k and relevant set: hit ratio and recall are the share of relevant items among the first k, '
     'precision the share of the first k that is relevant, the F-score their weighted harmonic mean, reciprocal rank one over the position '
     'of the most relevant item (0 if absent), and average precision the mean of the precisions at each first relevant hit. They are in '
     '[0, 1], ignore anything after position k, and never modify their arguments.',
     ['inputs'], 'all lists, duplicates, k smaller/equal/larger than the list, integer or string ids, relevant sets',
     'tests compare a handful of literal lists',
     [RK], [('metrics', RK)])
prop('C14', 'DCG and NDCG equal their definitions',
     'For every relevance assignment, discounted gain is the sum over the first k recommended items of the (plain or exponential) gain '
     'over the logarithmic position discount, and its normalised form divides it by the best value any ordering of the known items '
     'reaches: it lies in [0, 1] for non-negative relevances, is 1 exactly for an ideal ordering, and never decreases when a better item '
     'moves up.',
     ['inputs'], 'all relevances, orderings, k, both gain variants',
     'optimality over all orderings cannot be sampled',
     [RK], [('DCG', RK + ':DCG'), ('NDCG', RK + ':NDCG')])
prop('C15', 'Predictive evaluation measures the true errors',
     'Predictive evaluation reports, for each metric, the mean squared, root mean squared or mean absolute error, rounded to four digits, over '
     'exactly the first requested number of test rows the model can predict; a missing prediction is either skipped or counted as zero, as '
     'requested, and errors are skipped or propagated as requested.',
     ['inputs', 'configurations', 'fault_sequences'], 'all test rows, predictions, failing/missing predictions, limits, flags',
     'which rows count depends on the failure pattern and limit; tests use fixed model outputs',
     [PE, RG], [('evaluation loop', PE + ':predictive_evaluation'), ('metrics', RG)])
prop('C16', 'Ranking evaluation scores each user on the right candidates',
     'For every evaluated user, ranking evaluation asks the model to rank exactly the sampled positive test items (at or above the threshold) '
     'plus the sampled negatives (below it, topped up when requested with generated known items the user has no positive interaction with), skips users '
     'without enough positives (or negatives to generate), and reports '
     'for each metric and cut-off the average over the users it could be computed for, with relevances and best item taken from the test set. Any user and any of its positives can be sampled.',
     ['inputs', 'configurations', 'schedules'], 'all test/train data, thresholds, sample sizes, draws, task orders, model rankings, cut-offs',
     'candidate construction depends on per-user counts around the limits',
     [RE], [('per-user evaluation', RE + ':__ranking_evaluation_user')])
prop('C17', 'Recommendation evaluation scores each user against the right ground truth',
     'For every evaluated user, recommendation evaluation asks the model for as many recommendations as the largest cut-off, with the requested novelty and '
     'score threshold, and compares them with exactly the (sampled) positive items of the user in the test set, with relevances and best item taken from there; it '
     'skips users without enough positives and users the model fails for, always terminates, and '
     'reports for each metric and cut-off the average over the users it could be computed for, limited to the requested number of users. Any user and any of its positives can be sampled.',
     ['inputs', 'configurations', 'schedules'], 'all test/train data, thresholds, flags, draws, task orders, model recommendations, cut-offs',
     'ground truth construction depends on threshold ties, novelty and ignored items',
     [CE], [('per-user evaluation', CE)])
prop('C18', 'Rankings and recommendations are complete, ordered and correctly scored',
     'For every model, user and list of distinct items, ranking returns known items of the list only, best first, each once and paired with the score the '
     'model predicts for it, omitting items the user already interacted with when novelty is requested, and at most the requested number, '
     'dropping only the worst; recommending is the same over all known items above the threshold. Unknown items are skipped or rejected as '
     'requested and results use raw ids.',
     ['inputs', 'configurations'], 'all datasets, scores (ties, missing), item lists with unknown ids, n, novelty, thresholds, every recommender',
     'ordering, cut-off and novelty filters interact with ties and missing scores',
     [REC, KU, KI, CDAE, DMF, CAS], [('base ranking', REC + ':_rank'), ('recommend', REC + ':recommend'), ('user knn', KU + ':_rank'), ('item knn', KI + ':_rank'), ('cdae', CDAE + ':_rank'), ('caser', CAS + ':_rank')])
prop('C19', 'Neighbourhood models predict from the k most similar neighbours',
     'A neighbourhood model predicts the plain or similarity-weighted mean of the interactions, with the target, of the k most similar '
     'neighbours whose similarity is positive and supported by enough common interactions after shrinkage; without any usable neighbour '
     'it predicts the requested average or nothing. Predictions stay within the range of the interactions they average.',
     ['inputs', 'configurations'], 'all interaction matrices within the bound, k, minimum support, shrinkage, aggregation, user- and item-based',
     'neighbour selection and shrinkage depend on ordering of similarities',
     [KB, KU, KI, AGG], [('prediction', KB + ':_predict'), ('similarities', KU + ':_compute_similarities'), ('neighbours', KI + ':_compute_neighbours'), ('aggregation', AGG)])
prop('C20', 'Similarity measures equal their definitions',
     'For every interaction matrix, each similarity measure (cosine, co-rated cosine, adjusted cosine, Jaccard, mean squared difference, '
     'Pearson) gives for each pair of rows the value of its definition over the recorded entries, is symmetric, is bounded, and is absent '
     'or zero when the two rows share nothing.',
     ['inputs'], 'all sparse matrices within the bound, all measures',
     'sparse bookkeeping errors show only for particular sparsity patterns and values',
     [SIM], [('similarities', SIM)])
prop('C21', 'Training ends with the weights of the selected epoch',
     'Training runs the requested number of epochs unless the early stopping rule ends it, evaluates the callback exactly at the requested '
     'frequency and the rule exactly at its frequency and at the end, and when the rule selects an epoch the final weights are those the '
     'model had right after that epoch, for every kind of registered trainable; otherwise they are those of the last epoch.',
     ['histories', 'configurations'], 'all sequences of weight updates, losses and validation values, frequencies, epochs, rules, kinds of trainables',
     'only a particular epoch/frequency/best-epoch combination exposes aliasing or off-by-one reverts',
     [REC, ES2, LT], [('training loop', REC + ':fit'), ('snapshots', REC + ':_store_epoch_weights'), ('revert', REC + ':_revert_weights')],
     state=['per-epoch weight snapshots'])
prop('C22', 'The loss tracker reports the exact history',
     'After any sequence of recorded losses, resets and callback results, the tracker returns all losses recorded since the last reset in '
     'order, their exact mean (0 if none), each metric\'s results in order, and the increasing list of distinct epochs at which results '
     'were recorded.',
     ['histories', 'inputs'], 'all operation sequences and values within the bound',
     'running averages drift only for particular sequences',
     [LT], [('running mean', LT + ':add_epoch_loss'), ('results', LT + ':add_epoch_callback_result')])
prop('C23', 'Early stopping picks the epoch with the best validation value',
     'The maximum validation rule returns the first epoch at which the required metric reached its maximum over all recorded results, '
     'matching metric names with or without their cut-off suffix, never ends training by itself, and rejects missing, empty or malformed '
     'results.',
     ['inputs'], 'all result histories, epochs, metric names and suffixes, malformed inputs',
     'ties and suffix combinations are not enumerated by tests',
     [ES1, ES2], [('validation', ES1 + ':compute'), ('best epoch', ES2 + ':_compute_best_epoch')])
prop('C24', 'Models speak raw ids and fail cleanly on unknown ones',
     'Predicting, ranking and recommending translate raw user and item ids to the trained ones and back without loss, for integer and '
     'string ids; unknown users or items, unfitted models and failing predictions raise, or yield nothing when errors are to be skipped. '
     'The data statistics a fitted model exposes match its training data, and value standardisation and rescaling are mutually inverse.',
     ['inputs', 'configurations', 'fault_sequences'], 'all datasets, ids, flags, prediction outcomes (value, nothing, exception), both backends',
     'id translation mistakes hide when raw and internal ids coincide, as in the test data',
     [REC], [('predict', REC + ':predict'), ('fit', REC + ':fit'), ('scaling', REC + ':_standardize_value')])
prop('C25', 'Sampled interaction pairs are truly positive or negative',
     'Every positive pair sampled is a row of the dataset at or above the threshold, reported with its value; every negative pair is a '
     'valid user and item that has no interaction at or above the threshold, reported as zero; every eligible row or pair can be drawn, and '
     'a sample has the requested size. Random row generators only yield rows matching their query.',
     ['inputs', 'configurations'], 'all datasets, thresholds, draws, both backends',
     'a wrong pair appears only for particular draws',
     [PS, MEM, DB], [('sampler', PS), ('null pairs', MEM + ':null_interaction_pair_generator'), ('null pairs', DB + ':null_interaction_pair_generator'), ('random rows', MEM + ':_select_random_generator')])
prop('C26', 'Sampled sequences are contiguous runs with their targets and unseen negatives',
     'Each sampled group consists of records of one existing group only, at or above the threshold, in sort order; the positive part is a '
     'contiguous run within the size limits, the targets are the records immediately following it in the requested number, and the '
     'negatives are the requested number of distinct ids the group has no positive record for. Every qualifying group and run can be drawn. When no group qualifies, sampling raises '
     'instead of looping.',
     ['inputs', 'configurations'], 'all datasets, group columns, sizes, limits, thresholds, sort columns, draws',
     'slicing errors depend on group length versus limits and draws',
     [LS], [('sampler', LS + ':sample_group_records')])

prop('C27', 'Deep models learn from the right examples',
     'In every training step of a deep model, the loss compares exactly the requested number of predictions, each with its own target. For the '
     'denoising autoencoder, a prediction is the reconstruction from a corruption of a user\'s thresholded interactions, in which each entry is '
     'either removed or scaled up and none is removed without corruption, and the target is the uncorrupted vector. For matrix factorisation, it is '
     'the similarity of the networks\' outputs for a user and an item, and the target is the (standardised) interaction of that pair, or zero if it '
     'has none at or above the threshold. For the sequence model, it is made from a run of a user\'s items, for the items that follow (target one) '
     'and for items the user never interacted with (target zero). Each step records this loss plus the regularisation of the weights, and every eligible example can be drawn.',
     ['inputs', 'configurations'], 'all datasets, thresholds, draws of samplers and corruption, batch sizes, loss functions, both backends',
     'the tests never train a deep model; wrongly paired targets still let a loss decrease',
     [CDAE, DMF, CAS, REC], [('corruption and targets', CDAE + ':_reconstruct_for_training'), ('pair targets', DMF + ':_sample_batch'), ('sequence batches', CAS + ':_sample_batch'), ('losses of a step', REC + ':fit')])

INT = 'DRecPy/Dataset/integrated_datasets.py'
prop('C28', 'Named datasets: complete, downloaded once, fixed train and test parts',
     'Each named dataset is downloaded at most once, whatever the sequence of requests for its train, test and full part and whatever the backend. The full part has every published '
     'row, in order, with the published ids and values; so have train and test parts that are published. Otherwise the two parts are generated: from every user with at least ten '
     'interactions exactly ten go to test and the others to train, other users are in neither, no row is in both, and every later request, in either backend, gives the '
     'same rows with the same ids and values in the same order. Changing a returned dataset does not affect later requests. Unknown names are rejected.',
     ['inputs', 'histories'], 'all request sequences, backends, values, row orders, ids including non-ASCII letters, and worker schedules',
     'the datasets are too large and remote to be fetched by tests; the parts are generated on one request and read back on others',
     [INT, 'DRecPy/Dataset/file_utils.py'], [('generated parts', INT + ':get_train_dataset'), ('test parts', INT + ':get_test_dataset'), ('download', INT + ':download_dataset')])

prop('C29', 'A saved and reloaded model answers exactly as the original',
     'Saving a model that was fitted on an in-memory dataset and loading the file gives a model of the same class with the same dataset rows which answers every '
     'prediction, ranking and recommendation, for known and unknown users and items, exactly as the original did when it was saved. Saving changes nothing about the '
     'original, replaces whatever the file contained, and loaded models are independent of the original and of one another: fitting the original again, or saving it '
     'again over the file, does not affect what was loaded before.',
     ['inputs', 'histories'], 'all interaction values, patterns of rated items, output biases, model kinds and options, sequences of saving, loading and fitting again',
     'no test of the repository saves or loads a model',
     [REC, KB, CDAE, DMF, CAS, PS], [('saving', REC + ':save'), ('loading', REC + ':load'), ('what a model keeps', KB + ':_pre_fit')])

prop('C30', 'Predicting, evaluating and sampling only read',
     'Predicting, ranking, recommending, the three evaluations, sampling pairs and lists, drawing random rows and null pairs, asking for interaction vectors, editing what any of '
     'these returned, and fitting another model on the same data (apart from assigning internal ids when no copy is asked for) leave the rows, columns and numbering of the training '
     'and test datasets, the lists passed as arguments and all answers of a fitted model exactly as they were, and always remain possible whatever was done before, suspended '
     'samplers and abandoned iterators included. Done again with the same seed, each gives the same answer.',
     ['inputs', 'histories'], 'all ratings, draws, sequences of activities, model kinds, backends',
     'tests look at the answer of one call on fresh data, not at what the call leaves behind for the next',
     [REC, KB, MEM, DB, PE, RE, CE, PS, LS], [('fitting', REC + ':fit'), ('evaluation', RE + ':ranking_evaluation'), ('pairs', PS + ':sample'), ('lists', LS + ':sample_group_records'), ('rows iterators', DB + ':values')])

TECH = ('solver-based checking of the real code: the DRecPy modules of the current tree are executed symbolically (z3), every branch forked on '
        'feasibility, each property assertion discharged as path-condition AND NOT property over all inputs within the bounds; counterexamples are '
        'replayed on the real libraries')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': x, 'meaning': x, 'where': p['files'][0]} for x in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in P:
        mod = os.path.join(V, 'checks', p['id'].lower() + '.py')
        if os.path.isfile(mod):
            src = open(mod).read()
            ns = {}
            import re
            m = re.search(r"^BOUNDS = (\{.*?^\})", src, re.S | re.M)
            b = eval(m.group(1)) if m else {}
            checks.append({'property': p['id'], 'quick_cmd': f'/opt/venv/bin/python run.py {p["id"]} --tier quick',
                           'thorough_cmd': f'/opt/venv/bin/python run.py {p["id"]} --tier thorough',
                           'technique': TECH, 'level': 'model_checking',
                           'level_note': 'bounded: every value within: ' + (b.get('quick') or 'see DESIGN.md') +
                                         ('; thorough: ' + b['thorough'] if b.get('thorough') else ''),
                           'evidence_file': f'evidence/{p["id"]}.json'})
        else:
            na.append({'property': p['id'], 'reason': 'no check is registered for this property yet'})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'python3 tools/props.py regenerates this file and properties.jsonl; see DESIGN.md'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
