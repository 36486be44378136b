"""Writes /verif/properties.jsonl and the not-claimed list (kept as data so MANIFEST stays in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

MF = "implicit/cpu/matrix_factorization_base.py"; ALS = "implicit/cpu/als.py"; KALS = "implicit/cpu/_als.pyx"
BPR = "implicit/cpu/bpr.pyx"; LMF = "implicit/cpu/lmf.pyx"; TOPK = "implicit/cpu/topk.pyx"; SEL = "implicit/cpu/select.h"
KNN = "implicit/nearest_neighbours.py"; KNNX = "implicit/_nearest_neighbours.pyx"; KNNH = "implicit/nearest_neighbours.h"
ANN = ["implicit/ann/annoy.py", "implicit/ann/faiss.py", "implicit/ann/nmslib.py"]
GPU = ["implicit/gpu/matrix_factorization_base.py", "implicit/gpu/als.py", "implicit/gpu/bpr.py"]
UT = "implicit/utils.py"; RB = "implicit/recommender_base.py"; EV = "implicit/evaluation.pyx"

p("C01", "Query calls never change a fitted model",
  "Asking a model for recommendations, similar items or users, explanations, recalculated factors, a saved file or a converted copy never changes its learned factors or similarities, its search indexes or its configuration. Whatever queries were made before, in whatever order, a later query on the same model sees exactly the same learned state.",
  ["histories", "inputs", "configurations"], "every sequence of query calls, with every option combination, scalar or batch, on every model class",
  "Tests call each query a handful of times and compare outputs, not the model state afterwards; in-place updates through a view of a factor row only show up for particular argument kinds and later calls.",
  [MF, ALS, KNN, *ANN, GPU[0], UT, RB], [("views of stored arrays are never written", MF + ":recommend/similar_items"), ("lazy caches only filled while empty", MF + ":item_norms")])

p("C02", "Arguments supplied by the caller are never modified",
  "No public call (fitting, partial fitting, recommending, similarity queries, explaining, splitting ratings, weighting matrices, evaluating) modifies a matrix, array, list or dictionary passed in by the caller: neither its values nor its index structure nor its ordering.",
  ["inputs", "configurations"], "every input matrix layout (sparse format, dtype, sorted or unsorted indices) and every array-like option",
  "Whether an input is aliased depends on its format and dtype (conversions copy some layouts and return others as is); tests pass freshly built float32/float64 matrices and never compare them afterwards.",
  [ALS, BPR, LMF, MF, KNN, EV, UT, *ANN, *GPU], [("copying conversions before in-place edits", UT + ":check_csr; " + MF + ":_filter_items_from_sparse_matrix")])

p("C03", "Cached derived state is never stale",
  "Everything a model derives from its learned factors or similarities and keeps for reuse (vector norms, Gram matrices, neighbour scorers, approximate search indexes) always corresponds to the current factors when it is next used. This holds after any history of fits, refits, partial fits, queries, unpickling or loading, including queries issued from a training callback between iterations.",
  ["histories", "configurations"], "every interleaving of fit, refit, partial_fit_users, partial_fit_items, queries (also inside callbacks), pickling and loading",
  "Staleness needs a query that fills the cache, then a specific kind of update, then another query; tests sample one or two such sequences per model.",
  [MF, ALS, BPR, LMF, KNN, *ANN, *GPU], [("cache invalidation next to factor updates", ALS + ":fit/partial_fit_users/partial_fit_items"), ("rebuild of scorer/index after fit", KNN + ":fit; implicit/ann/*.py:fit")],
  [("_user_norms/_item_norms", "row norms of the factors", MF), ("_YtY/_XtX", "Gram matrices of the factors", ALS), ("scorer", "native view of the similarity matrix", KNN)])

p("C04", "Exclusion filters are applied to every result row",
  "When already-liked filtering is on, every item in a user's row of the supplied interactions is excluded from that user's ranking, and every id in an explicit exclusion list is excluded from every row; the exclusion is decided per row with that row's own likes, whatever the batch size, and combines with an item subset. An excluded item is never ranked with its real score on any serving path (exact, nearest neighbour, or approximate).",
  ["inputs", "configurations"], "every user batch (size, order, duplicates), every likes row, every exclusion list type, every option combination, every model class",
  "Tests use symmetric square matrices with at most 50 users (one internal batch), identical user and row order, and list-typed filters.",
  [MF, TOPK, KNN, KNNX, UT, *ANN, GPU[0]], [("masking before selection", TOPK + ":_topk_batch"), ("post-filtering with enlarged candidate count", UT + ":_filter_items_from_results"), ("zeroing own likes", KNNX + ":NearestNeighboursScorer.recommend")])

p("C05", "Every option of a query is honoured or rejected, never dropped",
  "Whenever one entry point serves a request by handing it to another (batch fallback, exact fallback of an approximate model, deprecated aliases, metric shortcuts), every option the caller gave reaches the place that acts on it unchanged. An option combination a model cannot serve is rejected with an error, for any array-like type, rather than silently ignored.",
  ["inputs", "configurations"], "every option combination on every delegating entry point",
  "The number of option combinations times delegation paths is far beyond the sampled tests, which mostly vary one option at a time on the non-delegating path.",
  [UT, RB, MF, KNN, EV, *ANN], [("explicit keyword forwarding", UT + ":_batch_call; " + RB + ":rank_items; implicit/ann/*.py"), ("conflict checks", MF + ":recommend/similar_items/similar_users")])

p("C06", "User-indexed and item-indexed data are never mixed up",
  "Each operation combines data along matching dimensions: user ids only ever select from user-indexed data and item ids from item-indexed data, positions inside a requested subset are translated back to the ids the caller gave, and factors solved for one side use the other side's factors and Gram matrix. This holds for rectangular data of any shape and for subsets in any order.",
  ["inputs", "configurations"], "all numbers of users and items, all id subsets in any order",
  "The test fixtures are square symmetric matrices where swapping users with items, or positions with ids, mostly gives the same answer.",
  [MF, ALS, BPR, LMF, KNN, TOPK, EV, *ANN, *GPU], [("subset gather plus id translation", MF + ":recommend/similar_items"), ("solver argument roles", ALS + ":fit/recalculate_user/recalculate_item")])

p("C07", "Returned ids and scores stay paired and ordered best first",
  "In every result, the score at a position belongs to the id at the same position, and results are ordered from best to worst. Any filtering, reordering, truncation, padding or subset translation applied to the ids is applied identically to the scores.",
  ["inputs", "configurations"], "all inputs, options and model classes that return (ids, scores) pairs",
  "A misalignment needs particular filters, ties or short results to show; tests mostly compare the set or the first id.",
  [MF, TOPK, SEL, KNN, KNNX, KNNH, UT, *ANN, GPU[0]], [("paired masking/slicing", UT + ":_filter_items_from_results"), ("heap order and sort direction", SEL + ":select; " + KNNH + ":TopK")])

p("C08", "Results never exceed the requested count or invent ids",
  "A query for N results returns at most N per row, one dimensional for a single id and one row per id for a batch, and never pads a full ranking with an id that was not a candidate. When filtering removes results, enough extra candidates are fetched first so the count is not needlessly reduced.",
  ["inputs", "configurations"], "every N (also larger than the number of candidates), subset, filter, single and batch",
  "Tests use N well below the number of items and few filters.",
  [TOPK, SEL, MF, KNN, KNNX, UT, *ANN], [("clamping and slicing", TOPK + ":topk; " + KNN + ":recommend"), ("candidate count enlarged by filter sizes", "implicit/ann/*.py:recommend/similar_items")])

p("C09", "A fixed random seed determines every random choice",
  "All randomness used in training and in splitting data is drawn from the generator built from the caller's random_state (an integer including zero, a RandomState, or a Generator), never from global or time-based sources when a seed is given. With per-thread generators, each one is seeded from that generator and used by a single thread.",
  ["schedules", "configurations", "histories"], "all seeds and seed types, all thread counts, all prior global random state",
  "Tests fix one seed and compare two runs in the same process on one thread; a secondary global source or an unseeded generator is invisible to most assertions.",
  [UT, ALS, BPR, LMF, EV, *GPU], [("single generator construction", UT + ":check_random_state"), ("per-thread generators", BPR + ":RNGVector; " + LMF + ":RNGVector")])

p("C10", "Parallel native loops do not race on shared results",
  "In every multi-threaded native loop each thread writes only memory that belongs to its own iteration, its own scratch space or a reduction, apart from the documented lock-free stochastic updates of BPR. A neighbour scorer shared between threads is only used while holding its lock, and Python objects are only touched with the interpreter lock held.",
  ["schedules", "configurations"], "every thread schedule and every thread count",
  "Tests run on tiny inputs where one thread usually does all the work; races show up only under particular schedules.",
  [KALS, BPR, LMF, TOPK, KNNX], [("per-thread scratch buffers", KALS + ":_least_squares/_least_squares_cg"), ("scorer lock", KNNX + ":NearestNeighboursScorer.recommend"), ("disjoint output slices", TOPK + ":_topk_batch; " + KNNX + ":all_pairs_knn")])

p("C11", "Native memory and locks are released on every exit",
  "Every native buffer or object a call or object allocates is freed exactly once on every way out, including when an error is raised part way or a row fails to solve, and is never used after being freed. Locks are released on the same exits.",
  ["inputs", "fault_sequences"], "all exits of every native routine, normal and exceptional",
  "A leak or double free on an error path is invisible to assertions on results, and tests rarely trigger the error paths.",
  [KALS, LMF, KNNX], [("try/finally around scratch buffers", KALS + ", " + LMF), ("__cinit__/__dealloc__ pairing", KNNX)])

p("C12", "Native kernels never read or write out of bounds",
  "For every input accepted by the public interface, native code only accesses memory inside the arrays it was given: inputs whose shape does not match the model or that mention unknown ids are rejected before native code runs, random indices are drawn within range, scratch buffers are as large as they are used, and output offsets do not overflow.",
  ["inputs", "configurations", "histories"], "all shapes, ids, factor counts, refit histories and output sizes",
  "Out-of-bounds accesses with bounds checking disabled usually do not crash on small inputs; tests only pass matching shapes.",
  [KALS, ALS, BPR, LMF, TOPK, SEL, KNNX, KNNH, EV], [("shape checks", KALS + ":_check_als_shapes"), ("sampling range", BPR + ":fit; " + LMF + ":fit"), ("scratch sizes", KALS)])

p("C13", "Saving or pickling and loading gives back the same model",
  "A model that was saved and loaded, or pickled and unpickled, has the same learned state and the same configuration (every constructor setting that influences later fitting or querying) as the original, and answers queries identically. A saved file can always be loaded again.",
  ["configurations", "histories"], "every model class, constructor setting and fitted or unfitted state",
  "Tests save models with mostly default settings and compare a few attributes.",
  [RB, ALS, BPR, LMF, KNN, *GPU], [("explicit attribute lists", ALS + ":save; " + BPR + ":save; " + LMF + ":save"), ("loader", RB + ":load; " + KNN + ":load"), ("state hooks", KNN + ":__getstate__/__setstate__")])

p("C14", "Factories and conversions pass every setting through",
  "Every setting given to a model factory reaches the constructed model under its own meaning, whichever backend is chosen, and every constructor stores each setting it accepts. Converting a model between CPU and GPU keeps all settings and factors both sides support.",
  ["configurations"], "every parameter of every factory, constructor and conversion, on each backend branch",
  "Positional forwarding mistakes between same-typed settings are invisible unless a test gives every parameter a distinct non-default value on every branch; the GPU branch does not run without CUDA.",
  ["implicit/als.py", "implicit/bpr.py", "implicit/lmf.py", "implicit/approximate_als.py", ALS, BPR, LMF, KNN, *ANN, *GPU], [("argument lists", "implicit/als.py; implicit/bpr.py; implicit/lmf.py; implicit/approximate_als.py"), ("to_gpu/to_cpu", ALS + "; " + BPR + "; implicit/gpu/als.py; implicit/gpu/bpr.py")])

p("C15", "Train/test splits partition the ratings",
  "Splitting a ratings matrix puts every rating with its user, item and value in exactly one of the two outputs (only non-positive ratings may be dropped, and only from the test side of the random split), both with the shape of the input. A leave-k-out split takes exactly k ratings from each eligible user and none from users reserved for training.",
  ["inputs", "configurations"], "all rating matrices, fractions, K and seeds",
  "Tests use dense-ish random matrices where every user is eligible, which hides id/position confusions and overlaps.",
  [EV], [("complementary masks", EV + ":train_test_split"), ("tail selection and complement", EV + ":leave_k_out_split/_take_tails")])

p("C16", "Ranking metrics score each tested user once, in isolation",
  "Ranking metrics consider exactly the users with held-out items, each once, compare that user's own recommendations (with training items excluded) with that user's own held-out items, start every user from fresh counters, and read only positions that were actually recommended. Each metric shortcut reports its own metric with the caller's settings.",
  ["inputs", "configurations"], "all matrices (any number of users, empty rows), K, and models",
  "Tests have fewer users than one internal batch and compare a few fixed values; carry-over between users or batches cancels out on uniform data.",
  [EV], [("per-user reset", EV + ":ranking_metrics_at_k"), ("batching of users", EV + ":ranking_metrics_at_k")])

p("C17", "Failed training is reported, never returned as a model",
  "Fitting a CPU factor model raises an error when a linear system could not be solved or when the resulting user or item factors contain NaN, on every path through training. An unsolved system's result is never stored into the factors.",
  ["inputs", "configurations", "fault_sequences"], "all inputs and hyper-parameters, all exits of fit",
  "Tests trigger one failing configuration per model; which matrix holds the NaN and which row fails varies.",
  [MF, ALS, BPR, LMF, KALS], [("_check_fit_errors", MF), ("LAPACK info checks", KALS + ":_least_squares")])

p("C18", "Cached datasets are complete and readable",
  "A dataset file becomes visible under its cache name only once it has been completely downloaded, so an interrupted download is retried rather than used. Every field a dataset reader needs is written by the matching generator under the same name, with rows and columns numbered like the names stored for them, and the file looked up, downloaded and read is the same one.",
  ["crash_points", "fault_sequences", "inputs"], "interruption at any point of a download; every dataset and variant",
  "Tests would need network access and an interrupted transfer; the generators are never run by tests.",
  ["implicit/datasets/_download.py", "implicit/datasets/lastfm.py", "implicit/datasets/movielens.py", "implicit/datasets/million_song_dataset.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py"], [("download then rename", "implicit/datasets/_download.py:download_file"), ("hdf5 field names", "implicit/datasets/*.py:get_*/_hfd5_from_dataframe")])

p("C19", "Training callbacks run once per iteration or are rejected",
  "A callback given to fit is called exactly once per training iteration, in order, after that iteration's updates to all factors, with the iteration index; models that do not iterate reject a callback instead of ignoring it, and wrappers pass it to the model they train. Training runs exactly the configured number of iterations.",
  ["configurations", "histories"], "every model class, number of iterations and callback",
  "Tests check that a callback was called, not when and with what; wrappers are only exercised without a callback.",
  [ALS, BPR, LMF, KNN, *ANN, *GPU], [("callback at the end of the loop body", ALS + ":fit; " + BPR + ":fit; " + LMF + ":fit"), ("rejection", KNN + ":ItemItemRecommender.fit")])

p("C20", "All ALS solvers solve the same weighted problem",
  "Every way of solving for factors (exact, conjugate gradient, native, pure Python, recalculation, explanation) and the training loss use the same model: alpha scales each confidence exactly once, regularization is added exactly once, unobserved entries count with confidence one, and a negative confidence weighs as a dislike with its absolute value. Rows without interactions get zero factors from the native solvers.",
  ["inputs", "configurations"], "all confidence values including negative ones, all solver and option combinations",
  "Tests use positive confidences and mostly alpha=1; a sign or weighting slip in one solver only changes results for inputs they do not contain.",
  [ALS, KALS, "implicit/gpu/als.py"], [("normal equations", ALS + ":user_linear_equation/least_squares_cg; " + KALS), ("alpha scaling", ALS + ":fit/recalculate_user/recalculate_item/explain")])

p("C21", "Neighbour search starts clean and keeps the K best",
  "Each neighbour computation starts from empty accumulators, whatever was computed before with the same object or thread, and keeps the K largest scores seen: an entry is only displaced by a larger one. Every score is the accumulated sum of all contributions for that item and for no other.",
  ["histories", "schedules", "inputs"], "all sequences of rows/queries processed by one accumulator, all matrices",
  "Leftover state shows only for particular sequences of rows handled by the same thread; tests compare one or two small matrices.",
  [KNNX, KNNH, SEL], [("reset in foreach", KNNH + ":SparseMatrixMultiplier::foreach"), ("bounded heap", KNNH + ":TopK; " + SEL + ":select"), ("clearing per row", KNNX + ":all_pairs_knn")])

p("C22", "Each ALS iteration never increases the training loss",
  "With exact solves and positive regularization, the weighted training loss is non-increasing from one iteration to the next, and converges.",
  ["inputs", "configurations"], "all matrices and hyper-parameters", "Numerical trajectories depend on data; tests check one or two.", [ALS, KALS], [("alternating exact minimisation", KALS)])
p("C23", "Approximate models return nearly the exact results",
  "Recommendations and similar items from approximate indexes agree with the exact model up to the recall promised by the index parameters.",
  ["inputs", "configurations"], "all data and index parameters", "Recall depends on data and on third-party indexes.", ANN, [("index construction", "implicit/ann/*.py:fit")])
p("C24", "CPU and GPU models give the same results",
  "Training and querying on the GPU gives the same factors and rankings as on the CPU up to floating point error.",
  ["inputs", "configurations"], "all data", "No CUDA in the test environment; equality is numerical.", ["implicit/gpu/als.cu", "implicit/gpu/bpr.cu", "implicit/gpu/knn.cu", "implicit/gpu/matrix.cu"], [("CUDA kernels", "implicit/gpu/*.cu")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
