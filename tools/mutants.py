"""Textual mutants used while developing the rules: property -> {name: [(file, old, new)]}."""
MB = "cpu/matrix_factorization_base.py"
ALS = "cpu/als.py"
NN = "nearest_neighbours.py"
PNN = "_nearest_neighbours.pyx"
FA = "ann/faiss.py"
AN = "ann/annoy.py"
NM = "ann/nmslib.py"
U = "utils.py"
TK = "cpu/topk.pyx"
CY = "cpu/_als.pyx"
BPR = "cpu/bpr.pyx"
LMF = "cpu/lmf.pyx"
EV = "evaluation.pyx"
SEL = "cpu/select.h"
NH = "nearest_neighbours.h"

MUTANTS = {
    "C01": {
        "explain_inplace_yty": [(ALS, "A = YtY + regularization * np.eye(n_factors)", "A = YtY\n    A += regularization * np.eye(n_factors)")],
        "recalc_writes_factors": [(ALS, "user_factors = np.zeros((users, self.factors), dtype=self.dtype)",
                                   "user_factors = self.user_factors[:users]")],
        "mf_items_stored": [(MB, "            item_factors = item_factors[items]\n", "            item_factors = self.item_factors = item_factors[items]\n")],
        "norm_scale": [(MB, "        norm = norms[userid]\n", "        norm = norms[userid]\n        norms /= 1.0 + 0 * norm.max()\n")],
        "getstate_nocopy": [(NN, "state = self.__dict__.copy()", "state = self.__dict__")],
        "faiss_nprobe": [(FA, "        if np.isscalar(itemid):\n            factors = factors.reshape(1, -1)\n",
                          "        self.similar_items_index.nprobe = min(self.nlist, count)\n        if np.isscalar(itemid):\n            factors = factors.reshape(1, -1)\n")],
        "knn_simi_data": [(NN, "scores = self.similarity[itemid].data", "scores = self.similarity.data[self.similarity.indptr[itemid]:self.similarity.indptr[itemid + 1]]\n        scores *= 1.0")],
        "save_pop": [(NN, "args = {k: v for k, v in self.__dict__.items() if k not in (\"similarity\", \"scorer\")}",
                      "args = self.__dict__\n        args.pop('scorer')")],
        "to_gpu_reset": [(ALS, "        ret.cg_steps = self.cg_steps\n", "        ret.cg_steps = self.cg_steps\n        self.random_state = None\n")],
        "annoy_searchk": [(AN, "        query = np.append(user, 0)\n", "        query = np.append(user, 0)\n        if self.search_k < count:\n            self.search_k = count\n")],
        "nthreads": [(MB, "        user = self._user_factor(userid, user_items, recalculate_user)\n",
                      "        user = self._user_factor(userid, user_items, recalculate_user)\n        if np.isscalar(userid):\n            self.num_threads = 1\n")],
        "cache_param_dep": [(ALS, "        if user_weights is None:\n", "        self._last_weights = user_weights if user_weights is not None else getattr(self, '_last_weights', None)\n        if user_weights is None:\n")],
        "sorted_items_norm_view": [(MB, "            scores /= norm[:, None]", "            norm[norm < 1e-9] = 1\n            scores /= norm[:, None]"),
                                   (MB, "            norm = norms[itemid]\n", "            norm = norms if itemid is None else norms[itemid]\n")],
    },
    "C02": {
        "bm25_inplace": [(NN, "X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]", "X.data *= (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]")],
        "alpha_inplace": [(ALS, "            user_items = self.alpha * user_items\n\n        user_factors", "            user_items.data *= self.alpha\n\n        user_factors")],
        "items_sort": [(MB, "            items = np.array(items)\n            items.sort()", "            items = np.asarray(items)\n            items.sort()")],
        "bpr_sort": [(BPR, "user_items = user_items.sorted_indices()", "user_items.sort_indices()")],
        "split_dup": [(EV, "    ratings = ratings.tocoo()  # this will", "    ratings.sum_duplicates()\n    ratings = ratings.tocoo()  # this will")],
        "filter_extend": [(AN, "            count += len(filter_items)\n            filter_items = np.array(filter_items)\n", "            count += len(filter_items)\n            filter_items.sort()\n")],
        "explain_weights": [(ALS, "seed_item = self.item_factors[itemid]\n", "seed_item = self.item_factors[itemid]\n        user_weights[0][:] = user_weights[0] * 1.0\n")],
        "loss_clip": [(CY, "    _check_als_shapes(Cui, X, Y)\n    return _calculate_loss", "    Cui.eliminate_zeros()\n    return _calculate_loss")],
        "filter_query_shared": [(MB, "filter_query_items = query_items.tocoo()", "filter_query_items = query_items.tocoo(copy=False)")],
        "eval_sort": [(EV, "    cdef int[:] test_indptr = test_user_items.indptr\n", "    test_user_items.sort_indices()\n    cdef int[:] test_indptr = test_user_items.indptr\n")],
        "userids_shift": [(MB, "        user_count = 1 if np.isscalar(userid) else len(userid)\n", "        user_count = 1 if np.isscalar(userid) else len(userid)\n            user_items.data = np.abs(user_items.data)\n")],
        "check_csr_inplace": [(U, "    return user_items\n", "    user_items.data[user_items.data == 0] = 1e-9\n    return user_items\n")],
        "loss_astype": [(CY, "    return _calculate_loss(Cui, Cui.indptr, Cui.indices, Cui.data.astype('float32'),", "    d = Cui.data.astype('float32', copy=False)\n    d[d < -1] = -1\n    return _calculate_loss(Cui, Cui.indptr, Cui.indices, d,")],
    },
    "C03": {
        "als_partial_user_xtx": [(ALS, "        self._user_norms = None\n        self._XtX = None\n", "        self._user_norms = None\n")],
        "als_partial_item_norms": [(ALS, "        self._item_norms = None\n        self._YtY = None\n", "        self._YtY = None\n")],
        "als_partial_before": [(ALS, "        self.item_factors[itemids] = item_factors\n", "        self._YtY = None\n        self._item_norms = None\n        x = self.item_norms\n        self.item_factors[itemids] = item_factors\n"),
                               (ALS, "        self._item_norms = None\n        self._YtY = None\n\n    def explain", "\n    def explain")],
        "als_grow_only": [(ALS, "        self._user_norms = None\n        self._XtX = None\n", "        if max_userid >= users:\n            self._user_norms = None\n            self._XtX = None\n")],
        "nn_setstate": [(NN, "            self.scorer = NearestNeighboursScorer(self.similarity)\n        else:", "            pass\n        else:")],
        "annoy_order": [(AN, "        # train the model\n        self.model.fit(Cui, show_progress, callback)\n\n        item_factors = self.model.item_factors\n",
                         "        item_factors = self.model.item_factors\n        self.model.fit(Cui, show_progress, callback)\n")],
        "annoy_once": [(AN, "        if self.approximate_recommend:\n            log.debug", "        if self.approximate_recommend and self.recommend_index is None:\n            log.debug")],
    },
    "C05": {
        "annoy_batch_drops_filter": [(AN, "                item_users=item_users,\n                filter_items=filter_items,\n            )\n\n        # support", "                item_users=item_users,\n            )\n\n        # support")],
        "nms_fallback_recalc": [(NM, "                recalculate_item=recalculate_item,\n                filter_items=filter_items,\n                items=items,", "                filter_items=filter_items,\n                items=items,")],
        "faiss_const": [(FA, "                filter_already_liked_items=filter_already_liked_items,\n                filter_items=filter_items,\n                recalculate_user=recalculate_user,\n                items=items,\n            )\n\n        if not self.approximate", "                filter_already_liked_items=filter_already_liked_items,\n                filter_items=None,\n                recalculate_user=recalculate_user,\n                items=items,\n            )\n\n        if not self.approximate")],
        "mf_truth": [(MB, "            if filter_items is not None and len(filter_items):\n                raise ValueError(\"Can't set both items and filter_items in recommend", "            if filter_items:\n                raise ValueError(\"Can't set both items and filter_items in recommend")],
        "mf_noreject": [(MB, "            if filter_users is not None and len(filter_users):\n                raise ValueError(\"Can't set both users and filter_users in similar_users call\")\n", "")],
        "knn_reject_both_gone": [(NN, "        if filter_items is not None and items is not None:\n            raise ValueError(\"Can't specify both filter_items and items\")\n\n        count = N", "        count = N")],
        "knn_batch_flag": [(NN, "                filter_already_liked_items=filter_already_liked_items,\n                filter_items=filter_items,\n                recalculate_user", "                filter_items=filter_items,\n                recalculate_user")],
        "metric_threads": [(EV, "test_user_items, K, show_progress, num_threads)['ndcg']", "test_user_items, K, show_progress)['ndcg']")],
        "metric_swapped": [(EV, "train_user_items, test_user_items, K, show_progress, num_threads)['map']", "test_user_items, train_user_items, K, show_progress, num_threads)['map']")],
        "rec_all_recalc": [(MB, "            recalculate_user=recalculate_user,\n        )\n        return ids", "        )\n        return ids")],
        "rank_items_recalc": [("recommender_base.py", "            recalculate_user=recalculate_user,\n            items=selected_items,", "            items=selected_items,")],
        "hasattr_typo": [(AN, 'hasattr(self.model, "_user_factor")', 'hasattr(self.model, "_user_factors")')],
        "batch_first_row": [(U, '"user_items": user_items[i], **kwargs', '"user_items": user_items, **kwargs')],
        "ann_items_ignored": [(NM, "        if items is not None:\n            raise NotImplementedError(\"using an items filter isn't supported with ANN lookup\")\n", "")],
        "mf_recalc_ignored": [(MB, "        user = self._user_factor(userid, user_items, recalculate_user)", "        user = self._user_factor(userid, user_items)")],
        "mf_sim_filter": [(MB, "factor, norm, factors, norms, N, filter_items=filter_items", "factor, norm, factors, norms, N")],
        "knn_n_default": [(NN, "self.similar_items, itemid, N=N, filter_items", "self.similar_items, itemid, filter_items")],
        "annoy_progress": [(AN, "self.model.fit(Cui, show_progress, callback)", "self.model.fit(Cui, callback=callback)")],
        "knn_callback": [(NN, "ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress, callback)", "ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress)")],
    },
    "C07": {
        "mask_order": [(U, "ids, scores = ids[mask][:N], scores[mask][:N]", "ids, scores = ids[mask][:N], scores[:N]")],
        "batch_scores_unmasked": [(U, "filtered_scores[row] = scores[row][mask][:N]", "filtered_scores[row] = scores[row][:N]")],
        "batch_row": [(U, "            filtered_ids[row] = ids[row][mask][:N]", "            filtered_ids[row] = ids[row][mask][-N:]")],
        "knn_missing_first": [(NN, "                ids = np.append(ids, missing)", "                ids = np.append(missing, ids)")],
        "knn_best_ids": [(NN, "        best = np.argsort(scores)[::-1][:N]", "        best = np.argsort(scores)[:N]")],
        "knn_best_trunc_first": [(NN, "        best = np.argsort(scores)[::-1][:N]\n        return ids[best], scores[best]",
                                  "        ids, scores = ids[:N], scores[:N]\n        best = np.argsort(scores)[::-1]\n        return ids[best], scores[best]")],
        "annoy_dist": [(AN, "        return ids, 1 - (scores**2) / 2", "        return ids, (scores**2) / 2 - 1")],
        "annoy_scale": [(AN, "        scores = scaling * (1 - (scores**2) / 2)", "        scores = scaling * (scores**2 / 2)")],
        "faiss_swap": [(FA, "scores, ids = self.recommend_index.search(query, count)", "ids, scores = self.recommend_index.search(query, count)")],
        "select_nosort": [(SEL, "    std::sort_heap(results.begin(), results.end(), heap_order);\n", "")],
        "select_less": [(SEL, "std::greater<std::pair<T, int>> heap_order", "std::less<std::pair<T, int>> heap_order")],
        "select_index": [(SEL, "distances[static_cast<size_t>(row) * k + i]", "distances[static_cast<size_t>(row) * k + results.size() - 1 - i]")],
        "scorer_nosort": [(PNN, "            sort_heap(topK.results.begin(), topK.results.end(), topK.heap_order)\n", "")],
        "topk_offset": [(TK, "c_distances + offset)", "c_distances)")],
        "mf_items_scores": [(MB, "        if items is not None:\n            ids = items[ids]\n\n        return ids, scores", "        if items is not None:\n            ids = items[ids]\n            ids.sort()\n\n        return ids, scores")],
        "pad_before": [(U, "        output_scores[i] = batch_scores[:N]", "        output_scores[i] = batch_scores[-N:]")],
        "pad_score": [(U, "batch_scores, np.full(missing_items, -np.finfo(np.float32).max)", "batch_scores, np.full(missing_items, np.finfo(np.float32).max)")],
        "scalar_row_scores": [(MB, "        if np.isscalar(userid):\n            ids, scores = ids[0], scores[0]", "        if np.isscalar(userid):\n            ids, scores = ids[0], scores[-1]")],
        "allpairs_pair": [(PNN, "                    cols[out] = result.second\n                    values[out] = result.first\n                    out = out + 1", "                    cols[out] = result.second\n                    out = out + 1\n                    values[out] = result.first")],
    },
    "C08": {
        "annoy_count_likes": [(AN, "            count += len(user_likes)\n", "")],
        "annoy_sim_count": [(AN, "        count = N\n        if filter_items is not None:\n            count += len(filter_items)\n\n        if not self.approximate_similar_items:", "        count = N\n\n        if not self.approximate_similar_items:")],
        "faiss_count_max": [(FA, "            count += len(user_likes)\n", "            count = max(count, N + len(user_likes))\n")],
        "knn_items_count": [(NN, "            count = self.similarity.shape[0]\n            # check", "            count = N\n            # check")],
        "knn_notrunc": [(NN, "            ids, scores = ids[:N], scores[:N]\n\n        return", "        return")],
        "knn_sim_notrunc": [(NN, "        best = np.argsort(scores)[::-1][:N]", "        best = np.argsort(scores)[::-1]")],
        "knn_filter_notrunc": [(NN, "ids, scores = ids[mask][:N], scores[mask][:N]\n\n        elif", "ids, scores = ids[mask], scores[mask]\n\n        elif")],
        "pad_zero": [(U, "np.full(missing_items, -1)", "np.zeros(missing_items)")],
        "pad_partial": [(U, "        output_ids[i] = batch_ids[:N]\n        output_scores[i] = batch_scores[:N]", "        output_ids[i, :len(batch_ids)] = batch_ids[:N]\n        output_scores[i, :len(batch_ids)] = batch_scores[:N]"),
                        (U, "        if missing_items > 0:", "        if missing_items > N:")],
        "topk_clamp": [(TK, "    k = min(k, items.shape[0])\n", "")],
        "mf_row": [(MB, "        if np.isscalar(userid):\n            ids, scores = ids[0], scores[0]\n", "        if len(ids) == 1:\n            ids, scores = ids[0], scores[0]\n")],
        "sim_row": [(MB, "        if np.isscalar(norm):\n            ids, scores = ids[0], scores[0]\n            scores /= norm", "        if np.isscalar(norm):\n            scores /= norm")],
        "filter_helper_notrunc": [(U, "ids, scores = ids[mask][:N], scores[mask][:N]", "ids, scores = ids[mask], scores[mask]")],
        "scorer_size": [(PNN, "            count = topK.results.size()", "            count = K")],
        "knn_missing_polarity": [(NN, "missing = items[np.in1d(items, ids, invert=True)]", "missing = items[np.in1d(items, ids)]")],
        "fallback_count": [(FA, "            return self.model.similar_items(\n                itemid,\n                N,", "            return self.model.similar_items(\n                itemid,\n                count,")],
        "nms_count": [(NM, "            count += len(filter_items)\n\n        if np.isscalar(itemid)", "            count = max(N, len(filter_items))\n\n        if np.isscalar(itemid)")],
        "knn_count_two": [(NN, "            count += len(filter_items)\n        elif", "            count += 1\n        elif")],
    },
    "C04": {
        "kernel_row": [(TK, "batch_distances[i, filter_query_items[idx].indices] = neginf", "batch_distances[i, filter_query_items[i].indices] = neginf")],
        "kernel_partial": [(TK, "for i, idx in enumerate(range(startidx, endidx)):", "for i, idx in enumerate(range(startidx, endidx - 1)):")],
        "kernel_value": [(TK, "neginf = -np.finfo(batch_distances.dtype).max", "neginf = 0")],
        "kernel_branch": [(TK, "            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items)\n\n    return",
                           "            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items)\n\n    return")],
        "kernel_firstrow": [(TK, "batch_distances[:, filter_items] = neginf", "batch_distances[0, filter_items] = neginf")],
        "kernel_elif": [(TK, "    if filter_items is not None:\n        batch", "    elif filter_items is not None:\n        batch")],
        "scorer_before": [(PNN, "                    for index1 in range(user_indptr[0], user_indptr[1]):\n                        i = user_indices[index1]\n                        weight = user_data[index1]\n",
                           "                    if remove_own_likes:\n                        for index1 in range(user_indptr[0], user_indptr[1]):\n                            self.neighbours.sums[user_indices[index1]] = 0\n                    for index1 in range(user_indptr[0], user_indptr[1]):\n                        i = user_indices[index1]\n                        weight = user_data[index1]\n"),
                          (PNN, "                    if remove_own_likes:\n                        # set the score to 0 for things already liked\n                        for index1 in range(user_indptr[0], user_indptr[1]):\n                            i = user_indices[index1]\n                            self.neighbours.sums[i] = 0\n\n", "")],
        "scorer_range": [(PNN, "                        for index1 in range(user_indptr[0], user_indptr[1]):\n                            i = user_indices[index1]\n                            self", "                        for index1 in range(user_indptr[0], user_indptr[1] - 1):\n                            i = user_indices[index1]\n                            self")],
        "knn_own": [(NN, "remove_own_likes=filter_already_liked_items", "remove_own_likes=filter_already_liked_items and items is None")],
        "knn_polarity": [(NN, "mask = np.in1d(ids, filter_items, invert=True)\n            ids, scores = ids[mask][:N]", "mask = np.in1d(ids, filter_items)\n            ids, scores = ids[mask][:N]")],
        "annoy_append": [(AN, "np.append(filter_items, user_likes) if filter_items is not None else user_likes", "filter_items if filter_items is not None else user_likes")],
        "faiss_likes_trunc": [(FA, "user_likes = user_items[0].indices", "user_likes = user_items[0].indices[:N]")],
        "faiss_batch": [(FA, "        if filter_already_liked_items and not np.isscalar(userid):", "        if filter_already_liked_items and recalculate_user and not np.isscalar(userid):")],
        "helper_row": [(U, "mask = np.in1d(ids[row], filter_items, invert=True)", "mask = np.in1d(ids[0], filter_items, invert=True)")],
        "mf_items_likes": [(MB, "            if items is not None:\n                filter_query_items = _filter_items_from_sparse_matrix(items, filter_query_items)\n", "            if items is not None:\n                filter_query_items = None\n")],
        "mf_items_untranslated": [(MB, "            if items is not None:\n                filter_query_items = _filter_items_from_sparse_matrix(items, filter_query_items)\n", "")],
        "mf_items_unsorted": [(MB, "            items.sort()\n", "")],
        "mf_explicit_zero": [(MB, "    filter_query_items.data = np.ones_like(filter_query_items.data)\n", "")],
        "mf_sorted_other": [(MB, "            items.sort()\n            item_factors = item_factors[items]\n", "            item_factors = item_factors[items]\n            items = np.sort(items)\n")],
        "mf_liked_cond": [(MB, "        if filter_already_liked_items:\n            filter_query_items = user_items\n", "        if filter_already_liked_items and not recalculate_user:\n            filter_query_items = user_items\n")],
        "nms_filter_dropped": [(NM, "        if filter_items is not None:\n            ids, scores = _filter_items_from_results(userid", "        if filter_items is not None and not filter_already_liked_items:\n            ids, scores = _filter_items_from_results(userid")],
        "sim_users_filter": [(MB, "factor, norm, user_factors, norms, N, filter_items=filter_users", "factor, norm, user_factors, norms, N")],
        "batch_row0": [(U, '"user_items": user_items[i], **kwargs', '"user_items": user_items[0], **kwargs')],
        "faiss_fallback_likes": [(FA, "        if self.use_gpu and count >= 1024:\n            return self.model.recommend(\n                userid,\n                user_items,\n                N=N,\n                filter_already_liked_items=filter_already_liked_items,", "        if self.use_gpu and count >= 1024:\n            return self.model.recommend(\n                userid,\n                user_items,\n                N=N,\n                filter_already_liked_items=False,")],
        "knn_sim_filter": [(NN, "            mask = np.in1d(ids, filter_items, invert=True)\n            ids, scores = ids[mask], scores[mask]\n", "            mask = np.in1d(scores, filter_items, invert=True)\n            ids, scores = ids[mask], scores[mask]\n")],
    },
}
MUTANTS["C09"] = {
    "or_none": [(U, "    return np.random.default_rng(random_state)\n", "    return np.random.default_rng(random_state or None)\n")],
    "if_truth": [(U, "    return np.random.default_rng(random_state)\n", "    if not random_state:\n        return np.random.default_rng()\n    return np.random.default_rng(random_state)\n")],
    "global_users": [(ALS, "self.user_factors = random_state.random((users, self.factors), dtype=self.dtype) * 0.01",
                      "self.user_factors = np.random.rand(users, self.factors).astype(self.dtype) * 0.01")],
    "global_shuffle": [(EV, "shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()", "shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()")],
    "choice_global": [(EV, "arr = rng.choice(n, size=size, replace=False)", "arr = np.random.choice(n, size=size, replace=False)")],
    "no_state": [(EV, "    random_state = check_random_state(random_state)\n    random_index", "    random_state = check_random_state(None)\n    random_index")],
    "seed_index": [(BPR, "mt19937(rng_seeds[i])", "mt19937(rng_seeds[0])")],
    "seed_const": [(LMF, "mt19937(rng_seeds[i])", "mt19937(i)")],
    "gen_zero": [(BPR, "disliked_index = rng.generate(thread_id)", "disliked_index = rng.generate(0)")],
    "gen_holder": [(LMF, "self.dist[thread_id](self.rng[thread_id])", "self.dist[thread_id](self.rng[0])")],
    "dynamic": [(LMF, "prange(n_users, schedule='static')", "prange(n_users, schedule='dynamic', chunksize=8)")],
    "guided": [(BPR, "prange(samples, schedule='static')", "prange(samples, schedule='guided')")],
    "outside": [(BPR, "        thread_id = get_thread_num()\n", ""), (BPR, "    with nogil, parallel(num_threads=num_threads):\n", "    thread_id = get_thread_num()\n    with nogil, parallel(num_threads=num_threads):\n")],
    "seeds_global": [(LMF, "rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype=\"long\")", "rng_seeds = np.random.randint(0, 2**31, size=num_threads, dtype=\"long\")")],
    "seeds_arange": [(BPR, "rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype=\"long\")", "rng_seeds = np.arange(num_threads, dtype=\"long\")")],
    "drop_legacy": [(U, "    if isinstance(random_state, np.random.RandomState):\n        return np.random.default_rng(random_state.randint(2**31))\n", "")],
    "gpu_time": [("gpu/matrix_factorization_base.py", "    if random_state is None:\n", "    if not random_state:\n")],
    "ctor_or": [(ALS, "self.random_state = random_state", "self.random_state = random_state if random_state else None")],
    "loop_i": [(BPR, "liked_index = rng.generate(thread_id)", "liked_index = rng.generate(i % num_threads)")],
    "py_random": [(LMF, "        rs = check_random_state(self.random_state)\n", "        rs = check_random_state(self.random_state if self.random_state is not None else random.randint(0, 10))\n        rs = check_random_state(random.getrandbits(30))\n")],
}

MUTANTS["C10"] = {
    "scratch_outside": [(CY, "        r = <floating *> malloc(sizeof(floating) * N)\n        try:\n            for u in prange(users, schedule='dynamic', chunksize=8):\n                # calculates",
                         "        try:\n            for u in prange(users, schedule='dynamic', chunksize=8):\n                # calculates"),
                        (CY, "    cdef double loss = 0, total_confidence = 0", "    r = <floating *> malloc(sizeof(floating) * N)\n    cdef double loss = 0, total_confidence = 0"),
                        (CY, "        finally:\n            free(r)\n\n    loss +=", "        finally:\n            pass\n    free(r)\n    loss +=")],
    "als_scratch_outside": [(CY, "        A = <floating *> malloc(sizeof(floating) * factors * factors)\n", ""),
                            (CY, "    with nogil, parallel(num_threads=num_threads):\n        # allocate temp memory for each thread\n        b =",
                             "    A = <floating *> malloc(sizeof(floating) * factors * factors)\n    with nogil, parallel(num_threads=num_threads):\n        # allocate temp memory for each thread\n        b ="),
                            (CY, "            free(A)\n", "            pass\n")],
    "knn_shared_acc": [(PNN, "        neighbours = new SparseMatrixMultiplier[int, double](item_count)\n", ""),
                       (PNN, "    progress = tqdm(total=item_count", "    neighbours = new SparseMatrixMultiplier[int, double](item_count)\n    progress = tqdm(total=item_count"),
                       (PNN, "            del neighbours\n            del topk\n", "            del topk\n")],
    "knn_shared_topk": [(PNN, "        topk = new TopK[int, double](K)\n\n        try", "        try"),
                        (PNN, "    progress = tqdm(total=item_count", "    topk = new TopK[int, double](K)\n    progress = tqdm(total=item_count"),
                        (PNN, "            del neighbours\n            del topk\n", "            del neighbours\n")],
    "out_i": [(PNN, "out = <size_t> K * i", "out = <size_t> i")],
    "out_k1": [(PNN, "out = <size_t> K * i", "out = <size_t> (K - 1) * i")],
    "out_0": [(PNN, "out = <size_t> K * i", "out = 0")],
    "out_mod": [(PNN, "out = <size_t> K * i", "out = <size_t> K * (i // 2)")],
    "no_lock": [(PNN, "            with self.lock:\n                with nogil:\n", "            if True:\n                with nogil:\n")],
    "lock_split": [(PNN, "                    self.neighbours.foreach(dereference(topK))\n\n            count", "            with self.lock:\n                with nogil:\n                    self.neighbours.foreach(dereference(topK))\n\n            count")],
    "foreach_unlocked": [(PNN, "                    self.neighbours.foreach(dereference(topK))\n\n            count", "            with nogil:\n                self.neighbours.foreach(dereference(topK))\n\n            count")],
    "fresh_lock": [(PNN, "            with self.lock:\n", "            with threading.RLock():\n")],
    "sums_unlocked": [(PNN, "            count = topK.results.size()\n", "            if remove_own_likes:\n                for index1 in range(user_indptr[0], user_indptr[1]):\n                    self.neighbours.sums[user_indices[index1]] = 0\n            count = topK.results.size()\n")],
    "loss_plain": [(CY, "                    loss += confidence\n", "                    loss = loss + confidence\n"), (CY, "                loss += dot(&N, r", "                loss = loss + dot(&N, r")],
    "topk_overlap": [(TK, "startidx = batch * batch_size", "startidx = (batch // 2) * batch_size")],
    "topk_offset": [(TK, "cdef size_t offset = <size_t> startidx * k", "cdef size_t offset = 0")],
    "lmf_shared_deriv": [(LMF, "        deriv = <floating*> malloc(sizeof(floating) * n_factors)\n        thread_id", "        thread_id"),
                         (LMF, "    with nogil, parallel(num_threads=num_threads):\n", "    deriv = <floating*> malloc(sizeof(floating) * n_factors)\n    with nogil, parallel(num_threads=num_threads):\n"),
                         (LMF, "            free(deriv)", "            pass")],
    "lmf_item_write": [(LMF, "user_vectors[u, _] += (lr / (sqrt(1e-6 + deriv_sum_sq[u, _]))) * deriv[_]", "item_vectors[i, _] += (lr / (sqrt(1e-6 + deriv_sum_sq[u, _]))) * deriv[_]")],
    "lmf_sum_zero": [(LMF, "deriv_sum_sq[u, _] += deriv[_] * deriv[_]", "deriv_sum_sq[0, _] += deriv[_] * deriv[_]")],
    "cg_warm": [(CY, "                symv(b\"U\", &N, &temp, &YtY[0, 0], &N, x, &one, &zero, r, &one)\n\n                for index in range(indptr[u], indptr[u + 1]):\n                    i = indices[index]\n                    confidence = data[index]\n\n                    if confidence > 0:\n                        temp = confidence\n",
                 "                if u > 0:\n                    memcpy(x, &X[u - 1, 0], sizeof(floating) * N)\n                symv(b\"U\", &N, &temp, &YtY[0, 0], &N, x, &one, &zero, r, &one)\n\n                for index in range(indptr[u], indptr[u + 1]):\n                    i = indices[index]\n                    confidence = data[index]\n\n                    if confidence > 0:\n                        temp = confidence\n")],
    "static_select": [(SEL, "  std::vector<std::pair<T, int>> results;", "  static std::vector<std::pair<T, int>> results;")],
    "initialB_shared": [(CY, "                memcpy(b, &initialB[0], sizeof(floating) * factors)\n", "                memcpy(b, &initialB[0], sizeof(floating) * factors)\n                initialB[0] = 0\n")],
    "axpy_initialA": [(CY, "axpy(&factors, &temp, &Y[i, 0], &one, A + j * factors, &one)", "axpy(&factors, &temp, &Y[i, 0], &one, &initialA[j, 0], &one)")],
}

MUTANTS["C11"] = {
    "cg_free_r": [(CY, "            free(p)\n            free(r)\n", "            free(p)\n")],
    "cg_double": [(CY, "            free(p)\n            free(r)\n", "            free(p)\n            free(p)\n            free(r)\n")],
    "als_no_finally": [(CY, "        finally:\n            free(A)\n            free(b)\n", "        except ValueError:\n            with gil:\n                raise\n        else:\n            free(A)\n            free(b)\n")],
    "als_free_early": [(CY, "                if not err:\n                    memcpy(&X[u, 0], b", "                free(b)\n                if not err:\n                    memcpy(&X[u, 0], b"), (CY, "            free(A)\n            free(b)", "            free(A)")],
    "topk_no_finally": [(PNN, "        finally:\n            del topK\n", "        finally:\n            pass\n")],
    "topk_early_del": [(PNN, "            with nogil:\n                i = 0\n", "            del topK\n            with nogil:\n                i = 0\n"), (PNN, "        finally:\n            del topK\n", "        finally:\n            pass\n")],
    "new_before_check": [(PNN, "        cdef int item_count = self.neighbours.sums.size()\n", "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        cdef int item_count = self.neighbours.sums.size()\n"), (PNN, "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        try", "        try")],
    "alloc_outside_try": [(PNN, "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        try", "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        user_seen = np.unique(user_indices)\n        try")],
    "no_dealloc": [(PNN, "    def __dealloc__(self):\n        del self.neighbours\n", "")],
    "recreate": [(PNN, "            count = topK.results.size()\n", "            self.neighbours = new SparseMatrixMultiplier[int, double](item_count)\n            count = topK.results.size()\n")],
    "close_method": [(PNN, "    def __dealloc__(self):\n", "    def close(self):\n        del self.neighbours\n\n    def __dealloc__(self):\n")],
    "init_alloc": [(PNN, "    def __cinit__(self, similarity):\n", "    def __init__(self, similarity):\n")],
    "lock_by_hand": [(PNN, "            with self.lock:\n                with nogil:\n", "            self.lock.acquire()\n            if True:\n                with nogil:\n"), (PNN, "            count = topK.results.size()\n", "            count = topK.results.size()\n            ret_indices = np.zeros(count, dtype=np.int32)\n            self.lock.release()\n")],
    "knn_del_in_loop": [(PNN, "                with gil:\n                    progress.update(1)\n", "                with gil:\n                    progress.update(1)\n                del topk\n"), (PNN, "            del neighbours\n            del topk\n", "            del neighbours\n")],
    "knn_leak": [(PNN, "            del neighbours\n            del topk\n", "            del topk\n")],
    "knn_alloc_loop": [(PNN, "                topk.results.clear()\n", "                topk = new TopK[int, double](K)\n"), (PNN, "        topk = new TopK[int, double](K)\n\n        try", "        try")],
    "lmf_free_continue": [(LMF, "        finally:\n            free(deriv)", "        finally:\n            pass")],
    "lmf_alloc_loop": [(LMF, "                memset(deriv, 0, sizeof(floating) * n_factors)\n", "                deriv = <floating*> malloc(sizeof(floating) * n_factors)\n                memset(deriv, 0, sizeof(floating) * n_factors)\n")],
    "gpu_dealloc": [("gpu/_cuda.pyx", "        del self.c_random\n", "        pass\n")],
}

MUTANTS["C19"] = {
    "als_every_other": [("cpu/als.py", "                if callback:\n                    callback(iteration", "                if callback and iteration % 2 == 0:\n                    callback(iteration")],
    "als_index_plus": [("cpu/als.py", "callback(iteration, time", "callback(iteration + 1, time")],
    "als_before_items": [("cpu/als.py", "                solver(\n                    Ciu,", "                if callback:\n                    callback(iteration, time.time() - s, loss)\n                solver(\n                    Ciu,"),
                         ("cpu/als.py", "                if callback:\n                    callback(iteration, time.time() - s, loss)\n\n", "\n")],
    "als_only_loss": [("cpu/als.py", "                if callback:\n                    callback(iteration", "                if callback and self.calculate_training_loss:\n                    callback(iteration")],
    "als_break": [("cpu/als.py", "                # Backward compatibility", "                if loss is not None and loss < 1e-9:\n                    break\n                # Backward compatibility")],
    "als_range1": [("cpu/als.py", "for iteration in range(self.iterations):", "for iteration in range(1, self.iterations):")],
    "als_plus1": [("cpu/als.py", "for iteration in range(self.iterations):", "for iteration in range(self.iterations + 1):")],
    "als_twice": [("cpu/als.py", "        if self.calculate_training_loss:\n            log.info(\"Final", "        if callback:\n            callback(self.iterations, 0, loss)\n        if self.calculate_training_loss:\n            log.info(\"Final")],
    "als_return": [("cpu/als.py", "                progress.update(1)\n", "                progress.update(1)\n                if not np.isfinite(self.user_factors).all():\n                    return\n")],
    "als_once": [("cpu/als.py", "callback(iteration, time.time() - s, loss)\n", "callback(iteration, time.time() - s, loss)\n                    callback = None\n")],
    "bpr_continue": [("cpu/bpr.pyx", "                if callback:\n", "                if skipped == total:\n                    continue\n                if callback:\n")],
    "bpr_progress_only": [("cpu/bpr.pyx", "                if callback:\n", "                if callback and show_progress:\n")],
    "lmf_dedent": [("cpu/lmf.pyx", "                if callback:\n                    callback(epoch, time.time() - s)", "            if callback:\n                callback(epoch, time.time() - s)")],
    "lmf_index": [("cpu/lmf.pyx", "callback(epoch, time.time() - s)", "callback(time.time() - s, epoch)")],
    "lmf_between": [("cpu/lmf.pyx", "                if callback:\n                    callback(epoch, time.time() - s)", "                pass"), ("cpu/lmf.pyx", "                s = time.time()\n", "                s = time.time()\n                if callback:\n                    callback(epoch, time.time() - s)\n")],
    "knn_ignore": [("nearest_neighbours.py", "        if callback:\n            raise NotImplementedError", "        if callback and show_progress:\n            raise NotImplementedError")],
    "knn_warn": [("nearest_neighbours.py", "            raise NotImplementedError(\"callback", "            warnings.warn(\"callback")],
    "tfidf_drop": [("nearest_neighbours.py", "ItemItemRecommender.fit(self, weighted, show_progress, callback)", "ItemItemRecommender.fit(self, weighted, show_progress)")],
    "annoy_drop": [("ann/annoy.py", "self.model.fit(Cui, show_progress, callback)", "self.model.fit(Cui, show_progress)")],
    "faiss_twice": [("ann/faiss.py", "        self.model.fit(Cui, show_progress, callback=callback)\n", "        self.model.fit(Cui, show_progress, callback=callback)\n        if not show_progress:\n            self.model.fit(Cui, show_progress, callback=callback)\n")],
    "gpu_als_missed": [("gpu/als.py", "                if callback:\n                    callback(iteration", "                if callback and loss is not None:\n                    callback(iteration")],
    "gpu_bpr_break": [("gpu/bpr.py", "                if callback:\n", "                if total == 0:\n                    break\n                if callback:\n")],
}

_CHK = "        is_nan = np.any(np.isnan(self.user_factors), axis=None)\n        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n"
MUTANTS["C17"] = {
    "only_users": [("cpu/matrix_factorization_base.py", "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n", "")],
    "only_items": [("cpu/matrix_factorization_base.py", _CHK, "        is_nan = np.any(np.isnan(self.item_factors), axis=None)\n")],
    "both_and": [("cpu/matrix_factorization_base.py", "is_nan |=", "is_nan &=")],
    "first_row": [("cpu/matrix_factorization_base.py", "np.isnan(self.item_factors)", "np.isnan(self.item_factors[0])")],
    "all": [("cpu/matrix_factorization_base.py", "np.any(np.isnan(self.item_factors), axis=None)", "np.all(np.isnan(self.item_factors), axis=None)")],
    "overwrite": [("cpu/matrix_factorization_base.py", "is_nan |=", "is_nan =")],
    "isinf": [("cpu/matrix_factorization_base.py", "np.isnan(self.item_factors)", "np.isinf(self.item_factors)")],
    "warn": [("cpu/matrix_factorization_base.py", "            raise ModelFitError(\"NaN encountered in factors\")", "            warnings.warn(\"NaN encountered in factors\")")],
    "als_only_loss": [("cpu/als.py", "            log.info(\"Final training loss %.4f\", loss)\n\n        self._check_fit_errors()", "            log.info(\"Final training loss %.4f\", loss)\n            self._check_fit_errors()")],
    "als_skip_cg": [("cpu/als.py", "        self._check_fit_errors()\n", "        if self.use_cg:\n            self._check_fit_errors()\n")],
    "bpr_noverify": [("cpu/bpr.pyx", "        self._check_fit_errors()\n", "        if self.verify_negative_samples:\n            self._check_fit_errors()\n")],
    "bpr_drop": [("cpu/bpr.pyx", "        self._check_fit_errors()\n", "        pass\n")],
    "lmf_early": [("cpu/lmf.pyx", "        self._check_fit_errors()\n", "        pass\n"), ("cpu/lmf.pyx", "        with tqdm(total=self.iterations", "        self._check_fit_errors()\n        with tqdm(total=self.iterations")],
    "lmf_nan_to_num": [("cpu/lmf.pyx", "        self._check_fit_errors()\n", "        self.item_factors = np.nan_to_num(self.item_factors)\n        self._check_fit_errors()\n")],
    "als_try": [("cpu/als.py", "        self._check_fit_errors()\n", "        try:\n            self._check_fit_errors()\n        except Exception:\n            log.exception('training failed')\n")],
    "posv_store_always": [("cpu/_als.pyx", "                if not err:\n                    memcpy(&X[u, 0], b, sizeof(floating) * factors)\n                else:", "                memcpy(&X[u, 0], b, sizeof(floating) * factors)\n                if err:")],
    "posv_ignore": [("cpu/_als.pyx", "                    with gil:\n                        raise ValueError(\"cython_lapack.posv failed (err=%i) on row %i. Try \"\n                                         \"increasing the regularization parameter.\" % (err, u))", "                    memset(&X[u, 0], 0, sizeof(floating) * factors)")],
    "posv_direct": [("cpu/_als.pyx", "posv(b\"U\", &factors, &one, A, &factors, b, &factors, &err)", "posv(b\"U\", &factors, &one, A, &factors, &X[u, 0], &factors, &err)")],
    "posv_neg_only": [("cpu/_als.pyx", "                if not err:", "                if err >= 0:")],
    "fit_catch": [("cpu/als.py", "                solver(\n                    Cui,\n                    self.user_factors,\n                    self.item_factors,\n                    self.regularization,\n                    num_threads=self.num_threads,\n                )\n", "                try:\n                    solver(\n                        Cui,\n                        self.user_factors,\n                        self.item_factors,\n                        self.regularization,\n                        num_threads=self.num_threads,\n                    )\n                except ValueError as e:\n                    log.warning('solver failed: %s', e)\n")],
    "py_catch": [("cpu/als.py", "    return np.linalg.solve(A, b)\n", "    try:\n        return np.linalg.solve(A, b)\n    except np.linalg.LinAlgError:\n        return np.zeros_like(b)\n")],
}

MUTANTS["C13"] = {
    "als_drop_alpha": [("cpu/als.py", '            "alpha": self.alpha,\n        }', "        }")],
    "als_drop_cgsteps": [("cpu/als.py", '            "cg_steps": self.cg_steps,\n', "")],
    "als_swap": [("cpu/als.py", '"use_cg": self.use_cg,', '"use_cg": self.use_native,')],
    "als_f16": [("cpu/als.py", '"item_factors": self.item_factors,\n            "regularization', '"item_factors": self.item_factors.astype(np.float16),\n            "regularization')],
    "bpr_drop_verify": [("cpu/bpr.pyx", "            verify_negative_samples=self.verify_negative_samples,\n            num_threads", "            num_threads")],
    "bpr_drop_lr": [("cpu/bpr.pyx", "            learning_rate=self.learning_rate,\n            verify_negative_samples=self.verify_negative_samples,\n            num_threads", "            verify_negative_samples=self.verify_negative_samples,\n            num_threads")],
    "lmf_key": [("cpu/lmf.pyx", "neg_prop=self.neg_prop,", "negative_prop=self.neg_prop,")],
    "filter_truthy": [("utils.py", "if not isinstance(v, unsupported)}", "if v is True or np.any(v)}")],
    "filter_bool": [("utils.py", "if not isinstance(v, unsupported)}", "if v}")],
    "filter_none_only": [("utils.py", "if not isinstance(v, unsupported)}", "if v is not None}")],
    "als_nofilter": [("cpu/als.py", "**filter_save_args(args)", "**args")],
    "als_dtype_obj": [("cpu/als.py", '"dtype": self.dtype.name', '"dtype": self.dtype')],
    "load_suffix": [("recommender_base.py", '        if isinstance(fileobj_or_path, str) and not fileobj_or_path.endswith(".npz"):\n            fileobj_or_path = fileobj_or_path + ".npz"\n', "")],
    "load_skip": [("recommender_base.py", "                setattr(ret, k, v)", "                if hasattr(ret, k) and v is not False:\n                    setattr(ret, k, v)")],
    "load_onlyarrays": [("recommender_base.py", "                elif v.shape == ():\n                    v = v.item()\n", "                elif v.shape == ():\n                    continue\n")],
    "load_f32": [("recommender_base.py", "                setattr(ret, k, v)", "                setattr(ret, k, v.astype(np.float32) if k.endswith('factors') else v)")],
    "load_dtype_name": [("recommender_base.py", "                if k == \"dtype\":\n                    v = np.dtype(str(v))\n                elif v.shape", "                if v.shape")],
    "knn_class": [("nearest_neighbours.py", "            ret = cls()\n", "            ret = ItemItemRecommender()\n")],
    "knn_excl": [("nearest_neighbours.py", 'if k not in ("similarity", "scorer")}', 'if k not in ("similarity", "scorer", "num_threads", "K1")}')],
    "knn_swap": [("nearest_neighbours.py", '(data["data"], data["indices"], data["indptr"])', '(data["data"], data["indptr"], data["indices"])')],
    "knn_noshape": [("nearest_neighbours.py", '(data["data"], data["indices"], data["indptr"]), shape=data["shape"]\n', '(data["data"], data["indices"], data["indptr"])\n')],
    "knn_noscorer": [("nearest_neighbours.py", "                ret.scorer = NearestNeighboursScorer(similarity)\n            for", "            for")],
    "knn_setstate": [("nearest_neighbours.py", "        if self.similarity is not None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n        else:\n            self.scorer = None", "        if self.similarity is not None:\n            self.scorer = NearestNeighboursScorer(self.similarity)")],
    "knn_setstate_none": [("nearest_neighbours.py", "        if self.similarity is not None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n        else:\n            self.scorer = None", "        self.scorer = None")],
    "knn_getstate_sim": [("nearest_neighbours.py", '        del state["scorer"]\n', '        del state["scorer"]\n        del state["num_threads"]\n')],
    "knn_restore": [("nearest_neighbours.py", 'if k not in ("shape", "data", "indptr", "indices"):', 'if k not in ("shape", "data", "indptr", "indices", "K"):')],
    "gpu_getstate": [("gpu/matrix_factorization_base.py", 'state["user_factors"] = self.user_factors.to_numpy()', 'state["user_factors"] = self.item_factors.to_numpy()')],
}

MUTANTS["C14"] = {
    "bm25_swap": [("nearest_neighbours.py", "bm25_weight(counts.T, self.K1, self.B)", "bm25_weight(counts.T, self.B, self.K1)")],
    "als_positional_shift": [("als.py", "        use_native,\n        use_cg,\n        iterations,", "        use_cg,\n        use_native,\n        iterations,")],
    "als_gpu_no_alpha": [("als.py", "            regularization,\n            alpha,\n            dtype=dtype,", "            regularization,\n            dtype=dtype,")],
    "als_rs_or_none": [("als.py", "        num_threads,\n        random_state,\n    )", "        num_threads,\n        random_state or None,\n    )")],
    "bpr_no_verify": [("bpr.py", "        iterations=iterations,\n        verify_negative_samples=verify_negative_samples,", "        iterations=iterations,")],
    "bpr_swap": [("bpr.py", "        factors,\n        learning_rate,\n        regularization,\n        dtype=dtype,", "        factors,\n        regularization,\n        learning_rate,\n        dtype=dtype,")],
    "lmf_no_threads": [("lmf.py", "        num_threads=num_threads,\n", "")],
    "lmf_neg": [("lmf.py", "neg_prop=neg_prop,", "neg_prop=int(neg_prop) or 30,")],
    "ctor_alpha": [("cpu/als.py", "        self.alpha = alpha\n", "        self.alpha = 1.0\n")],
    "ctor_reg": [("cpu/als.py", "        self.regularization = regularization\n", "        self.regularization = regularization * alpha\n")],
    "ctor_threads": [("cpu/als.py", "super().__init__(num_threads=num_threads)", "super().__init__()")],
    "ctor_bm25": [("nearest_neighbours.py", "super().__init__(K, num_threads)", "super().__init__(K)")],
    "ctor_bm25_b": [("nearest_neighbours.py", "        self.B = B\n", "        self.B = K1\n")],
    "ctor_lmf_dtype": [("cpu/lmf.pyx", "self.dtype = np.dtype(dtype)", "self.dtype = np.dtype(np.float32)")],
    "annoy_search_k": [("ann/annoy.py", "search_k=self.search_k", "search_k=-1"), ("ann/annoy.py", "search_k=self.search_k", "search_k=-1")],
    "k_clamp": [("nearest_neighbours.py", "        self.K = K\n", "        self.K = max(K, 20)\n")],
    "nms_params_falsy": [("ann/nmslib.py", "if index_params is None:", "if not index_params:")],
    "nms_query_default": [("ann/nmslib.py", "self.query_params = query_params", "self.query_params = {'ef': 90}")],
    "nms_hnsw": [("ann/nmslib.py", 'self.recommend_index = nmslib.init(method=self.method', 'self.recommend_index = nmslib.init(method="hnsw"')],
    "faiss_nprobe_once": [("ann/faiss.py", "            index.nprobe = self.nprobe\n            self.similar_items_index", "            self.similar_items_index")],
    "annoy_trees": [("ann/annoy.py", "self.recommend_index.build(self.n_trees)", "self.recommend_index.build(50)")],
    "fact_annoy_swap": [("approximate_als.py", "n_trees=n_trees,\n        search_k=search_k", "n_trees=search_k,\n        search_k=n_trees")],
    "fact_faiss_nprobe": [("approximate_als.py", "        nprobe=nprobe,\n", "")],
    "fact_kwargs": [("approximate_als.py", "als_model = implicit.als.AlternatingLeastSquares(*args, use_gpu=use_gpu, **kwargs)", "als_model = implicit.als.AlternatingLeastSquares(*args, use_gpu=use_gpu)")],
    "fact_usegpu": [("approximate_als.py", "als_model = implicit.als.AlternatingLeastSquares(*args, use_gpu=use_gpu, **kwargs)", "als_model = implicit.als.AlternatingLeastSquares(*args, **kwargs)")],
    "fact_approx": [("approximate_als.py", "approximate_recommend=approximate_recommend,\n        n_trees", "approximate_recommend=approximate_similar_items,\n        n_trees")],
    "to_gpu_alpha": [("cpu/als.py", "            alpha=self.alpha,\n            dtype=self.dtype,\n            iterations", "            dtype=self.dtype,\n            iterations")],
    "to_gpu_cg": [("cpu/als.py", "        ret.cg_steps = self.cg_steps\n        if self.user_factors", "        if self.user_factors")],
    "to_gpu_swap": [("cpu/als.py", "ret.user_factors = implicit.gpu.Matrix(self.user_factors)", "ret.user_factors = implicit.gpu.Matrix(self.item_factors)")],
    "to_gpu_guard": [("cpu/bpr.pyx", "        if self.item_factors is not None:\n            ret.item_factors = implicit.gpu", "        if self.user_factors is None:\n            ret.item_factors = implicit.gpu")],
    "to_cpu_rs": [("gpu/als.py", "            random_state=self.random_state,\n        )\n        ret.cg_steps", "        )\n        ret.cg_steps")],
    "to_cpu_item": [("gpu/bpr.py", "ret.item_factors = self.item_factors.to_numpy()", "ret.item_factors = self.user_factors.to_numpy()")],
    "to_cpu_verify": [("gpu/bpr.py", "            verify_negative_samples=self.verify_negative_samples,\n            random_state=self.random_state,\n        )\n        ret", "            random_state=self.random_state,\n        )\n        ret")],
}

MUTANTS["C15"] = {
    'gt': [('evaluation.pyx', 'test_index = random_index >= train_percentage', 'test_index = random_index > train_percentage')],
    'both': [('evaluation.pyx', 'test_index = random_index >= train_percentage', 'test_index = random_index <= train_percentage')],
    'redraw': [('evaluation.pyx', 'test_index = random_index >= train_percentage', 'test_index = random_state.random(len(ratings.data)) >= train_percentage')],
    'thr': [('evaluation.pyx', 'test_index = random_index >= train_percentage', 'test_index = random_index >= 1 - train_percentage')],
    'col_mix': [('evaluation.pyx', 'ratings.row[test_index], ratings.col[test_index]', 'ratings.row[test_index], ratings.col[train_index]')],
    'rowcol': [('evaluation.pyx', '(ratings.row[test_index], ratings.col[test_index])', '(ratings.col[test_index], ratings.row[test_index])')],
    'noshape': [('evaluation.pyx', 'shape=ratings.shape, dtype=ratings.dtype)\n\n    test =', 'dtype=ratings.dtype)\n\n    test =')],
    'train_zero': [('evaluation.pyx', '    test.eliminate_zeros()', '    test.eliminate_zeros()\n    train.eliminate_zeros()')],
    'test_clip': [('evaluation.pyx', 'test.data[test.data < 0] = 0', 'test.data[test.data < 1] = 0')],
    'test_abs': [('evaluation.pyx', 'test.data[test.data < 0] = 0', 'test.data[test.data > 0] = 1')],
    'train_neg': [('evaluation.pyx', '    test.data[test.data < 0] = 0', '    train.data[train.data < 0] = 0\n    test.data[test.data < 0] = 0')],
    'swap_ret': [('evaluation.pyx', 'return train, test', 'return test, train')],
    'dtype': [('evaluation.pyx', 'shape=ratings.shape, dtype=ratings.dtype)\n\n    test =', 'shape=ratings.shape, dtype=np.float32)\n\n    test =')],
    'elig_k': [('evaluation.pyx', 'candidate_mask = counts > K + 1', 'candidate_mask = counts > K')],
    'elig_ge': [('evaluation.pyx', 'candidate_mask = counts > K + 1', 'candidate_mask = counts >= K')],
    'elig_const': [('evaluation.pyx', 'candidate_mask = counts > K + 1', 'candidate_mask = counts > 2')],
    'reserve_pos': [('evaluation.pyx', 'unique_users, unique_users[_choose(random_state, len(unique_users), train_only_size)]', 'unique_users, _choose(random_state, len(unique_users), train_only_size)')],
    'reserve_inv': [('evaluation.pyx', 'train_only_mask = ~np.isin', 'train_only_mask = np.isin')],
    'reserve_or': [('evaluation.pyx', 'candidate_mask = train_only_mask & candidate_mask', 'candidate_mask = train_only_mask | candidate_mask')],
    'reserve_drop': [('evaluation.pyx', 'candidate_mask = train_only_mask & candidate_mask', 'candidate_mask = candidate_mask & candidate_mask')],
    'reserve_only': [('evaluation.pyx', 'candidate_mask = train_only_mask & candidate_mask', 'candidate_mask = train_only_mask')],
    'raw_users': [('evaluation.pyx', 'random_state, candidate_rows, K,', 'random_state, candidate_users, K,')],
    'items_group': [('evaluation.pyx', 'np.unique(candidate_users, return_inverse=True)', 'np.unique(candidate_items, return_inverse=True)')],
    'no_idx': [('evaluation.pyx', 'return idx[tails], idx[heads]', 'return tails, heads')],
    'start': [('evaluation.pyx', 'start = end - n', 'start = end - n + 1')],
    'num': [('evaluation.pyx', 'num=n + 1, dtype=int)[1:]', 'num=n, dtype=int)')],
    'num0': [('evaluation.pyx', 'num=n + 1, dtype=int)[1:]', 'num=n + 1, dtype=int)[:-1]')],
    'end': [('evaluation.pyx', 'cumsum() - 1', 'cumsum()')],
    'noise': [('evaluation.pyx', '(sorted_arr + rng.random(arr.shape))', '(sorted_arr + n * rng.random(arr.shape))')],
    'noise_all': [('evaluation.pyx', '(sorted_arr + rng.random(arr.shape))', '(rng.random(arr.shape))')],
    'noise_unsorted': [('evaluation.pyx', '(sorted_arr + rng.random(arr.shape))', '(arr + rng.random(arr.shape))')],
    'train_mask': [('evaluation.pyx', 'np.r_[users[~full_candidate_mask], candidate_users[train_idx]]', 'np.r_[users[~full_candidate_mask], candidate_users[test_idx]]')],
    'train_order': [('evaluation.pyx', 'np.r_[data[~full_candidate_mask], candidate_data[train_idx]]', 'np.r_[candidate_data[train_idx], data[~full_candidate_mask]]')],
    'train_lost': [('evaluation.pyx', 'np.r_[users[~full_candidate_mask], candidate_users[train_idx]]', 'candidate_users[train_idx]'), ('evaluation.pyx', 'np.r_[items[~full_candidate_mask], candidate_items[train_idx]]', 'candidate_items[train_idx]'), ('evaluation.pyx', 'np.r_[data[~full_candidate_mask], candidate_data[train_idx]]', 'candidate_data[train_idx]')],
    'train_all': [('evaluation.pyx', 'users[~full_candidate_mask], cand', 'users[full_candidate_mask], cand'), ('evaluation.pyx', 'items[~full_candidate_mask], cand', 'items[full_candidate_mask], cand'), ('evaluation.pyx', 'data[~full_candidate_mask], cand', 'data[full_candidate_mask], cand')],
    'range1': [('evaluation.pyx', 'np.arange(len(candidate_users), dtype=int)', 'np.arange(1, len(candidate_users), dtype=int)')],
    'range_len': [('evaluation.pyx', 'np.arange(len(candidate_users), dtype=int)', 'np.arange(len(candidate_users) - 1, dtype=int)')],
    'idx_twice': [('evaluation.pyx', 'return idx[tails], idx[heads]', 'return idx[idx[tails]], idx[heads]')],
    'lk_elim': [('evaluation.pyx', '    return train_mat, test_mat', '    train_mat.eliminate_zeros()\n    return train_mat, test_mat')],
    'lk_swap': [('evaluation.pyx', '    return train_mat, test_mat', '    return test_mat, train_mat')],
}

MUTANTS["C16"] = {
    'no_clear': [('evaluation.pyx', '                likes.clear()\n', '')],
    'clear_batch': [('evaluation.pyx', '                likes.clear()\n', ''), ('evaluation.pyx', '            for batch_idx in range(len(batch)):\n', '            likes.clear()\n            for batch_idx in range(len(batch)):\n')],
    'no_ap': [('evaluation.pyx', '                ap = 0\n', '')],
    'no_hit': [('evaluation.pyx', '                hit = 0\n', ''), ('evaluation.pyx', 'auc, hit, miss,', 'auc = 0, hit = 0, miss = 0,')],
    'no_miss': [('evaluation.pyx', '                miss = 0\n', ''), ('evaluation.pyx', 'auc, hit, miss,', 'auc = 0, hit = 0, miss = 0,')],
    'no_auc': [('evaluation.pyx', '                auc = 0\n', ''), ('evaluation.pyx', 'auc, hit, miss,', 'auc = 0, hit = 0, miss = 0,')],
    'countK': [('evaluation.pyx', 'count = min(K, ids.shape[1])', 'count = K')],
    'noN': [('evaluation.pyx', 'train_user_items[batch], N=K)', 'train_user_items[batch])')],
    'train_all': [('evaluation.pyx', 'train_user_items[batch], N=K)', 'train_user_items, N=K)')],
    'train_test': [('evaluation.pyx', 'train_user_items[batch], N=K)', 'test_user_items[batch], N=K)')],
    'no_filter': [('evaluation.pyx', 'train_user_items[batch], N=K)', 'train_user_items[batch], N=K, filter_already_liked_items=False)')],
    'likes_train': [('evaluation.pyx', 'test_indptr = test_user_items.indptr', 'test_indptr = train_user_items.indptr'), ('evaluation.pyx', 'test_indices = test_user_items.indices', 'test_indices = train_user_items.indices')],
    'step1': [('evaluation.pyx', 'start_idx += batch_size', 'start_idx += batch_size - 1')],
    'stepp': [('evaluation.pyx', 'start_idx += batch_size', 'start_idx += batch_size + 1')],
    'lt': [('evaluation.pyx', 'while start_idx < len(to_generate):', 'while start_idx < len(to_generate) - 1:')],
    'lt2': [('evaluation.pyx', 'while start_idx < len(to_generate):', 'while start_idx + batch_size <= len(to_generate):')],
    'ge0': [('evaluation.pyx', 'np.ediff1d(test_user_items.indptr) > 0]', 'np.ediff1d(test_user_items.indptr) >= 0]')],
    'gt1': [('evaluation.pyx', 'np.ediff1d(test_user_items.indptr) > 0]', 'np.ediff1d(test_user_items.indptr) > 1]')],
    'train_users': [('evaluation.pyx', 'np.ediff1d(test_user_items.indptr) > 0]', 'np.ediff1d(train_user_items.indptr) > 0]')],
    'u_batch': [('evaluation.pyx', 'u = batch[batch_idx]', 'u = batch_idx')],
    'u_off': [('evaluation.pyx', 'u = batch[batch_idx]', 'u = start_idx + batch_idx')],
    'u2': [('evaluation.pyx', 'range(test_indptr[u], test_indptr[u+1])', 'range(test_indptr[u], test_indptr[u+2])')],
    'um': [('evaluation.pyx', 'range(test_indptr[u], test_indptr[u+1])', 'range(test_indptr[u], test_indptr[u+1] - 1)')],
    'idx_i': [('evaluation.pyx', 'likes.insert(test_indices[i])', 'likes.insert(i)')],
    'ids_u': [('evaluation.pyx', 'likes.find(ids[batch_idx, i])', 'likes.find(ids[u, i])')],
    'ids_0': [('evaluation.pyx', 'likes.find(ids[batch_idx, i])', 'likes.find(ids[0, i])')],
    'short': [('evaluation.pyx', 'for batch_idx in range(len(batch)):', 'for batch_idx in range(len(batch) - 1):')],
    'first': [('evaluation.pyx', 'for batch_idx in range(len(batch)):', 'for batch_idx in range(1, len(batch)):')],
    'k_map': [('evaluation.pyx', "K, show_progress, num_threads)['map']", "K, show_progress, num_threads)['ndcg']")],
    'k_auc': [('evaluation.pyx', "K, show_progress, num_threads)['auc']", "K, show_progress, num_threads)['ndcg']")],
    'k_K': [('evaluation.pyx', "train_user_items, test_user_items, K, show_progress, num_threads)['ndcg']", "train_user_items, test_user_items, show_progress=show_progress, num_threads=num_threads)['ndcg']")],
    'k_swap': [('evaluation.pyx', "train_user_items, test_user_items, K, show_progress, num_threads)['auc']", "test_user_items, train_user_items, K, show_progress, num_threads)['auc']")],
    'keys': [('evaluation.pyx', '"map": mean_ap / total,\n        "ndcg": ndcg / total', '"map": ndcg / total,\n        "ndcg": mean_ap / total')],
    'total_batch': [('evaluation.pyx', '                total += 1\n', '            total += 1\n')],
    'total_users': [('evaluation.pyx', '"map": mean_ap / total', '"map": mean_ap / users')],
    'hit_total': [('evaluation.pyx', 'ap += hit / (i + 1)', 'ap += relevant / (i + 1)')],
    'likes_global': [('evaluation.pyx', '                        auc += hit\n', '                        auc += relevant\n')],
    'mean_total': [('evaluation.pyx', 'mean_ap += ap / fmin(K, likes.size())', 'mean_ap += ap / pr_div')],
    'uids': [('evaluation.pyx', 'model.recommend(batch, train', 'model.recommend(np.arange(len(batch)), train')],
}

MUTANTS["C18"] = {
    'direct': [('datasets/_download.py', 'urlretrieve(url, temp_filename, rep', 'urlretrieve(url, local_filename, rep'), ('datasets/_download.py', '        os.replace(temp_filename, local_filename)\n', '')],
    'same_temp': [('datasets/_download.py', 'local_filename + ".download"', 'local_filename')],
    'finally': [('datasets/_download.py', '        _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        os.replace(temp_filename, local_filename)\n', '        try:\n            _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        finally:\n            os.replace(temp_filename, local_filename)\n')],
    'swap': [('datasets/_download.py', 'os.replace(temp_filename, local_filename)', 'os.replace(local_filename, temp_filename)')],
    'early': [('datasets/_download.py', '        _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        os.replace(temp_filename, local_filename)\n', '        open(temp_filename, "a").close()\n        os.replace(temp_filename, local_filename)\n        _, headers = urlretrieve(url, local_filename, reporthook=report)\n')],
    'norename': [('datasets/_download.py', '        os.replace(temp_filename, local_filename)\n', '')],
    'copy': [('datasets/_download.py', 'os.replace(temp_filename, local_filename)', 'shutil.copy(temp_filename, local_filename)'), ('datasets/_download.py', 'import os\n', 'import os\nimport shutil\n')],
    'exc_rename': [('datasets/_download.py', '        _, headers = urlretrieve(url, temp_filename, reporthook=report)\n', '        try:\n            _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        except OSError:\n            headers = None\n')],
    'lf_name': [('datasets/lastfm.py', '"lastfm_360k.hdf5")', '"lastfm.hdf5")')],
    'lf_field': [('datasets/lastfm.py', 'f.get("artist_user_plays")', 'f.get("user_artist_plays")')],
    'lf_field2': [('datasets/lastfm.py', 'f.create_dataset("artist", (', 'f.create_dataset("artists", (')],
    'lf_swap_idx': [('datasets/lastfm.py', 'm.get("indices"), m.get("indptr")', 'm.get("indptr"), m.get("indices")')],
    'lf_store': [('datasets/lastfm.py', '"indptr", data=plays.indptr', '"indptr", data=plays.indices')],
    'lf_nofill': [('datasets/lastfm.py', '        dset[:] = artist\n', '')],
    'lf_fill': [('datasets/lastfm.py', '        dset[:] = user', '        dset[:] = artist')],
    'lf_swapret': [('datasets/lastfm.py', 'np.array(f["artist"].asstr()[:]), np.array(f["user"].asstr()[:])', 'np.array(f["user"].asstr()[:]), np.array(f["artist"].asstr()[:])')],
    'lf_turn': [('datasets/lastfm.py', '(data["artist"].cat.codes.copy(), data["user"].cat.codes.copy())', '(data["user"].cat.codes.copy(), data["artist"].cat.codes.copy())')],
    'lf_csc': [('datasets/lastfm.py', '    ).tocsr()', '    ).tocsc()')],
    'lf_isdir': [('datasets/lastfm.py', 'if not os.path.isfile(filename)', 'if not os.path.isdir(_download.LOCAL_CACHE_DIR)')],
    'lf_url': [('datasets/lastfm.py', 'v1.0/lastfm_360k.hdf5"', 'v1.0/lastfm_1k.hdf5"')],
    'mv_url': [('datasets/movielens.py', 'URL_BASE + filename', 'URL_BASE + "movielens_20m.hdf5"')],
    'mv_path': [('datasets/movielens.py', 'path = os.path.join(_download.LOCAL_CACHE_DIR, filename)', 'path = os.path.join(_download.LOCAL_CACHE_DIR, "movielens.hdf5")')],
    'mv_gen': [('datasets/movielens.py', 'os.path.join(outputpath, f"movielens_{variant}.hdf5")', 'os.path.join(outputpath, f"movielens-{variant}.hdf5")')],
    'mv_rows': [('datasets/movielens.py', '(ratings["movieId"], ratings["userId"])', '(ratings["userId"], ratings["movieId"])')],
    'mv_mode': [('datasets/movielens.py', 'h5py.File(path, "r")', 'h5py.File(path, "w")')],
    'mv_movie': [('datasets/movielens.py', 'f["movie"].asstr', 'f["movies"].asstr')],
    'rd_rows': [('datasets/reddit.py', '(data["item"].cat.codes.copy(), data["user"].cat.codes.copy())', '(data["user"].cat.codes.copy(), data["item"].cat.codes.copy())')],
    'rd_open': [('datasets/reddit.py', 'h5py.File(filename, "r")', 'h5py.File(os.path.basename(filename), "r")')],
    'rd_down': [('datasets/reddit.py', '_download.download_file(URL, filename)', '_download.download_file(URL, os.path.join(_download.LOCAL_CACHE_DIR, os.path.basename(filename) + ".hdf5"))')],
    'sk_group': [('datasets/sketchfab.py', 'create_group("item_user_likes")', 'create_group("item_user_like")')],
    'sk_rows': [('datasets/sketchfab.py', 'coo_matrix((values, (items, users)))', 'coo_matrix((values, (users, items)))')],
    'sk_names': [('datasets/sketchfab.py', 'user = list(data["uid"]', 'user = list(data["mid"]'), ('datasets/sketchfab.py', 'item = list(data["mid"]', 'item = list(data["uid"]')],
    'ms_look': [('datasets/million_song_dataset.py', 'os.path.join(_download.LOCAL_CACHE_DIR, "msd_taste_profile.hdf5")', 'os.path.join(_download.LOCAL_CACHE_DIR, "msd.hdf5")')],
    'ms_exists': [('datasets/million_song_dataset.py', 'if not os.path.isfile(filename):', 'if not os.path.isfile("msd_taste_profile.hdf5"):')],
    'ms_temp': [('datasets/million_song_dataset.py', 'if not os.path.isfile(filename):', 'if not os.path.isfile(filename) and not os.path.isfile(filename + ".download"):')],
    'ms_track': [('datasets/million_song_dataset.py', 'create_dataset("track", track', 'create_dataset("tracks", track')],
}

MUTANTS["C21"] = {
    'ge': [('nearest_neighbours.h', 'score > results[0].first', 'score >= results[0].first')],
    'lt': [('nearest_neighbours.h', 'score > results[0].first', 'score < results[0].first')],
    'le_size': [('nearest_neighbours.h', 'results.size() < K)', 'results.size() <= K)')],
    'nopop': [('nearest_neighbours.h', '      if (results.size() >= K) {', '      if (results.size() > K) {')],
    'alwaysevict': [('nearest_neighbours.h', '      if (results.size() >= K) {', '      if (results.size() > 0) {')],
    'nopopheap': [('nearest_neighbours.h', '        std::pop_heap(results.begin(), results.end(), heap_order);\n', '')],
    'nopush': [('nearest_neighbours.h', '      std::push_heap(results.begin(), results.end(), heap_order);\n', '')],
    'less': [('nearest_neighbours.h', 'std::greater<std::pair<Value, Index>> heap_order', 'std::less<std::pair<Value, Index>> heap_order')],
    'default': [('nearest_neighbours.h', 'std::pop_heap(results.begin(), results.end(), heap_order)', 'std::pop_heap(results.begin(), results.end())')],
    'positive': [('nearest_neighbours.h', '  void operator()(Index index, Value score) {\n', '  void operator()(Index index, Value score) {\n    if (score <= 0) return;\n')],
    'pairswap': [('nearest_neighbours.h', 'std::make_pair(score, index)', 'std::make_pair(index, score)')],
    'second': [('nearest_neighbours.h', 'score > results[0].first', 'score > results[0].second')],
    'overwrite': [('nearest_neighbours.h', '    sums[index] += value;', '    sums[index] = value;')],
    'minus': [('nearest_neighbours.h', '    sums[index] += value;', '    sums[index] -= value;')],
    'addhead': [('nearest_neighbours.h', '      nonzeros[index] = head;\n      head = index;', '      head = index;\n      nonzeros[index] = head;')],
    'nolen': [('nearest_neighbours.h', '      length += 1;\n', '')],
    'always': [('nearest_neighbours.h', '    if (nonzeros[index] == -1) {', '    if (true) {')],
    'zeromark': [('nearest_neighbours.h', '    if (nonzeros[index] == -1) {', '    if (nonzeros[index] == 0) {')],
    'skipzero': [('nearest_neighbours.h', '    sums[index] += value;\n', '    if (value < 0) return;\n    sums[index] += value;\n')],
    'headm1': [('nearest_neighbours.h', '    length = 0;\n    head = -2;', '    length = 0;\n    head = -1;')],
    'ctor_head': [('nearest_neighbours.h', 'head(-2), length(0)', 'head(-1), length(0)')],
    'ctor_len': [('nearest_neighbours.h', 'head(-2), length(0)', 'head(-2), length(1)')],
    'nolen0': [('nearest_neighbours.h', '    length = 0;\n    head', '    head')],
    'nosum0': [('nearest_neighbours.h', '      sums[index] = 0;\n', '')],
    'sum_head': [('nearest_neighbours.h', '      sums[index] = 0;', '      sums[head] = 0;')],
    'nomark': [('nearest_neighbours.h', '      nonzeros[index] = -1;\n', '')],
    'mark0': [('nearest_neighbours.h', '      nonzeros[index] = -1;', '      nonzeros[index] = 0;')],
    'markfirst': [('nearest_neighbours.h', '      head = nonzeros[head];\n      sums[index] = 0;\n      nonzeros[index] = -1;', '      nonzeros[index] = -1;\n      head = nonzeros[head];\n      sums[index] = 0;')],
    'resetfirst': [('nearest_neighbours.h', '      f(index, sums[index]);\n\n      // clear up memory and advance linked list\n', '      sums[index] = 0;\n      f(index, sums[index]);\n')],
    'short': [('nearest_neighbours.h', 'i < length; ++i', 'i < length - 1; ++i')],
    'onlypos': [('nearest_neighbours.h', '      f(index, sums[index]);', '      if (sums[index] > 0) f(index, sums[index]);')],
    'brk': [('nearest_neighbours.h', '      nonzeros[index] = -1;\n', '      nonzeros[index] = -1;\n      if (head < 0) break;\n      if (i > 100000) break;\n')],
    'sel_ge': [('cpu/select.h', 'score > results[0].first', 'score >= results[0].first')],
    'sel_noclear': [('cpu/select.h', '    results.clear();\n', '')],
    'sel_k': [('cpu/select.h', 'results.size() < k)', 'results.size() <= k)')],
    'sel_abs': [('cpu/select.h', '      T score = batch', '      if (col == 0 && cols > k) continue;\n      T score = batch')],
    'sel_less': [('cpu/select.h', 'std::greater<std::pair<T, int>> heap_order', 'std::less<std::pair<T, int>> heap_order')],
    'noclear': [('_nearest_neighbours.pyx', '                topk.results.clear()\n', '')],
    'clear_after': [('_nearest_neighbours.pyx', '                topk.results.clear()\n                neighbours.foreach(dereference(topk))\n', '                neighbours.foreach(dereference(topk))\n                topk.results.clear()\n')],
    'minus1': [('_nearest_neighbours.pyx', 'self.neighbours.sums[i] = 0', 'self.neighbours.sums[i] = -1')],
    'drain_cond': [('_nearest_neighbours.pyx', '                    self.neighbours.foreach(dereference(topK))', '                    if user_indptr[1] > user_indptr[0] and not remove_own_likes:\n                        self.neighbours.foreach(dereference(topK))')],
    'weight0': [('_nearest_neighbours.pyx', 'self.similarity_data[index2] * weight)', 'self.similarity_data[index2])')],
    'data1': [('_nearest_neighbours.pyx', 'self.similarity_data[index2] * weight)', 'self.similarity_data[index1] * weight)')],
    'idx1': [('_nearest_neighbours.pyx', 'self.neighbours.add(self.similarity_indices[index2],', 'self.neighbours.add(self.similarity_indices[index1],')],
    'ptr2': [('_nearest_neighbours.pyx', 'self.similarity_indptr[i+1])', 'self.similarity_indptr[i+1] - 1)')],
    'ptr3': [('_nearest_neighbours.pyx', 'range(user_indptr[u], user_indptr[u+1])', 'range(user_indptr[u] + 1, user_indptr[u+1])')],
    'wrongw': [('_nearest_neighbours.pyx', 'user_data[index2] * w1)', 'user_data[index1] * w1)')],
    'wrongw2': [('_nearest_neighbours.pyx', 'w1 = item_data[index1]', 'w1 = item_data[i]')],
    'rowi': [('_nearest_neighbours.pyx', 'u = item_indices[index1]', 'u = index1')],
    'cont': [('_nearest_neighbours.pyx', '                    w1 = item_data[index1]\n', '                    w1 = item_data[index1]\n                    if w1 < 0:\n                        continue\n')],
    'out': [('_nearest_neighbours.pyx', '                    out = out + 1\n', '')],
    'swapout': [('_nearest_neighbours.pyx', 'cols[out] = result.second\n                    values[out] = result.first', 'cols[out] = <long> result.first\n                    values[out] = result.second')],
    'acc_global': [('_nearest_neighbours.pyx', '                neighbours.foreach(dereference(topk))\n', '                if item_indptr[i+1] > item_indptr[i] + 1:\n                    neighbours.foreach(dereference(topk))\n')],
    'recout': [('_nearest_neighbours.pyx', 'indices[i] = result.second\n', 'indices[0] = result.second\n')],
}

P_ALS = "cpu/_als.pyx"
A_PY = "cpu/als.py"
MUTANTS["C20"] = {
    "nat_b_neg": [(P_ALS, "                    if confidence > 0:\n                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n                    else:\n                        confidence = -1 * confidence\n", "                    axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n                    if confidence < 0:\n                        confidence = -1 * confidence\n")],
    "nat_noabs": [(P_ALS, "                    else:\n                        confidence = -1 * confidence\n\n                    # A", "\n                    # A")],
    "nat_A_c": [(P_ALS, "temp = (confidence - 1) * Y[i, j]", "temp = confidence * Y[i, j]")],
    "nat_reg2": [(P_ALS, "YtY = np.dot(np.transpose(Y), Y)\n    _least", "YtY = np.dot(np.transpose(Y), Y) + regularization * np.eye(Y.shape[1], dtype=Y.dtype)\n    _least")],
    "nat_noreg": [(P_ALS, "initialA = YtY + regularization * np.eye(factors, dtype=dtype)", "initialA = YtY.astype(dtype)")],
    "nat_gramX": [(P_ALS, "YtY = np.dot(np.transpose(Y), Y)\n    _least", "YtY = np.dot(np.transpose(X), X)\n    _least")],
    "nat_empty": [(P_ALS, "                if indptr[u] == indptr[u+1]:\n                    memset(&X[u, 0], 0, sizeof(floating) * factors)\n                    continue\n", "                if indptr[u] == indptr[u+1]:\n                    continue\n")],
    "nat_cg_empty": [(P_ALS, "                if indptr[u] == indptr[u+1]:\n                    memset(x, 0, sizeof(floating) * N)\n                    continue\n", "                if indptr[u] == indptr[u+1]:\n                    continue\n")],
    "nat_cg_empty2": [(P_ALS, "                if indptr[u] == indptr[u+1]:\n                    memset(x, 0, sizeof(floating) * N)\n                    continue\n", "")],
    "nat_skip_last": [(P_ALS, "                for index in range(indptr[u], indptr[u+1]):", "                for index in range(indptr[u], indptr[u+1] - 1):")],
    "nat_cg_sign": [(P_ALS, "                    else:\n                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp - (", "                    else:\n                        temp = confidence\n                        confidence = -1 * confidence\n\n                    temp = temp - (")],
    "nat_cg_ap_noabs": [(P_ALS, "                        if confidence < 0:\n                            confidence = -1 * confidence\n\n                        temp", "                        temp")],
    "nat_cg_ap_c": [(P_ALS, "temp = (confidence - 1) * dot(&N, &Y[i, 0], &one, p, &one)", "temp = confidence * dot(&N, &Y[i, 0], &one, p, &one)")],
    "nat_cg_ap_x": [(P_ALS, "temp = (confidence - 1) * dot(&N, &Y[i, 0], &one, p, &one)", "temp = (confidence - 1) * dot(&N, &Y[i, 0], &one, x, &one)")],
    "nat_cg_res_c": [(P_ALS, "temp = temp - (confidence - 1) * dot(", "temp = temp - confidence * dot(")],
    "nat_cg_reg": [(P_ALS, "YtY = np.dot(np.transpose(Y), Y) + regularization * np.eye(N, dtype=dtype)", "YtY = np.dot(np.transpose(Y), Y)")],
    "nat_cg_regI": [(P_ALS, "YtY = np.dot(np.transpose(Y), Y) + regularization * np.eye(N, dtype=dtype)", "YtY = np.dot(np.transpose(Y), Y) + 2 * regularization * np.eye(N, dtype=dtype)")],
    "nat_cg_rsold": [(P_ALS, "                    rsold = rsnew\n", "")],
    "nat_cg_beta": [(P_ALS, "temp = rsnew / rsold", "temp = rsold / rsnew")],
    "nat_cg_early": [(P_ALS, "                if rsold < 1e-20:\n", "                if rsold < 1e-2:\n")],
    "nat_cg_break": [(P_ALS, "                    if rsnew < 1e-20:\n", "                    if rsnew < rsold:\n")],
    "nat_cg_resid": [(P_ALS, "temp = alpha * -1\n                    axpy(&N, &temp, Ap,", "temp = alpha\n                    axpy(&N, &temp, Ap,")],
    "loss_neg": [(P_ALS, "                    else:\n                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp + (", "                    else:\n                        temp = 2 * confidence\n                        confidence = -1 * confidence\n\n                    temp = temp + (")],
    "loss_total_signed": [(P_ALS, "                    total_confidence += confidence\n                    loss += confidence\n", "                    loss += confidence\n                    total_confidence += data[index]\n")],
    "loss_positive_only": [(P_ALS, "                    if confidence > 0:\n                        temp = -2 * confidence\n", "                    if confidence > 0:\n                        temp = -2 * confidence\n                        loss += confidence\n"), (P_ALS, "                    total_confidence += confidence\n                    loss += confidence\n", "                    total_confidence += confidence\n")],
    "loss_norm": [(P_ALS, "loss += regularization * (item_norm + user_norm)", "loss += regularization * item_norm + user_norm")],
    "loss_usernorm": [(P_ALS, "loss += regularization * (item_norm + user_norm)", "loss += regularization * (item_norm + item_norm)")],
    "loss_den": [(P_ALS, "Cui.shape[0] * Cui.shape[1] - Cui.nnz)", "Cui.shape[0] * Cui.shape[1])")],
    "py_b_neg": [(A_PY, "        if confidence > 0:\n            b += confidence * factor\n        else:\n            confidence *= -1\n", "        b += confidence * factor\n        if confidence < 0:\n            confidence *= -1\n")],
    "py_A_c": [(A_PY, "A += (confidence - 1) * np.outer(factor, factor)", "A += confidence * np.outer(factor, factor)")],
    "py_A_abs": [(A_PY, "        else:\n            confidence *= -1\n\n        A +=", "\n        A +=")],
    "py_cg_ap_abs": [(A_PY, "                if confidence < 0:\n                    confidence *= -1\n\n                Ap +=", "                Ap +=")],
    "py_cg_res": [(A_PY, "r += -(confidence - 1) * Y[i].dot(x) * Y[i]", "r += -(confidence + 1) * Y[i].dot(x) * Y[i]")],
    "py_cg_reg": [(A_PY, "YtY = Y.T.dot(Y) + regularization * np.eye(factors, dtype=Y.dtype)", "YtY = Y.T.dot(Y)")],
    "py_reg": [(A_PY, "A = YtY + regularization * np.eye(n_factors)", "A = YtY + regularization * regularization * np.eye(n_factors)")],
    "fit_alpha_transpose": [(A_PY, "        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n\n        s = time.time()\n        Ciu = Cui.T.tocsr()\n", "        s = time.time()\n        Ciu = Cui.T.tocsr()\n        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n")],
    "fit_alpha_twice": [(A_PY, "        Ciu = Cui.T.tocsr()\n", "        Ciu = (self.alpha * Cui).T.tocsr()\n")],
    "fit_reg_item": [(A_PY, "                    Ciu,\n                    self.item_factors,\n                    self.user_factors,\n                    self.regularization,", "                    Ciu,\n                    self.item_factors,\n                    self.user_factors,\n                    self.regularization * self.alpha,")],
    "fit_loss_raw": [(A_PY, "loss = _als.calculate_loss(\n                        Cui,", "loss = _als.calculate_loss(\n                        check_csr(user_items),")],
    "rec_noalpha": [(A_PY, "        if self.alpha != 1.0:\n            item_users = self.alpha * item_users\n", "")],
    "rec_alpha2": [(A_PY, "            user_items = self.alpha * user_items\n\n        user_factors", "            user_items = self.alpha * (self.alpha * user_items)\n\n        user_factors")],
    "rec_gram": [(A_PY, "        _als._least_squares(\n            self.XtX,", "        _als._least_squares(\n            self.YtY,")],
    "gram_reg": [(A_PY, "            self._YtY = Y.T.dot(Y)\n", "            self._YtY = Y.T.dot(Y) + self.regularization * np.eye(self.factors, dtype=self.dtype)\n")],
    "explain_noalpha": [(A_PY, "        user_items = check_csr(user_items)\n        if self.alpha != 1.0:\n            user_items = self.alpha * user_items\n\n        # user_weights", "        user_items = check_csr(user_items)\n\n        # user_weights")],
    "explain_neg": [(A_PY, "            if confidence < 0:\n                continue\n\n            factor", "            confidence = abs(confidence)\n            factor")],
    "explain_noconf": [(A_PY, "score = weighted_item.dot(factor) * confidence", "score = weighted_item.dot(factor)")],
    "explain_reg": [(A_PY, "self.item_factors, self.YtY, user_items, userid, self.regularization, self.factors", "self.item_factors, self.YtY, user_items, userid, 0.0, self.factors")],
    "nz_off": [("utils.py", "for index in range(m.indptr[row], m.indptr[row + 1]):", "for index in range(m.indptr[row] + 1, m.indptr[row + 1]):")],
    "rows_off": [(A_PY, "    for u in range(users):\n        X[u] = user_factor", "    for u in range(users - 1):\n        X[u] = user_factor")],
    "gpu_alpha": [("gpu/als.py", "        if self.alpha != 1.0:\n            item_users = self.alpha * item_users\n", "")],
    "gpu_noreg": [("gpu/als.py", "self.solver.calculate_yty(X, _XtX, self.regularization)", "self.solver.calculate_yty(X, _XtX, 0.0)")],
    "gpu_gram": [("gpu/als.py", "self.solver.least_squares(Ciu, Y, _XtX, X, self.cg_steps)", "self.solver.least_squares(Ciu, Y, _YtY, X, self.cg_steps)")],
    "gpu_prop": [("gpu/als.py", "self.solver.calculate_yty(self.user_factors, self._XtX, self.regularization)", "self.solver.calculate_yty(self.user_factors, self._XtX, self.regularization * 2)")],
}

MUTANTS["C12"] = {
    "als-nocheck": [("cpu/_als.pyx", "    _check_als_shapes(Cui, X, Y)\n    YtY", "    YtY")],
    "als-cg-nocheck": [("cpu/_als.pyx", "    _check_als_shapes(Cui, X, Y)\n    return _least_squares_cg", "    return _least_squares_cg")],
    "als-loss-nocheck": [("cpu/_als.pyx", "    _check_als_shapes(Cui, X, Y)\n    return _calculate_loss", "    return _calculate_loss")],
    "als-check-cols": [("cpu/_als.pyx", " or Cui.shape[1] > Y.shape[0]", "")],
    "als-check-off": [("cpu/_als.pyx", "Cui.shape[1] > Y.shape[0]", "Cui.shape[1] > Y.shape[0] + 1")],
    "als-check-rows": [("cpu/_als.pyx", "Cui.shape[0] != X.shape[0] or ", "Cui.shape[0] > X.shape[0] or ")],
    "recalc-user-nocheck": [("cpu/als.py", "        _als._check_als_shapes(user_items, user_factors, self.item_factors)\n", "")],
    "recalc-item-nocheck": [("cpu/als.py", "        _als._check_als_shapes(item_users, item_factors, self.user_factors)\n", "")],
    "als-malloc": [("cpu/_als.pyx", "A = <floating *> malloc(sizeof(floating) * factors * factors)", "A = <floating *> malloc(sizeof(floating) * factors)")],
    "als-sizeof": [("cpu/_als.pyx", "b = <floating *> malloc(sizeof(floating) * factors)", "b = <floating *> malloc(sizeof(float) * factors)")],
    "als-memcpy": [("cpu/_als.pyx", "memcpy(b, &initialB[0], sizeof(floating) * factors)", "memcpy(b, &initialB[0], sizeof(floating) * factors * factors)")],
    "als-memset": [("cpu/_als.pyx", "memset(&X[u, 0], 0, sizeof(floating) * factors)", "memset(&X[u, 0], 0, sizeof(double) * factors)")],
    "als-offset": [("cpu/_als.pyx", "A + j * factors", "A + (j + 1) * factors")],
    "cg-malloc": [("cpu/_als.pyx", "Ap = <floating *> malloc(sizeof(floating) * N)", "Ap = <floating *> malloc(sizeof(floating) * (N - 1))")],
    "cg-count": [("cpu/_als.pyx", "axpy(&N, &temp, &Y[i, 0], &one, r, &one)\n\n                memcpy", "axpy(&N, &temp, &Y[i, 1], &one, r, &one)\n\n                memcpy")],
    "cg-indptr": [("cpu/_als.pyx", "                if indptr[u] == indptr[u+1]:\n                    memset(x", "                if indptr[u] == indptr[u+2]:\n                    memset(x")],
    "loss-swap": [("cpu/_als.pyx", "symv(b\"U\", &N, &temp, &YtY[0, 0], &N, &X[u, 0], &one, &zero, r, &one)", "symv(b\"U\", &N, &temp, &YtY[0, 0], &N, &Y[u, 0], &one, &zero, r, &one)")],
    "bpr-refit": [("cpu/bpr.pyx", "        if users > self.user_factors.shape[0] or items > self.item_factors.shape[0]:\n            raise ValueError(\"user_items has more users or items than the model was fit with\")\n", "")],
    "bpr-refit-items": [("cpu/bpr.pyx", "users > self.user_factors.shape[0] or items > self.item_factors.shape[0]", "users > self.user_factors.shape[0]")],
    "bpr-range": [("cpu/bpr.pyx", "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, len(user_items.data), rng_seeds)")],
    "bpr-range-items": [("cpu/bpr.pyx", "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, max(users, items), rng_seeds)")],
    "bpr-threads": [("cpu/bpr.pyx", "with nogil, parallel(num_threads=num_threads):\n\n", "with nogil, parallel():\n\n")],
    "bpr-rng-count": [("cpu/bpr.pyx", "size=num_threads, dtype=\"long\")", "size=self.num_threads, dtype=\"long\")"), ("cpu/bpr.pyx", "RNGVector(num_threads, len", "RNGVector(self.num_threads, len")],
    "bpr-bias": [("cpu/bpr.pyx", "cdef integral factors = X.shape[1] - 1", "cdef integral factors = X.shape[1]")],
    "bpr-score": [("cpu/bpr.pyx", "for j in range(factors + 1):", "for j in range(factors + 2):")],
    "bpr-swap": [("cpu/bpr.pyx", "&X[userids[liked_index], 0], &Y[liked_id, 0], &Y[disliked_id, 0]", "&X[userids[liked_index], 0], &Y[liked_id, 0], &X[disliked_id, 0]")],
    "bpr-user-index": [("cpu/bpr.pyx", "user, liked, disliked = &X[userids[liked_index], 0]", "user, liked, disliked = &X[liked_index, 0]")],
    "bpr-itemfactors": [("cpu/bpr.pyx", "self.item_factors = (rs.random((items, self.factors + 1), dtype=self.dtype) - .5)", "self.item_factors = (rs.random((items, self.factors), dtype=self.dtype) - .5)")],
    "lmf-refit": [("cpu/lmf.pyx", "users != self.user_factors.shape[0] or items != self.item_factors.shape[0]", "users != self.user_factors.shape[0]")],
    "lmf-deriv": [("cpu/lmf.pyx", "user_vec_deriv_sum = np.zeros((users, self.factors + 2))", "user_vec_deriv_sum = np.zeros((users, self.factors + 1))")],
    "lmf-deriv-swap": [("cpu/lmf.pyx", "item_vec_deriv_sum = np.zeros((items, self.factors + 2))", "item_vec_deriv_sum = np.zeros((users, self.factors + 2))")],
    "lmf-malloc": [("cpu/lmf.pyx", "malloc(sizeof(floating) * n_factors)", "malloc(sizeof(float) * n_factors)")],
    "lmf-rng": [("cpu/lmf.pyx", "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, user_items.nnz, rng_seeds)")],
    "lmf-rng-user": [("cpu/lmf.pyx", "i = indices[index]\n                    exp_r = 0\n                    for _ in range(n_factors):\n                        exp_r = exp_r", "i = index\n                    exp_r = 0\n                    for _ in range(n_factors):\n                        exp_r = exp_r")],
    "lmf-threads": [("cpu/lmf.pyx", "with nogil, parallel(num_threads=num_threads):\n        deriv", "with nogil, parallel():\n        deriv")],
    "lmf-nitems": [("cpu/lmf.pyx", "                           item_users.indices, item_users.indptr, item_users.data,", "                           user_items.indices, user_items.indptr, user_items.data,")],
    "topk-overflow": [("cpu/topk.pyx", "<size_t> startidx * k", "startidx * k")],
    "topk-nomin": [("cpu/topk.pyx", "endidx = min(startidx + batch_size, query_rows)", "endidx = startidx + batch_size")],
    "topk-out": [("cpu/topk.pyx", "distances = np.zeros((query_rows, k), dtype=query.dtype)", "distances = np.zeros((batch_size, k), dtype=query.dtype)"), ("cpu/topk.pyx", "    # TODO: figure out appropriate batch size from available memory\n    cdef int batch_size = 100 # TODO\n", ""), ("cpu/topk.pyx", "    cdef int query_rows = query.shape[0]\n", "    cdef int query_rows = query.shape[0]\n    cdef int batch_size = 100\n")],
    "topk-kmin": [("cpu/topk.pyx", "    cdef int query_rows = query.shape[0]\n    indices = np.zeros((query_rows, k), dtype=\"int32\")", "    cdef int query_rows = query.shape[0]\n    indices = np.zeros((query_rows, max(k - 1, 1)), dtype=\"int32\")")],
    "select-overflow": [("cpu/select.h", "T score = batch[static_cast<size_t>(row) * cols + col];", "T score = batch[row * cols + col];")],
    "select-overflow2": [("cpu/select.h", "ids[static_cast<size_t>(row) * k + i] = results[i].second;", "ids[row * k + static_cast<int>(i)] = results[i].second;")],
    "select-cols": [("cpu/select.h", "for (int col = 0; col < cols; ++col) {", "for (int col = 0; col <= cols; ++col) {")],
    "select-grow": [("cpu/select.h", "if (results.size() >= k) {", "if (results.size() > k) {")],
    "select-stride": [("cpu/select.h", "distances[static_cast<size_t>(row) * k + i]", "distances[static_cast<size_t>(row) * cols + i]")],
    "knn-check": [("_nearest_neighbours.pyx", "if user_indices[index1] < 0 or user_indices[index1] >= item_count:", "if user_indices[index1] < 0 or user_indices[index1] > item_count:")],
    "knn-nocheck": [("_nearest_neighbours.pyx", "        for index1 in range(user_indptr[0], user_indptr[1]):\n            if user_indices[index1] < 0 or user_indices[index1] >= item_count:\n                raise ValueError(\"user_items contains itemids that are not in the model\")\n", "")],
    "knn-out": [("_nearest_neighbours.pyx", "data = ret_data = np.zeros(count)", "data = ret_data = np.zeros(K)"), ("_nearest_neighbours.pyx", "count = topK.results.size()", "count = self.neighbours.sums.size()")],
    "knn-outsize": [("_nearest_neighbours.pyx", "indices = ret_indices = np.zeros(count, dtype=np.int32)", "indices = ret_indices = np.zeros(count - 1, dtype=np.int32)")],
    "pairs-overflow": [("_nearest_neighbours.pyx", "out = <size_t> K * i", "out = K * i")],
    "pairs-alloc": [("_nearest_neighbours.pyx", "cdef long[:] rows = np.zeros(<size_t> item_count * K, dtype=int)", "cdef long[:] rows = np.zeros(<size_t> item_count * (K - 1), dtype=int)")],
    "pairs-alloc-overflow": [("_nearest_neighbours.pyx", "np.zeros(<size_t> item_count * K)", "np.zeros(item_count * K)")],
    "pairs-topk": [("_nearest_neighbours.pyx", "topk = new TopK[int, double](K)", "topk = new TopK[int, double](K + 1)")],
    "pairs-sums": [("_nearest_neighbours.pyx", "neighbours = new SparseMatrixMultiplier[int, double](item_count)", "neighbours = new SparseMatrixMultiplier[int, double](user_count)"), ("_nearest_neighbours.pyx", "cdef int item_count = items.shape[0]", "cdef int item_count = items.shape[0], user_count = users.shape[0]")],
    "nn-grow": [("nearest_neighbours.h", "if (results.size() >= K) {", "if (results.size() > K) {")],
    "eval-count": [("evaluation.pyx", "count = min(K, ids.shape[1])", "count = K")],
    "eval-cg": [("evaluation.pyx", "np.arange(2, K + 2)", "np.arange(2, K + 1)")],
    "eval-idcg": [("evaluation.pyx", "idcg = cg_sum[min(K, likes.size()) - 1]", "idcg = cg_sum[likes.size() - 1]")],
    "eval-users": [("evaluation.pyx", "u = batch[batch_idx]", "u = batch[batch_idx] + 1")],
}

MUTANTS["C06"] = {
    "rec_noremap": [("cpu/matrix_factorization_base.py", "        # if we've been given an explicit items list, remap the ids\n        if items is not None:\n            ids = items[ids]\n", "")],
    "rec_remap_unsorted": [("cpu/matrix_factorization_base.py", "            items = np.array(items)\n            items.sort()\n            item_factors = item_factors[items]\n", "            items = np.array(items)\n            item_factors = item_factors[items]\n            items.sort()\n")],
    "rec_uses_user_factors": [("cpu/matrix_factorization_base.py", "        item_factors = self.item_factors\n\n        # if we have an item list", "        item_factors = self.user_factors\n\n        # if we have an item list")],
    "user_factor_item": [("cpu/matrix_factorization_base.py", "        return self.user_factors[userid]\n\n    def _item", "        return self.item_factors[userid]\n\n    def _item")],
    "recalc_user_item": [("cpu/matrix_factorization_base.py", "            return self.recalculate_item(itemid, item_users)", "            return self.recalculate_user(itemid, item_users)")],
    "simusers_itemnorm": [("cpu/matrix_factorization_base.py", "        norms = self.user_norms\n        norm = norms[userid]", "        norms = self.item_norms\n        norm = norms[userid]")],
    "simusers_noremap": [("cpu/matrix_factorization_base.py", "        if users is not None:\n            ids = users[ids]\n\n        return ids, scores\n", "        return ids, scores\n")],
    "simusers_norms_full": [("cpu/matrix_factorization_base.py", "            user_factors = user_factors[users]\n            norms = norms[users]\n", "            user_factors = user_factors[users]\n")],
    "simitems_norm_user": [("cpu/matrix_factorization_base.py", "            norm = norms[itemid]\n", "            norm = self.user_norms[itemid]\n")],
    "simitems_norms_full": [("cpu/matrix_factorization_base.py", "            factors = factors[items]\n            norms = norms[items]\n", "            factors = factors[items]\n            norms = norms[: len(items)]\n")],
    "simitems_noremap": [("cpu/matrix_factorization_base.py", "        if items is not None:\n            ids = items[ids]\n        return ids, scores\n", "        return ids, scores\n")],
    "simusers_factor": [("cpu/matrix_factorization_base.py", "        factor = self.user_factors[userid]\n", "        factor = self.item_factors[userid]\n")],
    "simusers_query_subset": [("cpu/matrix_factorization_base.py", "        factor = self.user_factors[userid]\n        ids", "        factor = user_factors[userid]\n        ids")],
    "user_norms_items": [("cpu/matrix_factorization_base.py", "            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)", "            self._user_norms = np.linalg.norm(self.item_factors, axis=-1)")],
    "norms_axis0": [("cpu/matrix_factorization_base.py", "            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)", "            self._item_norms = np.linalg.norm(self.item_factors.T, axis=-1)")],
    "filter_unfiltered": [("cpu/matrix_factorization_base.py", "                filter_query_items = _filter_items_from_sparse_matrix(items, filter_query_items)", "                filter_query_items = filter_query_items.copy()")],
    "filter_noremap_col": [("cpu/matrix_factorization_base.py", "    filter_query_items.col = positions\n", "    filter_query_items.col = items[positions]\n")],
    "filter_searchsorted_swapped": [("cpu/matrix_factorization_base.py", "np.searchsorted(items, filter_query_items.col)", "np.searchsorted(filter_query_items.col, items)")],
    "recall_users_items": [("cpu/matrix_factorization_base.py", "        userids = np.arange(user_items.shape[0]) + users_items_offset", "        userids = np.arange(user_items.shape[1])")],
    "als_init_swap": [("cpu/als.py", "        items, users = Ciu.shape", "        users, items = Ciu.shape")],
    "als_init_user_items": [("cpu/als.py", "random_state.random((users, self.factors), dtype=self.dtype) * 0.01", "random_state.random((items, self.factors), dtype=self.dtype) * 0.01")],
    "als_fit_swapped_factors": [("cpu/als.py", "                    Ciu,\n                    self.item_factors,\n                    self.user_factors,", "                    Ciu,\n                    self.user_factors,\n                    self.item_factors,")],
    "als_fit_cui_twice": [("cpu/als.py", "                    Ciu,\n                    self.item_factors,", "                    Cui,\n                    self.item_factors,")],
    "als_loss_ciu": [("cpu/als.py", "                    loss = _als.calculate_loss(\n                        Cui,", "                    loss = _als.calculate_loss(\n                        Ciu,")],
    "als_recalc_user_gram": [("cpu/als.py", "        _als._least_squares(\n            self.YtY,", "        _als._least_squares(\n            self.XtX,")],
    "als_recalc_item_gram": [("cpu/als.py", "        _als._least_squares(\n            self.XtX,", "        _als._least_squares(\n            self.YtY,")],
    "als_recalc_item_factors": [("cpu/als.py", "            item_factors,\n            self.user_factors,\n            self.regularization,", "            item_factors,\n            self.item_factors,\n            self.regularization,")],
    "als_xtx": [("cpu/als.py", "            X = self.user_factors\n            self._XtX", "            X = self.item_factors\n            self._XtX")],
    "als_partial_sorted": [("cpu/als.py", "        self.user_factors[userids] = user_factors\n", "        self.user_factors[np.sort(userids)] = user_factors\n")],
    "als_partial_items_to_users": [("cpu/als.py", "        self.item_factors[itemids] = item_factors\n", "        self.user_factors[itemids] = item_factors\n")],
    "als_partial_unique": [("cpu/als.py", "        user_factors = self.recalculate_user(userids, user_items)\n", "        user_factors = self.recalculate_user(userids, user_items)\n        userids = np.unique(userids)\n")],
    "als_kernel_x_i": [("cpu/_als.pyx", "YtY = np.dot(np.transpose(Y), Y)", "YtY = np.dot(np.transpose(X), X)")],
    "bpr_init_swap": [("cpu/bpr.pyx", "        users, items = user_items.shape\n", "        items, users = user_items.shape\n")],
    "bpr_update_swap": [("cpu/bpr.pyx", "                                              self.user_factors, self.item_factors,\n", "                                              self.item_factors, self.user_factors,\n")],
    "bpr_zero_users": [("cpu/bpr.pyx", "            self.user_factors[user_counts == 0]", "            self.item_factors[user_counts == 0]")],
    "bpr_item_mask": [("cpu/bpr.pyx", "            self.item_factors[item_counts == 0] =", "            self.item_factors[user_counts == 0] =")],
    "bpr_user_counts": [("cpu/bpr.pyx", "userids = np.repeat(np.arange(users), user_counts)", "userids = np.repeat(np.arange(items), user_counts)")],
    "bpr_liked_user": [("cpu/bpr.pyx", "&X[userids[liked_index], 0], &Y[liked_id, 0]", "&X[liked_id, 0], &Y[liked_id, 0]")],
    "bpr_verify_args": [("cpu/bpr.pyx", "has_non_zero(indptr, itemids, userids[liked_index], disliked_id)", "has_non_zero(indptr, itemids, liked_id, disliked_id)")],
    "bpr_negative_index": [("cpu/bpr.pyx", "            disliked_id = itemids[disliked_index]", "            disliked_id = userids[disliked_index]")],
    "lmf_matrix": [("cpu/lmf.pyx", "                           item_users.indices, item_users.indptr, item_users.data,", "                           user_items.indices, user_items.indptr, user_items.data,")],
    "lmf_deriv": [("cpu/lmf.pyx", "                lmf_update(rng, item_vec_deriv_sum,", "                lmf_update(rng, user_vec_deriv_sum,")],
    "lmf_indptr_mixed": [("cpu/lmf.pyx", "                           item_users.indices, item_users.indptr, item_users.data,", "                           item_users.indices, user_items.indptr, item_users.data,")],
    "lmf_data_mixed": [("cpu/lmf.pyx", "                           item_users.indices, item_users.indptr, item_users.data,", "                           item_users.indices, item_users.indptr, user_items.data,")],
    "lmf_sizes": [("cpu/lmf.pyx", "        users, items = user_items.shape\n", "        items, users = user_items.shape\n")],
    "lmf_mask": [("cpu/lmf.pyx", "            self.user_factors[user_counts == 0]", "            self.user_factors[item_counts == 0]")],
    "lmf_user_vec": [("cpu/lmf.pyx", "                        exp_r += user_vectors[u, _] * item_vectors[i, _]", "                        exp_r += user_vectors[i, _] * item_vectors[i, _]")],
    "knn_fit_transposed": [("nearest_neighbours.py", "            weighted,\n            self.K,", "            weighted.T,\n            self.K,")],
    "knn_cosine_transposed": [("nearest_neighbours.py", "ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress, callback)", "ItemItemRecommender.fit(self, normalize(counts.T), show_progress, callback)")],
    "knn_bm25_transposed": [("nearest_neighbours.py", "        weighted = bm25_weight(counts.T, self.K1, self.B).T\n", "        weighted = bm25_weight(counts.T, self.K1, self.B)\n")],
    "tfidf_row": [("nearest_neighbours.py", "    X.data = sqrt(X.data) * idf[X.col]", "    X.data = sqrt(X.data) * idf[X.row]")],
    "bm25_row": [("nearest_neighbours.py", "length_norm[X.row]", "length_norm[X.col]")],
    "normalize_col": [("nearest_neighbours.py", "sqrt(bincount(X.row, X.data**2))[X.row]", "sqrt(bincount(X.row, X.data**2))[X.col]")],
    "knn_sim_best": [("nearest_neighbours.py", "        return ids[best], scores[best]", "        return best, scores[best]")],
    "knn_pairs_userindptr": [("_nearest_neighbours.pyx", "for index2 in range(user_indptr[u], user_indptr[u+1])", "for index2 in range(user_indptr[i], user_indptr[i+1])")],
    "knn_pairs_row_u": [("_nearest_neighbours.pyx", "                    rows[out] = i\n", "                    rows[out] = u\n")],
    "knn_pairs_add_u": [("_nearest_neighbours.pyx", "neighbours.add(user_indices[index2], user_data[index2] * w1)", "neighbours.add(u, user_data[index2] * w1)")],
    "knn_pairs_data": [("_nearest_neighbours.pyx", "                    w1 = item_data[index1]", "                    w1 = user_data[index1]")],
    "knn_count_users": [("_nearest_neighbours.pyx", "    cdef int item_count = items.shape[0]\n", "    cdef int item_count = users.shape[0]\n")],
    "scorer_data": [("_nearest_neighbours.pyx", "self.similarity_data[index2] * weight)", "self.similarity_data[index1] * weight)")],
    "scorer_weight": [("_nearest_neighbours.pyx", "                        weight = user_data[index1]", "                        weight = user_data[i]")],
    "batch_row_id": [("utils.py", '{"user_items": user_items[i], **kwargs}', '{"user_items": user_items[idx], **kwargs}')],
    "eval_rows": [("evaluation.pyx", "model.recommend(batch, train_user_items[batch], N=K)", "model.recommend(batch, train_user_items[:len(batch)], N=K)")],
    "eval_batch_idx": [("evaluation.pyx", "                u = batch[batch_idx]\n", "                u = batch_idx\n")],
    "eval_ids_u": [("evaluation.pyx", "likes.find(ids[batch_idx, i])", "likes.find(ids[u, i])")],
    "eval_users_items": [("evaluation.pyx", "    cdef int users = test_user_items.shape[0], items = test_user_items.shape[1]", "    cdef int users = test_user_items.shape[1], items = test_user_items.shape[0]")],
    "eval_likes_u": [("evaluation.pyx", "                    likes.insert(test_indices[i])", "                    likes.insert(u)")],
    "split_swap": [("evaluation.pyx", "(ratings.row[test_index], ratings.col[test_index])", "(ratings.col[test_index], ratings.row[test_index])")],
    "split_mask": [("evaluation.pyx", "(ratings.row[train_index], ratings.col[train_index])", "(ratings.row[train_index], ratings.col[test_index])")],
    "leave_items": [("evaluation.pyx", "    train_items = np.r_[items[~full_candidate_mask], candidate_items[train_idx]]", "    train_items = np.r_[items[~full_candidate_mask], candidate_users[train_idx]]")],
    "leave_test_swap": [("evaluation.pyx", "(test_data, (test_users, test_items))", "(test_data, (test_items, test_users))")],
    "annoy_user_index": [("ann/annoy.py", "        item_factors = self.model.item_factors\n", "        item_factors = self.model.user_factors\n")],
    "faiss_user_index": [("ann/faiss.py", "        item_factors = self.model.item_factors\n", "        item_factors = self.model.user_factors\n")],
    "nms_user_index": [("ann/nmslib.py", "        item_factors = self.model.item_factors\n", "        item_factors = self.model.user_factors\n")],
    "gpu_als_swap": [("gpu/als.py", "                self.solver.least_squares(Ciu, Y, _XtX, X, self.cg_steps)", "                self.solver.least_squares(Ciu, X, _XtX, Y, self.cg_steps)")],
    "gpu_als_gram": [("gpu/als.py", "                self.solver.calculate_yty(X, _XtX, self.regularization)", "                self.solver.calculate_yty(Y, _XtX, self.regularization)")],
    "gpu_als_recalc_gram": [("gpu/als.py", "            Ciu, item_factors, self.XtX, self.user_factors, cg_steps=self.factors", "            Ciu, item_factors, self.YtY, self.user_factors, cg_steps=self.factors")],
    "gpu_als_yty": [("gpu/als.py", "            self.solver.calculate_yty(self.item_factors, self._YtY, self.regularization)", "            self.solver.calculate_yty(self.user_factors, self._YtY, self.regularization)")],
    "gpu_als_assign": [("gpu/als.py", "        self.user_factors.assign_rows(userids, user_factors)", "        self.item_factors.assign_rows(userids, user_factors)")],
    "gpu_als_resize": [("gpu/als.py", "            self.user_factors.resize(max_userid + 1, factors)", "            self.item_factors.resize(max_userid + 1, factors)")],
    "gpu_rec_noremap": [("gpu/matrix_factorization_base.py", "        if items is not None:\n            ids = items[ids]\n\n        return ids, scores\n", "        return ids, scores\n")],
    "gpu_norms": [("gpu/matrix_factorization_base.py", "self._item_norms = implicit.gpu.calculate_norms(self.item_factors)", "self._item_norms = implicit.gpu.calculate_norms(self.user_factors)")],
    "gpu_norms_host": [("gpu/matrix_factorization_base.py", "        user_norms = self._user_norms_host[userid]\n", "        user_norms = self._item_norms_host[userid]\n")],
    "gpu_query": [("gpu/matrix_factorization_base.py", "            query_factors = self.item_factors[itemid]\n", "            query_factors = item_factors[itemid]\n")],
    "gpu_bpr_swap": [("gpu/bpr.py", "            self.user_factors = implicit.gpu.Matrix(user_factors)", "            self.user_factors = implicit.gpu.Matrix(item_factors)")],
}

REFACTORS = {
    "c12_tuple": [("cpu/_als.pyx", "    if Cui.shape[0] != X.shape[0] or Cui.shape[1] > Y.shape[0] or X.shape[1] != Y.shape[1]:", "    if (Cui.shape[0], X.shape[1]) != (X.shape[0], Y.shape[1]) or Cui.shape[1] > Y.shape[0]:")],
    "c12_names": [("cpu/_als.pyx", "    if Cui.shape[0] != X.shape[0] or Cui.shape[1] > Y.shape[0] or X.shape[1] != Y.shape[1]:", "    rows, cols = Cui.shape\n    users, factors = X.shape\n    matches = rows == users and cols <= Y.shape[0] and factors == Y.shape[1]\n    if not matches:")],
    "c12_split": [("cpu/_als.pyx", "    if Cui.shape[0] != X.shape[0] or Cui.shape[1] > Y.shape[0] or X.shape[1] != Y.shape[1]:\n", "    if X.shape[1] != Y.shape[1]:\n        raise ValueError(\"factors differ\")\n    if not (X.shape[0] == Cui.shape[0] and Y.shape[0] >= Cui.shape[1]):\n")],
    "c12_nnz": [("cpu/bpr.pyx", "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, user_items.nnz - 1, rng_seeds)"), ("cpu/lmf.pyx", "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, user_items.indices.shape[0] - 1, rng_seeds)")],
    "c12_nnz2": [("cpu/bpr.pyx", "        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "        cdef long last = len(userids) - 1\n        cdef RNGVector rng = RNGVector(num_threads, last, rng_seeds)")],
    "c12_threads": [("cpu/bpr.pyx", "        cdef int num_threads = self.num_threads\n        if not num_threads:\n            num_threads = multiprocessing.cpu_count()\n", "        cdef int num_threads = self.num_threads or multiprocessing.cpu_count()\n"), ("cpu/lmf.pyx", "        cdef int num_threads = self.num_threads\n        if not num_threads:\n            num_threads = multiprocessing.cpu_count()\n", "        cdef int num_threads = self.num_threads if self.num_threads else multiprocessing.cpu_count()\n")],
    "c12_malloc": [("cpu/_als.pyx", "A = <floating *> malloc(sizeof(floating) * factors * factors)", "A = <floating *> malloc(factors * factors * sizeof(floating))"), ("cpu/lmf.pyx", "malloc(sizeof(floating) * n_factors)", "malloc(n_factors * sizeof(floating))")],
    "c12_malloc2": [("cpu/_als.pyx", "    cdef int one = 1, factors = X.shape[1], err\n", "    cdef int one = 1, factors = X.shape[1], err\n    cdef size_t row_bytes = sizeof(floating) * factors\n"), ("cpu/_als.pyx", "A = <floating *> malloc(sizeof(floating) * factors * factors)", "A = <floating *> malloc(row_bytes * factors)"), ("cpu/_als.pyx", "b = <floating *> malloc(sizeof(floating) * factors)", "b = <floating *> malloc(row_bytes)")],
    "c12_total": [("_nearest_neighbours.pyx", "    cdef double[:] values = np.zeros(<size_t> item_count * K)\n    cdef long[:] rows = np.zeros(<size_t> item_count * K, dtype=int)\n    cdef long[:] cols = np.zeros(<size_t> item_count * K, dtype=int)\n", "    cdef size_t total = <size_t> K * item_count\n    cdef double[:] values = np.zeros(total)\n    cdef long[:] rows = np.zeros(total, dtype=int)\n    cdef long[:] cols = np.zeros(total, dtype=int)\n")],
    "c12_out": [("_nearest_neighbours.pyx", "                out = <size_t> K * i\n\n                for result in topk.results:\n                    rows[out] = i\n                    cols[out] = result.second\n                    values[out] = result.first\n                    out = out + 1\n", "                out = (<size_t> i) * K\n                for j in range(<int> topk.results.size()):\n                    rows[out + j] = i\n                    cols[out + j] = topk.results[j].second\n                    values[out + j] = topk.results[j].first\n")],
    "c12_knnmax": [("_nearest_neighbours.pyx", "        for index1 in range(user_indptr[0], user_indptr[1]):\n            if user_indices[index1] < 0 or user_indices[index1] >= item_count:\n                raise ValueError(\"user_items contains itemids that are not in the model\")\n", "        for index1 in range(user_indptr[0], user_indptr[1]):\n            i = user_indices[index1]\n            if not (0 <= i < item_count):\n                raise ValueError(\"user_items contains itemids that are not in the model\")\n")],
    "c12_refit": [("cpu/bpr.pyx", "        if users > self.user_factors.shape[0] or items > self.item_factors.shape[0]:\n            raise ValueError(\"user_items has more users or items than the model was fit with\")\n", "        if users > len(self.user_factors):\n            raise ValueError(\"user_items has more users than the model was fit with\")\n        if len(self.item_factors) < items:\n            raise ValueError(\"user_items has more items than the model was fit with\")\n")],
    "c12_refit2": [("cpu/lmf.pyx", "        if users != self.user_factors.shape[0] or items != self.item_factors.shape[0]:", "        if user_items.shape != (self.user_factors.shape[0], self.item_factors.shape[0]):")],
    "c12_refit3": [("cpu/bpr.pyx", "        if users > self.user_factors.shape[0] or items > self.item_factors.shape[0]:\n            raise ValueError(\"user_items has more users or items than the model was fit with\")\n", "        self._check_size(users, items)\n"), ("cpu/bpr.pyx", "    def to_gpu(self)", "    def _check_size(self, users, items):\n        if users > self.user_factors.shape[0] or items > self.item_factors.shape[0]:\n            raise ValueError(\"user_items has more users or items than the model was fit with\")\n\n    def to_gpu(self)")],
    "c12_select": [("cpu/select.h", "    for (size_t i = 0; i < results.size(); ++i) {\n      ids[static_cast<size_t>(row) * k + i] = results[i].second;\n      distances[static_cast<size_t>(row) * k + i] = results[i].first;\n    }\n", "    int *row_ids = ids + static_cast<size_t>(row) * k;\n    T *row_distances = distances + static_cast<size_t>(row) * k;\n    for (size_t i = 0; i < results.size(); ++i) {\n      row_ids[i] = results[i].second;\n      row_distances[i] = results[i].first;\n    }\n"), ("cpu/select.h", "    for (int col = 0; col < cols; ++col) {\n      T score = batch[static_cast<size_t>(row) * cols + col];", "    const T *scores = batch + static_cast<size_t>(row) * cols;\n    for (int col = 0; col < cols; ++col) {\n      T score = scores[col];")],
    "c12_deriv": [("cpu/lmf.pyx", "        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(self.dtype)\n        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(self.dtype)\n", "        user_vec_deriv_sum = np.zeros(self.user_factors.shape, dtype=self.dtype)\n        item_vec_deriv_sum = np.zeros_like(self.item_factors)\n")],
    "c12_evcount": [("evaluation.pyx", "        count = min(K, ids.shape[1])\n", "        count = ids.shape[1]\n        if count > K:\n            count = K\n")],
    "c12_bprptr": [("cpu/bpr.pyx", "            user, liked, disliked = &X[userids[liked_index], 0], &Y[liked_id, 0], &Y[disliked_id, 0]\n", "            user = &X[userids[liked_index], 0]\n            liked = &Y[liked_id, 0]\n            disliked = &Y[disliked_id, 0]\n")],
    "c12_topkbatches": [("cpu/topk.pyx", "    cdef int batches = (query_rows // batch_size)\n    if query_rows % batch_size:\n        batches += 1\n", "    cdef int batches = (query_rows + batch_size - 1) // batch_size\n")],
    "c12_topkend": [("cpu/topk.pyx", "        endidx = min(startidx + batch_size, query_rows)\n", "        endidx = startidx + batch_size\n        if endidx > query_rows:\n            endidx = query_rows\n")],

    'nn_early': [('nearest_neighbours.h', '    if ((results.size() < K) || (score > results[0].first)) {\n      if (results.size() >= K) {\n        std::pop_heap(results.begin(), results.end(), heap_order);\n        results.pop_back();\n      }\n\n      results.push_back(std::make_pair(score, index));\n      std::push_heap(results.begin(), results.end(), heap_order);\n    }\n', '    if (results.size() >= K) {\n      if (score <= results.front().first) {\n        return;\n      }\n      std::pop_heap(results.begin(), results.end(), heap_order);\n      results.pop_back();\n    }\n    results.emplace_back(score, index);\n    std::push_heap(results.begin(), results.end(), heap_order);\n')],
    'nn_after': [('nearest_neighbours.h', '    if ((results.size() < K) || (score > results[0].first)) {\n      if (results.size() >= K) {\n        std::pop_heap(results.begin(), results.end(), heap_order);\n        results.pop_back();\n      }\n\n      results.push_back(std::make_pair(score, index));\n      std::push_heap(results.begin(), results.end(), heap_order);\n    }\n', '    bool full = results.size() >= K;\n    if (full && !(score > results[0].first)) return;\n    if (full) {\n      std::pop_heap(results.begin(), results.end(), heap_order);\n      results.pop_back();\n    }\n    std::pair<Value, Index> entry(score, index);\n    results.push_back(entry);\n    std::push_heap(results.begin(), results.end(), heap_order);\n')],
    'nn_push_helper': [('nearest_neighbours.h', '      results.push_back(std::make_pair(score, index));\n      std::push_heap(results.begin(), results.end(), heap_order);\n    }\n  }\n', '      push(index, score);\n    }\n  }\n\n  void push(Index index, Value score) {\n    results.push_back(std::make_pair(score, index));\n    std::push_heap(results.begin(), results.end(), heap_order);\n  }\n')],
    'nn_add': [('nearest_neighbours.h', '    sums[index] += value;\n\n    if (nonzeros[index] == -1) {\n      nonzeros[index] = head;\n      head = index;\n      length += 1;\n    }\n', '    if (nonzeros[index] == -1) {\n      nonzeros[index] = head;\n      head = index;\n      ++length;\n    }\n    sums[index] = sums[index] + value;\n')],
    'nn_add2': [('nearest_neighbours.h', '    if (nonzeros[index] == -1) {\n      nonzeros[index] = head;\n      head = index;\n      length += 1;\n    }\n', '    if (nonzeros[index] != -1) return;\n    length++;\n    nonzeros[index] = head;\n    head = index;\n')],
    'nn_each': [('nearest_neighbours.h', '      Index index = head;\n      f(index, sums[index]);\n\n      // clear up memory and advance linked list\n      head = nonzeros[head];\n      sums[index] = 0;\n      nonzeros[index] = -1;\n', '      Index index = head;\n      Value total = sums[index];\n      head = nonzeros[index];\n      nonzeros[index] = -1;\n      sums[index] = 0;\n      f(index, total);\n')],
    'nn_while': [('nearest_neighbours.h', '    for (int i = 0; i < length; ++i) {\n', '    while (head >= 0) {\n')],
    'nn_range': [('_nearest_neighbours.pyx', '                        for index2 in range(self.similarity_indptr[i], self.similarity_indptr[i+1]):\n                            self.neighbours.add(self.similarity_indices[index2],\n                                                self.similarity_data[index2] * weight)\n', '                        self._add_row(i, weight)\n'), ('_nearest_neighbours.pyx', '    def __dealloc__(self):', '    @cython.boundscheck(False)\n    cdef void _add_row(self, int i, double weight) noexcept nogil:\n        cdef int pos\n        for pos in range(self.similarity_indptr[i], self.similarity_indptr[i + 1]):\n            self.neighbours.add(self.similarity_indices[pos], weight * self.similarity_data[pos])\n\n    def __dealloc__(self):')],
    'nn_clear_end': [('_nearest_neighbours.pyx', '                topk.results.clear()\n', ''), ('_nearest_neighbours.pyx', '                    out = out + 1\n', '                    out = out + 1\n                topk.results.clear()\n')],
    'nn_outidx': [('_nearest_neighbours.pyx', '                for result in topk.results:\n                    rows[out] = i\n                    cols[out] = result.second\n                    values[out] = result.first\n                    out = out + 1\n', '                for j in range(<int> topk.results.size()):\n                    rows[out + j] = i\n                    cols[out + j] = topk.results[j].second\n                    values[out + j] = topk.results[j].first\n')],
    'nn_vars': [('_nearest_neighbours.pyx', '                    for index2 in range(user_indptr[u], user_indptr[u+1]):\n                        neighbours.add(user_indices[index2], user_data[index2] * w1)\n', '                    for index2 in range(user_indptr[u], user_indptr[u+1]):\n                        j = user_indices[index2]\n                        w2 = user_data[index2]\n                        neighbours.add(j, w1 * w2)\n')],
    'nn_skipzero': [('_nearest_neighbours.pyx', '                    w1 = item_data[index1]\n', '                    w1 = item_data[index1]\n                    if w1 == 0:\n                        continue\n')],
    'sel_local': [('cpu/select.h', '  std::vector<std::pair<T, int>> results;\n  std::greater<std::pair<T, int>> heap_order;\n\n  for (int row = 0; row < rows; ++row) {\n    results.clear();\n', '  std::greater<std::pair<T, int>> heap_order;\n\n  for (int row = 0; row < rows; ++row) {\n    std::vector<std::pair<T, int>> results;\n    results.reserve(k);\n')],
    'sel_helper': [('cpu/select.h', '      if ((results.size() < k) || (score > results[0].first)) {\n        if (results.size() >= k) {\n          std::pop_heap(results.begin(), results.end(), heap_order);\n          results.pop_back();\n        }\n        results.push_back(std::make_pair(score, col));\n        std::push_heap(results.begin(), results.end(), heap_order);\n      }\n', '      offer(results, heap_order, k, score, col);\n'), ('cpu/select.h', 'template <typename T>\ninline void select(', 'template <typename T>\ninline void offer(std::vector<std::pair<T, int>> &results,\n                  const std::greater<std::pair<T, int>> &heap_order, int k,\n                  T score, int col) {\n  if ((results.size() < k) || (score > results[0].first)) {\n    if (results.size() >= k) {\n      std::pop_heap(results.begin(), results.end(), heap_order);\n      results.pop_back();\n    }\n    results.push_back(std::make_pair(score, col));\n    std::push_heap(results.begin(), results.end(), heap_order);\n  }\n}\n\ntemplate <typename T>\ninline void select(')],
    'sel_ptr': [('cpu/select.h', '    for (int col = 0; col < cols; ++col) {\n      T score = batch[static_cast<size_t>(row) * cols + col];\n', '    const T *scores = batch + static_cast<size_t>(row) * cols;\n    for (int col = 0; col < cols; ++col) {\n      T score = scores[col];\n')],
    'ev_for': [('evaluation.pyx', '    while start_idx < len(to_generate):\n', '    for start_idx in range(0, len(to_generate), batch_size):\n'), ('evaluation.pyx', '        start_idx += batch_size\n', '')],
    'ev_row': [('evaluation.pyx', '        ids, _ = model.recommend(batch, train_user_items[batch], N=K)\n', '        train_batch = train_user_items[batch]\n        results = model.recommend(batch, train_batch, N=K)\n        ids = results[0]\n')],
    'ev_nonzero': [('evaluation.pyx', '    to_generate = np.arange(users, dtype="int32")\n    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 0]\n', '    to_generate = np.flatnonzero(np.ediff1d(test_user_items.indptr)).astype("int32")\n')],
    'ev_diff': [('evaluation.pyx', '    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 0]\n', '    has_items = np.diff(test_user_items.indptr) >= 1\n    to_generate = to_generate[has_items]\n')],
    'ev_reorder': [('evaluation.pyx', '                ap = 0\n                hit = 0\n                miss = 0\n                auc = 0\n', '                hit = miss = 0\n                ap = auc = 0\n')],
    'ev_nliked': [('evaluation.pyx', '                pr_div += fmin(K, likes.size())\n                ap = 0', '                num_pos_items = likes.size()\n                pr_div += fmin(K, num_pos_items)\n                ap = 0'), ('evaluation.pyx', '                num_pos_items = likes.size()\n                num_neg_items', '                num_neg_items')],
    'ev_not': [('evaluation.pyx', '                    if likes.find(ids[batch_idx, i]) != likes.end():\n                        relevant += 1\n                        hit += 1\n                        ap += hit / (i + 1)\n                        ndcg += cg[i] / idcg\n                    else:\n                        miss += 1\n                        auc += hit\n', '                    if likes.find(ids[batch_idx, i]) == likes.end():\n                        miss += 1\n                        auc += hit\n                        continue\n                    relevant += 1\n                    hit += 1\n                    ap += hit / (i + 1)\n                    ndcg += cg[i] / idcg\n')],
    'ev_count': [('evaluation.pyx', 'if likes.find(ids[batch_idx, i]) != likes.end():', 'if likes.count(ids[batch_idx, i]) > 0:')],
    'ev_countvar': [('evaluation.pyx', 'count = min(K, ids.shape[1])', 'count = ids.shape[1] if ids.shape[1] < K else K')],
    'ev_relevant': [('evaluation.pyx', '                        relevant += 1\n', ''), ('evaluation.pyx', '                mean_ap += ap /', '                relevant += hit\n                mean_ap += ap /')],
    'ev_total': [('evaluation.pyx', '                total += 1\n', ''), ('evaluation.pyx', '        progress.update(len(batch))', '        total += len(batch)\n        progress.update(len(batch))')],
    'ev_total2': [('evaluation.pyx', '                total += 1\n', ''), ('evaluation.pyx', '    progress.close()\n    return {', '    progress.close()\n    total = len(to_generate)\n    return {')],
    'ev_dict': [('evaluation.pyx', '    return {\n        "precision": relevant / pr_div,\n        "map": mean_ap / total,\n        "ndcg": ndcg / total,\n        "auc": mean_auc / total\n    }', '    metrics = {"precision": relevant / pr_div}\n    metrics["map"] = mean_ap / total\n    metrics["ndcg"] = ndcg / total\n    metrics["auc"] = mean_auc / total\n    return metrics')],
    'ev_short': [('evaluation.pyx', "        model, train_user_items, test_user_items, K, show_progress, num_threads)['map']", "        model, train_user_items, test_user_items, K=K, show_progress=show_progress,\n        num_threads=num_threads)['map']")],
    'ev_short2': [('evaluation.pyx', "    return ranking_metrics_at_k(\n        model, train_user_items, test_user_items, K, show_progress, num_threads)['ndcg']", "    metrics = ranking_metrics_at_k(\n        model, train_user_items, test_user_items, K, show_progress, num_threads)\n    return metrics['ndcg']")],
    'ev_iter': [('evaluation.pyx', '            for batch_idx in range(len(batch)):\n', '            for batch_idx in range(batch.shape[0]):\n')],
    'ev_end': [('evaluation.pyx', '        batch = to_generate[start_idx: start_idx + batch_size]\n', '        end_idx = min(start_idx + batch_size, len(to_generate))\n        batch = to_generate[start_idx: end_idx]\n'), ('evaluation.pyx', '        start_idx += batch_size\n', '        start_idx = end_idx\n')],
    'ev_helper': [('evaluation.pyx', '                likes.clear()\n                for i in range(test_indptr[u], test_indptr[u+1]):\n                    likes.insert(test_indices[i])\n', '                _collect(test_indptr, test_indices, u, likes)\n'), ('evaluation.pyx', '@cython.boundscheck(False)\ndef ranking_metrics_at_k', 'cdef void _collect(int[:] indptr, int[:] indices, int u, unordered_set[int] & likes) noexcept nogil:\n    cdef int i\n    likes.clear()\n    for i in range(indptr[u], indptr[u + 1]):\n        likes.insert(indices[i])\n\n\n@cython.boundscheck(False)\ndef ranking_metrics_at_k')],
    'ds_helper': [('datasets/lastfm.py', '    filename = os.path.join(_download.LOCAL_CACHE_DIR, "lastfm_360k.hdf5")\n    if not os.path.isfile(filename):\n        log.info("Downloading dataset to \'%s\'", filename)\n        _download.download_file(URL, filename)\n    else:\n        log.info("Using cached dataset at \'%s\'", filename)\n', '    filename = _download.cached(URL, "lastfm_360k.hdf5")\n'), ('datasets/_download.py', 'def download_file(', 'def cached(url, name):\n    filename = os.path.join(LOCAL_CACHE_DIR, name)\n    if os.path.exists(filename):\n        return filename\n    return download_file(url, filename)[0]\n\n\ndef download_file(')],
    'ds_helper2': [('datasets/reddit.py', '    filename = os.path.join(_download.LOCAL_CACHE_DIR, "reddit.hdf5")\n    if not os.path.isfile(filename):\n        log.info("Downloading dataset to \'%s\'", filename)\n        _download.download_file(URL, filename)\n    else:\n        log.info("Using cached dataset at \'%s\'", filename)\n', '    filename = _download.cached(URL)\n'), ('datasets/_download.py', 'def download_file(', 'def cached(url):\n    filename = os.path.join(LOCAL_CACHE_DIR, os.path.basename(url))\n    if not os.path.isfile(filename):\n        download_file(url, filename)\n    return filename\n\n\ndef download_file(')],
    'ds_matrix': [('datasets/lastfm.py', '        m = f.get("artist_user_plays")\n        plays = csr_matrix((m.get("data"), m.get("indices"), m.get("indptr")))\n', '        plays = _matrix(f["artist_user_plays"])\n'), ('datasets/lastfm.py', 'def get_lastfm', 'def _matrix(m):\n    return csr_matrix((m["data"][:], m["indices"][:], m["indptr"][:]))\n\n\ndef get_lastfm')],
    'ds_loop': [('datasets/lastfm.py', '        g.create_dataset("data", data=plays.data)\n        g.create_dataset("indptr", data=plays.indptr)\n        g.create_dataset("indices", data=plays.indices)\n', '        for name in ("data", "indptr", "indices"):\n            g.create_dataset(name, data=getattr(plays, name))\n')],
    'ds_loop2': [('datasets/sketchfab.py', '        g.create_dataset("data", data=likes.data)\n        g.create_dataset("indptr", data=likes.indptr)\n        g.create_dataset("indices", data=likes.indices)\n', '        for name, values in {"data": likes.data, "indptr": likes.indptr, "indices": likes.indices}.items():\n            g.create_dataset(name, data=values)\n')],
    'ds_write_helper': [('datasets/lastfm.py', '        dt = h5py.special_dtype(vlen=str)\n        artist = list(data["artist"].cat.categories)\n        dset = f.create_dataset("artist", (len(artist),), dtype=dt)\n        dset[:] = artist\n\n        user = list(data["user"].cat.categories)\n        dset = f.create_dataset("user", (len(user),), dtype=dt)\n        dset[:] = user', '        _write_strings(f, "artist", list(data["artist"].cat.categories))\n        _write_strings(f, "user", list(data["user"].cat.categories))\n\n\ndef _write_strings(f, name, values):\n    dset = f.create_dataset(name, (len(values),), dtype=h5py.special_dtype(vlen=str))\n    dset[:] = values')],
    'ds_early': [('datasets/movielens.py', '    if not os.path.isfile(path):\n        log.info("Downloading dataset to \'%s\'", path)\n        _download.download_file(URL_BASE + filename, path)\n    else:\n        log.info("Using cached dataset at \'%s\'", path)\n', '    url = URL_BASE + filename\n    if os.path.isfile(path):\n        log.info("Using cached dataset at \'%s\'", path)\n    else:\n        log.info("Downloading dataset to \'%s\'", path)\n        path, _ = _download.download_file(url, path)\n')],
    'ds_stream': [('datasets/_download.py', '        _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        os.replace(', '        try:\n            _, headers = urlretrieve(url, temp_filename, reporthook=report)\n        except BaseException:\n            if os.path.isfile(temp_filename):\n                os.remove(temp_filename)\n            raise\n        os.replace(')],
    'ds_mkdirs': [('datasets/_download.py', '    if not os.path.isdir(path):\n        os.makedirs(path)\n', '    os.makedirs(path, exist_ok=True)\n')],
    'ds_rename': [('datasets/_download.py', '        return local_filename, headers\n', '    return local_filename, headers\n'), ('datasets/_download.py', '        os.replace(temp_filename, local_filename)\n', '    os.rename(temp_filename, local_filename)\n')],
    'ds_fmt': [('datasets/movielens.py', 'filename = f"movielens_{variant}.hdf5"\n\n    path', 'filename = "movielens_%s.hdf5" % variant\n\n    path')],
    'ds_fmt2': [('datasets/movielens.py', 'filename = f"movielens_{variant}.hdf5"\n\n    path', 'filename = "movielens_{}.hdf5".format(variant)\n\n    path')],
    'split_helper': [('evaluation.pyx', '    train = csr_matrix((ratings.data[train_index],\n                        (ratings.row[train_index], ratings.col[train_index])),\n                       shape=ratings.shape, dtype=ratings.dtype)\n\n    test = csr_matrix((ratings.data[test_index],\n                       (ratings.row[test_index], ratings.col[test_index])),\n                      shape=ratings.shape, dtype=ratings.dtype)\n', '    train = _subset(ratings, train_index)\n    test = _subset(ratings, ~train_index)\n'), ('evaluation.pyx', 'def train_test_split(', 'def _subset(ratings, mask):\n    picked = (ratings.row[mask], ratings.col[mask])\n    return csr_matrix((ratings.data[mask], picked), shape=ratings.shape, dtype=ratings.dtype)\n\n\ndef train_test_split('), ('evaluation.pyx', '    test_index = random_index >= train_percentage\n', '')],
    'split_take_compl': [('evaluation.pyx', '    train_idx = np.setdiff1d(np.arange(len(candidate_users), dtype=int), test_idx)\n', '')],
    'split_take_mask': [('evaluation.pyx', '    train_idx = np.setdiff1d(np.arange(len(candidate_users), dtype=int), test_idx)\n', '    in_train = np.ones(len(candidate_users), dtype=bool)\n    in_train[test_idx] = False\n    train_idx = np.flatnonzero(in_train)\n')],
    'split_rest': [('evaluation.pyx', '    train_users = np.r_[users[~full_candidate_mask], candidate_users[train_idx]]', '    rest = ~full_candidate_mask\n    train_users = np.concatenate((users[rest], candidate_users[train_idx]))'), ('evaluation.pyx', '    train_items = np.r_[items[~full_candidate_mask], candidate_items[train_idx]]\n    train_data = np.r_[data[~full_candidate_mask], candidate_data[train_idx]]', '    train_items = np.concatenate((items[rest], candidate_items[train_idx]))\n    train_data = np.concatenate((data[rest], candidate_data[train_idx]))')],
    'split_elig': [('evaluation.pyx', 'candidate_mask = counts > K + 1', 'candidate_mask = counts - K >= 2')],
    'split_reserved': [('evaluation.pyx', '        train_only_mask = ~np.isin(\n            unique_users, unique_users[_choose(random_state, len(unique_users), train_only_size)]\n        )\n        candidate_mask = train_only_mask & candidate_mask', '        picked = _choose(random_state, len(unique_users), train_only_size)\n        candidate_mask[picked] = False')],
    'split_reserved2': [('evaluation.pyx', '        train_only_mask = ~np.isin(\n            unique_users, unique_users[_choose(random_state, len(unique_users), train_only_size)]\n        )\n        candidate_mask = train_only_mask & candidate_mask', '        reserved = unique_users[_choose(random_state, len(unique_users), train_only_size)]\n        candidate_mask = np.logical_and(candidate_mask, np.isin(unique_users, reserved, invert=True))')],
    "sorted_scores": [(NN, "        return ids[best], scores[best]", "        return ids[best], np.sort(scores)[::-1][:N]")],
    # behaviour-preserving rewrites of the ALS code
    "als_weight": [(P_ALS, "                    if confidence > 0:\n                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n                    else:\n                        confidence = -1 * confidence\n", "                    if confidence > 0:\n                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n                    if confidence < 0:\n                        confidence = -confidence\n")],
    "als_shift": [(P_ALS, "                    for j in range(factors):\n                        temp = (confidence - 1) * Y[i, j]\n", "                    confidence = confidence - 1\n                    for j in range(factors):\n                        temp = confidence * Y[i, j]\n")],
    "als_order": [(P_ALS, "                memcpy(A, &initialA[0, 0], sizeof(floating) * factors * factors)\n                memcpy(b, &initialB[0], sizeof(floating) * factors)\n", "                memset(b, 0, sizeof(floating) * factors)\n                memcpy(A, &initialA[0, 0], sizeof(floating) * factors * factors)\n")],
    "als_helper": [(P_ALS, "                    if confidence > 0:\n                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n                    else:\n                        confidence = -1 * confidence\n\n                    # A += Yi^T Cui Yi\n                    # Since we've already added in YtY, we subtract 1 from confidence\n                    for j in range(factors):\n                        temp = (confidence - 1) * Y[i, j]\n                        axpy(&factors, &temp, &Y[i, 0], &one, A + j * factors, &one)\n", "                    _accumulate(&Y[i, 0], confidence, factors, A, b)\n"), (P_ALS, "def _check_als_dtype(X):", "cdef inline void _accumulate(floating * y, floating confidence, int factors, floating * A,\n                             floating * b) noexcept nogil:\n    cdef int one = 1, j\n    cdef floating temp\n    if confidence > 0:\n        axpy(&factors, &confidence, y, &one, b, &one)\n    else:\n        confidence = -1 * confidence\n    for j in range(factors):\n        temp = (confidence - 1) * y[j]\n        axpy(&factors, &temp, y, &one, A + j * factors, &one)\n\n\ndef _check_als_dtype(X):")],
    "als_cg_if": [(P_ALS, "                    if confidence > 0:\n                        temp = confidence\n                    else:\n                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp - (", "                    temp = 0\n                    if confidence > 0:\n                        temp = confidence\n                    elif confidence < 0:\n                        confidence = -confidence\n\n                    temp = temp - (")],
    "als_cg_scale": [(P_ALS, "                    temp = alpha * -1\n                    axpy(&N, &temp, Ap, &one, r, &one)\n", "                    temp = -alpha\n                    axpy(&N, &temp, Ap, &one, r, &one)\n")],
    "als_cg_beta": [(P_ALS, "                    temp = rsnew / rsold\n                    scal(&N, &temp, p, &one)\n                    temp = 1.0\n                    axpy(&N, &temp, r, &one, p, &one)\n\n                    rsold = rsnew\n", "                    beta = rsnew / rsold\n                    rsold = rsnew\n                    scal(&N, &beta, p, &one)\n                    beta = 1.0\n                    axpy(&N, &beta, r, &one, p, &one)\n"), (P_ALS, "    cdef floating confidence, temp, alpha, rsnew, rsold\n", "    cdef floating confidence, temp, alpha, beta, rsnew, rsold\n")],
    "als_cg_nonempty": [(P_ALS, "                if indptr[u] == indptr[u+1]:\n                    memset(x, 0, sizeof(floating) * N)\n                    continue\n", "                if indptr[u+1] - indptr[u] == 0:\n                    memset(x, 0, sizeof(floating) * N)\n                    continue\n")],
    "als_cg_loop": [(P_ALS, "                for index in range(indptr[u], indptr[u + 1]):\n                    i = indices[index]\n                    confidence = data[index]\n\n                    if confidence > 0:\n                        temp = confidence\n", "                index = indptr[u]\n                while index < indptr[u + 1]:\n                    i = indices[index]\n                    confidence = data[index]\n                    index += 1\n\n                    if confidence > 0:\n                        temp = confidence\n")],
    "als_loss_sum": [(P_ALS, "                    total_confidence += confidence\n                    loss += confidence\n\n", "                    total_confidence += confidence\n\n"), (P_ALS, "    loss += regularization * (item_norm + user_norm)\n", "    loss += total_confidence\n    loss += regularization * item_norm + regularization * user_norm\n")],
    "als_loss_den": [(P_ALS, "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1] - Cui.nnz)", "    unobserved = Cui.shape[0] * Cui.shape[1] - Cui.nnz\n    return loss / (total_confidence + unobserved)")],
    "als_py_weight": [(A_PY, "        if confidence > 0:\n            b += confidence * factor\n        else:\n            confidence *= -1\n\n        A += (confidence - 1) * np.outer(factor, factor)\n", "        if confidence > 0:\n            b = b + factor * confidence\n        weight = abs(confidence) - 1\n        A = A + weight * np.outer(factor, factor)\n")],
    "als_py_cg": [(A_PY, "            if confidence > 0:\n                r += (confidence - (confidence - 1) * Y[i].dot(x)) * Y[i]\n            else:\n                confidence *= -1\n                r += -(confidence - 1) * Y[i].dot(x) * Y[i]\n", "            y = Y[i]\n            target = confidence if confidence > 0 else 0\n            weight = abs(confidence)\n            r += (target - (weight - 1) * y.dot(x)) * y\n")],
    "als_py_cg2": [(A_PY, "            Ap = YtY.dot(p)\n            for i, confidence in nonzeros(Cui, u):\n                if confidence < 0:\n                    confidence *= -1\n\n                Ap += (confidence - 1) * Y[i].dot(p) * Y[i]\n", "            Ap = _weighted_product(YtY, Y, Cui, u, p)\n"), (A_PY, "def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):", "def _weighted_product(YtY, Y, Cui, u, v):\n    ret = YtY.dot(v)\n    for i, confidence in nonzeros(Cui, u):\n        ret += (abs(confidence) - 1) * Y[i].dot(v) * Y[i]\n    return ret\n\n\ndef least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):")],
    "als_py_loop": [(A_PY, "    for u in range(users):\n        X[u] = user_factor(Y, YtY, Cui, u, regularization, n_factors)\n", "    for row in range(X.shape[0]):\n        A, b = user_linear_equation(Y, YtY, Cui, row, regularization, n_factors)\n        X[row] = np.linalg.solve(A, b)\n"), (A_PY, "    users, n_factors = X.shape\n    YtY = Y.T.dot(Y)\n", "    n_factors = X.shape[1]\n    YtY = np.dot(Y.T, Y)\n")],
    "als_alpha_helper": [(A_PY, "        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n", "        Cui = self._scale(Cui)\n"), (A_PY, "        if self.alpha != 1.0:\n            user_items = self.alpha * user_items\n\n        user_factors", "        user_items = self._scale(user_items)\n        user_factors"), (A_PY, "        if self.alpha != 1.0:\n            item_users = self.alpha * item_users\n", "        item_users = self._scale(item_users)\n"), (A_PY, "    def recalculate_user(self,", "    def _scale(self, matrix):\n        if self.alpha == 1.0:\n            return matrix\n        return self.alpha * matrix\n\n    def recalculate_user(self,")],
    "als_alpha_always": [(A_PY, "        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n", "        Cui = Cui * self.alpha\n")],
    "als_local": [(A_PY, "                solver(\n                    Cui,\n                    self.user_factors,\n                    self.item_factors,\n                    self.regularization,\n                    num_threads=self.num_threads,\n                )\n                solver(\n                    Ciu,\n                    self.item_factors,\n                    self.user_factors,\n                    self.regularization,\n                    num_threads=self.num_threads,\n                )\n", "                self._iterate(solver, Cui, Ciu)\n"), (A_PY, "    def recalculate_user(self,", "    def _iterate(self, solver, Cui, Ciu):\n        for matrix, X, Y in (\n            (Cui, self.user_factors, self.item_factors),\n            (Ciu, self.item_factors, self.user_factors),\n        ):\n            solver(matrix, X, Y, self.regularization, num_threads=self.num_threads)\n\n    def recalculate_user(self,")],
    "als_while": [(A_PY, "            for iteration in range(self.iterations):\n                s = time.time()\n", "            iteration = -1\n            while iteration + 1 < self.iterations:\n                iteration += 1\n                s = time.time()\n")],
    "als_explain": [(A_PY, "            if confidence < 0:\n                continue\n\n            factor = self.item_factors[other_itemid]\n            # s_u^ij = (y_i^t W^u) y_j\n            score = weighted_item.dot(factor) * confidence\n            total_score += score\n            contribution = (score, other_itemid)\n            if h_len < N:\n                heapq.heappush(h, contribution)\n                h_len += 1\n            else:\n                heapq.heappushpop(h, contribution)\n", "            if confidence >= 0:\n                score = confidence * np.dot(self.item_factors[other_itemid], weighted_item)\n                total_score = total_score + score\n                if h_len < N:\n                    heapq.heappush(h, (score, other_itemid))\n                    h_len += 1\n                else:\n                    heapq.heappushpop(h, (score, other_itemid))\n")],
    "als_recalc_shared": [(A_PY, "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n        _als._check_als_shapes(user_items, user_factors, self.item_factors)\n        _als._least_squares(\n            self.YtY,\n            user_items.indptr,\n            user_items.indices,\n            user_items.data.astype(\"float32\"),\n            user_factors,\n            self.item_factors,\n            self.regularization,\n            num_threads=self.num_threads,\n        )\n", "        user_factors = self._solve(user_items, users, self.item_factors, self.YtY)\n"), (A_PY, "        item_factors = np.zeros((items, self.factors), dtype=self.dtype)\n        _als._check_als_shapes(item_users, item_factors, self.user_factors)\n        _als._least_squares(\n            self.XtX,\n            item_users.indptr,\n            item_users.indices,\n            item_users.data.astype(\"float32\"),\n            item_factors,\n            self.user_factors,\n            self.regularization,\n            num_threads=self.num_threads,\n        )\n", "        item_factors = self._solve(item_users, items, self.user_factors, self.XtX)\n"), (A_PY, "    def recalculate_user(self,", "    def _solve(self, matrix, rows, other, gram):\n        ret = np.zeros((rows, self.factors), dtype=self.dtype)\n        _als._check_als_shapes(matrix, ret, other)\n        _als._least_squares(\n            gram,\n            matrix.indptr,\n            matrix.indices,\n            matrix.data.astype(\"float32\"),\n            ret,\n            other,\n            self.regularization,\n            num_threads=self.num_threads,\n        )\n        return ret\n\n    def recalculate_user(self,")],
}
