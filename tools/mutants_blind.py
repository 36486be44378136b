BLIND = {
"C01": {
 "explain_overwrite": [("cpu/als.py","scipy.linalg.cho_solve(user_weights, seed_item)","scipy.linalg.cho_solve(user_weights, seed_item, overwrite_b=True)")],
 "knn_view_filter": [("nearest_neighbours.py","""        ids = self.similarity[itemid].indices
        scores = self.similarity[itemid].data

        if filter_items is not None:
            mask = np.in1d(ids, filter_items, invert=True)
            ids, scores = ids[mask], scores[mask]
""","""        start, end = self.similarity.indptr[itemid], self.similarity.indptr[itemid + 1]
        ids = self.similarity.indices[start:end]
        scores = self.similarity.data[start:end]

        if filter_items is not None:
            scores[np.in1d(ids, filter_items)] = -np.finfo(scores.dtype).max
""")],
 "sim_norm_inplace": [("cpu/matrix_factorization_base.py","""            norm = norms[itemid]

        # if we have an item list""","""            norm = norms[itemid : itemid + 1] if np.isscalar(itemid) else norms[itemid]
            norm *= 1.0 + 1e-6

        # if we have an item list""")],
 "recalc_into_model": [("cpu/als.py","        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n","        user_factors = self.user_factors[:users]\n")],
 "annoy_memo_norm": [("ann/annoy.py","        scaling = self.max_norm * np.linalg.norm(query)\n        scores = scaling * (1 - (scores**2) / 2)","        self.max_norm = self.max_norm * np.linalg.norm(query)\n        scores = self.max_norm * (1 - (scores**2) / 2)")],
 "to_gpu_steal": [("cpu/als.py","            ret.user_factors = implicit.gpu.Matrix(self.user_factors)\n","            ret.user_factors = implicit.gpu.Matrix(self.user_factors)\n            self.user_factors = None\n")],
 "save_cast": [("cpu/als.py",'''        args = {
            "user_factors": self.user_factors,''','''        self.user_factors = self.user_factors.astype(np.float32)
        args = {
            "user_factors": self.user_factors,''')],
},
"C02": {
 "bm25_inplace": [("nearest_neighbours.py","    X.data = X.data * (K1","    X.data *= (K1")],
 "tfidf_inplace": [("nearest_neighbours.py","    X.data = sqrt(X.data) * idf[X.col]","    np.sqrt(X.data, out=X.data)\n    X.data = X.data * idf[X.col]")],
 "als_alpha_inplace": [("cpu/als.py","            user_items = self.alpha * user_items\n\n        user_factors = np","            user_items.data *= self.alpha\n\n        user_factors = np")],
 "lmf_sort": [("cpu/lmf.pyx","            user_items = user_items.sorted_indices()","            user_items.sort_indices()")],
 "knn_sumdup": [("nearest_neighbours.py","        user_count = 1 if np.isscalar(userid) else len(userid)\n","        user_items.sum_duplicates()\n        user_count = 1 if np.isscalar(userid) else len(userid)\n")],
 "eval_elim": [("evaluation.pyx","    cdef int users = test_user_items.shape[0], items","    test_user_items.eliminate_zeros()\n    cdef int users = test_user_items.shape[0], items")],
 "explain_pos": [("cpu/als.py","        if user_weights is None:\n","        user_items.data[user_items.data < 0] = 0\n        if user_weights is None:\n")],
 "batch_kwargs_list": [("utils.py","        output_ids[i] = batch_ids[:N]","        ids[i] = idx\n        output_ids[i] = batch_ids[:N]")],
 "annoy_filter_extend": [("ann/annoy.py","            filter_items = np.array(filter_items)\n","            filter_items = filter_items if isinstance(filter_items, list) else list(filter_items)\n"),("ann/annoy.py","                np.append(filter_items, user_likes) if filter_items is not None else user_likes","                filter_items.extend(user_likes) or filter_items if filter_items is not None else user_likes")],
 "augment_inplace": [("utils.py","    return max_norm, np.append(factors","    factors /= max_norm\n    return max_norm, np.append(factors")],
},
"C03": {
 "yty_grow": [("cpu/als.py","""        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        self._YtY = None
""","""        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        if max_itemid >= items:
            self._YtY = None
""")],
 "xtx_users": [("cpu/als.py","        self._user_norms = None\n        self._XtX = None\n\n    def partial_fit_items","        self._user_norms = None\n        self._YtY = None\n\n    def partial_fit_items")],
 "knn_lazy_scorer": [("nearest_neighbours.py","        self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend","        if self.scorer is None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend")],
 "annoy_index_keep": [("ann/annoy.py","        if self.approximate_similar_items:\n            log.debug(\"Building annoy similar","        if self.approximate_similar_items and self.similar_items_index is None:\n            log.debug(\"Building annoy similar")],
 "norms_key_shape": [("cpu/matrix_factorization_base.py","        if self._item_norms is None:\n","        if self._item_norms is None or len(self._item_norms) != len(self.item_factors):\n"),("cpu/als.py","        self._item_norms = None\n        self._YtY = None\n","        self._YtY = None\n")],
 "setstate_scorer": [("nearest_neighbours.py","        state = self.__dict__.copy()\n","        state = self.__dict__.copy()\n        state.setdefault('scorer', None)\n"),("nearest_neighbours.py","        if self.similarity is not None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n        else:","        if self.similarity is not None and getattr(self, 'scorer', None) is None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n        else:")],
},
"C04": {
 "in1d_unique": [("utils.py","        mask = np.in1d(ids, filter_items, invert=True)\n        ids, scores = ids[mask][:N]","        mask = np.in1d(ids, filter_items, assume_unique=True, invert=True)\n        ids, scores = ids[mask][:N]")],
 "in1d_unique_knn": [("nearest_neighbours.py","            mask = np.in1d(ids, filter_items, invert=True)\n            ids, scores = ids[mask][:N]","            mask = np.in1d(ids, filter_items, assume_unique=True, invert=True)\n            ids, scores = ids[mask][:N]")],
 "filter_limit": [("cpu/topk.pyx","    if filter_items is not None:\n        batch_distances[:","    if filter_items is not None and startidx == 0:\n        batch_distances[:")],
 "filter_else": [("cpu/topk.pyx","    if filter_items is not None:\n        batch_distances[:","    elif filter_items is not None:\n        batch_distances[:")],
 "searchsorted_right": [("cpu/matrix_factorization_base.py","np.searchsorted(items, filter_query_items.col)","np.searchsorted(items, filter_query_items.col, side=\"right\")")],
 "items_nosort": [("cpu/matrix_factorization_base.py","            items = np.array(items)\n            items.sort()\n            item_factors","            items = np.array(items)\n            item_factors")],
 "liked_positive": [("cpu/topk.pyx","            batch_distances[i, filter_query_items[idx].indices] = neginf","            row = filter_query_items[idx]\n            batch_distances[i, row.indices[row.data > 0]] = neginf")],
 "knn_own": [("_nearest_neighbours.pyx","                            i = user_indices[index1]\n                            self.neighbours.sums[i] = 0","                            i = user_indices[index1]\n                            if user_data[index1] > 0:\n                                self.neighbours.sums[i] = 0")],
 "annoy_filter_or": [("ann/annoy.py","                np.append(filter_items, user_likes) if filter_items is not None else user_likes","                filter_items if filter_items is not None else user_likes")],
 "neg_zero": [("cpu/topk.pyx","    neginf = -np.finfo(batch_distances.dtype).max","    neginf = min(0, batch_distances.min())")],
},
"C05": {
 "recommend_all_recalc": [("cpu/matrix_factorization_base.py","            filter_items=filter_items,\n            recalculate_user=recalculate_user,\n        )\n        return ids","            filter_items=filter_items,\n        )\n        return ids")],
 "rank_recalc": [("recommender_base.py","            recalculate_user=recalculate_user,\n            items","            items")],
 "faiss_items": [("ann/faiss.py","                recalculate_item=recalculate_item,\n                item_users=item_users,\n                filter_items=filter_items,\n                items=items,","                recalculate_item=recalculate_item,\n                item_users=item_users,\n                filter_items=filter_items,")],
 "map_k": [("evaluation.pyx","        model, train_user_items, test_user_items, K, show_progress, num_threads)['map']","        model, train_user_items, test_user_items, show_progress=show_progress, num_threads=num_threads)['map']")],
 "batch_n": [("utils.py","        batch_ids, batch_scores = func(idx, *args, N=N, **current_kwargs)","        batch_ids, batch_scores = func(idx, *args, **current_kwargs)")],
 "knn_filter_empty": [("nearest_neighbours.py","        if filter_items is not None and items is not None:\n            raise ValueError(\"Can't specify both filter_items and items\")\n\n        count = N","        count = N")],
 "nms_items_reject": [("ann/nmslib.py","        if items is not None:\n            raise NotImplementedError(\"using an items filter isn't supported with ANN lookup\")\n\n        # support","        # support")],
 "nms_recalc_hasattr": [("ann/nmslib.py","        elif recalculate_item:\n            raise NotImplementedError(f\"recalculate_item isn't supported with {self.model}\")\n","")],
 "knn_count_fal": [("nearest_neighbours.py","            remove_own_likes=filter_already_liked_items,","            remove_own_likes=filter_already_liked_items and filter_items is None,")],
},
"C07": {
 "knn_missing_front": [("nearest_neighbours.py","                ids = np.append(ids, missing)\n                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))\n            ids, scores = ids[:N]","                ids = np.append(missing, ids)\n                scores = np.append(np.full(missing.size, -np.finfo(scores.dtype).max), scores)\n            ids, scores = ids[:N]")],
 "knn_trunc_before": [("nearest_neighbours.py","        best = np.argsort(scores)[::-1][:N]\n        return ids[best], scores[best]","        ids, scores = ids[:N], scores[:N]\n        best = np.argsort(scores)[::-1]\n        return ids[best], scores[best]")],
 "filter_scores_mask": [("utils.py","            filtered_scores[row] = scores[row][mask][:N]","            filtered_scores[row] = scores[row][:N]")],
 "knn_abs": [("nearest_neighbours.py","        best = np.argsort(scores)[::-1][:N]","        best = np.argsort(np.abs(scores))[::-1][:N]")],
 "faiss_batch_norm": [("ann/annoy.py","        return ids, 1 - (scores**2) / 2","        return ids, (scores**2) / 2 - 1")],
 "select_nosort": [("cpu/select.h","    std::sort_heap(results.begin(), results.end(), heap_order);\n","    if (results.size() > 1) std::sort(results.begin(), results.end());\n")],
 "ids_sorted": [("cpu/matrix_factorization_base.py","            ids = items[ids]\n\n        return ids, scores\n\n    def recommend_all","            ids = np.sort(items[ids])\n\n        return ids, scores\n\n    def recommend_all")],
},
"C08": {
 "knn_count_max": [("nearest_neighbours.py","            count += len(filter_items)\n        elif","            count = max(count, len(filter_items))\n        elif")],
 "annoy_likes_count": [("ann/annoy.py","            count += len(user_likes)\n","")],
 "annoy_no_trunc": [("ann/annoy.py","            ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, N)","            ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, count)")],
 "knn_n": [("nearest_neighbours.py","            ids, scores = ids[mask][:N], scores[mask][:N]\n\n        elif items is not None:\n            mask = np.in1d(ids, items)\n            ids, scores = ids[mask], scores[mask]\n\n            # returned items should be equal to input selected items\n            missing = items[np.in1d(items, ids, invert=True)]\n            if missing.size:\n                ids = np.append(ids, missing)\n                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))\n            ids, scores = ids[:N], scores[:N]","            ids, scores = ids[mask][:N], scores[mask][:N]\n\n        elif items is not None:\n            mask = np.in1d(ids, items)\n            ids, scores = ids[mask][:N], scores[mask][:N]\n\n            # returned items should be equal to input selected items\n            missing = items[np.in1d(items, ids, invert=True)]\n            if missing.size:\n                ids = np.append(ids, missing)\n                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))")],
 "pad_zero": [("utils.py","np.full(missing_items, -1)","np.zeros(missing_items, dtype=np.int32)")],
 "mf_n_items": [("cpu/matrix_factorization_base.py","            N = min(N, len(items))\n","            N = max(N, len(items))\n")],
 "topk_k": [("cpu/topk.pyx","    k = min(k, items.shape[0])\n","    k = max(k, 1)\n")],
 "topk_min": [("cpu/topk.pyx","    k = min(k, items.shape[0])","    k = max(k, items.shape[0])")],
 "scalar_dim": [("cpu/matrix_factorization_base.py","        if np.isscalar(userid):\n            ids, scores = ids[0], scores[0]\n","        if len(ids) == 1:\n            ids, scores = ids[0], scores[0]\n")],
},
"C09": {
 "crs_falsy": [("utils.py","    # backwards compatibility\n","    if not random_state:\n        return np.random.default_rng()\n    # backwards compatibility\n")],
 "als_none": [("cpu/als.py","        random_state = check_random_state(self.random_state)","        random_state = check_random_state(self.random_state or None)")],
 "bpr_seed_time": [("cpu/bpr.pyx","rs.integers(0, 2**31, size=num_threads, dtype=\"long\")","np.random.randint(0, 2**31, size=num_threads)")],
 "lmf_thread": [("cpu/lmf.pyx","                    index = rng.generate(thread_id)","                    index = rng.generate(0)")],
 "split_global": [("evaluation.pyx","random_index = random_state.random(len(ratings.data))","random_index = np.random.random(len(ratings.data))")],
 "eval_hash": [("utils.py","        return np.random.default_rng(random_state.randint(2**31))","        return np.random.default_rng(hash(random_state) % 2**31)")],
 "lmf_refactor_rs": [("cpu/lmf.pyx","            self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=self.dtype)","            self.user_factors = np.random.default_rng().standard_normal(size=(users, self.factors + 2), dtype=self.dtype)")],
 "take_tails": [("evaluation.pyx","rng.random(","np.random.rand(")],
},
}
BLIND2 = {
"C06": {
 "norms_sorted": [("cpu/matrix_factorization_base.py","            user_factors = user_factors[users]\n            norms = norms[users]\n","            user_factors = user_factors[users]\n            norms = norms[np.sort(users)]\n")],
 "explain_user_factor": [("cpu/als.py","        seed_item = self.item_factors[itemid]","        seed_item = self.item_factors[userid]")],
 "knn_item_bound": [("nearest_neighbours.py","            count = self.similarity.shape[0]\n","            count = user_items.shape[0]\n")],
 "bpr_counts": [("cpu/bpr.pyx","            item_counts = np.bincount(user_items.indices, minlength=items)\n            self.item_factors[item_counts == 0]","            item_counts = np.bincount(userids, minlength=items)\n            self.item_factors[item_counts == 0]")],
 "rank_subset": [("cpu/matrix_factorization_base.py","        if users is not None:\n            ids = users[ids]\n","")],
 "partial_grow": [("cpu/als.py","        items, factors = self.item_factors.shape\n","        items, factors = self.user_factors.shape\n")],
 "eval_row": [("evaluation.pyx","model.recommend(batch, train_user_items[batch], N=K)","model.recommend(batch, train_user_items[start_idx: start_idx + len(batch)], N=K)")],
 "knn_pairs_T": [("_nearest_neighbours.pyx","    items = users.T.tocsr()\n","    items = users.tocsr()\n")],
},
"C10": {
 "loss_shared_r": [("cpu/_als.pyx","    with nogil, parallel(num_threads=num_threads):\n        r = <floating *> malloc(sizeof(floating) * N)\n        try:\n            for u in prange(users, schedule='dynamic', chunksize=8):\n                # calculates","    r = <floating *> malloc(sizeof(floating) * N)\n    with nogil, parallel(num_threads=num_threads):\n        try:\n            for u in prange(users, schedule='dynamic', chunksize=8):\n                # calculates"),("cpu/_als.pyx","        finally:\n            free(r)\n\n    loss","        finally:\n            pass\n    free(r)\n\n    loss")],
 "topk_shared_out": [("_nearest_neighbours.pyx","        neighbours = new SparseMatrixMultiplier[int, double](item_count)\n        topk = new TopK[int, double](K)\n\n        try:","        neighbours = new SparseMatrixMultiplier[int, double](item_count)\n        topk = shared_topk\n\n        try:"),("_nearest_neighbours.pyx","    progress = tqdm(total=item_count","    cdef TopK[int, double] * shared_topk = new TopK[int, double](K)\n    progress = tqdm(total=item_count"),("_nearest_neighbours.pyx","            del neighbours\n            del topk\n    progress","            del neighbours\n    del shared_topk\n    progress")],
 "knn_progress_nogil": [("_nearest_neighbours.pyx","            with self.lock:\n                with nogil:","            if True:\n                with nogil:")],
 "knn_results_outside": [("_nearest_neighbours.pyx","                    self.neighbours.foreach(dereference(topK))\n\n            count","            with nogil:\n                self.neighbours.foreach(dereference(topK))\n\n            count")],
 "lmf_item_update": [("cpu/lmf.pyx","                    deriv_sum_sq[u, _] += deriv[_] * deriv[_]\n","                    deriv_sum_sq[0, _] += deriv[_] * deriv[_]\n")],
 "als_yty_inplace": [("cpu/_als.pyx","                memcpy(A, &initialA[0, 0], sizeof(floating) * factors * factors)\n","                A = &initialA[0, 0]\n")],
 "als_b_shared": [("cpu/_als.pyx","        b = <floating *> malloc(sizeof(floating) * factors)\n","        b = &initialB[0]\n"),("cpu/_als.pyx","                memcpy(b, &initialB[0], sizeof(floating) * factors)\n","                memset(b, 0, sizeof(floating) * factors)\n"),("cpu/_als.pyx","            free(A)\n            free(b)","            free(A)")],
 "lmf_y_write": [("cpu/lmf.pyx","                        deriv[_] = deriv[_] - z * item_vectors[i, _]\n                for","                        deriv[_] = deriv[_] - z * item_vectors[i, _]\n                        item_vectors[i, _] -= lr * z * user_vectors[u, _]\n                for")],
},
"C11": {
 "topk_leak_err": [("_nearest_neighbours.pyx","            return ret_indices, ret_data\n\n        finally:\n            del topK","            del topK\n            return ret_indices, ret_data\n\n        except MemoryError:\n            del topK\n            raise")],
 "dealloc_gone": [("_nearest_neighbours.pyx","    def __dealloc__(self):\n        del self.neighbours","    def __dealloc__(self):\n        self.neighbours = NULL")],
 "als_err_free": [("cpu/_als.pyx","                    with gil:\n                        raise ValueError","                    free(b)\n                    with gil:\n                        raise ValueError")],
 "lmf_free_loop": [("cpu/lmf.pyx","        finally:\n            free(deriv)","        finally:\n            if n_users > 0:\n                free(deriv)")],
 "cg_free_early": [("cpu/_als.pyx","                memcpy(p, r, sizeof(floating) * N)\n","                p = r\n")],
 "lock_acquire": [("_nearest_neighbours.pyx","        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        try:\n            with self.lock:\n                with nogil:","        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        self.lock.acquire()\n        try:\n            if True:\n                with nogil:"),("_nearest_neighbours.pyx","            count = topK.results.size()","            self.lock.release()\n            count = topK.results.size()")],
 "recinit": [("_nearest_neighbours.pyx","        self.lock = threading.RLock()","        self.lock = threading.RLock()\n        self.neighbours = new SparseMatrixMultiplier[int, double](similarity.shape[1])")],
 "loss_free_cond": [("cpu/_als.pyx","        finally:\n            free(r)\n\n    loss","        finally:\n            if users:\n                free(r)\n\n    loss")],
},
"C12": {
 "bpr_rng": [("cpu/bpr.pyx","RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)","RNGVector(num_threads, len(user_items.data), rng_seeds)")],
 "lmf_n_factors": [("cpu/lmf.pyx","        deriv = <floating*> malloc(sizeof(floating) * n_factors)","        deriv = <floating*> malloc(sizeof(floating) * (n_factors - 2))")],
 "select_k": [("cpu/select.h","    for (size_t i = 0; i < results.size(); ++i) {","    for (size_t i = 0; i <= results.size(); ++i) {")],
 "knn_scorer_dim": [("_nearest_neighbours.pyx","SparseMatrixMultiplier[int, double](similarity.shape[0])","SparseMatrixMultiplier[int, double](len(similarity.indptr) - 2)")],
 "eval_cg": [("evaluation.pyx","idcg = cg_sum[min(K, likes.size()) - 1]","idcg = cg_sum[likes.size() - 1]")],
 "bpr_user_bias": [("cpu/bpr.pyx","    cdef integral factors = X.shape[1] - 1","    cdef integral factors = X.shape[1]")],
 "offset_int": [("cpu/select.h","ids[static_cast<size_t>(row) * k + i]","ids[row * k + i]")],
},
"C13": {
 "lmf_neg": [("cpu/lmf.pyx","            neg_prop=self.neg_prop,\n            num","            num")],
 "bpr_verify": [("cpu/bpr.pyx","            verify_negative_samples=self.verify_negative_samples,\n            num","            num")],
 "als_dtype": [("cpu/als.py",'            "dtype": self.dtype.name,','            "dtype": self.dtype.kind,')],
 "knn_drop_K1": [("nearest_neighbours.py",'k not in ("similarity", "scorer")}','k in ("K", "num_threads")}')],
 "knn_shape": [("nearest_neighbours.py",', shape=data["shape"]\n','\n')],
 "knn_idx_swap": [("nearest_neighbours.py",'(data["data"], data["indices"], data["indptr"])','(data["data"], data["indptr"], data["indices"])')],
 "als_load_f32": [("recommender_base.py","                elif v.shape == ():","                elif k.endswith(\"_factors\"):\n                    v = v.astype(\"float32\")\n                elif v.shape == ():")],
 "filter_zero": [("utils.py","if not isinstance(v, unsupported)}","if not isinstance(v, unsupported) and v is not False}")],
 "als_cg_name": [("cpu/als.py",'            "use_cg": self.use_cg,','            "use_cg": self.use_native,')],
 "getstate_K": [("nearest_neighbours.py",'        del state["scorer"]\n','        del state["scorer"]\n        state.pop("num_threads")\n')],
},
"C14": {
 "als_f_loss": [("als.py","        iterations,\n        calculate_training_loss,\n        num_threads,","        iterations,\n        False,\n        num_threads,")],
 "bpr_f_swap": [("bpr.py","    return implicit.cpu.bpr.BayesianPersonalizedRanking(\n        factors,\n        learning_rate,\n        regularization,","    return implicit.cpu.bpr.BayesianPersonalizedRanking(\n        factors,\n        regularization,\n        learning_rate,")],
 "bpr_f_v": [("bpr.py","        iterations=iterations,\n        verify_negative_samples=verify_negative_samples,\n        random_state=random_state,\n    )\n","        iterations=iterations,\n        random_state=random_state,\n    )\n")],
 "lmf_init_reg": [("cpu/lmf.pyx","        self.regularization = regularization\n","        self.regularization = learning_rate\n")],
 "bm25_b": [("nearest_neighbours.py","        self.B = B\n","        self.B = min(B, 1.0)\n")],
 "annoy_search": [("ann/annoy.py","        self.search_k = search_k\n","        self.search_k = search_k or -1\n")],
 "gpu_alpha": [("cpu/als.py","            alpha=self.alpha,\n","")],
 "als_seed": [("als.py","        num_threads,\n        random_state,\n    )","        num_threads,\n        random_state or None,\n    )")],
},
"C15": {
 "test_noshape": [("evaluation.pyx","(test_data, (test_users, test_items)), shape=ratings.shape, dtype=ratings.dtype","(test_data, (test_users, test_items)), dtype=ratings.dtype")],
 "train_f32": [("evaluation.pyx","        shape=ratings.shape,\n        dtype=ratings.dtype,","        shape=ratings.shape,\n        dtype=np.float32,")],
 "gt": [("evaluation.pyx","    test_index = random_index >= train_percentage","    test_index = random_index > train_percentage + 1e-9")],
 "cand": [("evaluation.pyx","    candidate_mask = counts > K + 1","    candidate_mask = counts >= K")],
 "train_users_all": [("evaluation.pyx","    train_items = np.r_[items[~full_candidate_mask], candidate_items[train_idx]]","    train_items = np.r_[candidate_items[train_idx], items[~full_candidate_mask]]")],
 "redraw": [("evaluation.pyx","    test_index = random_index >= train_percentage","    test_index = random_state.random(len(ratings.data)) >= train_percentage")],
 "setdiff": [("evaluation.pyx","np.setdiff1d(np.arange(len(candidate_users), dtype=int), test_idx)","np.setdiff1d(np.arange(1, len(candidate_users), dtype=int), test_idx)")],
 "train_only_inv": [("evaluation.pyx","        train_only_mask = ~np.isin(","        train_only_mask = np.isin(")],
},
"C16": {
 "hit_out": [("evaluation.pyx","                hit = 0\n                miss = 0\n","                hit = 0\n")],
 "likes_clear": [("evaluation.pyx","                likes.clear()\n","                if batch_idx == 0: likes.clear()\n")],
 "batch_stride": [("evaluation.pyx","        start_idx += batch_size\n","        start_idx += len(batch) + 1\n")],
 "zero_users": [("evaluation.pyx","np.ediff1d(test_user_items.indptr) > 0","np.ediff1d(test_user_items.indptr) > 1")],
 "train_ids": [("evaluation.pyx","        ids, _ = model.recommend(batch, train_user_items[batch], N=K)","        ids, _ = model.recommend(batch, train_user_items[batch], N=K, filter_already_liked_items=K < 100)")],
 "test_filter": [("evaluation.pyx","train_user_items[batch], N=K)","test_user_items[batch], N=K)")],
 "auc_name": [("evaluation.pyx","K, show_progress, num_threads)['auc']","K, show_progress, num_threads)['ndcg']")],
 "count_k": [("evaluation.pyx","        count = min(K, ids.shape[1])","        count = K")],
 "ids_row": [("evaluation.pyx","likes.find(ids[batch_idx, i])","likes.find(ids[u % len(batch), i])")],
},
"C17": {
 "nan_and": [("cpu/matrix_factorization_base.py","        is_nan |= np.any","        is_nan &= np.any")],
 "nan_all": [("cpu/matrix_factorization_base.py","        is_nan |= np.any(np.isnan(self.item_factors), axis=None)","        is_nan |= np.all(np.isnan(self.item_factors), axis=None)")],
 "err_neg": [("cpu/_als.pyx","                if not err:\n","                if err <= 0 or err == factors:\n")],
 "check_indent": [("cpu/als.py","            log.info(\"Final training loss %.4f\", loss)\n\n        self._check_fit_errors()","            log.info(\"Final training loss %.4f\", loss)\n            self._check_fit_errors()")],
 "check_show": [("cpu/bpr.pyx","        self._check_fit_errors()","        if show_progress:\n            self._check_fit_errors()")],
 "swallow": [("cpu/als.py","        self._check_fit_errors()\n\n    def recalculate_user","        try:\n            self._check_fit_errors()\n        except Exception:\n            log.exception(\"fit\")\n\n    def recalculate_user")],
 "nan_first": [("cpu/matrix_factorization_base.py","np.isnan(self.user_factors), axis=None)","np.isnan(self.user_factors[0]), axis=None)")],
 "als_nan_zero": [("cpu/als.py","        self._check_fit_errors()\n\n    def recalculate_user","        np.nan_to_num(self.item_factors, copy=False)\n        self._check_fit_errors()\n\n    def recalculate_user")],
 "solve_pre": [("cpu/_als.pyx","                err = 0\n                posv(","                err = 0\n                memcpy(&X[u, 0], b, sizeof(floating) * factors)\n                posv(")],
 "posv_retry": [("cpu/_als.pyx","                    with gil:\n                        raise ValueError","                    memset(&X[u, 0], 0, sizeof(floating) * factors)\n                    continue\n                    with gil:\n                        raise ValueError")],
},
"C18": {
 "lastfm_codes": [("datasets/lastfm.py",'(data["artist"].cat.codes.copy(), data["user"].cat.codes.copy())','(data["user"].cat.codes.copy(), data["artist"].cat.codes.copy())')],
 "reader_swap": [("datasets/lastfm.py",'np.array(f["artist"].asstr()[:]), np.array(f["user"].asstr()[:])','np.array(f["user"].asstr()[:]), np.array(f["artist"].asstr()[:])')],
 "cats": [("datasets/lastfm.py",'        user = list(data["user"].cat.categories)','        user = list(data["user"].unique())')],
 "fname": [("datasets/lastfm.py",'        _download.download_file(URL, filename)','        _download.download_file(URL, os.path.basename(filename))')],
 "exists": [("datasets/lastfm.py",'    if not os.path.isfile(filename):','    if not os.path.isdir(os.path.dirname(filename)):')],
 "indptr": [("datasets/lastfm.py",'m.get("indices"), m.get("indptr")','m.get("indptr"), m.get("indices")')],
},
"C19": {
 "lmf_mid": [("cpu/lmf.pyx","                self.item_factors[:, -1] = 1.0\n                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)","                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n                self.item_factors[:, -1] = 1.0")],
 "als_early": [("cpu/als.py",'                    progress.set_postfix({"loss": loss})','                    progress.set_postfix({"loss": loss})\n                    if prev is not None and abs(prev - loss) < 1e-7:\n                        break\n                    prev = loss'),("cpu/als.py","        loss = None\n","        loss = prev = None\n")],
 "bpr_skip": [("cpu/bpr.pyx","                if callback:\n                    callback(epoch","                if callback and total != skipped:\n                    callback(epoch")],
 "als_iter1": [("cpu/als.py","callback(iteration, time.time() - s, loss)","callback(iteration + 1, time.time() - s, loss)")],
 "knn_ignore": [("nearest_neighbours.py","        if callback:\n            raise NotImplementedError(\"callback isn't support on ItemItemRecommender.fit\")\n\n","")],
 "nms_cb": [("ann/nmslib.py","self.model.fit(Cui, show_progress, callback=callback)","self.model.fit(Cui, show_progress)")],
 "als_show": [("cpu/als.py","                if callback:\n                    callback(iter","                if callback and show_progress:\n                    callback(iter")],
 "lmf_range": [("cpu/lmf.pyx","            for epoch in range(self.iterations):","            for epoch in range(max(1, self.iterations)):")],
 "als_cb_twice": [("cpu/als.py","        if self.calculate_training_loss:\n            log.info(\"Final","        if callback and not self.calculate_training_loss:\n            callback(iteration, time.time() - s, loss)\n        if self.calculate_training_loss:\n            log.info(\"Final")],
},
"C20": {
 "yty_reg_cached": [("cpu/als.py","""            self._YtY = Y.T.dot(Y)
        return self._YtY""","""            self._YtY = Y.T.dot(Y)
            self._YtY += self.regularization * np.eye(self.factors, dtype=self.dtype)
        return self._YtY""")],
 "explain_alpha": [("cpu/als.py","            score = weighted_item.dot(factor) * confidence","            score = weighted_item.dot(factor) * confidence * self.alpha")],
 "explain_abs": [("cpu/als.py","            contribution = (score, other_itemid)","            contribution = (abs(score), other_itemid)")],
 "explain_neg": [("cpu/als.py","            if confidence < 0:\n                continue\n\n            factor","            if confidence == 0:\n                continue\n\n            factor")],
 "lin_ge": [("cpu/als.py","        A += (confidence - 1) * np.outer(factor, factor)\n","        if confidence > 1:\n            A += (confidence - 1) * np.outer(factor, factor)\n")],
 "recalc_alpha": [("cpu/als.py","        if self.alpha != 1.0:\n            item_users = self.alpha * item_users\n\n","")],
 "loss_pos": [("cpu/_als.pyx","                    total_confidence += confidence\n                    loss += confidence\n","                    total_confidence += confidence\n                    if temp < 0:\n                        loss += confidence\n")],
 "cg_py_neg": [("cpu/als.py","                if confidence < 0:\n                    confidence *= -1\n\n                Ap","                Ap")],
 "reg_factor": [("cpu/als.py","    A = YtY + regularization * np.eye(n_factors)","    A = YtY + regularization * len(Cui.indices) * np.eye(n_factors)")],
 "loss_reg_users": [("cpu/_als.pyx","    loss += regularization * (item_norm + user_norm)","    loss += regularization * item_norm + user_norm")],
 "empty_row_keep": [("cpu/_als.pyx","                if indptr[u] == indptr[u+1]:\n                    memset(x, 0, sizeof(floating) * N)\n                    continue","                if indptr[u] == indptr[u+1]:\n                    continue")],
 "cg_scal": [("cpu/_als.pyx","                    temp = rsnew / rsold\n","                    temp = rsold / rsnew\n")],
},
"C21": {
 "clear_cond": [("_nearest_neighbours.pyx","                topk.results.clear()\n","                if item_indptr[i] != item_indptr[i+1]:\n                    topk.results.clear()\n")],
 "ge": [("nearest_neighbours.h","(score > results[0].first)","(score != results[0].first)")],
 "abs": [("nearest_neighbours.h","(results.size() < K) || (score > results[0].first)","(score != 0 && results.size() < K) || (score > results[0].first)")],
 "nz": [("nearest_neighbours.h","    sums[index] += value;\n\n    if (nonzeros[index] == -1) {","    sums[index] += value;\n\n    if (nonzeros[index] == -1 && sums[index] > 0) {")],
 "sums_keep": [("nearest_neighbours.h","      sums[index] = 0;\n      nonzeros[index] = -1;","      if (sums[index] > 0) sums[index] = 0;\n      nonzeros[index] = -1;")],
 "len": [("nearest_neighbours.h","    for (int i = 0; i < length; ++i) {","    for (int i = 0; i < length && head >= 0 && sums[head] != 0; ++i) {")],
 "assign": [("nearest_neighbours.h","    sums[index] += value;","    sums[index] = std::max(sums[index], value);")],
 "own_w": [("_nearest_neighbours.pyx","                            self.neighbours.sums[i] = 0\n","                            self.neighbours.sums[index1] = 0\n")],
 "exc_scorer": [("_nearest_neighbours.pyx","                    self.neighbours.foreach(dereference(topK))\n\n            count","                    if user_indptr[0] != user_indptr[1] and remove_own_likes or K > 0:\n                        self.neighbours.foreach(dereference(topK))\n\n            count")],
},
}
for _p, _m in BLIND2.items():
    BLIND.setdefault(_p, {}).update(_m)
