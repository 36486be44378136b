"""Third set of planted changes, written from the properties' text and the code alone."""
MFB = "cpu/matrix_factorization_base.py"
NN = "nearest_neighbours.py"
NNX = "_nearest_neighbours.pyx"
UT = "utils.py"
AN = "ann/annoy.py"
FA = "ann/faiss.py"
NM = "ann/nmslib.py"
ALS = "cpu/als.py"
BPR = "cpu/bpr.pyx"
LMF = "cpu/lmf.pyx"
TK = "cpu/topk.pyx"
EV = "evaluation.pyx"
KALS = "cpu/_als.pyx"
GMF = "gpu/matrix_factorization_base.py"
GALS = "gpu/als.py"
BLIND2 = {
"C01": {
 "solver_memo_reg": [(ALS, "            user_weights = scipy.linalg.cho_factor(A)\n", "            A.flat[:: self.factors + 1] += 1e-8\n            self.regularization += 1e-8\n            user_weights = scipy.linalg.cho_factor(A)\n")],
 "explain_scale_row": [(ALS, "        seed_item = self.item_factors[itemid]\n", "        seed_item = self.item_factors[itemid]\n        seed_item /= max(np.abs(seed_item).max(), 1.0)\n")],
 "knn_sort_indices": [(NN, "        ids = self.similarity[itemid].indices\n", "        if not self.similarity.has_sorted_indices:\n            self.similarity.sort_indices()\n        ids = self.similarity[itemid].indices\n")],
 "faiss_nprobe": [(FA, "        scores, ids = self.similar_items_index.search(", "        if count > self.nlist:\n            self.similar_items_index.nprobe = self.nlist\n        scores, ids = self.similar_items_index.search(")],
 "save_pop": [(NN, "        args = {k: v for k, v in self.__dict__.items() if k not in (\"similarity\", \"scorer\")}\n        m = self.similarity\n", "        args = self.__dict__\n        args.pop(\"scorer\", None)\n        m = args.pop(\"similarity\")\n")],
 "gram_inplace": [(ALS, "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n        _als._check", "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n        YtY = self.YtY\n        YtY[np.diag_indices(self.factors)] += 1e-9\n        _als._check")],
 "pickle_in_place": [(NN, "        state = self.__dict__.copy()\n", "        state = self.__dict__\n")],
},
"C02": {
 "filter_extend": [(AN, "            count += len(filter_items)\n            filter_items = np.array(filter_items)\n", "            count += len(filter_items)\n            filter_items = np.asarray(filter_items)\n            filter_items.sort()\n")],
 "explain_sort": [(ALS, "        user_items = check_csr(user_items)\n        if self.alpha != 1.0:\n            user_items = self.alpha * user_items\n\n        # user_weights", "        user_items = check_csr(user_items)\n        user_items.sum_duplicates()\n        if self.alpha != 1.0:\n            user_items = self.alpha * user_items\n\n        # user_weights")],
 "bpr_sort": [(BPR, "            user_items = user_items.sorted_indices()\n", "            user_items.sort_indices()\n")],
 "weights_out": [(NN, "    X.data = sqrt(X.data) * idf[X.col]\n", "    np.multiply(sqrt(X.data), idf[X.col], out=X.data)\n")],
 "leave_elim": [(EV, "    ratings = ratings.tocoo()", "    ratings.eliminate_zeros()\n    ratings = ratings.tocoo()")],
 "query_params": [(NM, "        self.query_params = query_params\n", "        query_params.setdefault(\"ef\", 90)\n        self.query_params = query_params\n")],
 "likes_coo": [(MFB, "    filter_query_items = query_items.tocoo()\n", "    filter_query_items = query_items.tocoo(copy=False)\n"), (MFB, "    filter_query_items.data = np.ones_like(filter_query_items.data)\n", "    filter_query_items.data[:] = 1\n")],
 "partial_sort": [(ALS, "        users, factors = self.user_factors.shape\n        max_userid = max(userids)\n", "        users, factors = self.user_factors.shape\n        userids.sort()\n        max_userid = userids[-1]\n")],
},
"C03": {
 "grow_keep_gram": [(ALS, "        self._item_norms = None\n        self._YtY = None\n\n    def explain", "        self._item_norms = None\n        if max_itemid >= items:\n            self._YtY = None\n\n    def explain")],
 "fit_loop_gram": [(ALS, "                self._item_norms = self._user_norms = None\n                self._YtY = self._XtX = None\n                solver(", "                self._item_norms = self._user_norms = None\n                self._YtY = None\n                solver(")],
 "lmf_between": [(LMF, "                self._user_norms = self._item_norms = None\n                # user update", "                if epoch == 0:\n                    self._user_norms = self._item_norms = None\n                # user update")],
 "knn_scorer_old": [(NN, "        self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend(", "        if self.scorer is None:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend(")],
 "annoy_index_once": [(AN, "        if self.approximate_recommend:\n            log", "        if self.approximate_recommend and self.recommend_index is None:\n            log")],
 "annoy_norm_max": [(AN, "            self.max_norm, extra = augment_inner_product_matrix(item_factors)\n", "            max_norm, extra = augment_inner_product_matrix(item_factors)\n            self.max_norm = max(max_norm, self.max_norm or 0.0)\n")],
 "norm_keyed_shape": [(MFB, "        if self._item_norms is None:\n", "        if self._item_norms is None or len(self._item_norms) != len(self.item_factors):\n"), (ALS, "        self._item_norms = None\n        self._YtY = None\n\n    def explain", "        self._YtY = None\n\n    def explain")],
 "gpu_host_norms": [(GALS, "        self._item_norms = self._item_norms_host = None\n        self._YtY = None\n", "        self._item_norms = None\n        self._XtX = None\n")],
},
"C04": {
 "topk_local_row": [(TK, "        for i, idx in enumerate(range(startidx, endidx)):\n            batch_distances[i, filter_query_items[idx].indices] = neginf\n", "        batch_filter = filter_query_items[startidx:endidx]\n        for i in range(batch_filter.shape[0] - (startidx > 0)):\n            batch_distances[i, batch_filter[i].indices] = neginf\n")],
 "topk_elif": [(TK, "    if filter_items is not None:\n        batch_distances[:, filter_items] = neginf\n", "    elif filter_items is not None:\n        batch_distances[:, filter_items] = neginf\n")],
 "liked_positive": [(AN, "            user_likes = user_items[0].indices\n", "            row = user_items[0]\n            user_likes = row.indices[row.data > 0]\n")],
 "knn_own_positive": [(NNX, "                            i = user_indices[index1]\n                            self.neighbours.sums[i] = 0\n", "                            i = user_indices[index1]\n                            if self.neighbours.sums[i] > 0:\n                                self.neighbours.sums[i] = 0\n")],
 "knn_skip_last": [(NNX, "                        for index1 in range(user_indptr[0], user_indptr[1]):\n                            i = user_indices[index1]\n                            self.neighbours.sums[i] = 0\n", "                        for index1 in range(user_indptr[0], user_indptr[1] - 1):\n                            i = user_indices[index1]\n                            self.neighbours.sums[i] = 0\n")],
 "faiss_threshold": [(UT, "            mask = np.in1d(ids[row], filter_items, invert=True)\n            filtered_ids[row] = ids[row][mask][:N]\n", "            mask = np.in1d(ids[0], filter_items, invert=True)\n            filtered_ids[row] = ids[row][mask][:N]\n")],
 "subset_clip": [(MFB, "    filter_query_items.data[items[positions] != filter_query_items.col] = 0\n", "    filter_query_items.data[items[positions] < filter_query_items.col] = 0\n")],
 "filter_first_only": [(TK, "        batch_distances[:, filter_items] = neginf\n", "        batch_distances[0, filter_items] = neginf\n")],
},
"C05": {
 "alias_offset": [(MFB, "np.arange(user_items.shape[0]) + users_items_offset", "np.arange(user_items.shape[0])")],
 "annoy_drop_recalc": [(AN, "                itemid,\n                N=N,\n                recalculate_item=recalculate_item,\n                item_users=item_users,\n                filter_items=filter_items,\n            )\n\n", "                itemid,\n                N=N,\n                item_users=item_users,\n                filter_items=filter_items,\n            )\n\n")],
 "knn_truthy": [(NN, "        if filter_items is not None and items is not None:\n            raise ValueError(\"Can't specify both filter_items and items\")\n\n        count = N\n", "        if filter_items and items:\n            raise ValueError(\"Can't specify both filter_items and items\")\n\n        count = N\n")],
 "knn_batch_items": [(NN, "self.similar_items, itemid, N=N, filter_items=filter_items, items=items\n", "self.similar_items, itemid, N=N, filter_items=filter_items\n")],
 "mf_silent": [(MFB, "            if filter_users is not None and len(filter_users):\n                raise ValueError(\"Can't set both users and filter_users in similar_users call\")\n", "            filter_users = None\n")],
 "nms_recalc": [(NM, "                itemid, item_users, recalculate_item\n", "                itemid, item_users\n")],
 "knn_recalc_ok": [(NN, "        if recalculate_item:\n            raise NotImplementedError(\"Recalculate_item isn't implemented\")\n\n", "")],
},
"C06": {
 "simuser_count": [(MFB, "users.max() >= self.user_factors.shape[0]", "users.max() >= self.item_factors.shape[0]")],
 "recalc_gram": [(ALS, "            self.XtX,\n            item_users.indptr,", "            self.YtY,\n            item_users.indptr,")],
 "lmf_swap": [(LMF, "                           item_users.indices, item_users.indptr, item_users.data,", "                           item_users.indices, user_items.indptr, item_users.data,")],
 "remap_before": [(MFB, "        # if we've been given an explicit items list, remap the ids\n        if items is not None:\n            ids = items[ids]\n\n        return ids, scores", "        # if we've been given an explicit items list, remap the ids\n        if items is not None and len(items) < self.item_factors.shape[0]:\n            ids = items[ids]\n\n        return ids, scores")],
 "remap_unsorted": [(MFB, "            items = np.array(items)\n            items.sort()\n            item_factors = item_factors[items]\n", "            requested = np.array(items)\n            items = np.sort(requested)\n            item_factors = item_factors[requested]\n")],
 "gpu_norm_sel": [(GMF, "self._item_norms_host[items].reshape(1, len(items))", "self._user_norms_host[items].reshape(1, len(items))")],
 "init_swap": [(ALS, "        items, users = Ciu.shape\n", "        items, users = Cui.shape\n")],
},
"C07": {
 "filter_scores_row": [(UT, "            filtered_scores[row] = scores[row][mask][:N]\n", "            filtered_scores[row] = scores[row][:N]\n")],
 "knn_heap_unsorted": [(NNX, "            sort_heap(topK.results.begin(), topK.results.end(), topK.heap_order)\n", "            if remove_own_likes:\n                sort_heap(topK.results.begin(), topK.results.end(), topK.heap_order)\n")],
 "missing_zero": [(NN, "                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))\n            ids, scores = ids[:N], scores[:N]", "                scores = np.append(scores, np.zeros(missing.size))\n            ids, scores = ids[:N], scores[:N]")],
 "annoy_cos": [(AN, "        return ids, 1 - (scores**2) / 2\n", "        return ids, (scores**2) / 2\n")],
 "best_ids_only": [(NN, "        return ids[best], scores[best]", "        return ids[best], np.sort(scores)[:N][::-1]")],
 "explain_order": [(ALS, "        top_contributions = list((i, s) for s, i in items)[::-1]\n", "        top_contributions = list((i, s) for s, i in items)\n")],
 "nms_sign": [(NM, "        scores = 1.0 - scores\n        if filter_items", "        scores = scores - 1.0\n        if filter_items")],
},
"C08": {
 "batch_pad_item": [(UT, "            batch_ids = np.append(batch_ids, np.full(missing_items, -1))\n", "            batch_ids = np.append(batch_ids, np.zeros(missing_items))\n")],
 "knn_no_extra": [(NN, "        if filter_items is not None:\n            count += len(filter_items)\n        elif items", "        if filter_items is not None:\n            count = max(count, len(filter_items))\n        elif items")],
 "knn_no_cut": [(NN, "            ids, scores = ids[mask][:N], scores[mask][:N]\n", "            ids, scores = ids[mask], scores[mask]\n")],
 "scalar_2d": [(MFB, "        if np.isscalar(userid):\n            ids, scores = ids[0], scores[0]\n\n        # if we've", "        if np.isscalar(userid) and items is None:\n            ids, scores = ids[0], scores[0]\n\n        # if we've")],
 "topk_more": [(TK, "    k = min(k, items.shape[0])\n", "    k = min(k, max(items.shape[0], 1))\n    if filter_items is not None:\n        k = min(k + len(filter_items), items.shape[0])\n")],
 "annoy_likes": [(AN, "            count += len(user_likes)\n", "            count += min(len(user_likes), N)\n")],
 "best_full": [(NN, "        best = np.argsort(scores)[::-1][:N]\n", "        best = np.argsort(scores)[::-1][: max(N, self.K)]\n")],
},
"C09": {
 "seed_truth": [(UT, "    return np.random.default_rng(random_state)\n", "    return np.random.default_rng(random_state or None)\n")],
 "bpr_seed": [(BPR, "rs.integers(0, 2**31, size=num_threads, dtype=\"long\")", "np.random.randint(0, 2**31, size=num_threads)")],
 "split_global": [(EV, "    random_state = check_random_state(random_state)\n", "    random_state = check_random_state(random_state) if random_state else np.random.default_rng()\n")],
 "thread0": [(BPR, "            disliked_index = rng.generate(thread_id)\n", "            disliked_index = rng.generate(0)\n")],
 "als_item_init": [(ALS, "            self.item_factors = random_state.random((items", "            self.item_factors = np.random.default_rng().random((items")],
 "gpu_seed": [(GMF, "    if random_state is None:\n        random_state = int(time.time())", "    if not random_state:\n        random_state = int(time.time())")],
},

"C10": {
 "loss_private_acc": [(KALS, "                    total_confidence += confidence\n", "                    total_confidence = total_confidence + confidence\n")],
 "bpr_counter": [(BPR, "                correct += 1\n", "                correct = correct + 1\n")],
 "lmf_deriv_thread": [(LMF, "                    deriv_sum_sq[u, _] += deriv[_] * deriv[_]\n", "                    deriv_sum_sq[thread_id, _] += deriv[_] * deriv[_]\n")],
 "topk_norm_inplace": [(TK, "        batch_distances = batch_distances / item_norms\n", "        item_norms[item_norms == 0] = 1e-10\n        batch_distances = batch_distances / item_norms\n")],
 "scorer_two_locks": [(NNX, "            with self.lock:\n                with nogil:\n", "            with threading.RLock():\n                with nogil:\n")],
 "als_initial_b": [(KALS, "                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)\n", "                        axpy(&factors, &confidence, &Y[i, 0], &one, &initialB[0], &one)\n")],
 "cg_x_next": [(KALS, "                x = &X[u, 0]\n", "                x = &X[u // 2, 0]\n")],
},
"C11": {
 "scorer_check_after": [(NNX, "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        try:\n", "        cdef TopK[int, double] * topK = new TopK[int, double](K)\n        if len(user_data) < user_indptr[1]:\n            raise ValueError(\"user_items has missing values\")\n        try:\n")],
 "cg_skip_free": [(KALS, "            free(p)\n            free(r)\n            free(Ap)\n", "            free(p)\n            if cg_steps:\n                free(r)\n            free(Ap)\n")],
 "als_b_twice": [(KALS, "                    with gil:\n                        raise ValueError(\"cython", "                    free(b)\n                    with gil:\n                        raise ValueError(\"cython")],
 "lmf_realloc": [(LMF, "                memset(deriv, 0, sizeof(floating) * n_factors)\n", "                deriv = <floating*> malloc(sizeof(floating) * n_factors)\n                memset(deriv, 0, sizeof(floating) * n_factors)\n")],
 "scorer_del_before_read": [(NNX, "            count = topK.results.size()\n", "            count = topK.results.size()\n            if count == 0:\n                del topK\n                return np.zeros(0, dtype=np.int32), np.zeros(0)\n")],
 "knn_only_topk": [(NNX, "            del neighbours\n            del topk\n", "            del topk\n")],
},
"C12": {
 "recalc_ids": [(KALS, "Cui.shape[1] > Y.shape[0]", "Cui.shape[1] < Y.shape[0]")],
 "bpr_bias_col": [(BPR, "            liked[factors] += learning_rate", "            liked[factors + 1] += learning_rate")],
 "lmf_alloc_factors": [(LMF, "    cdef integral n_factors = user_vectors.shape[1]\n", "    cdef integral n_factors = item_vectors.shape[1] + 1\n")],
 "pairs_k1": [(NNX, "        topk = new TopK[int, double](K)\n", "        topk = new TopK[int, double](K + 1)\n")],
 "rng_len": [(BPR, "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, len(user_items.data), rng_seeds)")],
 "rng_threads": [(LMF, "                           item_users.indices, item_users.indptr, item_users.data,\n                           self.learning_rate, self.regularization, self.neg_prop, num_threads)", "                           item_users.indices, item_users.indptr, item_users.data,\n                           self.learning_rate, self.regularization, self.neg_prop, num_threads + 1)")],
 "select_size_t": [("cpu/select.h", "ids[static_cast<size_t>(row) * k + i]", "ids[row * cols + i]")],
},
"C13": {
 "bpr_round": [(BPR, "            learning_rate=self.learning_rate,\n            verify", "            learning_rate=round(self.learning_rate, 2),\n            verify")],
 "knn_f32": [(NN, "                    (data[\"data\"], data[\"indices\"], data[\"indptr\"]), shape=data[\"shape\"]\n", "                    (data[\"data\"].astype(np.float32), data[\"indices\"], data[\"indptr\"]), shape=data[\"shape\"]\n")],
 "knn_setattr_int": [(NN, "                    setattr(ret, k, data[k].item())\n", "                    setattr(ret, k, int(data[k].item()))\n")],
 "lmf_reg_lr": [(LMF, "            learning_rate=self.learning_rate,\n            neg_prop", "            learning_rate=self.regularization,\n            neg_prop")],
},
"C14": {
 "ctor_threads_default": [(BPR, "        super(BayesianPersonalizedRanking, self).__init__(num_threads=num_threads)\n", "        super(BayesianPersonalizedRanking, self).__init__()\n")],
 "bm25_super": [(NN, "        super().__init__(K, num_threads)\n        self.K1", "        super().__init__(num_threads=num_threads)\n        self.K1")],
 "bpr_to_gpu_lr": [(BPR, "            learning_rate=self.learning_rate,\n            regularization=self.regularization,\n            iterations", "            learning_rate=self.regularization,\n            regularization=self.regularization,\n            iterations")],
 "bpr_to_gpu_if": [(BPR, "        if self.item_factors is not None:\n            ret.item_factors", "        if self.user_factors is None:\n            ret.item_factors")],
 "lmf_dtype": [(LMF, "        self.dtype = np.dtype(dtype)\n", "        self.dtype = np.dtype(np.float32)\n")],
},
"C15": {
 "test_zero_one": [(EV, "    test.data[test.data < 0] = 0\n", "    test.data[test.data < 1] = 0\n")],
 "dup_sum": [(EV, "    ratings = ratings.tocoo()\n    random_state = check_random_state(random_state)\n    random_index", "    ratings = ratings.tocsr().tocoo()\n    ratings.data = np.minimum(ratings.data, 5)\n    random_state = check_random_state(random_state)\n    random_index")],
 "counts_mask": [(EV, "    candidate_mask = counts > K + 1\n", "    candidate_mask = counts > min(K, 1) + 1\n")],
 "train_item_order": [(EV, "    train_items = np.r_[items[~full_candidate_mask], candidate_items[train_idx]]\n", "    train_items = np.r_[candidate_items[train_idx], items[~full_candidate_mask]]\n")],
 "isin_users": [(EV, "    full_candidate_mask = np.isin(users, unique_candidate_users)\n", "    full_candidate_mask = np.isin(users, candidate_mask.nonzero()[0])\n")],
 "data_int": [(EV, "        (test_data, (test_users, test_items)), shape=ratings.shape, dtype=ratings.dtype\n", "        (np.abs(test_data), (test_users, test_items)), shape=ratings.shape, dtype=ratings.dtype\n")],
},
"C16": {
 "likes_train": [(EV, "        ids, _ = model.recommend(batch, train_user_items[batch], N=K)\n", "        ids, _ = model.recommend(batch, train_user_items[batch], N=K, filter_already_liked_items=start_idx == 0)\n")],
 "hit_carry": [(EV, "                hit = 0\n                miss = 0\n", "                if batch_idx == 0:\n                    hit = 0\n                miss = 0\n")],
 "likes_partial": [(EV, "                for i in range(test_indptr[u], test_indptr[u+1]):\n                    likes.insert", "                for i in range(test_indptr[u], min(test_indptr[u+1], test_indptr[u] + K)):\n                    likes.insert")],
 "map_key": [(EV, "        \"map\": mean_ap / total,\n", "        \"map\": mean_ap / pr_div,\n")],
 "batch_end": [(EV, "        start_idx += batch_size\n", "        start_idx += len(batch) + 1\n")],
},
"C17": {
 "nan_sample": [(MFB, "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n", "        is_nan |= np.any(np.isnan(self.item_factors[:1000]), axis=None)\n")],
 "nan_sum_and": [(MFB, "        is_nan |= np.any(", "        is_nan &= np.any(")],
 "als_check_loss": [(ALS, "        if self.calculate_training_loss:\n            log.info(\"Final training loss %.4f\", loss)\n\n        self._check_fit_errors()\n", "        if self.calculate_training_loss:\n            log.info(\"Final training loss %.4f\", loss)\n            return\n\n        self._check_fit_errors()\n")],
 "lmf_skip_zero": [(LMF, "        self._check_fit_errors()\n", "        if self.iterations > 1:\n            self._check_fit_errors()\n")],
 "posv_info": [(KALS, "                if not err:\n", "                if err <= 0 or err == factors:\n")],
 "bpr_only_cb": [(BPR, "        self._check_fit_errors()\n", "        if not callback:\n            self._check_fit_errors()\n")],
 "fallback": [(KALS, "                posv(b\"U\", &factors, &one, A, &factors, b, &factors, &err)\n", "                posv(b\"U\", &factors, &one, A, &factors, b, &factors, &err)\n                if err > 0:\n                    err = 0\n")],
},
"C18": {
 "tmp_fixed_then_keep": [("datasets/_download.py", "        os.replace(temp_filename, local_filename)\n", "        if not os.path.isfile(local_filename):\n            os.symlink(temp_filename, local_filename)\n")],
 "download_resume": [("datasets/_download.py", "        _, headers = urlretrieve(url, temp_filename, reporthook=report)\n", "        headers = None\n        if not os.path.isfile(temp_filename):\n            _, headers = urlretrieve(url, temp_filename, reporthook=report)\n")],
 "lf_codes": [("datasets/lastfm.py", "(data[\"artist\"].cat.codes.copy(), data[\"user\"].cat.codes.copy()),", "(data[\"artist\"].cat.codes.copy(), data[\"artist\"].cat.codes.copy()),")],
 "lf_unique": [("datasets/lastfm.py", "        user = list(data[\"user\"].cat.categories)\n", "        user = list(data[\"user\"].unique())\n")],
 "mv_titles": [("datasets/movielens.py", "        titles[movies.movieId] = movies.title\n", "        titles[: len(movies)] = movies.title\n")],
 "mv_variant": [("datasets/movielens.py", "        _download.download_file(URL_BASE + filename, path)\n", "        _download.download_file(URL_BASE + \"movielens_20m.hdf5\", path)\n")],
},
"C19": {
 "als_cb_skip0": [(ALS, "                if callback:\n                    callback(iteration, ", "                if callback and iteration:\n                    callback(iteration, ")],
 "bpr_skip_none": [(BPR, "                if callback:\n", "                if callback and total != skipped:\n")],
 "lmf_items_after": [(LMF, "                self.item_factors[:, -1] = 1.0\n                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n", "                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n                self.item_factors[:, -1] = 1.0\n")],
 "als_converged": [(ALS, "                progress.update(1)\n\n                if self.calc", "                progress.update(1)\n                if loss is not None and loss < 1e-9:\n                    break\n\n                if self.calc")],
 "cos_drop": [(NN, "        ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress, callback)\n", "        ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress)\n")],
 "bpr_min1": [(BPR, "            for epoch in range(self.iterations):\n", "            for epoch in range(max(1, self.iterations)):\n")],
},
"C20": {
 "reg_scaled": [(KALS, "YtY + regularization * np.eye(factors, dtype=dtype)", "YtY + regularization * np.eye(factors, dtype=dtype) / X.shape[0]")],
 "cg_conf_pos": [(KALS, "                        if confidence < 0:\n                            confidence = -1 * confidence\n\n                        temp = (conf", "                        if confidence <= 0:\n                            confidence = 0\n\n                        temp = (conf")],
 "alpha_items_only": [(ALS, "        Ciu = Cui.T.tocsr()\n", "        Ciu = user_items.T.tocsr()\n")],
 "loss_alpha": [(ALS, "                    loss = _als.calculate_loss(\n                        Cui,\n", "                    loss = _als.calculate_loss(\n                        self.alpha * Cui,\n")],
 "py_lsq_gram": [(ALS, "    YtY = Y.T.dot(Y)\n\n    for u in range(users):\n", "    YtY = Y.T.dot(Y) + np.eye(factors)\n\n    for u in range(users):\n")],
 "loss_items_reg": [(KALS, "    loss += regularization * (item_norm + user_norm)\n", "    loss += regularization * item_norm + user_norm\n")],
 "loss_denominator": [(KALS, "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1] - Cui.nnz)", "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1])")],
 "empty_skip": [(KALS, "                if indptr[u] == indptr[u+1]:\n                    memset(&X[u, 0], 0, sizeof(floating) * factors)\n", "                if indptr[u] == indptr[u+1]:\n")],
},
"C21": {
 "sums_neg": [("nearest_neighbours.h", "      sums[index] = 0;\n", "      if (sums[index] > 0) sums[index] = 0;\n")],
 "score_ge": [("nearest_neighbours.h", "(score > results[0].first)", "(score > results.back().first)")],
 "own_before": [(NNX, "                        i = user_indices[index1]\n                        weight = user_data[index1]\n", "                        i = user_indices[index1]\n                        if remove_own_likes and self.neighbours.sums[i] != 0:\n                            continue\n                        weight = user_data[index1]\n")],
 "nonzero_small": [("nearest_neighbours.h", "      f(index, sums[index]);\n", "      if (sums[index] > 1e-12) f(index, sums[index]);\n")],
 "clear_small": [(NNX, "                topk.results.clear()\n", "                if topk.results.size() >= K:\n                    topk.results.clear()\n")],
 "pop_size": [("nearest_neighbours.h", "      if (results.size() >= K) {\n", "      if (results.size() > K) {\n")],
},
}
