"""Fourth set of planted changes, written from the properties' text and the code alone."""
MFB = "cpu/matrix_factorization_base.py"
NN = "nearest_neighbours.py"
NNX = "_nearest_neighbours.pyx"
NNH = "nearest_neighbours.h"
UT = "utils.py"
AN = "ann/annoy.py"
ALS = "cpu/als.py"
BPR = "cpu/bpr.pyx"
LMF = "cpu/lmf.pyx"
TK = "cpu/topk.pyx"
EV = "evaluation.pyx"
KALS = "cpu/_als.pyx"
SEL = "cpu/select.h"
BLIND3 = {
 "C01": {
  "sim_inplace": [(MFB, "        ids, scores = topk(\n            factors,\n            factor,\n", "        if np.isscalar(norm):\n            factor /= norm\n            norm = np.float32(1.0)\n        ids, scores = topk(\n            factors,\n            factor,\n")],
  "user_store": [(MFB, "        if recalculate_user:\n            return self.recalculate_user(userid, user_items)\n        return", "        if recalculate_user:\n            factors = self.recalculate_user(userid, user_items)\n            self.user_factors[userid] = factors\n            return factors\n        return")],
  "knn_view": [(NN, "        ids = self.similarity[itemid].indices\n        scores = self.similarity[itemid].data\n", "        start, end = self.similarity.indptr[itemid], self.similarity.indptr[itemid + 1]\n        ids = self.similarity.indices[start:end]\n        scores = self.similarity.data[start:end]\n        scores /= max(scores.max(), 1.0) if end > start else 1.0\n")],
  "threads_one": [(MFB, "        user = self._user_factor(userid, user_items, recalculate_user)\n", "        if np.isscalar(userid):\n            self.num_threads = 1\n        user = self._user_factor(userid, user_items, recalculate_user)\n")],
  "save_reset": [(LMF, "    def save(self, fileobj_or_path):\n        args = dict(\n", "    def save(self, fileobj_or_path):\n        if self.random_state is not None and not isinstance(self.random_state, int):\n            self.random_state = None\n        args = dict(\n")],
 },
 "C02": {
  "coo_share": [(MFB, "    filter_query_items.data = np.ones_like(filter_query_items.data)\n", "    filter_query_items = query_items.tocoo(copy=False)\n    filter_query_items.data[:] = 1\n")],
  "csr_dups": [(ALS, "        Cui = check_csr(user_items)\n", "        Cui = check_csr(user_items)\n        Cui.sum_duplicates()\n")],
  "norm_share": [(NN, "    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]\n", "    X.data /= sqrt(bincount(X.row, X.data**2))[X.row]\n")],
  "als_alpha": [(ALS, "        if self.alpha != 1.0:\n            item_users = self.alpha * item_users\n", "        if self.alpha != 1.0:\n            item_users.data *= self.alpha\n")],
  "test_clip": [(EV, "    random_index = random_state.random(len(ratings.data))\n", "    random_index = random_state.random(len(ratings.data))\n    np.nan_to_num(ratings.data, copy=False)\n")],
 },
 "C03": {
  "partial_wrong": [(ALS, "        self._user_norms = None\n        self._XtX = None\n", "        self._user_norms = None\n        self._YtY = None\n")],
  "als_norm_tail": [(ALS, "        # update the stored factors with the newly calculated values\n        self.user_factors[userids] = user_factors\n", "        # update the stored factors with the newly calculated values\n        self.user_factors[userids] = user_factors\n        if max_userid < users:\n            return\n")],
  "setstate": [(NN, "        if self.similarity is not None:\n            self.scorer =", "        if self.similarity is not None and self.similarity.nnz:\n            self.scorer =")],
  "knn_load": [(NN, "                ret.scorer = NearestNeighboursScorer(similarity)\n", "                ret.scorer = NearestNeighboursScorer(similarity) if similarity.nnz > 1 else None\n")],
 },
 "C04": {
  "mf_subset": [(MFB, "        if filter_already_liked_items:\n            filter_query_items = user_items\n", "        if filter_already_liked_items and not recalculate_user:\n            filter_query_items = user_items\n")],
  "topk_last": [(TK, "        for i, idx in enumerate(range(startidx, endidx)):\n", "        for i, idx in enumerate(range(startidx, min(endidx, query.shape[0] - 1) if startidx else endidx)):\n")],
  "topk_unique": [(TK, "    if filter_items is not None:\n", "    if filter_items is not None and len(filter_items) < k:\n")],
  "annoy_both": [(AN, "                np.append(filter_items, user_likes) if filter_items is not None else user_likes\n", "                np.intersect1d(filter_items, user_likes) if filter_items is not None else user_likes\n")],
  "knn_zero": [(NNX, "                            self.neighbours.sums[i] = 0\n", "                            self.neighbours.sums[i] -= user_data[index1]\n")],
  "batch_same": [(UT, '            current_kwargs = {"user_items": user_items[i], **kwargs}\n', '            current_kwargs = {"user_items": user_items[min(i, 99)], **kwargs}\n')],
 },
 "C05": {
  "sim_batch_items": [(NN, "                self.similar_items, itemid, N=N, filter_items=filter_items, items=items\n", "                self.similar_items, itemid, N=N, filter_items=filter_items\n")],
  "offset": [(MFB, "        userids = np.arange(user_items.shape[0]) + users_items_offset\n", "        userids = np.arange(user_items.shape[0])\n")],
  "amb": [(NN, "        if filter_items is not None and items is not None:\n            raise ValueError(\"Can't specify both filter_items and items\")\n\n        count = N\n", "        count = N\n")],
  "annoy_users": [(AN, "                filter_items=filter_items,\n                recalculate_user=recalculate_user,\n                items=items,\n            )\n\n        # batch", "                filter_items=filter_items,\n                recalculate_user=recalculate_user and user_items is not None,\n            )\n\n        # batch")],
  "both_len": [(MFB, "            if filter_items is not None and len(filter_items):\n                raise ValueError(\"Can't set both items and filter_items in recommend call\")", "            if filter_items is not None and len(filter_items) > len(items):\n                raise ValueError(\"Can't set both items and filter_items in recommend call\")")],
 },
 "C06": {
  "full_perm": [(MFB, "        if items is not None:\n            ids = items[ids]\n        return ids, scores\n\n    similar_items.__doc__", "        if items is not None and len(items) != self.item_factors.shape[0]:\n            ids = items[ids]\n        return ids, scores\n\n    similar_items.__doc__")],
  "norms_user": [(MFB, "        user_factors = self.user_factors\n        norms = self.user_norms\n", "        user_factors = self.user_factors\n        norms = self.user_norms if users is None else self.item_norms\n")],
  "gram": [(ALS, "            self.XtX,\n            item_users.indptr", "            self.YtY,\n            item_users.indptr")],
  "counts": [(LMF, "        item_counts = np.bincount(user_items.indices, minlength=items)\n", "        item_counts = np.bincount(user_items.indices, minlength=users)\n")],
  "sub_norm": [(MFB, "            factors = factors[items]\n            norms = norms[items]\n", "            factors = factors[items]\n            norms = norms[: len(items)]\n")],
 },
 "C07": {
  "pad_first": [(UT, "            batch_scores = np.append(\n                batch_scores, np.full(missing_items, -np.finfo(np.float32).max)\n            )\n", "            batch_scores = np.append(\n                np.full(missing_items, -np.finfo(np.float32).max), batch_scores\n            )\n")],
  "sel_sort": [(SEL, "    std::sort_heap(results.begin(), results.end(), heap_order);\n", "    if (rows == 1 || k < 64)\n      std::sort_heap(results.begin(), results.end(), heap_order);\n")],
  "argsort": [(NN, "        best = np.argsort(scores)[::-1][:N]\n", "        best = np.argsort(-np.abs(scores))[:N]\n")],
  "pos_shift": [(NNX, "                    indices[i] = result.second\n                    data[i] = result.first\n                    i += 1\n", "                    data[i] = result.first\n                    i += 1\n                    indices[count - i] = result.second\n")],
 },
 "C08": {
  "knn_count": [(NN, "            count += len(filter_items)\n        elif items is not None:\n", "            count += len(np.unique(filter_items)) // 2\n        elif items is not None:\n")],
  "annoy_sim": [(AN, "            ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, N)\n", "            ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, count)\n")],
  "nslice": [(NN, "            ids, scores = ids[:N], scores[:N]\n", "            ids, scores = ids[: max(N, len(items))], scores[: max(N, len(items))]\n")],
 },
 "C09": {
  "rs_gen": [(UT, "        return np.random.default_rng(random_state.randint(2**31))\n", "        return np.random.default_rng(np.random.randint(2**31))\n")],
  "seeds": [(BPR, "        cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype=\"long\")\n", "        cdef long[:] rng_seeds = np.random.SeedSequence().generate_state(num_threads).astype(\"long\")\n")],
  "als_second": [(ALS, "            self.item_factors = random_state.random((items", "            random_state = check_random_state(None if self.user_factors is None else self.random_state and None)\n            self.item_factors = random_state.random((items")],
  "choose": [(EV, "    arr = rng.choice(n, size=size, replace=False)\n", "    arr = np.random.permutation(n)[:size]\n")],
  "tails": [(EV, "        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()\n", "        shuffled_idx = (sorted_arr + np.random.default_rng().random(arr.shape)).argsort()\n")],
 },
 "C10": {
  "bpr_count": [(BPR, "                skipped += 1\n                continue\n", "                skipped = skipped + 1\n                continue\n")],
  "lmf_sum": [(LMF, "                    deriv_sum_sq[u, _] += deriv[_] * deriv[_]\n", "                    deriv_sum_sq[indices[indptr[u]] % n_users, _] += deriv[_] * deriv[_]\n")],
  "lock_late": [(NNX, "            with self.lock:\n                with nogil:\n", "            if remove_own_likes:\n                self.lock.acquire()\n                self.lock.release()\n            if True:\n                with nogil:\n")],
  "als_shared_b": [(KALS, "                memcpy(b, &initialB[0], sizeof(floating) * factors)\n", "                memcpy(&initialB[0], b, 0)\n                memcpy(b, &initialB[0], sizeof(floating) * factors)\n                initialB[0] = 0\n")],
 },
 "C11": {
  "cg_free": [(KALS, "            free(p)\n            free(r)\n            free(Ap)\n", "            free(p)\n            free(r)\n            if cg_steps > 0:\n                free(Ap)\n")],
  "lmf_alloc": [(LMF, "                memset(deriv, 0, sizeof(floating) * n_factors)\n", "                if user_seen_item > n_items:\n                    deriv = <floating*> malloc(sizeof(floating) * n_factors)\n                memset(deriv, 0, sizeof(floating) * n_factors)\n")],
  "knn_topk": [(NNX, "            count = topK.results.size()\n", "            count = topK.results.size()\n            if count == 0:\n                del topK\n                return np.zeros(0, dtype=np.int32), np.zeros(0)\n")],
  "loss_free": [(KALS, "                loss += dot(&N, r, &one, &X[u, 0], &one)\n                user_norm", "                loss += dot(&N, r, &one, &X[u, 0], &one)\n                if N < 1:\n                    free(r)\n                user_norm")],
 },
 "C12": {
  "loss_items": [(KALS, "    cdef integral users = X.shape[0], items = Y.shape[0], u, i, index\n    cdef int one = 1, N = X.shape[1]\n    cdef floating confidence, temp\n    cdef floating zero = 0.\n\n    cdef floating[:, :] YtY = np.dot(np.transpose(Y), Y)\n", "    cdef integral users = X.shape[0], items = Cui.shape[1] + 1, u, i, index\n    cdef int one = 1, N = X.shape[1]\n    cdef floating confidence, temp\n    cdef floating zero = 0.\n\n    cdef floating[:, :] YtY = np.dot(np.transpose(Y), Y)\n")],
  "malloc_f": [(KALS, "        b = <floating *> malloc(sizeof(floating) * factors)\n", "        b = <floating *> malloc(sizeof(float) * factors)\n")],
  "rng_len": [(LMF, "RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)", "RNGVector(num_threads, len(user_items.data), rng_seeds)")],
  "eval_width": [(EV, "        count = min(K, ids.shape[1])\n", "        count = K if ids.shape[1] else 0\n")],
  "knn_out": [(NNX, "np.zeros(<size_t> item_count * K)\n", "np.zeros(<size_t> (item_count - 1) * K)\n")],
  "lmf_shape": [(LMF, "        deriv = <floating*> malloc(sizeof(floating) * n_factors)\n", "        deriv = <floating*> malloc(sizeof(floating) * (n_factors - 2))\n")],
 },
 "C13": {
  "knn_state": [(NN, "        del state[\"scorer\"]\n        return state\n", "        del state[\"scorer\"]\n        state.pop(\"num_threads\", None)\n        return state\n"), (NN, "        self.__dict__.update(state)\n        if", "        self.num_threads = 0\n        self.__dict__.update(state)\n        if")],
  "bpr_verify": [(BPR, "            verify_negative_samples=self.verify_negative_samples,\n            num_threads", "            verify_negative_samples=True,\n            num_threads")],
  "knn_k": [(NN, 'if k not in ("similarity", "scorer")}', 'if k not in ("similarity", "scorer", "K")}')],
  "filter_zero": [(UT, "    return {k: v for k, v in args.items() if not isinstance(v, unsupported)}\n", "    return {k: v for k, v in args.items() if v is not None and not isinstance(v, unsupported + (bool,))}\n")],
 },
 "C14": {
  "lmf_nt": [(LMF, "__init__(num_threads=num_threads)\n", "__init__(num_threads=num_threads if num_threads > 1 else 0)\n")],
  "bm25": [(NN, "        super().__init__(K, num_threads)\n        self.K1 = K1\n", "        super().__init__(K)\n        self.K1 = K1\n")],
 },
 "C15": {
  "lko_rows": [(EV, "    test_users = candidate_users[test_idx]\n", "    test_users = candidate_rows[test_idx]\n")],
  "lko_shape": [(EV, "        (test_data, (test_users, test_items)), shape=ratings.shape, dtype=ratings.dtype\n", "        (test_data, (test_users, test_items)), dtype=ratings.dtype\n")],
  "lko_only": [(EV, "        candidate_mask = train_only_mask & candidate_mask\n", "        candidate_mask = train_only_mask | candidate_mask\n")],
  "lko_data": [(EV, "    train_data = np.r_[data[~full_candidate_mask], candidate_data[train_idx]]\n", "    train_data = np.r_[candidate_data[train_idx], data[~full_candidate_mask]]\n")],
  "tail_n": [(EV, "    start = end - n\n", "    start = end - min(n, 5)\n")],
 },
 "C16": {
  "auc_items": [(EV, "                num_neg_items = items - num_pos_items\n", "                num_neg_items = ids.shape[1] - num_pos_items\n")],
  "likes_once": [(EV, "                likes.clear()\n", "                if likes.size() > 1000000 or hit >= 0:\n                    pass\n")],
  "gen_train": [(EV, "    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 0]\n", "    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 1]\n")],
 },
 "C17": {
  "only_user": [(MFB, "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n", "        is_nan &= np.any(np.isnan(self.item_factors), axis=None)\n")],
  "sampled": [(MFB, "np.any(np.isnan(self.user_factors), axis=None)", "np.any(np.isnan(self.user_factors[:, 0]), axis=None)")],
  "nan_loss": [(ALS, "        self._check_fit_errors()\n\n    def recalculate_user", "        if loss is None or np.isnan(loss):\n            self._check_fit_errors()\n\n    def recalculate_user")],
  "err_pos": [(KALS, "                if not err:\n", "                if err <= 0 or factors > 512:\n")],
 },
 "C19": {
  "cb_first": [(BPR, "                if callback:\n                    callback(epoch,", "                if callback and total != skipped:\n                    callback(epoch,")],
  "als_break": [(ALS, "                if callback:\n                    callback(iteration, time.time() - s, loss)\n", "                if callback:\n                    callback(iteration, time.time() - s, loss)\n                if loss is not None and loss < 1e-6:\n                    break\n")],
  "lmf_epoch1": [(LMF, "                    callback(epoch, time.time() - s)\n", "                    callback(epoch + 1, time.time() - s)\n")],
  "knn_cb": [(NN, "        if callback:\n            raise NotImplementedError(\"callback isn't support on ItemItemRecommender.fit\")\n", "        if callback and not show_progress:\n            raise NotImplementedError(\"callback isn't support on ItemItemRecommender.fit\")\n")],
 },
 "C20": {
  "cg_zero": [(KALS, "                    if confidence > 0:\n                        temp = confidence\n", "                    if confidence > 1:\n                        temp = confidence\n")],
  "reg_float": [(KALS, "    cdef floating[:, :] initialA = YtY + regularization * np.eye(factors, dtype=dtype)\n", "    cdef floating[:, :] initialA = YtY + regularization * np.eye(factors, dtype=dtype) * (factors / 64.0)\n")],
  "loss_dis": [(KALS, "                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp + (confidence - 1)", "                        temp = 0\n\n                    temp = temp + (confidence - 1)")],
  "empty_keep": [(KALS, "                    memset(x, 0, sizeof(floating) * N)\n                    continue\n", "                    continue\n")],
 },
 "C21": {
  "ge": [(NNH, "(score > results[0].first)", "(score > results[results.size() - 1].first)")],
  "sel_lt": [(SEL, "(score > results[0].first)", "(score > results.back().first)")],
  "len_keep": [(NNH, "    length = 0;\n    head = -2;\n", "    if (length > 0)\n      length = 0;\n    if (length < 0)\n      head = -2;\n")],
  "knn_noclear": [(NNX, "                topk.results.clear()\n", "                if i % 8 == 0:\n                    topk.results.clear()\n")],
  "abs_sum": [(NNH, "      f(index, sums[index]);\n", "      if (sums[index] > 0)\n        f(index, sums[index]);\n")],
 },
}

FA="ann/faiss.py"; NM="ann/nmslib.py"
BLIND4 = {
 "C01": {
  "annoy_unbuild": [(AN, "        ids, scores = np.array(ids), np.array(scores)\n\n        if filter_items is not None:\n            ids, scores = _filter_items_from_results(userid", "        ids, scores = np.array(ids), np.array(scores)\n        self.search_k = max(self.search_k, count * self.n_trees)\n\n        if filter_items is not None:\n            ids, scores = _filter_items_from_results(userid")],
  "faiss_nprobe": [(FA, "        scores, ids = self.recommend_index.search(query, count)\n", "        self.recommend_index.nprobe = min(self.nlist, max(self.nprobe, count))\n        scores, ids = self.recommend_index.search(query, count)\n")],
  "nms_params": [(NM, "        ids, scores = self.recommend_index.knnQuery(query, count)\n", "        if count > self.query_params.get(\"ef\", 0):\n            self.query_params[\"ef\"] = count\n            self.recommend_index.setQueryTimeParams(self.query_params)\n        ids, scores = self.recommend_index.knnQuery(query, count)\n")],
  "explain_weights": [(ALS, "        seed_item = self.item_factors[itemid]\n", "        seed_item = self.item_factors[itemid]\n        seed_item *= 1.0 / max(np.linalg.norm(seed_item), 1.0)\n")],
  "yty_reg": [(ALS, "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n", "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n        self.YtY[np.diag_indices(self.factors)] += 1e-6\n")],
  "norm_fix": [(MFB, "            norm = norms[itemid]\n", "            norms[norms < 1e-6] = 1e-6\n            norm = norms[itemid]\n")],
 },
 "C02": {
  "batch_pop": [(UT, '            current_kwargs = {"user_items": user_items[i], **kwargs}\n', '            user_items.sort_indices()\n            current_kwargs = {"user_items": user_items[i], **kwargs}\n')],
  "filter_list": [(AN, "            filter_items = np.array(filter_items)\n", "            filter_items = np.asarray(filter_items)\n            filter_items.sort()\n")],
  "bpr_dups": [(BPR, "            user_items = user_items.sorted_indices()\n", "            user_items.sort_indices()\n")],
  "eval_elim": [(EV, "        test_user_items = test_user_items.tocsr()\n", "        test_user_items = test_user_items.tocsr()\n    test_user_items.eliminate_zeros()\n")],
  "knn_items": [(NN, "            items = np.array(items)\n            count = self", "            items = np.asarray(items)\n            items.sort()\n            count = self")],
  "params_def": [(NM, "            query_params = {\"ef\": 90}\n", "            query_params = {\"ef\": 90}\n        query_params.setdefault(\"ef\", 90)\n")],
  "bm25_inplace": [(NN, "    X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]\n", "    X.data *= (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]\n")],
 },
 "C03": {
  "faiss_keep": [(FA, "            index.train(item_factors)\n            index.add(item_factors)\n            index.nprobe = self.nprobe\n            self.recommend_index = index\n", "            index.train(item_factors)\n            index.add(item_factors)\n            index.nprobe = self.nprobe\n            if self.recommend_index is None or self.recommend_index.ntotal != index.ntotal:\n                self.recommend_index = index\n")],
  "nms_recommend_once": [(NM, "            self.max_norm, extra = augment_inner_product_matrix(item_factors)\n", "            max_norm, extra = augment_inner_product_matrix(item_factors)\n            if self.max_norm is None:\n                self.max_norm = max_norm\n")],
  "als_cb": [(ALS, "                self._YtY = self._XtX = None\n                solver(", "                if not callback:\n                    self._YtY = self._XtX = None\n                solver(")],
  "yty_shape": [(ALS, "        if self._YtY is None:\n            Y = self.item_factors\n", "        if self._YtY is None or self._YtY.dtype != self.item_factors.dtype:\n            Y = self.item_factors\n"), (ALS, "        self._item_norms = None\n        self._YtY = None\n\n    def explain", "        self._item_norms = None\n\n    def explain")],
 },
 "C04": {
  "nms_cut": [(NM, "            user_likes = user_items[0].indices\n", "            user_likes = user_items[0].indices[:count]\n")],
  "faiss_batch": [(FA, "        if filter_already_liked_items and not np.isscalar(userid):\n", "        if filter_already_liked_items and not np.isscalar(userid) and len(userid) > 1:\n")],
  "from_results": [(UT, "        mask = np.in1d(ids, filter_items, invert=True)\n        ids, scores = ids[mask][:N], scores[mask][:N]\n    else", "        mask = np.in1d(ids, filter_items, invert=True)\n        if mask.sum() >= N:\n            ids, scores = ids[mask], scores[mask]\n        ids, scores = ids[:N], scores[:N]\n    else")],
  "sub_zero": [(MFB, "    filter_query_items.data[items[positions] != filter_query_items.col] = 0\n", "    filter_query_items.data[items[positions] > filter_query_items.col] = 0\n")],
 },
 "C05": {
  "faiss_recalc": [(FA, "                filter_items=filter_items,\n                recalculate_user=recalculate_user,\n                items=items,\n            )\n\n        if not self.approximate_recommend", "                filter_items=filter_items,\n                items=items,\n            )\n\n        if not self.approximate_recommend")],
  "nms_sim_items": [(NM, "        if items is not None:\n            raise NotImplementedError(\"using an items filter isn't supported with ANN lookup\")\n", "")],
  "prog": [(EV, "        model, train_user_items, test_user_items, K, show_progress, num_threads)['map']", "        model, train_user_items, test_user_items, show_progress=show_progress, num_threads=num_threads)['map']")],
 },
 "C06": {
  "nms_ids": [(NM, "            ids = ids[norms != 0]\n\n            self.similar_items_index.addDataPointBatch(nonzero_item_factors, ids=ids)\n", "            self.similar_items_index.addDataPointBatch(nonzero_item_factors)\n")],
  "grow": [(ALS, "        users, factors = self.user_factors.shape\n        max_userid", "        users, factors = self.item_factors.shape\n        max_userid")],
  "sub_unsorted": [(MFB, "            items = np.array(items)\n            items.sort()\n            item_factors", "            items = np.array(items)\n            item_factors")],
  "annoy_enum": [(AN, "            for i, row in enumerate(item_factors):\n", "            for i, row in enumerate(item_factors[np.any(item_factors, axis=1)]):\n")],
  "als_recalc": [(ALS, "            user_factors,\n            self.item_factors,\n            self.regularization,\n            num_threads=self.num_threads,\n        )\n        return user_factors[0]", "            user_factors,\n            self.item_factors if len(self.item_factors) >= user_items.shape[1] else self.user_factors,\n            self.regularization,\n            num_threads=self.num_threads,\n        )\n        return user_factors[0]")],
 },
 "C07": {
  "annoy_scale": [(AN, "            ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, N)\n", "            ids, _ = _filter_items_from_results(itemid, ids, scores, filter_items, N)\n            scores = scores[: len(ids)]\n")],
  "faiss_swap": [(FA, "        scores, ids = self.recommend_index.search(query, count)\n", "        scores, ids = self.recommend_index.search(query, count)\n        order = np.argsort(ids, axis=1)\n        ids = np.take_along_axis(ids, order, axis=1)\n        scores = np.take_along_axis(scores, order, axis=1)\n")],
  "nms_stack": [(NM, "            scores = np.stack([result[1] for result in results])\n", "            scores = np.stack([np.sort(result[1])[::-1] for result in results])\n")],
  "sim_sign": [(MFB, "            scores /= norm\n        else", "            scores /= -norm\n        else")],
 },
 "C08": {
  "annoy_n": [(AN, "            query, count, include_distances=True", "            query, max(count, 10), include_distances=True")],
  "nms_likes": [(NM, "            count += len(user_likes)\n", "            count = max(count, len(user_likes))\n")],
  "faiss_like": [(FA, "            count += len(user_likes)\n", "            count += len(user_likes) - 1\n")],
  "scalar": [(NM, "        if np.isscalar(itemid):\n            ids, scores = self.similar_items_index.knnQuery(factors, count)\n", "        if len(np.shape(factors)) == 1 or len(factors) == 1:\n            ids, scores = self.similar_items_index.knnQuery(factors, count)\n")],
  "topk_k": [(TK, "    k = min(k, items.shape[0])\n", "    k = max(1, min(k, items.shape[0]))\n")],
 },
 "C09": {
  "rng_thread": [(BPR, "            disliked_index = rng.generate(thread_id)\n", "            disliked_index = rng.generate(0)\n")],
  "seed_time": [(LMF, "        cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype=\"long\")\n", "        cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype=\"long\") + <long> time.time()\n")],
  "zero_seed": [(UT, "    return np.random.default_rng(random_state)\n", "    return np.random.default_rng(random_state or None)\n")],
  "same_seed": [("cpu/bpr.pyx", "            self.rng.push_back(mt19937(rng_seeds[i]))\n", "            self.rng.push_back(mt19937(i))\n")],
 },
 "C11": {
  "err_leak": [(KALS, "        finally:\n            free(A)\n            free(b)\n", "        finally:\n            free(A)\n            if b != NULL and err == 0:\n                free(b)\n")],
 },
 "C13": {
  "als_alpha": [(ALS, '            "alpha": self.alpha,\n', '')],
  "als_dtype": [(ALS, '            "dtype": self.dtype.name,\n', '            "dtype": self.user_factors.dtype.name if self.user_factors is not None else "float32",\n')],
  "als_cg": [(ALS, '            "cg_steps": self.cg_steps,\n', '            "cg_steps": self.cg_steps if self.use_native else 3,\n')],
  "knn_shape": [(NN, ', shape=data["shape"]\n', '\n')],
  "als_seed": [(ALS, '            "random_state": self.random_state,\n            "alpha"', '            "random_state": self.random_state or None,\n            "alpha"')],
 },
 "C14": {
  "fac_lmf": [("approximate_als.py", "        nlist=nlist,\n        nprobe=nprobe,\n", "        nlist=nlist,\n        nprobe=min(nprobe, nlist // 20),\n")],
  "fac_annoy": [("approximate_als.py", "        n_trees=n_trees,\n        search_k=search_k,\n", "        n_trees=n_trees,\n")],
  "fac_als": [("als.py", "        calculate_training_loss,\n        num_threads,\n        random_state,\n    )", "        num_threads,\n        calculate_training_loss,\n        random_state,\n    )")],
  "als_native": [(ALS, "        self.use_native = use_native\n", "        self.use_native = use_native or num_threads != 1\n")],
  "nms_params": [(NM, "        self.query_params = query_params\n", "        self.query_params = index_params and query_params\n")],
 },
 "C16": {
  "auc_nokey": [(EV, "K, show_progress, num_threads)['auc']", "K, show_progress, num_threads)['ndcg']")],
  "test_rec": [(EV, "        ids, _ = model.recommend(batch, train_user_items[batch], N=K)\n", "        ids, _ = model.recommend(batch, train_user_items[start_idx: start_idx + len(batch)], N=K)\n")],
 },
 "C19": {
  "ann_cb": [(FA, "        self.model.fit(Cui, show_progress, callback=callback)\n", "        self.model.fit(Cui, show_progress)\n")],
  "als_iter": [(ALS, "            for iteration in range(self.iterations):\n", "            for iteration in range(max(1, self.iterations)):\n")],
  "cb_before": [(LMF, "                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n", "                progress.update(1)\n"), (LMF, "                self.user_factors[:, -2] = 1.0\n                # item update\n", "                self.user_factors[:, -2] = 1.0\n                if callback:\n                    callback(epoch, time.time() - s)\n                # item update\n")],
 },
 "C20": {
  "alpha_expl": [(ALS, "        if self.alpha != 1.0:\n            user_items = self.alpha * user_items\n\n        # user_weights", "        if self.alpha > 1.0:\n            user_items = self.alpha * user_items\n\n        # user_weights")],
  "fit_alpha": [(ALS, "        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n", "        if self.alpha != 1.0:\n            Cui = Cui.copy()\n            Cui.data[Cui.data > 0] *= self.alpha\n")],
  "py_reg": [(ALS, "    A = YtY + regularization * np.eye(n_factors)\n", "    A = YtY + regularization * len(Cui[u].indices) * np.eye(n_factors)\n")],
  "cg_break": [(KALS, "                    rsold = rsnew\n        finally", "                    rsold = rsold\n        finally")],
  "loss_den": [(KALS, "Cui.shape[0] * Cui.shape[1] - Cui.nnz)", "Cui.shape[0] * Cui.shape[1])")],
 },
}

for _k, _v in BLIND4.items():
    for _n, _e in _v.items():
        BLIND3.setdefault(_k, {})["z_" + _n] = _e
