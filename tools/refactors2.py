"""Behaviour-keeping edits, second set: the Python-level models, helpers and wrappers."""
MFB = "cpu/matrix_factorization_base.py"
NN = "nearest_neighbours.py"
UT = "utils.py"
AN = "ann/annoy.py"
FA = "ann/faiss.py"
NM = "ann/nmslib.py"
ALS = "cpu/als.py"

REFACTORS = {
    # ---- matrix_factorization_base.recommend
    "mfb_check_helper": [
        (MFB, '''            if not isinstance(user_items, csr_matrix):
                raise ValueError("user_items needs to be a CSR sparse matrix")
            user_count = 1 if np.isscalar(userid) else len(userid)
            if user_items.shape[0] != user_count:
                raise ValueError("user_items must contain 1 row for every user in userids")
''', '''            _check_user_items(userid, user_items)
'''),
        (MFB, '''def _filter_items_from_sparse_matrix(''', '''def _check_user_items(userid, user_items):
    if not isinstance(user_items, csr_matrix):
        raise ValueError("user_items needs to be a CSR sparse matrix")
    expected = len(userid) if not np.isscalar(userid) else 1
    if expected != user_items.shape[0]:
        raise ValueError("user_items must contain 1 row for every user in userids")


def _filter_items_from_sparse_matrix('''),
    ],
    "mfb_scalar_flag": [
        (MFB, '''        user = self._user_factor(userid, user_items, recalculate_user)

        item_factors = self.item_factors
''', '''        single = np.isscalar(userid)
        item_factors = self.item_factors
        user = self._user_factor(userid, user_items, recalculate_user)
'''),
        (MFB, '''        if np.isscalar(userid):
            ids, scores = ids[0], scores[0]

        # if we've been given an explicit items list, remap the ids
        if items is not None:
            ids = items[ids]

        return ids, scores
''', '''        if items is not None:
            ids = items[ids]
        if single:
            return ids[0], scores[0]
        return ids, scores
'''),
    ],
    "mfb_items_helper": [
        (MFB, '''            items = np.array(items)
            items.sort()
            item_factors = item_factors[items]

            # check selected items are in the model
            if items.max() >= self.item_factors.shape[0] or items.min() < 0:
                raise IndexError("Some itemids in the items parameter in are not in the model")
''', '''            items = self._selected_items(items)
            item_factors = self.item_factors[items]
'''),
        (MFB, '''    def recommend_all(''', '''    def _selected_items(self, items):
        selected = np.sort(np.asarray(items))
        if selected.min() < 0 or selected.max() >= len(self.item_factors):
            raise IndexError("Some itemids in the items parameter in are not in the model")
        return selected

    def recommend_all('''),
    ],
    "mfb_items_any": [
        (MFB, '''            # check selected items are in the model
            if items.max() >= self.item_factors.shape[0] or items.min() < 0:
                raise IndexError("Some itemids in the items parameter in are not in the model")
''', '''            # check selected items are in the model
            if np.any(items >= self.item_factors.shape[0]) or np.any(items < 0):
                raise IndexError("Some itemids in the items parameter in are not in the model")
'''),
    ],
    "mfb_items_first": [
        (MFB, '''            items.sort()
            item_factors = item_factors[items]

            # check selected items are in the model
            if items.max() >= self.item_factors.shape[0] or items.min() < 0:
                raise IndexError("Some itemids in the items parameter in are not in the model")
''', '''            # check selected items are in the model
            total = self.item_factors.shape[0]
            if not (0 <= items.min() and items.max() < total):
                raise IndexError("Some itemids in the items parameter in are not in the model")

            items.sort()
            item_factors = item_factors[items]
'''),
    ],
    "mfb_filter_ternary": [
        (MFB, '''        filter_query_items = None
        if filter_already_liked_items:
            filter_query_items = user_items

            # if we've been given a list of explicit itemids to rank, we need to filter down
            if items is not None:
                filter_query_items = _filter_items_from_sparse_matrix(items, filter_query_items)
''', '''        liked = user_items if filter_already_liked_items else None
        if liked is not None and items is not None:
            # if we've been given a list of explicit itemids to rank, we need to filter down
            liked = _filter_items_from_sparse_matrix(items, liked)
'''),
        (MFB, '''            filter_query_items=filter_query_items,
            filter_items=filter_items,
            num_threads=self.num_threads,
        )

        if np.isscalar(userid):
            ids''', '''            filter_query_items=liked,
            filter_items=filter_items,
            num_threads=self.num_threads,
        )

        if np.isscalar(userid):
            ids'''),
    ],
    "mfb_remap_mask": [
        (MFB, '''    filter_query_items.data[items[positions] != filter_query_items.col] = 0
    filter_query_items.col = positions
    filter_query_items.eliminate_zeros()
    return filter_query_items.tocsr()''', '''    keep = items[positions] == filter_query_items.col
    filter_query_items.data[~keep] = 0
    filter_query_items.col = positions
    filter_query_items.eliminate_zeros()
    ret = filter_query_items.tocsr()
    return ret'''),
    ],
    "mfb_remap_minimum": [
        (MFB, '''    positions = np.searchsorted(items, filter_query_items.col)
    positions = np.clip(positions, 0, len(items) - 1)
''', '''    last = len(items) - 1
    positions = np.minimum(np.searchsorted(items, filter_query_items.col), last)
'''),
    ],
    "mfb_remap_coo": [
        (MFB, '''    filter_query_items.data[items[positions] != filter_query_items.col] = 0
    filter_query_items.col = positions
    filter_query_items.eliminate_zeros()
    return filter_query_items.tocsr()''', '''    selected = items[positions] == filter_query_items.col
    rows, cols = filter_query_items.row[selected], positions[selected]
    data = filter_query_items.data[selected]
    return csr_matrix((data, (rows, cols)), shape=query_items.shape)'''),
    ],
    "mfb_all_arange": [
        (MFB, '''        userids = np.arange(user_items.shape[0]) + users_items_offset
        ids, _ = self.recommend(
            userids,
            user_items,
            N=N,
            filter_already_liked_items=filter_already_liked_items,
            filter_items=filter_items,
            recalculate_user=recalculate_user,
        )
        return ids''', '''        count = user_items.shape[0]
        userids = np.arange(users_items_offset, users_items_offset + count)
        return self.recommend(
            userids,
            user_items,
            N,
            filter_already_liked_items,
            filter_items,
            recalculate_user,
        )[0]'''),
    ],
    "mfb_factor_else": [
        (MFB, '''        if recalculate_user:
            return self.recalculate_user(userid, user_items)
        return self.user_factors[userid]
''', '''        if not recalculate_user:
            return self.user_factors[userid]
        return self.recalculate_user(userid, user_items)
'''),
        (MFB, '''        if recalculate_item:
            return self.recalculate_item(itemid, item_users)
        return self.item_factors[itemid]
''', '''        return (
            self.recalculate_item(itemid, item_users)
            if recalculate_item
            else self.item_factors[itemid]
        )
'''),
    ],
    "mfb_simuser_order": [
        (MFB, '''        user_factors = self.user_factors
        norms = self.user_norms
        norm = norms[userid]

''', '''        factor, norm = self.user_factors[userid], self.user_norms[userid]
        user_factors, norms = self.user_factors, self.user_norms

'''),
        (MFB, '''        factor = self.user_factors[userid]
        ids, scores = self._get_similarity_score(
''', '''        ids, scores = self._get_similarity_score(
'''),
    ],
    "mfb_simitem_norm": [
        (MFB, '''        if recalculate_item:
            if np.isscalar(itemid):
                norm = np.linalg.norm(factor)
                norm = norm if norm != 0 else 1e-10
            else:
                norm = np.linalg.norm(factor, axis=1)
                norm[norm == 0] = 1e-10
        else:
            norm = norms[itemid]
''', '''        if not recalculate_item:
            norm = norms[itemid]
        elif np.isscalar(itemid):
            norm = np.linalg.norm(factor) or 1e-10
        else:
            norm = np.linalg.norm(factor, axis=-1)
            norm[norm == 0] = 1e-10
'''),
    ],
    "mfb_simitem_early": [
        (MFB, '''        if items is not None:
            ids = items[ids]
        return ids, scores

    similar_items.__doc__''', '''        if items is None:
            return ids, scores
        return items[ids], scores

    similar_items.__doc__'''),
    ],
    "mfb_score_div": [
        (MFB, '''        if np.isscalar(norm):
            ids, scores = ids[0], scores[0]
            scores /= norm
        else:
            scores /= norm[:, None]
        return ids, scores
''', '''        if np.isscalar(norm):
            return ids[0], scores[0] / norm
        return ids, scores / norm.reshape(-1, 1)
'''),
    ],
    "mfb_norm_helper": [
        (MFB, '''        if self._user_norms is None:
            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
            # don't divide by zero in similar_items, replace with small value
            self._user_norms[self._user_norms == 0] = 1e-10
        return self._user_norms
''', '''        if self._user_norms is None:
            self._user_norms = _safe_norms(self.user_factors)
        return self._user_norms
'''),
        (MFB, '''        if self._item_norms is None:
            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
            # don't divide by zero in similar_items, replace with small value
            self._item_norms[self._item_norms == 0] = 1e-10
        return self._item_norms
''', '''        norms = self._item_norms
        if norms is None:
            norms = self._item_norms = _safe_norms(self.item_factors)
        return norms
'''),
        (MFB, '''def _filter_items_from_sparse_matrix(''', '''def _safe_norms(factors):
    norms = np.linalg.norm(factors, axis=1)
    # don't divide by zero in similar_items, replace with small value
    norms[norms == 0] = 1e-10
    return norms


def _filter_items_from_sparse_matrix('''),
    ],
    "mfb_norm_where": [
        (MFB, '''            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
            # don't divide by zero in similar_items, replace with small value
            self._item_norms[self._item_norms == 0] = 1e-10
''', '''            norms = np.linalg.norm(self.item_factors, axis=-1)
            norms[norms == 0] = 1e-10
            self._item_norms = norms
'''),
    ],
    "mfb_nan_loop": [
        (MFB, '''        is_nan = np.any(np.isnan(self.user_factors), axis=None)
        is_nan |= np.any(np.isnan(self.item_factors), axis=None)
        if is_nan:
            raise ModelFitError("NaN encountered in factors")
''', '''        for factors in (self.user_factors, self.item_factors):
            if np.isnan(factors).any():
                raise ModelFitError("NaN encountered in factors")
'''),
    ],
    "mfb_nan_or": [
        (MFB, '''        is_nan = np.any(np.isnan(self.user_factors), axis=None)
        is_nan |= np.any(np.isnan(self.item_factors), axis=None)
        if is_nan:
            raise ModelFitError("NaN encountered in factors")
''', '''        if np.isnan(self.user_factors).any() or np.isnan(self.item_factors).any():
            raise ModelFitError("NaN encountered in factors")
'''),
    ],
    "mfb_both_given": [
        (MFB, '''            N = min(N, len(items))
            if filter_items is not None and len(filter_items):
                raise ValueError("Can't set both items and filter_items in recommend call")
''', '''            if filter_items is not None and len(filter_items) > 0:
                raise ValueError("Can't set both items and filter_items in recommend call")
            if len(items) < N:
                N = len(items)
'''),
    ],
    # ---- nearest_neighbours
    "nnb_isin": [
        (NN, '''            mask = np.in1d(ids, filter_items, invert=True)
            ids, scores = ids[mask][:N], scores[mask][:N]
''', '''            keep = ~np.isin(ids, filter_items)
            ids = ids[keep][:N]
            scores = scores[keep][:N]
'''),
    ],
    "nnb_missing_helper": [
        (NN, '''            mask = np.in1d(ids, items)
            ids, scores = ids[mask], scores[mask]

            # returned items should be equal to input selected items
            missing = items[np.in1d(items, ids, invert=True)]
            if missing.size:
                ids = np.append(ids, missing)
                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
            ids, scores = ids[:N], scores[:N]
''', '''            ids, scores = _select_items(ids, scores, items)
            ids, scores = ids[:N], scores[:N]
'''),
        (NN, '''            mask = np.in1d(ids, items)
            ids, scores = ids[mask], scores[mask]

            # returned items should be equal to input selected items
            missing = items[np.in1d(items, ids, invert=True)]
            if missing.size:
                ids = np.append(ids, missing)
                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))

        best''', '''            ids, scores = _select_items(ids, scores, items)

        best'''),
        (NN, '''class CosineRecommender(''', '''def _select_items(ids, scores, items):
    """restrict to the items in the list, with the ones that have no score at the end"""
    mask = np.in1d(ids, items)
    ids, scores = ids[mask], scores[mask]
    missing = items[np.in1d(items, ids, invert=True)]
    if missing.size:
        ids = np.append(ids, missing)
        scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
    return ids, scores


class CosineRecommender('''),
    ],
    "nnb_concat": [
        (NN, '''                ids = np.append(ids, missing)
                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
            ids, scores = ids[:N], scores[:N]
''', '''                lowest = np.full(len(missing), -np.finfo(scores.dtype).max)
                scores = np.concatenate([scores, lowest])
                ids = np.concatenate([ids, missing])
            ids, scores = ids[:N], scores[:N]
'''),
    ],
    "nnb_row": [
        (NN, '''        ids = self.similarity[itemid].indices
        scores = self.similarity[itemid].data
''', '''        row = self.similarity[itemid]
        ids, scores = row.indices, row.data
'''),
    ],
    "nnb_indptr": [
        (NN, '''        ids = self.similarity[itemid].indices
        scores = self.similarity[itemid].data
''', '''        start, end = self.similarity.indptr[itemid], self.similarity.indptr[itemid + 1]
        ids = self.similarity.indices[start:end]
        scores = self.similarity.data[start:end]
'''),
    ],
    "nnb_best_neg": [
        (NN, '''        best = np.argsort(scores)[::-1][:N]
        return ids[best], scores[best]''', '''        order = np.argsort(-scores)
        best = order[:N]
        return ids[best], scores[best]'''),
    ],
    "nnb_best_flip": [
        (NN, '''        best = np.argsort(scores)[::-1][:N]
        return ids[best], scores[best]''', '''        order = np.flip(np.argsort(scores))
        return ids[order][:N], scores[order][:N]'''),
    ],
    "nnb_count": [
        (NN, '''        count = N
        if filter_items is not None:
            count += len(filter_items)
        elif items is not None:
            items = np.array(items)
            count = self.similarity.shape[0]
            # check if items contains itemids that are not in the model(user_items)
            if items.max() >= count or items.min() < 0:
                raise IndexError("Some of selected itemids are not in the model")
''', '''        if items is not None:
            count = self.similarity.shape[0]
            items = np.array(items)
            # check if items contains itemids that are not in the model(user_items)
            if items.min() < 0 or items.max() >= count:
                raise IndexError("Some of selected itemids are not in the model")
        elif filter_items is not None:
            count = N + len(filter_items)
        else:
            count = N
'''),
    ],
    "nnb_both_first": [
        (NN, '''        if not isinstance(user_items, csr_matrix):
            raise ValueError("user_items needs to be a CSR sparse matrix")

        user_count''', '''        if filter_items is not None and items is not None:
            raise ValueError("Can't specify both filter_items and items")

        if not isinstance(user_items, csr_matrix):
            raise ValueError("user_items needs to be a CSR sparse matrix")

        user_count'''),
    ],
    "nnb_state": [
        (NN, '''        state = self.__dict__.copy()
        # scorer isn't picklable
        del state["scorer"]
        return state
''', '''        # scorer isn't picklable
        return {k: v for k, v in self.__dict__.items() if k != "scorer"}
'''),
        (NN, '''        self.__dict__.update(state)
        if self.similarity is not None:
            self.scorer = NearestNeighboursScorer(self.similarity)
        else:
            self.scorer = None
''', '''        self.__dict__.update(state)
        similarity = self.similarity
        self.scorer = None if similarity is None else NearestNeighboursScorer(similarity)
'''),
    ],
    "nnb_save": [
        (NN, '''        args = {k: v for k, v in self.__dict__.items() if k not in ("similarity", "scorer")}
        m = self.similarity
        if m is not None:
            args.update(
                {"shape": m.shape, "data": m.data, "indptr": m.indptr, "indices": m.indices}
            )
''', '''        args = dict(self.__dict__)
        args.pop("scorer")
        m = args.pop("similarity")
        if m is not None:
            args["shape"] = m.shape
            args["data"] = m.data
            args["indptr"] = m.indptr
            args["indices"] = m.indices
'''),
    ],
    "nnb_load": [
        (NN, '''            if data.get("data") is not None:
                similarity = csr_matrix(
                    (data["data"], data["indices"], data["indptr"]), shape=data["shape"]
                )
                ret.similarity = similarity
                ret.scorer = NearestNeighboursScorer(similarity)
            for k in data.files:
                if k not in ("shape", "data", "indptr", "indices"):
                    setattr(ret, k, data[k].item())
            return ret
''', '''            for k in data.files:
                if k in ("shape", "data", "indptr", "indices"):
                    continue
                setattr(ret, k, data[k].item())
            if "data" in data.files:
                values, indices, indptr = data["data"], data["indices"], data["indptr"]
                ret.similarity = csr_matrix((values, indices, indptr), shape=data["shape"])
                ret.scorer = NearestNeighboursScorer(ret.similarity)
        return ret
'''),
    ],
    "nnb_super": [
        (NN, '''        ItemItemRecommender.fit(self, normalize(counts.T).T, show_progress, callback)
''', '''        weighted = normalize(counts.T).T
        super().fit(weighted, show_progress=show_progress, callback=callback)
'''),
        (NN, '''        weighted = bm25_weight(counts.T, self.K1, self.B).T
        ItemItemRecommender.fit(self, weighted, show_progress, callback)
''', '''        item_users = counts.T
        weighted = bm25_weight(item_users, K1=self.K1, B=self.B)
        super().fit(weighted.T, show_progress, callback)
'''),
    ],
    "nnb_idf_helper": [
        (NN, '''    # calculate IDF
    N = float(X.shape[0])
    idf = log(N) - log1p(bincount(X.col))

    # apply TF-IDF adjustment
    X.data = sqrt(X.data) * idf[X.col]
    return X
''', '''    # apply TF-IDF adjustment
    X.data = _idf(X)[X.col] * sqrt(X.data)
    return X


def _idf(X):
    """inverse document frequency of each column"""
    return log(float(X.shape[0])) - log1p(bincount(X.col))
'''),
        (NN, '''    N = float(X.shape[0])
    idf = log(N) - log1p(bincount(X.col))

    # calculate length_norm''', '''    idf = _idf(X)

    # calculate length_norm'''),
    ],
    "nnb_bm25_locals": [
        (NN, '''    X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]
    return X''', '''    numerator = X.data * (K1 + 1.0)
    denominator = X.data + K1 * length_norm[X.row]
    X.data = idf[X.col] * (numerator / denominator)
    return X'''),
    ],
    "nnb_bm25_div": [
        (NN, '''    row_sums = np.ravel(X.sum(axis=1))
    average_length = row_sums.mean()
    length_norm = (1.0 - B) + B * row_sums / average_length
''', '''    row_sums = np.asarray(X.sum(axis=1)).ravel()
    average_length = row_sums.sum() / len(row_sums)
    length_norm = 1.0 - B + row_sums / average_length * B
'''),
    ],
    "nnb_normalize_np": [
        (NN, '''    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]
    return X
''', '''    squares = X.data * X.data
    lengths = np.sqrt(np.bincount(X.row, weights=squares))
    X.data = X.data / lengths[X.row]
    return X
'''),
    ],
    "nnb_fit_locals": [
        (NN, '''        self.similarity = all_pairs_knn(
            weighted,
            self.K,
            show_progress=show_progress,
            num_threads=self.num_threads,
        ).tocsr()
        self.scorer = NearestNeighboursScorer(self.similarity)
''', '''        neighbours = all_pairs_knn(
            weighted, self.K, num_threads=self.num_threads, show_progress=show_progress
        )
        similarity = neighbours.tocsr()
        self.scorer = NearestNeighboursScorer(similarity)
        self.similarity = similarity
'''),
    ],
    # ---- utils
    "ut_batch_pad": [
        (UT, '''        # pad out to N items if we're returned fewer
        missing_items = N - len(batch_ids)
        if missing_items > 0:
            batch_ids = np.append(batch_ids, np.full(missing_items, -1))
            batch_scores = np.append(
                batch_scores, np.full(missing_items, -np.finfo(np.float32).max)
            )

        output_ids[i] = batch_ids[:N]
        output_scores[i] = batch_scores[:N]
''', '''        # rows that are returned with fewer than N items keep the padding
        returned = min(N, len(batch_ids))
        output_ids[i, :returned] = batch_ids[:returned]
        output_scores[i, :returned] = batch_scores[:returned]
'''),
        (UT, '''    output_ids = np.zeros((len(ids), N), dtype=np.int32)
    output_scores = np.zeros((len(ids), N), dtype=np.float32)
''', '''    output_ids = np.full((len(ids), N), -1, dtype=np.int32)
    output_scores = np.full((len(ids), N), -np.finfo(np.float32).max, dtype=np.float32)
'''),
    ],
    "ut_batch_pad_helper": [
        (UT, '''        # pad out to N items if we're returned fewer
        missing_items = N - len(batch_ids)
        if missing_items > 0:
            batch_ids = np.append(batch_ids, np.full(missing_items, -1))
            batch_scores = np.append(
                batch_scores, np.full(missing_items, -np.finfo(np.float32).max)
            )

''', '''        batch_ids, batch_scores = _pad_results(batch_ids, batch_scores, N)
'''),
        (UT, '''def _batch_call(''', '''def _pad_results(ids, scores, N):
    """pad out to N items if we're returned fewer"""
    missing_items = N - len(ids)
    if missing_items <= 0:
        return ids, scores
    padding = np.full(missing_items, -np.finfo(np.float32).max)
    return np.append(ids, np.full(missing_items, -1)), np.append(scores, padding)


def _batch_call('''),
    ],
    "ut_batch_kwargs": [
        (UT, '''    user_items = kwargs.pop("user_items") if "user_items" in kwargs else None
    item_users = kwargs.pop("item_users") if "item_users" in kwargs else None
''', '''    user_items = kwargs.pop("user_items", None)
    item_users = kwargs.pop("item_users", None)
'''),
        (UT, '''        current_kwargs = kwargs
        if user_items is not None:
            current_kwargs = {"user_items": user_items[i], **kwargs}
        elif item_users is not None:
            current_kwargs = {"item_users": item_users[i], **kwargs}
''', '''        current_kwargs = dict(kwargs)
        if user_items is not None:
            current_kwargs["user_items"] = user_items[i]
        elif item_users is not None:
            current_kwargs["item_users"] = item_users[i]
'''),
    ],
    "ut_batch_range": [
        (UT, '''    for i, idx in enumerate(ids):
        current_kwargs = kwargs
''', '''    for i in range(len(ids)):
        idx = ids[i]
        current_kwargs = kwargs
'''),
    ],
    "ut_filter_isin": [
        (UT, '''            mask = np.in1d(ids[row], filter_items, invert=True)
            filtered_ids[row] = ids[row][mask][:N]
            filtered_scores[row] = scores[row][mask][:N]
        ids, scores = filtered_ids, filtered_scores
    return ids, scores
''', '''            mask = ~np.isin(ids[row], filter_items)
            filtered_ids[row] = ids[row, mask][:N]
            filtered_scores[row] = scores[row, mask][:N]
        return filtered_ids, filtered_scores
    return ids, scores
'''),
    ],
    "ut_filter_early": [
        (UT, '''    if np.isscalar(queryid):
        mask = np.in1d(ids, filter_items, invert=True)
        ids, scores = ids[mask][:N], scores[mask][:N]
    else:
        rows = len(queryid)
        filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
        filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
        for row in range(rows):
            mask = np.in1d(ids[row], filter_items, invert=True)
            filtered_ids[row] = ids[row][mask][:N]
            filtered_scores[row] = scores[row][mask][:N]
        ids, scores = filtered_ids, filtered_scores
    return ids, scores
''', '''    if np.isscalar(queryid):
        return _filter_row(ids, scores, filter_items, N)

    rows = len(queryid)
    filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
    filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
    for row in range(rows):
        row_ids, row_scores = _filter_row(ids[row], scores[row], filter_items, N)
        filtered_ids[row] = row_ids
        filtered_scores[row] = row_scores
    return filtered_ids, filtered_scores


def _filter_row(ids, scores, filter_items, N):
    keep = np.in1d(ids, filter_items, invert=True)
    return ids[keep][:N], scores[keep][:N]
'''),
    ],
    "ut_augment": [
        (UT, '''    extra_dimension = np.sqrt(max_norm**2 - norms**2)
    return max_norm, np.append(factors, extra_dimension.reshape(norms.shape[0], 1), axis=1)
''', '''    extra_dimension = np.sqrt(np.square(max_norm) - np.square(norms))
    return max_norm, np.hstack([factors, extra_dimension[:, None]])
'''),
    ],
    "ut_random_elif": [
        (UT, '''    if isinstance(random_state, np.random.RandomState):
        return np.random.default_rng(random_state.randint(2**31))

    # otherwise try to initialize a new one, and let it fail through
    # on the numpy side if it doesn't work
    return np.random.default_rng(random_state)
''', '''    seed = random_state
    if isinstance(random_state, np.random.RandomState):
        seed = random_state.randint(2**31)

    # let it fail through on the numpy side if it doesn't work
    return np.random.default_rng(seed)
'''),
    ],
    "ut_save_loop": [
        (UT, '''    return {k: v for k, v in args.items() if not isinstance(v, unsupported)}
''', '''    ret = {}
    for name, value in args.items():
        if isinstance(value, unsupported):
            continue
        ret[name] = value
    return ret
'''),
    ],
    "ut_nonzeros": [
        (UT, '''    for index in range(m.indptr[row], m.indptr[row + 1]):
        yield m.indices[index], m.data[index]
''', '''    start, end = m.indptr[row], m.indptr[row + 1]
    yield from zip(m.indices[start:end], m.data[start:end])
'''),
    ],
    "ut_check_csr": [
        (UT, '''    if not isinstance(user_items, scipy.sparse.csr_matrix):
        class_name''', '''    if isinstance(user_items, scipy.sparse.csr_matrix):
        return user_items
    else:
        class_name'''),
    ],
    # ---- ann
    "an_delegate_first": [
        (AN, '''        if items is not None and self.approximate_similar_items:
            raise NotImplementedError("using an items filter isn't supported with ANN lookup")

        count = N
        if filter_items is not None:
            count += len(filter_items)

        if not self.approximate_similar_items:
            return self.model.similar_items(
                itemid,
                N,
                recalculate_item=recalculate_item,
                item_users=item_users,
                filter_items=filter_items,
                items=items,
            )
''', '''        if not self.approximate_similar_items:
            return self.model.similar_items(
                itemid,
                N=N,
                recalculate_item=recalculate_item,
                item_users=item_users,
                filter_items=filter_items,
                items=items,
            )

        if items is not None:
            raise NotImplementedError("using an items filter isn't supported with ANN lookup")

        count = N + len(filter_items) if filter_items is not None else N
'''),
    ],
    "an_factor_helper": [
        (AN, '''        if hasattr(self.model, "_user_factor"):
            user = self.model._user_factor(
                userid, user_items, recalculate_user
            )  # pylint: disable=protected-access
        elif recalculate_user:
            raise NotImplementedError(f"recalculate_user isn't supported with {self.model}")
        else:
            user = self.model.user_factors[userid]
            if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
                user = user.to_numpy()
''', '''        user = self._query_factor(userid, user_items, recalculate_user)
'''),
        (AN, '''    def recommend(
''', '''    def _query_factor(self, userid, user_items, recalculate_user):
        if hasattr(self.model, "_user_factor"):
            # pylint: disable=protected-access
            return self.model._user_factor(userid, user_items, recalculate_user)
        if recalculate_user:
            raise NotImplementedError(f"recalculate_user isn't supported with {self.model}")
        user = self.model.user_factors[userid]
        if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
            user = user.to_numpy()
        return user

    def recommend(
'''),
    ],
    "an_filter_list": [
        (AN, '''        count = N
        if filter_items is not None:
            count += len(filter_items)
            filter_items = np.array(filter_items)

        if filter_already_liked_items:
            user_likes = user_items[0].indices
            filter_items = (
                np.append(filter_items, user_likes) if filter_items is not None else user_likes
            )
            count += len(user_likes)
''', '''        if filter_already_liked_items:
            user_likes = user_items[0].indices
            if filter_items is None:
                filter_items = user_likes
            else:
                filter_items = np.concatenate([np.array(filter_items), user_likes])
        count = N if filter_items is None else N + len(filter_items)
'''),
    ],
    "an_scores": [
        (AN, '''        ids, scores = np.array(ids), np.array(scores)

        if filter_items is not None:
            ids, scores = _filter_items_from_results(userid, ids, scores, filter_items, N)

        # convert the distances from euclidean to cosine distance,
        # and then rescale the cosine distance to go back to inner product
        scaling = self.max_norm * np.linalg.norm(query)
        scores = scaling * (1 - (scores**2) / 2)
        return ids, scores
''', '''        # convert the distances from euclidean to cosine distance,
        # and then rescale the cosine distance to go back to inner product
        ids, distances = np.array(ids), np.array(scores)
        cosine = 1.0 - 0.5 * distances**2
        scores = cosine * (np.linalg.norm(query) * self.max_norm)

        if filter_items is not None:
            ids, scores = _filter_items_from_results(userid, ids, scores, filter_items, N)
        return ids, scores
'''),
    ],
    "an_index_helper": [
        (AN, '''            self.similar_items_index = annoy.AnnoyIndex(item_factors.shape[1], "angular")
            for i, row in enumerate(item_factors):
                self.similar_items_index.add_item(i, row)
            self.similar_items_index.build(self.n_trees)
''', '''            self.similar_items_index = self._build_index(item_factors)
'''),
        (AN, '''            self.recommend_index = annoy.AnnoyIndex(extra.shape[1], "angular")
            for i, row in enumerate(extra):
                self.recommend_index.add_item(i, row)
            self.recommend_index.build(self.n_trees)
''', '''            self.recommend_index = self._build_index(extra)

    def _build_index(self, factors):
        index = annoy.AnnoyIndex(factors.shape[1], "angular")
        for i in range(factors.shape[0]):
            index.add_item(i, factors[i])
        index.build(self.n_trees)
        return index
'''),
    ],
    "fa_index_helper": [
        (FA, '''            # build up a inner product index here
            if self.use_gpu:
                index = faiss.GpuIndexIVFFlat(
                    self.gpu_resources, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
                )
            else:
                index = faiss.IndexIVFFlat(
                    self.quantizer, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
                )

            index.train(item_factors)
            index.add(item_factors)
            index.nprobe = self.nprobe
            self.recommend_index = index
''', '''            # build up a inner product index here
            self.recommend_index = self._inner_product_index(item_factors)
'''),
        (FA, '''            if self.use_gpu:
                index = faiss.GpuIndexIVFFlat(
                    self.gpu_resources, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
                )
            else:
                index = faiss.IndexIVFFlat(
                    self.quantizer, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
                )

            index.train(normalized)
            index.add(normalized)
            index.nprobe = self.nprobe
            self.similar_items_index = index
''', '''            self.similar_items_index = self._inner_product_index(normalized)

    def _inner_product_index(self, vectors):
        if self.use_gpu:
            index = faiss.GpuIndexIVFFlat(
                self.gpu_resources, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
            )
        else:
            index = faiss.IndexIVFFlat(
                self.quantizer, self.factors, self.nlist, faiss.METRIC_INNER_PRODUCT
            )
        index.train(vectors)
        index.add(vectors)
        index.nprobe = self.nprobe
        return index
'''),
    ],
    "fa_norms": [
        (FA, '''            norms = np.linalg.norm(item_factors, axis=1)
            norms[norms == 0] = 1e-10

            normalized = (item_factors.T / norms).T.astype("float32")
''', '''            norms = np.linalg.norm(item_factors, axis=1)
            norms = np.where(norms == 0, 1e-10, norms)

            normalized = (item_factors / norms[:, None]).astype(np.float32)
'''),
    ],
    "nm_stack": [
        (NM, '''            ids = np.stack([result[0] for result in results])
            scores = np.stack([result[1] for result in results])

        scores = 1.0 - scores
''', '''            ids = np.stack([found for found, _ in results])
            scores = np.stack([distances for _, distances in results])

        scores = 1.0 - scores
'''),
    ],
    "nm_filter_nonzero": [
        (NM, '''            nonzero_item_factors = np.delete(item_factors, ids[norms == 0], axis=0)
            ids = ids[norms != 0]

            self.similar_items_index.addDataPointBatch(nonzero_item_factors, ids=ids)
''', '''            nonzero = norms != 0
            self.similar_items_index.addDataPointBatch(item_factors[nonzero], ids=ids[nonzero])
'''),
    ],
    "nm_query_order": [
        (NM, '''        ids, scores = self.recommend_index.knnQuery(query, count)
        scaling = self.max_norm * np.linalg.norm(query)
        scores = scaling * (1.0 - (scores))
''', '''        scaling = np.linalg.norm(query) * self.max_norm
        ids, distances = self.recommend_index.knnQuery(query, k=count)
        scores = (1.0 - distances) * scaling
'''),
    ],
    # ---- als.py
    "alsp_init_helper": [
        (ALS, '''        s = time.time()
        # Initialize the variables randomly if they haven't already been set
        if self.user_factors is None:
            self.user_factors = random_state.random((users, self.factors), dtype=self.dtype) * 0.01
        if self.item_factors is None:
            self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01

        log.debug("Initialized factors in %s", time.time() - s)

        # invalidate cached norms and squared factors
        self._item_norms = self._user_norms = None
        self._YtY = None
        self._XtX = None
        loss = None
''', '''        s = time.time()
        self._initialize_factors(users, items, random_state)
        log.debug("Initialized factors in %s", time.time() - s)

        self._clear_caches()
        loss = None
'''),
        (ALS, '''                self._item_norms = self._user_norms = None
                self._YtY = self._XtX = None
                solver(''', '''                self._clear_caches()
                solver('''),
        (ALS, '''    def recalculate_user(self''', '''    def _initialize_factors(self, users, items, random_state):
        """Initialize the variables randomly if they haven't already been set"""
        if self.user_factors is None:
            self.user_factors = random_state.random((users, self.factors), dtype=self.dtype) * 0.01
        if self.item_factors is None:
            self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01

    def _clear_caches(self):
        self._user_norms = None
        self._item_norms = None
        self._XtX = None
        self._YtY = None

    def recalculate_user(self'''),
    ],
    "alsp_solve_locals": [
        (ALS, '''                solver(
                    Cui,
                    self.user_factors,
                    self.item_factors,
                    self.regularization,
                    num_threads=self.num_threads,
                )
                solver(
                    Ciu,
                    self.item_factors,
                    self.user_factors,
                    self.regularization,
                    num_threads=self.num_threads,
                )
''', '''                X, Y = self.user_factors, self.item_factors
                for matrix, left, right in ((Cui, X, Y), (Ciu, Y, X)):
                    solver(matrix, left, right, self.regularization, num_threads=self.num_threads)
'''),
    ],
    "alsp_weight_helper": [
        (ALS, '''        Cui = check_csr(user_items)
        if Cui.dtype != np.float32:
            Cui = Cui.astype(np.float32)

        # Give the positive examples more weight if asked for
        if self.alpha != 1.0:
            Cui = self.alpha * Cui
''', '''        Cui = self._weighted(check_csr(user_items).astype(np.float32, copy=False))
'''),
        (ALS, '''    def recalculate_user(self''', '''    def _weighted(self, matrix):
        """Give the positive examples more weight if asked for"""
        return matrix if self.alpha == 1.0 else self.alpha * matrix

    def recalculate_user(self'''),
        (ALS, '''        if self.alpha != 1.0:
            user_items = self.alpha * user_items

        user_factors = np''', '''        user_items = self._weighted(user_items)
        user_factors = np'''),
        (ALS, '''        if self.alpha != 1.0:
            item_users = self.alpha * item_users

        items = 1''', '''        item_users = self._weighted(item_users)
        items = 1'''),
    ],
    "alsp_partial_helper": [
        (ALS, '''        # ensure that we have enough storage for any new users
        users, factors = self.user_factors.shape
        max_userid = max(userids)
        if max_userid >= users:
            self.user_factors = np.concatenate(
                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
            )
''', '''        # ensure that we have enough storage for any new users
        self.user_factors = self._grow(self.user_factors, max(userids) + 1)
'''),
        (ALS, '''        # ensure that we have enough storage for any new items
        items, factors = self.item_factors.shape
        max_itemid = max(itemids)
        if max_itemid >= items:
            self.item_factors = np.concatenate(
                [self.item_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
            )
''', '''        # ensure that we have enough storage for any new items
        self.item_factors = self._grow(self.item_factors, max(itemids) + 1)
'''),
        (ALS, '''    def explain(self''', '''    def _grow(self, stored, rows):
        current, factors = stored.shape
        if rows <= current:
            return stored
        return np.concatenate([stored, np.zeros((rows - current, factors), dtype=self.dtype)])

    def explain(self'''),
    ],
    "alsp_partial_vstack": [
        (ALS, '''        if max_userid >= users:
            self.user_factors = np.concatenate(
                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
            )
''', '''        missing = max_userid + 1 - users
        if missing > 0:
            padding = np.zeros((missing, factors), dtype=self.dtype)
            self.user_factors = np.vstack([self.user_factors, padding])
'''),
    ],
    "alsp_partial_order": [
        (ALS, '''        # update the stored factors with the newly calculated values
        self.item_factors[itemids] = item_factors

        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        self._YtY = None
''', '''        # clear any cached properties that are invalidated by this update
        self._item_norms = self._YtY = None

        # update the stored factors with the newly calculated values
        self.item_factors[itemids] = item_factors
'''),
    ],
    "alsp_save_loop": [
        (ALS, '''        args = {
            "user_factors": self.user_factors,
            "item_factors": self.item_factors,
            "regularization": self.regularization,
            "factors": self.factors,
            "num_threads": self.num_threads,
            "iterations": self.iterations,
            "use_native": self.use_native,
            "use_cg": self.use_cg,
            "cg_steps": self.cg_steps,
            "calculate_training_loss": self.calculate_training_loss,
            "dtype": self.dtype.name,
            "random_state": self.random_state,
            "alpha": self.alpha,
        }
        np.savez(fileobj_or_path, **filter_save_args(args))
''', '''        names = (
            "user_factors",
            "item_factors",
            "regularization",
            "factors",
            "num_threads",
            "iterations",
            "use_native",
            "use_cg",
            "cg_steps",
            "calculate_training_loss",
            "random_state",
            "alpha",
        )
        args = {name: getattr(self, name) for name in names}
        args["dtype"] = self.dtype.name
        np.savez(fileobj_or_path, **filter_save_args(args))
'''),
    ],
    "alsp_gpu_helper": [
        (ALS, '''        if self.user_factors is not None:
            ret.user_factors = implicit.gpu.Matrix(self.user_factors)
        if self.item_factors is not None:
            ret.item_factors = implicit.gpu.Matrix(self.item_factors)
        return ret
''', '''        for name in ("user_factors", "item_factors"):
            factors = getattr(self, name)
            if factors is not None:
                setattr(ret, name, implicit.gpu.Matrix(factors))
        return ret
'''),
    ],
    "alsp_gram": [
        (ALS, '''            Y = self.item_factors
            self._YtY = Y.T.dot(Y)
''', '''            self._YtY = self.item_factors.T @ self.item_factors
'''),
        (ALS, '''            X = self.user_factors
            self._XtX = X.T.dot(X)
''', '''            self._XtX = np.dot(self.user_factors.T, self.user_factors)
'''),
    ],
    "alsp_linear": [
        (ALS, '''        if confidence > 0:
            b += confidence * factor
        else:
            confidence *= -1

        A += (confidence - 1) * np.outer(factor, factor)
''', '''        if confidence > 0:
            b += factor * confidence

        A += np.outer(factor, factor) * (abs(confidence) - 1)
'''),
    ],
    "alsp_cg_sign": [
        (ALS, '''            if confidence > 0:
                r += (confidence - (confidence - 1) * Y[i].dot(x)) * Y[i]
            else:
                confidence *= -1
                r += -(confidence - 1) * Y[i].dot(x) * Y[i]
''', '''            factor = Y[i]
            weight = abs(confidence) - 1
            r -= weight * factor.dot(x) * factor
            if confidence > 0:
                r += confidence * factor
'''),
    ],
    "alsp_explain_nlargest": [
        (ALS, '''            contribution = (score, other_itemid)
            if h_len < N:
                heapq.heappush(h, contribution)
                h_len += 1
            else:
                heapq.heappushpop(h, contribution)

        items = (heapq.heappop(h) for i in range(len(h)))
        top_contributions = list((i, s) for s, i in items)[::-1]
''', '''            h.append((score, other_itemid))

        top_contributions = [(i, s) for s, i in heapq.nlargest(N, h)]
'''),
        (ALS, '''        h_len = 0
''', ""),
    ],
    "alsp_explain_sorted": [
        (ALS, '''        items = (heapq.heappop(h) for i in range(len(h)))
        top_contributions = list((i, s) for s, i in items)[::-1]
''', '''        top_contributions = [(i, s) for s, i in sorted(h, reverse=True)]
'''),
    ],
    "alsp_solver": [
        (ALS, '''        if self.use_cg:
            solver = _als.least_squares_cg if self.use_native else least_squares_cg
            return functools.partial(solver, cg_steps=self.cg_steps)
        return _als.least_squares if self.use_native else least_squares
''', '''        if self.use_native:
            cg, exact = _als.least_squares_cg, _als.least_squares
        else:
            cg, exact = least_squares_cg, least_squares
        if not self.use_cg:
            return exact
        return functools.partial(cg, cg_steps=self.cg_steps)
'''),
    ],
    "alsp_recalc_squeeze": [
        (ALS, '''        return user_factors[0] if np.isscalar(userid) else user_factors
''', '''        if np.isscalar(userid):
            return user_factors[0]
        return user_factors
'''),
        (ALS, '''        users = 1 if np.isscalar(userid) else len(userid)

        if user_items.shape[0] != users:
            raise ValueError("user_items should have one row for every item in user")
''', '''        if np.isscalar(userid):
            users = 1
        else:
            users = len(userid)

        if not user_items.shape[0] == users:
            raise ValueError("user_items should have one row for every item in user")
'''),
    ],
    "alsp_callback": [
        (ALS, '''                # Backward compatibility
                if not callback:
                    callback = self.fit_callback
                if callback:
                    callback(iteration, time.time() - s, loss)
''', '''                # Backward compatibility
                on_epoch = callback or self.fit_callback
                if on_epoch:
                    elapsed = time.time() - s
                    on_epoch(iteration, elapsed, loss)
'''),
    ],
    "alsp_loop": [
        (ALS, '''            for iteration in range(self.iterations):
                s = time.time()
''', '''            iteration = -1
            while iteration + 1 < self.iterations:
                iteration += 1
                s = time.time()
'''),
    ],

    # ---- topk.pyx
    "tk_mask_rows": [("cpu/topk.pyx", """        for i, idx in enumerate(range(startidx, endidx)):
            batch_distances[i, filter_query_items[idx].indices] = neginf
""", """        for idx in range(startidx, endidx):
            liked = filter_query_items[idx].indices
            batch_distances[idx - startidx, liked] = neginf
""")],
    "tk_mask_vector": [("cpu/topk.pyx", """        for i, idx in enumerate(range(startidx, endidx)):
            batch_distances[i, filter_query_items[idx].indices] = neginf
""", """        rows, cols = filter_query_items[startidx:endidx].nonzero()
        indptr = filter_query_items.indptr
        for i in range(endidx - startidx):
            start, end = indptr[startidx + i], indptr[startidx + i + 1]
            batch_distances[i, filter_query_items.indices[start:end]] = neginf
""")],
    "tk_mask_helper": [("cpu/topk.pyx", """    neginf = -np.finfo(batch_distances.dtype).max
    if filter_query_items is not None:
        for i, idx in enumerate(range(startidx, endidx)):
            batch_distances[i, filter_query_items[idx].indices] = neginf
    if filter_items is not None:
        batch_distances[:, filter_items] = neginf
""", """    _mask(batch_distances, startidx, endidx, filter_query_items, filter_items)
"""), ("cpu/topk.pyx", """def _topk_batch(""", """def _mask(scores, start, end, filter_query_items, filter_items):
    lowest = -np.finfo(scores.dtype).max
    if filter_items is not None:
        scores[:, filter_items] = lowest
    if filter_query_items is not None:
        for i, idx in enumerate(range(start, end)):
            scores[i, filter_query_items[idx].indices] = lowest


def _topk_batch(""")],
    "tk_scores": [("cpu/topk.pyx", """    batch_distances = query[startidx: endidx].dot(items.T)
    if item_norms is not None:
        batch_distances = batch_distances / item_norms
""", """    batch_query = query[startidx: endidx]
    batch_distances = np.dot(batch_query, items.T)
    if item_norms is not None:
        batch_distances /= item_norms
""")],
    "tk_single": [("cpu/topk.pyx", """    # if we're only running one batch, don't create a threadpool
    if batches == 1:
        _topk_batch(items, query, k, 0, query_rows, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items)
        return indices, distances

    cdef int startidx""", """    filters = {"item_norms": item_norms, "filter_query_items": filter_query_items, "filter_items": filter_items}

    # if we're only running one batch, don't create a threadpool
    if batches == 1:
        _topk_batch(items, query, k, 0, query_rows, indices, distances, **filters)
        return indices, distances

    cdef int startidx"""), ("cpu/topk.pyx", """            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items)

    return""", """            _topk_batch(items, query, k, startidx, endidx, indices, distances, **filters)

    return""")],
    "tk_reshape": [("cpu/topk.pyx", """    if len(query.shape) == 1:
        query = query.reshape((1, len(query)))
""", """    if query.ndim == 1:
        query = query[None, :]
""")],
    # ---- bpr.pyx / lmf.pyx
    "bp_init_helper": [("cpu/bpr.pyx", """            self.item_factors = (rs.random((items, self.factors + 1), dtype=self.dtype) - .5)
            self.item_factors /= self.factors

            # set factors to all zeros for items without any ratings
            item_counts = np.bincount(user_items.indices, minlength=items)
            self.item_factors[item_counts == 0] = np.zeros(self.factors + 1)
""", """            item_counts = np.bincount(user_items.indices, minlength=items)
            self.item_factors = self._random_factors(rs, items, item_counts)
"""), ("cpu/bpr.pyx", """            self.user_factors = (rs.random((users, self.factors + 1), dtype=self.dtype) - .5)
            self.user_factors /= self.factors

            # set factors to all zeros for users without any ratings
            self.user_factors[user_counts == 0] = np.zeros(self.factors + 1)

            self.user_factors[:, self.factors] = 1.0
""", """            self.user_factors = self._random_factors(rs, users, user_counts)
            self.user_factors[:, self.factors] = 1.0
"""), ("cpu/bpr.pyx", """    def to_gpu(self)""", """    def _random_factors(self, rs, count, ratings):
        factors = (rs.random((count, self.factors + 1), dtype=self.dtype) - .5)
        factors /= self.factors
        # set factors to all zeros when there aren't any ratings
        factors[ratings == 0] = 0
        return factors

    def to_gpu(self)""")],
    "bp_update_locals": [("cpu/bpr.pyx", """                correct, skipped = bpr_update(rng, userids, user_items.indices, user_items.indptr,
                                              self.user_factors, self.item_factors,
                                              self.learning_rate, self.regularization, num_threads,
                                              self.verify_negative_samples)
                progress.update(1)
                total = len(user_items.data)
""", """                X, Y = self.user_factors, self.item_factors
                result = bpr_update(rng, userids, user_items.indices, user_items.indptr, X, Y,
                                    self.learning_rate, self.regularization, num_threads,
                                    self.verify_negative_samples)
                correct, skipped = result
                progress.update(1)
                total = user_items.nnz
""")],
    "bp_sgd": [("cpu/bpr.pyx", """                temp = user[j]
                user[j] += learning_rate * (z * (liked[j] - disliked[j]) - reg * user[j])
                liked[j] += learning_rate * (z * temp - reg * liked[j])
                disliked[j] += learning_rate * (-z * temp - reg * disliked[j])
""", """                temp = user[j]
                user[j] = temp + learning_rate * (z * (liked[j] - disliked[j]) - reg * temp)
                liked[j] = liked[j] + learning_rate * (z * temp - reg * liked[j])
                disliked[j] = disliked[j] - learning_rate * (z * temp + reg * disliked[j])
""")],
    "bp_sample": [("cpu/bpr.pyx", """            liked_index = rng.generate(thread_id)
            liked_id = itemids[liked_index]

            # if the user has liked the item, skip this for now
            disliked_index = rng.generate(thread_id)
            disliked_id = itemids[disliked_index]
""", """            liked_index = rng.generate(thread_id)
            disliked_index = rng.generate(thread_id)
            liked_id, disliked_id = itemids[liked_index], itemids[disliked_index]
""")],
    "bp_save": [("cpu/bpr.pyx", """        args = dict(user_factors=self.user_factors,
            item_factors=self.item_factors,
            regularization=self.regularization,
            factors=self.factors,
            learning_rate=self.learning_rate,
            verify_negative_samples=self.verify_negative_samples,
            num_threads=self.num_threads,
            iterations=self.iterations,
            dtype=self.dtype.name,
            random_state=self.random_state
        )

        np.savez(""", """        args = {"dtype": self.dtype.name}
        for name in ("user_factors", "item_factors", "regularization", "factors",
                     "learning_rate", "verify_negative_samples", "num_threads",
                     "iterations", "random_state"):
            args[name] = getattr(self, name)
        np.savez(""")],
    "bp_repeat": [("cpu/bpr.pyx", """        user_counts = np.ediff1d(user_items.indptr)
        userids = np.repeat(np.arange(users), user_counts).astype(user_items.indices.dtype)
""", """        user_counts = np.diff(user_items.indptr)
        userids = np.repeat(np.arange(users, dtype=user_items.indices.dtype), user_counts)
""")],
    "lm_helper": [("cpu/lmf.pyx", """                # user update
                lmf_update(rng, user_vec_deriv_sum,
                           self.user_factors, self.item_factors,
                           user_items.indices, user_items.indptr, user_items.data,
                           self.learning_rate, self.regularization, self.neg_prop, num_threads)
                self.user_factors[:, -2] = 1.0
                # item update
                lmf_update(rng, item_vec_deriv_sum,
                           self.item_factors, self.user_factors,
                           item_users.indices, item_users.indptr, item_users.data,
                           self.learning_rate, self.regularization, self.neg_prop, num_threads)
                self.item_factors[:, -1] = 1.0
""", """                X, Y = self.user_factors, self.item_factors
                self._update(rng, user_vec_deriv_sum, X, Y, user_items, num_threads)
                X[:, -2] = 1.0
                self._update(rng, item_vec_deriv_sum, Y, X, item_users, num_threads)
                Y[:, -1] = 1.0
"""), ("cpu/lmf.pyx", """    def save(self, fileobj_or_path):""", """    def _update(self, rng, deriv_sum, left, right, matrix, num_threads):
        lmf_update(rng, deriv_sum, left, right, matrix.indices, matrix.indptr, matrix.data,
                   self.learning_rate, self.regularization, self.neg_prop, num_threads)

    def save(self, fileobj_or_path):""")],
    "lm_kernel_start": [("cpu/lmf.pyx", """                if indptr[u] == indptr[u + 1]:
                    continue
                user_seen_item = indptr[u + 1] - indptr[u]
""", """                user_seen_item = indptr[u + 1] - indptr[u]
                if user_seen_item == 0:
                    continue
""")],
    "lm_kernel_merge": [("cpu/lmf.pyx", """                    for _ in range(n_factors):
                        exp_r += user_vectors[u, _] * item_vectors[i, _]
                    z = sigmoid(exp_r) * data[index]
                    for _ in range(n_factors):
                        deriv[_] = deriv[_] - z * item_vectors[i, _]

                # Negative""", """                    for f in range(n_factors):
                        exp_r = exp_r + item_vectors[i, f] * user_vectors[u, f]
                    z = data[index] * sigmoid(exp_r)
                    for f in range(n_factors):
                        deriv[f] -= item_vectors[i, f] * z

                # Negative""")],
    "lm_clear_loop": [("cpu/lmf.pyx", """                memset(deriv, 0, sizeof(floating) * n_factors)
""", """                for _ in range(n_factors):
                    deriv[_] = 0
""")],
    # ---- knn scorer
    "ks_scorer_sort": [("_nearest_neighbours.pyx", """            count = topK.results.size()
            indices = ret_indices = np.zeros(count, dtype=np.int32)
            data = ret_data = np.zeros(count)

            sort_heap(topK.results.begin(), topK.results.end(), topK.heap_order)
            with nogil:
                i = 0
                for result in topK.results:
                    indices[i] = result.second
                    data[i] = result.first
                    i += 1
            return ret_indices, ret_data
""", """            sort_heap(topK.results.begin(), topK.results.end(), topK.heap_order)
            count = topK.results.size()
            ret_indices = np.zeros(count, dtype=np.int32)
            ret_data = np.zeros(count)
            indices = ret_indices
            data = ret_data
            with nogil:
                for i in range(count):
                    indices[i] = topK.results[i].second
                    data[i] = topK.results[i].first
            return ret_indices, ret_data
""")],
    "ks_lock_explicit": [("_nearest_neighbours.pyx", """        cdef TopK[int, double] * topK = new TopK[int, double](K)
        try:
            with self.lock:
                with nogil:
""", """        cdef TopK[int, double] * topK
        topK = new TopK[int, double](K)
        try:
            with self.lock, nogil:
                if True:
""")],
    # ---- gpu
    "gm_user_helper": [("gpu/matrix_factorization_base.py", """        if recalculate_user:
            user_factors = self.recalculate_user(userid, user_items)
        else:
            user_factors = self.user_factors[userid]
""", """        user_factors = (
            self.recalculate_user(userid, user_items)
            if recalculate_user
            else self.user_factors[userid]
        )
""")],
    "gm_filter_helper": [("gpu/matrix_factorization_base.py", """            filter_users = implicit.gpu.IntVector(np.array(filter_users, dtype="int32"))
""", """            filter_users = _int_vector(filter_users)
"""), ("gpu/matrix_factorization_base.py", """def check_random_state(""", """def _int_vector(ids):
    return implicit.gpu.IntVector(np.array(ids, dtype="int32"))


def check_random_state(""")],
    "gm_state_loop": [("gpu/matrix_factorization_base.py", """        state["item_factors"] = self.item_factors.to_numpy() if self.item_factors else None
        state["user_factors"] = self.user_factors.to_numpy() if self.user_factors else None
        return state
""", """        for attr in ("item_factors", "user_factors"):
            factors = getattr(self, attr)
            state[attr] = factors.to_numpy() if factors else None
        return state
""")],
    "gm_random": [("gpu/matrix_factorization_base.py", """    if isinstance(random_state, np.random.RandomState):
        # we need to convert from numpy random state our internal random state
        return implicit.gpu.RandomState(random_state.randint(2**31))

    if isinstance(random_state, np.random.Generator):
        # we need to convert from numpy random state our internal random state
        return implicit.gpu.RandomState(random_state.integers(2**31))

    # otherwise try to initialize a new one, and let it fail through
    # on the numpy side if it doesn't work
    if random_state is None:
        random_state = int(time.time())
    return implicit.gpu.RandomState(random_state)""", """    # we need to convert from numpy random state our internal random state
    seed = random_state
    if isinstance(random_state, np.random.RandomState):
        seed = random_state.randint(2**31)
    elif isinstance(random_state, np.random.Generator):
        seed = random_state.integers(2**31)
    elif random_state is None:
        seed = int(time.time())
    return implicit.gpu.RandomState(seed)""")],
    "ga_caches": [("gpu/als.py", """        self._user_norms = self._user_norms_host = None
        self._XtX = None
""", """        self._XtX = self._user_norms = self._user_norms_host = None
""")],
    # ---- factories / load
    "fc_kwargs": [("als.py", """    return implicit.cpu.als.AlternatingLeastSquares(
        factors,
        regularization,
        alpha,
        dtype,
        use_native,
        use_cg,
        iterations,
        calculate_training_loss,
        num_threads,
        random_state,
    )
""", """    return implicit.cpu.als.AlternatingLeastSquares(
        factors=factors,
        regularization=regularization,
        alpha=alpha,
        dtype=dtype,
        use_native=use_native,
        use_cg=use_cg,
        iterations=iterations,
        calculate_training_loss=calculate_training_loss,
        num_threads=num_threads,
        random_state=random_state,
    )
""")],
    "fc_shared": [("als.py", """    if use_gpu:
        return implicit.gpu.als.AlternatingLeastSquares(
            factors,
            regularization,
            alpha,
            dtype=dtype,
            iterations=iterations,
            calculate_training_loss=calculate_training_loss,
            random_state=random_state,
        )
    return implicit.cpu.als.AlternatingLeastSquares(
        factors,
        regularization,
        alpha,
        dtype,
        use_native,
        use_cg,
        iterations,
        calculate_training_loss,
        num_threads,
        random_state,
    )
""", """    shared = {
        "factors": factors,
        "regularization": regularization,
        "alpha": alpha,
        "dtype": dtype,
        "iterations": iterations,
        "calculate_training_loss": calculate_training_loss,
        "random_state": random_state,
    }
    if use_gpu:
        return implicit.gpu.als.AlternatingLeastSquares(**shared)
    return implicit.cpu.als.AlternatingLeastSquares(
        use_native=use_native, use_cg=use_cg, num_threads=num_threads, **shared
    )
""")],
    "fc_dict": [("bpr.py", """    return implicit.cpu.bpr.BayesianPersonalizedRanking(
        factors,
        learning_rate,
        regularization,
        dtype=dtype,
        num_threads=num_threads,
        iterations=iterations,
        verify_negative_samples=verify_negative_samples,
        random_state=random_state,
    )
""", """    options = dict(
        dtype=dtype,
        num_threads=num_threads,
        iterations=iterations,
        verify_negative_samples=verify_negative_samples,
        random_state=random_state,
    )
    model = implicit.cpu.bpr.BayesianPersonalizedRanking(
        factors, learning_rate, regularization, **options
    )
    return model
""")],
    "rb_load": [("recommender_base.py", """        if isinstance(fileobj_or_path, str) and not fileobj_or_path.endswith(".npz"):
            fileobj_or_path = fileobj_or_path + ".npz"
        with np.load(fileobj_or_path, allow_pickle=False) as data:
            ret = cls()
            for k, v in data.items():
                if k == "dtype":
                    v = np.dtype(str(v))
                elif v.shape == ():
                    v = v.item()
                setattr(ret, k, v)
            return ret
""", """        path = fileobj_or_path
        if isinstance(path, str) and not path.endswith(".npz"):
            path = f"{path}.npz"
        ret = cls()
        with np.load(path, allow_pickle=False) as data:
            for name in data.files:
                value = data[name]
                if name == "dtype":
                    value = np.dtype(str(value))
                elif value.ndim == 0:
                    value = value.item()
                setattr(ret, name, value)
        return ret
""")],
    "rb_rank": [("recommender_base.py", """        return self.recommend(
            userid,
            user_items,
            recalculate_user=recalculate_user,
            items=selected_items,
            filter_already_liked_items=False,
        )
""", """        ids, scores = self.recommend(
            userid,
            user_items,
            filter_already_liked_items=False,
            items=selected_items,
            recalculate_user=recalculate_user,
        )
        return ids, scores
""")],
    # ---- evaluation
    "sp_random": [("evaluation.pyx", """    random_index = random_state.random(len(ratings.data))
    train_index = random_index < train_percentage
    test_index = random_index >= train_percentage
""", """    train_index = random_state.random(ratings.nnz) < train_percentage
    test_index = ~train_index
""")],
    "sp_maximum": [("evaluation.pyx", """    test.data[test.data < 0] = 0
    test.eliminate_zeros()
""", """    np.maximum(test.data, 0, out=test.data)
    test.eliminate_zeros()
""")],
    "sp_concat": [("evaluation.pyx", """    train_users = np.r_[users[~full_candidate_mask], candidate_users[train_idx]]
    train_items = np.r_[items[~full_candidate_mask], candidate_items[train_idx]]
    train_data = np.r_[data[~full_candidate_mask], candidate_data[train_idx]]
""", """    rest = ~full_candidate_mask
    train_users = np.concatenate([users[rest], candidate_users[train_idx]])
    train_items = np.concatenate([items[rest], candidate_items[train_idx]])
    train_data = np.concatenate([data[rest], candidate_data[train_idx]])
""")],
    "sp_k": [("evaluation.pyx", """    candidate_mask = counts > K + 1
""", """    candidate_mask = counts >= K + 2
""")],
    "b4_union": [("ann/annoy.py", """                np.append(filter_items, user_likes) if filter_items is not None else user_likes
""", """                np.union1d(filter_items, user_likes) if filter_items is not None else user_likes
""")],
    "b4_unique": [("nearest_neighbours.py", """            count += len(filter_items)
        elif items is not None:
""", """            count += len(np.unique(filter_items))
        elif items is not None:
""")],
    "b4_set": [("ann/annoy.py", """        count = N
        if filter_items is not None:
            count += len(filter_items)

        if not self""", """        count = N
        if filter_items is not None:
            count += len(set(filter_items))

        if not self""")],
    "b4_setdiff": [("ann/annoy.py", """                np.append(filter_items, user_likes) if filter_items is not None else user_likes
""", """                np.append(np.setdiff1d(filter_items, user_likes), user_likes) if filter_items is not None else user_likes
""")],
    "b4_total": [("evaluation.pyx", """                total += 1

        progress""", """        total += len(batch)
        progress""")],
    "b4_rows": [("evaluation.pyx", """    test_users = candidate_users[test_idx]
""", """    unique_rows, candidate_rows = np.unique(candidate_users, return_inverse=True)
    test_users = unique_rows[candidate_rows[test_idx]]
""")],
    "b4_loss": [("cpu/_als.pyx", """                        temp = -2 * confidence
                        # Pui is 0 for disliked items, so these don't have a constant term
                        loss += confidence
                    else:
                        temp = 0
                        confidence = -1 * confidence
""", """                        temp = -2 * confidence
                        total_confidence += confidence
                        loss += confidence
                    else:
                        temp = 0
                        confidence = -confidence
                        total_confidence += confidence
"""), ("cpu/_als.pyx", """                    axpy(&N, &temp, &Y[i, 0], &one, r, &one)

                    total_confidence += confidence
""", """                    axpy(&N, &temp, &Y[i, 0], &one, r, &one)
""")],
}
