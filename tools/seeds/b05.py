ID="C08-annoy-short"; PROPERTY="C08"
NEEDS="a filter list on an Annoy model whose items are all among the best results"
BREAKS="fewer than N results come back although enough items are left"
EDITS=[("implicit/ann/annoy.py","            count += len(filter_items)\n","            count = max(count, len(filter_items))\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(40, 200, 0.1, random_state=3, format="csr", dtype="float32")
m = AnnoyModel(AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1), n_trees=200, search_k=100000)
m.fit(X, show_progress=False)
for u in range(10):
    top, _ = m.recommend(u, X[u], N=8, filter_already_liked_items=False)
    ids, _ = m.recommend(u, X[u], N=8, filter_items=top, filter_already_liked_items=False)
    assert len(ids) == 8 and (ids >= 0).all(), ids
    sim, _ = m.similar_items(u, N=8)
    ids, _ = m.similar_items(u, N=8, filter_items=sim)
    assert len(ids) == 8 and (ids >= 0).all(), ids
'''
