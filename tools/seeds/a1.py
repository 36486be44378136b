ID="C04-batch-row"; PROPERTY="C04"
NEEDS="a recommend call for more than 100 users at once on a matrix factorization model, so that a second batch is scored"
BREAKS="rows of the second and later batches are filtered with the likes of the wrong users"
EDITS=[("implicit/cpu/topk.pyx","batch_distances[i, filter_query_items[idx].indices] = neginf","batch_distances[i, filter_query_items[i].indices] = neginf")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(160, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
ids, scores = m.recommend(np.arange(160), X, N=10, filter_already_liked_items=True)
for u in range(160):
    liked = set(X[u].indices)
    for i, s in zip(ids[u], scores[u]):
        assert not (i in liked and s > -1e30), (u, i, s)
'''
