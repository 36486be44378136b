ID="C07-missing-first"; PROPERTY="C07"
NEEDS="recommend on an item-item model restricted to a list of items, some of which have no score for the user"
BREAKS="items without any score come before the scored ones"
EDITS=[("implicit/nearest_neighbours.py","                ids = np.append(ids, missing)\n                scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))\n            ids","                ids = np.append(missing, ids)\n                scores = np.append(np.full(missing.size, -np.finfo(scores.dtype).max), scores)\n            ids")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.nearest_neighbours import CosineRecommender
X = sp.random(40, 60, 0.05, random_state=3, format="csr", dtype="float64")
m = CosineRecommender(K=4, num_threads=1)
m.fit(X, show_progress=False)
for u in range(40):
    ids, scores = m.recommend(u, X[u], N=60, items=np.arange(0, 60, 2), filter_already_liked_items=False)
    assert (np.diff(scores) <= 0).all(), scores
'''
