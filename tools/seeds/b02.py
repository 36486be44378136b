ID="C04-duplicate-filter"; PROPERTY="C04"
NEEDS="a filter list that names the same item twice, with an approximate index or item-item model that filters after the search"
BREAKS="items named twice in filter_items come back anyway"
EDITS=[("implicit/nearest_neighbours.py","            mask = np.in1d(ids, filter_items, invert=True)\n            ids, scores = ids[mask][:N], scores[mask][:N]","            mask = np.in1d(ids, filter_items, assume_unique=True, invert=True)\n            ids, scores = ids[mask][:N], scores[mask][:N]")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.nearest_neighbours import CosineRecommender
X = sp.random(40, 30, 0.3, random_state=3, format="csr", dtype="float64")
m = CosineRecommender(K=20, num_threads=1)
m.fit(X, show_progress=False)
for u in range(20):
    top, _ = m.recommend(u, X[u], N=6)
    for f in ([top[0], top[0]], [top[0], top[1], top[0]], list(top[:3]) * 2):
        ids, _ = m.recommend(u, X[u], N=6, filter_items=f)
        assert not np.isin(ids, f).any(), (u, f, ids)
'''
