ID="C05-annoy-batch-recalc"; PROPERTY="C05"
NEEDS="a batch similar_items call with recalculate_item on an Annoy model"
BREAKS="the batch fallback does not pass recalculate_item on, so the stored factors are silently used instead"
EDITS=[("implicit/ann/annoy.py","                N=N,\n                recalculate_item=recalculate_item,\n                item_users=item_users,\n                filter_items=filter_items,\n            )","                N=N,\n                item_users=item_users,\n                filter_items=filter_items,\n            )")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AnnoyModel(AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1))
m.fit(X, show_progress=False)
other = sp.csr_matrix(np.roll(X.T.toarray(), 5, axis=1)[:3])
ids, scores = m.similar_items([0, 1, 2], N=5, recalculate_item=True, item_users=other)
for i in range(3):
    a, b = m.similar_items(i, N=5, recalculate_item=True, item_users=other[i])
    assert np.allclose(scores[i], b, atol=1e-4), (scores[i], b)
'''
