ID="C03-annoy-max-norm"; PROPERTY="C03"
NEEDS="a second fit on data that gives smaller item factors than the first"
BREAKS="the norm that the approximate index scales its scores by keeps growing over fits and no longer belongs to the current factors"
EDITS=[("implicit/ann/annoy.py","            self.max_norm, extra = augment_inner_product_matrix(item_factors)\n","            max_norm, extra = augment_inner_product_matrix(item_factors)\n            self.max_norm = max(max_norm, self.max_norm or 0.0)\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares

def data(seed, scale):
    X = sp.random(40, 60, 0.2, random_state=seed, format="csr", dtype="float32")
    X.data = X.data * scale + 0.1
    return X

m = AnnoyModel(AlternatingLeastSquares(factors=8, iterations=4, random_state=1, num_threads=1), n_trees=50, search_k=100000)
for X in (data(1, 200.0), data(2, 0.01), data(1, 200.0), data(3, 5.0)):
    m.fit(X, show_progress=False)
    for u in range(5):
        ids, scores = m.recommend(u, X[u], N=5)
        exact = m.model.item_factors[ids].dot(m.model.user_factors[u])
        assert np.allclose(scores, exact, rtol=1e-3, atol=1e-4), (scores, exact)
'''
