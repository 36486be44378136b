ID="C21-sums-kept"; PROPERTY="C21"
NEEDS="negative weights, then another computation by the same scorer"
BREAKS="negative sums stay in the accumulator and are added to the next user's scores"
EDITS=[("implicit/nearest_neighbours.h","      sums[index] = 0;\n","      if (sums[index] > 0) sums[index] = 0;\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.nearest_neighbours import CosineRecommender
X = sp.random(40, 30, 0.3, random_state=3, format="csr", dtype="float64")
X.data -= 0.5
m = CosineRecommender(K=20, num_threads=1)
m.fit(abs(X), show_progress=False)
first = m.recommend(0, X[0], N=10, filter_already_liked_items=False)
for u in range(1, 20):
    m.recommend(u, X[u], N=10, filter_already_liked_items=False)
again = m.recommend(0, X[0], N=10, filter_already_liked_items=False)
assert np.array_equal(first[0], again[0]) and np.allclose(first[1], again[1])
'''
