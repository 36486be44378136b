ID="C05-all-recalculate"; PROPERTY="C05"
NEEDS="recommend_all with recalculate_user on interactions that differ from the training data"
BREAKS="recommend_all silently ignores recalculate_user, so the batch answer differs from recommend"
EDITS=[("implicit/cpu/matrix_factorization_base.py","            recalculate_user=recalculate_user,\n        )\n        return ids","        )\n        return ids")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
Y = X.copy()
Y.data[:] = 20 * np.random.RandomState(0).rand(len(Y.data))
a = m.recommend_all(Y, N=5, show_progress=False, recalculate_user=True)
b = m.recommend(np.arange(30), Y, N=5, recalculate_user=True)[0]
assert np.array_equal(a, b)
'''
