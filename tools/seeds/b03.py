ID="C06-norms-order"; PROPERTY="C06"
NEEDS="similar_users with a list of users that is not in ascending order"
BREAKS="the norms of other users than the candidates are used to normalise their scores"
EDITS=[("implicit/cpu/matrix_factorization_base.py","            norms = norms[users]\n","            norms = norms[np.sort(users)]\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
m.user_factors[5] *= 7
cand = np.array([9, 5, 2, 17])
ids, scores = m.similar_users(0, N=4, users=cand)
F = m.user_factors
for i, s in zip(ids, scores):
    want = F[0].dot(F[i]) / np.linalg.norm(F[0]) / np.linalg.norm(F[i])
    assert abs(s - want) < 1e-4, (i, s, want)
'''
