ID="C03-partial-norms"; PROPERTY="C03"
NEEDS="similar_users before and after partial_fit_users on an ALS model (the norms are cached by the first query)"
BREAKS="cached user norms still belong to the old factors after partial_fit_users"
EDITS=[("implicit/cpu/als.py","        self._user_norms = None","        self._user_norms = self._user_norms if len(userids) else None")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
m.similar_users(0)
m.partial_fit_users([0, 1], sp.csr_matrix(10 * np.ones((2, 40), dtype="float32")))
n = np.linalg.norm(m.user_factors, axis=1)
assert np.allclose(m.user_norms, np.where(n == 0, 1e-10, n))
'''
