ID="C01-explain-inplace"; PROPERTY="C01"
NEEDS="explain on an ALS model with float64 factors (the solver can only overwrite the row of item_factors in place when no conversion is needed)"
BREAKS="explaining a recommendation overwrites the factors of the explained item"
EDITS=[("implicit/cpu/als.py","scipy.linalg.cho_solve(user_weights, seed_item)","scipy.linalg.cho_solve(user_weights, seed_item, overwrite_b=True)")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1, dtype=np.float64)
m.fit(X, show_progress=False)
before = m.item_factors.copy()
m.explain(0, X, 7)
assert np.array_equal(before, m.item_factors)
'''
