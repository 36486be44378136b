ID="C02-items-sort"; PROPERTY="C02"
NEEDS="a recommend call with an items array that is not in ascending order, whose array is looked at afterwards"
BREAKS="the caller's items array is sorted in place"
EDITS=[("implicit/cpu/matrix_factorization_base.py","            items = np.array(items)\n            items.sort()","            items = np.asarray(items)\n            items.sort()")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = AlternatingLeastSquares(factors=8, iterations=3, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
items = np.array([7, 3, 20, 1])
m.recommend(0, X[0], N=3, items=items)
assert list(items) == [7, 3, 20, 1], items
'''
