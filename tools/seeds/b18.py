ID="C02-bm25-weights"; PROPERTY="C02"
NEEDS="bm25_weight on a COO matrix (no conversion, so the caller's own array is changed)"
BREAKS="computing BM25 weights changes the matrix it was given"
EDITS=[("implicit/nearest_neighbours.py","    X.data = X.data * (K1","    X.data *= (K1")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.nearest_neighbours import bm25_weight
X = sp.random(30, 40, 0.2, random_state=3, format="coo", dtype="float64")
before = X.data.copy()
bm25_weight(X)
assert np.array_equal(before, X.data)
'''
