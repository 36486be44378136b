ID="C15-test-shape"; PROPERTY="C15"
NEEDS="leave_k_out_split on ratings whose last items or users end up in the training part only"
BREAKS="the test matrix is smaller than the ratings"
EDITS=[("implicit/evaluation.pyx","(test_data, (test_users, test_items)), shape=ratings.shape, dtype=ratings.dtype","(test_data, (test_users, test_items)), dtype=ratings.dtype")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.evaluation import leave_k_out_split
X = sp.random(50, 400, 0.03, random_state=3, format="csr", dtype="float32")
a, b = leave_k_out_split(X, K=1, random_state=1)
assert a.shape == X.shape and b.shape == X.shape, (a.shape, b.shape)
assert abs(a + b - X).sum() == 0
'''
