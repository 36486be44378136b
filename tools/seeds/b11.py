ID="C20-negative-confidence"; PROPERTY="C20"
NEEDS="disliked items (negative confidence) with the Python least squares solver"
BREAKS="disliked items are not part of the system the Python solver solves"
EDITS=[("implicit/cpu/als.py","        A += (confidence - 1) * np.outer(factor, factor)\n    return A, b","        if confidence > 1:\n            A += (confidence - 1) * np.outer(factor, factor)\n    return A, b")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import user_factor
rs = np.random.RandomState(0)
Y = rs.randn(6, 3)
C = sp.csr_matrix(np.array([[0.5, 2.0, -0.25, 0, 0, -3.0]]))
x = user_factor(Y, Y.T.dot(Y), C, 0, 0.1, 3)
c = np.abs(C.toarray()[0])
c[c == 0] = 1
A = (Y.T * c).dot(Y) + 0.1 * np.eye(3)
p = np.where(C.toarray()[0] > 0, C.toarray()[0], 0)
assert np.allclose(x, np.linalg.solve(A, Y.T.dot(p)))
'''
