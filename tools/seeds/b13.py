ID="C10-loss-scratch"; PROPERTY="C10"
NEEDS="computing the ALS training loss with more than one thread"
BREAKS="threads share one scratch vector while computing the training loss"
EDITS=[("implicit/cpu/_als.pyx","""    with nogil, parallel(num_threads=num_threads):
        r = <floating *> malloc(sizeof(floating) * N)
        try:
            for u in prange(users, schedule='dynamic', chunksize=8):
                # calculates""","""    r = <floating *> malloc(sizeof(floating) * N)
    with nogil, parallel(num_threads=num_threads):
        try:
            for u in prange(users, schedule='dynamic', chunksize=8):
                # calculates"""),("implicit/cpu/_als.pyx","        finally:\n            free(r)\n\n    loss","        finally:\n            pass\n    free(r)\n\n    loss")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu._als import calculate_loss
rs = np.random.RandomState(0)
C = sp.random(20000, 300, 0.1, random_state=3, format="csr", dtype="float32")
X, Y = rs.randn(20000, 32), rs.randn(300, 32)
want = calculate_loss(C, X, Y, 0.1, num_threads=1)
for _ in range(10):
    got = calculate_loss(C, X, Y, 0.1, num_threads=8)
    assert abs(got - want) < 1e-6 * abs(want), (got, want)
'''
