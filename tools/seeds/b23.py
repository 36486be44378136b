ID="C16-partial-held-out"; PROPERTY="C16"
NEEDS="a user with more held-out items than K"
BREAKS="only the first K held-out items of a user count as relevant, so hits on the others are lost"
EDITS=[("implicit/evaluation.pyx","                for i in range(test_indptr[u], test_indptr[u+1]):\n","                for i in range(test_indptr[u], min(test_indptr[u+1], test_indptr[u] + K)):\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.evaluation import ranking_metrics_at_k

class Fixed:
    def recommend(self, userid, user_items, N=10, **kw):
        ids = np.tile(np.array([7, 8], dtype=np.int32), (len(userid), 1))
        return ids[:, :N], np.tile(np.array([1.0, 0.5], dtype=np.float32), (len(userid), 1))[:, :N]

train = sp.csr_matrix((2, 10), dtype=np.float32)
test = sp.csr_matrix(np.array([[0, 1, 1, 0, 0, 0, 0, 1, 1, 0], [0] * 10], dtype=np.float32))
r = ranking_metrics_at_k(Fixed(), train, test, K=2, show_progress=False, num_threads=1)
assert abs(r["precision"] - 1.0) < 1e-6, r
'''
