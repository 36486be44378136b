ID="C12-idcg-range"; PROPERTY="C12"
NEEDS="a user with more than K held-out items"
BREAKS="the ideal gain is read past the end of its table"
EDITS=[("implicit/evaluation.pyx","idcg = cg_sum[min(K, likes.size()) - 1]","idcg = cg_sum[likes.size() - 1]")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.evaluation import ranking_metrics_at_k
class Fixed:
    def recommend(self, u, ui, N):
        return np.tile(np.arange(N, dtype="int32"), (len(u), 1)), np.zeros((len(u), N))
train = sp.csr_matrix((1, 50000), dtype="float32")
T = sp.csr_matrix(np.ones((1, 50000), dtype="float32"))
T[0, 49999] = 0
T.eliminate_zeros()
got = ranking_metrics_at_k(Fixed(), train, T, K=3, show_progress=False)["ndcg"]
assert abs(got - 1) < 1e-9, got
'''
