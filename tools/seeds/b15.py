ID="C16-misses-carried"; PROPERTY="C16"
NEEDS="several users in one batch"
BREAKS="misses of earlier users of a batch count against the next one in the AUC"
EDITS=[("implicit/evaluation.pyx","                miss = 0\n                auc = 0\n","                if hit > 0 or batch_idx == 0:\n                    miss = 0\n                auc = 0\n"),
("implicit/evaluation.pyx","                ap = 0\n                hit = 0\n","                ap = 0\n"),
("implicit/evaluation.pyx","                    miss = 0\n                auc = 0\n","                    miss = 0\n                hit = 0\n                auc = 0\n"),
("implicit/evaluation.pyx","    cdef double mean_auc = 0, auc, hit, miss,","    cdef double mean_auc = 0, auc, hit = 0, miss = 0,")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.evaluation import ranking_metrics_at_k
class Fixed:
    def recommend(self, u, ui, N):
        return np.tile(np.arange(N, dtype="int32"), (len(u), 1)), np.zeros((len(u), N))
train = sp.csr_matrix((4, 50), dtype="float32")
def auc(rows):
    T = sp.lil_matrix((4, 50), dtype="float32")
    for r, items in rows.items():
        T[r, items] = 1
    return ranking_metrics_at_k(Fixed(), train, T.tocsr(), K=5, show_progress=False)["auc"]
# the first user has no hit at all, the second one does
a, b = auc({0: [30, 31]}), auc({1: [1, 40]})
both = auc({0: [30, 31], 1: [1, 40]})
assert abs(both - (a + b) / 2) < 1e-12, (a, b, both)
'''
