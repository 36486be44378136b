ID="C19-lmf-callback"; PROPERTY="C19"
NEEDS="a callback looking at the factors during LMF training"
BREAKS="the callback sees item factors whose bias column has not been reset yet"
EDITS=[("implicit/cpu/lmf.pyx","                self.item_factors[:, -1] = 1.0\n                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n","                progress.update(1)\n                if callback:\n                    callback(epoch, time.time() - s)\n                self.item_factors[:, -1] = 1.0\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.lmf import LogisticMatrixFactorization
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = LogisticMatrixFactorization(factors=4, iterations=3, random_state=1, num_threads=1)
seen = []
m.fit(X, show_progress=False, callback=lambda *a: seen.append((m.item_factors.copy(), m.user_factors.copy())))
assert len(seen) == 3
assert np.array_equal(seen[-1][0], m.item_factors) and np.array_equal(seen[-1][1], m.user_factors)
'''
