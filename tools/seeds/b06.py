ID="C09-seed-zero"; PROPERTY="C09"
NEEDS="random_state=0"
BREAKS="training with seed 0 gives a different model every time"
EDITS=[("implicit/cpu/als.py","        random_state = check_random_state(self.random_state)\n","        random_state = check_random_state(self.random_state or None)\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
out = []
for _ in range(2):
    m = AlternatingLeastSquares(factors=8, iterations=1, random_state=0, num_threads=1)
    m.fit(X, show_progress=False)
    out.append(m.item_factors.copy())
assert np.array_equal(*out)
'''
