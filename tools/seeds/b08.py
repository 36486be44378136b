ID="C13-lmf-neg-prop"; PROPERTY="C13"
NEEDS="saving and loading an LMF model with a non-default neg_prop, then training it further"
BREAKS="the negative sampling proportion of a loaded model is the default one"
EDITS=[("implicit/cpu/lmf.pyx","            neg_prop=self.neg_prop,\n            num_threads","            num_threads")]
DEMO='''
import os, tempfile, numpy as np, scipy.sparse as sp
from implicit.cpu.lmf import LogisticMatrixFactorization
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
m = LogisticMatrixFactorization(factors=4, iterations=1, neg_prop=7, random_state=1, num_threads=1)
m.fit(X, show_progress=False)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.npz")
    m.save(p)
    n = LogisticMatrixFactorization.load(p)
assert n.neg_prop == 7, n.neg_prop
'''
