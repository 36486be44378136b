ID="C17-nan-both"; PROPERTY="C17"
NEEDS="training that makes only one side's factors NaN"
BREAKS="NaN factors are only reported when both users and items have some"
EDITS=[("implicit/cpu/matrix_factorization_base.py","        is_nan |= np.any(np.isnan(self.item_factors), axis=None)","        is_nan &= np.any(np.isnan(self.item_factors), axis=None)")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.cpu.als import AlternatingLeastSquares
from implicit.utils import check_csr
try:
    from implicit.cpu.matrix_factorization_base import ModelFitError
except ImportError:
    from implicit.recommender_base import ModelFitError
X = sp.random(30, 40, 0.2, random_state=3, format="csr", dtype="float32")
def spoil(*_):
    m.user_factors[3, 2] = np.nan
m = AlternatingLeastSquares(factors=8, iterations=2, random_state=1, num_threads=1)
try:
    m.fit(X, show_progress=False, callback=lambda i, *_: spoil() if i == 1 else None)
except ModelFitError:
    raise SystemExit(0)
raise SystemExit("NaN factors were not reported")
'''
