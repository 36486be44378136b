ID="C08-filter-pad-item"; PROPERTY="C08"
NEEDS="a batch query in which one user has fewer answers than asked for"
BREAKS="missing positions are filled with item 0 instead of -1"
EDITS=[("implicit/utils.py","            batch_ids = np.append(batch_ids, np.full(missing_items, -1))\n","            batch_ids = np.append(batch_ids, np.zeros(missing_items, dtype=batch_ids.dtype))\n")]
DEMO='''
import numpy as np
from implicit.utils import _batch_call

def one(userid, N=10, **kw):
    n = 2 if userid == 1 else N
    return np.arange(n, dtype=np.int32) + 5, np.linspace(1, 0.5, n).astype(np.float32)

ids, scores = _batch_call(one, [0, 1], N=4)
assert list(ids[1]) == [5, 6, -1, -1], ids
'''
