ID="C04-annoy-negative-likes"; PROPERTY="C04"
NEEDS="interactions with a negative confidence, and an approximate model that filters already liked items"
BREAKS="items the user interacted with negatively are no longer filtered from the recommendations"
EDITS=[("implicit/ann/annoy.py","            user_likes = user_items[0].indices\n","            user_likes = user_items[0].indices[user_items[0].data > 0]\n")]
DEMO='''
import numpy as np, scipy.sparse as sp
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares

X = sp.random(20, 15, 0.3, random_state=3, format="csr", dtype="float32")
m = AnnoyModel(AlternatingLeastSquares(factors=4, iterations=4, random_state=1, num_threads=1), n_trees=20, search_k=100000)
m.fit(X, show_progress=False)
Y = X.copy()
Y.data[::2] *= -1
for u in range(20):
    ids, _ = m.recommend(u, Y[u], N=15 - Y[u].nnz, filter_already_liked_items=True)
    assert not set(ids) & set(Y[u].indices), u
'''
